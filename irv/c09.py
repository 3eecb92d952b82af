"""C09: triangular solves"""
from big import *

def trsm(M, fn, ty, w, up, cut):
    e = engine(M); wm, ws = both(e, w); W = wm if ty == 'mzed' else ws
    n, m = W.dim('n'), W.dim('m')
    L = W.mat('L', n, n, const=True); B = W.mat('B', n, m); st = W.state()
    args = [L, B]
    if cut: c = z3.BitVec('cutoff', 32); st.pc += (c >= 64,); args.append(c)
    e.contracts.pop(fn, None); rec = big_contracts(e, W).get(fn)
    if cut: e.contracts[fn] = rec; e.recursive = {fn: n}
    b0 = mval(st, B.reg); lv = mval(st, L.reg)
    res = e.call_function(fn, args, st); post = []
    for rv, s in res:
        if not sat(list(s.pc), 5000): continue
        x = s.mem[B.reg.id]['V']
        post.append(('%s: triangle(%s) * X == B' % (fn, 'U' if up else 'L'), 'post', mequal(s.pc, vmul(app('tu' if up else 'tl', n, n, lv, (x,)), x), b0)))
        post += leaks(e, s)
    return field_result(e, post, [fn], len(res))

def jobs(tier):
    from run import Job
    J = []
    for ty, p in (('mzed', 'mzed'), ('slice', 'mzd_slice')):
        for up, nm in ((0, 'trsm_lower_left'), (1, 'trsm_upper_left')):
            for w in (2, 4, 8, 16):
                J.append(Job('_%s_%s w=%d' % (p, nm, w), trsm, '_%s_%s' % (p, nm), ty, w, up, True))
                J.append(Job('%s_%s w=%d' % (p, nm, w), trsm, '%s_%s' % (p, nm), ty, w, up, False))
                if ty == 'slice': J.append(Job('%s_%s_naive w=%d' % (p, nm, w), trsm, '%s_%s_naive' % (p, nm), ty, w, up, False))
    import elevel
    for w in (2, 4, 8, 16):
        for up, nm in ((0, 'trsm_lower_left'), (1, 'trsm_upper_left')):
            for p, x, ty in (('mzed', 'naive', 'mzed'), ('mzed', 'newton_john', 'mzed'), ('mzd_slice', 'newton_john', 'slice')):
                J.append(Job('%s_%s_%s w=%d' % (p, nm, x, w), elevel.trsm, '%s_%s_%s' % (p, nm, x), w, up, ty))
            J.append(Job('substitution lemma %s w=%d' % ('upper' if up else 'lower', w), elevel.solves, w, up))
    return J
