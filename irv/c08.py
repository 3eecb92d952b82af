"""C08: multiplication entry points"""
from big import *

def entry(M, fn, w, ty, acc, cnull, refuse, alias=False, cutoff=False):
    """refuse: arbitrary shapes, the call either stops in m4ri_die or computes the product of compatible operands;
    otherwise compatible shapes, the call must not stop"""
    e = engine(M); e.die_ok = refuse
    wm, ws = both(e, w); W = wm if ty == 'mzed' else ws
    m, k, n = W.dim('m'), W.dim('k'), W.dim('n')
    k2, m2, n2 = (W.dim('k2'), W.dim('m2'), W.dim('n2')) if refuse else (k, m, n)
    if alias: W.pc += [m == k, k == n]
    A = W.mat('A', m, k, const=True); B = A if alias else W.mat('B', k2, n, const=True); Cm = NULL if cnull else W.mat('C', m2, n2)
    st = W.state(); av, bvv = mval(st, A.reg), mval(st, B.reg); c0 = None if cnull else mval(st, Cm.reg)
    args = [Cm, A, B] + ([z3.BitVec('cutoff', 32)] if cutoff else [])
    e.contracts.pop(fn, None)
    if refuse:
        # outside the compatible shapes no contract applies: callees need compatible shapes as well
        for x in ('mzd_slice_mul_karatsuba', 'mzd_slice_addmul_karatsuba'): e.contracts.pop(x, None)
    res = e.call_function(fn, args, st); post = []
    for rv, s in res:
        if not sat(list(s.pc), 5000): continue
        if refuse:
            post.append((fn + ': incompatible operands are refused', 'post', prove(s.pc, zb(And(cmp('eq', k, k2, 32), True if cnull else And(cmp('eq', m, m2, 32), cmp('eq', n, n2, 32)))))))
        if cnull:
            if isnull(rv): post.append((fn + ': a destination is created', 'post', ('refuted', 'NULL'))); continue
            dd = dims(s, rv.reg); post.append((fn + ': the created destination has the right shape', 'post', prove(s.pc, zb(And(cmp('eq', dd[0], m, 32), cmp('eq', dd[1], n, 32))))))
        else: post.append((fn + ': returns C', 'post', 'proved' if rv.reg is Cm.reg else ('refuted', 'another matrix')))
        if refuse: continue
        sp = vmul(av, bvv)
        if acc and not cnull: sp = vadd(c0, sp)
        post.append(('%s: C == %sA*B' % (fn, 'C + ' if acc else ''), 'post', mequal(s.pc, s.mem[rv.reg.id]['V'], sp)))
        post += leaks(e, s, [rv] if cnull else [])
    return field_result(e, post, [fn], len(res))

PUBLIC = [('mzed_mul', 'mzed', 0), ('mzed_addmul', 'mzed', 1), ('mzed_mul_naive', 'mzed', 0), ('mzed_addmul_naive', 'mzed', 1), ('mzed_mul_newton_john', 'mzed', 0), ('mzed_addmul_newton_john', 'mzed', 1),
          ('mzed_mul_karatsuba', 'mzed', 0), ('mzed_addmul_karatsuba', 'mzed', 1), ('mzd_slice_mul', 'slice', 0), ('mzd_slice_addmul', 'slice', 1), ('mzd_slice_mul_karatsuba', 'slice', 0), ('mzd_slice_addmul_karatsuba', 'slice', 1)]
CUT = [('mzed_mul_strassen', 'mzed', 0), ('mzed_addmul_strassen', 'mzed', 1)]
INNER = [('_mzed_mul', 'mzed', 0), ('_mzed_addmul', 'mzed', 1), ('_mzed_addmul_karatsuba', 'mzed', 1)]
def entries(which):
    from run import Job
    J = []
    for w in (2, 4, 8, 16):
        for fn, ty, acc in which:
            c = fn in [x[0] for x in CUT]
            J.append(Job('%s w=%d' % (fn, w), entry, fn, w, ty, acc, False, False, False, c))
            J.append(Job('%s w=%d A=B' % (fn, w), entry, fn, w, ty, acc, False, False, True, c))
            if fn == '_mzed_addmul_karatsuba': J.append(Job('%s w=%d C=NULL' % (fn, w), entry, fn, w, ty, acc, True, False, False, c))
            if (fn, ty, acc) not in INNER:
                J.append(Job('%s w=%d refuses' % (fn, w), entry, fn, w, ty, acc, False, True, False, c))
                if not acc:
                    J.append(Job('%s w=%d C=NULL' % (fn, w), entry, fn, w, ty, acc, True, False, False, c))
                    J.append(Job('%s w=%d C=NULL refuses' % (fn, w), entry, fn, w, ty, acc, True, True, False, c))
    return J
def jobs(tier): return entries(PUBLIC + CUT + INNER)
