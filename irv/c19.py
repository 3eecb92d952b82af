"""C19: permutations. mzd_apply_p_* (m4ri) act on whole rows / columns of one bit matrix by an unspecified action of P,
the same for every matrix with the same shape; mzed_apply_p_right* are proved to be the recorded sequence of column swaps."""
from xl import *
from big import *

def perm(w, n, name='P'):
    """mzp_t with `length` entries; entries below n"""
    ln = w.dim('length'); r = Region('arr', name + '.values', es=4, length=ln, const=True); f = z3.Function('P_values', z3.BitVecSort(32), z3.BitVecSort(32))
    def ax(app): return [z3.ULT(app, bv(n, 32))]
    UFAX['P_values'] = ax
    w.mem[r.id] = Mem.base(lambda rr, k: f(bv(k, 32)), 32)
    h = Region('struct', name, size=16, const=True); w.mem[h.id] = {0: Ptr(r, 0), 8: ln}; return Ptr(h, 0), f, ln

def left(M, fn, base, d, ty):
    def setup(e, w):
        m, n = w.dim('m'), w.dim('n'); A = w.mat('A', m, n); P, f, ln = perm(w, m)
        def spec(e, w, s, rv): return eqparts(w, s, A, [fun('apply_p_%s:P' % base, m, w.bits(n), x) for x in w.vals(w.st0, A)], fn)
        return [A, P], spec, []
    return run(M, fn, d, ty, setup)
def right(M, fn, w_, trans):
    e = engine(M); W = BW(e, 'mzed', w_); e.contracts.update(rowcol_contracts('mzed'))
    m, n = W.dim('m'), W.dim('n', lo=1); A = W.mat('A', m, n); P, f, ln = perm(W, n); st = W.state(); a0 = mval(st, A.reg)
    res = e.call_function(fn, [A, P], st); post = []
    T = ite(cmp('ult', ln, n, 32), ln, n, 32); t = fresh('tt'); i = t if trans else sub(sub(T, 1, 32), t, 32); pv = atom('prev', m, n)
    sp = fold(m, n, t, T, pv, v_colswap(pv, i, f(bv(i, 32))), a0)
    for rv, s in res:
        if not sat(list(s.pc), 5000): continue
        post.append((fn + ': the recorded column swaps in %s order' % ('recorded' if trans else 'reverse'), 'post', mequal(list(s.pc), s.mem[A.reg.id]['V'], sp)))
    return field_result(e, post, [fn], len(res))
def jobs(tier):
    from run import Job
    J = []
    for d in range(2, 17):
        for b in ('left', 'left_trans', 'right', 'right_trans', 'right_trans_tri'):
            J.append(Job('mzd_slice_apply_p_%s e=%d' % (b, d), left, 'mzd_slice_apply_p_' + b, b, d, 'slice'))
            if b.startswith('left'): J.append(Job('mzed_apply_p_%s e=%d' % (b, d), left, 'mzed_apply_p_' + b, b, d, 'mzed'))
    for w in (2, 4, 8, 16):
        J.append(Job('mzed_apply_p_right w=%d' % w, right, 'mzed_apply_p_right', w, False)); J.append(Job('mzed_apply_p_right_trans w=%d' % w, right, 'mzed_apply_p_right_trans', w, True))
    import c13
    for d in range(2, 17): J.append(Job('mzed_col_swap e=%d' % d, c13.job, 'mzed_col_swap', d, 'mzed', c13.op_rows, ('col_swap',)))
    return J
