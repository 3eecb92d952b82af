"""C07: block (Strassen) products"""
from big import *

def strassen(M, fn, w, acc, square=False):
    e = engine(M); W = BW(e, 'mzed', w)
    real = fn; body = fn
    m, k, n = W.dim('m'), W.dim('k'), W.dim('n')
    if square: W.pc += [m == k, k == n]
    A = W.mat('A', m, k, const=True); B = A if square else W.mat('B', k, n, const=True); Cm = W.mat('C', m, n)
    cut = z3.BitVec('cutoff', 32)
    e.recursive = {fn: m, '_mzed_mul_strassen': m}
    st = W.state(); c0 = mval(st, Cm.reg)
    res = e.call_function(fn, [Cm, A, B, cut], st); post = []
    av, bvv = mval(st, A.reg), mval(st, B.reg); sp = vmul(av, bvv)
    if acc: sp = vadd(c0, sp)
    for rv, s in res:
        if not sat(list(s.pc), 5000): continue
        post.append((fn + ': returns C', 'post', 'proved' if rv.reg is Cm.reg else ('refuted', 'another matrix is returned')))
        post.append(('%s: C == %sA*B' % (fn, 'C + ' if acc else ''), 'post', mequal(s.pc, s.mem[Cm.reg.id]['V'], sp)))
        post += leaks(e, s)
    return field_result(e, post, [fn], len(res))

def jobs(tier):
    from run import Job
    J = []
    for w in (2, 4, 8, 16):
        for fn, acc in (('_mzed_mul_strassen', 0), ('_mzed_addmul_strassen', 1)):
            for sq in (False, True): J.append(Job('%s w=%d%s' % (fn, w, ' A=B' if sq else ''), strassen, fn, w, acc, sq, timeout=200))
    return J
