"""C17: comparison and zero test. mzd_cmp(a, b) is an uninterpreted integer that is zero exactly for equal matrices (m4ri)."""
from xl import *

def cmpjob(M, d, ty):
    fn = 'mzed_cmp' if ty == 'mzed' else 'mzd_slice_cmp'
    def setup(e, w):
        m, n = w.dim('m'), w.dim('n'); A = w.mat('A', m, n, True); B = w.mat('B', m, n, True)
        def spec(e, w, s, rv):
            cs = [CMPS.get((x.a[0], y.a[0])) for x, y in zip(w.vals(s, A), w.vals(s, B))]
            # a part that was never compared may differ
            cs = [c if c is not None else z3.BitVec('uncompared%d' % i, 32) for i, c in enumerate(cs)]
            return [(fn + ': zero exactly when every part is equal', 'post', prove(s.pc, zb(cmp('eq', rv, 0, 32)) == z3.And(*[c == 0 for c in cs])))]
        return [A, B], spec, []
    return run(M, fn, d, ty, setup)
def otherfield(M, d):
    """matrices over different fields or of different depth are not equal"""
    fn = 'mzd_slice_cmp'
    def setup(e, w):
        m, n = w.dim('m'), w.dim('n'); A = w.mat('A', m, n, True); B = w.mat('B', m, n, True); f2 = XFF(d, 'ff2'); w.mem[f2.reg.id] = f2.mem
        w.mem[B.reg.id] = dict(w.mem[B.reg.id]); w.mem[B.reg.id][144] = f2.ptr
        return [A, B], (lambda e, w, s, rv: [(fn + ': different fields give non-zero', 'post', prove(s.pc, zb(cmp('ne', rv, 0, 32))))]), []
    return run(M, fn, d, 'slice', setup)
def zerojob(M, d, ty):
    fn = 'mzed_is_zero' if ty == 'mzed' else 'mzd_slice_is_zero'
    def setup(e, w):
        m, n = w.dim('m'), w.dim('n'); A = w.mat('A', m, n, True); ZF.clear(); ZC[0] = 0
        def spec(e, w, s, rv):
            by = {}
            for k, v in ZF.items(): by.setdefault(v.a[0] if v.op == 'atom' else v.id, []).append(z3.Bool(k))
            cs = []; ax = []
            for i, x in enumerate(w.vals(s, A)):
                l = by.get(x.a[0], [z3.Bool('untested%d' % i)]); cs.append(l[0]); ax += [l[0] == y for y in l[1:]]
            return [(fn + ': true exactly when every part is zero', 'post', prove(list(s.pc) + ax, zb(cmp('ne', rv, 0, 32)) == z3.And(*cs)))]
        return [A], spec, []
    return run(M, fn, d, ty, setup, unroll=20)
def jobs(tier):
    from run import Job
    J = []
    for d in range(2, 17):
        for ty in ('mzed', 'slice'):
            J.append(Job('cmp %s e=%d' % (ty, d), cmpjob, d, ty)); J.append(Job('is_zero %s e=%d' % (ty, d), zerojob, d, ty))
        J.append(Job('cmp slice e=%d other field' % d, otherfield, d))
    return J
