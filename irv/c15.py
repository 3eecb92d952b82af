"""C15: scalar products (sliced form); the scalar's bits are data"""
from xl import *
from c05 import c_add_modred, rsc

def scalar(M, fn, d, acc, cnull, alias=False):
    def setup(e, w):
        e.contracts['_mzd_ptr_add_modred'] = c_add_modred(d)
        m, n = w.dim('m'), w.dim('n'); B = w.mat('B', m, n, True); Cm = NULL if cnull else w.mat('C', m, n); a = data('a', 64); w.pc.append(z3.ULE(a, C(mask(d), 64)))
        def spec(e, w, s, rv):
            o = w.check_shape(s, rv, m, n, fn)
            if not cnull: o.append((fn + ': returns C', 'post', 'proved' if rv.reg is Cm.reg else ('refuted', 'another')))
            if bad(o): return o
            b = w.vals(w.st0, B); bit = lambda i: z3.Extract(i, i, a) == 1
            # coefficients of (sum a_i x^i)(sum b_j x^j), reduced
            co = [vsum([scal(bit(i), b[t - i]) for i in range(d) if 0 <= t - i < d], m, n) for t in range(2 * d - 1)]
            want = [vadd(co[i], vsum([scal(rsc(i, t), co[t]) for t in range(d, 2 * d - 1)], m, n)) for i in range(d)]
            if acc: want = [vadd(x, y) for x, y in zip(w.vals(w.st0, Cm), want)]
            return o + eqparts(w, s, rv, want, fn)
        return [Cm, a, B], spec, lambda rv: [rv] if cnull else []
    return run(M, fn, d, 'slice', setup)
def jobs(tier):
    from run import Job
    J = []
    for d in range(2, 17):
        J += [Job('mzd_slice_mul_scalar e=%d' % d, scalar, 'mzd_slice_mul_scalar', d, False, False, timeout=300), Job('mzd_slice_mul_scalar e=%d C=NULL' % d, scalar, 'mzd_slice_mul_scalar', d, False, True, timeout=300),
              Job('mzd_slice_addmul_scalar e=%d' % d, scalar, 'mzd_slice_addmul_scalar', d, True, False, timeout=300)]
    import c05
    J += [Job('add_modred e=%d' % d, c05.add_modred, d) for d in range(2, 17)]
    import c15w
    J += c15w.jobs(tier)
    return J
