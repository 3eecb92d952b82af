"""C05: products of sliced matrices are products of polynomials modulo the minimal polynomial."""
from mlevel import *

def rsc(i, t): return 'r%d_%d' % (i, t)     # bit i of x^t mod minpoly
def red_vals(e, coeffs):
    """coeffs: dict t -> V (coefficients of the unreduced product); returns list of e V's"""
    pass

class FF:
    """symbolic field of degree d at matrix level"""
    def __init__(s, d):
        s.d = d; s.reg = Region('struct', 'ff', size=56); s.ptr = Ptr(s.reg, 0)
        s.mem = {0: d}
def c_add_modred(d):
    """_mzd_ptr_add_modred(ff, A, X, t): X += A x^t modulo the minimal polynomial (ff != NULL), X[t] += A otherwise"""
    def f(e, st, v):
        ff, A, X, t = v
        if not is_c(t): raise Unsupported('symbolic degree')
        ra = handle(e, st, A, '_mzd_ptr_add_modred'); av = mval(st, ra); da = dims(st, ra)
        e.oblige(st, t >= 0, '_mzd_ptr_add_modred: degree not negative', 'pre')
        if not isnull(ff) and d is not None and t >= d:
            e.oblige(st, t <= 2 * d - 2, '_mzd_ptr_add_modred: degree at most 2e-2', 'pre')
            idx = [(i, rsc(i, t)) for i in range(d)]
        else: idx = [(t, None)]
        for i, s in idx:
            p = e.load(st, Ptr(X.reg, X.off + 8 * i), 'ptr'); r = handle(e, st, p, '_mzd_ptr_add_modred')
            b = dims(st, r); eqdim(e, st, b[0], da[0], '_mzd_ptr_add_modred: rows'); eqdim(e, st, b[1], da[1], '_mzd_ptr_add_modred: columns')
            noalias(e, st, r, ra, '_mzd_ptr_add_modred')
            setval(e, st, r, vadd(mval(st, r), av if s is None else scal(s, av)))
        return None
    return f


def prod_spec(av, bvv, d, withff, m, n):
    """coefficients of (sum a_i x^i)(sum b_j x^j), reduced modulo the minimal polynomial when withff"""
    co = [vsum([vmul(av[i], bvv[t - i]) for i in range(d) if 0 <= t - i < d], m, n) for t in range(2 * d - 1)]
    if not withff: return co
    return [vadd(co[i], vsum([scal(rsc(i, t), co[t]) for t in range(d, 2 * d - 1)], m, n)) for i in range(d)]

def karatsuba(M, d, withff, alias):
    """_mzd_ptr_addmul_karatsuba<d>: X += A B"""
    e = engine(M); e.contracts['_mzd_ptr_add_modred'] = c_add_modred(d)
    w = MW(e); m, k, n = w.dim('m'), w.dim('k'), w.dim('n')
    if alias: w.pc += [m == k, k == n]
    ff = FF(d); w.mem[ff.reg.id] = ff.mem
    nx = d if withff else 2 * d - 1
    X = [w.mzd('X%d' % i, m, n) for i in range(nx)]
    A = [w.mzd('A%d' % i, m, k, const=True) for i in range(d)]
    B = A if alias else [w.mzd('B%d' % i, k, n, const=True) for i in range(d)]
    Xp = w.ptrarray('X', X); Ap = w.ptrarray('A', A); Bp = Ap if alias else w.ptrarray('B', B)
    st = w.state(); fn = '_mzd_ptr_addmul_karatsuba%d' % d
    res = e.call_function(fn, [ff.ptr if withff else NULL, Xp, Ap, Bp], st)
    x0 = vals(st, X); spec = prod_spec(vals(st, A), vals(st, B), d, withff, m, n); post = []
    for rv, s in res:
        for i in range(nx): post.append(('%s: X[%d] += coefficient %d of A*B' % (fn, i, i), 'post', mequal(s.pc, s.mem[X[i].reg.id]['V'], vadd(x0[i], spec[i]))))
        post += leaks(e, s)
    return result(e, post, [fn], len(res))

def add_modred(M, d):
    """body of _mzd_ptr_add_modred for every t, with ff and (one representative degree) without"""
    post = []; tot = 0; eo = None; obs = []
    for withff in ((True, False) if d == 16 else (True,)):
        for t in range(2 * d - 1):
            e = engine(M); w = MW(e); m, n = w.dim('m'), w.dim('n'); ff = FF(d)
            pg = Region('struct', 'pow_gen', size=8 * (2 * d - 1), const=True); P = {}
            for i in range(2 * d - 1): P[8 * i] = data('pow%d' % i, 64)
            w.mem[pg.id] = P; ff.mem[16] = Ptr(pg, 0); w.mem[ff.reg.id] = ff.mem
            for i in range(2 * d - 1): w.pc.append(z3.ULE(P[8 * i], C(mask(d), 64)))
            nx = d if withff else 2 * d - 1
            X = [w.mzd('X%d' % i, m, n) for i in range(nx)]; A = w.mzd('A', m, n, const=True); st = w.state()
            res = e.call_function('_mzd_ptr_add_modred', [ff.ptr if withff else NULL, A, w_arr(w, st, X), t], st)
            av = vals(st, [A])[0]; x0 = vals(st, X)
            for rv, s in res:
                for i in range(nx):
                    if withff and t >= d: sp = vadd(x0[i], scal(z3.Extract(i, i, P[8 * t]) == 1, av))
                    else: sp = vadd(x0[i], av) if i == t else x0[i]
                    post.append(('_mzd_ptr_add_modred(t=%d): X[%d]' % (t, i), 'post', mequal(s.pc, s.mem[X[i].reg.id]['V'], sp)))
                post += leaks(e, s)
            tot += len(res); obs += e.obs; eo = e
    eo.obs = obs
    return result(eo, post, ['_mzd_ptr_add_modred'], tot)
def w_arr(w, st, ps):
    p = w.ptrarray('X', ps); st.mem[p.reg.id] = w.mem[p.reg.id]; return p

def c_kara(d):
    """contract of _mzd_ptr_addmul_karatsuba<d>"""
    def f(e, st, v):
        ff, X, A, B = v
        e.oblige(st, d == d, 'degree', 'pre')
        dd = None
        if not isnull(ff):
            dd = e.load(st, Ptr(ff.reg, 0), 'i32'); e.oblige(st, dd == d, 'karatsuba%d is called for degree %d' % (d, d), 'pre')
        nx = d if dd else 2 * d - 1
        g = lambda P, n, nm: [handle(e, st, e.load(st, Ptr(P.reg, P.off + 8 * i), 'ptr'), nm) for i in range(n)]
        Xr, Ar, Br = g(X, nx, 'karatsuba X'), g(A, d, 'karatsuba A'), g(B, d, 'karatsuba B')
        m, k = dims(st, Ar[0]); k2, n = dims(st, Br[0])
        for l, (a, b) in ((Xr, (m, n)), (Ar, (m, k)), (Br, (k, n))):
            for r in l:
                x = dims(st, r); eqdim(e, st, x[0], a, 'karatsuba: rows'); eqdim(e, st, x[1], b, 'karatsuba: columns')
        for i, r in enumerate(Xr):
            for j, q in enumerate(Xr):
                if j < i: noalias(e, st, r, q, 'karatsuba')
            for q in Ar + Br: noalias(e, st, r, q, 'karatsuba')
        sp = prod_spec([mval(st, r) for r in Ar], [mval(st, r) for r in Br], d, bool(dd), m, n)
        for r, s in zip(Xr, sp): setval(e, st, r, vadd(mval(st, r), s))
        return None
    return f
def kara_contracts(e):
    for d in range(2, 17): e.contracts['_mzd_ptr_addmul_karatsuba%d' % d] = c_kara(d)

def slice_world(M, d, shapes, const=('A', 'B')):
    e = engine(M); w = MW(e); ff = FF(d); w.mem[ff.reg.id] = ff.mem; e.contracts['_mzd_ptr_add_modred'] = c_add_modred(d); kara_contracts(e)
    D = {}; S = {}; P = {}
    for nm, (a, b) in shapes.items():
        for x in (a, b):
            if x not in D: D[x] = w.dim(x)
        S[nm], P[nm] = w.slice(nm, D[a], D[b], d, ff.ptr, nm in const)
    return e, w, ff, D, S, P

def slice_mul(M, d, fn, acc, cnull, alias=False):
    """public product entry points on slices"""
    sh = {'A': ('m', 'k'), 'B': ('k', 'n')} if not alias else {'A': ('m', 'm')}
    if not cnull: sh['C'] = ('m', 'm' if alias else 'n')
    e, w, ff, D, S, P = slice_world(M, d, sh); st = w.state()
    A = S['A']; B = S['A'] if alias else S['B']
    res = e.call_function(fn, [NULL if cnull else S['C'], A, B], st)
    av = vals(st, P['A']); bvv = vals(st, P['A' if alias else 'B']); m, n = D['m'], D['m' if alias else 'n']
    spec = prod_spec(av, bvv, d, True, m, n); post = []
    for rv, s in res:
        dd = s.mem[rv.reg.id]
        post.append((fn + ': returns C' if not cnull else fn + ': new matrix has the right shape and field', 'post', prove(s.pc, zb(And(rv.reg is S['C'].reg if not cnull else True, cmp('eq', dd[128], m, 32), cmp('eq', dd[132], n, 32), dd[136] == d, dd[144].reg is ff.reg)))))
        X = slice_parts(e, s, rv)
        for i in range(d):
            sp = vadd(vals(st, P['C'])[i], spec[i]) if acc and not cnull else spec[i]
            post.append(('%s: slice %d of the result' % (fn, i), 'post', mequal(s.pc, s.mem[X[i].reg.id]['V'], sp)))
        post += leaks(e, s, [rv] if cnull else [])
    return result(e, post, [fn], len(res))

def jobs(tier):
    from run import Job
    J = []
    for d in range(2, 17):
        for withff in (True, False):
            J.append(Job('karatsuba%d %s' % (d, 'ff' if withff else 'poly'), karatsuba, d, withff, False, timeout=120))
        J.append(Job('karatsuba%d ff A=B' % d, karatsuba, d, True, True, timeout=120))
        J.append(Job('add_modred e=%d' % d, add_modred, d))
        for fn, acc, nulls in (('mzd_slice_mul_karatsuba', 0, (0, 1)), ('mzd_slice_addmul_karatsuba', 1, (0,)), ('_mzd_slice_addmul_karatsuba', 1, (0, 1)), ('_mzd_slice_addmul_naive', 1, (0, 1)), ('mzd_slice_mul', 0, (0, 1)), ('mzd_slice_addmul', 1, (0,))):
            for nl in nulls: J.append(Job('%s e=%d%s' % (fn, d, ' C=NULL' if nl else ''), slice_mul, d, fn, acc, nl))
        J.append(Job('mzd_slice_mul e=%d A=B' % d, slice_mul, d, 'mzd_slice_mul', 0, 0, True))
    return J
