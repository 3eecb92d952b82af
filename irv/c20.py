"""C20: polynomials with matrix coefficients. The number of coefficients is a constant of each contract (bounded where a
function accepts any number); shapes, values and the algorithm below are for all. mzd_poly_t {x@0, nrows@8, ncols@12, depth@16}."""
from mlevel import *
from c05 import c_kara, kara_contracts, vals

class PW(MW):
    def poly(s, name, m, n, dep, const=False, heap=False):
        ps = []
        for i in range(dep):
            p = s.mzd('%s%d' % (name, i), m, n, const); p.reg.heap = heap; ps.append(p)
        xs = Region('struct', name + '.x', size=8 * dep, heap=heap, const=const); s.mem[xs.id] = {8 * i: p for i, p in enumerate(ps)} | {'live': 1}
        h = Region('struct', name, size=24, heap=heap, const=const); s.mem[h.id] = {0: Ptr(xs, 0), 8: m, 12: n, 16: dep, 'live': 1}
        return Ptr(h, 0), ps
def setup(M, **c):
    e = engine(M); e.contracts.update(c); return e, PW(e)
def check(e, s, rv, dep, m, n, want, fn, same=None, coeffs=None):
    """rv has dep coefficients of shape m x n with the values `want`"""
    if not isinstance(rv, Ptr) or rv.reg is None: return [(fn + ': returns a polynomial', 'post', ('refuted', repr(rv)))]
    d = s.mem[rv.reg.id]; o = []
    if same is not None: o.append((fn + ': returns the destination', 'post', 'proved' if rv.reg is same.reg else ('refuted', 'another')))
    o.append((fn + ': %d coefficients, shape' % dep, 'post', prove(s.pc, zb(And(cmp('eq', d[16], dep, 32), cmp('eq', d[8], m, 32), cmp('eq', d[12], n, 32))))))
    if o[-1][2] != 'proved': return o
    xs = d[0]; ax = s.mem[xs.reg.id]
    o.append((fn + ': the array has room for every coefficient', 'post', 'proved' if xs.reg.size >= 8 * dep and ax.get('live', 1) == 1 else ('refuted', 'size %d' % xs.reg.size)))
    ps = [ax.get(8 * i) for i in range(dep)]
    for i, p in enumerate(ps):
        if not isinstance(p, Ptr) or p.reg is None or s.mem[p.reg.id].get('live', 1) != 1: o.append((fn + ': coefficient %d is a matrix' % i, 'post', ('refuted', repr(p)))); return o
        a, b = dims(s, p.reg); o.append((fn + ': shape of coefficient %d' % i, 'post', prove(s.pc, zb(And(cmp('eq', a, m, 32), cmp('eq', b, n, 32))))))
        if any(q.reg is p.reg for q in ps[:i]): o.append((fn + ': coefficients are distinct', 'post', ('refuted', 'shared')))
    if any(x[2] != 'proved' for x in o): return o
    r = mequal_many(s.pc, [(mval(s, p.reg), want[i]) for i, p in enumerate(ps)])
    return o + [('%s: coefficient %d' % (fn, i), 'post', r) for i in range(len(ps))]
def finish(e, fn, res, f, extra=()):
    post = []; n = 0
    for rv, s in res:
        if not sat(list(s.pc), 5000): continue
        n += 1; p, keep = f(rv, s); post += p
        if not any(x[2] != 'proved' for x in p): post += leaks(e, s, keep)
    return result(e, post, [fn], n, extra)
def conv(a, b, m, n): return [vsum([vmul(a[i], b[t - i]) for i in range(len(a)) if 0 <= t - i < len(b)], m, n) for t in range(len(a) + len(b) - 1)]

def init(M, dep):
    fn = 'mzd_poly_init'; e, w = setup(M); m, n = w.dim('m'), w.dim('n')
    res = e.call_function(fn, [dep - 1, m, n], w.state())
    return finish(e, fn, res, lambda rv, s: (check(e, s, rv, dep, m, n, [zero(m, n)] * dep, fn), [rv]))
def free_(M, dep):
    fn = 'mzd_poly_free'; e, w = setup(M); m, n = w.dim('m'), w.dim('n'); A, ps = w.poly('A', m, n, dep, heap=True)
    res = e.call_function(fn, [A], w.state())
    return finish(e, fn, res, lambda rv, s: ([(fn + ': everything is released', 'post', 'proved' if all(s.mem[r].get('live', 1) == 0 for r in [A.reg.id, w.mem[A.reg.id][0].reg.id] + [p.reg.id for p in ps]) else ('refuted', 'something stays allocated'))], []))
def adapt(M, old, new):
    fn = '_mzd_poly_adapt_depth'; e, w = setup(M); m, n = w.dim('m'), w.dim('n'); A, ps = w.poly('A', m, n, old, heap=True); a = vals(w, ps); st = w.state()
    res = e.call_function(fn, [A, new], st)
    want = [a[i] if i < old else zero(m, n) for i in range(new)]
    gone = lambda s: [(fn + ': coefficient %d is released' % i, 'post', 'proved' if s.mem[p.reg.id].get('live', 1) == 0 else ('refuted', 'still allocated')) for i, p in enumerate(ps) if i >= new]
    return finish(e, fn, res, lambda rv, s: (check(e, s, rv, new, m, n, want, fn, A) + gone(s), [A]))
def addj(M, fn, dep, cdep, off, mode=''):
    e, w = setup(M); m, n = w.dim('m'), w.dim('n'); A, pa = w.poly('A', m, n, dep, mode not in ('C=A',)); B, pb = (A, pa) if mode == 'A=B' else w.poly('B', m, n, dep, True)
    Cm, pc = (A, pa) if mode == 'C=A' else w.poly('C', m, n, cdep); st = w.state(); a, b, c = vals(w, pa), vals(w, pb), vals(w, pc)
    args = [Cm, A, B] + ([off] if fn == '_mzd_poly_add' else [])
    res = e.call_function(fn, args, st); want = [vadd(a[i - off], b[i - off]) if off <= i < off + dep else c[i] for i in range(len(pc))]
    return finish(e, fn, res, lambda rv, s: (check(e, s, rv, len(pc), m, n, want, fn, Cm), []))
def blm_contract(da, db):
    """_mzd_ptr_apply_blm with a map for lengths da, db (C12): X[t] = sum A[i] B[t-i]"""
    def f(e, st, v):
        X, A, B, _f = v; n_ = '_mzd_ptr_apply_blm'
        g = lambda P, n, w: [handle(e, st, e.load(st, Ptr(P.reg, P.off + 8 * i), 'ptr'), w) for i in range(n)]
        Xr, Ar, Br = g(X, da + db - 1, n_ + ' X'), g(A, da, n_ + ' A'), g(B, db, n_ + ' B'); m, k = dims(st, Ar[0]); k2, n = dims(st, Br[0])
        for l, (a, b) in ((Xr, (m, n)), (Ar, (m, k)), (Br, (k, n))):
            for r in l: x = dims(st, r); eqdim(e, st, x[0], a, n_ + ': rows'); eqdim(e, st, x[1], b, n_ + ': columns')
        for i, r in enumerate(Xr):
            for q in Xr[:i] + Ar + Br: noalias(e, st, r, q, n_)
        for r, s in zip(Xr, conv([mval(st, r) for r in Ar], [mval(st, r) for r in Br], m, n)): setval(e, st, r, s)
        return None
    return f
def mulj(M, fn, da, db, cnull, alias=False, extra=0):
    e, w = setup(M); kara_contracts(e); m, k, n = w.dim('m'), w.dim('k'), w.dim('n')
    if alias: w.pc += [m == k, k == n]
    A, pa = w.poly('A', m, k, da, True); B, pb = (A, pa) if alias else w.poly('B', k, n, db, True)
    cd = da + db if cnull else da + db - 1 + extra; Cm, pc = (NULL, []) if cnull else w.poly('C', m, n, cd)
    args = [Cm, A, B]; asm = []
    if fn in ('_mzd_poly_addmul_blm', '_mzd_poly_addmul_crt'):
        fm = blm(w, da, db); asm = ['contract of _mzd_ptr_apply_blm / blm_init_crt: the map computes the product for its lengths (C12)']
        e.contracts['_mzd_ptr_apply_blm'] = blm_contract(da, db)
        if fn == '_mzd_poly_addmul_blm': args.append(fm)
        else:
            def crt(e, st, v):
                e.oblige(st, And(cmp('eq', v[0], da, 32), cmp('eq', v[1], db, 32)), 'crt_init: lengths of the operands', 'pre'); r = Region('struct', 'primes', size=68, heap=True); st.mem[r.id] = {'live': 1}; return Ptr(r, 0)
            def bi(e, st, v):
                ff, a, b, p, djb = v
                e.oblige(st, And(isnull(ff), cmp('eq', a, da, 32), cmp('eq', b, db, 32), isinstance(p, Ptr) and p.reg is not None and p.reg.name == 'primes' and st.mem[p.reg.id]['live'] == 1), 'blm_init_crt: lengths of the operands, no reduction, live list of primes', 'pre')
                r = Region('struct', 'blm', size=48, heap=True); st.mem[r.id] = {'live': 1}; return Ptr(r, 0)
            def bf(e, st, v):
                d = dict(st.mem[v[0].reg.id]); e.oblige(st, d.get('live', 1) == 1, 'blm_free: live map', 'pre'); d['live'] = 0; st.mem[v[0].reg.id] = d; return None
            def ab(e, st, v):
                c, a, b, f = v; e.oblige(st, f.reg is not None and st.mem[f.reg.id].get('live', 1) == 1, 'the map is live', 'pre')
                e.oblige(st, And(a.reg is A.reg, b.reg is B.reg), 'the map is applied to the operands it was made for', 'pre')
                if isnull(c): rs = newpoly(e, st, da + db, m, n)
                else: rs = c
                xs = st.mem[st.mem[rs.reg.id][0].reg.id]
                for i, x in enumerate(conv(vals(w, pa), vals(w, pb), m, n)): r = handle(e, st, xs[8 * i], fn); setval(e, st, r, vadd(mval(st, r), x))
                return rs
            e.contracts.update({'crt_init': crt, 'blm_init_crt': bi, 'blm_free': bf, '_mzd_poly_addmul_blm': ab})
    st = w.state(); res = e.call_function(fn, args, st)
    pr = conv(vals(w, pa), vals(w, pb), m, n); pr += [zero(m, n)] * (cd - len(pr)); want = pr if cnull else [vadd(c, x) for c, x in zip(vals(w, pc), pr)]
    return finish(e, fn, res, lambda rv, s: (check(e, s, rv, cd, m, n, want, fn, None if cnull else Cm), [rv] if cnull else []), asm)
def newpoly(e, st, dep, m, n):
    ps = [newmzd(e, st, m, n) for _ in range(dep)]; xs = Region('struct', 'px', size=8 * dep, heap=True); st.mem[xs.id] = {8 * i: p for i, p in enumerate(ps)} | {'live': 1}
    h = Region('struct', 'p', size=24, heap=True); st.mem[h.id] = {0: Ptr(xs, 0), 8: m, 12: n, 16: dep, 'live': 1}; return Ptr(h, 0)
def blm(w, da, db):
    """a blm_t whose F and G have da and db columns"""
    r = w.dim('rank', lo=1); F = w.mzd('F', r, da, True); G = w.mzd('G', r, db, True); H = w.mzd('H', da + db - 1, r, True)
    h = Region('struct', 'blm', size=48, const=True); w.mem[h.id] = {0: H, 8: NULL, 16: F, 24: NULL, 32: G, 40: NULL}; return Ptr(h, 0)
def cmpj(M, da, db):
    fn = 'mzd_poly_cmp'; e, w = setup(M, mzd_cmp=cmp_contract); CMPS.clear(); m, n = w.dim('m'), w.dim('n'); A, pa = w.poly('A', m, n, da, True); B, pb = w.poly('B', m, n, db, True)
    res = e.call_function(fn, [A, B], w.state())
    def f(rv, s):
        if da != db: return [(fn + ': different lengths are different', 'post', prove(s.pc, zb(cmp('ne', rv, 0, 32))))], []
        cs = [CMPS.get((x.a[0], y.a[0])) for x, y in zip(vals(w, pa), vals(w, pb))]; cs = [c if c is not None else z3.BitVec('uncompared%d' % i, 32) for i, c in enumerate(cs)]
        return [(fn + ': zero exactly when every coefficient is equal', 'post', prove(s.pc, zb(cmp('eq', rv, 0, 32)) == z3.And(*[c == 0 for c in cs])))], []
    return finish(e, fn, res, f)
def jobs(tier):
    from run import Job
    J = []; B = 'number of coefficients'
    D = [1, 2, 3, 4, 7, 16, 17, 32, 33, 40]
    for d in D:
        J += [Job('mzd_poly_init depth=%d' % d, init, d, bounded=B + ' 0..40'), Job('mzd_poly_free depth=%d' % d, free_, d, bounded=B + ' 0..40')]
    for o in range(0, 8):
        for n in range(0, 8): J.append(Job('_mzd_poly_adapt_depth %d->%d' % (o, n), adapt, o, n, bounded=B + ' 0..7, 33'))
    J += [Job('_mzd_poly_adapt_depth %d->%d' % x, adapt, *x, bounded=B + ' 0..7, 33') for x in ((33, 5), (5, 33), (33, 33))]
    for d in range(0, 36):
        J.append(Job('mzd_poly_add depth=%d' % d, addj, 'mzd_poly_add', d, d, 0, bounded=B + ' 0..35')); J.append(Job('mzd_poly_add depth=%d C=A' % d, addj, 'mzd_poly_add', d, d, 0, 'C=A', bounded=B + ' 0..35'))
        J.append(Job('mzd_poly_add depth=%d longer C' % d, addj, 'mzd_poly_add', d, d + 2, 0, bounded=B + ' 0..35')); J.append(Job('mzd_poly_add depth=%d A=B' % d, addj, 'mzd_poly_add', d, d, 0, 'A=B', bounded=B + ' 0..35'))
        for off in (1, 3): J.append(Job('_mzd_poly_add depth=%d offset=%d' % (d, off), addj, '_mzd_poly_add', d, d + off + 1, off, bounded=B + ' 0..35'))
    for a in range(1, 9):
        for b in range(1, 9):
            for fn in ('_mzd_poly_addmul_naive', '_mzd_poly_addmul_blm', '_mzd_poly_addmul_crt'):
                J.append(Job('%s %dx%d' % (fn, a, b), mulj, fn, a, b, False, bounded=B + ' 1..8')); J.append(Job('%s %dx%d C=NULL' % (fn, a, b), mulj, fn, a, b, True, bounded=B + ' 1..8'))
                if a == b: J.append(Job('%s %dx%d A=B' % (fn, a, b), mulj, fn, a, b, False, True, bounded=B + ' 1..8'))
                J.append(Job('%s %dx%d longer C' % (fn, a, b), mulj, fn, a, b, False, False, 2, bounded=B + ' 1..8'))
            J.append(Job('mzd_poly_cmp %d %d' % (a, b), cmpj, a, b, bounded=B + ' 1..8'))
    for d in range(1, 17):
        fn = '_mzd_poly_addmul_karatsubs_balanced'
        for nl in (False, True): J.append(Job('%s depth=%d%s' % (fn, d, ' C=NULL' if nl else ''), mulj, fn, d, d, nl))
        J.append(Job('%s depth=%d A=B' % (fn, d), mulj, fn, d, d, False, True))
        import c05
        if d > 1: J.append(Job('karatsuba%d poly' % d, c05.karatsuba, d, False, False, timeout=120))
    return J
