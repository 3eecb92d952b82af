"""C12: bilinear maps. blm_t {H@0, h@8, F@16, f@24, G@32, g@40}; djb_t {nrows@0, ncols@4, target@8, source@16, srctyp@24, length@32, allocated@36}."""
from mlevel import *
from c05 import prod_spec, rsc, c_add_modred
import random, itertools

def bits(w, name, nr, nc, const=True):
    """a bit matrix with concrete shape and arbitrary entries"""
    p = w.mzd(name, nr, nc, const); p.reg.bits = {(i, j): data('%s_%d_%d' % (name, i, j), 1) for i in range(nr) for j in range(nc)}; return p
def read_bit(e, st, v):
    m, i, j = v; r = handle(e, st, m, 'mzd_read_bit')
    if not (is_c(i) and is_c(j)): raise Unsupported('mzd_read_bit at a symbolic position')
    if not getattr(r, 'bits', None): raise Unsupported('mzd_read_bit on %s' % r.name)
    if (i, j) not in r.bits: e.oblige(st, False, 'mzd_read_bit: position (%d, %d) inside %s' % (i, j, r.name), 'pre'); raise Dead()
    return norm(z3.ZeroExt(31, r.bits[i, j]))
B1 = lambda r, i, j: r.bits[i, j] == 1
def apply_spec(F, G, H, A, B, m, k, n, rank, da, db, dc):
    f = [vsum([scal(B1(F, i, j), A[j]) for j in range(da)], m, k) for i in range(rank)]; g = [vsum([scal(B1(G, i, j), B[j]) for j in range(db)], k, n) for i in range(rank)]
    t = [vmul(x, y) for x, y in zip(f, g)]
    return [vsum([scal(B1(H, c, i), t[i]) for i in range(rank)], m, n) for c in range(dc)]
def blm(w, rank, da, db, dc, h=NULL, f=NULL, g=NULL):
    F, G, H = bits(w, 'F', rank, da), bits(w, 'G', rank, db), bits(w, 'H', dc, rank)
    b = Region('struct', 'blm', size=48, const=True); w.mem[b.id] = {0: H, 8: h, 16: F, 24: f, 32: G, 40: g}; return Ptr(b, 0), F.reg, G.reg, H.reg
def djb_contract(which):
    """djb_apply_mzd_ptr(d, W, V): W[i] = sum over the map's bits of V[j]; which: djb region id -> bit matrix"""
    def f(e, st, v):
        dj, W, Vp = v
        if not isinstance(dj, Ptr) or dj.reg is None or dj.reg.id not in which: raise Unsupported('djb_apply_mzd_ptr: map %r' % (dj,))
        r = which[dj.reg.id]; nr = 1 + max(i for i, j in r.bits); nc = 1 + max(j for i, j in r.bits)
        g = lambda P, n, w: [handle(e, st, e.load(st, Ptr(P.reg, P.off + 8 * i), 'ptr'), 'djb_apply ' + w) for i in range(n)]
        Wr, Vr = g(W, nr, 'W'), g(Vp, nc, 'V'); a, b = dims(st, Vr[0])
        for x in Wr + Vr: p = dims(st, x); eqdim(e, st, p[0], a, 'djb_apply: rows'); eqdim(e, st, p[1], b, 'djb_apply: columns')
        for i, x in enumerate(Wr):
            for y in Wr[:i] + Vr: noalias(e, st, x, y, 'djb_apply')
        vv = [mval(st, x) for x in Vr]
        for i, x in enumerate(Wr): setval(e, st, x, vsum([scal(B1(r, i, j), vv[j]) for j in range(nc)], a, b))
        return None
    return f
def apply(M, fn, rank, da, db, alias=False, dc=None):
    e = engine(M); e.contracts['mzd_read_bit'] = read_bit; e.contracts['_mzd_ptr_add_modred'] = c_add_modred(None)
    w = MW(e); m, k, n = w.dim('m'), w.dim('k'), w.dim('n'); dc = dc or da + db - 1
    if alias: w.pc += [m == k, k == n]
    dj = [Region('struct', x, size=40, const=True) for x in ('djb_f', 'djb_g', 'djb_h')]
    usedj = fn != '_mzd_ptr_apply_blm_mzd' and not fn.endswith('plain')
    for x in dj: w.mem[x.id] = {}
    f, F, G, H = blm(w, rank, da, db, dc, *([Ptr(dj[2], 0), Ptr(dj[0], 0), Ptr(dj[1], 0)] if usedj else []))
    e.contracts['djb_apply_mzd_ptr'] = djb_contract({dj[0].id: F, dj[1].id: G, dj[2].id: H})
    X = [w.mzd('X%d' % i, m, n) for i in range(dc)]; A = [w.mzd('A%d' % i, m, k, True) for i in range(da)]; B = A if alias else [w.mzd('B%d' % i, k, n, True) for i in range(db)]
    Xp, Ap = w.ptrarray('X', X), w.ptrarray('A', A); Bp = Ap if alias else w.ptrarray('B', B); st = w.state(); fn = fn.split()[0]
    res = e.call_function(fn, [Xp, Ap, Bp, f], st); post = []
    sp = apply_spec(F, G, H, vals(st, A), vals(st, B), m, k, n, rank, da, db, dc); c = 0
    for rv, s in res:
        if not sat(list(s.pc), 5000): continue
        c += 1; r = mequal_many(s.pc, [(mval(s, x.reg), y) for x, y in zip(X, sp)])
        post += [('%s: X[%d] = sum H (sum F A)(sum G B)' % (fn, i), 'post', r) for i in range(dc)]
        post += leaks(e, s)
    return result(e, post, [fn], c)
def djb(M, nr, nc, progs):
    """djb_apply_mzd_ptr runs the recorded program, last instruction first"""
    fn = 'djb_apply_mzd_ptr'; post = []; obs = []; tot = 0
    for prog in progs:
        e = engine(M); w = MW(e); m, n = w.dim('m'), w.dim('n'); L = len(prog)
        W = [w.mzd('W%d' % i, m, n) for i in range(nr)]; Vs = [w.mzd('V%d' % i, m, n, True) for i in range(nc)]
        a = {}
        for k, nm in enumerate(('target', 'source', 'srctyp')):
            r = Region('struct', nm, size=4 * L, const=True); w.mem[r.id] = {4 * i: x[k] for i, x in enumerate(prog)}; a[8 + 8 * k] = Ptr(r, 0)
        d = Region('struct', 'djb', size=40, const=True); w.mem[d.id] = dict(a) | {0: nr, 4: nc, 32: L, 36: L}
        Wp, Vp = w.ptrarray('W', W), w.ptrarray('V', Vs); st = w.state(); res = e.call_function(fn, [Ptr(d, 0), Wp, Vp], st)
        val_ = [zero(m, n)] * nr; vv = vals(st, Vs)
        for t, s_, k in reversed(prog): val_[t] = vadd(val_[t], vv[s_] if k else val_[s_])
        for rv, s in res:
            tot += 1; post.append(('%s: program %s' % (fn, prog if L < 6 else 'of length %d' % L), 'post', mequal_many(s.pc, [(mval(s, x.reg), y) for x, y in zip(W, val_)]))); post += leaks(e, s)
        obs += e.obs; eo = e
    eo.obs = obs; return result(eo, post, [fn], tot)
def programs(nr, nc, seed):
    ins = [(t, s, 1) for t in range(nr) for s in range(nc)] + [(t, s, 0) for t in range(nr) for s in range(nr) if s != t]
    out = [[]] + [[x] for x in ins] + [[x, y] for x in ins for y in ins][:400]; R = random.Random(seed)
    for _ in range(120): out.append([R.choice(ins) for _ in range(R.randint(3, 14))])
    def ok(p): # djb_compile: a row is added to others only after it has itself been built (the program runs backwards)
        seen = set()
        for t, s, k in reversed(p):
            if not k and s not in seen: return False
            seen.add(t)
        return True
    return [p for p in out if ok(p)]

def compile_(M, same):
    """_blm_djb_compile: each of f, g, h encodes its matrix; matrices unchanged, temporaries released"""
    fn = '_blm_djb_compile'; e = engine(M); w = MW(e); r, a, b, c = w.dim('rank', lo=1), w.dim('da', lo=1), w.dim('db', lo=1), w.dim('dc', lo=1)
    F, G, H = w.mzd('F', r, a, True), w.mzd('G', r, a if same else b, True), w.mzd('H', c, r, True)
    h = Region('struct', 'blm', size=48); w.mem[h.id] = {0: H, 8: NULL, 16: F, 24: NULL, 32: G, 40: NULL}; made = {}
    def cc(e, st, v):
        x = handle(e, st, v[0], 'djb_compile'); q = Region('struct', 'djb', size=40, heap=True); made[q.id] = (mval(st, x), dims(st, x)); st.mem[q.id] = {'live': 1}
        nr, nc = dims(st, x); setval(e, st, x, fun('djb_compiled', nr, nc, mval(st, x))); return Ptr(q, 0)
    def eq(e, st, v):
        x, y = handle(e, st, v[0], 'mzd_equal'), handle(e, st, v[1], 'mzd_equal')
        if {x, y} != {F.reg, G.reg}: raise Unsupported('mzd_equal on other matrices')
        return C(1 if same else 0, 32).as_long()
    e.contracts.update({'djb_compile': cc, 'mzd_equal': eq})
    st = w.state(); res = e.call_function(fn, [Ptr(h, 0)], st); post = []
    for rv, s in res:
        d = s.mem[h.id]; post.append((fn + ': returns its argument', 'post', 'proved' if isinstance(rv, Ptr) and rv.reg is h else ('refuted', 'another')))
        for o, mo, nm, X in ((24, 16, 'F', F), (40, 32, 'G', F if same else G), (8, 0, 'H', H)):
            p = d.get(o)
            if not isinstance(p, Ptr) or p.reg is None or p.reg.id not in made: post.append(('%s: %s is compiled' % (fn, nm), 'post', ('refuted', repr(p)))); continue
            post.append(('%s: the compiled map of %s' % (fn, nm), 'post', mequal(s.pc, made[p.reg.id][0], mval(st, X.reg)))); post.append(('%s: %s stays' % (fn, nm), 'post', 'proved' if d[mo].reg is st.mem[h.id][mo].reg else ('refuted', 'replaced')))
        post += leaks(e, s, [Ptr(h, 0)])
    return result(e, post, [fn], len(res), ['m4ri contract: djb_compile encodes the matrix it is given (and may destroy it)'])
def free_(M, kind):
    """blm_free releases every part once; f and g may be one object"""
    fn = 'blm_free'; e = engine(M); w = MW(e); r, a = w.dim('rank'), w.dim('da'); st0 = State({}, w.mem, ())
    X = [newmzd(e, st0, r, a) for _ in range(3)]; h = Region('struct', 'blm', size=48, heap=True); dj = []
    def mk(nm):
        q = Region('struct', nm, size=40, heap=True); c = {'live': 1, 32: 0, 36: 64}
        for o in (8, 16, 24): z = Region('struct', nm + '.a%d' % o, size=256, heap=True); w.mem[z.id] = {'live': 1}; c[o] = Ptr(z, 0)
        w.mem[q.id] = c; return Ptr(q, 0)
    f = mk('f') if kind != 'plain' else NULL; g = f if kind in ('shared', 'plain') else mk('g'); hh = mk('h') if kind != 'plain' else NULL
    w.mem[h.id] = {0: X[0], 8: hh, 16: X[1], 24: f, 32: X[2], 40: g, 'live': 1}; res = e.call_function(fn, [Ptr(h, 0)], w.state()); post = []
    for rv, s in res: post += [(fn + ': %s is released' % k, 'post', ob) for _ in [0] for k, kk, ob in leaks(e, s)] or [(fn + ': returns', 'post', 'proved')]
    return result(e, post, [fn], len(res))

# --- small multiplication maps: the table is decided completely
def small_map(M, d):
    """the rows n_i of N satisfy: every coefficient of the product of two polynomials of length d is a GF(2)-combination of the
    products (n_i . a)(n_i . b); this is what makes the linear system for H solvable"""
    fn = '_small_multiplication_map'; e = engine(M); costs = const_table(M, 'costs', 4)
    rows = {}
    def init(e, st, v):
        nr, nc = v; rs = []
        for i in range(nr):
            r = Region('struct', 'row%d' % i, size=8 * ((nc + 63) // 64)); st.mem[r.id] = {0: 0}; rs.append(r)
        a = Region('struct', 'rows', size=8 * nr); st.mem[a.id] = {8 * i: Ptr(r, 0) for i, r in enumerate(rs)}
        h = Region('struct', 'N', size=64, heap=True); st.mem[h.id] = {0: nr, 4: nc, 56: Ptr(a, 0), 'live': 1}; rows[h.id] = rs; return Ptr(h, 0)
    e.contracts['mzd_init'] = init
    st = State({}, {}, ()); res = e.call_function(fn, [d], st); post = []
    for rv, s in res:
        q = s.mem[rv.reg.id]; rs = [s.mem[r.id][0] for r in rows[rv.reg.id]]
        post.append((fn + '(%d): number of rows is the declared cost' % d, 'post', 'proved' if q[0] == costs[d] and q[4] == d else ('refuted', 'shape %r x %r, cost %r' % (q[0], q[4], costs[d]))))
        post.append((fn + '(%d): entries below the degree' % d, 'post', 'proved' if all(x < 1 << d for x in rs) else ('refuted', 'a row has bits beyond the last column')))
        # span of the rank one forms
        def form(x): # bilinear form matrix as an integer of d*d bits
            return sum((((x >> i) & 1) * x) << (d * i) for i in range(d))
        basis = {}
        def red(v):
            while v:
                h = v.bit_length()
                if h not in basis: return v
                v ^= basis[h]
            return 0
        for x in rs:
            v = red(form(x))
            if v: basis[v.bit_length()] = v
        bad = [t for t in range(2 * d - 1) if red(sum(1 << (d * i + t - i) for i in range(d) if 0 <= t - i < d))]
        post.append((fn + '(%d): the products determine every coefficient' % d, 'post', 'proved' if not bad else ('refuted', 'coefficients %s are not determined' % bad)))
    return result(e, post, [fn], len(res))
def const_table(M, name, es):
    from c18 import ints
    return ints(M, name)

# --- wrappers over sliced matrices
def wrapper(M, fn, d, acc, cnull, userf, alias=False):
    from xl import XW, bad
    e = engine(M); w = XW(e, d, 'slice'); m, k, n = w.dim('m'), w.dim('k'), w.dim('n')
    if alias: w.pc += [m == k, k == n]
    A = w.mat('A', m, k, True); B = A if alias else w.mat('B', k, n, True); Cm = NULL if cnull else w.mat('C', m, n)
    uf = Region('struct', 'userblm', size=48, const=True); w.mem[uf.id] = {'live': 1}
    def crt(e, st, v):
        ff, a, b, p, dj = v; P = st.mem[p.reg.id]; ps = [P.get(4 * i, 0 if p.reg.zero else None) for i in range(17)]
        e.oblige(st, And(isinstance(ff, Ptr) and ff.reg is w.ff.reg, cmp('eq', a, d, 32), cmp('eq', b, d, 32), P.get('live', 1) == 1), 'blm_init_crt: reduction by the field, lengths e', 'pre')
        ok = all(is_c(x) for x in ps if x is not None) and None not in ps and ps[0] + sum(i * x for i, x in enumerate(ps) if i) >= d
        e.oblige(st, ok and ps[d] == 1 and sum(ps) == 1, 'blm_init_crt: the map of degree e', 'pre')
        r = Region('struct', 'blm', size=48, heap=True); st.mem[r.id] = {'live': 1}; return Ptr(r, 0)
    def bf(e, st, v):
        r = v[0].reg; e.oblige(st, r is not None and getattr(r, 'heap', False) and st.mem[r.id].get('live', 1) == 1, 'blm_free: a live map of its own', 'pre'); st.mem[r.id] = dict(st.mem[r.id], live=0); return None
    def ap(e, st, v):
        X, Ap, Bp, f = v; e.oblige(st, isinstance(f, Ptr) and f.reg is not None and st.mem[f.reg.id].get('live', 1) == 1, 'the map is live', 'pre')
        g = lambda P, w_: [handle(e, st, e.load(st, Ptr(P.reg, P.off + 8 * i), 'ptr'), w_) for i in range(d)]
        Xr, Ar, Br = g(X, 'blm X'), g(Ap, 'blm A'), g(Bp, 'blm B'); mm, kk = dims(st, Ar[0]); k2, nn = dims(st, Br[0])
        for l, (a, b) in ((Xr, (mm, nn)), (Ar, (mm, kk)), (Br, (kk, nn))):
            for r in l: x = dims(st, r); eqdim(e, st, x[0], a, 'blm: rows'); eqdim(e, st, x[1], b, 'blm: columns')
        for i, r in enumerate(Xr):
            for q in Xr[:i] + Ar + Br: noalias(e, st, r, q, 'blm')
        for r, s in zip(Xr, prod_spec([mval(st, r) for r in Ar], [mval(st, r) for r in Br], d, True, mm, nn)): setval(e, st, r, s)
        return None
    e.contracts.update({'blm_init_crt': crt, 'blm_free': bf, '_mzd_ptr_apply_blm': ap})
    st = w.state(); w.st0 = st.copy(); res = e.call_function(fn, [Cm, A, B, Ptr(uf, 0) if userf else NULL], st); post = []; c = 0
    for rv, s in res:
        if not sat(list(s.pc), 5000): continue
        c += 1; o = w.check_shape(s, rv, m, n, fn)
        if not cnull: o.append((fn + ': returns C', 'post', 'proved' if rv.reg is Cm.reg else ('refuted', 'another')))
        if not bad(o):
            sp = prod_spec(w.vals(w.st0, A), w.vals(w.st0, B), d, True, m, n)
            if acc: sp = [vadd(x, y) for x, y in zip(w.vals(w.st0, Cm), sp)]
            r = mequal_many(s.pc, list(zip(w.vals(s, rv), sp))); o += [('%s: slice %d' % (fn, i), 'post', r) for i in range(d)]; o += leaks(e, s, [rv] if cnull else [])
        post += o
    return result(e, post, [fn], c, ['contract: _mzd_ptr_apply_blm with a map for the field computes the reduced product'])
def jobs(tier):
    from run import Job
    J = []; B = 'rank <= 4, lengths <= 3; all entries of F, G, H and all shapes'
    dims_ = [(r, a, b) for r in (1, 2, 3) for a in (1, 2, 3) for b in (1, 2, 3)] + [(4, 2, 2), (4, 2, 3), (4, 3, 2), (4, 1, 4)]
    for fn in ('_mzd_ptr_apply_blm_mzd', '_mzd_ptr_apply_blm_djb', '_mzd_ptr_apply_blm', '_mzd_ptr_apply_blm plain'):
        for r, a, b in dims_: J.append(Job('%s %d,%d,%d' % (fn, r, a, b), apply, fn, r, a, b, bounded=B))
        J.append(Job('%s 3,2,2 A=B' % fn, apply, fn, 3, 2, 2, True, bounded=B)); J.append(Job('%s 3,2,2 reduced' % fn, apply, fn, 3, 2, 2, False, 2, bounded=B))
    for nr, nc in itertools.product((1, 2, 3), (1, 2, 3)): J.append(Job('djb_apply_mzd_ptr %dx%d' % (nr, nc), djb, nr, nc, programs(nr, nc, nr * 10 + nc), timeout=300, bounded='programs: all of length <= 1, up to 400 of length 2, random ones of length <= 14; precondition: a row is only used after it was built (djb_compile)'))
    for s in (0, 1): J.append(Job('_blm_djb_compile F%sG' % ('=' if s else '!='), compile_, s))
    for k in ('plain', 'shared', 'all'): J.append(Job('blm_free ' + k, free_, k))
    for d in range(1, 17): J.append(Job('_small_multiplication_map %d' % d, small_map, d))
    for d in range(2, 17):
        for uf in (0, 1):
            t = ' given map' if uf else ''
            for nl in (0, 1): J.append(Job('mzd_slice_mul_blm e=%d%s%s' % (d, t, ' C=NULL' if nl else ''), wrapper, 'mzd_slice_mul_blm', d, False, nl, uf))
            J.append(Job('mzd_slice_addmul_blm e=%d%s' % (d, t), wrapper, 'mzd_slice_addmul_blm', d, True, False, uf)); J.append(Job('mzd_slice_mul_blm e=%d%s A=B' % (d, t), wrapper, 'mzd_slice_mul_blm', d, False, 0, uf, True))
    import c08
    for w in (2, 4, 8, 16):
        for fn, acc in (('mzed_mul_blm', 0), ('mzed_addmul_blm', 1), ('_mzed_addmul_blm', 1)):
            J.append(Job('%s w=%d' % (fn, w), c08.entry, fn, w, 'mzed', acc, False, False)); J.append(Job('%s w=%d A=B' % (fn, w), c08.entry, fn, w, 'mzed', acc, False, False, True))
            if fn != 'mzed_addmul_blm': J.append(Job('%s w=%d C=NULL' % (fn, w), c08.entry, fn, w, 'mzed', acc, True, False))
            if fn[0] != '_': J.append(Job('%s w=%d refuses' % (fn, w), c08.entry, fn, w, 'mzed', acc, False, True))
        J.append(Job('mzed_mul_blm w=%d C=NULL refuses' % w, c08.entry, 'mzed_mul_blm', w, 'mzed', 0, True, True))
    return J
