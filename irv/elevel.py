"""Packed matrices element by element: a matrix is a map (row, column) -> field element.  The element accessors and
row operations are used by the contracts which C02 and C03 discharge at the level of words."""
from world import *
import core

class EW:
    def __init__(s, e, w, dims=None):
        s.e, s.w = e, w; s.ff = ff = Field(w=w); s.mem = {}; s.pc = list(ff.axiom); s.dimv = dims or {}
        s.mem[ff.reg.id] = ff.fields(); s.fns = {}
        if not is_c(ff.d): VAR_RANGE[ff.d.decl().name()] = {4: (3, 4), 8: (5, 8), 16: (9, 16)}[w]
        B32, B64 = z3.BitVecSort(32), z3.BitVecSort(64)
        s.LT, s.LI = z3.Function('LT', B32, B32), z3.Function('LI', B32, B64)
        em32 = z3.Extract(31, 0, ff.em)
        UFAX['LT'] = lambda a: [z3.Implies(z3.ULE(a.arg(0), em32), z3.And(z3.ULE(a, em32), s.LI(a) == z3.ZeroExt(32, a.arg(0)))), z3.Implies(a.arg(0) == 0, a == 0)]
        UFAX['LI'] = lambda a: [(a & ~ff.em) == 0, z3.Implies(a.arg(0) == 0, a == 0)]
        e.ew = s; e.sym_first = True; contracts(e, s)
    def dim(s, name, lo=0, hi=MAXDIM):
        if name in s.dimv: return s.dimv[name]
        v = z3.BitVec(name, 32); VAR_RANGE[name] = (lo, hi); s.pc += [z3.ULE(v, C(hi, 32))] + ([z3.ULE(C(lo, 32), v)] if lo else []); return v
    def clean(s, x): return cmp('eq', and_(x, norm(~s.ff.em), 64), 0, 64)
    def region(s, name, nr, nc, const=False, init='arb'):
        m = Region('mat', name, view='E', nrows=nr, cells=nc, const=const); ff = s.ff
        if init == 'arb':
            fn = z3.Function('E_%s' % name, z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(64)); m.fn = fn
            UFAX[fn.name()] = lambda app: [(app & ~ff.em) == 0]
            m.mem0 = Mem.base(lambda r, k, fn=fn: fn(bv(r, 32), bv(k, 32)), 64)
        else: m.mem0 = Mem.base(lambda r, k: 0, 64)
        return m
    def header(s, mem, m, nr, nc, heap, name, root=None, r0=0, c0=0):
        x = Region('struct', name + '.x', size=64, emat=m, const=True); h = Region('struct', name, size=32, emat=m, const=True, heap=heap, er0=r0, ec0=c0, root=root)
        x.er0, x.ec0 = r0, c0
        bits = mul(nc, s.w, 32); xw = lshr(add(bits, 63, 32), 6, 32)
        mem[x.id] = {0: nr, 4: bits, 8: norm(xw) if isz(xw) else xw, 56: Opaque('rows')}; mem[h.id] = {'live': 1, 0: Ptr(x, 0), 8: s.ff.ptr, 16: nr, 20: nc, 24: s.w}
        return Ptr(h, 0)
    def mat(s, name, nr, nc, const=False, init='arb', st=None, heap=False):
        mem = s.mem if st is None else st.mem
        m = s.region(name, nr, nc, const, init); mem[m.id] = m.mem0
        s.e.regs[m.id] = m; m.inv = lambda app: [(app & ~s.ff.em) == 0]
        p = s.header(mem, m, nr, nc, heap, name); p.reg.top = m; return p
    def smat(s, name, nr, nc, const=False):
        m = s.region(name, nr, nc, const, 'arb'); s.mem[m.id] = m.mem0; s.e.regs[m.id] = m; m.inv = lambda app: [(app & ~s.ff.em) == 0]
        h = Region('struct', name, size=152, semat=m, const=True); h.top = m
        s.mem[h.id] = {'live': 1, 0: Opaque('slices'), 128: nr, 132: nc, 136: s.ff.d, 144: s.ff.ptr}
        return Ptr(h, 0)
    def state(s): return State({}, dict(s.mem), tuple(s.pc))
    def val(s, st, p, r, k): return st.mem[p.reg.emat.id].read(r, k)

def hd(e, st, p, n):
    if not isinstance(p, Ptr) or p.reg is None: e.oblige(st, False, 'NULL matrix passed to ' + n, 'pre'); raise Dead()
    r = p.reg
    if getattr(r, 'emat', None) is None or not (is_c(p.off) and p.off == 0): raise Unsupported(n + ' of an unknown matrix')
    d = st.mem[r.id]
    if d.get('live', 1) != 1: e.oblige(st, False, 'freed matrix passed to ' + n, 'pre'); raise Dead()
    return r.emat, d
def shd(e, st, p, n):
    if not isinstance(p, Ptr) or p.reg is None: e.oblige(st, False, 'NULL matrix passed to ' + n, 'pre'); raise Dead()
    if getattr(p.reg, 'semat', None) is None or not (is_c(p.off) and p.off == 0): raise Unsupported(n + ' of an unknown matrix')
    return p.reg.semat, st.mem[p.reg.id]
def contracts(e, w):
    X = e.contracts; ff = w.ff
    def sread(e, st, v):
        m, d = shd(e, st, v[0], 'mzd_slice_read_elem'); e.oblige(st, And(cmp('ult', v[1], d[128], 32), cmp('ult', v[2], d[132], 32)), 'mzd_slice_read_elem: indices', 'pre'); return st.mem[m.id].read(v[1], v[2])
    X['mzd_slice_read_elem'] = sread
    def cling(e, st, v):
        a, b = v; m, d = shd(e, st, b, 'mzed_cling')
        if isnull(a): cnt[0] += 1; a = w.mat('tmp%d' % cnt[0], d[128], d[132], init='zero', st=st, heap=True)
        ma, da = hd(e, st, a, 'mzed_cling'); eq(st, da[16], d[128], 'mzed_cling: rows'); eq(st, da[20], d[132], 'mzed_cling: columns'); wr(st, ma, 'mzed_cling')
        st.mem[ma.id] = st.mem[ma.id].upd(True, st.mem[m.id].read(RV, KV)); return a
    X['mzed_cling'] = cling
    def slc(e, st, v):
        a, b = v; m, d = hd(e, st, b, 'mzed_slice')
        if isnull(a): raise Unsupported('mzed_slice(NULL)')
        ma, da = shd(e, st, a, 'mzed_slice'); eq(st, da[128], d[16], 'mzed_slice: rows'); eq(st, da[132], d[20], 'mzed_slice: columns'); wr(st, ma, 'mzed_slice')
        st.mem[ma.id] = st.mem[ma.id].upd(True, st.mem[m.id].read(RV, KV)); return a
    X['mzed_slice'] = slc
    le = lambda a, b: cmp('ule', a, b, 32)
    lt = lambda a, b: cmp('ult', a, b, 32)
    def inside(st, d, r, c, n):
        e.oblige(st, lt(r, d[16]), n + ': row index', 'pre')
        if c is not None: e.oblige(st, lt(c, d[20]), n + ': column index', 'pre')
    def wr(st, m, n):
        if m.const: e.oblige(st, False, n + ': the constant operand %s is written' % m.name, 'frame')
    def elem(st, x, n): e.oblige(st, norm(zb(w.clean(x))), n + ': the value is a field element', 'pre')
    def read(e, st, v):
        m, d = hd(e, st, v[0], 'mzed_read_elem'); inside(st, d, v[1], v[2], 'mzed_read_elem'); return st.mem[m.id].read(v[1], v[2])
    X['mzed_read_elem'] = read
    def write(acc, n):
        def f(e, st, v):
            m, d = hd(e, st, v[0], n); inside(st, d, v[1], v[2], n); wr(st, m, n); elem(st, v[3], n)
            st.mem[m.id] = st.mem[m.id].upd(And(cmp('eq', RV, v[1], 32), cmp('eq', KV, v[2], 32)), xor(st.mem[m.id].read(RV, KV), v[3], 64) if acc else v[3]); return None
        return f
    X['mzed_write_elem'] = write(False, 'mzed_write_elem'); X['mzed_add_elem'] = write(True, 'mzed_add_elem')
    row = lambda r: cmp('eq', RV, r, 32)
    def from_(c): return cmp('uge', KV, c, 32)
    def addmul(n, hasx):
        def f(e, st, v):
            m, d = hd(e, st, v[0], n); b, db = hd(e, st, v[2], n); x, c = (v[4], v[5]) if hasx else (1, v[4])
            inside(st, d, v[1], c, n); inside(st, db, v[3], None, n); wr(st, m, n); eq(st, d[20], db[20], n + ': number of columns')
            if hasx: elem(st, x, n)
            p = ff.mul(x, bv(st.mem[b.id].read(v[3], KV), 64)) if hasx else st.mem[b.id].read(v[3], KV)
            st.mem[m.id] = st.mem[m.id].upd(And(row(v[1]), from_(c)), xor(st.mem[m.id].read(RV, KV), p, 64)); return None
        return f
    def eq(st, a, b, what): e.oblige(st, cmp('eq', a, b, 32), what, 'pre')
    X['mzed_add_multiple_of_row'] = addmul('mzed_add_multiple_of_row', True); X['mzed_add_row'] = addmul('mzed_add_row', False)
    def rescale(e, st, v):
        n = 'mzed_rescale_row'; m, d = hd(e, st, v[0], n); inside(st, d, v[1], v[2], n); wr(st, m, n); elem(st, v[3], n)
        st.mem[m.id] = st.mem[m.id].upd(And(row(v[1]), from_(v[2])), ff.mul(v[3], bv(st.mem[m.id].read(RV, KV), 64))); return None
    X['mzed_rescale_row'] = rescale
    def mul_(e, st, v): elem(st, v[1], 'multiplication'); elem(st, v[2], 'multiplication'); return ff.mul(v[1], v[2])
    for n in ('ff_mul', 'gf2e_mul', '_gf2e_mul_table', '_gf2e_mul_arith'): X[n] = mul_
    X['ff_inv'] = X['gf2e_inv'] = lambda e, st, v: ff.INV(bv(v[1], 64))
    cnt = [0]
    def init(e, st, v):
        if not (isinstance(v[0], Ptr) and v[0].reg is ff.reg): raise Unsupported('mzed_init: another field')
        e.oblige(st, And(cmp('sge', v[1], 0, 32), cmp('sge', v[2], 0, 32)), 'mzed_init: dimensions not negative', 'pre')
        cnt[0] += 1; return w.mat('tmp%d' % cnt[0], v[1], v[2], init='zero', st=st, heap=True)
    X['mzed_init'] = init
    def free(e, st, v):
        if isnull(v[0]): return None
        m, d = hd(e, st, v[0], 'mzed_free')
        if not v[0].reg.heap: e.oblige(st, False, 'mzed_free of a matrix of the caller', 'pre')
        st.mem[v[0].reg.id] = dict(d, live=0); return None
    X['mzed_free'] = free
    def copy(e, st, v):
        a, b = v; m, d = hd(e, st, b, 'mzed_copy')
        if isnull(a): cnt[0] += 1; a = w.mat('tmp%d' % cnt[0], d[16], d[20], init='zero', st=st, heap=True)
        ma, da = hd(e, st, a, 'mzed_copy')
        if ma is m: return a
        eq(st, da[16], d[16], 'mzed_copy: rows'); eq(st, da[20], d[20], 'mzed_copy: columns'); wr(st, ma, 'mzed_copy')
        st.mem[ma.id] = st.mem[ma.id].upd(True, st.mem[m.id].read(RV, KV)); return a
    X['mzed_copy'] = copy
    def mzdsetui(e, st, v):
        m, d = hd(e, st, v[0], 'mzd_set_ui')
        if not (is_c(v[1]) and v[1] == 0): raise Unsupported('mzd_set_ui of a value')
        wr(st, m, 'mzd_set_ui'); st.mem[m.id] = st.mem[m.id].upd(True, 0); return None
    X['mzd_set_ui'] = mzdsetui
    def swap(n, bits):
        def f(e, st, v):
            m, d = hd(e, st, v[0], n); nr = d[0] if bits else d[16]
            e.oblige(st, And(lt(v[1], nr), lt(v[2], nr)), n + ': row index', 'pre'); wr(st, m, n); M0 = st.mem[m.id]
            st.mem[m.id] = M0.upd(row(v[1]), M0.read(v[2], KV)).upd(row(v[2]), M0.read(v[1], KV)); return None
        return f
    X['mzed_row_swap'] = swap('mzed_row_swap', False); X['mzd_row_swap'] = swap('mzd_row_swap', True)
    # m4ri's table lookup: one row of C gets a row of T added
    def combine(e, st, v):
        n = 'mzd_combine'; c, dc = hd(e, st, v[0], n); a, da = hd(e, st, v[3], n); t, dt = hd(e, st, v[6], n)
        if not all(is_c(x) and x == 0 for x in (v[2], v[5], v[8])): raise Unsupported('mzd_combine from another word')
        for d, r in ((dc, v[1]), (da, v[4]), (dt, v[7])): e.oblige(st, lt(r, d[0]), n + ': row index', 'pre')
        eq(st, dc[4], da[4], n + ': number of columns'); eq(st, dc[4], dt[4], n + ': number of columns'); wr(st, c, n)
        st.mem[c.id] = st.mem[c.id].upd(row(v[1]), xor(st.mem[a.id].read(v[4], KV), st.mem[t.id].read(v[7], KV), 64)); return None
    X['mzd_combine'] = combine
    def combine_k(k):
        def f(e, st, v):
            n = 'mzed_combine%d' % k; c, dc = hd(e, st, v[0], n); e.oblige(st, lt(v[1], dc[16]), n + ': row index', 'pre'); wr(st, c, n)
            x = st.mem[c.id].read(RV, KV)
            for i in range(k):
                t, dt = hd(e, st, v[2 + 2 * i], n); e.oblige(st, lt(v[3 + 2 * i], dt[16]), n + ': row index', 'pre'); eq(st, dt[20], dc[20], n + ': number of columns'); x = xor(x, st.mem[t.id].read(v[3 + 2 * i], KV), 64)
            st.mem[c.id] = st.mem[c.id].upd(row(v[1]), x); return None
        return f
    for k in (4, 8): X['mzed_combine%d' % k] = combine_k(k)
    # allocation of the tables
    def malloc(e, st, v):
        cnt[0] += 1
        if not is_c(v[0]): raise Unsupported('malloc')
        r = Region('struct', 'njt%d' % cnt[0], size=v[0], uninit=True, heapmem=True); st.mem[r.id] = {'live': 1}; return Ptr(r, 0)
    def calloc(e, st, v):
        cnt[0] += 1; n = v[0]
        if not (is_c(v[1]) and v[1] == 4): raise Unsupported('calloc')
        n = trunc(n, 64, 32) if isz(n) else n
        r = Region('arr', 'L%d' % cnt[0], es=4, length=norm(n) if isz(n) else n, heapmem=True); st.mem[r.id] = Mem.base(lambda r, k: 0, 32); h = Region('struct', 'live%d' % r.id, size=8); r.liveid = h.id; st.mem[h.id] = {'live': 1}; return Ptr(r, 0)
    def mfree(e, st, v):
        if isnull(v[0]): return None
        r = v[0].reg
        if r is None or not getattr(r, 'heapmem', False): e.oblige(st, False, 'free of something else', 'pre'); raise Dead()
        k = getattr(r, 'liveid', r.id)
        if st.mem[k].get('live') != 1: e.oblige(st, False, 'freed twice', 'pre')
        st.mem[k] = dict(st.mem[k], live=0); return None
    X['m4ri_mm_malloc'] = malloc; X['m4ri_mm_calloc'] = calloc; X['m4ri_mm_free'] = X['free'] = mfree
    def make_table(e, st, v):
        n = 'mzed_make_table'; a, d = hd(e, st, v[1], n); inside(st, d, v[2], v[3], n)
        if isnull(v[0]): raise Unsupported('mzed_make_table(NULL)')
        q = st.mem[v[0].reg.id]; l = q[0].reg; mm, dm = hd(e, st, q[8], n); t, dt = hd(e, st, q[16], n)
        for x, dx in ((mm, dm), (t, dt)): eq(st, dx[20], d[20], n + ': number of columns')
        if not (is_c(v[3]) and v[3] == 0): raise Unsupported('table from another column')
        k0 = fresh('k0'); e.oblige(st, cmp('eq', st.mem[t.id].read(0, k0), 0, 64), n + ': row 0 of the table is zero', 'pre'); e.oblige(st, cmp('eq', st.mem[l.id].read(0, 0), 0, 32), n + ': L[0] = 0', 'pre')
        src = st.mem[a.id].read(v[2], KV)
        st.mem[t.id] = st.mem[t.id].upd(True, ff.mul(w.LI(RV), bv(src, 64))); st.mem[l.id] = st.mem[l.id].upd(True, w.LT(KV))
        i64 = z3.ZeroExt(32, RV); st.mem[mm.id] = st.mem[mm.id].upd(True, ff.mul(C(1, 64) << i64, bv(src, 64)))
        return v[0]
    X['mzed_make_table'] = make_table
    X['sqrt'] = lambda e, st, v: Opaque('float')
    def naive(e, st, v):
        n = '_mzed_mul_naive'; c, dc = hd(e, st, v[0], n); a, da = hd(e, st, v[1], n); b, db = hd(e, st, v[2], n)
        for x, y, z in ((dc[16], da[16], 'rows'), (da[20], db[16], 'inner dimension'), (dc[20], db[20], 'columns')): eq(st, x, y, n + ': ' + z)
        if c is a or c is b: raise Unsupported('aliased product')
        wr(st, c, n); ma, mb = st.mem[a.id], st.mem[b.id]
        st.mem[c.id] = st.mem[c.id].upd(True, xor(st.mem[c.id].read(RV, KV), mulsum(w, da[20], lambda k: ma.read(RV, k), lambda k: mb.read(k, KV)), 64)); return v[0]
    X['_mzed_mul_naive'] = naive

def eleaks(e, w, s, keep=()):
    out = []
    for k, v in s.mem.items():
        if isinstance(v, dict) and v.get('live') == 1:
            r = REG[k]
            if (getattr(r, 'heap', False) or getattr(r, 'heapmem', False) or r.name.startswith('live')) and not any(p.reg is r for p in keep): out.append(('%s is released' % r.name, 'leak', ('refuted', 'leak')))
    return out or [('temporaries are released', 'leak', 'proved')]
def check(w, s, p, want, what, extra=(), total=None, terms=None):
    """every cell of the matrix has the wanted value, for a row R0 and a column K0 inside"""
    R0, K0 = z3.BitVec('R0', 32), z3.BitVec('K0', 32); m = p.reg.top
    pc = list(s.pc) + [zb(cmp('ult', R0, m.nrows, 32)), zb(cmp('ult', K0, m.cells, 32))] + list(extra)
    new = s.mem[m.id].read(R0, K0)
    if total is not None: pc = pc + sum_facts(pc, [new], lambda n: bv(terms(n, R0, K0), 64), total)
    return (what, 'post', prove(pc, bv(new, 64) == bv(want(R0, K0), 64)))
ASSUMED = ['element access and row operations by the contracts of C02 and C03', 'field multiplication is the function MUL (C01)', 'matrix dimensions below 2^24, at least one column']
def result(e, post, fns, n, extra=()):
    ob = [(a, k, r) for a, k, r, t in e.obs] + post
    if not any(k == 'post' for _, k, _ in post): ob.append((fns[0] + ': some path returns', 'post', ('unknown', 'no path returns')))
    return {'functions': list(fns) + sorted(e.inlined), 'obligations': ob, 'paths': n, 'assumed': ASSUMED + list(extra), 'callees': sorted(e.applied)}
class Hint:
    """candidate loop invariant: g(pre, T, st0) -> (t, R, K) -> contents of `region` when iteration t starts"""
    def __init__(s, functions, region, g, split=None): s.functions, s.region, s.g, s.split = set(functions), region, g, split
    def __call__(s, e, f, L, st0, reg, pre, T):
        if s.region is not None and reg is not s.region or s.region is None and not (reg.kind == 'mat' and reg.name.startswith('tmp')): return None
        g = s.g(pre, T, st0)
        if g is None: return None
        return lambda tv: pre.upd(True, g(tv, RV, KV))

def mulsum(w, n, a, b):
    """XOR_{k<n} MUL(a(k), b(k))"""
    t = fresh('k', 32); return mk_sum(t, n, bv(w.ff.mul(a(t), b(t)), 64), 64)

def sum_facts(pc, terms, f, total):
    """lemmas about sums of f in blocks and in two parts; each is proved summand by summand before it is used.
    f(n): the sum of the first n terms, as a term XSUM(n, ..); total: its number of terms"""
    ss = [a for a in apps_of([bv(x, 64) for x in terms]) if a.decl().name() in core.SUMS]; facts = []; bases = []
    F1 = f(z3.BitVec('!any', 32)); fb = lambda i: core.sum_body(F1, i)
    for a in ss:
        n = a.arg(0); t = fresh('blk')
        for k in (8, 4, 2):
            want = fb(t * k)
            for j in range(1, k): want = want ^ fb(t * k + j)
            if prove(list(pc) + [z3.ULT(t, n)], core.sum_body(a, t) == want, 5000, 3) == 'proved' and prove(pc, z3.ULE(n, C(1 << 27, 32)), 3000, 3) == 'proved':
                facts.append(a == f(n * k)); bases.append(n * k); break
    for a in ss:
        n = a.arg(0); t = fresh('off')
        for b in bases:
            if prove(list(pc) + [z3.ULT(t, n)], core.sum_body(a, t) == fb(b + t), 5000, 3) == 'proved' and prove(pc, z3.And(b + n == bv(total, 32), z3.ULE(b, bv(total, 32))), 5000, 3) == 'proved':
                facts.append(bv(f(bv(total, 32)), 64) == bv(f(b), 64) ^ a); break
    return facts
# ---- triangular solves: X is defined by substitution; that it solves the system is the lemma of subst_lemma ----
def solution(w, up, n, LU, b0, name='X'):
    """F(R,K) = INV(d(R)) * (B0(R,K) - sum of the entries already known)"""
    F = z3.Function(name, z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(64)); ff = w.ff
    def ax(app):
        R, K = app.arg(0), app.arg(1)
        return [(app & ~ff.em) == 0, z3.Implies(z3.ULT(R, bv(n, 32)), app == bv(ff.mul(ff.INV(bv(LU(R, R), 64)), bv(xor(b0(R, K), part(R, R, K), 64), 64)), 64))]
    def part(cnt, R, K):
        """sum over the first cnt solved rows; the upper triangle is solved from the bottom"""
        if not up: return mulsum(w, cnt, lambda k: LU(R, k), lambda k: F(bv(k, 32), bv(K, 32)))
        return mulsum(w, cnt, lambda k: LU(R, sub(sub(n, 1, 32), k, 32)), lambda k: F(bv(sub(sub(n, 1, 32), k, 32), 32), bv(K, 32)))
    if up:
        ax0 = ax
        def ax(app):
            R, K = app.arg(0), app.arg(1)
            return [(app & ~ff.em) == 0, z3.Implies(z3.ULT(R, bv(n, 32)), app == bv(ff.mul(ff.INV(bv(LU(R, R), 64)), bv(xor(b0(R, K), part(sub(sub(n, 1, 32), R, 32), R, K), 64), 64)), 64))]
    UFAX[name] = ax
    return F, part
def trsm_hints(w, fns, up, n, LU, b0, F, part, reg):
    fb = lambda r, k: bv(b0(r, k), 64)
    def left(pre, T, st0):
        return lambda tv, R, K: ite(done(tv, R), F(bv(R, 32), bv(K, 32)), b0(R, K), 64)
    def right(pre, T, st0):
        return lambda tv, R, K: ite(done(tv, R), F(bv(R, 32), bv(K, 32)), xor(b0(R, K), part(tv, R, K), 64), 64)
    def done(tv, R): return norm(cmp('uge', R, sub(n, tv, 32), 32)) if up else norm(cmp('ult', R, tv, 32))
    return [Hint(fns, reg, left), Hint(fns, reg, right)]
def trsm(M, fn, wd, up, ty='mzed'):
    e = Engine(M); e.mod = M[0]; e.no_merge = True; w = EW(e, wd); n, m = w.dim('n', 1), w.dim('m', 1)
    mk = w.mat if ty == 'mzed' else w.smat
    L, B = mk('L', n, n, const=True), mk('B', n, m); st = w.state(); lr, br = L.reg.top, B.reg.top
    lu = lambda r, k: lr.fn(bv(r, 32), bv(k, 32)); b0 = lambda r, k: br.fn(bv(r, 32), bv(k, 32))
    F, part = solution(w, up, n, lu, b0)
    names = [p + x + y for p in ('mzed_trsm_', 'mzd_slice_trsm_') for x in ('lower_left_', 'upper_left_') for y in ('naive', 'newton_john')]
    e.hints = trsm_hints(w, names, up, n, lu, b0, F, part, br if ty == 'mzed' else None)
    nm = 'mzd_slice_trsm_%s_left_naive' % ('upper' if up else 'lower')
    def slice_naive(e, st, v):
        # proved from the packed form in C09 (sliced operands are converted)
        if not (isinstance(v[0], Ptr) and isinstance(v[1], Ptr) and v[0].reg is L.reg and v[1].reg is B.reg): raise Unsupported('solve of other operands')
        r, k = fresh('r'), fresh('k'); e.oblige(st, zb(cmp('eq', bv(st.mem[br.id].read(r, k), 64), b0(r, k), 64)), nm + ': B is the right hand side', 'pre')
        st.mem[br.id] = st.mem[br.id].upd(True, F(bv(RV, 32), bv(KV, 32))); return None
    if ty == 'slice': e.contracts[nm] = slice_naive
    res = e.call_function(fn, [L, B], st); post = []
    for rv, s in res:
        if not sat(list(s.pc), 5000): continue
        post.append(check(w, s, B, lambda R, K: F(R, K), '%s: B becomes the solution' % fn)); post += eleaks(e, w, s)
    return result(e, post, [fn], len(res), ['INV and MUL are inverse and multiplication of the field (C01)'])
def solves(M, w, up):
    """lemma: the X of `solution` solves the triangular system; entry (R,K) of the product is sum_{k} T(R,k) X(k,K) over the triangle"""
    e = Engine(M); e.mod = M[0]; W = EW(e, w); ff = W.ff; n = W.dim('n', 1)
    lu, b = [z3.Function(x, z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(64)) for x in ('lu', 'b0')]
    for f in (lu, b): UFAX[f.name()] = lambda app: [(app & ~ff.em) == 0]
    F, part = solution(W, up, n, lu, b, 'Xl'); R, K = z3.BitVecs('R K', 32)
    cnt = sub(sub(n, 1, 32), R, 32) if up else R
    S = bv(part(cnt, R, K), 64); d = lu(R, R); y = b(R, K) ^ S
    mul_ = lambda a, c: bv(ff.mul(a, c), 64); inv = ff.INV(d)
    # field laws at these elements: associativity, inverse, one
    laws = [mul_(d, mul_(inv, y)) == mul_(mul_(d, inv), y), z3.Implies(d != 0, mul_(d, inv) == 1), ff.MUL(C(1, 64), y) == y]
    pc = W.pc + [z3.ULT(R, bv(n, 32)), d != 0]
    total = bv(part(add(cnt, 1, 32), R, K), 64) if not up else bv(part(add(cnt, 1, 32), R, K), 64)
    ob = [('lemma: sum over the known part plus the diagonal term is the right hand side', 'lemma', prove(pc + laws, (S ^ mul_(d, F(R, K))) == b(R, K))),
          ('lemma: the sum over the triangle is the sum over the known part plus the diagonal term', 'lemma', prove(pc, total == S ^ mul_(d, F(R, K))))]
    return {'functions': ['substitution lemma (%s)' % ('upper' if up else 'lower')], 'obligations': ob, 'assumed': ['field laws: associativity, inverse, one (C01)'], 'paths': 1}
def product(M, fn, wd):
    """C == C0 + A*B"""
    e = Engine(M); e.mod = M[0]; e.no_merge = True; w = EW(e, wd); e.contracts.pop(fn, None); n, l, m = w.dim('n', 1), w.dim('l', 1), w.dim('m', 1)
    A, B = w.mat('A', n, l, const=True), w.mat('B', l, m, const=True); C_ = w.mat('C', n, m); st = w.state()
    fa, fb, fc = A.reg.emat.fn, B.reg.emat.fn, C_.reg.emat.fn
    res = e.call_function(fn, [C_, A, B], st); post = []
    for rv, s in res:
        if not sat(list(s.pc), 5000): continue
        post.append(check(w, s, C_, lambda R, K: xor(fc(R, K), mulsum(w, l, lambda k: fa(R, k), lambda k: fb(k, K)), 64), '%s: C == C0 + A*B' % fn, total=l, terms=lambda c, R, K: mulsum(w, c, lambda k: fa(R, k), lambda k: fb(k, K))))
        post.append((fn + ': returns C', 'post', 'proved' if isinstance(rv, Ptr) and rv.reg is C_.reg else ('refuted', 'another pointer'))); post += eleaks(e, w, s)
    return result(e, post, [fn], len(res))
