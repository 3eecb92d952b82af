"""C06: the table of row multiples, word by word: T[L[x]] is x times the row, from the start column on"""
from world import *
from elevel import Hint
import z3, core

def table(M, d, rem, tnull=False):
    fn = 'mzed_make_table'; w = 2 if d == 2 else 4 if d <= 4 else 8 if d <= 8 else 16; B32, B64 = z3.BitVecSort(32), z3.BitVecSort(64); N = 1 << d
    e = Engine(M); e.mod = M[0]; e.sym_first = True; e.unroll_hint = 0; ff = Field(w=w, d=d); W = World(e, ff); n = 64 // w; lg = n.bit_length() - 1
    ORD, INC, OI = z3.Function('ORD', B32, B32), z3.Function('INC', B32, B32), z3.Function('ORDINV', B32, B32); MW = z3.Function('MW', B32, B32, B64)
    # m4ri's Gray code of length d: a permutation, successive entries differ in bit inc[i]
    UFAX['ORD'] = lambda a: [z3.Implies(z3.ULT(a.arg(0), N), z3.And(z3.ULT(a, N), OI(a) == a.arg(0))), z3.Implies(a.arg(0) == 0, a == 0), z3.Implies(a == 0, z3.Or(a.arg(0) == 0, z3.UGE(a.arg(0), N)))]
    UFAX['ORDINV'] = lambda a: [z3.Implies(z3.ULT(a.arg(0), N), z3.And(z3.ULT(a, N), ORD(a) == a.arg(0)))]
    UFAX['INC'] = lambda a: [z3.Implies(z3.ULT(a.arg(0), N - 1), z3.And(z3.ULT(a, d), ORD(a.arg(0) + 1) == ORD(a.arg(0)) ^ (C(1, 32) << a)))]
    arr = lambda nm, f: Region('arr', nm, es=4, length=N, const=True)
    o, ic = arr('ord', ORD), arr('inc', INC); W.mem[o.id] = Mem.base(lambda r, k: ORD(bv(k, 32)), 32); W.mem[ic.id] = Mem.base(lambda r, k: INC(bv(k, 32)), 32)
    code = Region('struct', 'code', size=16, const=True); W.mem[code.id] = {0: Ptr(o, 0), 8: Ptr(ic, 0)}
    book = Region('struct', 'codebook', size=8 * 17, const=True); W.mem[book.id] = {8 * d: Ptr(code, 0)}
    var = Region('struct', 'm4ri_codebook', size=8, const=True); W.mem[var.id] = {0: Ptr(book, 0)}
    e.globhook = lambda nm: Ptr(var, 0) if nm.strip('@') == 'm4ri_codebook' else None
    nr = W.int('nr', 1); hv = z3.BitVec('hbv', 20); VAR_RANGE['hbv'] = (0, 2**19); W.pc.append(z3.ULE(hv, C(2**19, 20))); cl = z3.BitVec('cl', lg); RESIDUE.add('cl')
    qv = z3.BitVec('q8', 17); VAR_RANGE['q8'] = (0, 2**16); W.pc.append(z3.ULE(qv, C(2**16, 17))); hb = z3.ZeroExt(12, hv); c = z3.Concat(C(0, 12 - lg), hv, cl)
    last = hb + z3.Concat(C(0, 12), qv, C(rem, 3)); W.width = last + 1; nc = W.int('nc', 1, (1 << 24) - 1); HB = z3.BitVec('high_bitmask', 64)
    A, ma = W.mzed('A', nr, nc, window=True, const=True); TM, mm = W.mzed('TM', d, nc, window=True); TT, mt = W.mzed('TT', N, nc, window=True)
    for m in (ma, mm, mt): W.mem[m.hdr.id][40] = HB
    r = W.int('r'); W.pc += [z3.ULT(r, nr), z3.ULT(c, nc)]
    La = Region('arr', 'L', es=4, length=N); lf = z3.Function('L0', B32, B32); UFAX['L0'] = lambda a: [z3.Implies(a.arg(0) == 0, a == 0)]; W.mem[La.id] = Mem.base(lambda r, k: lf(bv(k, 32)), 32)
    nj = Region('struct', 'njt', size=24, const=True); W.mem[nj.id] = {0: Ptr(La, 0), 8: TM, 16: TT}; T = Ptr(nj, 0)
    e.regs[mt.id] = mt; mt.cells = W.mem[mt.hdr.id][8]
    # the table matrix holds an earlier table: row 0 is zero
    ax0 = UFAX['M_TT']; UFAX['M_TT'] = lambda a: ax0(a) + [z3.Implies(a.arg(0) == 0, a == 0)]
    UFAX['MW'] = lambda a: [z3.Implies(a.arg(1) == last, (a & ~HB) == 0)]     # no bit beyond the last column
    def setui(e, st, v):
        if v[0].reg is not mm.hdr or not (is_c(v[1]) and v[1] == 0): raise Unsupported('mzd_set_ui')
        st.mem[mm.id] = st.mem[mm.id].upd(True, 0)
    def amr(e, st, v):
        n_ = 'mzed_add_multiple_of_row'
        if v[0].reg is not mm.top or v[2].reg is not ma.top: raise Unsupported(n_ + ': other matrices')
        k = fresh('k'); e.oblige(st, zb(And(cmp('ult', v[1], d, 32), cmp('eq', v[3], r, 32), cmp('eq', v[5], c, 32))), n_ + ': row of the table, row and column of the source', 'pre')
        e.oblige(st, zb(cmp('eq', st.mem[mm.id].read(v[1], k), 0, 64)), n_ + ': the target row is zero', 'pre'); e.oblige(st, zb(cmp('eq', v[4], norm(z3.simplify(C(1, 64) << z3.ZeroExt(32, bv(v[1], 32)))), 64)), n_ + ': multiple is 2^row', 'pre')
        st.mem[mm.id] = st.mem[mm.id].upd(cmp('eq', RV, v[1], 32), MW(bv(v[1], 32), bv(KV, 32)))
    e.contracts.update({'mzd_set_ui': setui, 'mzed_add_multiple_of_row': amr})
    if tnull:
        def init(e, st, v):
            e.oblige(st, v[0].reg is ff.reg and zb(cmp('eq', v[1], nc, 32)), 'njt_mzed_init: field and columns', 'post'); return T
        e.contracts['njt_mzed_init'] = init
    def row(x, k):
        """combination of the rows of M named by the bits of x"""
        t = C(0, 64)
        for b in range(d): t = t ^ (z3.If(z3.Extract(b, b, x) == 1, MW(C(b, 32), bv(k, 32)), C(0, 64)))
        return t
    # S(i,K) stands for row(ORD(i),K)
    S = z3.Function('S', B32, B32, B64); UFAX['S'] = lambda a: [z3.Implies(a.arg(0) == 0, a == 0), z3.Implies(a.arg(1) == last, (a & ~HB) == 0)]
    x_, k_ = z3.BitVecs('x_ k_', 32)
    lemma = [('lemma: the combination for x with bit %d changed differs by row %d' % (b, b), 'lemma', prove([], row(x_ ^ C(1 << b, 32), k_) == row(x_, k_) ^ MW(C(b, 32), k_))) for b in range(d)] + [('lemma: the combination for 0 is 0', 'lemma', prove([], row(C(0, 32), k_) == 0))]
    lemma += [('lemma: a combination of rows has no bit beyond the last column', 'lemma', prove([], (row(x_, last) & ~HB) == 0))]
    full = lambda tv, R: norm(And(cmp('uge', R, 1, 32), cmp('ule', R, tv, 32)))
    def clear(K): return norm(And(cmp('ult', K, hb, 32), Or(*[cmp('eq', K, sub(hb, j, 32), 32) for j in (1, 2, 3, 4, 5, 6, 7)])))
    def gT(pre, T_, st0):
        if pre is not W.mem[mt.id]: return None
        return lambda tv, R, K: ite(And(full(tv, R), cmp('uge', K, hb, 32)), S(bv(R, 32), bv(K, 32)), ite(full(tv, R), e.stale(pre, R, K), pre.read(R, K), 64), 64)
    def gL(pre, T_, st0):
        return lambda tv, R, K: ite(full(tv, OI(bv(K, 32))), OI(bv(K, 32)), pre.read(R, K), 32)
    def split(R, K, t):
        o = [([R != t + 1], [], ()), ([R == t + 1, z3.ULT(K, hb)], [(R, t + 1)], ())]; u = fresh('u', 17)
        for j in range(8): o.append(([z3.ULE(u, qv) if j <= rem else z3.ULT(u, qv)], [(R, t + 1), (K, hb + z3.Concat(C(0, 12), u, C(j, 3)))], [S(t + 1, K) == S(t, K) ^ MW(INC(t), K)]))
        return [(u, z3.Extract(19, 3, K - hb))], o
    # words before the start word: cleared or left (not part of the postcondition)
    def stale(pre, R, K):
        z = [j for j in (1, 2, 3, 4, 5, 6, 7)]
        return ite(And(cmp('ult', K, hb, 32), STALE(bv(K, 32))), 0, pre.read(R, K), 64)
    STALE = lambda K: cleared(hb, K)
    def cleared(h, K):
        o = []
        for j, lo in ((1, 1), (2, 2), (3, 4), (4, 5), (5, 6), (6, 7), (7, 8)): o.append(z3.And(K == h - j, z3.UGE(h, lo)))
        return z3.Or(*o)
    e.stale = stale
    e.trip_hints = [z3.ZeroExt(15, qv)]; e.hints = [Hint([fn], mt, gT, split), Hint([fn], La, gL)]
    res = e.call_function(fn, [NULL if tnull else T, A, r, c], W.state()); post = []; R0, K0 = z3.BitVec('R0', 32), z3.BitVec('K0', 32)
    for rv, s in res:
        if not sat(list(s.pc), 5000): continue
        post.append((fn + ': returns the table', 'post', 'proved' if isinstance(rv, Ptr) and rv.reg is nj else ('refuted', 'another')))
        pc = list(s.pc) + [z3.ULT(R0, N)]; x = bv(s.mem[La.id].read(0, R0), 32)
        post.append((fn + ': L[x] is a row of the table', 'post', prove(pc, z3.ULT(x, N))))
        new = bv(s.mem[mt.id].read(x, K0), 64); pk = pc + [z3.UGE(K0, hb), z3.ULT(K0, bv(mt.cells, 32))]
        post.append((fn + ': row L[x] is the combination of the rows 2^b * A[r] named by the bits of x, from the word of the start column on', 'post', prove(pk, new == S(OI(R0), K0))))
        post.append((fn + ': the row number stands for x', 'post', prove(pc, z3.And(ORD(x) == R0, OI(R0) == x))))
        k1 = z3.BitVec('K1', 32); post.append((fn + ': row 0 stays zero', 'post', prove(list(s.pc), bv(s.mem[mt.id].read(0, k1), 64) == 0)))
    return {'functions': [fn], 'obligations': [(x, k, r) for x, k, r, t in e.obs] + lemma + post, 'paths': len(res), 'assumed': ["m4ri's Gray code: ord is a permutation with ord[0] = 0, ord[i+1] = ord[i] ^ 2^inc[i]", 'mzed_add_multiple_of_row by its contract (C03): the rows of M are 2^b * A[r] from column c on, zero elsewhere', 'multiplication is linear (C01)']}
def jobs(tier):
    from run import Job
    return [Job('mzed_make_table e=%d tail %d' % (d, rem), table, d, rem, timeout=300) for d in range(2, 17) for rem in range(8)] + [Job('mzed_make_table e=%d T=NULL' % d, table, d, 1, True, timeout=300) for d in (2, 4, 8)]
