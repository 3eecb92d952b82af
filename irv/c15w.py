"""C15: scalar products of packed matrices. Small sizes element by element (row operations), large sizes word by word with the table
of 16-bit products; the table itself word by word."""
from world import *
import z3, core, elevel

def t16(ff, w, a, x):
    """the packed product of the elements in the 16-bit value x"""
    x = z3.Extract(15, 0, bv(x, 32)); out = []
    for l in range(16 // w): out.append(z3.Extract(w - 1, 0, bv(ff.mul(a, z3.ZeroExt(64 - w, z3.Extract(l * w + w - 1, l * w, x)) & ff.em), 64)))
    r = out[0]
    for o in out[1:]: r = z3.Concat(o, r)
    return z3.ZeroExt(48, r)
def table(M, w):
    fn = 'gf2e_t16_init'; e = Engine(M); e.mod = M[0]; ff = Field(w=w); W = World(e, ff); a = z3.BitVec('a', 64); W.pc.append((a & ~ff.em) == 0); cnt = [0]
    if isz(ff.d): VAR_RANGE[ff.d.decl().name()] = {2: (2, 2), 4: (3, 4), 8: (5, 8), 16: (9, 16)}[w]
    def calloc(e, st, v):
        e.oblige(st, zb(And(cmp('eq', v[0], 1 << 16, 64), cmp('eq', v[1], 8, 64))), fn + ': the table has 65536 words', 'post')
        r = Region('arr', 'mul', es=8, length=1 << 16, heapmem=True); st.mem[r.id] = Mem.base(lambda r, k: 0, 64); return Ptr(r, 0)
    e.contracts['m4ri_mm_calloc'] = calloc; e.sym_first = True
    res = e.call_function(fn, [ff.ptr, a], W.state()); post = []
    for rv, s in res:
        if not sat(list(s.pc), 5000): continue
        K0 = z3.BitVec('K0', 32); new = s.mem[rv.reg.id].read(0, K0); want = t16(ff, w, a, K0)
        for l in range(0, 16, w): post.append((fn + ': entry is the packed product, element %d' % (l // w), 'post', prove(list(s.pc) + [z3.ULT(K0, 1 << 16)], z3.Extract(l + w - 1, l, bv(new, 64)) == z3.Extract(l + w - 1, l, want))))
        post.append((fn + ': high bits are zero', 'post', prove(list(s.pc) + [z3.ULT(K0, 1 << 16)], z3.Extract(63, 16, bv(new, 64)) == 0)))
    return {'functions': [fn], 'obligations': [(x, k, r) for x, k, r, t in e.obs] + post, 'paths': len(res), 'assumed': ['the field multiplication is the function MUL (C01) with MUL(0,b)=0, MUL(1,b)=b']}
def large(M, w, rl, alias=False):
    """the path with table lookups"""
    fn = 'mzed_mul_scalar'; e = Engine(M); e.mod = M[0]; ff = Field(w=w); W = World(e, ff); n = 64 // w; lg = n.bit_length() - 1
    if isz(ff.d): VAR_RANGE[ff.d.decl().name()] = {2: (2, 2), 4: (3, 4), 8: (5, 8), 16: (9, 16)}[w]
    wv = z3.BitVec('Wm1', 20); VAR_RANGE['Wm1'] = (0, 2**20 - 2); W.pc.append(z3.ULE(wv, C(2**20 - 2, 20)))
    wm = z3.Concat(C(0, 12 - lg), wv); wm32 = z3.ZeroExt(lg, wm); W.width = z3.simplify(wm32 + 1)
    ncols = z3.Concat(wm, C(rl, lg)) if rl else z3.simplify(z3.Concat(z3.Extract(31 - lg, 0, wm32 + 1), C(0, lg)))
    nr = W.int('nr', 1); B, mb = W.mzed('B', nr, ncols, window=True, const=not alias); Cp, mc = (B, mb) if alias else W.mzed('C', nr, ncols, window=True)
    a = z3.BitVec('a', 64); W.pc += [(a & ~ff.em) == 0]
    if w != 2: W.pc.append(z3.ULE(ff.d, C(8, 32)))
    live = Region('struct', 'table', size=8); W.mem[live.id] = {'live': 0}
    def t16init(e, st, v):
        if not (isinstance(v[0], Ptr) and v[0].reg is ff.reg): raise Unsupported('another field')
        e.oblige(st, zb(cmp('eq', and_(v[1], norm(~ff.em), 64), 0, 64)), 'gf2e_t16_init: the scalar is a field element', 'pre')
        r = Region('arr', 'mul', es=8, length=1 << 16, heapmem=True, const=True); st.mem[r.id] = Mem.base(lambda r, k, x=v[1]: t16(ff, w, x, k), 64); st.mem[live.id] = {'live': 1}; r.t16 = True; return Ptr(r, 0)
    def t16free(e, st, v):
        e.oblige(st, isinstance(v[0], Ptr) and getattr(v[0].reg, 't16', False) and st.mem[live.id]['live'] == 1, 'the table is released once', 'pre'); st.mem[live.id] = {'live': 0}
    e.contracts['gf2e_t16_init'] = t16init; e.contracts['gf2e_t16_free'] = e.contracts['m4ri_mm_free'] = t16free
    def small(e, st, v): raise Dead()     # the direct method: contract `small sizes`
    e.contracts['mzed_copy'] = small
    res = e.call_function(fn, [Cp, a, B], W.state()); post = []; R0, K0 = z3.BitVec('R0', 32), z3.BitVec('K0', 32); last = wm32
    for rv, s in res:
        if not sat(list(s.pc), 5000): continue
        post.append((fn + ': returns C', 'post', 'proved' if isinstance(rv, Ptr) and rv.reg is Cp.reg else ('refuted', 'another matrix')))
        post.append(('the table is released', 'leak', 'proved' if s.mem[live.id]['live'] == 0 else ('refuted', 'leak')))
        for nm, c, kt in (('inner words', [z3.ULT(K0, last)], K0), ('the last word', [], last)):
            pc = list(s.pc) + c + [z3.ULT(R0, nr)]; new = bv(s.mem[mc.id].read(R0, kt), 64); old = bv(mc.fn(R0, kt), 64); b = bv(mb.fn(R0, kt), 64)
            for l in range(n):
                L = lambda t: z3.Extract(l * w + w - 1, l * w, t)
                want = z3.Extract(w - 1, 0, bv(ff.mul(a, z3.ZeroExt(64 - w, L(b))), 64)) if nm == 'inner words' or not rl or l < rl else L(old)
                post.append(('%s, end %d: %s, element %d' % (fn, rl, nm, l), 'post', prove(pc, L(new) == want)))
    return {'functions': [fn + ' (table method)'], 'obligations': [(x, k, r) for x, k, r, t in e.obs] + post, 'paths': len(res), 'assumed': ['the field multiplication is the function MUL (C01) with MUL(0,b)=0, MUL(1,b)=b', 'fewer than 2^20 words per row']}
def small(M, w, cnull, alias=False):
    from elevel import EW, check, eleaks, result
    fn = 'mzed_mul_scalar'; e = Engine(M); e.mod = M[0]; e.no_merge = True; W = EW(e, w); n, m = W.dim('n', 1), W.dim('m', 1); a = z3.BitVec('a', 64); W.pc.append((a & ~W.ff.em) == 0)
    B = W.mat('B', n, m, const=not alias); fb = B.reg.top.fn; Cm = B if alias else NULL if cnull else W.mat('C', n, m); st = W.state(); seen = [0]
    def t16init(e, st, v): seen[0] += 1; raise Dead()      # the table method: contract `large`
    e.contracts['gf2e_t16_init'] = t16init
    res = e.call_function(fn, [Cm, a, B], st); post = []
    for rv, s in res:
        if not sat(list(s.pc), 5000): continue
        if isnull(rv): post.append((fn + ': a result', 'post', ('refuted', 'NULL'))); continue
        if not cnull: post.append((fn + ': returns C', 'post', 'proved' if rv.reg is Cm.reg else ('refuted', 'another')))
        else: post.append((fn + ': shape of the result', 'post', prove(s.pc, zb(And(cmp('eq', rv.reg.top.nrows, n, 32), cmp('eq', rv.reg.top.cells, m, 32))))))
        post.append(check(W, s, rv, lambda R, K: W.ff.mul(a, bv(fb(R, K), 64)), fn + ': every element is multiplied by a')); post += eleaks(e, W, s, [rv] if cnull else [])
    return result(e, post, [fn], len(res))
def jobs(tier):
    from run import Job
    J = []
    for w in (2, 4, 8, 16):
        J += [Job('gf2e_t16_init w=%d' % w, table, w)]
        J += [Job('mzed_mul_scalar w=%d small sizes%s' % (w, x), small, w, c, al) for x, c, al in (('', False, False), (' C=NULL', True, False), (' C=B', False, True))]
        if w < 16: J += [Job('mzed_mul_scalar w=%d table end %d' % (w, rl), large, w, rl, timeout=200) for rl in range(64 // w)]; J.append(Job('mzed_mul_scalar w=%d table C=B' % w, large, w, 1, True))
    return J
