"""C02: element access. Packed: for each element width and each position of the element in its word, every row, word, shape and
content (also of the bits beyond the last column, which must not change). Sliced: for each degree and bit position."""
from world import *
from core import prove, sat
import core

def symcol(W, n, q):
    """a column number with col % n == q, and a number of columns above it"""
    cv = z3.BitVec('cw', 26); VAR_RANGE['cw'] = (0, 1 << 19); lg = n.bit_length() - 1
    col = z3.Concat(C(0, 32 - 26 - lg), cv, C(q, lg)) if lg + 26 <= 32 else z3.Concat(z3.Extract(31 - lg, 0, z3.ZeroExt(6, cv)), C(q, lg))
    return col
def done(e, fn, res, post, bound=None):
    ob = [(w, k, r) for w, k, r, t in e.obs] + post
    if not any(k == 'post' for _, k, _ in post): ob.append((fn + ': some path returns', 'post', ('unknown', 'no path returns')))
    return {'functions': [fn] + sorted(e.inlined), 'obligations': ob, 'paths': len(res), 'assumed': ['matrix dimensions at most 2^24-1', 'element arguments are in range and positions inside the matrix (documented preconditions)']}
def lanes(word, l, w): return z3.Extract(l * w + w - 1, l * w, bv(word, 64))

def packed(M, fn, w, qs):
    n = 64 // w; post = []; obs = []; npaths = 0
    for q in qs:
        e = Engine(M); e.mod = M[0]; ff = Field(w=w); W = World(e, ff)
        nr, nc = W.int('nr', 1), W.int('nc', 1); A, ma = W.mzed('A', nr, nc, window=True); row = W.int('row')
        col = z3.BitVec('col', 32) if q is None else symcol(W, n, q); W.pc += [z3.ULT(row, nr), z3.ULT(col, nc)]
        x = z3.BitVec('x', 64); st = W.state(); st.pc = st.pc + ((x & ~ff.em) == 0,)
        res = e.call_function(fn, [A, row, col] + ([] if fn == 'mzed_read_elem' else [x]), st)
        R0, K0 = z3.BitVec('R0', 32), z3.BitVec('K0', 32)
        for rv, s in res:
            npaths += 1; pc = list(s.pc)
            old = ma.fn(R0, K0); kc = z3.LShR(col, C(n.bit_length() - 1, 32))
            if fn == 'mzed_read_elem':
                post.append(('%s: the element (position %d of its word)' % (fn, q), 'post', prove(pc, z3.ZeroExt(64 - w, lanes(ma.fn(row, kc), q, w)) == bv(rv, 64)) if rv is not None else ('refuted', 'nothing returned')))
                post.append(('%s: the matrix stays' % fn, 'post', 'proved' if s.mem[ma.id] is W.mem[ma.id] else prove(pc + [z3.ULT(R0, nr), z3.ULT(K0, bv(ma.width, 32))], bv(s.mem[ma.id].read(R0, K0), 64) == old)))
                continue
            new = bv(s.mem[ma.id].read(R0, K0), 64); f = (lambda o: o ^ z3.Extract(w - 1, 0, x)) if fn == 'mzed_add_elem' else (lambda o: z3.Extract(w - 1, 0, x))
            pc2 = pc + [z3.ULT(R0, nr), z3.ULT(K0, bv(ma.width, 32))]
            for l in range(n):
                hit = z3.And(R0 == row, K0 == kc) if l == q else z3.BoolVal(False)
                post.append(('%s: lane %d after access at position %d' % (fn, l, q), 'post', prove(pc2, lanes(new, l, w) == z3.If(hit, f(lanes(old, l, w)), lanes(old, l, w)))))
        obs += e.obs; eo = e
    eo.obs = obs; return done(eo, fn, range(npaths), post)

def sliced(M, fn, d):
    e = Engine(M); e.mod = M[0]; ff = Field(d=d); W = World(e, ff); post = []
    nr, nc = W.int('nr', 1), W.int('nc', 1); A, ms = W.slice('A', nr, nc, window=True); row, col = W.int('row'), W.int('col'); W.pc += [z3.ULT(row, nr), z3.ULT(col, nc)]
    x = z3.BitVec('x', 64); st = W.state(); st.pc = st.pc + (z3.ULE(x, C(mask(d), 64)),)
    res = e.call_function(fn, [A, row, col] + ([] if fn == 'mzd_slice_read_elem' else [x]), st)
    R0, K0 = z3.BitVec('R0', 32), z3.BitVec('K0', 32); kc = z3.LShR(col, C(6, 32)); sp = z3.ZeroExt(32, col & 63)
    one = C(1, 64) << sp
    for rv, s in res:
        pc = list(s.pc)
        if not sat(pc, 5000): continue
        if fn == 'mzd_slice_read_elem':
            bits = [z3.Extract(0, 0, z3.LShR(m.fn(row, kc), sp)) for m in ms]; want = z3.ZeroExt(64 - d, z3.Concat(*reversed(bits)))
            for b in range(64): post.append(('%s: bit %d of the element' % (fn, b), 'post', prove(pc, z3.Extract(b, b, bv(rv, 64)) == z3.Extract(b, b, want))))
            for m in ms: post.append((fn + ': the matrix stays', 'post', 'proved' if s.mem[m.id] is W.mem[m.id] else ('unknown', 'written')))
            continue
        pc2 = pc + [z3.ULT(R0, nr), z3.ULT(K0, bv(ms[0].width, 32))]
        for i, m in enumerate(ms):
            old = m.fn(R0, K0); new = bv(s.mem[m.id].read(R0, K0), 64); b = z3.Extract(i, i, x) == 1
            want = z3.If(z3.And(R0 == row, K0 == kc), z3.If(b, old | one, old & ~one) if fn == 'mzd_slice_write_elem' else z3.If(b, old ^ one, old), old)
            post.append(('%s: slice %d, every bit' % (fn, i), 'post', prove(pc2, new == want)))
    return done(e, fn, res, post)
def jobs(tier):
    from run import Job
    J = []
    for w in (2, 4, 8, 16):
        n = 64 // w
        for fn in ('mzed_read_elem', 'mzed_write_elem', 'mzed_add_elem'):
            for q0 in range(0, n, 4): J.append(Job('%s w=%d pos %d-%d' % (fn, w, q0, q0 + 3), packed, fn, w, range(q0, q0 + 4)))
    for d in range(2, 17):
        for fn in ('mzd_slice_read_elem', 'mzd_slice_write_elem', 'mzd_slice_add_elem'): J.append(Job('%s e=%d' % (fn, d), sliced, fn, d))
    return J
