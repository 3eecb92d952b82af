"""C03: row operations on packed matrices, at the level of words. For each element width the position of the start column in its
word (q) and of the last column in its word (rl) are constants of a job; rows, words, shapes, scalars and contents are arbitrary."""
from world import *
import z3, core

def setup(M, w, q, rl, single, alias):
    """q/rl None: arbitrary. single: the start column lies in the last word"""
    e = Engine(M); e.mod = M[0]; ff = Field(w=w); W = World(e, ff); n = 64 // w; lg = n.bit_length() - 1
    qv = z3.BitVec('q', 20); VAR_RANGE['q'] = (0, 2**20 - 2); W.pc.append(z3.ULE(qv, C(2**20 - 2, 20))); qw = z3.Concat(C(0, 12 - lg), qv)
    if single: wv = qv + 1 if rl == 0 else qv
    else: wv = z3.BitVec('Wm1', 20); VAR_RANGE['Wm1'] = (0, 2**20 - 2); W.pc.append(z3.ULE(wv, C(2**20 - 2, 20)))
    wm = z3.Concat(C(0, 12 - lg), wv); wm32 = z3.ZeroExt(lg, wm)
    if q is None: qr = z3.BitVec('ql', lg); RESIDUE.add('ql'); VAR_RANGE['ql'] = (0, n - 1)
    else: qr = C(q, lg)
    sc = z3.Concat(qw, qr)
    rr = None
    if rl is None: rr = z3.BitVec('rl', lg); RESIDUE.add('rl'); VAR_RANGE['rl'] = (1, n - 1); W.pc.append(rr != 0); ncols = z3.Concat(wm, rr); width = wm32 + 1
    elif rl == 0 and not single: width = wm32 + 1; ncols = z3.Concat(z3.Extract(31 - lg, 0, width), C(0, lg))
    elif rl == 0: ncols = z3.Concat(wm, C(0, lg)); width = wm32
    else: ncols = z3.Concat(wm, C(rl, lg)); width = wm32 + 1
    if single: width = z3.ZeroExt(lg, qw) + 1
    W.width = z3.simplify(width); sb = z3.ZeroExt(lg, qw); last = z3.simplify(width - 1)
    ra = W.int('ra', 1); A, ma = W.mzed('A', ra, ncols, window=True)
    if alias: rb, B, mb = ra, A, ma
    else: rb = W.int('rb', 1); B, mb = W.mzed('B', rb, ncols, window=True)
    W.pc.append(z3.ULT(sc, ncols))
    if not single: W.pc.append(z3.ULT(sb, last))
    W.__dict__.update(dict(rr=rr, ra=ra, rb=rb, A=A, B=B, ma=ma, mb=mb, sc=sc, ncols=ncols, sb=sb, last=last, n=n, w_=w))
    return e, ff, W
def rowop(M, fn, w, combos, single, alias=False, xs=('x',)):
    post = []; obs = []; np_ = 0
    for q, rl in combos:
        for xk in xs:
            e, ff, W = setup(M, w, q, rl, single, alias); ra, rb, ma, mb = W.ra, W.rb, W.ma, W.mb; n = W.n
            ar, br = W.int('ar'), W.int('br'); W.pc += [z3.ULT(ar, ra), z3.ULT(br, rb)]; st = W.state()
            x = z3.BitVec('x', 64) if xk in ('x', 'any') else xk
            if xk == 'any': st.pc = st.pc + ((x & ~ff.em) == 0,)
            if xk == 'x': st.pc = st.pc + ((x & ~ff.em) == 0, x != 0, x != 1)
            up = lambda o: z3.ZeroExt(64 - w, o)
            mulx = lambda o: z3.Extract(w - 1, 0, bv(ff.mul(x, up(o)), 64))
            if fn == 'mzed_add_row': args = [W.A, ar, W.B, br, W.sc]; f = lambda o, b: o ^ b
            elif fn == 'mzed_add_multiple_of_row': args = [W.A, ar, W.B, br, x, W.sc]; f = lambda o, b: o ^ mulx(b)
            else: args = [W.A, ar, W.sc, x]; f = lambda o, b: mulx(o)
            if not single and not alias and not (q is None and rl is None): e.quiet = 1   # safety: the job 'words between', for all start and end columns
            res = e.call_function(fn, args, st); R0, K0 = z3.BitVec('R0', 32), z3.BitVec('K0', 32)
            sb, last = W.sb, W.last
            if single: regs = [('words before', [z3.ULT(K0, sb)], K0), ('the word of the start column', [], sb)]
            else:
                regs = [('words before', [z3.ULT(K0, sb)], K0)] if q is None and rl is None or alias else []
                if q is not None: regs += [('the word of the start column', [], sb)]
                if q is None and rl is None or alias: regs += [('inner words %d' % o, [z3.ULT(sb, kk), z3.ULT(kk, last)], kk) for o, kk in inner(W, K0)]
                if rl is not None: regs.append(('the last word', [], last))
            for rv, s in res:
                if not sat(list(s.pc), 5000): continue
                np_ += 1
                for nm, c, kt in regs:
                    for rn, rc, rt in (('other rows', [R0 != ar], R0), ('target row', [], ar)):
                        pc = list(s.pc) + c + rc + [z3.ULT(rt, ra)]
                        new = prune(bv(s.mem[ma.id].read(rt, kt), 64), pc); old = bv(ma.fn(rt, kt), 64); b = bv(mb.fn(br, kt), 64); what = '%s, start %s end %s: %s of %s' % (fn, q, rl, nm, rn)
                        if rn == 'other rows' or nm == 'words before': post.append((what + ' stay', 'post', eqv(pc, new, old))); continue
                        r = 'proved'
                        if nm.startswith('inner words'): lo, hi = 0, n
                        else: lo = q if nm.endswith('start column') else 0; hi = (rl or n) if single or nm == 'the last word' else n
                        for l in range(n):
                            L = lambda t: z3.Extract(l * w + w - 1, l * w, t)
                            want = f(L(old), L(b)) if lo <= l < hi else L(old)
                            if single and rl is None and q <= l: want = z3.If(z3.ULT(C(l, W.rr.size()), W.rr), want, L(old))
                            r = eqv(pc, L(new), want)
                            if r != 'proved': post.append(('%s, element %d' % (what, l), 'post', r)); break
                        else: post.append((what, 'post', 'proved'))
            obs += e.obs; eo = e
    ob = [(a, k, r) for a, k, r, t in obs] + post
    if not post: ob.append((fn + ': some path returns', 'post', ('unknown', 'no path returns')))
    return {'functions': [fn] + sorted(eo.inlined), 'obligations': ob, 'paths': np_, 'assumed': ['the field multiplication is the function MUL (C01) with MUL(0,b)=0, MUL(1,b)=b', 'matrix dimensions: fewer than 2^20 words per row', 'arguments in range (documented preconditions)']}
def inner(W, K0):
    """all words after the start word; by their distance modulo 4 where the loop is unrolled"""
    k = {16: 2, 8: 1}.get(W.w_)
    if not k: return [(0, K0)]
    tt = z3.BitVec('tt', 20); VAR_RANGE['tt'] = (0, 2**20 - 1); return [(o, W.sb + 1 + z3.Concat(C(0, 12 - k), tt, C(o, k))) for o in range(1 << k)]
def eqv(pc, a, b):
    a, b = z3.simplify(bv(a, a.size()) if not isinstance(a, int) else a), z3.simplify(b)
    if a.eq(b): return 'proved'
    return prove(pc, a == b)
def prune(t, pc):
    """simplify conditionals decided by pc (sound: each decision is proved)"""
    memo = {}; dec = {}; sol = z3.Solver(); sol.set('timeout', 2000)
    for p in pc:
        if p is not True and not core.apps_of([zb(p)]): sol.add(zb(p))
    def decide(c):
        if core.apps_of([c]): return None
        vs = set(); st = [c]; seen = set()
        while st:
            y = st.pop()
            if y.get_id() in seen: continue
            seen.add(y.get_id()); st.extend(y.children())
            if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED: vs.add(y.decl().name())
        if vs <= RESIDUE: return None
        for v, f in ((True, z3.Not(c)), (False, c)):
            sol.push(); sol.add(f); r = sol.check(); sol.pop()
            if r == z3.unsat: return v
        return None
    def go(t):
        if not z3.is_expr(t) or t.num_args() == 0: return t
        k = t.get_id()
        if k in memo: return memo[k][1]
        if t.decl().kind() == z3.Z3_OP_ITE:
            c = go(t.arg(0)); c = z3.simplify(c); ck = c.get_id()
            if z3.is_true(c): v = True
            elif z3.is_false(c): v = False
            else:
                if ck not in dec: dec[ck] = (c, decide(c))
                v = dec[ck][1]
            r = go(t.arg(1)) if v is True else go(t.arg(2)) if v is False else z3.If(c, go(t.arg(1)), go(t.arg(2)))
        else:
            ch = [go(x) for x in t.children()]; r = t.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
        memo[k] = (t, r); return r
    return go(z3.simplify(t))
def jobs(tier):
    from run import Job
    J = []
    for w in (2, 4, 8, 16):
        n = 64 // w
        for fn in ('mzed_add_row', 'mzed_add_multiple_of_row', 'mzed_rescale_row'):
            xs = {'mzed_add_row': ('x',), 'mzed_rescale_row': ('any',)}.get(fn, ('x', 0, 1))
            for q in range(n): J.append(Job('%s w=%d single word start %d' % (fn, w, q), rowop, fn, w, ([(q, None)] if q < n - 1 else []) + [(q, 0)], True, False, xs, timeout=300))
            for q in range(n): J.append(Job('%s w=%d start %d' % (fn, w, q), rowop, fn, w, [(q, None)], False, False, xs, timeout=300))
            for rl in range(n): J.append(Job('%s w=%d end %d' % (fn, w, rl), rowop, fn, w, [(None, rl)], False, False, xs, timeout=300))
            J.append(Job('%s w=%d words between' % (fn, w), rowop, fn, w, [(None, None), (None, 0)], False, False, xs, timeout=300))
            if fn != 'mzed_rescale_row':
                J.append(Job('%s w=%d A=B single word' % (fn, w), rowop, fn, w, [(1, 0), (0, 1)], True, True, xs, timeout=300)); J.append(Job('%s w=%d A=B' % (fn, w), rowop, fn, w, [(1, 0), (0, 1)], False, True, xs, timeout=300))
    return J
