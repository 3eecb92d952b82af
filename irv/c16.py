"""C16: inversion. The echelon form computed for [A | I] is U [A | I] for some matrix U (row operations, C11)."""
from big import *

def invert(M, w, cnull):
    fn = 'mzed_invert_newton_john'
    e = engine(M); e.die_ok = True; W = BW(e, 'mzed', w)
    e.contracts.update({'mzed_cmp': lambda e, st, v: cmp_contract(e, st, v, 'mzed_cmp')})
    def concat(e, st, v):
        c, a, b = v; ra, rb = handle(e, st, a, 'mzed_concat'), handle(e, st, b, 'mzed_concat'); da, db = dims(st, ra), dims(st, rb)
        eqdim(e, st, da[0], db[0], 'mzed_concat: rows'); nr, nc = da[0], add(da[1], db[1], 32)
        x = upd_(upd_(zero(nr, nc), 0, 0, mval(st, ra)), 0, da[1], mval(st, rb))
        if isnull(c): return W.new(st, nr, nc, x)
        rc = handle(e, st, c, 'mzed_concat'); dc = dims(st, rc); eqdim(e, st, dc[0], nr, 'mzed_concat: rows'); eqdim(e, st, dc[1], nc, 'mzed_concat: columns'); setval(e, st, rc, x); return c
    e.contracts['mzed_concat'] = concat
    def subm(e, st, v):
        s, m, r0, c0, r1, c1 = v; rm = handle(e, st, m, 'mzed_submatrix'); a, b = dims(st, rm); le = lambda x, y: cmp('sle', x, y, 32)
        e.oblige(st, And(le(0, r0), le(r0, r1), le(r1, a), le(0, c0), le(c0, c1), le(c1, b)), 'mzed_submatrix: inside', 'pre')
        nr, nc = sub(r1, r0, 32), sub(c1, c0, 32); x = sub_(mval(st, rm), r0, c0, nr, nc)
        if isnull(s): return W.new(st, nr, nc, x)
        rs = handle(e, st, s, 'mzed_submatrix'); ds = dims(st, rs); eqdim(e, st, ds[0], nr, 'mzed_submatrix: rows'); eqdim(e, st, ds[1], nc, 'mzed_submatrix: columns'); setval(e, st, rs, x); return s
    e.contracts['mzed_submatrix'] = subm
    def ech(n):
        def f(e, st, v):
            r = handle(e, st, v[0], n); nr, nc = dims(st, r); e.oblige(st, cmp('ne', v[1], 0, 32), n + ': the reduced form is asked for', 'pre')
            setval(e, st, r, vmul(atom('U', nr, nr), mval(st, r))); return fresh('rank')
        return f
    for n in ('mzed_echelonize_newton_john', 'mzed_echelonize', 'mzed_echelonize_naive', 'mzed_echelonize_ple'): e.contracts[n] = ech(n)
    n = W.dim('n'); A = W.mat('A', n, n, const=True); B = NULL if cnull else W.mat('B', n, n); st = W.state(); a0 = mval(st, A.reg)
    CMPS.clear()
    res = e.call_function(fn, [B, A], st); post = []
    for rv, s in res:
        if not sat(list(s.pc), 5000): continue
        if not isinstance(rv, Ptr) or rv.reg is None: post.append((fn + ': returns the inverse', 'post', ('refuted', 'NULL'))); continue
        if not cnull: post.append((fn + ': returns B', 'post', 'proved' if rv.reg is B.reg else ('refuted', 'another')))
        # what the path knows: matrices that compared equal are equal
        eqs = []
        for k, c in CMPS.items():
            if k == 'keep': continue
            if prove(s.pc, zb(cmp('eq', c, 0, 32))) == 'proved': eqs.append(k)
        ok = ('refuted', 'nothing was found equal to the identity')
        pairs = CMPS.get('keep', [])
        for x, y in pairs:
            k = (x.a[0] if x.op == 'atom' else x.id, y.a[0] if y.op == 'atom' else y.id)
            if k not in eqs: continue
            for i, j in ((x, y), (y, x)):
                if mequal(s.pc, i, ident(n)) == 'proved':
                    # j == 1 on this path; B A == j shows B A == 1
                    ok = mequal(s.pc, vmul(s.mem[rv.reg.id]['V'], a0), j)
        post.append((fn + ': B * A is the block that was found equal to the identity', 'post', ok))
        post += leaks(e, s, [rv] if cnull else [])
    return field_result(e, post, [fn], len(res), ['mzed_echelonize_newton_john multiplies its argument by some matrix from the left (C11)'])
def jobs(tier):
    from run import Job
    return [Job('mzed_invert_newton_john w=%d%s' % (w, ' B=NULL' if c else ''), invert, w, c) for w in (2, 4, 8, 16) for c in (False, True)]
