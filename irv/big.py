"""Matrices over GF(2^e) as single values: contracts of the mzed and mzd_slice primitives.
Field elements do not commute with nothing but scalars, so the noncommutative polynomials of mlevel
apply unchanged (atoms are blocks of matrices over the field)."""
from mlevel import *

class BFF:
    def __init__(s, d=None):
        s.reg = Region('struct', 'ff', size=56, const=True); s.ptr = Ptr(s.reg, 0); s.d = d
class BW(MW):
    """world of field matrices of one type ('mzed' or 'slice')"""
    def __init__(s, e, ty, w=None, d=None, share=None):
        MW.__init__(s, e); s.ty, s.w = ty, w
        if share is not None:
            s.ff, s.d, s.mem, s.pc = share.ff, share.d, share.mem, share.pc
            e.contracts.update(big_contracts(e, s)); return
        s.ff = BFF(d)
        s.mem[s.ff.reg.id] = {0: d} if d is not None else {}
        if d is None:
            lo, hi = {2: (2, 2), 4: (3, 4), 8: (5, 8), 16: (9, 16)}[w] if w else (2, 16)
            v = z3.BitVec('degree', 32); VAR_RANGE['degree'] = (lo, hi); s.pc += [z3.ULE(C(lo, 32), v), z3.ULE(v, C(hi, 32))]; s.d = v
            s.mem[s.ff.reg.id][0] = v
        else: s.d = d
        e.bw = s
        e.contracts.update(big_contracts(e, s))
    def mat(s, name, nr, nc, const=False, v=None, st=None):
        r = Region('struct', name, size=32 if s.ty == 'mzed' else 152, root=None, r0=0, c0=0, const=const, mzd=True, mty=s.ty)
        (s.mem if st is None else st.mem)[r.id] = s.fields(nr, nc, v if v is not None else atom(name, nr, nc))
        return Ptr(r, 0)
    def fields(s, nr, nc, v):
        d = {'live': 1}
        if v is not None: d['V'] = v
        if s.ty == 'mzed': d.update({8: s.ff.ptr, 16: nr, 20: nc, 24: s.w, 0: Opaque('x')})
        else: d.update({128: nr, 132: nc, 136: s.d, 144: s.ff.ptr}); d.update({8 * i: Opaque('x%d' % i) for i in range(16)})
        return d
    def new(s, st, nr, nc, v=None, name='tmp'):
        r = Region('struct', name, size=32 if s.ty == 'mzed' else 152, root=None, r0=0, c0=0, const=False, mzd=True, heap=True, mty=s.ty); r.name += str(r.id)
        st.mem[r.id] = s.fields(nr, nc, v if v is not None else zero(nr, nc)); return Ptr(r, 0)

def big_contracts(e, w):
    X = {}; p = 'mzed' if w.ty == 'mzed' else 'mzd_slice'
    unit = (64 // w.w) if w.ty == 'mzed' else 64
    H = lambda e, st, q, n: handle(e, st, q, n)
    def ffok(e, st, f, n):
        if not (isinstance(f, Ptr) and f.reg is w.ff.reg): raise Unsupported(n + ': another field')
    def init(e, st, v):
        ffok(e, st, v[0], p + '_init'); nn = lambda x: cmp('sge', x, 0, 32)
        e.oblige(st, And(nn(v[1]), nn(v[2])), p + '_init: dimensions not negative', 'pre'); return w.new(st, v[1], v[2])
    X[p + '_init'] = init
    X[p + '_free'] = lambda e, st, v: free_contract(e, st, v, False, p + '_free')
    X[p + '_free_window'] = lambda e, st, v: free_contract(e, st, v, True, p + '_free_window')
    def win(e, st, v):
        n = p + '_init_window'; r = H(e, st, v[0], n); a, b = dims(st, r); r0, c0, r1, c1 = [to32(e, st, x, n) for x in v[1:]]
        le = lambda x, y: cmp('sle', x, y, 32)
        e.oblige(st, And(le(0, r0), le(r0, r1), le(r1, a)), n + ': rows inside', 'pre')
        e.oblige(st, And(le(0, c0), le(c0, c1), le(c1, b)), n + ': columns inside', 'pre')
        e.oblige(st, cmp('eq', and_(c0, unit - 1, 32), 0, 32), n + ': starts at a word boundary', 'pre')
        q = Region('struct', 'win', size=r.size, root=rootof(r), r0=add(r.r0, r0, 32), c0=add(r.c0, c0, 32), const=False, mzd=True, heap=True, mty=w.ty); q.name += str(q.id)
        st.mem[q.id] = w.fields(sub(r1, r0, 32), sub(c1, c0, 32), None); return Ptr(q, 0)
    X[p + '_init_window'] = X[p + '_init_window_const'] = win
    def addc(chk):
        def f(e, st, v):
            n = p + '_add'; c, a, b = v; ra, rb = H(e, st, a, n), H(e, st, b, n); da, db = dims(st, ra), dims(st, rb)
            if isnull(c): 
                if not chk: e.oblige(st, False, 'NULL result passed to ' + n, 'pre'); raise Dead()
                c = w.new(st, da[0], da[1])
            rc = H(e, st, c, n); dc = dims(st, rc)
            for x, y in ((db, da), (dc, da)): eqdim(e, st, x[0], y[0], n + ': rows'); eqdim(e, st, x[1], y[1], n + ': columns')
            noalias(e, st, rc, ra, n, True); noalias(e, st, rc, rb, n, True)
            setval(e, st, rc, vadd(mval(st, ra), mval(st, rb))); return c
        return f
    X[p + '_add'] = X[p + '_sub'] = addc(True); X['_' + p + '_add'] = X['_' + p + '_sub'] = addc(False)
    def mulc(acc, ini, n):
        def f(e, st, v):
            c, a, b = v[:3]; ra, rb = H(e, st, a, n), H(e, st, b, n); da, db = dims(st, ra), dims(st, rb)
            eqdim(e, st, da[1], db[0], n + ': inner dimension')
            if isnull(c):
                if not ini: e.oblige(st, False, 'NULL result passed to ' + n, 'pre'); raise Dead()
                c = w.new(st, da[0], db[1])
            rc = H(e, st, c, n); dc = dims(st, rc); eqdim(e, st, dc[0], da[0], n + ': rows of the result'); eqdim(e, st, dc[1], db[1], n + ': columns of the result')
            noalias(e, st, rc, ra, n); noalias(e, st, rc, rb, n)
            if getattr(e, 'recursive', {}).get(n) is not None: e.oblige(st, cmp('ult', da[0], e.recursive[n], 32), n + ': the recursive call is on a smaller matrix', 'post')
            pr = vmul(mval(st, ra), mval(st, rb)); setval(e, st, rc, vadd(mval(st, rc), pr) if acc else pr); return c
        return f
    if w.ty == 'mzed':
        for n, acc, ini in (('mzed_mul', 0, 1), ('mzed_addmul', 1, 0), ('_mzed_mul', 0, 0), ('_mzed_addmul', 1, 0), ('mzed_mul_strassen', 0, 1), ('mzed_addmul_strassen', 1, 0), ('_mzed_mul_strassen', 0, 0), ('_mzed_addmul_strassen', 1, 0),
                            ('_mzed_mul_newton_john', 1, 0), ('_mzed_mul_newton_john0', 1, 0), ('mzed_mul_newton_john', 0, 1), ('mzed_addmul_newton_john', 1, 0), ('mzed_mul_naive', 0, 1), ('mzed_addmul_naive', 1, 0), ('_mzed_mul_naive', 1, 0),
                            ('mzed_mul_karatsuba', 0, 1), ('mzed_addmul_karatsuba', 1, 0), ('_mzed_addmul_karatsuba', 1, 1), ('_mzed_mul_karatsuba', 0, 0)):
            X[n] = mulc(acc, ini, n)
    else:
        for n, acc, ini in (('mzd_slice_mul', 0, 1), ('mzd_slice_addmul', 1, 0), ('mzd_slice_mul_karatsuba', 0, 1), ('mzd_slice_addmul_karatsuba', 1, 0), ('_mzd_slice_addmul_karatsuba', 1, 1), ('_mzd_slice_addmul_naive', 1, 1), ('mzd_slice_mul_blm', 0, 1), ('_mzd_slice_mul_blm', 0, 1), ('mzd_slice_addmul_blm', 1, 0)):
            X[n] = mulc(acc, ini, n)
    def setui(e, st, v):
        r = H(e, st, v[0], p + '_set_ui'); nr, nc = dims(st, r); u = v[1]
        if is_c(u): x = zero(nr, nc) if u == 0 else ident(nr, nc) if u == 1 else scal('c%d' % u, ident(nr, nc))
        else: raise Unsupported('set_ui of a symbolic value')
        setval(e, st, r, x); return None
    X[p + '_set_ui'] = setui
    def copy(e, st, v):
        n, q = v; rp = H(e, st, q, p + '_copy'); a, b = dims(st, rp); x = mval(st, rp)
        if isnull(n): return w.new(st, a, b, x)
        if n.reg is q.reg: return n
        rn = H(e, st, n, p + '_copy'); c, d = dims(st, rn); eqdim(e, st, c, a, p + '_copy: rows'); eqdim(e, st, d, b, p + '_copy: columns')
        noalias(e, st, rn, rp, p + '_copy'); setval(e, st, rn, x); return n
    X[p + '_copy'] = copy
    X[p + '_is_zero'] = iszero_contract
    def trsm(up, n):
        def f(e, st, v):
            l, b = v[:2]; rl, rb = H(e, st, l, n), H(e, st, b, n); dl, db = dims(st, rl), dims(st, rb)
            eqdim(e, st, dl[0], dl[1], n + ': square matrix'); eqdim(e, st, db[0], dl[1], n + ': rows of the right-hand side')
            noalias(e, st, rb, rl, n)
            if getattr(e, 'recursive', {}).get(n) is not None: e.oblige(st, cmp('ult', dl[0], e.recursive[n], 32), n + ': the recursive call is on a smaller matrix', 'post')
            if len(v) > 2 and n.startswith('_'): e.oblige(st, cmp('sge', v[2], 64, 32), n + ': cutoff at least 64', 'pre')
            setval(e, st, rb, vmul(app('tui' if up else 'tli', dl[0], dl[0], mval(st, rl)), mval(st, rb))); return None
        return f
    for up, nm in ((0, 'trsm_lower_left'), (1, 'trsm_upper_left')):
        for suf in ('', '_naive', '_newton_john'): X[p + '_' + nm + suf] = trsm(up, p + '_' + nm + suf)
        X['_' + p + '_' + nm] = trsm(up, '_' + p + '_' + nm)
    return X

def both(e, w, d=None):
    """packed and sliced matrices over the same field"""
    m = BW(e, 'mzed', w, d); s = BW(e, 'slice', w, d, share=m)
    def conv(src, dst, n):
        def f(e, st, v):
            a, z = v; rz = handle(e, st, z, n); x = dims(st, rz); y = mval(st, rz)
            if getattr(rz, 'mty', '') != src: raise Unsupported(n + ' of another type')
            if isnull(a): return (m if dst == 'mzed' else s).new(st, x[0], x[1], y)
            ra = handle(e, st, a, n); q = dims(st, ra); eqdim(e, st, q[0], x[0], n + ': rows'); eqdim(e, st, q[1], x[1], n + ': columns')
            setval(e, st, ra, y); return a
        return f
    e.contracts['mzed_slice'] = conv('mzed', 'slice', 'mzed_slice'); e.contracts['mzed_cling'] = conv('slice', 'mzed', 'mzed_cling')
    return m, s

def field_result(e, posts, functions, paths, extra=()):
    """callee contracts applied are discharged by jobs of their own or listed as assumed"""
    r = result(e, posts, functions, paths, extra)
    r['assumed'] = [x for x in r['assumed']]
    r['callees'] = sorted(e.applied)
    return r
