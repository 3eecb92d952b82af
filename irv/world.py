"""m4rie's objects as symbolic regions, and the axioms of the field operations."""
import z3
from core import *
from engine import *

MAXDIM = (1 << 24) - 1

class Field:
    """a gf2e: multiplication and inversion are function symbols (what they compute is C01)"""
    def __init__(s, d=None, w=None):
        s.w = w or (2 if d <= 2 else 4 if d <= 4 else 8 if d <= 8 else 16)
        lo, hi = {2: (2, 2), 4: (3, 4), 8: (5, 8), 16: (9, 16)}[s.w]
        if d is None and lo == hi: d = lo
        s.d = d if d is not None else fresh('degree', 32, lo, hi)
        s.emask = mask(d) if d is not None else None
        s.reg = Region('struct', 'ff', size=56)
        s.ptr = Ptr(s.reg, 0)
        s.MUL = z3.Function('MUL', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
        s.INV = z3.Function('INV', z3.BitVecSort(64), z3.BitVecSort(64))
        s.axiom = []
        if d is None:
            s.em = fresh('emask', 64)
            s.axiom = [z3.Or(*[z3.And(s.d == k, s.em == mask(k)) for k in range(lo, hi + 1)])]
        else: s.em = C(mask(d), 64)
        def ax(app):
            a, b = app.arg(0), app.arg(1)
            cl = lambda x: (x & ~s.em) == 0
            return [(app & ~s.em) == 0, z3.Implies(z3.Or(a == 0, b == 0), app == 0), z3.Implies(z3.And(a == 1, cl(b)), app == b), z3.Implies(z3.And(b == 1, cl(a)), app == a)]
        UFAX['MUL'] = ax
        def axi(app):
            a = app.arg(0)
            return [(app & ~s.em) == 0, z3.Implies(z3.And((a & ~s.em) == 0, a != 0), z3.And(s.MUL(app, a) == 1, s.MUL(a, app) == 1, app != 0))]
        UFAX['INV'] = axi
    def mul(s, a, b):
        a, b = bv(a, 64), bv(b, 64)
        for x, y in ((a, b), (b, a)):
            if z3.is_bv_value(x):
                if x.as_long() == 0: return 0
                if x.as_long() == 1: return val(y)
        if a.get_id() > b.get_id() and False: a, b = b, a
        return s.MUL(a, b)
    def fields(s):
        w = s.d
        return {0: w, 8: fresh('minpoly', 64, 0, 1 << 17), 40: Fn('ff_inv'), 48: Fn('ff_mul'), 32: Opaque('mul table'), 24: Opaque('red'), 16: Opaque('pow_gen')}

class World:
    def __init__(s, eng, ff=None):
        s.e = eng; s.ff = ff; s.mem = {}; s.pc = []; s.mats = {}
        if ff:
            s.mem[ff.reg.id] = ff.fields(); s.pc += ff.axiom
            eng.contracts['ff_mul'] = s.c_mul; eng.contracts['gf2e_mul'] = s.c_mul; eng.contracts['_gf2e_mul_table'] = s.c_mul; eng.contracts['_gf2e_mul_arith'] = s.c_mul
            eng.contracts['ff_inv'] = s.c_inv; eng.contracts['gf2e_inv'] = s.c_inv
            eng.contracts['gf2e_degree_to_w'] = lambda e, st, v: C(s.ff.w, 64).as_long()
    def c_mul(s, e, st, v):
        _, a, b = v
        cl = lambda x: cmp('eq', and_(x, ~mask(64) & mask(64) if False else norm(~s.ff.em), 64), 0, 64)
        e.oblige(st, norm(zb(And(cl(a), cl(b)))), 'field elements passed to the multiplication are in range', 'pre')
        return s.ff.mul(a, b)
    def c_inv(s, e, st, v):
        return s.ff.INV(bv(v[1], 64))
    def int(s, name, lo=0, hi=MAXDIM, w=32):
        v = z3.BitVec(name, w); VAR_RANGE[name] = (lo, hi); s.pc += [z3.ULE(v, C(hi, w))] + ([z3.ULE(C(lo, w), v)] if lo else []); return v
    # ---- bit matrices ----
    def mzd(s, name, nrows, ncols, window=None, view='W', const=False, elemw=None, zero=False):
        """word-view m4ri matrix. ncols in bits. excess bits: zero unless window (then arbitrary, to be preserved)"""
        width = lshr(add(ncols, 63, 32), 6, 32)
        width = norm(width) if getattr(s, 'width', None) is None else s.width
        m = Region('mat', name, view=view, nrows=nrows, ncols=ncols, width=width, const=const, elemw=elemw, window=window)
        fn = z3.Function('M_' + name, z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(64)) if not zero else None
        if fn is not None:
            m.fn = fn
            rem = and_(ncols, 63, 32)
            def ax(app, m=m):
                out = []
                if elemw and s.ff is not None:
                    em = s.ff.em; cm = z3.Concat(*([z3.Extract(elemw - 1, 0, em)] * (64 // elemw)))
                    out.append((app & ~cm) == 0)
                if window is not True:
                    ew = s.endmask(ncols)
                    cl = z3.Implies(app.arg(1) == bv(sub(width, 1, 32), 32), (app & ~ew) == 0)
                    out.append(cl if window is None or window is False else z3.Or(window, cl))
                return out
            UFAX['M_' + name] = ax
            m.mem0 = Mem.base(lambda r, k, fn=fn: fn(bv(r, 32), bv(k, 32)), 64)
        else: m.mem0 = Mem.base(lambda r, k: 0, 64)
        s.mem[m.id] = m.mem0
        rows = Region('rows', name + '.rows', mat=m)
        x = Region('struct', name + '.x', size=64)
        s.mem[x.id] = {0: nrows, 4: ncols, 8: width, 12: fresh('rowstride', 32, 0, MAXDIM), 16: Opaque('off'), 20: Opaque('off'), 24: Opaque('flags'), 25: Opaque('bl'), 40: val(s.endmask(ncols)), 48: Opaque('blocks'), 56: Ptr(rows, 0)}
        m.hdr = x; m.rowsreg = rows; s.mats[name] = m
        return m
    def endmask(s, ncols):
        """bits in use in the last word of a row of ncols bits"""
        r = and_(sub(0, ncols, 32), 63, 32)
        if is_c(r): return C(mask(64) >> r, 64)
        return z3.LShR(C(mask(64), 64), z3.ZeroExt(32, r))
    def mzed(s, name, nrows, ncols, **kw):
        w = s.ff.w
        bits = mul(ncols, w, 32)
        m = s.mzd(name, nrows, bits, elemw=w, **kw)
        h = Region('struct', name, size=32)
        s.mem[h.id] = {0: Ptr(m.hdr, 0), 8: s.ff.ptr, 16: nrows, 20: ncols, 24: w}
        m.top = h; m.enrows, m.encols = nrows, ncols
        m.w = w
        return Ptr(h, 0), m
    def slice(s, name, nrows, ncols, depth=None, **kw):
        d = depth or s.ff.d
        h = Region('struct', name, size=152); c = {}
        ms = []
        for i in range(d):
            m = s.mzd('%s_%d' % (name, i), nrows, ncols, **kw); ms.append(m); c[8 * i] = Ptr(m.hdr, 0)
        for i in range(d, 16): c[8 * i] = NULL
        c.update({128: nrows, 132: ncols, 136: d, 144: s.ff.ptr})
        s.mem[h.id] = c
        return Ptr(h, 0), ms
    def state(s): return State({}, dict(s.mem), tuple(s.pc))

def lane(word, l, w):
    if is_c(word): return (word >> (l * w)) & mask(w)
    return val(z3.Extract(l * w + w - 1, l * w, word))
