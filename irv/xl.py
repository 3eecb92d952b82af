"""Packed and sliced matrices as headers over m4ri matrices (values of whole m4ri matrices):
bodies of m4rie's structural functions are checked down to the contracts of m4ri."""
from mlevel import *

WOF = lambda d: 2 if d <= 2 else 4 if d <= 4 else 8 if d <= 8 else 16
class XFF:
    def __init__(s, d, n='ff'):
        s.d = d; s.reg = Region('struct', n, size=56, const=True); s.ptr = Ptr(s.reg, 0); s.mem = {0: d}
class XW(MW):
    def __init__(s, e, d, ty):
        MW.__init__(s, e); s.d, s.ty, s.w = d, ty, WOF(d); s.ff = XFF(d); s.mem[s.ff.reg.id] = s.ff.mem
        s.pre = 'mzed' if ty == 'mzed' else 'mzd_slice'; s.k = s.w if ty == 'mzed' else 1; s.val0 = {}
        e.contracts.update(rowcol_contracts('mzd')); e.contracts.update(perm_contracts())
        e.contracts['mzd_cmp'] = cmp_contract
    def bits(s, nc): return mul(nc, s.k, 32)
    def mat(s, name, nr, nc, const=False):
        if s.ty == 'mzed':
            x = s.mzd(name, nr, s.bits(nc), const); h = Region('struct', name + '.hdr', size=32, const=True); s.mem[h.id] = {0: x, 8: s.ff.ptr, 16: nr, 20: nc, 24: s.w}
            return Ptr(h, 0)
        p, ms = s.slice(name, nr, nc, s.d, s.ff.ptr, const); return p
    def parts(s, st, p):
        d = st.mem[p.reg.id]
        return [d[0]] if s.ty == 'mzed' else [d[8 * i] for i in range(s.d)]
    def vals(s, st, p): return [mval(st, q.reg) for q in s.parts(st, p)]
    def check_shape(s, st, p, nr, nc, fn):
        """the header describes an nr x nc matrix over the field"""
        if not isinstance(p, Ptr) or p.reg is None or not isinstance(st.mem.get(p.reg.id), dict): return [(fn + ': returns a matrix', 'post', ('refuted', repr(p)))]
        d = st.mem[p.reg.id]; out = []
        if d.get('live', 1) != 1: return [(fn + ': the returned matrix is live', 'post', ('refuted', 'freed'))]
        r, c, f = (16, 20, 8) if s.ty == 'mzed' else (128, 132, 144)
        out.append((fn + ': number of rows', 'post', prove(st.pc, cmp('eq', d[r], nr, 32)))); out.append((fn + ': number of columns', 'post', prove(st.pc, cmp('eq', d[c], nc, 32))))
        ok = isinstance(d.get(f), Ptr) and d[f].reg is s.ff.reg; out.append((fn + ': field', 'post', 'proved' if ok else ('refuted', 'another field')))
        if s.ty == 'mzed': out.append((fn + ': element width', 'post', prove(st.pc, cmp('eq', d[24], s.w, 32))))
        else: out.append((fn + ': depth', 'post', prove(st.pc, cmp('eq', d[136], s.d, 32))))
        if not out[-1][2] == 'proved': return out
        ps = s.parts(st, p)
        for i, q in enumerate(ps):
            if not isinstance(q, Ptr) or q.reg is None or not getattr(q.reg, 'mzd', False): out.append((fn + ': part %d is a matrix' % i, 'post', ('refuted', repr(q)))); continue
            a, b = dims(st, q.reg); out.append((fn + ': shape of part %d' % i, 'post', prove(st.pc, zb(And(cmp('eq', a, nr, 32), cmp('eq', b, s.bits(nc), 32))))))
            if any(isinstance(z, Ptr) and z.reg is q.reg for z in ps[:i]): out.append((fn + ': parts are distinct', 'post', ('refuted', 'shared')))
        return out
def bad(posts): return any(p[2] != 'proved' for p in posts)

def run(M, fn, d, ty, setup, die_ok=False, unroll=0):
    """setup(w) -> (args, spec) ; spec(st, rv) -> list of posts, with values at entry taken by setup"""
    e = engine(M); e.die_ok = die_ok; e.unroll_hint = unroll; w = XW(e, d, ty); e.xw = w
    args, spec, keep = setup(e, w)
    st = w.state(); w.st0 = st.copy()
    res = e.call_function(fn, args, st); post = []; n = 0
    for rv, s in res:
        if not sat(list(s.pc), 5000): continue
        n += 1
        sp = spec(e, w, s, rv); post += sp
        if not bad(sp): post += leaks(e, s, keep(rv) if callable(keep) else keep)
    return result(e, post, [fn], n)
def unchanged(w, s, ps, fn):
    """matrices passed as const are not written (checked at every store as well)"""
    return []
def eqparts(w, s, p, want, fn):
    r = mequal_many(s.pc, list(zip(w.vals(s, p), want)))
    return [('%s: part %d' % (fn, i), 'post', r) for i in range(len(want))]
