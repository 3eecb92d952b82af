"""Matrix-level values: whole matrices and windows as noncommutative polynomials over GF(2) in block atoms.

A memory value is a tree of V nodes.  Two values are compared by cutting both into the common
refinement of all window boundaries (symbolic, ordered under the path condition) and comparing the
polynomial of every block.
"""
import z3
from core import *
from engine import *

class Undecided(Exception): pass
class Split(Exception):
    def __init__(s, c): s.c = c
class Mismatch(Exception):
    def __init__(s, what): s.what = what

class V:
    __slots__ = ('op', 'nr', 'nc', 'a', 'id')
    n = [0]
    def __init__(s, op, nr, nc, *a): s.op, s.nr, s.nc, s.a = op, nr, nc, a; V.n[0] += 1; s.id = V.n[0]
    def merge(s, c, o):
        if s is o: return s
        if not isinstance(o, V): return None
        return V('ite', s.nr, s.nc, c, s, o)
    def __repr__(s): return s.show(3)
    def show(s, d=6):
        if s.op == 'atom': return s.a[0]
        if d == 0: return '..'
        return '%s(%s)' % (s.op, ', '.join(x.show(d - 1) if isinstance(x, V) else str(x) for x in s.a))
def atom(name, nr, nc): return V('atom', nr, nc, name)
def zero(nr, nc): return V('zero', nr, nc)
def ident(n, nc=None): return V('id', n, n if nc is None else nc)
def vadd(x, y):
    if x.op == 'zero': return y
    if y.op == 'zero': return x
    return V('add', x.nr, x.nc, x, y)
def vmul(x, y): return V('mul', x.nr, y.nc, x, y)
def scal(s, x): return V('scal', x.nr, x.nc, s, x)
def sub_(x, r0, c0, nr, nc): return V('sub', nr, nc, x, r0, c0)
def upd_(x, r0, c0, y): return V('upd', x.nr, x.nc, x, r0, c0, y)
def app(name, nr, nc, *args): return V('app', nr, nc, name, *args)
def vsum(l, nr, nc):
    r = zero(nr, nc)
    for x in l: r = vadd(r, x)
    return r

def vsubst(v, pairs, atoms, memo=None):
    memo = {} if memo is None else memo
    if v.id in memo: return memo[v.id]
    sb = lambda x: vsubst(x, pairs, atoms, memo) if isinstance(x, V) else tuple(sb(y) for y in x) if isinstance(x, tuple) else subst(x, pairs) if isz(x) and not z3.is_bool(x) else val(z3.substitute(x, *pairs)) if isz(x) else x
    if v.op == 'atom' and v.a[0] in atoms: r = atoms[v.a[0]]
    else: r = V(v.op, sb(v.nr), sb(v.nc), *[sb(x) for x in v.a])
    memo[v.id] = r; return r

def vmap(v, f, memo=None):
    memo = {} if memo is None else memo
    if v.id in memo: return memo[v.id]
    g = lambda x: vmap(x, f, memo) if isinstance(x, V) else tuple(g(y) for y in x) if isinstance(x, tuple) else val(f(x)) if isz(x) and z3.is_bv(x) else f(x) if isz(x) else x
    r = memo[v.id] = V(v.op, g(v.nr), g(v.nc), *[g(x) for x in v.a]); return r
def vterms(v, seen=None):
    seen = set() if seen is None else seen
    if v.id in seen: return
    seen.add(v.id)
    st = [v.nr, v.nc] + list(v.a)
    while st:
        x = st.pop()
        if isinstance(x, V): yield from vterms(x, seen)
        elif isinstance(x, tuple): st += list(x)
        elif isz(x): yield x
def mentions(v, name, seen=None):
    seen = set() if seen is None else seen
    if v.id in seen: return False
    seen.add(v.id)
    if v.op == 'atom': return v.a[0] == name
    st = list(v.a)
    while st:
        x = st.pop()
        if isinstance(x, tuple): st += list(x)
        elif isinstance(x, V) and mentions(x, name, seen): return True
    return False

class Ctx:
    """coordinates under a path condition"""
    def __init__(s, pc, to=8000, parent=None):
        s.pc = [zb(c) for c in pc]; s.sol = z3.Solver(); s.sol.set('timeout', to)
        for c in s.pc: s.sol.add(c)
        s.reps = []; s.byid = {}; s.lecache = {}; s.rules = []; s.zero_atoms = set(); s.q = 0; s.memo = {}; s.evmemo = {}; s.models = []; s.sigs = {}; s.kle = {}; s.keq = set(); s.byobj = {}; s.pm = {}
        if parent is not None:
            s.kle = dict(parent.kle); s.keq = set(parent.keq); g = s.pc[-1]
            s.models = [m for m in parent.models if z3.is_true(m.eval(g, model_completion=True))]
        s.ZERO = -9; s.ZERO = s.cid(0)
    def check(s, c):
        s.q += 1; s.sol.push(); s.sol.add(c); r = s.sol.check()
        if r == z3.sat and len(s.models) < 12: s.models.append(s.sol.model())
        s.sol.pop(); return r
    def feasible(s):
        r = s.sol.check()
        if r == z3.sat: s.models.append(s.sol.model())
        return r != z3.unsat
    def sig(s, i, t):
        """values of a coordinate in the models seen so far"""
        g = s.sigs.setdefault(i, [])
        while len(g) < len(s.models): g.append(t & mask(32) if is_c(t) else s.models[len(g)].eval(bv(t, 32), model_completion=True).as_long())
        return g
    def cid(s, t):
        """representative number of a 32-bit coordinate"""
        q = s.byobj.get(id(t))
        if q is not None and q[0] is t: return q[1]
        r = s.cid_(t); s.byobj[id(t)] = (t, r); return r
    def cid_(s, t):
        t = norm(t) if isz(t) else t & mask(32)
        k = t if is_c(t) else ('z', t.get_id())
        if k in s.byid: return s.byid[k]
        tb = bv(t, 32); key = ('new', k)
        for i, (r, _) in enumerate(s.reps):
            if is_c(r) and is_c(t): continue
            if s.sig(i, r) != s.sig(key, t): continue
            ek = (k, r if is_c(r) else ('z', r.get_id())); res = z3.unsat if ek in s.keq else s.check(tb != bv(r, 32))
            if res == z3.unsat: s.keq.add(ek); s.byid[k] = i; s.reps[i][1].append(t); return i
            if res == z3.unknown: raise Undecided('coordinate comparison')
        s.reps.append((t, [t])); s.byid[k] = len(s.reps) - 1; s.sigs[s.byid[k]] = s.sigs.pop(key, []); return s.byid[k]
    def term(s, i): return s.reps[i][0]
    def le(s, i, j):
        if i == j: return True
        if i == s.ZERO: return True
        k = (i, j)
        if k in s.lecache: return s.lecache[k]
        a, b = s.term(i), s.term(j)
        if is_c(a) and is_c(b): return a <= b
        kk = (a if is_c(a) else ('z', a.get_id()), b if is_c(b) else ('z', b.get_id()))
        if kk in s.kle: s.lecache[k] = s.kle[kk]; return s.kle[kk]
        c = z3.ULE(bv(a, 32), bv(b, 32)); ms = [x <= y for x, y in zip(s.sig(i, a), s.sig(j, b))]
        if any(ms) and not all(ms): raise Split(c)
        if not any(x is False for x in ms):
            r = s.check(z3.Not(c))
            if r == z3.unsat: s.lecache[k] = True; s.kle[kk] = True; return True
        if not any(ms):
            r = s.check(c)
            if r == z3.unsat: s.lecache[k] = False; s.lecache[(j, i)] = True; s.kle[kk] = False; s.kle[kk[::-1]] = True; return False
        raise Split(c)
    def lt(s, i, j): return i != j and not s.le(j, i)
    def eq(s, i, j):
        """coordinates with different numbers may still be equal in some models: decide"""
        if i == j: return True
        a, b = s.term(i), s.term(j)
        if is_c(a) and is_c(b): return a == b
        c = bv(a, 32) == bv(b, 32)
        k = ('e', min(i, j), max(i, j))
        if k in s.lecache: return s.lecache[k]
        if s.check(c) == z3.unsat: s.lecache[k] = False; return False
        raise Split(c)
    def plus(s, i, j):
        if i == s.ZERO: return j
        if j == s.ZERO: return i
        k = (i, j); r = s.pm.get(k)
        if r is None: r = s.pm[k] = s.cid(add(s.term(i), s.term(j), 32))
        return r
    def minus(s, i, j):
        if j == s.ZERO: return i
        k = (i, -1, j); r = s.pm.get(k)
        if r is None: r = s.pm[k] = s.cid(sub(s.term(i), s.term(j), 32))
        return r
    def sort(s, ids):
        out = []
        for i in ids:
            lo, hi = 0, len(out)
            while lo < hi:
                mid = (lo + hi) // 2
                if out[mid] == i: lo = -1; break
                if s.le(out[mid], i): lo = mid + 1
                else: hi = mid
            if lo >= 0: out.insert(lo, i)
        return out

def cond_decide(cx, c):
    if isinstance(c, bool): return c
    if cx.check(z3.Not(zb(c))) == z3.unsat: return True
    if cx.check(zb(c)) == z3.unsat: return False
    raise Split(zb(c))

DATA = set()   # names of variables that are data (conditions on them become scalars, not cases)
def data(name, w):
    DATA.add(name); return z3.BitVec(name, w)
def isdata(c): return any(v in DATA for v in names_of(c))
def names_of(t, seen=None):
    seen = set() if seen is None else seen; out = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        st.extend(x.children())
    return out
ZF = {}   # name of a Bool -> V known to be zero when the Bool holds
class Comparer:
    def __init__(s, pc, parent=None):
        s.cx = Ctx(pc, parent=parent); s.cutm = {}; s.evm = {}; s.itm = {}; s.scl = []; s.scm = {}
        s.zero = set(); s.funs = {}; s.folds = []; s.rawpc = list(pc)
        for c in pc:
            while isz(c) and z3.is_not(c) and z3.is_not(c.arg(0)): c = c.arg(0).arg(0)
            if isz(c) and z3.is_const(c) and c.decl().name() in ZF:
                v = s.res(ZF[c.decl().name()])
                if v.op == 'atom': s.zero.add(v.a[0])
    def res(s, v):
        """resolve ite nodes at the top"""
        while v.op == 'ite':
            if v.id not in s.itm:
                c = v.a[0]
                if isz(c) and isdata(c): s.itm[v.id] = V('sel', v.nr, v.nc, *v.a)
                else: s.itm[v.id] = v.a[1] if cond_decide(s.cx, c) else v.a[2]
            v = s.itm[v.id]
        return v
    def scalar(s, c):
        """GF(2) polynomial (set of scalar monomials) of a condition"""
        if isinstance(c, str): return frozenset([(c,)])
        if isinstance(c, bool): return frozenset([()]) if c else frozenset()
        k = c.get_id()
        if k in s.scm: return s.scm[k][1]
        cx = s.cx; r = None
        if z3.is_not(c): r = s.scalar(c.arg(0)) ^ {()}
        elif cx.check(zb(c)) == z3.unsat: r = frozenset()
        elif cx.check(z3.Not(c)) == z3.unsat: r = frozenset([()])
        else:
            nm = names_of(c)
            for d, n, nm2 in s.scl:
                if not (nm & nm2): continue
                if cx.check(zb(c) != zb(d)) == z3.unsat: r = frozenset([(n,)]); break
                if cx.check(zb(c) == zb(d)) == z3.unsat: r = frozenset([(n,), ()]); break
            if r is None:
                n = 's%d' % len(s.scl); s.scl.append((c, n, nm)); r = frozenset([(n,)])
        s.scm[k] = (c, r); return r
    def smul(s, sp, poly):
        acc = set()
        for m in sp:
            for sc, at in poly: acc ^= {(tuple(sorted(set(sc) | set(m))), at)}
        return frozenset(acc)
    def cuts(s, v, ax):
        v = s.res(v); k = (v.id, ax)
        if k in s.cutm: return s.cutm[k]
        cx = s.cx; n = cx.cid(v.nr if ax == 0 else v.nc); r = {cx.ZERO, n}
        if v.op == 'add': r |= s.cuts(v.a[0], ax) | s.cuts(v.a[1], ax)
        elif v.op == 'scal': r |= s.cuts(v.a[1], ax)
        elif v.op == 'sel': r |= s.cuts(v.a[1], ax) | s.cuts(v.a[2], ax)
        elif v.op == 'mul': r |= s.cuts(v.a[ax], ax)
        elif v.op == 'sub':
            o = cx.cid(v.a[1 + ax]); e = cx.plus(o, n)
            for p in s.cuts(v.a[0], ax):
                if p == o or p == e: continue
                if cx.lt(o, p) and cx.lt(p, e): r.add(cx.minus(p, o))
        elif v.op == 'upd':
            o = cx.cid(v.a[1 + ax])
            r |= s.cuts(v.a[0], ax)
            for p in s.cuts(v.a[3], ax): r.add(cx.plus(o, p))
        elif v.op == 'id': 
            r |= s.idcuts.get(v.id, set()) if hasattr(s, 'idcuts') else set()
        elif v.op == 'app':
            r |= s.appcuts(v, ax)
        s.cutm[k] = r
        return r
    def appcuts(s, v, ax):
        if v.a[0] in ('tl', 'tu'): return set().union(*[s.cuts(x, 0) for x in v.a[2]]) if len(v.a) > 2 else set()
        return set()
    def intervals(s, cuts):
        o = s.cx.sort(cuts); return [(a, b) for a, b in zip(o, o[1:])]
    def ev(s, v, R, Cc):
        """polynomial of the block: frozenset of monomials (scalars, atoms)"""
        v = s.res(v); cx = s.cx
        k = (v.id, R, Cc)
        if k in s.evm: return s.evm[k]
        if R[0] == R[1] or Cc[0] == Cc[1]: r = frozenset()
        elif v.op == 'zero': r = frozenset()
        elif v.op == 'atom':
            r = frozenset() if v.a[0] in s.zero else frozenset([((), ((v.a[0],) + R + Cc,))])
        elif v.op == 'add': r = s.ev(v.a[0], R, Cc) ^ s.ev(v.a[1], R, Cc)
        elif v.op == 'scal': r = s.smul(s.scalar(v.a[0]), s.ev(v.a[1], R, Cc))
        elif v.op == 'sel':
            x, y = s.ev(v.a[1], R, Cc), s.ev(v.a[2], R, Cc)
            r = x if x == y else y ^ s.smul(s.scalar(v.a[0]), x ^ y)
        elif v.op == 'mul':
            acc = set()
            for I in s.intervals(s.cuts(v.a[0], 1) | s.cuts(v.a[1], 0)):
                x = s.ev(v.a[0], R, I)
                if not x: continue
                y = s.ev(v.a[1], I, Cc)
                for sc, at in x:
                    for sc2, at2 in y: acc ^= {(tuple(sorted(set(sc) | set(sc2))), at + at2)}
            r = frozenset(acc)
        elif v.op == 'sub':
            r0, c0 = cx.cid(v.a[1]), cx.cid(v.a[2])
            r = s.ev(v.a[0], (cx.plus(r0, R[0]), cx.plus(r0, R[1])), (cx.plus(c0, Cc[0]), cx.plus(c0, Cc[1])))
        elif v.op == 'upd':
            y = v.a[3]; r0, c0 = cx.cid(v.a[1]), cx.cid(v.a[2]); r1, c1 = cx.plus(r0, cx.cid(y.nr)), cx.plus(c0, cx.cid(y.nc))
            if cx.le(r0, R[0]) and cx.le(R[1], r1) and cx.le(c0, Cc[0]) and cx.le(Cc[1], c1):
                r = s.ev(y, (cx.minus(R[0], r0), cx.minus(R[1], r0)), (cx.minus(Cc[0], c0), cx.minus(Cc[1], c0)))
            else: r = s.ev(v.a[0], R, Cc)
        elif v.op == 'id':
            rect = cx.cid(v.nr) != cx.cid(v.nc)
            if rect:
                if R == (cx.ZERO, cx.cid(v.nr)) and Cc == (cx.ZERO, cx.cid(v.nc)): r = frozenset([((), (('RID',) + R + Cc,))])
                else: raise Undecided('part of a rectangular identity')
            elif R == Cc: r = frozenset([((), ())])
            elif cx.le(R[1], Cc[0]) or cx.le(Cc[1], R[0]): r = frozenset()
            else: raise Undecided('block across the diagonal of the identity')
        elif v.op == 'app': r = s.evapp(v, R, Cc)
        elif v.op in ('fun', 'fold'): r = s.evfun(v, R, Cc)
        else: raise Undecided('value ' + v.op)
        s.evm[k] = r
        return r
    def evapp(s, v, R, Cc):
        """tl/tu: lower/upper triangular part (diagonal included); tli/tui: its inverse (whole blocks only)"""
        f = v.a[0]; cx = s.cx
        if f in ('tl', 'tu', 'tli', 'tui'):
            if R == Cc:
                p = s.ev(v.a[1], R, R)
                if len(p) != 1: raise Undecided('triangular part of a sum')
                (sc, at), = p
                if sc or len(at) != 1: raise Undecided('triangular part of a product')
                a = at[0]
                if f in ('tli', 'tui') and R != (cx.ZERO, cx.cid(v.nr)): raise Undecided('part of an inverse')
                return frozenset([((), ((f + ':' + a[0],) + a[1:],))])
            if f in ('tli', 'tui'): raise Undecided('part of an inverse')
            if cx.le(R[1], Cc[0]): return frozenset() if f == 'tl' else s.ev(v.a[1], R, Cc)
            if cx.le(Cc[1], R[0]): return frozenset() if f == 'tu' else s.ev(v.a[1], R, Cc)
            raise Undecided('block across the diagonal')
        raise Undecided('function ' + f)
    def whole(s, v):
        cx = s.cx; n, m = cx.cid(v.nr), cx.cid(v.nc); v = s.res(v)
        if s.cuts(v, 0) != {cx.ZERO, n} or s.cuts(v, 1) != {cx.ZERO, m}: raise Undecided('argument of an opaque operation is not one block')
        return s.ev(v, (cx.ZERO, n), (cx.ZERO, m))
    def evfun(s, v, R, Cc):
        cx = s.cx; n, m = cx.cid(v.nr), cx.cid(v.nc)
        if R != (cx.ZERO, n) or Cc != (cx.ZERO, m): raise Undecided('part of an opaque operation')
        if v.op == 'fun': k = ('fun', v.a[0], s.whole(v.a[1]), tuple(cx.cid(x) for x in v.a[2]))
        else:
            t, T, prev, body, init = v.a; ip = s.whole(init); Tc = cx.cid(T); k = None
            for (k2, t2, T2, prev2, body2, ip2) in s.folds:
                if T2 == Tc and ip2 == ip:
                    b2 = vsubst(body2, [(t2, bv(t, 32))], {prev2.a[0]: prev})
                    r = mequal(s.rawpc + [z3.ULT(t, bv(T, 32))], body, b2)
                    if r == 'proved': k = k2; break
                    if r[0] == 'unknown': raise Undecided('body of a fold: ' + r[1])
            if k is None: k = ('fold', len(s.folds)); s.folds.append((k, t, Tc, prev, body, ip))
        if k not in s.funs: s.funs[k] = 'F%d' % len(s.funs)
        return frozenset([((), ((s.funs[k],) + R + Cc,))])
    INVP = {('tl', 'tli'), ('tli', 'tl'), ('tu', 'tui'), ('tui', 'tu')}
    def cancel(s, poly):
        """T * T^-1 = 1"""
        acc = set()
        for sc, at in poly:
            at = list(at); i = 0
            while i + 1 < len(at):
                x, y = at[i], at[i + 1]; fx, _, nx = x[0].partition(':'); fy, _, ny = y[0].partition(':')
                if nx and nx == ny and (fx, fy) in s.INVP and x[1:] == y[1:]: del at[i:i + 2]; i = max(i - 1, 0)
                else: i += 1
            acc ^= {(sc, tuple(at))}
        return acc
    def refine(s, poly):
        """split the inner ranges of the monomials at every cut of the same matrix, to a fixpoint"""
        cx = s.cx
        for it in range(20):
            rc, cc = {}, {}
            for sc, at in poly:
                for a in at:
                    rc.setdefault(a[0], set()).update(a[1:3]); cc.setdefault(a[0], set()).update(a[3:5])
            new = set(); changed = False
            for sc, at in poly:
                alts = [at]; 
                for i in range(len(at) - 1):
                    nalts = []
                    for m in alts:
                        x, y = m[i], m[i + 1]
                        pts = {p for p in cc[x[0]] if cx.lt(x[3], p) and cx.lt(p, x[4])}
                        pts |= {cx.plus(cx.minus(p, y[1]), x[3]) for p in rc[y[0]] if cx.lt(y[1], p) and cx.lt(p, y[2])}
                        if not pts: nalts.append(m); continue
                        changed = True
                        o = [x[3]] + cx.sort(pts) + [x[4]]
                        for a, b in zip(o, o[1:]):
                            p0, p1 = cx.plus(cx.minus(a, x[3]), y[1]), cx.plus(cx.minus(b, x[3]), y[1])
                            nalts.append(m[:i] + (x[:3] + (a, b),) + ((y[0], p0, p1) + y[3:],) + m[i + 2:])
                    alts = nalts
                for m in alts: new ^= {(sc, m)}
            poly = new
            if not changed: return poly
        raise Undecided('refinement does not end')
    def reduce(s, poly): return poly
    def compare(s, v, w):
        cx = s.cx
        if cx.cid(v.nr) != cx.cid(w.nr) or cx.cid(v.nc) != cx.cid(w.nc):
            raise Mismatch('dimensions')
        rows = s.cuts(v, 0) | s.cuts(w, 0); cols = s.cuts(v, 1) | s.cuts(w, 1)
        for R in s.intervals(rows):
            for K in s.intervals(cols):
                d = set(s.ev(v, R, K) ^ s.ev(w, R, K))
                d = {m for m in d if not s.empty(m)}
                if d: d = s.cancel(d)
                if d: d = s.cancel(s.refine(d))
                if d: raise Mismatch('block rows %s..%s cols %s..%s: difference %s' % (cx.term(R[0]), cx.term(R[1]), cx.term(K[0]), cx.term(K[1]), s.show(d)))
        return True
    def empty(s, m):
        return any(a[1] == a[2] or a[3] == a[4] for a in m[1])
    def show(s, d, n=4):
        out = []
        for sc, at in sorted(d)[:n]:
            out.append('*'.join(list(sc) + [a[0] for a in at]) or '1')
        return ' + '.join(out) + (' + %d more' % (len(d) - n) if len(d) > n else '')

def mequal(pc, v, w, depth=0, cls=None, budget=None):
    """'proved' | ('refuted', why) | ('unknown', why)"""
    return mequal_many(pc, [(v, w)], depth, cls, budget)
KEEPT = []
def mequal_many(pc, pairs, depth=0, cls=None, budget=None, parent=None):
    if budget is None: budget = [400]
    budget[0] -= 1
    if budget[0] < 0: return ('unknown', 'too many cases')
    i = 0
    try:
        c = (cls or Comparer)(pc, parent)
        if not c.cx.feasible(): return 'proved'
        for i, (v, w) in enumerate(pairs): c.compare(v, w)
        return 'proved'
    except Split as e:
        KEEPT.append([r for r, _ in c.cx.reps])
        for g in (e.c, z3.Not(e.c)):
            r = mequal_many(list(pc) + [g], pairs, depth + 1, cls, budget, c.cx)
            if r != 'proved': return r
        return 'proved'
    except Mismatch as e:
        m = z3.Solver(); m.set('timeout', 5000)
        for x in pc: m.add(zb(x))
        if m.check() == z3.unsat: return 'proved'
        return ('refuted', ('part %d: ' % i if len(pairs) > 1 else '') + e.what)
    except Undecided as e:
        return ('unknown', str(e))

# ------------------------------------------------------------------ objects
class MW:
    """world of matrices at matrix level"""
    def __init__(s, eng):
        s.e = eng; s.mem = {}; s.pc = []; s.roots = []; s.alloc = []
    def dim(s, name, lo=0, hi=(1 << 24) - 1):
        v = z3.BitVec(name, 32); VAR_RANGE[name] = (lo, hi); s.pc += [z3.ULE(v, C(hi, 32))] + ([z3.ULE(C(lo, 32), v)] if lo else []); return v
    def mzd(s, name, nr, nc, const=False, mem=None, v=None):
        r = Region('struct', name, size=64, root=None, r0=0, c0=0, const=const, mzd=True)
        d = {0: nr, 4: nc, 'live': 1, 'V': v if v is not None else atom(name, nr, nc)}
        for o, w in ((8, 32), (12, 32)): pass
        (s.mem if mem is None else mem)[r.id] = d
        return Ptr(r, 0)
    def slice(s, name, nr, nc, depth, ffptr, const=False):
        h = Region('struct', name, size=152); c = {}; ms = []
        for i in range(depth): p = s.mzd('%s%d' % (name, i), nr, nc, const); ms.append(p); c[8 * i] = p
        for i in range(depth, 16): c[8 * i] = NULL
        c.update({128: nr, 132: nc, 136: depth, 144: ffptr}); s.mem[h.id] = c
        return Ptr(h, 0), ms
    def ptrarray(s, name, ps, size=None):
        h = Region('struct', name, size=8 * (size or len(ps))); s.mem[h.id] = {8 * i: p for i, p in enumerate(ps)}
        return Ptr(h, 0)
    def state(s): return State({}, dict(s.mem), tuple(s.pc))

def handle(e, st, p, what=''):
    if not isinstance(p, Ptr): raise Unsupported('matrix argument %r %s' % (p, what))
    if p.reg is None: e.oblige(st, False, 'NULL matrix passed to ' + what, 'pre'); raise Dead()
    if not getattr(p.reg, 'mzd', False) or p.off != 0: raise Unsupported('not a matrix: %r' % (p,))
    d = st.mem[p.reg.id]
    if d.get('live', 1) != 1: e.oblige(st, False, 'use of freed matrix %s in %s' % (p.reg.name, what), 'pre'); raise Dead()
    return p.reg
DO = {'mzd': (0, 4), 'mzed': (16, 20), 'slice': (128, 132)}
def dims(st, r):
    d = st.mem[r.id]; o = DO[getattr(r, 'mty', 'mzd')]; return d[o[0]], d[o[1]]
def to32(e, st, x, n):
    """a size_t argument used as a 32-bit coordinate"""
    if is_c(x): return sgn(x, 64) & mask(32) if -(1 << 31) <= sgn(x, 64) < 1 << 31 else x
    if x.size() == 32: return x
    t = trunc(x, 64, 32); e.oblige(st, cmp('eq', zext(t, 32, 64), x, 64), n + ': coordinate fits', 'pre'); return t
def rootof(r): return r.root if r.root is not None else r
def mval(st, r):
    if r.root is None: return st.mem[r.id]['V']
    v = st.mem[r.root.id]
    if v.get('live', 1) != 1: raise Unsupported('window of a freed matrix')
    nr, nc = dims(st, r); return sub_(v['V'], r.r0, r.c0, nr, nc)
def setval(e, st, r, v):
    ro = rootof(r)
    if getattr(ro, 'const', False): e.oblige(st, False, 'the constant operand %s is written' % ro.name, 'frame')
    d = dict(st.mem[ro.id]); d['V'] = v if r.root is None else upd_(d['V'], r.r0, r.c0, v); st.mem[ro.id] = d
def eqdim(e, st, a, b, what):
    e.oblige(st, cmp('eq', a, b, 32), what, 'pre')
def noalias(e, st, r, q, what, same_ok=False):
    """the rectangles of r and q do not overlap (or coincide, when same_ok)"""
    if rootof(r) is not rootof(q): return
    if r is q:
        if not same_ok: e.oblige(st, False, what + ': operand aliases the result', 'pre')
        return
    (n1, m1), (n2, m2) = dims(st, r), dims(st, q)
    le = lambda a, b: cmp('ule', a, b, 32)
    dis = Or(le(add(r.r0, n1, 32), q.r0), le(add(q.r0, n2, 32), r.r0), le(add(r.c0, m1, 32), q.c0), le(add(q.c0, m2, 32), r.c0))
    if same_ok: dis = Or(dis, And(cmp('eq', r.r0, q.r0, 32), cmp('eq', r.c0, q.c0, 32)))
    e.oblige(st, dis, what + ': operand overlaps the result', 'pre')
def newmzd(e, st, nr, nc, v=None, name=None):
    r = Region('struct', name or 'tmp', size=64, root=None, r0=0, c0=0, const=False, mzd=True, heap=True); r.name += str(r.id)
    st.mem[r.id] = {0: nr, 4: nc, 'live': 1, 'V': v if v is not None else zero(nr, nc)}
    return Ptr(r, 0)

ZC = [0]
def iszero_contract(e, st, v, name='mzd_is_zero'):
    r = handle(e, st, v[0], name); x = mval(st, r)
    ZC[0] += 1; b = z3.Bool('zero!%d' % ZC[0]); ZF[b.decl().name()] = x
    return z3.If(b, C(1, 32), C(0, 32))

def free_contract(e, st, v, window, what):
    p = v[0]
    if isnull(p): return None
    r = handle(e, st, p, what)
    if r.root is None and not getattr(r, 'heap', False): e.oblige(st, False, '%s frees %s, which the caller owns' % (what, r.name), 'frame')
    d = dict(st.mem[r.id]); d['live'] = 0; st.mem[r.id] = d
    return None

def prep(e, st, c, nr, nc, what, init=True):
    """C == NULL ? new : C with dimensions checked"""
    if isnull(c):
        if not init: e.oblige(st, False, 'NULL result passed to ' + what, 'pre'); raise Dead()
        return newmzd(e, st, nr, nc)
    r = handle(e, st, c, what); a, b = dims(st, r)
    eqdim(e, st, a, nr, what + ': rows of the result'); eqdim(e, st, b, nc, what + ': columns of the result')
    return c

def mzd_contracts(e):
    """assumed contracts of m4ri"""
    X = {}
    def init(e, st, v):
        nr, nc = v
        nn = lambda x: cmp('sge', x, 0, 32)
        e.oblige(st, And(nn(nr), nn(nc)), 'mzd_init: dimensions not negative', 'pre')
        return newmzd(e, st, nr, nc)
    X['mzd_init'] = init
    X['mzd_free'] = lambda e, st, v: free_contract(e, st, v, False, 'mzd_free')
    def win(e, st, v):
        r = handle(e, st, v[0], 'mzd_init_window'); a, b = dims(st, r); r0, c0, r1, c1 = v[1:]
        le = lambda x, y: cmp('sle', x, y, 32)
        e.oblige(st, And(le(0, r0), le(r0, r1), le(r1, a)), 'mzd_init_window: rows inside', 'pre')
        e.oblige(st, And(le(0, c0), le(c0, c1), le(c1, b)), 'mzd_init_window: columns inside', 'pre')
        e.oblige(st, cmp('eq', and_(c0, 63, 32), 0, 32), 'mzd_init_window: starts at a word boundary', 'pre')
        w = Region('struct', 'win', size=64, root=rootof(r), r0=add(r.r0, r0, 32), c0=add(r.c0, c0, 32), const=False, mzd=True, heap=True); w.name += str(w.id)
        st.mem[w.id] = {0: sub(r1, r0, 32), 4: sub(c1, c0, 32), 'live': 1}
        return Ptr(w, 0)
    X['mzd_init_window'] = X['mzd_init_window_const'] = win
    X['mzd_free_window'] = lambda e, st, v: free_contract(e, st, v, True, 'mzd_free_window')
    def addc(chk):
        def f(e, st, v):
            c, a, b = v; ra, rb = handle(e, st, a, 'mzd_add'), handle(e, st, b, 'mzd_add'); da, db = dims(st, ra), dims(st, rb)
            c = prep(e, st, c, da[0], da[1], 'mzd_add', chk); rc = handle(e, st, c, 'mzd_add')
            eqdim(e, st, da[0], db[0], 'mzd_add: rows'); eqdim(e, st, da[1], db[1], 'mzd_add: columns')
            noalias(e, st, rc, ra, 'mzd_add', True); noalias(e, st, rc, rb, 'mzd_add', True)
            setval(e, st, rc, vadd(mval(st, ra), mval(st, rb))); return c
        return f
    X['mzd_add'] = X['mzd_sub'] = addc(True); X['_mzd_add'] = X['_mzd_sub'] = addc(False)
    def mulc(acc, ini=True):
        def f(e, st, v):
            n = 'mzd_addmul' if acc else 'mzd_mul'
            c, a, b = v[:3]; ra, rb = handle(e, st, a, n), handle(e, st, b, n); da, db = dims(st, ra), dims(st, rb)
            eqdim(e, st, da[1], db[0], n + ': inner dimension')
            c = prep(e, st, c, da[0], db[1], n, ini); rc = handle(e, st, c, n)
            noalias(e, st, rc, ra, n); noalias(e, st, rc, rb, n)
            p = vmul(mval(st, ra), mval(st, rb)); setval(e, st, rc, vadd(mval(st, rc), p) if acc else p); return c
        return f
    X['mzd_mul'] = X['mzd_mul_m4rm'] = X['mzd_mul_naive'] = mulc(False); X['mzd_addmul'] = X['mzd_addmul_m4rm'] = mulc(True, True); X['_mzd_mul_even'] = mulc(False, False)
    X['_mzd_addmul'] = X['_mzd_addmul_even'] = X['_mzd_addmul_m4rm'] = mulc(True, False)
    def setui(e, st, v):
        r = handle(e, st, v[0], 'mzd_set_ui'); nr, nc = dims(st, r); u = v[1]
        if not is_c(u): setval(e, st, r, scal(norm(z3.Extract(0, 0, u) == 1), ident(nr, nc))); return None
        setval(e, st, r, ident(nr, nc) if u & 1 else zero(nr, nc)); return None
    X['mzd_set_ui'] = setui
    def copy(e, st, v):
        n, p = v; rp = handle(e, st, p, 'mzd_copy'); a, b = dims(st, rp)
        if isinstance(n, Ptr) and isinstance(p, Ptr) and n.reg is p.reg: return n
        if isnull(n): return newmzd(e, st, a, b, mval(st, rp))
        rn = handle(e, st, n, 'mzd_copy'); c, d = dims(st, rn)
        e.oblige(st, And(cmp('sge', c, a, 32), cmp('sge', d, b, 32)), 'mzd_copy: target large enough', 'pre')
        noalias(e, st, rn, rp, 'mzd_copy', True)
        x = mval(st, rp)
        if is_c(c) and is_c(a) and c == a and is_c(d) and is_c(b) and d == b or (isz(c) and isz(a) and c.eq(a) and isz(d) and isz(b) and d.eq(b)): setval(e, st, rn, x)
        else: setval(e, st, rn, upd_(mval(st, rn), 0, 0, x))
        return n
    X['mzd_copy'] = copy
    X['mzd_is_zero'] = iszero_contract
    def submatrix(e, st, v):
        s, m, r0, c0, r1, c1 = v; rm = handle(e, st, m, 'mzd_submatrix'); a, b = dims(st, rm)
        le = lambda x, y: cmp('sle', x, y, 32)
        e.oblige(st, And(le(0, r0), le(r0, r1), le(r1, a), le(0, c0), le(c0, c1), le(c1, b)), 'mzd_submatrix: inside', 'pre')
        nr, nc = sub(r1, r0, 32), sub(c1, c0, 32); x = sub_(mval(st, rm), r0, c0, nr, nc)
        if isnull(s): return newmzd(e, st, nr, nc, x)
        rs = handle(e, st, s, 'mzd_submatrix'); c, d = dims(st, rs)
        e.oblige(st, And(cmp('sge', c, nr, 32), cmp('sge', d, nc, 32)), 'mzd_submatrix: target large enough', 'pre')
        noalias(e, st, rs, rm, 'mzd_submatrix')
        setval(e, st, rs, upd_(mval(st, rs), 0, 0, x)); return s
    X['mzd_submatrix'] = submatrix
    def concat(e, st, v):
        c, a, b = v; ra, rb = handle(e, st, a, 'mzd_concat'), handle(e, st, b, 'mzd_concat'); da, db = dims(st, ra), dims(st, rb)
        eqdim(e, st, da[0], db[0], 'mzd_concat: rows')
        c = prep(e, st, c, da[0], add(da[1], db[1], 32), 'mzd_concat'); rc = handle(e, st, c, 'mzd_concat'); noalias(e, st, rc, ra, 'mzd_concat'); noalias(e, st, rc, rb, 'mzd_concat')
        setval(e, st, rc, upd_(upd_(mval(st, rc), 0, 0, mval(st, ra)), 0, da[1], mval(st, rb))); return c
    X['mzd_concat'] = concat
    def stack(e, st, v):
        c, a, b = v; ra, rb = handle(e, st, a, 'mzd_stack'), handle(e, st, b, 'mzd_stack'); da, db = dims(st, ra), dims(st, rb)
        eqdim(e, st, da[1], db[1], 'mzd_stack: columns')
        c = prep(e, st, c, add(da[0], db[0], 32), da[1], 'mzd_stack'); rc = handle(e, st, c, 'mzd_stack'); noalias(e, st, rc, ra, 'mzd_stack'); noalias(e, st, rc, rb, 'mzd_stack')
        setval(e, st, rc, upd_(upd_(mval(st, rc), 0, 0, mval(st, ra)), da[0], 0, mval(st, rb))); return c
    X['mzd_stack'] = stack
    def die(e, st, v):
        if not getattr(e, 'die_ok', False): e.oblige(st, False, 'm4ri_die is not reached', 'pre')
        return []
    X['m4ri_die'] = die
    for fl in ('sqrt', 'ceil', 'floor', 'log', 'log2', 'pow'): X[fl] = lambda e, st, v: Opaque('float')
    def malloc(zero):
        def f(e, st, v):
            n = v[0] if not zero else mul(v[0], v[1], 64)
            if not is_c(n): raise Unsupported('allocation of symbolic size')
            r = Region('struct', 'heap', size=n, zero=zero, uninit=not zero, heap=True); r.name += str(r.id); st.mem[r.id] = {'live': 1}; return Ptr(r, 0)
        return f
    X['malloc'] = X['m4ri_mm_malloc'] = malloc(False); X['m4ri_mm_calloc'] = X['calloc'] = malloc(True); X['_mm_malloc'] = malloc(False)
    def free(e, st, v):
        p = v[0]
        if isnull(p): return None
        if p.reg.kind != 'struct' or not getattr(p.reg, 'heap', False) or p.off != 0 or getattr(p.reg, 'mzd', False): e.oblige(st, False, 'free of %r' % p, 'pre'); raise Dead()
        d = dict(st.mem[p.reg.id]); e.oblige(st, d.get('live', 1) == 1, 'double free of %s' % p.reg.name, 'pre'); d['live'] = 0; st.mem[p.reg.id] = d; return None
    X['free'] = X['_mm_free'] = X['m4ri_mm_free'] = free
    return X

HEAP = {}
def leaks(e, st, keep=()):
    """every object allocated on the way is released"""
    kept = set()
    def mark(p):
        if isinstance(p, Ptr) and p.reg is not None and p.reg.id not in kept:
            kept.add(p.reg.id)
            for k, v in (st.mem.get(p.reg.id) or {}).items() if isinstance(st.mem.get(p.reg.id), dict) else (): mark(v)
    for p in keep: mark(p)
    out = []
    for rid, d in st.mem.items():
        if isinstance(d, dict) and 'live' in d and rid in REG and getattr(REG[rid], 'heap', False) and rid not in kept:
            out.append(('%s is released' % REG[rid].name.rstrip('0123456789'), 'leak', 'proved' if d['live'] == 0 else ('refuted', 'allocated object is not released')))
    return out

MAXD = 'matrix dimensions at most 2^24-1'
def engine(M):
    e = Engine(M); e.mod = M[0]
    e.contracts.update(mzd_contracts(e)); return e
def result(e, posts, functions, paths, extra=()):
    """collect the obligations of one contract"""
    ob = [(w, k, r) for w, k, r, t in e.obs] + list(posts)
    if paths == 0: ob.append(('some path returns', 'post', ('unknown', 'no path returns')))
    return {'functions': list(functions) + sorted(e.inlined), 'obligations': ob, 'paths': paths,
            'assumed': ['m4ri contract: ' + n for n in sorted(e.applied) if n.startswith(('mzd_', '_mzd_mul_', 'mzp_', 'm4ri_')) and not n.startswith(('mzd_slice', 'mzd_poly'))] + list(extra) + [MAXD]}
def vals(st, ps): return [st.mem[p.reg.id]['V'] for p in ps]
def slice_parts(e, st, p):
    d = st.mem[p.reg.id]; return [d[8 * i] for i in range(d[136])]

# ------------------------------------------------------------------ rows and columns
def row_of(v, i, nc): return sub_(v, i, 0, 1, nc)
def v_rowswap(v, a, b): return upd_(upd_(v, a, 0, row_of(v, b, v.nc)), b, 0, row_of(v, a, v.nc))
def v_colswap(v, a, b, n=1, r0=0, r1=None):
    """swap the column blocks a..a+n and b..b+n in rows r0..r1"""
    nr = v.nr if r1 is None else sub(r1, r0, 32)
    return upd_(upd_(v, r0, a, sub_(v, r0, b, nr, n)), r0, b, sub_(v, r0, a, nr, n))
def v_rowadd(v, src, dst): return upd_(v, dst, 0, vadd(row_of(v, dst, v.nc), row_of(v, src, v.nc)))
def v_copyrow(vb, i, va, j): return upd_(vb, i, 0, row_of(va, j, va.nc))
def lt_(e, st, a, b, what): e.oblige(st, cmp('ult', a, b, 32), what, 'pre')
def rowcol_contracts(p):
    """row and column operations of one matrix type, value in elements of that type"""
    X = {}
    def rs(e, st, v):
        n = p + '_row_swap'; r = handle(e, st, v[0], n); nr, nc = dims(st, r)
        lt_(e, st, v[1], nr, n + ': row in range'); lt_(e, st, v[2], nr, n + ': row in range'); setval(e, st, r, v_rowswap(mval(st, r), v[1], v[2])); return None
    X[p + '_row_swap'] = rs
    def cs(e, st, v):
        n = p + '_col_swap'; r = handle(e, st, v[0], n); nr, nc = dims(st, r)
        lt_(e, st, v[1], nc, n + ': column in range'); lt_(e, st, v[2], nc, n + ': column in range'); setval(e, st, r, v_colswap(mval(st, r), v[1], v[2])); return None
    X[p + '_col_swap'] = cs
    def csr(e, st, v):
        n = p + '_col_swap_in_rows'; r = handle(e, st, v[0], n); nr, nc = dims(st, r)
        lt_(e, st, v[1], nc, n + ': column in range'); lt_(e, st, v[2], nc, n + ': column in range')
        e.oblige(st, And(cmp('ule', v[3], v[4], 32), cmp('ule', v[4], nr, 32)), n + ': rows in range', 'pre'); setval(e, st, r, v_colswap(mval(st, r), v[1], v[2], 1, v[3], v[4])); return None
    X[p + '_col_swap_in_rows'] = csr
    def ra(e, st, v):
        n = p + '_row_add'; r = handle(e, st, v[0], n); nr, nc = dims(st, r)
        lt_(e, st, v[1], nr, n + ': row in range'); lt_(e, st, v[2], nr, n + ': row in range'); setval(e, st, r, v_rowadd(mval(st, r), v[1], v[2])); return None
    X[p + '_row_add'] = ra
    def cr(e, st, v):
        n = p + '_copy_row'; b, i, a, j = v; i, j = to32(e, st, i, n), to32(e, st, j, n); rb, ra_ = handle(e, st, b, n), handle(e, st, a, n); db, da = dims(st, rb), dims(st, ra_)
        lt_(e, st, i, db[0], n + ': row in range'); lt_(e, st, j, da[0], n + ': row in range'); e.oblige(st, cmp('uge', db[1], da[1], 32), n + ': target wide enough', 'pre')
        setval(e, st, rb, v_copyrow(mval(st, rb), i, mval(st, ra_), j)); return None
    X[p + '_copy_row'] = cr
    return X
CMPS = {}
def cmp_contract(e, st, v, name='mzd_cmp'):
    """the sign of an order in which exactly equal matrices are equal"""
    a, b = handle(e, st, v[0], name), handle(e, st, v[1], name); x, y = mval(st, a), mval(st, b)
    k = (x.a[0] if x.op == 'atom' else x.id, y.a[0] if y.op == 'atom' else y.id)
    if k not in CMPS: CMPS[k] = z3.BitVec('cmp!%d' % len(CMPS), 32); CMPS.setdefault('keep', []).append((x, y))
    return CMPS[k]
def perm_contracts():
    """mzd_apply_p_*: an unspecified action of the permutation on rows / columns (whole matrices)"""
    X = {}
    for n in ('left', 'left_trans', 'right', 'right_trans', 'right_trans_tri'):
        def f(e, st, v, n=n):
            r = handle(e, st, v[0], 'mzd_apply_p_' + n); nr, nc = dims(st, r)
            if not isinstance(v[1], Ptr) or v[1].reg is None: e.oblige(st, False, 'NULL permutation', 'pre'); raise Dead()
            setval(e, st, r, fun('apply_p_%s:%s' % (n, v[1].reg.name), nr, nc, mval(st, r))); return None
        X['mzd_apply_p_' + n] = f
    def cl(e, st, v):
        r = handle(e, st, v[0], '_mzd_compress_l'); nr, nc = dims(st, r); setval(e, st, r, fun('compress_l', nr, nc, mval(st, r), *v[1:])); return None
    X['_mzd_compress_l'] = cl
    return X
def fun(name, nr, nc, x, *idx): return V('fun', nr, nc, name, x, tuple(idx))
def fold(nr, nc, t, T, prev, body, init): return V('fold', nr, nc, t, T, prev, body, init)
