"""Symbolic terms, functional memories, solver access and obligations."""
import z3, time, hashlib, sys, os
sys.setrecursionlimit(100000)
from ir import Unsupported

BV = z3.BitVec
def C(v, w): return z3.BitVecVal(v, w)
def is_c(x): return isinstance(x, int)
def mask(w): return (1 << w) - 1
def sgn(v, w): v &= mask(w); return v - (1 << w) if v >> (w - 1) else v
def bv(x, w): return C(x & mask(w), w) if isinstance(x, int) else x
def isz(x): return isinstance(x, z3.ExprRef)

RV, KV = z3.BitVec('!R', 32), z3.BitVec('!K', 32)

_rng = {}
_keep = []
VAR_RANGE = {}       # name -> (lo, hi) unsigned
def rng(t, w=None):
    """unsigned interval containing t"""
    if is_c(t): v = t & mask(w or 64); return v, v
    k = t.get_id(); r = _rng.get(k)
    if r is None:
        r = _range(t); _rng[k] = r; _keep.append(t)
    return r
def _range(t):
    w = t.size(); full = (0, mask(w)); d = t.decl().kind(); n = t.num_args()
    if z3.is_bv_value(t): v = t.as_long(); return v, v
    if d == z3.Z3_OP_UNINTERPRETED:
        return VAR_RANGE.get(t.decl().name(), full)
    if d == z3.Z3_OP_CONCAT:
        lo = hi = 0
        for c in t.children(): a, b = rng(c); lo, hi = (lo << c.size()) | a, (hi << c.size()) | b
        return lo, hi
    if d == z3.Z3_OP_ZERO_EXT: return rng(t.arg(0))
    if d == z3.Z3_OP_SIGN_EXT:
        a, b = rng(t.arg(0)); 
        return (a, b) if b < 1 << (t.arg(0).size() - 1) else full
    if d == z3.Z3_OP_BADD:
        lo = hi = 0
        for c in t.children(): a, b = rng(c); lo += a; hi += b
        if hi <= mask(w): return lo, hi
        # constant subtraction written as addition
        if n == 2 and z3.is_bv_value(t.arg(0)):
            k = (1 << w) - t.arg(0).as_long(); a, b = rng(t.arg(1))
            if a >= k: return a - k, b - k
        return full
    if d == z3.Z3_OP_BSUB and n == 2:
        a, b = rng(t.arg(0)); c, e = rng(t.arg(1))
        return (a - e, b - c) if a >= e else full
    if d == z3.Z3_OP_BMUL:
        lo = hi = 1
        for c in t.children(): a, b = rng(c); lo *= a; hi *= b
        return (lo, hi) if hi <= mask(w) else full
    if d == z3.Z3_OP_BAND:
        return 0, min(rng(c)[1] for c in t.children())
    if d in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
        b = 0
        for c in t.children(): b |= mask(rng(c)[1].bit_length())
        return 0, b
    if d == z3.Z3_OP_ITE:
        a, b = rng(t.arg(1)); c, e = rng(t.arg(2)); return min(a, c), max(b, e)
    if d == z3.Z3_OP_EXTRACT:
        h, l = t.params(); a, b = rng(t.arg(0))
        if b >> (h + 1) == 0: return a >> l, b >> l
        return full
    if d == z3.Z3_OP_BLSHR and z3.is_bv_value(t.arg(1)):
        k = t.arg(1).as_long(); a, b = rng(t.arg(0)); return (a >> k, b >> k) if k < w else (0, 0)
    if d == z3.Z3_OP_BLSHR: return 0, rng(t.arg(0))[1]
    if d == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)):
        k = t.arg(1).as_long(); a, b = rng(t.arg(0))
        return (a << k, b << k) if b << k <= mask(w) else full
    if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long():
        k = t.arg(1).as_long(); a, b = rng(t.arg(0)); return a // k, b // k
    if d in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long():
        return 0, t.arg(1).as_long() - 1
    return full

def nonneg(t, w): return rng(t, w)[1] < 1 << (w - 1)

_simp = {}
def simp(t):
    if not isz(t): return t
    k = t.get_id(); r = _simp.get(k)
    if r is None: r = z3.simplify(t); _simp[k] = r; _keep.append(t); _keep.append(r)
    return r
def val(t):
    """python int if t is a bit-vector value"""
    if is_c(t): return t
    if z3.is_bv_value(t): return t.as_long()
    return t
def norm(t):
    """simplify; constants become ints, bools become python bools"""
    if not isz(t): return t
    s = simp(t)
    if z3.is_bv_value(s): return s.as_long()
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return s

# ---- integer operations ----
def add(a, b, w):
    if is_c(a) and is_c(b): return (a + b) & mask(w)
    if is_c(a) and a & mask(w) == 0: return b
    if is_c(b) and b & mask(w) == 0: return a
    return bv(a, w) + bv(b, w)
def sub(a, b, w):
    if is_c(a) and is_c(b): return (a - b) & mask(w)
    if is_c(b) and b & mask(w) == 0: return a
    if isz(a) and isz(b) and a.eq(b): return 0
    return bv(a, w) - bv(b, w)
def mul(a, b, w):
    if is_c(a) and is_c(b): return (a * b) & mask(w)
    for x, y in ((a, b), (b, a)):
        if is_c(x):
            x &= mask(w)
            if x == 0: return 0
            if x == 1: return y
            if x & (x - 1) == 0: return y << C(x.bit_length() - 1, w)
    return bv(a, w) * bv(b, w)
def xor(a, b, w):
    if is_c(a) and is_c(b): return (a ^ b) & mask(w)
    if is_c(a) and a & mask(w) == 0: return b
    if is_c(b) and b & mask(w) == 0: return a
    return bv(a, w) ^ bv(b, w)
def and_(a, b, w):
    if is_c(a) and is_c(b): return a & b & mask(w)
    for x, y in ((a, b), (b, a)):
        if is_c(x):
            if x & mask(w) == 0: return 0
            if x & mask(w) == mask(w): return y
    return bv(a, w) & bv(b, w)
def or_(a, b, w):
    if is_c(a) and is_c(b): return (a | b) & mask(w)
    if is_c(a) and a & mask(w) == 0: return b
    if is_c(b) and b & mask(w) == 0: return a
    return bv(a, w) | bv(b, w)
def shl(a, b, w):
    if is_c(b):
        b &= mask(w)
        if b >= w: return None
        if is_c(a): return (a << b) & mask(w)
        return a if b == 0 else a << C(b, w)
    return bv(a, w) << b
def lshr(a, b, w):
    if is_c(b):
        b &= mask(w)
        if b >= w: return None
        if is_c(a): return (a & mask(w)) >> b
        return a if b == 0 else z3.LShR(a, C(b, w))
    return z3.LShR(bv(a, w), b)
def ashr(a, b, w):
    if is_c(a) and is_c(b): return (sgn(a, w) >> b) & mask(w)
    if not is_c(a) and nonneg(a, w): return lshr(a, b, w)
    return bv(a, w) >> bv(b, w)
def udiv(a, b, w):
    if is_c(a) and is_c(b): return (a & mask(w)) // (b & mask(w))
    if is_c(b) and b & (b - 1) == 0 and b: return lshr(a, b.bit_length() - 1, w)
    return z3.UDiv(bv(a, w), bv(b, w))
def urem(a, b, w):
    if is_c(a) and is_c(b): return (a & mask(w)) % (b & mask(w))
    if is_c(b) and b & (b - 1) == 0 and b: return and_(a, b - 1, w)
    return z3.URem(bv(a, w), bv(b, w))
def sdiv(a, b, w):
    if is_c(a) and is_c(b):
        x, y = sgn(a, w), sgn(b, w); q = abs(x) // abs(y); return (q if (x < 0) == (y < 0) else -q) & mask(w)
    if nonneg(a, w) and nonneg(b, w): return udiv(a, b, w)
    return bv(a, w) / bv(b, w)
def srem(a, b, w):
    if is_c(a) and is_c(b):
        x, y = sgn(a, w), sgn(b, w); r = abs(x) % abs(y); return (-r if x < 0 else r) & mask(w)
    if nonneg(a, w) and nonneg(b, w): return urem(a, b, w)
    return z3.SRem(bv(a, w), bv(b, w))
def zext(a, w0, w1):
    if is_c(a): return a & mask(w0)
    return z3.ZeroExt(w1 - w0, a)
def sext(a, w0, w1):
    if is_c(a): return sgn(a, w0) & mask(w1)
    if nonneg(a, w0): return z3.ZeroExt(w1 - w0, a)
    return z3.SignExt(w1 - w0, a)
def trunc(a, w0, w1):
    if is_c(a): return a & mask(w1)
    k = a.decl().kind()
    if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        b = a.arg(0)
        if b.size() == w1: return b
        if b.size() < w1: return (z3.ZeroExt if k == z3.Z3_OP_ZERO_EXT else z3.SignExt)(w1 - b.size(), b)
        return trunc(b, b.size(), w1)
    if k == z3.Z3_OP_BADD:
        r = 0
        for c in a.children(): r = add(r, trunc(val(c), w0, w1), w1)
        return r
    if k == z3.Z3_OP_BSUB and a.num_args() == 2: return sub(trunc(val(a.arg(0)), w0, w1), trunc(val(a.arg(1)), w0, w1), w1)
    if k == z3.Z3_OP_BMUL and a.num_args() == 2: return mul(trunc(val(a.arg(0)), w0, w1), trunc(val(a.arg(1)), w0, w1), w1)
    if k == z3.Z3_OP_BSHL and z3.is_bv_value(a.arg(1)):
        s = a.arg(1).as_long(); return 0 if s >= w1 else shl(trunc(val(a.arg(0)), w0, w1), s, w1)
    return z3.Extract(w1 - 1, 0, a)
def cmp(p, a, b, w):
    if is_c(a) and is_c(b):
        ua, ub, sa, sb = a & mask(w), b & mask(w), sgn(a, w), sgn(b, w)
        return {'eq': ua == ub, 'ne': ua != ub, 'ult': ua < ub, 'ule': ua <= ub, 'ugt': ua > ub, 'uge': ua >= ub, 'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[p]
    if isz(a) and isz(b) and a.eq(b): return p in ('eq', 'ule', 'uge', 'sle', 'sge')
    if isz(a) and is_c(b) and a.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
        x, y = cmp(p, a.arg(1).as_long(), b, w), cmp(p, a.arg(2).as_long(), b, w)
        if x is True and y is True: return True
        if x is False and y is False: return False
        return a.arg(0) if x is True else Not(a.arg(0))
    if p[0] == 's' and nonneg(a, w) and nonneg(b, w): p = 'u' + p[1:]
    if p in ('ult', 'ule', 'ugt', 'uge'):
        la, ha = rng(a, w); lb, hb = rng(b, w)
        if p == 'ult' and ha < lb or p == 'ule' and ha <= lb or p == 'ugt' and la > hb or p == 'uge' and la >= hb: return True
        if p == 'ult' and la >= hb or p == 'ule' and la > hb or p == 'ugt' and ha <= lb or p == 'uge' and ha < lb: return False
    if p in ('eq', 'ne'):
        la, ha = rng(a, w); lb, hb = rng(b, w)
        if ha < lb or hb < la: return p == 'ne'
    a, b = bv(a, w), bv(b, w)
    if p == 'ne': return z3.Not(a == b)
    return {'eq': lambda: a == b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
            'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[p]()
def And(*l):
    l = [x for x in l if x is not True]
    if any(x is False for x in l): return False
    return True if not l else l[0] if len(l) == 1 else z3.And(*l)
def Or(*l):
    l = [x for x in l if x is not False]
    if any(x is True for x in l): return True
    return False if not l else l[0] if len(l) == 1 else z3.Or(*l)
def Not(x):
    if isinstance(x, bool): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def ite(c, a, b, w):
    if c is True: return a
    if c is False: return b
    if is_c(a) and is_c(b) and (a - b) & mask(w) == 0: return a
    if isz(a) and isz(b) and a.eq(b): return a
    return z3.If(c, bv(a, w), bv(b, w))
def subst(t, pairs):
    if not isz(t): return t
    return val(z3.substitute(t, *[(a, bv(b, a.size())) for a, b in pairs]))

_fr = [0]
def fresh(nm, w=32, lo=None, hi=None):
    _fr[0] += 1; n = '%s!%d' % (nm, _fr[0])
    if hi is not None: VAR_RANGE[n] = (lo or 0, hi)
    return z3.BitVec(n, w)
def freshname(nm): _fr[0] += 1; return '%s!%d' % (nm, _fr[0])

# ---- functional memories over (row, index) -> bits ----
class Mem:
    """kinds: base (fn), upd (cond, val over RV, KV), point (r, k, v), ite"""
    __slots__ = ('kind', 'w', 'prev', 'a', 'b', 'c', 'cache')
    def __init__(s, kind, w, prev=None, a=None, b=None, c=None): s.kind, s.w, s.prev, s.a, s.b, s.c, s.cache = kind, w, prev, a, b, c, {}
    @staticmethod
    def base(fn, w): return Mem('base', w, None, fn)
    def store(s, r, k, v): return Mem('point', s.w, s, r, k, v)
    def upd(s, cond, v): return s if cond is False else Mem('upd', s.w, s, cond, v)
    @staticmethod
    def ite(c, m1, m2):
        if m1 is m2: return m1
        return Mem('ite', m1.w, m1, c, m2)
    def read(s, r, k):
        key = (r if is_c(r) else ('z', r.get_id()), k if is_c(k) else ('z', k.get_id()))
        if key in s.cache: return s.cache[key][0]
        v = s._read(r, k); s.cache[key] = (v, r, k); return v
    def _read(s, r, k):
        if s.kind == 'base': return s.a(r, k)
        if s.kind == 'ite':
            return ite(s.a, s.prev.read(r, k), s.b.read(r, k), s.w)
        if s.kind == 'point':
            c = And(eqi(r, s.a), eqi(k, s.b))
            if c is True: return s.c
            if c is False: return s.prev.read(r, k)
            return ite(c, s.c, s.prev.read(r, k), s.w)
        c = s.a if isinstance(s.a, bool) else norm(subst(s.a, [(RV, r), (KV, k)]))
        if c is False: return s.prev.read(r, k)
        v = subst(s.b, [(RV, r), (KV, k)])
        if c is True: return v
        return ite(c, v, s.prev.read(r, k), s.w)
    def wcond(s, base):
        """condition over RV, KV under which the cell was written since `base`"""
        if s is base: return False
        if s.kind == 'base': raise Unsupported('memory base mismatch')
        if s.kind == 'ite': return Or(And(s.a, s.prev.wcond(base)), And(Not(s.a), s.b.wcond(base)))
        if s.kind == 'point': c = And(eqi(RV, s.a), eqi(KV, s.b))
        else: c = s.a
        return Or(c, s.prev.wcond(base))

def eqi(a, b):
    """a == b for 32-bit index terms, decided syntactically where easy"""
    if is_c(a) and is_c(b): return (a - b) & mask(32) == 0
    if isz(a) and isz(b) and a.eq(b): return True
    d = norm(sub(a, b, 32))
    if is_c(d): return d == 0
    return bv(a, 32) == bv(b, 32)

# ---- solver ----
UFAX = {}     # decl name -> fn(app) -> list of facts
def apps_of(ts, seen=None):
    out = {}; stack = [t for t in ts if isz(t)]; seen = seen if seen is not None else set()
    while stack:
        t = stack.pop(); i = t.get_id()
        if i in seen: continue
        seen.add(i)
        if t.num_args():
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[i] = t
            stack.extend(t.children())
    return list(out.values())

SUMS = {}     # decl name -> (body over bound var TAU and formal params, formals)
class Stats: q = 0; t = 0.0
def _check(fs, timeout):
    t0 = time.time(); s = z3.Solver(); s.set('timeout', timeout)
    for f in fs: s.add(f)
    r = s.check(); Stats.q += 1; Stats.last = time.time() - t0; Stats.t += Stats.last
    return r, s

def axioms(fs, depth=3):
    seen, ax, cur = set(), [], list(fs)
    done = set()
    for _ in range(depth):
        new = []
        for a in apps_of(cur, seen):
            i = a.get_id()
            if i in done: continue
            done.add(i); f = UFAX.get(a.decl().name())
            if f: new += f(a)
        if not new: break
        ax += new; cur = new
    return ax

def sat(fs, timeout=400):
    fs = [f for f in fs if f is not True]
    if any(f is False for f in fs): return False
    ax = axioms(fs, 2)
    r, _ = _check(fs + ax, timeout)
    return r != z3.unsat

PROOF_TIMEOUT = [20000]
LASTMODEL = [None]
LIGHT = [True]; LOG = int(os.environ.get('IRV_LOG', '0'))
def prove(pc, goal, timeout=None, depth=0, splits=4):
    """'proved' | 'refuted' (model found) | 'unknown'"""
    goal = norm(zb(goal)) if isz(goal) else goal
    if goal is True: return 'proved'
    timeout = timeout or PROOF_TIMEOUT[0]
    fs = [zb(x) for x in pc if x is not True] + [z3.Not(zb(goal))]
    if LIGHT[0] and not apps_of([fs[-1]]):
        # index arithmetic: try without the facts about contents (fewer assumptions: still sound)
        r, s = _check([f for f in fs if not apps_of([f])], 1500)
        if r == z3.unsat: return 'proved'
    fs += axioms(fs)
    r, s = _check(fs, timeout)
    if LOG and Stats.last > 1: print('%.1f' % Stats.last, r, len(fs), str(goal)[:LOG].replace(chr(10), ' '))
    if r == z3.unsat: return 'proved'
    if r == z3.unknown:
        t0 = time.time(); g = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'smt').solver(); g.set('timeout', timeout)
        for f in fs: g.add(f)
        r = g.check(); Stats.q += 1; Stats.t += time.time() - t0
        if r == z3.unsat: return 'proved'
    if depth < 3:
        ss = [a for a in apps_of(fs) if a.decl().name() in SUMS]
        new = []
        for a in ss:
            for b in ss:
                if a.decl().eq(b.decl()) and not a.eq(b) and all(x.eq(y) for x, y in zip(a.children()[1:], b.children()[1:])):
                    d = simp(b.arg(0) - a.arg(0))
                    if z3.is_bv_value(d) and 1 <= d.as_long() <= 8:
                        # the longer sum is the shorter one and the terms between, provided the bound does not wrap
                        y = a
                        for k in range(d.as_long()): y = y ^ sum_body(a, simp(a.arg(0) + k))
                        new.append(z3.Implies(z3.ULE(a.arg(0), C(1 << 30, 32)), b == y))
        for i in range(len(ss)):
            for j in range(i):
                e = sum_ext(pc, ss[i], ss[j], depth + 1)
                if e is not None: new.append(e)
        if new: 
            r2 = prove(list(pc) + new, goal, timeout, depth + 3)
            if r2 == 'proved': return r2
        if ss and depth == 0 and splits > 0:
            # sums may agree in the cases of an index condition only
            ip = [x for x in fs[:-1] if not apps_of([x])]
            for c in split_atoms(simp(zb(goal))):
                if free_vars(c) & RESIDUE or _check(ip + [c], 2000)[0] == z3.unsat or _check(ip + [z3.Not(c)], 2000)[0] == z3.unsat: continue
                x = [prove(list(pc) + [cc], simp(z3.substitute(goal, (c, z3.BoolVal(v)))), timeout, 0, splits - 1) for cc, v in ((c, True), (z3.Not(c), False))]
                if x == ['proved', 'proved']: return 'proved'
                break
    if r == z3.sat:
        LASTMODEL[0] = s.model() if s.check() == z3.sat else None
        return 'refuted'
    return 'unknown'

TAU = z3.BitVec('!tau', 32)
def mk_sum(t, T, body, w=64):
    """XOR_{0<=t<T} body(t): a function symbol keyed by the body, applied to its free variables"""
    if is_c(body): 
        if body == 0: return 0
        body = C(body, w)
    body = z3.simplify(z3.substitute(body, (t, TAU)))
    if z3.is_bv_value(body) and body.as_long() == 0: return 0
    free, seen, st = [], set(), [body]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.eq(TAU): free.append(x)
        st.extend(reversed(x.children()))
    formals = [z3.Const('!f%d_%s' % (i, x.sort().sexpr().replace(' ', '')), x.sort()) for i, x in enumerate(free)]
    b2 = z3.substitute(body, *zip(free, formals)) if free else body
    n = 'XSUM_' + hashlib.sha1(b2.sexpr().encode()).hexdigest()[:12]
    SUMS[n] = (b2, formals)
    f = z3.Function(n, *([z3.BitVecSort(32)] + [x.sort() for x in free] + [z3.BitVecSort(w)]))
    def ax(app):
        return [z3.Implies(app.arg(0) == 0, app == 0)]
    UFAX[n] = ax
    return f(bv(T, 32), *free)
def sum_body(app, t):
    b, formals = SUMS[app.decl().name()]
    args = app.children()[1:]
    return z3.substitute(b, *([(TAU, t)] + list(zip(formals, args))))
def sum_ext(pc, a, b, depth):
    """a == b if the bounds agree and the summands agree for every index (extensionality)"""
    if a.eq(b): return None
    t = fresh('ext')
    if prove(list(pc), a.arg(0) == b.arg(0), 5000, 3) != 'proved': return None
    r = prove(list(pc) + [z3.ULT(t, a.arg(0))], sum_body(a, t) == sum_body(b, t), 5000, depth)
    if r != 'proved': r = prove(list(pc) + [z3.ULT(t, a.arg(0))], sum_body(a, t) == sum_body(b, a.arg(0) - 1 - t), 5000, depth)   # the other way round
    return (a == b) if r == 'proved' else None

# ---- case-splitting prover ----
def is_indexonly(t, memo={}):
    """no data (memory contents, field products) inside"""
    k = t.get_id(); r = memo.get(k)
    if r is not None: return r[0]
    if t.num_args() == 0: r = not (z3.is_bv(t) and t.size() == 64 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED)
    elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED: r = False
    else: r = all(is_indexonly(c) for c in t.children())
    memo[k] = (r, t); return r
def split_atoms(g):
    """index-only boolean atoms of g in order of appearance from the top"""
    out, seen, q = [], set(), [g]; i = 0
    while i < len(q):
        x = q[i]; i += 1
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_bool(x):
            k = x.decl().kind()
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES) or (k == z3.Z3_OP_EQ and z3.is_bool(x.arg(0))):
                q += x.children(); continue
            if z3.is_true(x) or z3.is_false(x): continue
            if is_indexonly(x): out.append(x); continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: q.append(x.arg(0)); q += [x.arg(1), x.arg(2)]; continue
        q += x.children()
    return out
RESIDUE = set()      # names of small residue variables which are treated as data
def free_vars(t, memo={}):
    k = t.get_id(); r = memo.get(k)
    if r is None:
        out, st, seen = set(), [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            st.extend(x.children())
        r = memo[k] = (frozenset(out), t)
    return r[0]
class Ctx:
    """decides index conditions under a growing path condition"""
    def __init__(s, pc, to=1500):
        s.s = z3.Solver(); s.s.set('timeout', to); s.n = 0
        for x in pc: s.s.add(x)
    def entails(s, c):
        s.n += 1; t0 = time.time(); s.s.push(); s.s.add(z3.Not(c)); r = s.s.check(); s.s.pop(); Stats.q += 1; Stats.t += time.time() - t0
        return r == z3.unsat
def ctx_simplify(cx, g):
    for _ in range(6):
        subs = []
        for c in split_atoms(g):
            if free_vars(c) & RESIDUE: continue
            if cx.entails(c): subs.append((c, z3.BoolVal(True)))
            elif cx.entails(z3.Not(c)): subs.append((c, z3.BoolVal(False)))
        if subs: g = simp(z3.substitute(g, *subs))
        # canonical indices
        groups = {}
        for a in apps_of([g]):
            for i in range(a.num_args()):
                x = a.arg(i)
                if z3.is_bv(x) and x.size() == 32 and is_indexonly(x): groups.setdefault((a.decl().name(), i), {})[x.get_id()] = x
        isub = []; done = set()
        for l in groups.values():
            l = sorted(l.values(), key=lambda x: (x.num_args() > 0, len(x.sexpr())))
            reps = []
            for x in l:
                if x.get_id() in done: continue
                for r in reps:
                    d = simp(x - r)
                    if z3.is_bv_value(d) and d.as_long(): continue
                    if cx.entails(x == r): isub.append((x, r)); done.add(x.get_id()); break
                else: reps.append(x)
        if isub: g = simp(z3.substitute(g, *isub))
        if not subs and not isub: break
        if z3.is_true(g) or z3.is_false(g): break
    return g
def prove_split(pc, goal, timeout=10000, deadline=None, stats=None, quick=1500):
    pc = [zb(x) for x in pc if x is not True]
    goal = simp(zb(goal)); stats = stats if stats is not None else [0, 0]
    cx = Ctx([x for x in pc if is_indexonly(x)])
    def leaf(pc, g, to):
        fs = pc + [z3.Not(g)]; fs = fs + axioms(fs)
        r, s = _check(fs, to)
        if r == z3.sat: LASTMODEL[0] = s.model(); return 'refuted'
        return 'proved' if r == z3.unsat else 'unknown'
    def go(pc, g, depth):
        if deadline and time.time() > deadline: return 'unknown'
        g = ctx_simplify(cx, g)
        if z3.is_true(g): return 'proved'
        if cx.s.check() == z3.unsat: return 'proved'
        ats = [c for c in split_atoms(g) if not free_vars(c) & RESIDUE]
        stats[0] += 1
        r = leaf(pc, g, quick if ats else timeout)
        if r != 'unknown' or not ats or depth > 24: return r
        ats.sort(key=lambda c: c.decl().kind() != z3.Z3_OP_EQ)
        c = ats[0]; out = []
        for cc, v in ((c, True), (z3.Not(c), False)):
            cx.s.push(); cx.s.add(cc)
            try: x = go(pc + [cc], simp(z3.substitute(g, (c, z3.BoolVal(v)))), depth + 1)
            finally: cx.s.pop()
            if x == 'refuted': return x
            out.append(x)
        return 'proved' if out == ['proved', 'proved'] else 'unknown'
    r = go(pc, goal, 0); stats[1] = cx.n
    return r
def dependson(y, x):
    st, seen = [y], set()
    while st:
        a = st.pop()
        if a.get_id() == x.get_id(): return True
        if a.get_id() in seen: continue
        seen.add(a.get_id()); st.extend(a.children())
    return False
