"""Symbolic executor / verification-condition generator for LLVM IR with automatic loop summaries."""
import z3, time
from core import *
import ir
from ir import Unsupported

REG = {}
class Region:
    _n = [0]
    def __init__(s, kind, name, **kw):
        s.kind, s.name = kind, name; Region._n[0] += 1; s.id = Region._n[0]; REG[s.id] = s
        s.__dict__.update(kw)
    def __repr__(s): return '<%s %s>' % (s.kind, s.name)
class Ptr:
    __slots__ = ('reg', 'off', 'row')
    def __init__(s, reg, off=0, row=None): s.reg, s.off, s.row = reg, off, row
    def __repr__(s): return 'Ptr(%s,%s,%s)' % (s.reg, s.off, s.row)
NULL = Ptr(None, 0)
class Fn:
    def __init__(s, name): s.name = name
class Undef: pass
UNDEF = Undef()
class Opaque:
    """a value which may only be carried around"""
    def __init__(s, what): s.what = what
def isnull(p): return isinstance(p, Ptr) and p.reg is None and is_c(p.off) and p.off == 0

class State:
    __slots__ = ('env', 'mem', 'pc', 'facts', 'prev')
    def __init__(s, env, mem, pc, facts=()): s.env, s.mem, s.pc, s.facts, s.prev = env, mem, pc, facts, None
    def copy(s):
        n = State(dict(s.env), dict(s.mem), s.pc, s.facts); n.prev = s.prev; return n
    def assume(s, c):
        if c is True: return s
        s.pc = s.pc + (c,); return s

def W(ty):
    if ty == 'ptr': return 64
    if ty[0] == 'i': return int(ty[1:])
    raise Unsupported('width of ' + ty)

class Dead(Exception): pass

class Engine:
    def __init__(self, modules, contracts=None, externs=None):
        self.mods = modules; self.contracts = contracts or {}; self.externs = externs or {}
        self.obs = []; self.quiet = 0; self.trace = False; self.depth = 0; self.ops = 0; self.inlined = set(); self.applied = set()
        self.obcache = {}; self.deadline = None; self.loopinfo = []; self.unroll_hint = 0; self.feas_timeout = 300
        self.globs = {}; self.defer = []; self.regs = {}
    # ---- obligations ----
    def oblige(self, st, cond, what, kind='safety'):
        if cond is True:
            self.count_trivial = getattr(self, 'count_trivial', 0) + 1
        if self.quiet: return
        pc = self.fullpc(st)
        if isz(cond): cond2 = norm(cond)
        else: cond2 = cond
        if cond2 is True: self.obs.append((what, kind, 'proved', 0.0)); return
        if self.defer: self.defer[-1].append((pc, cond2, what, kind)); return
        self.settle(pc, cond2, what, kind)
    def settle(self, pc, cond2, what, kind):
        if cond2 is True: self.obs.append((what, kind, 'proved', 0.0)); return
        if self.defer: self.defer[-1].append((pc, cond2, what, kind)); return
        key = (tuple(c.get_id() for c in pc if isz(c)), cond2 if isinstance(cond2, bool) else cond2.get_id())
        if key in self.obcache: 
            return
        t0 = time.time(); r = prove(pc, cond2); self.obcache[key] = (r, pc, cond2)
        self.obs.append((what, kind, r, time.time() - t0))
        if r != 'proved' and self.trace: print('   OBLIGATION', what, r); 
    def fullpc(self, st, skol=()):
        pc = list(st.pc)
        return pc
    def tick(self):
        self.ops += 1
        if self.deadline and self.ops % 64 == 0 and time.time() > self.deadline: raise Unsupported('time limit')
    # ---- operands ----
    def find(self, name, mod=None):
        if mod is not None and mod.has(name): return mod
        for m in self.mods:
            if m.has(name): return m
        return None
    def ev(self, st, o, w=None):
        k = o[0]
        if k == 'r':
            try: return st.env[o[1]]
            except KeyError: raise Unsupported('unbound %' + o[1])
        if k == 'c': return o[1] & mask(w) if w else o[1]
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'g': return self.globval(o[1])
        if k == 'zero':
            ty = o[1]
            if ty.startswith('<2 x i64'): return (0, 0)
            return 0
        if k == 'vec': return tuple(self.ev(st, x, 64) for x in o[1])
        if k == 'f': return Opaque('float')
        if k == 'cgep':
            p = self.ev(st, o[2]); return self.gep(st, p, o[1], [(None, i) for i in o[3]])
        raise Unsupported('operand %r' % (o,))
    def globval(self, n):
        if self.find(n) or n in self.externs or n in self.contracts: return Fn(n)
        if n in self.globs: return self.globs[n]
        for m in self.mods:
            if n in m.decls: return Fn(n)
        h = getattr(self, 'globhook', None)
        if h:
            r = h(n)
            if r is not None: self.globs[n] = r; return r
        r = Ptr(Region('opaque', '@' + n), 0); self.globs[n] = r; return r
    # ---- pointers ----
    def gep(self, st, p, ty, idx, w=None):
        if not isinstance(p, Ptr): raise Unsupported('gep on %r' % (p,))
        m = self.mod; parts = []   # (scale, idx)
        first = True; cur = ty
        for ity, io in idx:
            iv = self.ev(st, io, W(ity) if ity else 64)
            if isz(iv) and iv.size() < 64: iv = sext(iv, iv.size(), 64)
            elif is_c(iv) and ity: iv = sgn(iv, W(ity))
            if first: parts.append((m.sizeof(cur), iv)); first = False; continue
            if cur in m.structs:
                o, cur = m.fieldoff(cur, iv); parts.append((1, o)); continue
            import re
            mm = re.match(r'^[\[<](\d+) x (.*)[\]>]$', cur)
            if not mm: raise Unsupported('gep into ' + cur)
            cur = mm.group(2); parts.append((m.sizeof(cur), iv))
        return self.ptradd(p, parts)
    def unit(self, reg):
        return {'mat': 8, 'rows': 8, 'struct': 1, 'opaque': 1}.get(reg.kind) or getattr(reg, 'es', 1)
    def ptradd(self, p, parts):
        if p.reg is None:
            if all(is_c(i) and i * s == 0 for s, i in parts): return p
            raise Unsupported('arithmetic on null')
        u = self.unit(p.reg); off = p.off; cb = 0
        for s, i in parts:
            if is_c(i):
                cb += s * sgn(i, 64)
            else:
                if s % u: 
                    raise Unsupported('pointer step of %d bytes in %r' % (s, p.reg))
                off = add(off, mul(i, s // u, 64), 64)
        if cb % u: raise Unsupported('misaligned pointer step in %r' % p.reg)
        q = cb // u
        off = sgn(off, 64) + q if is_c(off) else add(off, q, 64)
        return Ptr(p.reg, off, p.row)
    # ---- memory ----
    def load(self, st, p, ty, what=''):
        if not isinstance(p, Ptr): raise Unsupported('load from %r' % (p,))
        r = p.reg
        if r is None:
            self.oblige(st, False, 'null dereference'); raise Dead()
        if r.kind == 'struct':
            if not is_c(p.off): 
                return self.load_sym(st, p, ty)
            c = st.mem.get(r.id, {})
            if c.get('live', 1) != 1: self.oblige(st, False, 'read of freed %s' % r.name); raise Dead()
            if p.off in c:
                v = c[p.off]
                if isinstance(v, tuple) and len(v) == 3 and v[0] == 'lazy': v = v[1](v[2])
                if ty != 'ptr' and ty[0] == 'i' and isz(v) and v.size() != W(ty): raise Unsupported('load size')
                return v
            size = getattr(r, 'size', None)
            if size is not None and not self.quiet and not (0 <= p.off < size): self.oblige(st, False, 'load outside %s' % r.name); 
            if getattr(r, 'zero', False): return NULL if ty == 'ptr' else 0
            if getattr(r, 'uninit', False): return UNDEF
            if ty == 'ptr': raise Unsupported('unknown pointer field %d of %r' % (p.off, r))
            v = fresh('fld_%s_%d' % (r.name, p.off), W(ty)); c = dict(c); c[p.off] = v; st.mem[r.id] = c; return v
        if r.kind == 'rows':
            row = self.idx32(p.off)
            self.bound(st, p.off, r.mat.nrows, 'row index of %s' % r.mat.name)
            if getattr(r.mat, 'rowmap', None): return r.mat.rowmap(row)
            return Ptr(r.mat, 0, row)
        if r.kind == 'mat':
            if ty == '<2 x i64>':
                return (self.load(st, p, 'i64'), self.load(st, Ptr(r, add(p.off, 1, 64), p.row), 'i64'))
            if r.view != 'W': raise Unsupported('word access to %s in element view' % r.name)
            if W(ty) != 64: raise Unsupported('partial word load')
            self.bound(st, p.off, r.width, 'word index of %s' % r.name)
            return st.mem[r.id].read(p.row, self.idx32(p.off))
        if r.kind == 'arr':
            if ty != 'ptr' and W(ty) != r.es * 8: raise Unsupported('array element size')
            if r.length is not None: self.bound(st, p.off, r.length, 'index of %s' % r.name)
            m = st.mem[r.id]
            if isinstance(m, dict):
                if not is_c(p.off): raise Unsupported('symbolic index into %s' % r.name)
                return m[p.off]
            return m.read(0, self.idx32(p.off))
        raise Unsupported('load from %r' % r)
    def load_sym(self, st, p, ty): raise Unsupported('symbolic offset in %r' % p.reg)
    def idx32(self, off): return off & mask(32) if is_c(off) else trunc(off, 64, 32)
    def bound(self, st, off, n, what):
        """0 <= off < n  (64-bit offset, 32-bit count)"""
        if is_c(off) and is_c(n): self.oblige(st, 0 <= sgn(off, 64) < n, what); return
        self.oblige(st, cmp('ult', off, zext(n, 32, 64) if isz(n) else n, 64), what)
    def store(self, st, v, p, ty):
        if not isinstance(p, Ptr): raise Unsupported('store to %r' % (p,))
        r = p.reg
        if r is None: self.oblige(st, False, 'null dereference'); raise Dead()
        if r.kind == 'struct':
            if not is_c(p.off): raise Unsupported('symbolic store offset in %r' % r)
            if getattr(r, 'size', None) is not None and not (0 <= p.off < r.size): self.oblige(st, False, 'store outside %s' % r.name)
            c = dict(st.mem.get(r.id, {})); c[p.off] = v; st.mem[r.id] = c
            if c.get('live', 1) != 1: self.oblige(st, False, 'write to freed %s' % r.name); raise Dead()
            if getattr(r, 'const', False): self.oblige(st, False, 'the constant operand %s is written' % r.name, 'frame')
            return
        if r.kind == 'mat':
            if ty == '<2 x i64>':
                self.store(st, v[0], p, 'i64'); self.store(st, v[1], Ptr(r, add(p.off, 1, 64), p.row), 'i64'); return
            if r.view != 'W': raise Unsupported('word access to %s in element view' % r.name)
            if W(ty) != 64: raise Unsupported('partial word store')
            self.bound(st, p.off, r.width, 'word index of %s (store)' % r.name)
            if getattr(r, 'const', False): self.oblige(st, False, 'store into the constant operand %s' % r.name, 'frame')
            st.mem[r.id] = st.mem[r.id].store(p.row, self.idx32(p.off), v); return
        if r.kind == 'arr':
            if r.length is not None: self.bound(st, p.off, r.length, 'index of %s (store)' % r.name)
            if ty != 'ptr' and W(ty) != r.es * 8: raise Unsupported('array element size')
            m = st.mem[r.id]
            if isinstance(m, dict):
                if not is_c(p.off): raise Unsupported('symbolic index into %s' % r.name)
                m = dict(m); m[p.off] = v; st.mem[r.id] = m; return
            if isinstance(v, (Ptr, Undef, Opaque)): raise Unsupported('pointer stored into %s' % r.name)
            st.mem[r.id] = m.store(0, self.idx32(p.off), v); return
        raise Unsupported('store to %r' % r)
    # ---- decisions ----
    def decide(self, st, c):
        """True / False / None (both possible)"""
        if isinstance(c, bool): return c
        n = norm(c)
        if isinstance(n, bool): return n
        for x in st.pc:
            if isz(x):
                if x.eq(n) or x.eq(c): return True
                if z3.is_not(x) and (x.arg(0).eq(n) or x.arg(0).eq(c)): return False
                if z3.is_not(n) and n.arg(0).eq(x): return False
        key = (tuple(x.get_id() for x in st.pc if isz(x)), n.get_id())
        r = self.dcache.get(key, 0)
        if r != 0: return r
        r = None
        if not sat(list(st.pc) + [n], self.feas_timeout): r = False
        elif not sat(list(st.pc) + [z3.Not(n)], self.feas_timeout): r = True
        self.dcache[key] = r; self.dkeep.append((st.pc, n)); return r
    dcache = {}; dkeep = []
    # ---- merging ----
    def merge_val(self, c, a, b, ty=None):
        if a is b: return a
        if hasattr(a, 'merge'): return a.merge(c, b)
        if hasattr(b, 'merge'): return None
        if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) if isz(a) else isinstance(a, bool):
            if isinstance(a, bool) and a == b and isinstance(b, bool): return a
            return norm(z3.If(c, zb(a), zb(b)))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.reg is not b.reg: return None
            ra, rb = a.row, b.row
            off = a.off if is_c(a.off) and is_c(b.off) and a.off == b.off else (None if a.reg is None or a.reg.kind == 'struct' else ite(c, a.off, b.off, 64))
            if off is None: return None
            row = ra
            if ra is not rb and not (is_c(ra) and is_c(rb) and ra == rb): row = ite(c, ra, rb, 32)
            return Ptr(a.reg, off, row)
        if isinstance(a, (Ptr, Fn, Opaque, Undef)) or isinstance(b, (Ptr, Fn, Opaque, Undef)):
            if isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name: return a
            if isinstance(a, Undef) and not isinstance(b, Ptr): return b
            if isinstance(b, Undef) and not isinstance(a, Ptr): return a
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.what == b.what: return a
            return None
        if isinstance(a, tuple): 
            r = tuple(self.merge_val(c, x, y) for x, y in zip(a, b)); return None if any(x is None for x in r) else r
        if is_c(a) and is_c(b):
            if a == b: return a
            if self.split_consts: return None
            return ('int', a, b)
        return ite(c, a, b, a.size() if isz(a) else b.size())
    def merge2(self, s1, s2, live, types):
        i = 0
        while i < len(s1.pc) and i < len(s2.pc) and (s1.pc[i] is s2.pc[i] or (isz(s1.pc[i]) and isz(s2.pc[i]) and s1.pc[i].eq(s2.pc[i]))): i += 1
        r1, r2 = s1.pc[i:], s2.pc[i:]
        c1 = And(*r1); c2 = And(*r2)
        if s1.facts is not s2.facts and s1.facts != s2.facts:
            n = 0
            while n < len(s1.facts) and n < len(s2.facts) and s1.facts[n] is s2.facts[n]: n += 1
            facts = s1.facts[:n] + tuple((t, T, z3.Implies(zb(c1), zb(f))) for t, T, f in s1.facts[n:]) + tuple((t, T, z3.Implies(zb(c2), zb(f))) for t, T, f in s2.facts[n:])
        else: facts = s1.facts
        if c1 is True or c2 is True:
            # one path condition implies the other: cannot separate them by c1
            if c1 is True and c2 is True: c1 = None
            elif c1 is True: c1 = Not(c2)
        env = {}
        for k in live:
            if k in s1.env and k in s2.env:
                a, b = s1.env[k], s2.env[k]
                if a is b: env[k] = a; continue
                if is_c(a) and is_c(b) and a == b and isinstance(a, bool) == isinstance(b, bool): env[k] = a; continue
                if isz(a) and isz(b) and a.eq(b): env[k] = a; continue
                if c1 is None: return None
                v = self.merge_val(c1, a, b)
                if v is None: return None
                if isinstance(v, tuple) and v and v[0] == 'int': v = ite(c1, a, b, types.get(k, 64))
                env[k] = v
        mem = {}
        for k in set(s1.mem) | set(s2.mem):
            a, b = s1.mem.get(k), s2.mem.get(k)
            if a is b: mem[k] = a; continue
            if a is None or b is None: mem[k] = a if b is None else b; continue
            if isinstance(a, Mem) and isinstance(b, Mem):
                if c1 is None: return None
                mem[k] = Mem.ite(c1, a, b)
            elif isinstance(a, dict) and isinstance(b, dict):
                d = {}
                for f in set(a) | set(b):
                    x, y = a.get(f), b.get(f)
                    if x is y or (is_c(x) and is_c(y) and x == y): d[f] = x; continue
                    if x is None or y is None: d[f] = x if y is None else y; continue
                    if isinstance(x, tuple) or isinstance(y, tuple): return None
                    if isz(x) and isz(y) and x.eq(y): d[f] = x; continue
                    if c1 is None: return None
                    v = self.merge_val(c1, x, y)
                    if v is None: return None
                    if isinstance(v, tuple): return None
                    d[f] = v
                mem[k] = d
            else:
                h = getattr(a, 'merge', None)
                v = h(c1, b) if h else None
                if v is None: return None
                mem[k] = v
        d = Or(c1 if c1 is not None else True, c2)
        if d is not True:
            d = norm(d)
            if d is not True and len(r1) == 1 and len(r2) == 1 and isz(r1[0]) and isz(r2[0]) and (zb(Not(r1[0])).eq(r2[0]) or zb(Not(r2[0])).eq(r1[0])): d = True
        st = State(env, mem, s1.pc[:i] + (() if d is True else (d,)), facts); st.prev = None
        return st
    def merge(self, f, blk, sts):
        live = set(f.live[blk]) | {p.name for p in f.phis[blk]}
        if len(sts) == 1 or self.no_merge: return sts
        out = []
        for s in sts:
            for i, o in enumerate(out):
                m = self.merge2(o, s, live, f.types)
                if m is not None: out[i] = m; break
            else: out.append(s)
        return out
    # ---- running ----
    def enter(self, f, frm, to, st):
        """take the edge frm->to: evaluate phis"""
        ph = f.phis[to]
        if ph:
            vals = []
            for p in ph:
                for v, b in p.a:
                    if b == frm: vals.append(self.ev(st, v, None if p.ty in ('ptr',) or p.ty.startswith('<') or p.ty == 'double' else W(p.ty))); break
                else: raise Unsupported('phi')
            for p, v in zip(ph, vals): 
                if p.ty == 'i1' and is_c(v) and not isinstance(v, bool): v = bool(v & 1)
                st.env[p.name] = v
        st.prev = frm
        return st
    def call_function(self, name, args, st, mod=None, hidden=False):
        """inline execution; returns list of (ret, state)"""
        m = self.find(name, mod)
        if m is None: raise Unsupported('no body for ' + name)
        f = m.func(name)
        if not hasattr(f, 'types'):
            f.types = {p: (1 if t == 'i1' else W(t) if t[0] == 'i' else 64) for p, t in f.params}
            for b in f.rpo:
                for i in f.blocks[b]:
                    if i.name and i.ty and i.ty[0] == 'i' and i.ty[1:].isdigit(): f.types[i.name] = W(i.ty)
        self.depth += 1
        if self.depth > 12: raise Unsupported('recursion in ' + name)
        saved = (getattr(self, 'mod', None), getattr(self, 'fn', None), getattr(self, 'varargs', None)); self.mod, self.fn = m, f
        self.varargs = args[len(f.params):]
        env = {p: a for (p, t), a in zip(f.params, args)}
        st2 = State(env, st.mem if isinstance(st.mem, dict) else st.mem, st.pc, st.facts); st2.mem = dict(st.mem)
        rets = []
        try:
            out = self.run_region(f, set(f.rpo), f.order[0], [st2], None, rets)
            if out: raise Unsupported('fell out of function')
        finally:
            self.depth -= 1; self.mod, self.fn, self.varargs = saved
        res = []
        # merge returns
        for v, s in rets:
            s = State({'!ret': v}, s.mem, s.pc, s.facts)
            for i, (o) in enumerate(res):
                mm = None if self.no_merge else self.merge2(o, s, ['!ret'], {'!ret': (W(f.ret) if f.ret[0] == 'i' else 64)})
                if mm is not None: res[i] = mm; break
            else: res.append(s)
        out = []
        for s in res:
            v = s.env['!ret']; n = State(st.env if len(res) == 1 else dict(st.env), s.mem, s.pc, s.facts); out.append((v, n))
        return out
    def run_region(self, f, blocks, entry, sts, loophdr, rets):
        """execute `blocks` from `entry`; returns list of (from, to, state) for edges leaving the region or going back to loophdr"""
        pend = {entry: list(sts)}; out = []
        inner = {}
        for h, L in f.loops.items():
            if h in blocks and h != loophdr and L.blocks <= blocks: 
                inner[h] = L
        top = {h: L for h, L in inner.items() if not any(M is not L and h in M.blocks and M.header in inner for M in inner.values())}
        skip = set()
        for L in top.values(): skip |= L.blocks - {L.header}
        def push(frm, to, st):
            if to == loophdr or to not in blocks: out.append((frm, to, st))
            else: pend.setdefault(to, []).append(self.enter(f, frm, to, st))
        order = [b for b in f.rpo if b in blocks]
        # blocks after a loop must come after all its blocks: RPO guarantees it for reducible graphs
        for b in order:
            if b in skip or b not in pend: continue
            S = self.merge(f, b, pend.pop(b))
            if b in top:
                for st in S:
                    for (frm, to, s2) in self.do_loop(f, top[b], st, rets): push(frm, to, s2)
                continue
            for st in S:
                for (to, s2) in self.exec_block(f, b, st, rets): push(b, to, s2)
        if pend: raise Unsupported('irreducible control flow')
        return out
    def exec_block(self, f, b, st, rets, i0=0):
        ins = f.blocks[b]; i = i0
        while i < len(ins):
            x = ins[i]; self.tick()
            if x.op == 'phi': i += 1; continue
            if x.op == 'call':
                try: res = self.do_call(st, x)
                except Dead: return []
                if len(res) == 1:
                    v, st = res[0]
                    if x.name: st.env[x.name] = v
                    i += 1; continue
                out = []
                for v, s in res:
                    s.env = dict(s.env)
                    if x.name: s.env[x.name] = v
                    out += self.exec_block(f, b, s, rets, i + 1)
                return out
            if x.op == 'ret':
                w = None if x.ty in ('void', 'ptr', 'double') else W(x.ty)
                rets.append((self.ev(st, x.a[0], w) if x.a else None, st)); return []
            if x.op == 'jmp': return [(x.a[0], st)]
            if x.op == 'br':
                c = self.ev(st, x.a[0])
                if is_c(c) and not isinstance(c, bool): c = bool(c)
                if isinstance(c, (Undef, Opaque)): raise Unsupported('branch on unknown value')
                d = self.decide(st, c)
                if d is True: return [(x.a[1], st)]
                if d is False: return [(x.a[2], st)]
                if x.a[1] == x.a[2]: return [(x.a[1], st)]
                s2 = st.copy(); c = norm(c)
                return [(x.a[1], st.assume(c)), (x.a[2], s2.assume(Not(c)))]
            if x.op == 'switch':
                v = self.ev(st, x.a[0], W(x.ty)); w = W(x.ty); v = norm(v)
                if is_c(v):
                    for cst, lab in x.a[2]:
                        if cst & mask(w) == v & mask(w): return [(lab, st)]
                    return [(x.a[1], st)]
                outs = []; rest = []; bylab = {}
                for cst, lab in x.a[2]: bylab.setdefault(lab, []).append(cmp('eq', v, cst, w)); rest.append(cmp('eq', v, cst, w))
                for lab, cs in bylab.items():
                    c = Or(*cs)
                    if c is False: continue
                    s2 = st.copy()
                    d = self.decide(st, c)
                    if d is False: continue
                    outs.append((lab, s2.assume(c)))
                dc = And(*[Not(c) for c in rest])
                if self.decide(st, dc) is not False: outs.append((x.a[1], st.copy().assume(dc)))
                return outs
            if x.op == 'unreachable': return []
            try: self.exec_instr(st, x)
            except Dead: return []
            i += 1
        raise Unsupported('block without terminator')
    def exec_instr(self, st, x):
        op = x.op; env = st.env
        if op in ir.BIN:
            if x.ty == 'double': env[x.name] = Opaque('float'); return
            if x.ty.startswith('<'):
                a, b = self.ev(st, x.a[0]), self.ev(st, x.a[1]); F = {'xor': xor, 'and': and_, 'or': or_}.get(op)
                if not F: raise Unsupported('vector ' + op)
                env[x.name] = tuple(F(p, q, 64) for p, q in zip(a, b)); return
            if x.ty == 'i1':
                a, b = self.ev(st, x.a[0], 1), self.ev(st, x.a[1], 1)
                a = bool(a) if is_c(a) else a; b = bool(b) if is_c(b) else b
                r = {'and': lambda: And(a, b), 'or': lambda: Or(a, b), 'xor': lambda: norm(z3.Xor(zb(a), zb(b)))}.get(op)
                if not r: raise Unsupported('i1 ' + op)
                env[x.name] = r(); return
            w = W(x.ty); a, b = self.ev(st, x.a[0], w), self.ev(st, x.a[1], w)
            if isinstance(a, (Undef, Opaque, Ptr)) or isinstance(b, (Undef, Opaque, Ptr)):
                h = self.oddop(st, x, a, b, w)
                env[x.name] = h; return
            if op in ('sdiv', 'udiv', 'srem', 'urem') and not (is_c(b) and b):
                if is_c(b): self.oblige(st, False, 'division by zero'); raise Dead()
                self.oblige(st, Not(cmp('eq', b, 0, w)), 'division by zero')
            if op in ('shl', 'lshr', 'ashr') and not is_c(b):
                self.oblige(st, cmp('ult', b, w, w), 'shift amount')
            F = {'add': add, 'sub': sub, 'mul': mul, 'xor': xor, 'and': and_, 'or': or_, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'sdiv': sdiv, 'udiv': udiv, 'srem': srem, 'urem': urem}[op]
            r = F(a, b, w)
            if r is None: self.oblige(st, False, 'shift amount'); raise Dead()
            if isz(r) and w <= 64 and op not in ('xor', 'and', 'or'): r = self.light(r)
            env[x.name] = r; return
        if op == 'icmp':
            pred = x.a[0]
            if x.ty == 'ptr':
                a, b = self.ev(st, x.a[1]), self.ev(st, x.a[2]); env[x.name] = self.ptrcmp(pred, a, b); return
            if x.ty == 'i1':
                a, b = self.ev(st, x.a[1], 1), self.ev(st, x.a[2], 1); a = bool(a) if is_c(a) else a; b = bool(b) if is_c(b) else b
                e = norm(zb(a) == zb(b)); env[x.name] = e if pred == 'eq' else Not(e); return
            w = W(x.ty); a, b = self.ev(st, x.a[1], w), self.ev(st, x.a[2], w)
            if isinstance(a, (Undef, Opaque)) or isinstance(b, (Undef, Opaque)): env[x.name] = fresh_bool('cmp'); return
            env[x.name] = cmp(pred, a, b, w); return
        if op == 'select':
            c = self.ev(st, x.a[0], 1); c = bool(c) if is_c(c) else c; c = norm(c) if isz(c) else c
            w = None if x.ty == 'ptr' else W(x.ty)
            a, b = self.ev(st, x.a[1], w), self.ev(st, x.a[2], w)
            if x.ty == 'i1':
                a = bool(a) if is_c(a) else a; b = bool(b) if is_c(b) else b
            if c is True: env[x.name] = a; return
            if c is False: env[x.name] = b; return
            if x.ty == 'i1': env[x.name] = norm(z3.If(c, zb(a), zb(b))); return
            if x.ty == 'ptr':
                v = self.merge_val(c, a, b)
                if v is None:
                    d = self.decide(st, c)
                    if d is None: raise Unsupported('select of pointers')
                    v = a if d else b
                env[x.name] = v; return
            env[x.name] = ite(c, a, b, w); return
        if op in ir.CAST:
            o, t0 = x.a; a = self.ev(st, o, None if t0 in ('ptr', 'double') or t0[0] == '<' else W(t0))
            if op in ('zext', 'sext', 'trunc'):
                w1 = W(x.ty)
                if t0 == 'i1':
                    if is_c(a): env[x.name] = (int(bool(a)) if op == 'zext' else -int(bool(a))) & mask(w1)
                    else: env[x.name] = z3.If(a, C(1 if op == 'zext' else mask(w1), w1), C(0, w1))
                    return
                if isinstance(a, (Undef, Opaque)): env[x.name] = fresh('cast', w1); return
                w0 = W(t0)
                if op == 'trunc' and w1 == 1: env[x.name] = norm(bv(trunc(a, w0, 1), 1) == 1) if isz(a) else bool(a & 1); return
                env[x.name] = {'zext': zext, 'sext': sext, 'trunc': trunc}[op](a, w0, w1); return
            if op == 'ptrtoint':
                if isinstance(a, Ptr) and a.reg is not None and a.reg.kind == 'mat':
                    base = fresh('addr_' + a.reg.name, 64)
                    b = getattr(a.reg, 'addr', None)
                    if b is None: b = a.reg.addr = z3.Function('addr_%d' % a.reg.id, z3.BitVecSort(32), z3.BitVecSort(64))
                    env[x.name] = add(b(bv(a.row, 32)), mul(a.off, 8, 64), 64); return
                env[x.name] = fresh('addr', 64); return
            if op in ('sitofp', 'uitofp'): env[x.name] = Opaque('float'); return
            if op in ('fptosi', 'fptoui'): env[x.name] = fresh('fp', W(x.ty)); return
            if op == 'bitcast': env[x.name] = a; return
            raise Unsupported(op)
        if op == 'load': 
            v = self.load(st, self.ev(st, x.a[0]), x.ty)
            if x.ty == 'i1' and is_c(v): v = bool(v)
            env[x.name] = v; return
        if op == 'store':
            w = None if x.ty in ('ptr', 'double') or x.ty[0] in '<[' else W(x.ty)
            self.store(st, self.ev(st, x.a[0], w), self.ev(st, x.a[1]), x.ty); return
        if op == 'getelementptr': env[x.name] = self.gep(st, self.ev(st, x.a[0]), x.ty, x.a[1:]); return
        if op == 'alloca':
            sz = self.mod.sizeof(x.ty)
            if x.a and not x.a[0].startswith('align'): raise Unsupported('dynamic alloca')
            r = Region('struct', 'alloca_' + x.name, size=sz, uninit=True); st.mem[r.id] = {}; env[x.name] = Ptr(r, 0); return
        if op == 'fcmp': env[x.name] = fresh_bool('fcmp'); return
        if op == 'extractelement':
            v = self.ev(st, x.a[0]); i = self.ev(st, x.a[1], 64); env[x.name] = v[i]; return
        if op == 'insertelement':
            v = self.ev(st, x.a[0]); i = self.ev(st, x.a[2], 64); v = list(v) if isinstance(v, tuple) else [0, 0]; v[i] = self.ev(st, x.a[1], 64); env[x.name] = tuple(v); return
        if op == 'freeze': env[x.name] = self.ev(st, x.a[0]); return
        raise Unsupported('instruction ' + x.raw)
    def light(self, r):
        s = simp(r); return val(s)
    def oddop(self, st, x, a, b, w):
        raise Unsupported('operation on %r %r: %s' % (a, b, x.raw))
    def ptrcmp(self, pred, a, b):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            if isinstance(a, Fn) or isinstance(b, Fn):
                e = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
                return e if pred == 'eq' else not e
            raise Unsupported('pointer comparison')
        if pred not in ('eq', 'ne'):
            if a.reg is not b.reg: raise Unsupported('pointer order')
            return cmp(pred, a.off, b.off, 64)
        if a.reg is not b.reg: e = False
        elif a.reg is None: e = True
        else:
            e = cmp('eq', a.off, b.off, 64)
            if a.row is not None and b.row is not None: e = And(e, cmp('eq', a.row, b.row, 32))
        return e if pred == 'eq' else Not(e)
    def do_call(self, st, x):
        tgt, args = x.a
        vals = [self.ev(st, o, None if t in ('ptr', 'double') or t[0] == '<' else W(t)) for t, o in args]
        if tgt.startswith('%'):
            fp = st.env[tgt[1:]]
            if not isinstance(fp, Fn): raise Unsupported('indirect call')
            name = fp.name
        else: name = tgt[1:]
        return self.invoke(st, name, vals, x)
    def invoke(self, st, name, vals, x=None):
        if name.startswith('llvm.'):
            b = name.split('.')[1]
            if b in ('lifetime', 'dbg', 'assume', 'va_end'): return [(None, st)]
            if b == 'expect': return [(vals[0], st)]
            if b == 'fshl':
                w = W(x.ty); a, c, s = vals
                if is_c(s):
                    s %= w
                    return [(or_(shl(a, s, w), lshr(c, w - s, w) if s else 0, w), st)]
                raise Unsupported('fshl')
            if b == 'abs':
                a = vals[0]; w = W(x.ty)
                if is_c(a): return [(abs(sgn(a, w)) & mask(w), st)]
                return [(a if nonneg(a, w) else z3.If(a < 0, -a, a), st)]
            if b in ('smax', 'smin', 'umax', 'umin'):
                w = W(x.ty); a, c = vals
                p = {'smax': 'sge', 'smin': 'sle', 'umax': 'uge', 'umin': 'ule'}[b]
                return [(ite(norm(zb(cmp(p, a, c, w))), a, c, w), st)]
            if b == 'va_start':
                p = vals[0]; r = Region('struct', 'varargs', size=8 * len(self.varargs)); st.mem[r.id] = {8 * i: v for i, v in enumerate(self.varargs)}
                d = dict(st.mem.get(p.reg.id, {})); d[0] = 48; d[4] = 304; d[8] = Ptr(r, 0); d[16] = NULL; st.mem[p.reg.id] = d; return [(None, st)]
            if b == 'ceil': return [(Opaque('float'), st)]
            if b == 'memset': return self.memset(st, vals)
            if b == 'memcpy': return self.memcpy(st, vals)
            raise Unsupported('intrinsic ' + name)
        h = self.contracts.get(name)
        if h:
            self.applied.add(name)
            r = h(self, st, vals)
            return r if isinstance(r, list) else [(r, st)]
        m = self.find(name, self.mod)
        if m is not None:
            self.inlined.add(name)
            return self.call_function(name, vals, st, self.mod)
        h = self.externs.get(name)
        if h:
            self.applied.add(name)
            r = h(self, st, vals); return r if isinstance(r, list) else [(r, st)]
        raise Unsupported('call to ' + name)
    def memset(self, st, v): raise Unsupported('memset')
    def memcpy(self, st, v): raise Unsupported('memcpy')
    # ---- loops ----
    MAXUNROLL = 4200; name_trips = False; sym_first = False; split_consts = False; no_merge = False
    def do_loop(self, f, L, st, rets):
        """returns list of (from, to, state) of the edges leaving the loop"""
        exits = []; cur = [st]; n = 0
        base_ops = self.ops
        inv = self.loop_rule(f, L, st)
        if inv is not None: return inv
        if self.sym_first:
            nob, nd, nr = len(self.obs), [len(x) for x in self.defer], len(rets)
            try: return self.sym_loop(f, L, st, rets)
            except Unsupported as e:
                self.loopinfo.append('%s: %s: %s' % (f.name, L.header, e)); del self.obs[nob:], rets[nr:]
                for x, k in zip(self.defer, nd): del x[k:]
        while True:
            nxt = []; ok = True; ex = []; r2 = []
            for s in cur:
                q = len(self.obs); self.probe = True
                res = self.run_region(f, L.blocks, L.header, [s.copy()], L.header, r2)
                for frm, to, s2 in res:
                    if to == L.header: nxt.append((frm, s2))
                    else: ex.append((frm, to, s2))
            if n == 0 and nxt and (ex or r2) and not self.sym_first:
                # data dependent trip count from the start: summarise
                try:
                    return self.sym_loop(f, L, st, rets)
                except Unsupported as e:
                    self.loopinfo.append('%s: %s: %s' % (f.name, L.header, e))
                    if not self.unroll_hint and (ex or r2): raise
            rets += r2; exits += ex
            if not nxt: break
            n += 1
            if nxt and (ex or r2) and n > max(self.unroll_hint, 1):
                if n > 1 and not self.unroll_hint:
                    # concrete so far, symbolic later: summarise from the start, or from here
                    if n <= 3:
                        nob = len(self.obs)
                        try: return self.sym_loop(f, L, st, rets)
                        except Unsupported as e: del self.obs[nob:]
                    sts = self.merge(f, L.header, [self.enter(f, frm, L.header, s) for frm, s in nxt])
                    out = exits
                    for s in sts: out = out + self.sym_loop(f, L, s, rets)
                    return out
                raise Unsupported('loop %s of %s needs more than %d iterations' % (L.header, f.name, n))
            if n > self.MAXUNROLL: raise Unsupported('unrolling')
            cur = self.merge(f, L.header, [self.enter(f, frm, L.header, s) for frm, s in nxt])
            if self.unroll_hint:
                cur = [s for s in cur if sat(list(s.pc), 2000)]
                if not cur: break
        return exits
    def loop_rule(self, f, L, st): return None
    def sym_loop(self, f, L, st0, rets):
        hdr = L.header; phis = f.phis[hdr]
        init = {p.name: st0.env[p.name] for p in phis}
        # ---- pass 1: shape of the header variables
        s = st0.copy(); ph = {}
        for p in phis:
            v = init[p.name]
            if p.ty == 'ptr':
                if not isinstance(v, Ptr): raise Unsupported('pointer variable in loop')
                if v.reg is None or v.reg.kind in ('struct', 'opaque'): ph[p.name] = v; continue
                c = fresh('phi_' + p.name, 64); ph[p.name] = Ptr(v.reg, c, v.row)
            elif p.ty == 'double': ph[p.name] = v
            elif p.ty == 'i1': raise Unsupported('boolean loop variable')
            else: ph[p.name] = fresh('phi_' + p.name, W(p.ty), 0, 1 << 30) if W(p.ty) == 32 else fresh('phi_' + p.name, W(p.ty))   # the range is a guess: the second pass checks the steps
            s.env[p.name] = ph[p.name]
        markers = {}
        def mark(s, only=None):
            for rid, m in list(s.mem.items()):
                if isinstance(m, Mem) and (only is None or rid in only):
                    mk = markers.get(rid)
                    if mk is None:
                        fn = z3.Function(freshname('PRE'), z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(m.w))
                        mb = Mem.base(lambda r, k, fn=fn: fn(bv(r, 32), bv(k, 32)), m.w)
                        # what is known about the initial contents is not assumed inside the loop, except class invariants
                        inv = getattr(self.regs.get(rid), 'inv', None) if hasattr(self, 'regs') else None
                        if inv: UFAX[fn.name()] = inv
                        mk = markers[rid] = (fn, mb, m)
                    s.mem[rid] = mk[1]
        mark(s)
        self.quiet += 1
        try: res = self.run_region(f, L.blocks, hdr, [s], hdr, [])
        finally: self.quiet -= 1
        lat = self.latch(f, hdr, res)
        if lat is None: raise Unsupported('loop %s has no single back edge state' % hdr)
        # matrix values (whole-matrix level) the body changes: the loop is a fold over its iterations
        vregs = [k for k, v in lat.mem.items() if isinstance(v, dict) and 'V' in v and k in st0.mem and st0.mem[k].get('V') is not v['V']]
        steps = {}; nonaff = []
        phc = [x.off if isinstance(x, Ptr) else x for x in ph.values()]; phids = {x.get_id() for x in phc if isz(x)}
        for p in phis:
            v = lat.env.get('!next_' + p.name); o = ph[p.name]
            if isinstance(o, Ptr):
                if o.reg is None or o.reg.kind in ('struct', 'opaque'):
                    if not (isinstance(v, Ptr) and v.reg is o.reg and is_c(v.off) and is_c(o.off) and v.off == o.off): raise Unsupported('pointer %s changes in loop' % p.name)
                    steps[p.name] = 'const'; continue
                if not isinstance(v, Ptr) or v.reg is not o.reg or (v.row is not o.row and not (isz(v.row) and isz(o.row) and v.row.eq(o.row)) and not (is_c(v.row) and v.row == o.row)): raise Unsupported('pointer %s changes region or row in loop' % p.name)
                d = norm(sub(v.off, o.off, 64))
                if not is_c(d): raise Unsupported('pointer step of %s' % p.name)
                steps[p.name] = sgn(d, 64)
            elif p.ty == 'double': steps[p.name] = 'const'
            else:
                w = W(p.ty)
                if isinstance(v, (Ptr, Undef, Opaque)): raise Unsupported('loop variable %s' % p.name)
                d = norm(sub(v, o, w))
                if is_c(d): steps[p.name] = sgn(d, w)
                elif not self.depends(d, phids) and not any(a.decl().name() in [m[0].name() for m in markers.values()] for a in apps_of([d])): steps[p.name] = ('sym', d)
                else: nonaff.append((p, v, o, w)); steps[p.name] = None
        # ---- pass 2: generic iteration t
        t = fresh('t', 32, 0, 1 << 30)
        def at(tv):
            e = {}
            for p in phis:
                v = init[p.name]; sp = steps[p.name]
                if sp == 'const': e[p.name] = v
                elif isinstance(v, Ptr): e[p.name] = Ptr(v.reg, add(v.off, mul(zext(tv, 32, 64), sp, 64), 64), v.row)
                elif sp is None: e[p.name] = red[p.name](tv)
                else:
                    w = W(p.ty)
                    tt = tv if w == 32 else zext(tv, 32, w) if w > 32 else trunc(tv, 32, w)
                    e[p.name] = norm(add(v, mul(tt, sp if not isinstance(sp, tuple) else sp[1], w), w))
            return e
        red = {}; redinfo = []
        for p, v, o, w in nonaff:
            # xor reduction  x' = x ^ delta ;  or reduction  x' = x | delta ; previous-value  x' = g(t)
            kind, delta = self.reduction(v, o)
            if kind is None: raise Unsupported('loop variable %s of %s is not affine' % (p.name, f.name))
            o = fresh('acc_' + p.name, w); redinfo.append((p, kind, o, w)); red[p.name] = lambda tv, o=o: o
        s = st0.copy(); markers2 = {}
        touched = {rid for rid, m in markers.items() if lat.mem[rid] is not m[1]}
        s.env.update(at(t)); markers = {}; mark(s, touched)
        prevs = {}
        for k in vregs:
            import mlevel
            v0 = st0.mem[k]['V']; prevs[k] = mlevel.atom(freshname('prev'), v0.nr, v0.nc); s.mem[k] = dict(s.mem[k]); s.mem[k]['V'] = prevs[k]
        Tsym = fresh('T', 32, 0, 1 << 30)
        base = len(s.pc); s.pc = s.pc + (z3.ULT(t, Tsym),)
        npc = len(s.pc)
        rin = []; mydefer = []
        self.defer.append(mydefer)
        try: res = self.run_region(f, L.blocks, hdr, [s], hdr, rin)
        finally: self.defer.pop()
        lat = self.latch(f, hdr, res)
        if lat is None: raise Unsupported('no back edge')
        nx = at(add(t, 1, 32))
        for p in phis:
            if steps[p.name] is None or steps[p.name] == 'const': continue
            v, q = lat.env['!next_' + p.name], nx[p.name]
            if isinstance(q, Ptr):
                if not isinstance(v, Ptr) or v.reg is not q.reg: raise Unsupported('pointer %s changes region in loop' % p.name)
                v, q, w = v.off, q.off, 64
            else: w = W(p.ty)
            if prove(list(lat.pc), cmp('eq', v, q, w), 5000) != 'proved': raise Unsupported('step of %s' % p.name)
        exs = [(frm, to, x) for frm, to, x in res if to != hdr]
        excond = Or(*[And(*x.pc[npc:]) for _, _, x in exs], *[And(*x.pc[npc:]) for _, x in rin])
        if excond is False: raise Unsupported('loop without exit')
        names = {m[0].name(): rid for rid, m in markers.items()}
        changed = {rid: m for rid, m in markers.items() if lat.mem[rid] is not m[1]}
        for rid, m in lat.mem.items():
            if isinstance(m, Mem) and rid not in markers and rid in st0.mem and m is not st0.mem[rid]: raise Unsupported('memory of loop %s changes in one pass only' % hdr)
        unchanged = {m[0].name(): m[2] for rid, m in markers.items() if rid not in changed}
        def fixun(x):
            """reads of memory the loop does not change are reads of the state before it"""
            return self.replace_apps(x, {n: (lambda r, k, m=m: m.read(val(r), val(k))) for n, m in unchanged.items()})
        for k, v in lat.mem.items():
            if k not in markers and isinstance(v, dict):
                b = st0.mem.get(k)
                if b is not None and b is not v:
                    for fld in set(b) | set(v):
                        if fld == 'V' and k in prevs: continue
                        xa, xb = b.get(fld), v.get(fld)
                        if xa is xb or (is_c(xa) and is_c(xb) and xa == xb) or (isz(xa) and isz(xb) and xa.eq(xb)): continue
                        if isinstance(xa, Ptr) and isinstance(xb, Ptr) and xa.reg is xb.reg and is_c(xa.off) and is_c(xb.off) and xa.off == xb.off: continue
                        raise Unsupported('structure field changes in loop %s' % hdr)
        excond = fixun(excond)
        # ---- trip count
        Tcand = None
        if not list(deep_apps(zb(excond), names)) and not redinfo_in(excond, redinfo):
            for cand in list(self.trip_hints) + self.trip_candidates(excond, t):
                b = list(st0.pc)
                n1 = prove(b + [z3.ULT(t, bv(cand, 32))], Not(excond), 3000) == 'proved'
                if n1 and prove(b, subst_b(excond, [(t, cand)]), 3000) == 'proved': Tcand = cand; break
        if Tcand is not None and isz(Tcand) and prove(list(st0.pc), bv(Tcand, 32) == 0, 2000) == 'proved': Tcand = 0
        named = Tcand is not None and self.name_trips and isz(Tcand)
        if named:
            lo, hi = rng(Tcand, 32); VAR_RANGE[Tsym.decl().name()] = (lo, min(hi, 1 << 30)); nf = [z3.ULE(Tsym, C(min(hi, 1 << 30), 32)), zb(subst_b(excond, [(t, Tsym)])), z3.Or(Tsym == 0, zb(Not(subst_b(excond, [(t, Tsym - 1)]))))]
        T = Tcand if Tcand is not None and not named else Tsym
        pairs = [(Tsym, bv(T, 32))] if Tcand is not None and not named else []
        def fx(x): return subst_b(fixun(x), pairs) if isz(x) else x
        pct = [fx(c) for c in lat.pc[base:]]           # holds in iteration t when it is not the last
        excond = fx(excond)
        Tfacts = []
        facts = ()
        if Tcand is None:
            Tfacts = [z3.ULE(Tsym, C(1 << 30, 32))]
        if named: Tfacts = nf
        facts = ((t, T, Not(excond)),)
        bpc = list(st0.pc)
        # ---- memory summaries
        newmem = {}
        after = {}; wc = {}
        for rid, (fn, mb, pre) in changed.items():
            m = lat.mem[rid]
            after[rid] = fx(m.read(RV, KV)); wc[rid] = fx(norm(zb(m.wcond(mb))))
        allreads = []
        formed = {}      # region -> (iteration -> its contents when the iteration starts)
        def reads(x, self_of=None):
            for a, cons in deep_apps(x, names):
                rid = names.get(a.decl().name())
                if rid in changed and rid not in formed: 
                    if cons: self.keep = getattr(self, 'keep', []) + [cons]; tauc[a.get_id()] = cons
                    yield rid, a
        tauc = {}
        def formsel(tv):
            return {changed[rid][0].name(): (lambda r, k, m=G(tv): m.read(val(r), val(k))) for rid, G in formed.items()}
        def ff(x, tv=t): return self.replace_apps(x, formsel(tv)) if formed and isz(x) else x
        t2 = fresh('t2', 32, 0, 1 << 30); R2, K2 = fresh('r2'), fresh('k2')
        checked = {}
        def untouched(rid, a, extra, both=False):
            """the cell read by `a` in iteration t is not written in an earlier (or any other) iteration"""
            w2 = subst_b(wc[rid], [(RV, R2), (KV, K2)]); w2 = subst_b(w2, [(t, t2)])
            key = (rid, a.get_id(), zb(extra).get_id(), both)
            if key in checked: return checked[key]
            p2 = [subst_b(c, [(t, t2)]) for c in pct]
            rel = z3.ULT(t2, t) if not both else z3.And(t2 != t, z3.ULT(t2, bv(T, 32)))
            g = prove(bpc + pct + p2 + Tfacts + [rel, zb(extra), R2 == a.arg(0), K2 == a.arg(1)] + tauc.get(a.get_id(), []), Not(w2), 4000)
            checked[key] = g == 'proved'; self.keep = getattr(self, 'keep', []); self.keep.append((a, extra)); return checked[key]
        def pre_reads(x):
            return self.replace_apps(x, {m[0].name(): (lambda r, k, m=m: m[2].read(val(r), val(k))) for m in changed.values()})
        witness_of = {}
        # regions with a closed form: loop invariants of the function (checked here), and regions rewritten as a whole
        progress = True
        while progress:
            progress = False
            for rid, (fn, mb, pre) in changed.items():
                if rid in formed: continue
                for h in self.hints:
                    if h.functions and f.name not in h.functions: continue
                    G = h(self, f, L, st0, REG[rid], pre, bv(T, 32))
                    if G is None: continue
                    r = self.check_form(fn, pre, G, after[rid], pct, bpc, Tfacts, t, T, formsel, names, changed, formed, rid, getattr(h, 'split', None))
                    if r is True: formed[rid] = memo_form(G); progress = True; break
                    if r is not None: self.loopinfo.append('%s %s: invariant of %s: %s' % (f.name, hdr, REG[rid].name, r))
                if rid in formed: continue
                Wl = wc[rid]; Al = after[rid]
                if isz(Wl) and not self.depends(Wl, {t.get_id()}) and not list(deep_apps(Wl, names)): Al = norm(z3.substitute(bv(Al, pre.w), (Wl, z3.BoolVal(True))))
                elif Wl is not True: Wl = False
                if Wl is not False and not list(reads(Al)):
                    used = {q: formed[q] for q in formed if sum_mentions_term(Al, changed[q][0].name())}
                    A = subst_forms(self, Al, {changed[q][0].name(): g(t) for q, g in used.items()})
                    formed[rid] = memo_form(lambda tv, A=A, pre=pre, Wl=Wl: pre.upd(And(norm(Not(cmp('eq', tv, 0, 32))) if isz(tv) else tv != 0, Wl), subst_b(A, [(t, sub(tv, 1, 32))]))); progress = True
        if formed: pct = [ff(c) for c in pct]; excond = ff(excond)
        for rid, (fn, mb, pre) in changed.items():
            if rid in formed: newmem[rid] = formed[rid](T); witness_of[rid] = True; continue
            A, Wc = ff(after[rid]), ff(wc[rid])
            selfread = fn(RV, KV)
            # map rule: a cell is written by at most one iteration, given by a witness
            wit = None
            for cand in self.witnesses(Wc, t):
                if prove(bpc + pct + Tfacts + [zb(Wc)], bv(t, 32) == bv(cand, 32), 4000) == 'proved': wit = cand; break
            if wit is not None:
                witness_of[rid] = True
                for rid2, a in reads(A):
                    if rid2 == rid and a.arg(0).eq(RV) and a.arg(1).eq(KV): continue
                    if not untouched(rid2, a, Wc): raise Unsupported('iterations of loop %s of %s interfere' % (hdr, f.name))
                for rid2, a in reads(Wc):
                    if not untouched(rid2, a, True): raise Unsupported('iterations of loop %s of %s interfere' % (hdr, f.name))
                cond = And(z3.ULT(bv(wit, 32), bv(T, 32)), subst_b(pre_reads(Wc), [(t, wit)]))
                v = subst_b(pre_reads(A), [(t, wit)])
                newmem[rid] = pre.upd(norm(cond) if isz(cond) else cond, v); continue
            # accumulation rule: every iteration xors something independent of the cell
            delta = xorstrip(A, selfread)
            if delta is None: raise Unsupported('loop %s of %s: writes are neither a map nor an accumulation' % (hdr, f.name))
            for rid2, a in reads(delta):
                if not untouched(rid2, a, Wc, True) : raise Unsupported('accumulation in loop %s of %s reads what it writes' % (hdr, f.name))
            if isz(Wc) and not self.depends(Wc, {t.get_id()}) and not list(deep_apps(Wc, names)):
                # the same cells in every iteration
                delta = norm(z3.substitute(bv(delta, pre.w), (Wc, z3.BoolVal(True))))
                sm = mk_sum(t, T, bv(fx(pre_reads(delta)), pre.w), pre.w)
                newmem[rid] = pre.upd(fx(Wc), xor(pre.read(RV, KV), sm, pre.w)); continue
            body = ite(Wc, delta, 0, pre.w)
            body = fx(pre_reads(body))
            # iterations where nothing is written contribute 0
            sm = mk_sum(t, T, bv(body, pre.w), pre.w)
            newmem[rid] = pre.upd(True, xor(pre.read(RV, KV), sm, pre.w))
        for c in pct + [excond]:
            for rid2, a in reads(c):
                if not untouched(rid2, a, True): raise Unsupported('control of loop %s of %s reads what it writes' % (hdr, f.name))
        # ---- obligations of the body, for every iteration
        def settle(pc, c, what, kind):
            pc = [fx(x) for x in pc]; c = fx(zb(c)); hyp = z3.And(*[zb(x) for x in pc[base:]]) if len(pc) > base else z3.BoolVal(True)
            ok = set()
            for x in pc + [c]:
                for rid2, a in reads(x):
                    if a.get_id() not in ok and witness_of.get(rid2) and untouched(rid2, a, hyp): ok.add(a.get_id())
            if formed: pc = [ff(x) for x in pc]; c = ff(c)
            sel = {m[0].name(): (lambda r, k, m=m: (m[2].read(val(r), val(k)) if m[0](r, k).get_id() in ok else m[0](r, k))) for m in changed.values()}
            pc = [self.replace_apps(x, sel) if isz(x) else x for x in pc]; c = self.replace_apps(c, sel)
            self.settle(pc + Tfacts, norm(c), what, kind)
        for ob in mydefer: settle(*ob)
        # ---- scalar reductions
        redval = {}
        for p, kind, o, w in redinfo:
            v = fx(lat.env['!next_' + p.name]); k2, delta = self.reduction(v, o)
            if k2 != kind or (delta is not None and self.depends(delta, {o.get_id()})): raise Unsupported('reduction')
            for rid2, a in reads(delta):
                if not untouched(rid2, a, True): raise Unsupported('reduction in loop %s reads what it writes' % hdr)
            delta = ff(delta); d = fx(pre_reads(delta))
            if kind == 'xor': redval[p.name] = lambda tv, d=d, p=p, w=w: xor(init[p.name], mk_sum(t, tv, bv(d, w), w), w)
            elif kind == 'or':
                x = fresh('ored', w); redval[p.name] = lambda tv, x=x, p=p, w=w: or_(init[p.name], x, w)
                facts = facts + ((t, T, subst_b((bv(d, w) & ~x) == 0, [])),)
                zi = fresh('orw', 32)   # if some bit is set some iteration set it
                Tfacts.append(z3.Or(x == 0, z3.And(z3.ULT(zi, bv(T, 32)), subst_b(bv(d, w) != 0, [(t, zi)]))))
            elif kind == 'last':
                redval[p.name] = lambda tv, d=d, p=p, w=w: ite(cmp('eq', tv, 0, 32), init[p.name], subst_b(d, [(t, sub(tv, 1, 32))]), w)
        for k, v in redval.items(): red[k] = v
        # ---- after T iterations: the partial last one
        fin = st0.copy(); fin.env.update(at(T))
        for rid, m in newmem.items(): fin.mem[rid] = m
        for k in vregs:
            import mlevel
            v0 = st0.mem[k]['V']; body = lat.mem[k]['V']
            if any(q != k and mlevel.mentions(body, prevs[q].a[0]) for q in vregs): raise Unsupported('matrices depend on each other across iterations of loop %s' % hdr)
            body = mlevel.vmap(body, lambda x: fx(x))
            if any(names.get(a.decl().name()) in changed for x in mlevel.vterms(body) for a, _ in deep_apps(x, names)): raise Unsupported('matrix value reads memory changed in loop %s' % hdr)
            fin.mem[k] = dict(fin.mem[k]); fin.mem[k]['V'] = mlevel.fold(v0.nr, v0.nc, t, T, prevs[k], body, v0)
        fin.pc = st0.pc + tuple(x for x in Tfacts)
        if Tcand is None: pass
        fin.facts = st0.facts + tuple((tv, TT, pre_reads(c) if isz(c) else c) for tv, TT, c in facts)
        ec = pre_exit = None
        outs = []; r3 = []
        res = self.run_region(f, L.blocks, hdr, [fin], hdr, r3)
        for frm, to, s2 in res:
            if to == hdr: continue
            outs.append((frm, to, s2))
        rets += r3
        return outs
    hints = []; trip_hints = []
    def check_form(self, fn, pre, G, A, pct, bpc, Tfacts, t, T, formsel, names, changed, formed, rid, split=None):
        """G(t) describes the region at the start of iteration t: holds before the loop and is kept by the body"""
        if [1 for a, _ in deep_apps(A, names) if names[a.decl().name()] not in formed and names[a.decl().name()] != rid]: return None
        R, K = fresh('Rc'), fresh('Kc'); sel = formsel(t); sel[fn.name()] = lambda r, k, m=G(t): m.read(val(r), val(k))
        cell = lambda x: subst_b(x, [(RV, R), (KV, K)])
        reg = REG[rid]; dom = [] if reg.kind == 'mat' else [R == 0]
        if reg.kind == 'mat': dom = [zb(cmp('ult', R, reg.nrows, 32)), zb(cmp('ult', K, reg.cells, 32))] if hasattr(reg, 'cells') else []
        elif reg.kind == 'arr' and reg.length is not None: dom += [zb(cmp('ult', K, reg.length, 32))]
        a, b = bv(G(0).read(R, K), pre.w), bv(pre.read(R, K), pre.w)
        r = prove(bpc + dom, a == b, 2000, 3)
        if r != 'proved': return 'not true before the loop (%s)' % r
        pc = [self.replace_apps(c, sel) if isz(c) else c for c in pct]
        hyp = bpc + pc + dom + Tfacts + [z3.ULT(t, bv(T, 32))]; goal = bv(cell(self.replace_apps(A, sel)), pre.w) == bv(G(add(t, 1, 32)).read(R, K), pre.w)
        cases = split(R, K, t) if split else None
        if cases:
            # cases: (constraints, equations used as substitutions, instances of lemmas proved elsewhere); together they cover everything (with the given terms for their variables)
            inst, cases = cases; r = prove(hyp, z3.substitute(z3.Or(*[z3.And(*(list(c) + [a == b for a, b in q])) for c, q, _ in cases]), *inst))
            if r != 'proved': return 'cases (%s)' % r
            for c, q, lem in cases:
                g = z3.substitute(goal, *q); r = prove([z3.substitute(zb(x), *q) for x in hyp + list(lem)] + list(c) + [a == b for a, b in q], z3.simplify(g), 8000)
                if r != 'proved': return 'not kept (%s) in case %s' % (r, str((c, q))[:300])
            return True
        r = prove(hyp, goal)
        if r != 'proved': return 'not kept (%s)' % r
        return True
    def depends(self, d, ids):
        st, seen = [d] if isz(d) else [], set()
        while st:
            x = st.pop()
            if x.get_id() in ids: return True
            if x.get_id() in seen: continue
            seen.add(x.get_id()); st.extend(x.children())
        return False
    def latch(self, f, hdr, res):
        S = []
        for frm, to, s in res:
            if to != hdr: continue
            s = s.copy()
            for p in f.phis[hdr]:
                for v, b in p.a:
                    if b == frm: s.env['!next_' + p.name] = self.ev(s, v, None if p.ty in ('ptr', 'double') else W(p.ty))
            S.append(s)
        if not S: return None
        live = ['!next_' + p.name for p in f.phis[hdr]]; types = {'!next_' + p.name: (64 if p.ty in ('ptr', 'double') else W(p.ty)) for p in f.phis[hdr]}
        o = S[0]
        for s in S[1:]:
            o = self.merge2(o, s, live, types)
            if o is None: return None
        return o
    def reduction(self, v, o):
        """v as a function of the previous value o"""
        if not isz(v): return 'last', v
        if not self.depends(v, {o.get_id()}): return 'last', v
        d = xorstrip(v, o)
        if d is not None and not self.depends(d, {o.get_id()}): return 'xor', d
        d = orstrip(v, o)
        if d is not None and not self.depends(d, {o.get_id()}): return 'or', d
        return None, None
    def replace_apps(self, x, fns):
        """replace applications of the given function symbols, innermost first"""
        if not isz(x): return x
        if not fns: return x
        memo = {}
        def go(e):
            i = e.get_id()
            if i in memo: return memo[i]
            if e.num_args() == 0: memo[i] = e; return e
            ch = [go(c) for c in e.children()]
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in fns:
                r = fns[e.decl().name()](*ch); r = bv(r, e.size()) if not isinstance(r, bool) else z3.BoolVal(r)
            elif e.decl().name() in SUMS and sum_mentions(e.decl().name(), fns):
                tau = fresh('tau'); b, formals = SUMS[e.decl().name()]
                body = z3.substitute(b, *([(TAU, tau)] + list(zip(formals, ch[1:]))))
                r = bv(mk_sum(tau, ch[0], bv(self.replace_apps(body, fns), e.size()), e.size()), e.size())
            elif all(a.eq(b) for a, b in zip(ch, e.children())): r = e
            else: r = e.decl()(*ch) if e.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And(*ch) if e.decl().kind() == z3.Z3_OP_AND else z3.Or(*ch))
            memo[i] = r; keepall.append(e); return r
        keepall = []
        r = go(x)
        return val(r) if z3.is_bv(r) else r
    def trip_candidates(self, ex, t):
        """candidates for the number of iterations from the comparisons in the exit condition"""
        seen, st, out = set(), [ex], []
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id()); st.extend(x.children())
            k = x.decl().kind()
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ) and z3.is_bv(x.arg(0)):
                a, b = x.arg(0), x.arg(1); w = a.size()
                for q in (a, b):
                    if z3.is_bv_value(q) and w < 32: out += [c for c in (q.as_long(), q.as_long() + 1) if c not in out]
                if w > 64 or w < 8: continue
                for p, q in ((a, b), (b, a)):
                    if self.depends(q, {t.get_id()}) or not self.depends(p, {t.get_id()}): continue
                    p0 = simp(z3.substitute(p, (t, C(0, 32)))); p1 = simp(z3.substitute(p, (t, C(1, 32))))
                    d = norm(sub(p1, p0, w))
                    if not is_c(d): d = val(simp(z3.substitute(p, (t, t + 1)) - p))
                    if not is_c(d) or d == 0: continue
                    d = sgn(d, w); dd = abs(d)
                    if w < 64:
                        ex = (lambda n, y: bv(sext(y, w, 64), 64)) if k in (z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ) else z3.ZeroExt
                        p0, q = ex(64 - w, p0), ex(64 - w, q)
                    diff = (q - p0) if d > 0 else (p0 - q)
                    z = C(0, 64)
                    for adj in (0, 1):
                        e = simp(diff + adj)
                        n = e if dd == 1 else z3.LShR(e + (dd - 1), dd.bit_length() - 1) if dd & (dd - 1) == 0 else z3.UDiv(e + (dd - 1), C(dd, 64))
                        for c in (z3.If(e > z, n, z), n):
                            c = simp(z3.Extract(31, 0, c)); out.append(val(c))
        return out
    def witnesses(self, wcnd, t):
        if not isz(wcnd): return []
        seen, st, out = set(), [wcnd], []
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id()); st.extend(x.children())
            if x.decl().kind() == z3.Z3_OP_EQ and z3.is_bv(x.arg(0)) and x.arg(0).size() == 32 and self.depends(x, {t.get_id()}):
                g = x.arg(0) - x.arg(1)
                g0 = simp(z3.substitute(g, (t, C(0, 32)))); g1 = simp(z3.substitute(g, (t, C(1, 32))))
                d = norm(sub(g1, g0, 32))
                if not is_c(d):
                    for q in (1, mask(32)):
                        if core_check([bv(d, 32) != C(q, 32)], 1000): d = q; break
                if not is_c(d) or d == 0: continue
                d = sgn(d, 32); num = simp(-g0 if d > 0 else g0); dd = abs(d)
                if dd == 1: out.append(val(num))
                elif dd & (dd - 1) == 0: out.append(val(simp(z3.LShR(num, dd.bit_length() - 1))))
            if x.decl().kind() in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ) and x.arg(0).size() == 32:
                for p, v in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                    if (v.eq(RV) or v.eq(KV)) and self.depends(p, {t.get_id()}):
                        d = norm(sub(simp(z3.substitute(p, (t, C(1, 32)))), simp(z3.substitute(p, (t, C(0, 32)))), 32))
                        if is_c(d) and 1 < sgn(d, 32) and d & (d - 1): out.append(z3.UDiv(v, C(d, 32)))
        # range-partitioned cells: t-th block of constant size
        for v in (RV, KV):
            for k in range(1, 12): out.append(z3.LShR(v, k))
        return out

def memo_form(G):
    m = {}
    def g(tv):
        k = tv if is_c(tv) else ('z', tv.get_id())
        if k not in m: m[k] = (G(tv), tv)
        return m[k][0]
    return g
def subst_forms(e, A, mems): return e.replace_apps(A, {n: (lambda r, k, m=m: m.read(val(r), val(k))) for n, m in mems.items()}) if mems and isz(A) else A
def sum_mentions_term(x, n): return isz(x) and any(a.decl().name() == n or (a.decl().name() in SUMS and sum_mentions(a.decl().name(), {n: 1})) for a in apps_of([x]))
_sm = {}
def sum_mentions(n, fns):
    b = SUMS[n][0]; r = _sm.get(n)
    if r is None: r = _sm[n] = {a.decl().name() for a in apps_of([b])}; r |= set().union(*[sum_mentions(q, None) for q in list(r) if q in SUMS] or [set()])
    return r if fns is None else bool(r & set(fns))
def deep_apps(x, names, cons=None):
    """applications of the given symbols in x, also in the summands of sums: (application, constraints on the index)"""
    if not isz(x): return
    for a in apps_of([x]):
        n = a.decl().name()
        if n in names: yield a, list(cons or [])
        if n in SUMS and sum_mentions(n, names):
            tau = fresh('tau'); yield from deep_apps(sum_body(a, tau), names, (cons or []) + [z3.ULT(tau, a.arg(0))])
def core_check(fs, to):
    import core
    return core._check(fs, to)[0] == z3.unsat
def redinfo_in(x, ri):
    return any(True for p, k, o, w in ri if isz(x) and Engine.depends(None, x, {o.get_id()}))
def subst_b(x, pairs):
    if not isz(x) or not pairs: return x
    r = z3.substitute(x, *[(a, bv(b, a.size())) for a, b in pairs])
    return val(r) if z3.is_bv(r) else r
def fresh_bool(n): return z3.Bool(freshname(n))
def xorstrip(v, o):
    """d with v == o ^ d, o not at top level of d; None if not of that shape"""
    if not isz(v): return None
    if v.eq(o): return 0
    k = v.decl().kind()
    if k == z3.Z3_OP_BXOR:
        ch = v.children(); hit = [i for i, c in enumerate(ch) if c.eq(o)]
        if len(hit) == 1:
            r = 0
            for i, c in enumerate(ch):
                if i != hit[0]: r = xor(r, val(c), o.size())
            return r if not dep(r, o) else None
        cand = [i for i, c in enumerate(ch) if dep(c, o)]
        if len(cand) == 1:
            d = xorstrip(ch[cand[0]], o)
            if d is None: return None
            for i, c in enumerate(ch):
                if i != cand[0]: d = xor(d, val(c), o.size())
            return d
        return None
    if k == z3.Z3_OP_ITE:
        if dep(v.arg(0), o): return None
        a, b = xorstrip(v.arg(1), o), xorstrip(v.arg(2), o)
        if a is None or b is None: return None
        return ite(v.arg(0), a, b, o.size())
    return None
def orstrip(v, o):
    if not isz(v): return None
    if v.eq(o): return 0
    k = v.decl().kind()
    if k == z3.Z3_OP_BOR:
        ch = v.children(); hit = [i for i, c in enumerate(ch) if dep(c, o)]
        if len(hit) == 1:
            d = orstrip(ch[hit[0]], o)
            if d is None: return None
            for i, c in enumerate(ch):
                if i != hit[0]: d = or_(d, val(c), o.size())
            return d
        return None
    if k == z3.Z3_OP_ITE:
        if dep(v.arg(0), o): return None
        a, b = orstrip(v.arg(1), o), orstrip(v.arg(2), o)
        if a is None or b is None: return None
        return ite(v.arg(0), a, b, o.size())
    return None
def dep(x, o): return isz(x) and Engine.depends(None, x, {o.get_id()})
