"""Parser for the subset of textual LLVM IR which clang makes from m4rie's sources."""
import re

class Instr:
    __slots__ = ('op', 'name', 'ty', 'a', 'raw')
    def __init__(s, op, name, ty, a, raw): s.op, s.name, s.ty, s.a, s.raw = op, name, ty, a, raw
    def __repr__(s): return s.raw

class Func:
    def __init__(s, name, params, ret, vararg): s.name, s.params, s.ret, s.vararg, s.blocks, s.order = name, params, ret, vararg, {}, []

class Unsupported(Exception): pass

TYRE = r'(?:<\d+ x [a-z0-9]+>|\[\d+ x [^\]]*\]|%[\w.]+|[a-z]+\d*|\{[^}]*\})'

def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([{<': d += 1
        elif ch in ')]}>': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def take_type(s):
    """split 'TY rest' -> (TY, rest)"""
    s = s.lstrip()
    if s[0] in '[<{':
        close = {'[': ']', '<': '>', '{': '}'}; d = 0
        for i, ch in enumerate(s):
            if ch in '[<{': d += 1
            elif ch in ']>}':
                d -= 1
                if d == 0: return s[:i + 1], s[i + 1:].lstrip()
    m = re.match(r'(%"[^"]*"|%[\w.]+|[a-z]\w*)', s)
    return m.group(1), s[m.end():].lstrip()

ATTR = re.compile(r'^(noundef|nonnull|nocapture|noalias|readonly|writeonly|signext|zeroext|returned|immarg|inreg|nofree|readnone|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|range\([^)]*\))\s*')

def strip_attrs(s):
    while True:
        m = ATTR.match(s)
        if not m: return s
        s = s[m.end():]

def operand(ty, s):
    s = s.strip()
    if s.startswith('%'): return ('r', s[1:])
    if s.startswith('@'): return ('g', s[1:])
    if s == 'null': return ('null',)
    if s in ('undef', 'poison'): return ('undef', ty)
    if s == 'true': return ('c', 1)
    if s == 'false': return ('c', 0)
    if s == 'zeroinitializer': return ('zero', ty)
    if re.match(r'^-?\d+$', s): return ('c', int(s))
    if s.startswith('<'): return ('vec', [operand(*take_type(x)) for x in split_args(s[1:-1])])
    if s.startswith('getelementptr'):
        m = re.match(r'getelementptr (?:inbounds )?\((.*)\)$', s, re.S)
        parts = split_args(m.group(1))
        bt = parts[0]; pt, po = take_type(parts[1])
        return ('cgep', bt, operand(pt, po), [operand(*take_type(x)) for x in parts[2:]])
    if re.match(r'^-?[0-9.]+e[+-]\d+$', s) or s.startswith('0x'): return ('f', s)
    raise Unsupported('operand ' + s)

BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fdiv', 'fadd', 'fmul', 'fsub'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'sitofp', 'fptosi', 'uitofp', 'bitcast', 'fptoui'}

def parse_instr(line):
    raw = line.strip()
    s = re.sub(r'(, !\w+(\.\w+)* !\d+)+$', '', raw)
    s = re.sub(r'(, !\w+(\.\w+)* !\d+)+', '', s)
    s = re.sub(r' #\d+$', '', s)
    name = None
    m = re.match(r'^%("[^"]*"|[\w.\-]+) = (.*)$', s, re.S)
    if m: name, s = m.group(1), m.group(2)
    op, _, rest = s.partition(' ')
    rest = rest.strip()
    if op in ('tail', 'notail', 'musttail'): op, _, rest = rest.partition(' ')
    if op in BIN:
        while True:
            m = re.match(r'^(nuw|nsw|exact|disjoint|fast|nnan|ninf)\s+', rest)
            if not m: break
            rest = rest[m.end():]
        ty, r = take_type(rest); a, b = split_args(r)
        return Instr(op, name, ty, [operand(ty, a), operand(ty, b)], raw)
    if op in CAST:
        rest = re.sub(r'^nneg ', '', rest)
        ty, r = take_type(rest); m = re.match(r'^(.*) to (.*)$', r, re.S)
        return Instr(op, name, m.group(2).strip(), [operand(ty, m.group(1)), ty], raw)
    if op == 'load':
        rest = rest.replace('volatile ', '')
        ty, r = take_type(rest); p = split_args(r.lstrip(', '))
        return Instr(op, name, ty, [operand(*take_type(p[0]))], raw)
    if op == 'store':
        rest = rest.replace('volatile ', '')
        p = split_args(rest); ty, v = take_type(p[0])
        return Instr(op, None, ty, [operand(ty, v), operand(*take_type(p[1]))], raw)
    if op == 'getelementptr':
        rest = re.sub(r'^(inbounds|nuw|nusw)\s+', '', rest)
        p = split_args(rest); 
        return Instr(op, name, p[0], [operand(*take_type(p[1]))] + [(take_type(x)[0], operand(*take_type(x))) for x in p[2:]], raw)
    if op == 'icmp' or op == 'fcmp':
        pred, _, r = rest.partition(' '); ty, r = take_type(r); a, b = split_args(r)
        return Instr(op, name, ty, [pred, operand(ty, a), operand(ty, b)], raw)
    if op == 'select':
        p = split_args(rest); c = operand(*take_type(p[0])); ty, a = take_type(p[1]); _, b = take_type(p[2])
        return Instr(op, name, ty, [c, operand(ty, a), operand(ty, b)], raw)
    if op == 'phi':
        ty, r = take_type(rest); inc = []
        for x in split_args(r):
            v, b = split_args(x.strip()[1:-1]); inc.append((operand(ty, v), b.strip().lstrip('%')))
        return Instr(op, name, ty, inc, raw)
    if op == 'br':
        if rest.startswith('label'): return Instr('jmp', None, None, [rest.split('%', 1)[1].strip()], raw)
        p = split_args(rest); return Instr('br', None, None, [operand('i1', p[0].split(' ', 1)[1]), p[1].split('%', 1)[1].strip(), p[2].split('%', 1)[1].strip()], raw)
    if op == 'switch':
        m = re.match(r'^(i\d+) (\S+), label %(\S+) \[(.*)\]$', rest, re.S)
        cases = [(int(c), b) for c, b in re.findall(r'i\d+ (-?\d+), label %([\w.\-]+)', m.group(4))]
        return Instr(op, None, m.group(1), [operand(m.group(1), m.group(2)), m.group(3), cases], raw)
    if op == 'ret':
        if rest == 'void': return Instr(op, None, 'void', [], raw)
        ty, v = take_type(rest); return Instr(op, None, ty, [operand(ty, v)], raw)
    if op == 'unreachable': return Instr(op, None, None, [], raw)
    if op == 'alloca':
        p = split_args(rest); return Instr(op, name, p[0], p[1:], raw)
    if op == 'call':
        r = strip_attrs(rest); ty, r = take_type(r); r = r.strip()
        if r.startswith('('):
            d = 0
            for i, ch in enumerate(r):
                d += ch == '('; d -= ch == ')'
                if d == 0: break
            r = r[i + 1:].strip()
        m = re.match(r'^([@%][\w.$\-]+|asm .*?)\((.*)\)$', r, re.S)
        if not m: raise Unsupported('call ' + raw)
        args = []
        for x in split_args(m.group(2)):
            t, v = take_type(x); v = strip_attrs(v)
            if t == 'metadata': continue
            args.append((t, operand(t, v)))
        return Instr(op, name, ty, [m.group(1), args], raw)
    if op in ('extractelement', 'insertelement', 'shufflevector', 'freeze'):
        p = split_args(rest); return Instr(op, name, None, [operand(*take_type(x)) for x in p], raw)
    raise Unsupported('instruction ' + raw)

class Module:
    def __init__(self, text):
        self.structs, self.globs, self.funcs, self._src, self.decls = {}, {}, {}, {}, set()
        lines = text.split('\n'); i = 0
        while i < len(lines):
            l = lines[i]
            m = re.match(r'^(%[\w.]+) = type \{ (.*) \}$', l)
            if m: self.structs[m.group(1)] = split_args(m.group(2))
            elif l.startswith('@'):
                m = re.match(r'^@([\w.$]+) = (.*)$', l); self.globs[m.group(1)] = m.group(2)
            elif l.startswith('declare'):
                m = re.search(r'@([\w.$]+)\(', l); self.decls.add(m.group(1))
            elif l.startswith('define'):
                m = re.search(r'@([\w.$]+)\(', l); nm = m.group(1); j = i
                while lines[j] != '}': j += 1
                self._src[nm] = lines[i:j + 1]; i = j
            i += 1
    def has(self, n): return n in self._src
    def names(self): return list(self._src)
    def func(self, n):
        if n in self.funcs: return self.funcs[n]
        src = self._src[n]; hd = src[0]
        k = hd.index('@' + n + '(') + len(n) + 2; d = 1; j = k
        while d: d += hd[j] == '('; d -= hd[j] == ')'; j += 1
        pl = split_args(hd[k:j - 1]); params, va = [], False
        for p in pl:
            if p == '...': va = True; continue
            t, r = take_type(p); r = strip_attrs(r); params.append((r.lstrip('%'), t))
        rt = hd[:hd.index('@' + n + '(')].split()[-1]
        f = Func(n, params, rt, va); cur = None; buf = None
        for l in src[1:-1]:
            m = re.match(r'^([\w.\-]+|"[^"]*"):', l)
            if m: cur = m.group(1); f.blocks[cur] = []; f.order.append(cur); continue
            l = l.split(' ; ')[0].rstrip()
            if not l.strip() or l.strip().startswith(';'): continue
            if cur is None: cur = 'entry'; f.blocks[cur] = []; f.order.append(cur)
            if buf is not None:
                buf += ' ' + l.strip()
                if l.strip().startswith(']'): f.blocks[cur].append(parse_instr(buf)); buf = None
                continue
            if l.strip().startswith('switch') and ']' not in l: buf = l.strip(); continue
            f.blocks[cur].append(parse_instr(l))
        self.funcs[n] = f; analyse(f); return f
    # ---- layout ----
    def sizeof(self, t):
        if t == 'ptr': return 8
        if t == 'double': return 8
        if t == 'float': return 4
        if re.match(r'^i\d+$', t): return max(1, int(t[1:]) // 8)
        m = re.match(r'^\[(\d+) x (.*)\]$', t)
        if m: return int(m.group(1)) * self.sizeof(m.group(2))
        m = re.match(r'^<(\d+) x (.*)>$', t)
        if m: return int(m.group(1)) * self.sizeof(m.group(2))
        if t in self.structs:
            o = 0
            for f in self.structs[t]: a = self.alignof(f); o = (o + a - 1) // a * a + self.sizeof(f)
            a = self.alignof(t); return (o + a - 1) // a * a
        raise Unsupported('sizeof ' + t)
    def alignof(self, t):
        m = re.match(r'^\[(\d+) x (.*)\]$', t)
        if m: return self.alignof(m.group(2))
        if t in self.structs: return max(self.alignof(f) for f in self.structs[t])
        return self.sizeof(t)
    def fieldoff(self, t, i):
        o = 0
        for k, f in enumerate(self.structs[t]):
            a = self.alignof(f); o = (o + a - 1) // a * a
            if k == i: return o, f
            o += self.sizeof(f)
        raise Unsupported('field')

def succs(b):
    t = b[-1]
    if t.op == 'jmp': return [t.a[0]]
    if t.op == 'br': return [t.a[1], t.a[2]]
    if t.op == 'switch': return list(dict.fromkeys([t.a[1]] + [x for _, x in t.a[2]]))
    return []

def uses(ins):
    out = []
    def w(o):
        if isinstance(o, tuple):
            if o and o[0] == 'r' and len(o) == 2 and isinstance(o[1], str): out.append(o[1])
            else:
                for x in o: w(x)
        elif isinstance(o, list):
            for x in o: w(x)
    w(ins.a)
    if ins.op == 'call' and isinstance(ins.a[0], str) and ins.a[0].startswith('%'): out.append(ins.a[0][1:])
    return out

class Loop:
    def __init__(s, h): s.header, s.blocks, s.latches, s.children, s.parent = h, {h}, [], [], None

def analyse(f):
    f.succ = {b: succs(f.blocks[b]) for b in f.order}
    f.pred = {b: [] for b in f.order}
    for b in f.order:
        for s in f.succ[b]: f.pred[s].append(b)
    # reverse postorder
    seen, po = set(), []
    def dfs(b):
        st = [(b, iter(f.succ[b]))]; seen.add(b)
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(f.succ[s]))); break
            else: po.append(x); st.pop()
    dfs(f.order[0]); rpo = po[::-1]; f.rpo = rpo; idx = {b: i for i, b in enumerate(rpo)}
    dom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            n = None
            for p in f.pred[b]:
                if p in dom:
                    if n is None: n = p
                    else:
                        x, y = p, n
                        while x != y:
                            while idx[x] > idx[y]: x = dom[x]
                            while idx[y] > idx[x]: y = dom[y]
                        n = x
            if dom.get(b) != n: dom[b] = n; ch = True
    def dominates(a, b):
        while True:
            if a == b: return True
            if b == rpo[0]: return False
            b = dom[b]
    loops = {}
    for b in rpo:
        for s in f.succ[b]:
            if dominates(s, b):
                L = loops.setdefault(s, Loop(s)); L.latches.append(b); st = [b]
                while st:
                    x = st.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x); st += [p for p in f.pred[x] if p in idx]
    f.loops = loops
    ls = sorted(loops.values(), key=lambda L: len(L.blocks))
    for i, L in enumerate(ls):
        for M in ls[i + 1:]:
            if L.header in M.blocks and L is not M: L.parent = M; M.children.append(L); break
    f.idx = idx
    # liveness (phi uses counted at the end of predecessors)
    use, df = {}, {}
    for b in rpo:
        u, d = set(), set()
        for ins in f.blocks[b]:
            if ins.op != 'phi':
                for x in uses(ins):
                    if x not in d: u.add(x)
            if ins.name: d.add(ins.name)
        use[b], df[b] = u, d
    live = {b: set() for b in rpo}; ch = True
    while ch:
        ch = False
        for b in reversed(rpo):
            out = set()
            for s in f.succ[b]:
                out |= live[s] - {i.name for i in f.blocks[s] if i.op == 'phi'}
                for i in f.blocks[s]:
                    if i.op == 'phi':
                        for v, pb in i.a:
                            if pb == b and v[0] == 'r': out.add(v[1])
            n = use[b] | (out - df[b])
            if n != live[b]: live[b] = n; ch = True
    f.live = live
    f.phis = {b: [i for i in f.blocks[b] if i.op == 'phi'] for b in rpo}
