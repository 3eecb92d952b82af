"""C13: structural operations move exactly the elements they name (also: C17 comparison, C19 permutations, C15 scalar products of slices)"""
from xl import *

def shape3(w): return w.dim('m'), w.dim('n')
def PRE(ty): return 'mzed' if ty == 'mzed' else 'mzd_slice'
def idx(w, name, lt, st=None):
    v = w.dim(name); w.pc.append(z3.ULT(v, bv(lt, 32))); return v
def idx64(v): return norm(z3.ZeroExt(32, v))

# every operation: fn name suffix, setup
def op_init(fn):
    def f(e, w):
        m, n = w.dim('m'), w.dim('n')
        def spec(e, w, s, rv):
            o = w.check_shape(s, rv, m, n, fn)
            return o if bad(o) else o + eqparts(w, s, rv, [zero(m, w.bits(n)) for _ in w.parts(s, rv)], fn)
        return [w.ff.ptr, m, n], spec, lambda rv: [rv]
    return f
def op_free(fn):
    def f(e, w):
        m, n = w.dim('m'), w.dim('n'); st = State({}, w.mem, ())
        # an object made by the library: header and parts on the heap
        h = Region('struct', 'A', size=152 if w.ty != 'mzed' else 32, heap=True)
        ps = [newmzd(e, st, m, w.bits(n)) for _ in range(w.d if w.ty != 'mzed' else 1)]
        if w.ty == 'mzed': w.mem[h.id] = {0: ps[0], 8: w.ff.ptr, 16: m, 20: n, 24: w.w, 'live': 1}
        else: w.mem[h.id] = dict({8 * i: p for i, p in enumerate(ps)}) | ({128: m, 132: n, 136: w.d, 144: w.ff.ptr, 'live': 1})
        def spec(e, w, s, rv): return [(fn + ': everything is released', 'post', 'proved' if s.mem[h.id]['live'] == 0 and all(s.mem[p.reg.id]['live'] == 0 for p in ps) else ('refuted', 'something stays allocated'))]
        return [Ptr(h, 0)], spec, []
    return f
def op_copy(fn, cnull, alias=False):
    def f(e, w):
        m, n = w.dim('m'), w.dim('n'); B = w.mat('B', m, n, not alias); A = NULL if cnull else B if alias else w.mat('A', m, n)
        def spec(e, w, s, rv):
            o = w.check_shape(s, rv, m, n, fn)
            if not cnull: o.append((fn + ': returns the destination', 'post', 'proved' if rv.reg is A.reg else ('refuted', 'another')))
            return o if bad(o) else o + eqparts(w, s, rv, w.vals(w.st0, B), fn)
        return [A, B], spec, lambda rv: [rv] if cnull else []
    return f
def op_add(fn, mode):
    """mode: '' | 'null' | 'C=A' | 'C=B' | 'A=B' | 'all'"""
    def f(e, w):
        m, n = w.dim('m'), w.dim('n')
        A = w.mat('A', m, n, mode not in ('C=A', 'all')); B = A if mode in ('A=B', 'all') else w.mat('B', m, n, mode != 'C=B')
        Cm = {'null': NULL, 'C=A': A, 'all': A, 'C=B': B}.get(mode) or w.mat('C', m, n)
        def spec(e, w, s, rv):
            o = w.check_shape(s, rv, m, n, fn)
            if mode != 'null': o.append((fn + ': returns C', 'post', 'proved' if rv.reg is Cm.reg else ('refuted', 'another')))
            return o if bad(o) else o + eqparts(w, s, rv, [vadd(x, y) for x, y in zip(w.vals(w.st0, A), w.vals(w.st0, B))], fn)
        return [Cm, A, B], spec, lambda rv: [rv] if mode == 'null' else []
    return f
def op_cat(fn, stack, cnull, alias=False):
    def f(e, w):
        m, n, q = w.dim('m'), w.dim('n'), w.dim('q')
        A = w.mat('A', m, n, True)
        if alias: B = A; R, Cc = (add(m, m, 32), n) if stack else (m, add(n, n, 32))
        else: B = w.mat('B', *((q, n) if stack else (m, q)), True); R, Cc = (add(m, q, 32), n) if stack else (m, add(n, q, 32))
        Cm = NULL if cnull else w.mat('C', R, Cc)
        def spec(e, w, s, rv):
            o = w.check_shape(s, rv, R, Cc, fn)
            if not cnull: o.append((fn + ': returns C', 'post', 'proved' if rv.reg is Cm.reg else ('refuted', 'another')))
            if bad(o): return o
            want = [upd_(upd_(zero(R, w.bits(Cc)), 0, 0, x), m if stack else 0, 0 if stack else w.bits(n), y) for x, y in zip(w.vals(w.st0, A), w.vals(w.st0, B))]
            return o + eqparts(w, s, rv, want, fn)
        return [Cm, A, B], spec, lambda rv: [rv] if cnull else []
    return f
def rect(w, m, n):
    r0, r1, c0, c1 = [w.dim(x) for x in ('r0', 'r1', 'c0', 'c1')]
    w.pc += [z3.ULE(r0, r1), z3.ULE(r1, m), z3.ULE(c0, c1), z3.ULE(c1, n)]; return r0, r1, c0, c1
def a64(w, l): return [idx64(x) if w.ty != 'mzed' else x for x in l]
def op_submatrix(fn, cnull):
    def f(e, w):
        m, n = w.dim('m'), w.dim('n'); r0, r1, c0, c1 = rect(w, m, n)
        A = w.mat('A', m, n, True); S = NULL if cnull else w.mat('S', sub(r1, r0, 32), sub(c1, c0, 32))
        def spec(e, w, s, rv):
            R, Cc = sub(r1, r0, 32), sub(c1, c0, 32); o = w.check_shape(s, rv, R, Cc, fn)
            if not cnull: o.append((fn + ': returns S', 'post', 'proved' if rv.reg is S.reg else ('refuted', 'another')))
            return o if bad(o) else o + eqparts(w, s, rv, [sub_(x, r0, w.bits(c0), R, w.bits(Cc)) for x in w.vals(w.st0, A)], fn)
        return [S, A] + a64(w, [r0, c0, r1, c1]), spec, lambda rv: [rv] if cnull else []
    return f
def op_window(fn):
    def f(e, w):
        m, n = w.dim('m'), w.dim('n'); r0, r1, c0, c1 = rect(w, m, n); w.pc.append(z3.Extract(5 if w.ty != 'mzed' else {2: 4, 4: 3, 8: 2, 16: 1}[w.w], 0, c0) == 0)
        A = w.mat('A', m, n)
        def spec(e, w, s, rv):
            R, Cc = sub(r1, r0, 32), sub(c1, c0, 32); o = w.check_shape(s, rv, R, Cc, fn)
            if bad(o): return o
            for i, (q, a) in enumerate(zip(w.parts(s, rv), w.parts(s, A))):
                o.append(('%s: part %d is a view of the source at the named place' % (fn, i), 'post', 'proved' if q.reg.root is a.reg and prove(s.pc, zb(And(cmp('eq', q.reg.r0, r0, 32), cmp('eq', q.reg.c0, w.bits(c0), 32)))) == 'proved' else ('refuted', 'elsewhere')))
            return o
        return [A] + a64(w, [r0, c0, r1, c1]), spec, lambda rv: [rv]
    return f
def op_free_window(fn):
    def f(e, w):
        m, n = w.dim('m'), w.dim('n'); A = w.mat('A', m, n); st = State({}, w.mem, tuple(w.pc))
        h = Region('struct', 'win', size=152 if w.ty != 'mzed' else 32, heap=True); ps = [e.contracts['mzd_init_window'](e, st, [p, 0, 0, m, w.bits(n)]) for p in w.parts(st, A)]
        if w.ty == 'mzed': w.mem[h.id] = {0: ps[0], 8: w.ff.ptr, 16: m, 20: n, 24: w.w, 'live': 1}
        else: w.mem[h.id] = dict({8 * i: p for i, p in enumerate(ps)}) | ({128: m, 132: n, 136: w.d, 144: w.ff.ptr, 'live': 1})
        w.mem.update(st.mem)
        def spec(e, w, s, rv): return [(fn + ': the window is released', 'post', 'proved' if s.mem[h.id]['live'] == 0 and all(s.mem[p.reg.id]['live'] == 0 for p in ps) else ('refuted', 'something stays allocated'))] + eqparts(w, s, A, w.vals(w.st0, A), fn + ': the source')
        return [Ptr(h, 0)], spec, []
    return f
def op_rows(fn, kind):
    def f(e, w):
        m, n = w.dim('m'), w.dim('n'); A = w.mat('A', m, n); B = None
        if kind in ('row_swap', 'row_add'):
            a, b = idx(w, 'a', m), idx(w, 'b', m); args = [A, a, b]
            g = (lambda v: v_rowswap(v, a, b)) if kind == 'row_swap' else (lambda v: v_rowadd(v, a, b))
        elif kind in ('col_swap', 'col_swap_in_rows'):
            a, b = idx(w, 'a', n), idx(w, 'b', n); args = [A, a, b]; k = w.k
            if kind == 'col_swap_in_rows':
                r0, r1 = w.dim('r0'), w.dim('r1'); w.pc += [z3.ULE(r0, r1), z3.ULE(r1, m)]; args += [r0, r1]
                G = lambda kk: (lambda v: v_colswap(v, w.bits(a), w.bits(b), kk, r0, r1))
            else: G = lambda kk: (lambda v: v_colswap(v, w.bits(a), w.bits(b), kk))
            # the unused high bits of the elements are zero on both sides: swapping them or not makes no difference
            ks = [w.d, w.w] if w.ty == 'mzed' else [1]
            if kind == 'col_swap': ks.reverse()
        else:
            q = w.dim('q'); a, b = idx(w, 'a', m), idx(w, 'b', q); B = w.mat('B', q, n, True)
            args = [A] + a64(w, [a]) + [B] + a64(w, [b])
        def spec(e, w, s, rv):
            v0 = w.vals(w.st0, A)
            if kind.startswith('col'):
                for kk in ks:
                    o = eqparts(w, s, A, [G(kk)(v) for v in v0], fn)
                    if not bad(o): break
                return o
            want = [g(v) for v in v0] if B is None else [v_copyrow(v, a, u, b) for v, u in zip(v0, w.vals(w.st0, B))]
            return eqparts(w, s, A, want, fn)
        return args, spec, []
    return f
def op_setui(fn):
    def f(e, w):
        m, n = w.dim('m'), w.dim('n'); A = w.mat('A', m, n); u = data('value', 64)
        def spec(e, w, s, rv):
            return eqparts(w, s, A, [scal(z3.Extract(i, i, u) == 1, ident(m, n)) for i in range(w.d)], fn)
        return [A, u], spec, []
    return f
def op_adapt(fn, new):
    def f(e, w):
        m, n = w.dim('m'), w.dim('n'); st = State({}, w.mem, ())
        h = Region('struct', 'A', size=152); ps = [newmzd(e, st, m, n, atom('A%d' % i, m, n)) for i in range(w.d)]
        w.mem[h.id] = dict({8 * i: p for i, p in enumerate(ps)}) | ({128: m, 132: n, 136: w.d, 144: w.ff.ptr})
        for i in range(w.d, 16): w.mem[h.id][8 * i] = NULL
        def spec(e, w, s, rv):
            o = [(fn + ': depth', 'post', prove(s.pc, cmp('eq', s.mem[h.id][136], new, 32)))]
            if bad(o): return o
            q = [s.mem[h.id][8 * i] for i in range(new)]
            for i in range(new):
                if not isinstance(q[i], Ptr) or q[i].reg is None: o.append((fn + ': slice %d' % i, 'post', ('refuted', 'missing'))); continue
                o.append((fn + ': slice %d' % i, 'post', mequal(s.pc, mval(s, q[i].reg), atom('A%d' % i, m, n) if i < w.d else zero(m, n)) if s.mem[q[i].reg.id]['live'] == 1 else ('refuted', 'freed')))
            for i in range(new, w.d): o.append((fn + ': slice %d is released' % i, 'post', 'proved' if s.mem[ps[i].reg.id]['live'] == 0 and isnull(s.mem[h.id][8 * i]) else ('refuted', 'kept')))
            return o
        return [Ptr(h, 0), new], spec, [Ptr(h, 0)]
    return f

def job(M, fn, d, ty, mk, args): return run(M, fn, d, ty, mk(fn, *args))
def refuses(M, fn, d, ty, kind, cnull):
    """arbitrary shapes: either the call stops in m4ri_die or the shapes are compatible"""
    def setup(e, w):
        m, n, m2, n2, m3, n3 = [w.dim(x) for x in ('m', 'n', 'm2', 'n2', 'm3', 'n3')]
        A = w.mat('A', m, n, True); B = w.mat('B', m2, n2, True) if kind == 'add' else None; Cm = NULL if cnull else w.mat('C', m3, n3)
        def spec(e, w, s, rv):
            g = And(cmp('eq', m, m2, 32), cmp('eq', n, n2, 32)) if B is not None else True
            if not cnull: g = And(g, cmp('eq', m, m3, 32), cmp('eq', n, n3, 32))
            return [(fn + ': incompatible shapes are refused', 'post', prove(s.pc, zb(g)))]
        return ([Cm, A] + ([B] if B is not None else [])), spec, lambda rv: [rv] if cnull else []
    return run(M, fn, d, ty, setup, die_ok=True)
def jobs(tier):
    from run import Job
    J = []
    for d in range(2, 17):
        for ty in ('mzed', 'slice'):
            p = PRE(ty)
            L = [(p + '_init', op_init, ()), (p + '_free', op_free, ()), (p + '_copy', op_copy, (False,)), (p + '_copy', op_copy, (True,)), (p + '_copy', op_copy, (False, True))]
            for mode in ('', 'null', 'C=A', 'C=B', 'A=B', 'all'):
                L.append((p + '_add', op_add, (mode,)))
                if mode != 'null': L.append(('_' + p + '_add', op_add, (mode,)))
            for cn in (False, True):
                for al in (False, True): L += [(p + '_concat', op_cat, (False, cn, al)), (p + '_stack', op_cat, (True, cn, al))]
                L.append((p + '_submatrix', op_submatrix, (cn,)))
            L += [(p + '_init_window', op_window, ()), (p + '_free_window', op_free_window, ())]
            for k in ('row_swap', 'row_add', 'copy_row', 'col_swap', 'col_swap_in_rows'): L.append((p + '_' + k, op_rows, (k,)))
            if ty == 'slice':
                L.append((p + '_set_ui', op_setui, ()))
                for new in range(d, min(16, 2 * d - 1) + 1): L.append(('_mzd_slice_adapt_depth', op_adapt, (new,)))
            for fn, mk, a in L: J.append(Job('%s e=%d %s' % (fn, d, ' '.join(map(str, a))), job, fn, d, ty, mk, a))
            for cn in (False, True):
                J.append(Job('%s_add e=%d refuses%s' % (p, d, ' C=NULL' if cn else ''), refuses, p + '_add', d, ty, 'add', cn))
            if ty == 'mzed': J.append(Job('%s_copy e=%d refuses' % (p, d), refuses, p + '_copy', d, ty, 'copy', False))
    return J
