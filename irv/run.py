"""Discharges the contracts of one property: compiles the sources to LLVM IR, runs every job in a
process of its own (limits on time and memory) and collects the obligations."""
import os, sys, subprocess, time, json, resource, signal, select, pickle, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path: sys.path.insert(0, HERE)
NPROC = 8
PASSES = 'sroa,early-cse,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts;no-switch-range-to-icmp>,loop-simplify'

def build_ir(repo, out):
    """LLVM IR of every source file; only type-preserving normalisations (SSA form, CSE, CFG clean-up)"""
    os.makedirs(out + '/inc', exist_ok=True)
    for c in (repo + '/_build/m4rie/config.h', repo + '/src/config.h'):
        if os.path.exists(c): subprocess.check_call(['cp', c, out + '/inc/config.h']); break
    else: open(out + '/inc/config.h', 'w').close()
    l = out + '/inc/m4rie'
    if os.path.islink(l): os.unlink(l)
    os.symlink(repo + '/src', l)
    # every inline function of the headers, used or not
    with open(out + '/zz_inline.c', 'w') as f:
        f.write('#include "config.h"\n#include <m4ri/m4ri.h>\n#include <m4rie/m4rie.h>\n')
        for h in sorted(os.listdir(repo + '/src')):
            if h.endswith('.h') and h not in ('m4rie.h', 'config.h'): f.write('#include <m4rie/%s>\n' % h)
    srcs = sorted(f for f in os.listdir(repo + '/src') if f.endswith('.c')) + ['zz_inline.c']
    ps = []
    for f in srcs:
        b = out + '/' + f[:-2]; path = repo + '/src/' + f; extra = ''
        if f == 'zz_inline.c': path = out + '/' + f; extra = '-femit-all-decls'
        cmd = ('clang -S -emit-llvm -O1 -Xclang -disable-llvm-passes -fno-discard-value-names -mmmx -msse -msse2 -DNDEBUG -I%s/inc -I%s/src -w %s %s -o %s.ll && '
               "opt-18 -S -strip-debug -passes='%s' %s.ll -o %s.2.ll") % (out, repo, extra, path, b, PASSES, b, b)
        ps.append((f, subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for f, p in ps:
        o = p.communicate()[0]
        if p.returncode: raise RuntimeError('compiling %s: %s' % (f, o.decode()[-2000:]))
    import ir
    return [ir.Module(open('%s/%s.2.ll' % (out, f[:-2])).read()) for f in srcs]

def norm_result(r):
    if r == 'proved' or r is True: return 'proved', ''
    if isinstance(r, tuple): return r[0], str(r[1])[:1500]
    if r == 'refuted' or r is False: return 'refuted', ''
    return 'unknown', str(r)[:500]

def child(job, M, wfd, mem):
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    sys.setrecursionlimit(20000)
    t = time.time()
    try:
        import core
        r = job.fn(M, *job.args)
        r['time'] = time.time() - t
        r['queries'] = core.Stats.q; r['solver'] = core.Stats.t
    except BaseException as x:
        r = {'error': '%s: %s' % (type(x).__name__, str(x)[:600]), 'time': time.time() - t, 'tb': traceback.format_exc()[-1500:]}
    b = pickle.dumps(r)
    off = 0
    while off < len(b): off += os.write(wfd, b[off:off + 65536])
    os._exit(0)

class Job:
    """fn(M, *args) -> {'functions': [...], 'obligations': [(what, kind, result)], 'assumed': [...], 'paths': n}"""
    def __init__(s, label, fn, *args, timeout=120, function=None, bounded=None):
        s.label, s.fn, s.args, s.timeout, s.function, s.bounded = label, fn, args, timeout, function, bounded

def run_jobs(jobs, M, nproc=NPROC, mem=5 << 30, total=None):
    """-> {label: result}"""
    t0 = time.time(); todo = list(jobs); live = {}; res = {}
    todo.sort(key=lambda j: -j.timeout)
    while todo or live:
        while todo and len(live) < nproc:
            j = todo.pop(0)
            if total and time.time() - t0 > total: res[j.label] = {'error': 'not started: time budget used', 'time': 0}; continue
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r); signal.signal(signal.SIGINT, signal.SIG_DFL)
                try: child(j, M, w, mem)
                finally: os._exit(1)
            os.close(w); live[r] = (j, pid, time.time(), [])
        rd = select.select(list(live), [], [], 0.5)[0]
        for r in rd:
            b = os.read(r, 1 << 16)
            j, pid, t, buf = live[r]
            if b: buf.append(b); continue
            os.close(r); os.waitpid(pid, 0); del live[r]
            try: res[j.label] = pickle.loads(b''.join(buf))
            except Exception: res[j.label] = {'error': 'worker died', 'time': time.time() - t}
        for r, (j, pid, t, buf) in list(live.items()):
            if time.time() - t > j.timeout:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r); del live[r]
                res[j.label] = {'error': 'time limit of %d s' % j.timeout, 'time': time.time() - t}
    return res

class Result:
    def __init__(s, prop, jobs, res, wall, irtime):
        s.prop, s.jobs, s.res, s.wall = prop, jobs, res, wall
        s.ob = s.dis = 0; s.failed = []; s.undecided = []; s.functions = set(); s.bounded = set(); s.assumed = set(); s.jobok = 0
        s.solver = s.queries = 0
        for j in jobs:
            r = res[j.label]; s.solver += r.get('solver', 0); s.queries += r.get('queries', 0)
            if 'error' in r: s.undecided.append((j.label, r['error'])); continue
            good = True; npost = 0
            for what, kind, rr in r['obligations']:
                n, why = norm_result(rr); s.ob += 1; npost += kind in ('post', 'lemma')
                if n == 'proved': s.dis += 1; continue
                good = False
                if n == 'refuted': s.failed.append((j.label, what, kind, why))
                else: s.undecided.append((j.label, '%s (%s): %s' % (what, kind, why)))
            if npost == 0 and not r.get('nopost'): good = False; s.undecided.append((j.label, 'no postcondition was generated (vacuous)'))
            s.assumed |= set(r.get('assumed', []))
            if good:
                s.jobok += 1; (s.bounded if j.bounded else s.functions).update(r.get('functions', [j.function or j.label]))
        s.bounded -= s.functions
    def violations(s): return bool(s.failed)
    def report_failed(s):
        return ['FAILED OBLIGATION [%s] %s (%s) %s' % f for f in s.failed] + ['undecided [%s] %s' % u for u in s.undecided[:20]]
    def level(s): return 'proof' if not s.undecided and not s.failed else 'other'
    def coverage(s):
        c = {'obligations': s.ob, 'discharged': s.dis, 'checker_cmd': 'python3-vt check.py %s (irv/run.py: symbolic execution of the LLVM IR of /repo/src, z3 %s)' % (s.prop, zver()),
             'trusted_base': ['irv/engine.py and irv/core.py: verification-condition generator', 'clang 18 -O0 code generation + opt sroa/early-cse/simplifycfg', 'z3', 'm4ri contracts listed under assumptions'],
             'explanation': '%d contracts (jobs), %d fully discharged; %d functions under contract' % (len(s.jobs), s.jobok, len(s.functions)),
             'functions_under_contract': sorted(s.functions), 'bounded_contracts': sorted(s.bounded), 'jobs': len(s.jobs), 'jobs_discharged': s.jobok,
             'solver_queries': s.queries, 'solver_seconds': round(s.solver, 1), 'deductive_wall_s': round(s.wall, 1),
             'undecided': ['%s: %s' % u for u in s.undecided[:40]],
             'bounds': sorted({j.bounded for j in s.jobs if j.bounded})}
        return c
    def assumptions(s): return sorted(s.assumed)
    def summary(s):
        o = ['deductive part: %d obligations, %d discharged, %d jobs (%d discharged), %.1f s' % (s.ob, s.dis, len(s.jobs), s.jobok, s.wall)]
        o += ['  undecided: %s: %s' % u for u in s.undecided[:10]]
        o += ['  FAILED: [%s] %s (%s) %s' % f for f in s.failed[:10]]
        return '\n'.join(o)
def zver():
    import z3; return z3.get_version_string()

def verify(prop, repo, irdir, tier):
    import jobs as J
    t0 = time.time()
    js = J.jobs(prop, tier)
    if not js: return None
    try: M = build_ir(repo, irdir)
    except Exception as x:
        class E(Result):
            pass
        r = Result(prop, [], {}, time.time() - t0, 0); r.undecided.append(('IR', str(x)[:1000])); return r
    t1 = time.time()
    res = run_jobs(js, M, total=(420 if tier == 'quick' else 3000))
    return Result(prop, js, res, time.time() - t0, t1 - t0)

if __name__ == '__main__':
    prop = sys.argv[1]; tier = 'quick'; import tempfile, shutil
    repo = os.environ.get('VERIF_REPO', '/repo'); d = tempfile.mkdtemp()
    try:
        if len(sys.argv) > 2:
            import jobs as J
            M = build_ir(repo, d); js = [j for j in J.jobs(prop, tier) if sys.argv[2] in j.label]
            if len(sys.argv) > 3:   # in this process
                import pprint; sys.setrecursionlimit(20000)
                for j in js: 
                    t = time.time(); r = j.fn(M, *j.args); print(j.label, '%.1f' % (time.time() - t)); pprint.pprint([o for o in r['obligations'] if norm_result(o[2])[0] != 'proved'][:10])
                sys.exit()
            res = run_jobs(js, M); r = Result(prop, js, res, 0, 0)
        else: r = verify(prop, repo, d, tier)
        print(r.summary())
        for j in sorted(r.jobs, key=lambda j: -r.res[j.label]['time'])[:15]: print('   %-50s %.1f s %s' % (j.label, r.res[j.label]['time'], r.res[j.label].get('tb', '')))
    finally: shutil.rmtree(d)
