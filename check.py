#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property on /repo's current tree.

1. deductive part (irv/): the functions the property depends on are compiled from
   /repo/src to LLVM IR and every obligation of their contracts is discharged by z3.
2. bounded part (native/): the real code, sanitized, is run against a reference model.
   It looks for the failing input of a refuted obligation, and stands in (labelled
   bounded) where no contract is discharged.
"""
import sys, os, subprocess, json, time, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPART = 8

def sh(cmd, timeout=None, env=None):
    e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0')
    if env: e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode('utf8', 'replace')

def die(msg):
    print('ERROR', msg); sys.exit(2)

class Native:
    def __init__(self, work):
        self.dir = os.path.join(work, 'native')
        rc, out = sh([os.path.join(HERE, 'native', 'build.sh'), self.dir, REPO], 600)
        if rc: die('native build failed:\n' + out[-3000:])
        self.h = os.path.join(self.dir, 'h')
    def parts(self, prop, tier, seed, budget, alarm):
        ps = []
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
        for k in range(NPART):
            o = open(os.path.join(self.dir, 'out.%d' % k), 'w+')
            ps.append((k, o, subprocess.Popen([self.h, prop, '--seed', str(seed), '--tier', tier, '--part', str(k), str(NPART),
                        '--budget', str(budget), '--alarm', str(alarm)], stdout=o, stderr=subprocess.STDOUT, env=env)))
        return ps
    def wait(self, ps):
        cases = 0; total = 0; samples = []; fails = []; bad = []
        for k, o, p in ps:
            p.wait(); o.seek(0); out = o.read(); o.close()
            m = re.search(r'^FAIL prop=(\S+) case=(\d+) desc=\[(.*?)\] what=\[(.*)\]', out, re.M)
            if m: fails.append((int(m.group(2)), m.group(3), m.group(4), out[-6000:])); continue
            d = re.search(r'^DONE prop=\S+ cases=(\d+) total=(\d+)', out, re.M)
            if p.returncode == 0 and d:
                cases += int(d.group(1)); total = int(d.group(2))
                samples += re.findall(r'^SAMPLE (.*)$', out, re.M)[:2]
            else: bad.append('part %d rc %s: %s' % (k, p.returncode, out[-800:]))
        return cases, total, samples, fails, bad
    def confirm(self, prop, tier, seed, case):
        return sh([self.h, prop, '--seed', str(seed), '--tier', tier, '--only', str(case), '--alarm', '150'], 200)

def known_findings(prop):
    """lines  KNOWN <id> property=<ids> demo=<demo> <text>"""
    out = []
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'known: id=(\S+) property=(\S+) demo=(\S+) (.*)', l)
        if m and prop in m.group(2).split(','): out.append((m.group(1), m.group(3), m.group(4)))
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time()
    work = os.path.join(HERE, 'work', prop); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    nat = Native(work)
    # deductive part
    ded = None
    try:
        from irv import run as irvrun
        ded = irvrun.verify(prop, REPO, os.path.join(work, 'ir'), tier)
    except ImportError as x:
        if 'irv' not in str(x): raise
    t1 = time.time()
    seeds = [SEED] if tier == 'quick' else [SEED, SEED + 1000, SEED + 2000]
    cases = total = 0; samples = []; fails = []; bad = []
    for s in seeds:
        ps = nat.parts(prop, tier, s, 400 if tier == 'quick' else 1200, 500 if tier == 'quick' else 2400)
        c, t, sm, f, b = nat.wait(ps); cases += c; total += t; samples += sm; bad += b
        fails += [(s,) + x for x in f]
        if f: break
    nviol = 0; lines = []
    rdir = os.path.join(HERE, 'work', 'replay'); os.makedirs(rdir, exist_ok=True)
    confirmed = []
    for s, case, desc, what, out in sorted(fails):
        rc, o2 = nat.confirm(prop, tier, s, case)
        if rc == 3 or 'FAIL prop' in o2: confirmed.append((s, case, desc, what, o2))
        else: bad.append('case %d failed once (%s) and not again' % (case, what))
    if confirmed:
        s, case, desc, what, out = confirmed[0]
        rp = os.path.join(rdir, prop + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s\nfailing case: %s\nwhat: %s\nreplay: native/build.sh /tmp/replay %s && ASAN_OPTIONS=detect_leaks=0 /tmp/replay/h %s --seed %d --tier %s --only %d\n\n%s\n' % (prop, desc, what, REPO, prop, s, tier, case, out))
            if ded: f.write('\nfailed obligations:\n' + '\n'.join(ded.report_failed()) + '\n')
        lines.append('VIOLATION property=%s replay=%s' % (prop, rp)); nviol = 1
        print('failing input: %s: %s' % (desc, what))
    elif ded and ded.violations():
        rp = os.path.join(rdir, prop + '.obligation.txt')
        with open(rp, 'w') as f: f.write('property %s\n' % prop + '\n'.join(ded.report_failed()) + '\n')
        print('\n'.join(ded.report_failed())[:3000])
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)); nviol = 1
    for kid, demo, text in known_findings(prop):
        rc, out = sh([nat.h, demo, '--isolate'], 120)
        if 'FAIL' in out: print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if bad and not nviol:
        print('\n'.join(bad)); die('bounded run gave no answer')
    cov = {'evaluations': cases, 'distinct_nontrivial': cases,
           'rule': 'bounded native cases: shapes around word and block boundaries, random/structured contents, windows; every case is distinct by its number',
           'samples': samples[:8]}
    assumptions = ['bounded part: %d cases, seed(s) %s' % (cases, seeds)]
    level = 'exploration'
    if ded:
        cov.update(ded.coverage()); assumptions += ded.assumptions(); 
        level = ded.level()
        if level == 'proof': level = json.load(open(os.path.join(HERE, 'levels.json'))).get(prop, {}).get('level', 'other')
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    if ded: print(ded.summary())
    print('%s: %d bounded cases, %.1f s (deductive part %.1f s)' % (prop, cases, time.time() - t0, t1 - t0))
    for l in lines: print(l)
    sys.exit(1 if lines else 0)
if __name__ == '__main__': main()
