"""Shared machinery of the checks: building from /repo, running TLC, evidence, verdicts."""
import os, sys, json, subprocess, tempfile, shutil, time, hashlib, atexit, re, random
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
STUBS = os.path.join(VERIF, 'stubs')
EVID = os.path.join(VERIF, 'evidence')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PKGS = ['controller_interface', 'controller_manager', 'controller_manager_tests', 'combined_robot_hw', 'combined_robot_hw_tests',
        'hardware_interface', 'joint_limits_interface', 'transmission_interface']
_scratch = None

def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(VERIF, '_build'); os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix='run-', dir=base)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def thorough(): return TIER == 'thorough'

def sh(cmd, timeout=600, env=None, cwd=None, stdin=None):
    """run, return (rc, stdout, stderr); rc=124 on timeout"""
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd, input=stdin, errors='replace', universal_newlines=True)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b''; er = x.stderr or b''
        dec = lambda b: b.decode('utf8', 'replace') if isinstance(b, bytes) else b
        return 124, dec(o), dec(er)

class BuildError(Exception): pass

def includes():
    return ['-I' + STUBS] + ['-I%s/%s/include' % (REPO, p) for p in PKGS if os.path.isdir('%s/%s/include' % (REPO, p))]

def build(name, units, link=(), cxx='clang++', base=('-std=c++14', '-g', '-O0', '-w')):
    """units: list of (source, [extra flags]); parallel compile, returns the binary path"""
    d = os.path.join(scratch(), name); os.makedirs(d, exist_ok=True)
    procs, objs = [], []
    for k, (src, fl) in enumerate(units):
        o = os.path.join(d, '%d.o' % k); objs.append(o)
        procs.append((src, subprocess.Popen([cxx, *base, *includes(), *fl, '-c', src, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors='replace')))
    err = ''
    for src, p in procs:
        out, _ = p.communicate()
        if p.returncode: err += '%s:\n%s\n' % (src, out[-3000:])
    if err: raise BuildError(err)
    b = os.path.join(d, 'bin')
    p = subprocess.run([cxx, *[f for f in base if f.startswith('-f') or f.startswith('-O')], *objs, *link, '-o', b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors='replace')
    if p.returncode: raise BuildError('link: ' + p.stdout[-3000:])
    return b

class TlcError(Exception): pass

def tlc(module, cfg, env=None, workers=4, timeout=600, heap='4g', extra=(), jvm=(), keep=False):
    """Runs TLC on a private copy of the specs; returns (rc, output)."""
    d = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith('.tla') or f.endswith('.cfg'): shutil.copy(os.path.join(SPEC, f), d)
    cmd = ['java', '-Xmx' + heap, '-XX:+UseParallelGC', *jvm, '-cp', CP, 'tlc2.TLC', '-metadir', os.path.join(d, 'meta'), '-config', cfg, '-workers', str(workers), *extra, module]
    rc, out, err = sh(cmd, timeout=timeout, env=env, cwd=d)
    shutil.rmtree(d, ignore_errors=True)
    return rc, out + err

def tlc_ok(module, cfg, **kw):
    rc, out = tlc(module, cfg, **kw)
    if rc != 0:
        rc, out = tlc(module, cfg, **kw)   # a model failure must repeat before it is believed
    return rc, out

def tlc_stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m.group(2)), int(m.group(1))) if m else (0, 0)

def printed(out, tag):
    """JSON payloads printed as <<"TAG", "json">> by a specification"""
    res = []
    pre = '<<"%s", ' % tag
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('>>'):
            body = line[len(pre):-2]
            try: res.append(json.loads(json.loads(body)))
            except ValueError: pass
    return res

class Result:
    def __init__(self, prop, level):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.cov, self.viol, self.known, self.assume = {}, [], [], []
    def violation(self, what, data):
        """record a violation; data = replay material (JSON-able)"""
        self.viol.append((what, data))
    def add(self, k, n): self.cov[k] = self.cov.get(k, 0) + n
    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for k in self.known: print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if not self.viol:
            print('%s: held on everything explored (%.1fs) %s' % (self.prop, time.time() - self.t0, json.dumps({k: v for k, v in self.cov.items() if not isinstance(v, (list, str))})))
            return 0
        rd = os.path.join(EVID, 'replay'); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s.json' % self.prop)
        with open(path, 'w') as f: json.dump([{'what': w, 'data': d} for w, d in self.viol[:20]], f, indent=1, default=str)
        for w, _ in self.viol[:5]: print('  ' + w[:600])
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1

def rng(*salt): return random.Random('%d/%s' % (SEED, '/'.join(map(str, salt))))

def enc(s): return ''.join(chr(b) if chr(b).isalnum() and b < 128 or b == 95 else '%%%02X' % b for b in s.encode()) if s else '%'

# concrete names for the specifications' symbolic ones: what a thing is called must never matter
NAMES = ['joint_a', 'joint_b', '', 'a', 'A', 'joint', 'joint_', 'joint_a/b', '/joint_a', 'b', 'joint a', 'joint_a ', 'left::joint', 'joint_10', 'joint_9', '0', '-1', 'j,k', 'j;k=l', 'x' * 40, 'x' * 39,
         'x' * 300, 'gelenk_\u00e4', 'joint-a', 'joint.a', '~joint', 'left/arm/joint_a', 'right/arm/joint_a', 'left/arm', 'foo%20bar', "j'a", 'j"a', 'none', 'nan', 'true', 'JOINT_A', 'joint\tb', 'all', '*', 'base_link']
def skin(salt, names, plain=0.3, pool=NAMES):
    """an injective renaming of the specification's names, chosen by the seed and the case"""
    g = rng('skin', salt); names = sorted(names)
    if g.random() < plain: return {n: n for n in names}
    if g.random() < 0.5: k = g.randrange(len(pool)); cand = [pool[(k + i) % len(pool)] for i in range(len(names))]; g.shuffle(cand)
    else: cand = g.sample(pool, len(names))
    return dict(zip(names, cand))

def replay(binary, lines, env=None, jobs=8, timeout=300, args=()):
    """Feeds one case per line to a harness that answers one line per case; a case that kills the harness answers 'crash <rc>'.
    A case that hangs answers 'hang'."""
    from concurrent.futures import ThreadPoolExecutor
    def chunk(ls):
        res = []
        while len(res) < len(ls):
            rc, out, err = sh([binary, *args], timeout=timeout, env=env, stdin='\n'.join(ls[len(res):]) + '\n')
            got = out.split('\n')[:-1]
            res += got[:len(ls) - len(res)]
            if len(res) < len(ls):
                if rc == 0: raise RuntimeError('harness answered too few lines: ' + err[-500:])
                res.append('hang' if rc == 124 else 'crash %d %s' % (rc, ' '.join(err.split()[-30:])))
                if sum(r.startswith(('crash', 'hang')) for r in res) > 5: res += ['skipped'] * (len(ls) - len(res))
        return res
    if not lines: return []
    k = max(1, (len(lines) + jobs - 1) // jobs); cs = [lines[i:i + k] for i in range(0, len(lines), k)]
    with ThreadPoolExecutor(jobs) as ex: return [x for r in ex.map(chunk, cs) for x in r]

def compare(res, binary, cases, what, **kw):
    """cases: list of (input line, expected) where expected is a string, or a predicate returning '' or a complaint. A mismatch is re-run once."""
    outs = replay(binary, [c[0] for c in cases], **kw)
    bad = []
    judge = lambda exp, o: ('' if o == exp else 'expected <%s>, observed <%s>' % (exp, o)) if isinstance(exp, str) else exp(o)
    for at, ((line, exp), o) in enumerate(zip(cases, outs)):
        if o == 'skipped': continue
        w = judge(exp, o)
        if w: bad.append((line, exp, o, w, at))
    lines = [c[0] for c in cases]; jobs = kw.get('jobs', 8); size = max(1, (len(lines) + jobs - 1) // jobs)
    for line, exp, o, w, at in bad[:20]:
        again = replay(binary, [line], **kw)[0]
        if not judge(exp, again) and not o.startswith(('crash', 'hang')):   # perhaps it needs what the process did before
            again = replay(binary, lines[at - at % size:at + 1], **{**kw, 'jobs': 1})[-1]
        if judge(exp, again): res.violation('%s: case <%s>: %s' % (what, line, w), {'case': line, 'observed': o, 'complaint': w})
    res.add('cases', len(cases)); res.add('mismatches', len(bad))
    return bad

def spec_cases(res, module, cfg, tag='CASE', **kw):
    """Runs TLC on a generating specification (its own invariants included) and returns the printed cases."""
    rc, out = tlc_ok(module, cfg, **kw)
    if rc != 0: raise TlcError('%s/%s: rc %d\n%s' % (module, cfg, rc, '\n'.join(l for l in out.splitlines() if not l.startswith('<<'))[-3000:]))
    d, g = tlc_stats(out)
    res.add('spec_distinct_states', d); res.add('spec_states_generated', g)
    cs = printed(out, tag)
    if not cs: raise TlcError('%s/%s printed no cases' % (module, cfg))
    return cs
