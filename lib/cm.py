"""Controller manager: scenarios, recordings of the real code, validation against spec/CM.tla."""
import os, re, json, subprocess
import vf
SAN = ['-fsanitize=address', '-fsanitize-address-use-after-return=never', '-D_GLIBCXX_SANITIZE_VECTOR=1', '-D_GLIBCXX_SANITIZE_STD_ALLOCATOR=1']
WRAP = ['pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_mutex_timedlock', 'pthread_mutex_clocklock', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_tryrdlock', 'pthread_rwlock_trywrlock', 'pthread_rwlock_unlock', 'pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_cond_clockwait',
        'pthread_cond_signal', 'pthread_cond_broadcast', 'nanosleep', 'clock_nanosleep', 'usleep', 'sleep', 'sched_yield',
        '_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE', '_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv']

def build():
    h = os.path.join(vf.VERIF, 'harness/cm')
    return vf.build('cm', [(vf.REPO + '/controller_manager/src/controller_manager.cpp', SAN + ['-fsanitize-coverage=func,trace-loads,trace-stores']),
                           (h + '/harness.cpp', SAN), (h + '/sched.cpp', SAN)],
                    link=['-fsanitize=address', *['-Wl,--wrap=' + w for w in WRAP], '-lpthread'])

# controllers and resources have all sorts of names, some of which begin with or contain one another
CNAMES = ['arm', 'arm_controller', 'arm_controller_2', 'arm_', 'Arm', 'ARM', 'a', 'b', 'ab', 'z9', 'ns/arm', 'ns/arm/left', 'ns', 'arm/left', 'joint_state_controller', 'x' * 70, 'x' * 69 + 'y', 'c10', 'c9', 'c1', 'controller_manager', 'type', 'o', 'O']
RNAMES = ['joint_1', 'joint_10', 'joint_2', 'joint', 'Joint', 'r', 'base/joint_1', 'left joint', 'r1', 'r2', 'r3', 'z' * 60]
def renaming(s):
    ck = vf.skin('ctl' + s['id'] + str(s['seed']), 'abcdefghijklmnopqyz', plain=.35, pool=CNAMES); rk = vf.skin('res' + s['id'] + str(s['seed']), ['r%d' % i for i in range(1, 7)], plain=.35, pool=RNAMES)
    rn = lambda m: m.group(1) + ','.join(ck.get(x, x) for x in m.group(2).split(','))
    op = lambda o: o if o.startswith(('cycles', 'rtpause', 'rtresume')) else re.sub(r'((?:name|start|stop)=)(\S*)', rn, o)
    ctrl = lambda c: re.sub(r'(claims=)(\S*)', lambda m: m.group(1) + ';'.join(e.split(':')[0] + ':' + ','.join(rk[x].replace(' ', '_') for x in e.split(':')[1].split(',')) for e in m.group(2).split(';')), re.sub(r'(^name=)(\S*)', rn, c))
    hwc = lambda h: '~'.join(','.join(ck.get(e.split(':')[0], e.split(':')[0]) + ':' + e.split(':')[1] for e in cyc.split(',') if e) for cyc in h.split('/'))
    return ctrl, op, hwc

def text(s):
    """scenario dict -> harness input"""
    o = ['S ' + s['id']]; ctrl, op, hwc = renaming(s)
    for k in ('mode', 'seed', 'preempt', 'mem', 'idle', 'hw', 'hwc', 'ps', 'cc', 'reset', 'dt', 'hold', 'slow', 'pre'):
        if k in s and s[k] != '': o.append('%s %s' % (k, hwc(s[k]) if k == 'hwc' else s[k]))
    for c in s['ctrl']: o.append('ctrl ' + ctrl(c))
    for k, n in enumerate(s.get('loaders', [])): o.append(('plugins ' if k == 0 else 'loader ') + n)
    for th in s['thr']:
        o.append('thr'); o += ['op ' + op(x) for x in th]
    return '\n'.join(o + ['E', ''])

def run(binary, scns, timeout=120, max_fatal=6):
    """Runs scenarios; returns {id: record}.  A crash, sanitizer report or hang ends up in record['fatal']."""
    res = {}
    d = os.path.join(vf.scratch(), 'scn'); os.makedirs(d, exist_ok=True)
    parts = [scns[i::8] for i in range(8)]
    jobs = [[p, 0] for p in parts if p]
    live = []
    def start(p, k, skip):
        f = os.path.join(d, '%d.txt' % k)
        open(f, 'w').write('\n'.join(text(s) for s in p))
        o = open(f + '.out', 'w'); e = open(f + '.err', 'w')
        return subprocess.Popen(['timeout', str(timeout), binary, f] + ([skip] if skip else []), stdout=o, stderr=e)
    def collect(k, rc, p):
        f = os.path.join(d, '%d.txt' % k)
        last = None
        for r in open(f + '.out', errors='replace').read().split('\n\x1e\n'):
            if r.strip():
                try: x = json.loads(r); res[x['id']] = x
                except ValueError: pass
        err = open(f + '.err', errors='replace').read()
        runs = [l[4:] for l in err.splitlines() if l.startswith('RUN ')]
        return (runs[-1] if runs else None), err
    pend = {k: (p, start(p, k, None)) for k, p in enumerate(p for p in parts if p)}
    while pend:
        for k, (p, pr) in list(pend.items()):
            rc = pr.wait(); cur, err = collect(k, rc, p); del pend[k]
            if rc == 0: continue
            if cur is None: raise RuntimeError('harness did not start: rc=%d %s' % (rc, err[-500:]))
            r = res.setdefault(cur, {'id': cur, 'ev': []})
            r['fatal'] = {7: 'stuck: the calls never complete', 8: 'abort/assertion', 9: 'sanitizer', 124: 'hang'}.get(rc, 'crash rc=%d' % rc)
            r['log'] = err[err.rfind('RUN '):][:4000]
            ids = [s['id'] for s in p]; rest = p[ids.index(cur) + 1:]
            if rest and sum('fatal' in x for x in res.values()) < max_fatal: pend[k] = (rest, start(rest, k, None))
    return res

def validate(records, workers=8, timeout=600):
    """Records without fatal outcome -> (accepted ids, {id: (reached, length)} for the rejected, (states, transitions))"""
    recs = list(records)
    if not recs: return set(), {}, (0, 0)
    f = os.path.join(vf.scratch(), 'traces.ndjson')
    def dump(rs):
        with open(f, 'w') as o:
            for r in rs: o.write(json.dumps(r) + '\n')
    dump(recs)
    for attempt in (0, 1):
        rc, out = vf.tlc('Trace_CM.tla', 'Trace_CM.cfg', env={'TRACES': f}, workers=workers, timeout=timeout, heap='8g')
        if rc == 0: break
    if rc != 0: raise vf.TlcError(out[-3000:])
    acc = {l.split('"')[3] for l in out.splitlines() if l.startswith('<<"ACC"')}
    rej = [r for r in recs if r['id'] not in acc]
    info = {}
    for i in range(0, min(len(rej), 40), 40):
        part = rej[:40]; dump(part)
        rc, out2 = vf.tlc('Trace_CM.tla', 'Diag_CM.cfg', env={'TRACES': f}, workers=1, timeout=timeout)
        for l in out2.splitlines():
            if l.startswith('<<"REJ"'):
                q = l.strip('<>').split(','); info[q[1].strip().strip('"')] = (int(q[2]), int(q[3]))
    for r in rej: info.setdefault(r['id'], (0, len(r['ev'])))
    return acc, info, vf.tlc_stats(out)

CTRL = {'a': 'type=P0 claims=IfA:r1,r2;IfB:r3 init=ok', 'b': 'type=X0 claims=IfA:r1 init=ok', 'c': 'type=P1 claims=IfA:r4 init=ok',
        'd': 'type=C0 init=ok', 'e': 'type=P0 claims=IfB:r4 init=ok', 'f': 'type=P0 claims=IfA:r5 init=fail', 'g': 'type=X0 claims=IfA:r5 init=throw',
        'h': 'type=P1 init=throwint', 'i': 'type=P0 init=failinit', 'j': 'type=P0 claims=IfC:r6 init=failonce', 'k': 'type=Pthrow init=ok',
        'l': 'type=Xnull init=ok', 'm': 'type=- init=ok', 'n': 'type=Plogic init=ok', 'o': 'type=Zzz init=ok', 'p': 'type=Xthrow init=ok', 'q': 'type=Xlogic init=ok'}
GOOD = 'abcde'; BAD = 'fghijklmnopq'
def ctrls(names): return ['name=%s %s' % (n, CTRL[n]) for n in names]

def answers(r, never=False):
    n = r.choice([1, 1, 1, 2, 2, 3, 4, 6])
    s = ''.join(r.choice('OOOOE') if k < n - 1 else r.choice('DDDDE') for k in range(n))
    return s if not never else 'O'

def rand_switch(r, names, svc=None, to=None):
    k = lambda: ','.join(r.sample(names, r.choice([0, 1, 1, 1, 2, 2, 3]) if len(names) >= 3 else r.randint(0, len(names))))
    st, sp = k(), k()
    if r.random() < .08 and st: st += ',' + r.choice(st.split(','))
    if r.random() < .08 and sp: sp += ',' + r.choice(sp.split(','))
    if r.random() < .12: sp = ','.join(x for x in [sp, r.choice('yz')] if x)
    if r.random() < .12: st = ','.join(x for x in [st, r.choice('yz')] if x)
    to = to if to is not None else r.choice([0, 0, 0, .25, .5, 1])
    return '%sswitch start=%s stop=%s strict=%d asap=%d to=%s' % ('svc.' if (r.random() < .3 if svc is None else svc) else '', st, sp, r.choice([2, 2, 1, 1, 1, 0]), r.random() < .4, to)

def rand_scn(r, sid, threads=None, ops=None, mode=None, focus=None):
    nt = threads or r.choice([1, 1, 2, 2, 3])
    names = list(r.sample(GOOD, r.choice([2, 3, 4]))); bad = r.sample(BAD, 1) if r.random() < .3 else []
    s = {'id': sid, 'mode': mode or ('seq' if nt == 1 and r.random() < .5 else r.choice(['rand', 'rand', 'pct'])), 'seed': r.randint(1, 10**9),
         'preempt': r.choice([5, 20, 40, 60]), 'mem': r.choice([0, 3, 10, 30]), 'idle': r.choice([1, 10, 30, 60]), 'ctrl': ctrls(sorted(set(names + bad + ['a']))), 'thr': []}
    if s['mode'] == 'pct': s['preempt'] = r.choice([5, 20, 50])
    s['hw'] = '/'.join(answers(r) for _ in range(6))
    s['hwc'] = '/'.join(','.join('%s:%s' % (n, answers(r)) for n in names) for _ in range(6))
    s['ps'] = ''.join(r.choice('TTTTF') for _ in range(8)); s['cc'] = ''.join(r.choice('NNNNNNC') for _ in range(8))
    if r.random() < .5: s['ps'] = 'T'; s['cc'] = 'N'
    if r.random() < .1: s['cc'] = 'AN'
    s['reset'] = r.choice(['', '', '-3', '-2', '4,7', '1,2,3,5']); s['dt'] = r.choice(['125', '125,250', '10', '500,125', '0,125'])
    for t in range(nt):
        o = []
        if t == 0: o += ['load name=' + n for n in names[:r.randint(1, len(names))]]
        for _ in range(ops or r.randint(2, 6)):
            x = r.random(); sv = 'svc.' if r.random() < .35 else ''
            if x < .5: o.append(rand_switch(r, names))
            elif x < .65: o.append(sv + 'load name=' + r.choice(names + bad))
            elif x < .82: o.append(sv + 'unload name=' + r.choice(names + ['z']))
            elif x < .88: o.append('get name=' + r.choice(names + ['z']))
            elif x < .94: o.append('svc.list')
            elif x < .96: o.append('svc.types')
            elif x < 2: o.append('svc.reload force=%d' % r.randint(0, 1))
            else: o.append('svc.list')
        s['thr'].append(o)
    return s
def loaders(r):
    """what the plugin loader and the registered loaders offer, before and after a reload"""
    tys = ['P0', 'P1', 'X0', 'C0', 'Zzz', 'Pthrow', 'Xnull', 'Xlogic', 'a', 'ns/P0']; some = lambda: ','.join(r.sample(tys, r.choice([0, 0, 1, 2, 3, 5])))
    names = r.sample(['LoaderB', 'LoaderC', 'B', 'a', 'controller_interface::ControllerBase2', 'x y'], r.choice([0, 1, 1, 2, 3]))
    pt = lambda: ','.join(t for t in some().split(',') if t != 'Xnull')
    return [pt() + '|' + pt()] + ['%s|%s|%s' % (n, some(), some()) for n in names]
def starve_scn(r, sid):
    """the control loop pauses while a switch with a timeout waits, and resumes later"""
    s = rand_scn(r, sid, threads=1, ops=1, mode=r.choice(['seq', 'rand'])); s['ps'] = 'T'; s['cc'] = 'N'
    names = sorted({x.split('=')[1].split(' ')[0] for x in s['ctrl']} & set(GOOD)); o = ['load name=' + n for n in names]
    o += [rand_switch(r, names, to=0)] if r.random() < .5 else []
    for _ in range(r.randint(1, 2)):
        o += ['rtpause', rand_switch(r, names, to=r.choice([.25, .5, 1])), 'rtresume', 'cycles name=%d' % r.randint(1, 3)]
        o += [rand_switch(r, names, to=0)] if r.random() < .6 else ['unload name=' + r.choice(names)]
    s['thr'] = [o]; return s

def early_scn(r, sid):
    """the control loop performs its first cycle while loads and unloads are under way"""
    s = rand_scn(r, sid, threads=1, ops=1, mode=r.choice(['rand', 'pct'])); s['hold'] = 1; s['mem'] = r.choice([20, 50, 100]); s['preempt'] = r.choice([3, 10, 30]); s['idle'] = r.choice([1, 100, 300])
    names = sorted({x.split('=')[1].split(' ')[0] for x in s['ctrl']} & set(GOOD)); r.shuffle(names)
    k = r.randint(1, len(names)); o = ['load name=' + n for n in names[:k]]
    p = r.choice([0, 1, k]); o = o[:p] + ['rtresume'] + o[p:]
    o += [r.choice(['unload name=' + r.choice(names), 'load name=' + r.choice(names), 'get name=' + r.choice(names)]) for _ in range(3)]
    if p >= 1 and r.random() < .5: o.insert(p, 'unload name=' + names[0])
    s['thr'] = [o]
    if r.random() < .4: s['thr'].append(['load name=' + r.choice(names), 'unload name=' + r.choice(names), 'svc.list'])
    return s

def slow_scn(r, sid):
    """control cycles that take very long"""
    s = rand_scn(r, sid, threads=r.choice([1, 1, 2]), ops=r.randint(3, 6)); s['slow'] = r.choice([20, 100, 400, 1000]); s['cc'] = 'N'; s['ps'] = 'T'; s['hwc'] = ''; s['hw'] = ''
    names = sorted({x.split('=')[1].split(' ')[0] for x in s['ctrl']} & set(GOOD)); x = r.choice(names)
    s['thr'][0] = ['load name=' + n for n in names] + ['switch start=%s stop= strict=2 asap=0 to=0' % x] + s['thr'][0][len(names):] + [r.choice(['unload name=' + r.choice(names), 'load name=' + r.choice(names)]) for _ in range(2)]
    return s

def down_scn(r, sid):
    """the node shuts down while a call is pending"""
    s = rand_scn(r, sid, threads=1, ops=r.randint(1, 4), mode=r.choice(['rand', 'pct'])); s['cc'] = 'N'
    s['hold'] = 1 if r.random() < .3 else 0
    s['thr'].append(['rtresume', 'shutdown'] if s['hold'] else ['get name=a'] * r.randint(0, 3) + ['cycles name=%d' % r.randint(1, 8), 'shutdown'])
    return s
