"""Checks C02..C10: the real ControllerManager's recordings against spec/CM.tla."""
import json, os, re, threading
import vf, cm

# what a recording that leaves the specification at a given event says about the properties
BLAME = {'upd': 'C02 C08 C05', 'sto': 'C05 C02 C06 C09', 'sta': 'C05 C02 C06 C09 C03', 'wai': 'C05 C02 C06 C09', 'abo': 'C05 C02 C06 C09',
         'ds': 'C04 C05 C06 C09 C02', 'cc': 'C03 C04 C06 C09', 'ps': 'C03 C04 C06 C09', 'con': 'C07 C06 C09 C10', 'init': 'C07 C06 C09',
         'del': 'C07 C08 C06 C09 C10', 'rl': 'C10 C07', 'ue': 'C02 C03 C05 C06 C07 C09', 'end': 'C02 C05 C06 C07 C09', 'slp': 'C05 C07 C08 C09',
         'ret switch': 'C04 C05 C06 C09 C10 C03', 'ret load': 'C06 C07 C09 C10 C08', 'ret unload': 'C06 C07 C09 C10 C08', 'ret list': 'C10 C07 C06 C09 C05',
         'ret get': 'C07 C09 C10 C06', 'ret types': 'C10', 'ret reload': 'C10 C09', 'now': 'C05', 'call': 'C09'}
STUCK = 'C05 C07 C08 C09 C10 C06 C04'

def alphabet(r):
    sub = lambda: ','.join(x for x in 'abc' if r.random() < .4)
    x = r.random()
    if x < .14: return 'load name=' + r.choice('abc')
    if x < .3: return 'unload name=' + r.choice('abc')
    return 'switch start=%s stop=%s strict=%d asap=%d to=%s' % (sub(), sub(), r.choice([2, 1]), r.random() < .35, r.choice([0, 0, 0, .25]))

def node_scn(r, sid, node, k=3):
    """from an abstract state enumerated by Seq_CM, k further requests"""
    s = {'id': sid, 'mode': 'seq', 'seed': r.randint(1, 10**9), 'mem': 0, 'ctrl': cm.ctrls('abc'), 'dt': '125', 'reset': r.choice(['', '', '-2'])}
    o = []
    for p in node['path']:
        o.append('%s name=%s' % (p['op'], p['name']) if p['op'] != 'switch' else 'switch start=%s stop=%s strict=2 asap=0 to=0' % (','.join(p['start']), ','.join(p['stop'])))
    acc = list(node['acc']); ctl = [''] * len(acc)
    for _ in range(k + 1):
        acc.append(cm.answers(r)); ctl.append(','.join('%s:%s' % (n, cm.answers(r)) for n in 'abc'))
    s['hw'] = '/'.join(acc); s['hwc'] = '/'.join(c or 'a:D' for c in ctl)
    for _ in range(k): o += [('svc.' if r.random() < .3 else '') + alphabet(r)] + (['svc.list'] if r.random() < .2 else [])
    s['thr'] = [o + ['svc.list']]
    return s

def fix_scn(r, sid):
    """one caller, a control loop, and a handful of forced preemptions at memory-access granularity"""
    s = {'id': sid, 'mode': 'fix', 'seed': 1, 'mem': 100, 'ctrl': cm.ctrls('abc'), 'hw': 'D', 'dt': '10'}
    w = r.random()
    base = ['load name=a', 'load name=b', 'unload name=a', 'load name=c'] if w < .4 else ['load name=a', 'switch start=a stop= strict=2 asap=0 to=0', 'load name=b', 'switch start=b stop=a strict=1 asap=%d to=0' % r.randint(0, 1), 'unload name=a'] if w < .7 else ['load name=a', 'unload name=a', 'load name=a', 'unload name=a']
    if not .4 <= w < .7 and r.random() < .6: s['hold'] = 1; base.insert(r.randint(1, 3), 'rtresume')
    s['thr'] = [base]; n = len(base)
    s['pre'] = ','.join('%d:%d' % (i, r.choice([0, 1])) for i in sorted(r.sample(range(1, 260 * n // 4), r.choice([1, 2, 3, 4, 5]))))
    if r.random() < .35: s['reset'] = '-1'
    return s

def conflict_scn(r, sid):
    s = cm.rand_scn(r, sid, threads=r.choice([1, 1, 2])); s['cc'] = 'N'; s['ps'] = 'T'
    s['ctrl'] = cm.ctrls('abcde'); s['thr'][0] = ['load name=' + x for x in r.sample('abcde', r.choice([4, 5]))] + [cm.rand_switch(r, list('abcde')) for _ in range(r.randint(2, 6))]
    return s

def lists_scn(r, sid):
    s = cm.rand_scn(r, sid, threads=r.choice([1, 2, 3])); pool = r.sample(cm.GOOD, 3) + r.sample(cm.BAD, 3); s['ctrl'] = cm.ctrls(sorted(set(pool + ['a'])))
    for t in range(len(s['thr'])):
        o = []
        for _ in range(r.randint(4, 9)):
            x = r.random(); sv = 'svc.' if r.random() < .4 else ''
            o.append(sv + 'load name=' + r.choice(pool) if x < .5 else sv + 'unload name=' + r.choice(pool) if x < .72 else 'get name=' + r.choice(pool) if x < .8 else 'svc.list' if x < .9 else cm.rand_switch(r, pool))
        s['thr'][t] = o
    return s

def refuse_scn(r, sid):
    """mostly refused requests, each followed by a look at the outcome"""
    s = lists_scn(r, sid) if r.random() < .3 else cm.rand_scn(r, sid, threads=1)
    s['ps'] = ''.join(r.choice('TF') for _ in range(8)); s['cc'] = ''.join(r.choice('NNC') for _ in range(8))
    for t in range(len(s['thr'])):
        s['thr'][t] = [y for x in s['thr'][t] for y in ([x, 'svc.list'] if r.random() < .4 else [x])]
    return s

def conc_scn(r, sid): 
    s = cm.rand_scn(r, sid, threads=r.choice([2, 3])); return s

def svc_scn(r, sid):
    s = cm.rand_scn(r, sid, threads=r.choice([1, 1, 2]));
    if r.random() < .4: s['loaders'] = cm.loaders(r)
    for t in range(len(s['thr'])):
        o = [x if x.startswith('svc.') or x.startswith('get') else 'svc.' + x for x in s['thr'][t]]
        for _ in range(r.randint(1, 3)): o.insert(r.randint(0, len(o)), r.choice(['svc.list', 'svc.types', 'svc.list', 'svc.reload force=0', 'svc.reload force=1']))
        s['thr'][t] = o
    return s

def reset_scn(r, sid):
    s = cm.rand_scn(r, sid, threads=r.choice([1, 2])); s['reset'] = r.choice(['-1', '-1', '-2']); s['mem'] = r.choice([0, 30, 100]); return s

SVC = re.compile(r'svc\.(load|unload|switch)')
MIX = {  # property -> (family, share)
    'C02': [(cm.rand_scn, 4), (reset_scn, 3), ('node', 3)],
    'C03': [(conflict_scn, 5), (conc_scn, 2), (reset_scn, 1), ('node', 2)],
    'C04': [('node', 5), (cm.rand_scn, 3), (refuse_scn, 2)],
    'C05': [(cm.rand_scn, 4), (cm.slow_scn, 1), ('node', 3), (cm.starve_scn, 1), (cm.down_scn, 1), (conc_scn, 2)],
    'C06': [(refuse_scn, 4), (cm.starve_scn, 3), ('node', 2), (conc_scn, 1)],
    'C07': [(lists_scn, 5), ('node', 3), (conc_scn, 1), (cm.down_scn, 1)],
    'C08': [(fix_scn, 5), (cm.slow_scn, 2), (cm.early_scn, 3), (lists_scn, 2), (cm.down_scn, 1), (reset_scn, 1)],
    'C09': [(conc_scn, 7), (reset_scn, 1), (cm.starve_scn, 1), (lists_scn, 1), (cm.slow_scn, 1)],
    'C10': [(svc_scn, 7), (lists_scn, 1), ('node', 2)]}
QUICK = 2400
DESIGN_QUICK = {'C08': 'MC_CM.cfg', 'C09': 'MC_CM.cfg', 'C10': 'MC_CM_names.cfg', 'C07': 'MC_CM_names.cfg', 'C05': 'MC_CM_q.cfg', 'C02': 'MC_CM_q.cfg', 'C03': 'MC_CM_q.cfg', 'C04': 'MC_CM_q.cfg', 'C06': 'MC_CM_q.cfg'}
DESIGN_THOROUGH = ['MC_CM.cfg', 'MC_CM_asap.cfg', 'MC_CM_names.cfg', 'MC_CM_3.cfg', 'MC_CM_big.cfg', 'MC_CM_live.cfg']

def pending_op(rec):
    last = {}
    for e in rec['ev']:
        if e['e'] in ('call', 'ret'): last[e['th']] = e if e['e'] == 'call' else None
    return {v['op'] for v in last.values() if v}

def blame(rec, at=None):
    if 'fatal' in rec:
        f = rec['fatal']; ops = pending_op(rec)
        if f.startswith('stuck') or f == 'hang': return set(STUCK.split())
        s = {'C08', 'C09'}
        if ops & {'load', 'unload'}: s |= {'C07', 'C06'}
        if 'switch' in ops: s |= {'C05', 'C04', 'C06', 'C03'}
        if ops & {'list', 'types', 'reload'}: s |= {'C10'}
        if not ops: s |= {'C02', 'C05', 'C07'}
        return s
    e = rec['ev'][at - 1] if 0 < at <= len(rec['ev']) else rec['ev'][-1]
    k = e['e'] + (' ' + e['op'] if e['e'] == 'ret' else '')
    return set(BLAME.get(k, 'C05 C09').split())

def describe(rec, at):
    if 'fatal' in rec: return rec['fatal'] + ' ' + rec.get('log', '')[:400]
    show = lambda e: json.dumps({k: v for k, v in e.items() if k != 'w'})
    return 'after %d events the recording leaves the specification at %s (preceded by %s)' % (at - 1, show(rec['ev'][at - 1]), ' '.join(show(e) for e in rec['ev'][max(0, at - 4):at - 1]))

def nodes():
    rc, out = vf.tlc_ok('Seq_CM.tla', 'Seq_CM.cfg', workers=1, timeout=120)
    n = vf.printed(out, 'NODE')
    if rc or not n: raise vf.TlcError(out[-2000:])
    return n

def judge(binary, scns):
    recs = cm.run(binary, scns)
    acc, rej, st = cm.validate([r for r in recs.values() if 'fatal' not in r])
    return recs, acc, rej, st

def check(prop):
    R = vf.Result(prop, 'model_checking'); th = vf.thorough()
    R.assume = ['The scheduler serialises threads and switches only at lock, clock, sleep, callback and (instrumented) memory accesses of controller_manager.cpp; weak-memory effects are not explored.',
                'ROS, pluginlib and message types are stubs under /verif/stubs.', 'Controllers and robot hardware are scripted; their callbacks terminate and throw only where the specification says.']
    design, derr = [], []
    def mc():
        for c in ([DESIGN_QUICK[prop]] if not th else DESIGN_THOROUGH):
            rc, out = vf.tlc_ok('MC_CM.tla', c, workers=3 if not th else 6, timeout=3600, heap='6g')
            if rc: derr.append((c, out[-3000:]))
            else: design.append((c,) + vf.tlc_stats(out))
    t = threading.Thread(target=mc); t.start()
    binary = cm.build()
    nd = nodes(); rounds = 1 if not th else 25
    tot = {}; samples = []; found = []
    for rd in range(rounds):
        r = vf.rng('cm', prop, rd) if rd else vf.rng('cm', prop)
        w = sum(x for _, x in MIX[prop]); scns = []
        for f, share in MIX[prop]:
            for i in range(QUICK * share // w):
                sid = '%s%d_%d' % ('node' if f == 'node' else f.__name__.replace('_scn', ''), rd, i)
                scns.append(node_scn(r, sid, nd[(i * 7919 + rd * 131 + vf.SEED) % len(nd)], r.choice([2, 3, 4])) if f == 'node' else f(r, sid))
        by = {s['id']: s for s in scns}
        recs, acc, rej, st = judge(binary, scns)
        R.add('states', st[0]); R.add('transitions', st[1]); R.add('traces_validated_against_impl', len(acc)); R.add('events_validated', sum(len(recs[i]['ev']) for i in acc))
        R.add('scenarios', len(recs))
        for s in scns: tot[s['id'].rstrip('0123456789_')] = tot.get(s['id'].rstrip('0123456789_'), 0) + 1
        if not samples: samples = [cm.text(by[i]) for i in list(acc)[:2]]
        bad = [(i, blame(recs[i]), None) for i in recs if 'fatal' in recs[i]] + [(i, blame(recs[i], a), a) for i, (a, n) in rej.items()]
        mine = [(i, a) for i, b, a in bad if prop in b]
        via_service = set()
        if prop == 'C10' and not mine:   # deviations that vanish when the same is asked of the manager directly are the services' doing
            cand = [(i, a) for i, b, a in bad if any(SVC.match(o) for t in by[i]['thr'] for o in t)][:24]
            if cand:
                _, plain, _, _ = judge(binary, [dict(by[i], thr=[[SVC.sub(r'\1', o) for o in t] for t in by[i]['thr']]) for i, _ in cand])
                mine = [(i, a) for i, a in cand if i in plain]; via_service = {i for i, _ in mine}
        R.add('deviations_of_other_properties', len(bad) - len(mine))
        if os.environ.get('CM_DEV') and bad: open(os.environ['CM_DEV'], 'a').write(''.join(json.dumps({'id': i, 'at': a, 'blame': b, 'fatal': recs[i].get('fatal'), 'scn': cm.text(by[i]), 'ev': recs[i].get('ev', [])}) + '\n' for i, b, a in bad))
        if mine:   # believe it only if it repeats
            again = [dict(by[i]) for i, _ in mine[:12]]
            recs2, acc2, rej2, _ = judge(binary, again)
            for s in again:
                i = s['id']
                if i in recs2 and ('fatal' in recs2[i] or i in rej2):
                    a = rej2.get(i, (0, 0))[0] if 'fatal' not in recs2[i] else None
                    if prop in blame(recs2[i], a) or i in via_service: found.append((describe(recs2[i], a), {'scenario': cm.text(s), 'events': recs2[i]['ev'][:(a or 10**6)], 'log': recs2[i].get('log', '')}))
            break
    t.join()
    if derr: raise vf.TlcError('design check failed: %s %s' % derr[0])
    for c, d, tr in design: R.add('states', d); R.add('transitions', tr)
    R.cov['design_configs'] = ['%s: %d distinct states, %d generated' % x for x in design]
    R.cov['families'] = ['%s: %d' % x for x in sorted(tot.items())]
    R.cov['samples'] = samples; R.cov['abstract_states_enumerated'] = len(nd)
    for w, d in found: R.violation(w, d)
    return R.finish()
