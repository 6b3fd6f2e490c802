"""C29: Gui.tla replayed on the real rqt plugin over a stand-in for Qt."""
import vf, json, os, p_c26
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification Gui.tla checked, enumerated and simulated with TLC; every history played on the real rqt plugin over a stand-in for Qt and for the managers, what it offers, shows and asks compared after every step'
NOTE = 'Three managers in two namespaces, three controller names, five controller states; every history of three steps (four) from a selected manager, simulated ones of fourteen steps from any.'
PLACES = [('/controller_manager', '/p/controller_manager', '/', '/', '/p'), ('/r1/controller_manager', '/r1/arm/controller_manager', '/r1/cm', '/r1', '/r1/arm'), ('/cm', '/controller_manager/cm', '/controller_manager2', '/', '/controller_manager'),
          ('/a/cm', '/A/cm', '/a/controller_manager', '/a', '/A'), ('/x/y/z', '/x/y/z/z', '/x/y/w', '/x/y', '/x/y/z'), ('/controller_manager', '/controller_manager2/cm', '/controller_manager1', '/', '/controller_manager2')]
POOL = ['arm', 'arm_controller', 'type', 'a', 'b', 'Arm', 'x', 'joint_state_controller', 'controller_manager_', '10', '2', 'gains', 'load', 'c', 'running', 'arm_', 'ARM', 'z' * 40, 'stopped', 'uninitialized']
CLAIMS = [[['hw/A', ['r1', 'r2']], ['hw/B', []]], [], [['hw/C', ['r3']]]]
def ren(x, m): return m.get(x, x) if isinstance(x, str) else [ren(y, m) for y in x] if isinstance(x, list) else {k: ren(v, m) if k in ('n', 'loaded', 'idle', 'rows', 'x', 'ctl', 'conf', 'm1', 'm2', 'm3', 'n1', 'n2', 'world', 'h') else v for k, v in x.items()} if isinstance(x, dict) else x
def judge(c, line):
    mg, claims = line['managers'], line['claims']
    def wrong(s, o, t):
        x = s['x']; see = x['seen']
        if o.get('stray'): return 'requests nobody chose: %s' % o['stray']
        if o.get('left'): return 'a timer of a closed front end still runs'
        if 'missing' in o: return 'the row of %s is gone' % o['missing']
        if see in ('items', 'all'):
            if sorted(o['items']) != sorted(mg[m] for m in x['items']): return 'offers %s, expected %s' % (o['items'], [mg[m] for m in x['items']])
            if o['sel'] != ('' if x['sel'] == '-' else mg[x['sel']]): return 'selected %r, expected %r' % (o['sel'], x['sel'])
        if see == 'rows' or (see == 'all' and x['known']):
            l = [[r['n'], r['s']] for r in x['rows']['loaded']]; idle = sorted([n, 'uninitialized'] for n in x['rows']['idle']); got = [r[:2] for r in o['rows']]
            if got[:len(l)] != l or sorted(got[len(l):]) != idle: return 'shows %s, expected %s then %s' % (got, l, idle)
            for r in o['rows']:
                if r[2].startswith(('no icon', 'cannot')): return 'row %s: %s' % (r[:2], r[2])
                if any(q[2] == r[2] for q in o['rows'] if (q[1] == 'running') != (r[1] == 'running')): return 'running and not running look the same: %s' % o['rows']
        if see == 'menu':
            known = {'stop': 'Stop', 'kill': 'Stop and Unload', 'start': 'Start', 'unload': 'Unload', 'load': 'Load', 'spawn': 'Load and Start'}
            if o.get('menu') is None: return '' if not x['entries'] else 'no menu for %s' % x['state']
            if x['state'] != 'waiting' and len(o['menu']) != len(x['entries']): return 'menu for %s: %s, expected %s' % (x['state'], o['menu'], sorted(known[e] for e in x['entries']))
        if 'no entry' in o: return '%s is not in the menu: %s' % (s['e'], o['no entry'])
        if see == 'requests':
            exp = [[x['to'], r, s['n']] for r in x['rs']]; got = o.get('requests')
            if got is None: return 'no answer'
            if got != exp and not (x['free'] and got and got == exp[:len(got)]): return 'requests %s, expected %s' % (got, exp)
        if see == 'details':
            cl = [] if x['idle'] else claims[(sorted(line['names']).index(s['n']) + x['v']) % len(claims)]; ty = 'kind/of_%s_in_%s_%d' % (s['n'], 'n2' if s['m'] == 'm2' else 'n1', x['v']) if x['idle'] else 'type of %s at %s, version %d' % (s['n'], s['m'], x['v'])
            if 'name' not in o or o['name'] != s['n'] or o['type'] != ty or o['claims'] != cl: return 'details %s, expected %s of type %s claiming %s' % (o, s['n'], ty, cl)
        return ''
    def j(out):
        try: a = json.loads(out)
        except ValueError: return 'observed <%s>' % out[:300]
        if 'obs' not in a: return 'the front end ended with %s' % a
        for k, s in enumerate(c['h']):
            if k >= len(a['obs']): return 'step %d (%s): nothing seen' % (k, s['e'])
            w = wrong(s, a['obs'][k], a)
            if w: return 'after %s: %s' % (' / '.join(' '.join(z for z in (q['e'], q['m'], q['n']) if z != '-') for q in c['h'][:k + 1]), w)
        return ''
    return j
def cases(cs, clocks):
    for c in cs:
        salt = json.dumps(c, sort_keys=True); m = vf.skin('gui' + salt, ['a', 'b', 'c'], pool=POOL); g = vf.rng('gui', salt); p = g.choice(PLACES)
        c = ren(c, m); cl = CLAIMS[:]; g.shuffle(cl)
        line = {'kind': 'gui', 'clocks': clocks, 'h': c['h'], 'managers': {'m1': p[0], 'm2': p[1], 'm3': p[2]}, 'namespaces': {'n1': p[3], 'n2': p[4]}, 'claims': cl, 'names': list(m.values()), 'serial': g.choice([1, 1, 2])}
        yield json.dumps(line), judge(c, line)
def clocks():
    """what each of the front end's timers looks for"""
    w = {'up': ['m1'], 'ctl': {'m1': []}, 'conf': {'n1': [], 'n2': []}, 'cv': 0}
    line = json.dumps({'kind': 'gui', 'probe': True, 'h': [{'e': 'start selected', 'm': 'm1', 'n': '-', 'world': w}], 'managers': {'m1': '/cm'}, 'namespaces': {'n1': '/', 'n2': '/q'}, 'claims': CLAIMS, 'names': []})
    out = vf.replay('python3', [line], args=[vf.VERIF + '/harness/py/tools.py', vf.REPO, vf.scratch()], env={'PYTHONDONTWRITEBYTECODE': '1'})[0]
    try: return json.loads(out)['clocks'], ''
    except (ValueError, KeyError): return [['managers'], ['controllers']], out
def check(prop):
    r = vf.Result(prop, LEVEL); t = vf.thorough(); k, w = clocks(); m = '_merged' if any(len(x) > 1 for x in k) else ''; conv = lambda kind, cs: cases(cs, k)
    if w: r.violation('the front end did not start', {'complaint': w})
    p_c26.run(r, prop, [('gui', 'Gui', [x + m for x in (('bfs4', 'menu6', 'twice') if t else ('bfs', 'menu', 'twice'))])], conv, timeout=1500)
    p_c26.run(r, prop, [('gui', 'Gui', ['sim' + m])], conv, extra=['-simulate', 'num=%d' % (1000 if not t else 40000), '-depth', '17', '-seed', str(vf.SEED)], timeout=1500)
    r.cov['bound'] = NOTE
    r.assume += ['the stand-in for Qt behaves as Qt where the plugin uses it']
    return r.finish()
