"""C26: the command-line tools' specifications replayed on the real scripts."""
import vf, json
from concurrent.futures import ThreadPoolExecutor
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specifications Spawner, Unspawner, GroupTool, CommandTool over ManagerWorld enumerated with TLC; every input run through the real scripts against a stand-in manager, the requests they make and the state they leave compared with the behaviours the specification allows'
NOTE = 'Up to two names (three in the thorough tier) and argument lists of two (three); every pattern of refused requests, single failing calls, one signal, two interventions by others.'
PLAIN = {'a': 'arm_controller', 'b': 'base', 'c': '/robot/c'}
# what controllers may be called: prefixes of one another, words the tools know, other namespaces
POOL = ['arm_controller', 'arm_controller2', 'arm', 'base', '/robot/c', 'Arm', 'a', 'left/arm_controller', 'right/arm_controller', 'x' * 60, 'load', 'list', 'spawn', 'kill', 'arm_', 'joint_state_controller', 'c1', 'c10', '/arm', 'g', 'switch', 'lc', 'type', 'unload', 'controller_manager', 'base/arm', 'h']
GROUPS = ['g', 'h', 'all', 'arm', 'arm2', 'list', 'spawn', '/g', 'Arm', 'pick_and_place', 'base']
def naming(salt):
    m = vf.skin(salt, list(PLAIN), pool=POOL); return PLAIN if m['a'] == 'a' and m['b'] == 'b' else m
def ren(x, m):
    if isinstance(x, str): return m.get(x, x) if ':' not in x else ':'.join(m.get(p, p) for p in x.split(':'))
    if isinstance(x, list): return [ren(y, m) for y in x]
    if isinstance(x, dict): return {m[k] if set(x) <= set(PLAIN) else k: v if k == 'wait' else ren(v, m) for k, v in x.items()}
    return x
def event(kind, e, cut=0):
    strict = e['strict'] and kind in ('command', 'group') or (kind == 'spawner' and bool(e['start']) and e['strict'])
    return (e['op'], e['c'], tuple(sorted(set(e['start']))), tuple(sorted(set(e['stop']))), strict, e['ok'], e['rep'] if kind in ('command', 'group') or (kind == 'spawner' and not cut and (e['op'] == 'load' or e['start'])) else None)
def show(log): return ' '.join('%s(%s%s%s)=%s%s' % (e[0], e[1], '+' + ','.join(e[2]) if e[2] else '', '-' + ','.join(e[3]) if e[3] else '', e[5], {True: '!', False: '', None: ''}[e[6]]) for e in log) or 'no request'
def judge(kind, inp, allowed, line={}):
    """allowed: list of outcomes of the specification for this input"""
    def j(o):
        try: a = json.loads(o)
        except ValueError: return 'observed <%s>' % o[:300]
        if 'log' not in a: return 'the tool ended with %s' % a
        got = (tuple(event(kind, e, inp.get('cut', 0)) for e in a['log']), tuple(sorted(a['st'].items())))
        # a call that failed altogether is reported one way or another, not necessarily at once
        want = [(tuple(event(kind, e, inp.get('cut', 0)) for e in c['log']), tuple(sorted(c['st'].items()))) for c in allowed]
        if got not in want: return 'requests %s leaving %s; expected %s' % (show(got[0]), dict(got[1]), ' or '.join('%s leaving %s' % (show(w[0]), dict(w[1])) for w in want[:3]))
        if a.get('alone'): return 'a second instance of the tool would end this one'
        if not inp.get('cmd', '').startswith('api') and any(e['dup'] for e in a['log']): return 'a name twice in one list of a request'
        if kind == 'spawner':
            if a['early']: return 'a request was made before the topic said so'
            if a['unconfigured']: return 'a controller was loaded before its parameters were set'
            if any(e['ok'] == 'x' for e in a['log']) and not a['complained']: return 'a failed call was not reported'
        if kind == 'group' and inp['cmd'] != 'list' and not a['log'] and not any(inp['groups'].get('g', ())) and not a['complained']: return 'a missing group was not reported'
        if kind == 'group' and inp['cmd'] == 'list':
            words = ' '.join(a['out']).replace(':', ' ').replace(',', ' ').split()
            for n in [line['groups'][g] for g in inp['groups']] + list(allowed[0]['shown']['members']):
                if n not in words: return '%s is not listed: %s' % (n, a['out'])
        if kind == 'command':
            c = allowed[0]
            if c['result'] == 'x' and not (a['code'] or a.get('result') == 'x'): return 'the tool ended well although a call failed'
            if inp['cmd'].startswith('api ') and a['result'] != c['result']: return 'returned %s, expected %s' % (a['result'], c['result'])
            if inp['cmd'] == 'nonsense' and not a['code']: return 'an unknown command ended well'
            if inp['cmd'] == 'types' and [l.strip() for l in a['out']] != ['type/one', 'type/two']: return 'types listed: %s' % a['out']
            if inp['cmd'] == 'list':
                lines = [l for l in '\n'.join(a['out']).splitlines() if any(n in l for n in inp['st'])]
                if len(lines) != len(c['listed']): return 'listed %s, expected %s' % (a['out'], c['listed'])
                for l, n in zip(lines, c['listed']):
                    st = inp['st'][n]
                    if n not in l or st not in l or {'stopped': 'running', 'running': 'stopped'}[st] in l or any('hw%s/%d' % (n, i) not in l for i in range(1)): return 'line %r for %s, which is %s' % (l, n, st)
        return ''
    return j
def cases(kind, cs):
    by = {}
    for c in cs: by.setdefault(json.dumps(c['in'], sort_keys=True), []).append(c)
    for n, (k, outs) in enumerate(by.items()):
        m = naming(kind + k); outs = [ren(c, m) for c in outs]
        line = {'kind': kind, 'in': outs[0]['in'], 'alias': n % 2 == 1}
        if kind == 'group': line['groups'] = vf.skin('groups' + k, ['g', 'h'], pool=GROUPS)
        if kind == 'command': line['order'] = [m[x] for x in (['b', 'a'] if len(outs[0]['in']['st']) == 2 else ['b', 'c', 'a'])]
        yield json.dumps(line), judge(kind, outs[0]['in'], outs, line)
QUICK = [('spawner', 'Spawner', ['loads', 'exit', 'faults', 'wait']), ('unspawner', 'Unspawner', ['two', 'ticks', 'race']), ('group', 'GroupTool', ['switch', 'spawn', 'list']), ('command', 'CommandTool', ['args', 'throws', 'api', 'reload', 'reload3'])]
THOROUGH = [('spawner', 'Spawner', ['loads3', 'exit3', 'faults3']), ('unspawner', 'Unspawner', ['three', 'race3']), ('group', 'GroupTool', ['switch3']), ('command', 'CommandTool', ['args3', 'api3'])]
def run(r, prop, jobs, conv, module=lambda m: m + '.tla', **kw):
    tool = vf.VERIF + '/harness/py/tools.py'; args = [tool, vf.REPO, vf.scratch()]
    with ThreadPoolExecutor(4) as ex:
        fs = [(kind, ex.submit(vf.spec_cases, r, module(m), '%s_%s.cfg' % (m, c), **dict(dict(workers=1 if kw else 2, timeout=1500, heap='6g'), **kw))) for kind, m, cfgs in jobs for c in cfgs]
        for kind, f in fs: vf.compare(r, 'python3', list(conv(kind, f.result())), prop, args=args, env={'PYTHONDONTWRITEBYTECODE': '1'}, timeout=800)
def check(prop):
    r = vf.Result(prop, LEVEL)
    run(r, prop, QUICK + (THOROUGH if vf.thorough() else []), cases, lambda m: ('MC_' if m == 'CommandTool' else '') + m + '.tla')
    r.cov['bound'] = NOTE
    return r.finish()
