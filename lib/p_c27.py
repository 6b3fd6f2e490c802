"""C27: Queries.tla replayed on the real query functions."""
import vf, json, p_c26
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification Queries.tla enumerated with TLC; every world, list and argument given to the real functions and the answers compared'
NOTE = 'Three namespaces with every single missing or mistyped service, five misleading names, histories of two worlds (three), lists of up to three controllers with up to two claims each, ten parameter names.'
TYPES = {'list_controllers': 'ListControllers', 'list_controller_types': 'ListControllerTypes', 'load_controller': 'LoadController', 'unload_controller': 'UnloadController', 'switch_controller': 'SwitchController', 'reload_controller_libraries': 'ReloadControllerLibraries'}
SEGS = ['p', 'robot', 'arm', 'controller_manager', 'list_controllers', 'load_controller', 'p_q', 'P', 'r2d2', 'type2', 'lc', 'elsewhere2', 'cm']
CHARS = ['x', 'y', '.', '*', '[', '(', '$', '^', '\\', ' ', '/', '_', 'X', '\u00e4', '%', 'ab', 'cd', '0', '-', ':', "'", '"', '+', '?']
ALIKE = [('a', 'A', 'b'), ('X', 'x', 'z'), (' ', '\t', 'a'), ('\u00e4', 'a', '\u00c4'), ('-', '_', '.'), ('a', ' ', 'b'), ('/', '\\', 'x'), ('0', 'O', 'o')]
class Skin:
    """other names for the segments of paths and the letters of texts: 'pp' and 'nn' stay a doubled 'p' and 'n'"""
    def __init__(self, salt):
        m = vf.skin(salt, ['p', 'q'], pool=SEGS); self.seg = {**m, 'pp': m['p'] * 2}
        m = vf.skin('params' + salt, ['foo', 'n', 'bar', 'baz', 'a', 'm'], pool=['foo', 'n', 'bar', 'baz', 'arm', 'm', 'robot', 'types', 'N', 'gains', 'foo2', 'ba']); self.par = {**m, 'nn': m['n'] * 2}
        self.chr = vf.skin('letters' + salt, ['x', 'y', 'z'], pool=CHARS)
        if vf.rng('alike', salt).random() < .25: self.chr = dict(zip('xyz', vf.rng('alike2', salt).choice(ALIKE)))   # letters that are nearly the same
    def path(self, p): return '/' + '/'.join(self.seg.get(s, s) for s in p)
    def ppath(self, p): return '/' + '/'.join(self.par.get(s, s) for s in p)
    def text(self, x): return 'q' if x is None else ''.join(self.chr[c] for c in x)
OTHER = ['controller_manager_msgs/ControllerManager', '%sX', 'my_%s', '%s/', 'std_srvs/Empty', 'x/%s', 'controller_manager_msgs/List', '']
def typ(t, name, n): r = 'controller_manager_msgs/' + TYPES.get(name, ''); return r if t.startswith('right ') else OTHER[n % len(OTHER)].replace('%s', r) if t == 'other type' else 'std_srvs/Empty'
def seg(n, path, p): return path(p) if n % 3 == 0 else (path(p) + '/').replace('//', '/') if n % 3 == 1 else path(p)[1:]
def one_of(allowed):
    def j(o):
        try: return '' if json.loads(o) in allowed else 'answered %s; expected one of %s' % (o[:200], allowed)
        except ValueError: return 'observed <%s>' % o[:300]
    return j
def cases(kind, cs):
    for n, c in enumerate(cs):
        i, out = c['in'], c['out']; S = Skin(json.dumps(i, sort_keys=True)); path, text = S.path, S.text
        if kind in ('managers', 'lister'):
            guess = [path(p) for p in i['guess']]; ws = []
            for w in i['worlds']:
                sv = [(path(a), typ(t, a[-1], n // 2)) for a, t in w['services']]
                if n % 2: sv.reverse()
                ws.append(None if w['down'] else dict(sv))
            line = {'search': seg(n, path, i['search']), 'guess': guess[::-1] if n % 2 else guess, 'worlds': ws}; exp = [sorted(path(p) for p in o) for o in out]
        elif kind == 'params': line = {'params': [S.ppath(p) for p in i['params']], 'ns': seg(n, S.ppath, i['ns'])}; exp = [sorted(S.par.get(x, x) for x in o) for o in out]
        elif kind == 'calls': line = i; exp = [[[] if x == 'none' else [x] for x in o] for o in out[0]]
        else:
            line = {'list': [{'name': text(x['name']), 'type': text(x['type']), 'state': text(x['state']), 'claims': [{'hw': text(r['hw']), 'res': [text(z) for z in r['res']]} for r in x['claims']]} for x in i['list']]}
            if kind == 'res': line.update(rs=[text(z) for z in i['rs']], hw=None if i['hw'] == ['*'] else text(i['hw']), any=i['any'])
            else: line.update(val=text(i['val']), sub=i['sub'], by=i.get('by'))
            exp = out
        yield json.dumps({'kind': 'queries', 'q': kind, 'in': line, 'alias': n % 2 == 1}), one_of(exp) if kind == 'calls' else json.dumps(exp)
def check(prop):
    r = vf.Result(prop, LEVEL)
    t = vf.thorough()
    sim = dict(extra=['-simulate', 'num=%d' % (1500 if not t else 30000), '-depth', '4', '-seed', str(vf.SEED)])
    p_c26.run(r, prop, [(k, 'Queries', [c]) for k, c in [('managers', 'managers6' if t else 'managers'), ('lister', 'lister'), ('attr', 'attr'), ('hw', 'hw3' if t else 'hw'), ('res', 'res3' if t else 'res'), ('params', 'params'), ('calls', 'calls')] + ([('lister', 'lister3')] if t else [])], cases)
    p_c26.run(r, prop, [(k, 'Queries', [k + 'sim']) for k in ('attr', 'hw', 'res')], cases, **sim)
    r.cov['bound'] = NOTE
    return r.finish()
