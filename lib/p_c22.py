"""C22: TransHandles.tla replayed on the real handles and interfaces."""
import vf, trcheck
from concurrent.futures import ThreadPoolExecutor
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification TransHandles.tla checked, enumerated and simulated with TLC; every construction and every history of registering and propagating replayed on the real handles and interfaces'
NOTE = 'One and two malformed vectors; up to three registrations over five transmissions; longer histories simulated.'
def build(cs):
    for c in cs: yield 'build %s %s %s %d %s' % (c['hk'], vf.enc(vf.skin(str(c), ['name'])['name']), c['tr'], c['usable'], ' '.join('%d %d' % tuple(x) for s in 'aj' for x in c['vec'][s])), c['st']
NEED = {'state': '11100', 'position': '10000', 'velocity': '01000', 'effort': '00100'}
def run(cs):
    n_ = trcheck.num
    for c in cs:
        line, exp = ['run', c['hk']], []
        sk = {n: vf.enc(x) for n, x in vf.skin(str([(o['op'], o['args']) for o in c['ops']]) + c['hk'], {'x', 'y', 'z', 'w'}).items()}
        for o in c['ops']:
            a, op = o['args'], o['op']; word = {'propagate': 'propagated', 'write': 'written', 'register': 'registered'}.get(op)
            line.append(op)
            if op == 'register':
                k = a['conf']; has = {'all': '11111', 'basic': '11100', 'needed': NEED[c['hk'][3:]], 'encoder': '11110', 'sensor': '11101'}[a['has']]
                line += [sk[a['name']], 'plain' if a['plain'] else k['kind'], str(len(k['ar']))] + [n_(x) for v in ('ar', 'jr', 'of') for x in k[v]] + [str(int(k['ign'])), has] + [n_(x) for x in trcheck.flat(o['d'][-1])]
            elif op == 'one': line.append(sk[a['name']]); word = 'propagated' if a['known'] else 'unknown'
            elif op == 'names': word = ':'.join(['names'] + sorted(sk[n] for n in a['names']))
            exp.append((word, [x[0] / x[1] for s in o['d'] for x in trcheck.flat(s)]))
        def j(o, exp=exp):
            got = o.split(' ')
            if len(got) != len(exp): return 'observed <%s>' % o
            for i, (g, (w, v)) in enumerate(zip(got, exp)):
                g = g.split(',')
                if g[0] != w: return 'step %d: expected %s, observed %s' % (i + 1, w, g[0])
                if len(g) - 1 != len(v) or not all(trcheck.close(float(x), y) for x, y in zip(g[1:], v)): return 'step %d: data %s, expected %s' % (i + 1, g[1:], v)
            return ''
        yield ' '.join(line), j
def check(prop):
    r = vf.Result(prop, 'model_checking'); t = vf.thorough()
    sim = dict(extra=['-simulate', 'num=%d' % (150 if not t else 5000), '-depth', '11', '-seed', str(vf.SEED)], workers=1, timeout=1500)
    runs = [(c, build if c.startswith('b') else run, sim if c == 'sim' else dict(workers=2, timeout=1500, heap='8g')) for c in ['build', 'build2', 'run', 'run3', 'sim'] + (['run3a'] if t else [])]
    with ThreadPoolExecutor(5 if not t else 3) as ex:
        hb = ex.submit(lambda: vf.build('th', [(vf.VERIF + '/harness/tr/th.cpp', trcheck.F)], link=['-fsanitize=address,undefined']))
        for f, conv in [(ex.submit(vf.spec_cases, r, 'TransHandles.tla', 'TransHandles_%s.cfg' % c, **kw), conv) for c, conv, kw in runs]: vf.compare(r, hb.result(), list(conv(f.result())), prop, env=trcheck.ENV)
    r.cov['bound'] = NOTE
    r.assume += ['data vectors a handle needs are present before it is propagated (documented precondition)']
    return r.finish()
