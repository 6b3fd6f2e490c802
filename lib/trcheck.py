"""C21, C28: Transmission.tla and TransConf.tla replayed on the real transmissions."""
import random, vf
from concurrent.futures import ThreadPoolExecutor
ENV = {'ASAN_OPTIONS': 'detect_leaks=0'}
F = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
Q = ['position', 'velocity', 'effort', 'absolute_position', 'torque_sensor']
def harness(): return vf.build('tr', [(vf.VERIF + '/harness/tr/tr.cpp', F)], link=['-fsanitize=address,undefined'])
num = lambda r: repr(r[0] / r[1])
flat = lambda d: [x for side in d for q in side for x in q]
def close(a, b): return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-3)
def units(c, key):
    """Signed powers of two by which the units of reductions and data are changed: the maps are linear in the data, so results change by known factors."""
    g = random.Random(key); pick = lambda: g.choice([1, 1, -1, 2, 0.5, -4, 2.0**-20, -2.0**17, 2.0**90, -2.0**-110]); n = len(c['ar'])
    if g.random() < .3: pick = lambda: 1
    p, r, U, E, T = [[pick() for _ in range(n)] for _ in '12'] + [pick() for _ in '123']
    if c['kind'] == 'simple': r = [1]; ja = p; jj = [1]
    elif c['kind'] == 'diff': ja = p; jj = [1 / x for x in r]
    else: ja = [p[0] * r[0], p[1]]; jj = [1, 1 / r[1]]
    flow = [[U * x for x in s] for s in (ja, jj)]; eff = lambda e: [[e / x for x in s] for s in (ja, jj)]
    e, t = eff(E), eff(T); A = flow[1][::-1] if c['ign'] else flow[0]
    return p, r, flow[1], [u for s in ([flow[0], flow[0], e[0], A, t[0]], [flow[1], flow[1], e[1], flow[1], t[1]]) for q in s for u in q]
def maps(cs):
    for i, c in enumerate(cs):
        k = c['c']; n = len(k['ar']); p, r, o, u = units(k, '%d %d' % (vf.SEED, i)); by = lambda v, f: ' '.join(repr(x[0] / x[1] * y) for x, y in zip(v, f))
        line = 'maps %s %d %s %s %s %d %s %s' % (k['kind'], n, by(k['ar'], p), by(k['jr'], r), by(k['of'], o), k['ign'], by(flat(c['d']), u),
                                           ' '.join('%s%d' % (o['map'][0][0].lower(), Q.index(o['map'][1])) for o in c['ops']))
        exp = [[x[0] / x[1] for x in flat(o['d'])] for o in c['ops']]
        def j(o, exp=exp, ops=c['ops'], n=n, u=u):
            got = o.split(' ')
            if len(got) != len(exp): return 'observed <%s>' % o
            for g, e, op in zip(got, exp, ops):
                try: g = [float(x) for x in g.split(',')[:-1]]
                except ValueError: return 'observed <%s>' % o
                if len(g) != len(e): return 'observed <%s>' % o
                for i, (x, y, f) in enumerate(zip(g, e, u)):
                    if not close(x / f, y): return 'after %s %s: %s %s %d is %r, expected %r' % (*op['map'], 'actuator' if i < 5 * n else 'joint', Q[i // n % 5], i % n + 1, x, y * f)
            return ''
        yield line, j
SCALES = ['1', '-1', '2', '-2', '0.5', '1e-300', '-1e-300', '4.9e-324', '-4.9e-324', '1e300', '-1.7e308', '1e-16', '1.0000000000000002', '-3', '3']
def values(c):
    """other values for the reductions that are not zero: alike ones, opposite ones, ones whose products vanish"""
    g = random.Random('%d %s' % (vf.SEED, c)); x = g.choice(SCALES)
    menu = g.choice([None, SCALES, ['1e-300', '-4.9e-324', '1e-200'], [x, x, x.lstrip('-'), '-' + x.lstrip('-')]])
    if menu is None: return c
    return dict(c, **{k: [e if float(e) == 0 else g.choice(menu) for e in c[k]] for k in ('ar', 'jr')})
def confs(cs):
    for c in map(values, cs):
        v = lambda x: '%d %s' % (len(x), ' '.join(x))
        line = ' '.join(('conf %s %s %d %s %s %s' % (c['kind'], c['ctor'], c['ign'], v(c['ar']), v(c['jr']), v(c['of']))).split())
        if c['st'] == 'rejected': yield line, 'rejected'; continue
        f = lambda x: '%d %s' % (len(x), ' '.join('%.17g' % float(e) for e in x))
        yield line, 'ok %d %d 11 %s' % (c['dim'], c['dim'], ' '.join([f(c['ar'])] + ([f(c['jr'])] if c['dim'] == 2 else []) + [f(c['rof'])])) + ('' if c['kind'] != 'diff' else ' bypass' if c['ign'] else ' through')
def check(prop):
    r = vf.Result(prop, 'model_checking'); t = vf.thorough()
    sim = lambda n: dict(extra=['-simulate', 'num=%d' % n, '-depth', '8', '-seed', str(vf.SEED)], workers=1, timeout=1500)
    bfs = lambda: dict(workers=4, timeout=1500, heap='8g')
    if prop == 'C21': runs = [('Transmission.tla', 'Transmission_%s.cfg' % c, sim(150 if not t else 3000) if c == 'sim' else bfs(), maps) for c in ['one', 'big', 'back', 'sim'] + (['all', 'allback'] if t else [])]
    else: runs = [('TransConf.tla', 'TransConf_%s.cfg' % c, bfs(), confs) for c in ['one', 'mixed'] + (['all'] if t else [])]
    with ThreadPoolExecutor(5 if not t else 3) as ex:
        hb = ex.submit(harness)
        for f, (m, c, kw, conv) in [(ex.submit(vf.spec_cases, r, m, c, **kw), (m, c, kw, conv)) for m, c, kw, conv in runs]: vf.compare(r, hb.result(), list(conv(f.result())), prop, env=ENV)
    if prop == 'C21': r.cov['bound'] = 'every map x products of reduction, offset and data menus; there-and-back pairs; seeded histories of six maps'; r.assume += ['results are compared with relative tolerance 1e-9']
    else: r.cov['bound'] = 'vectors of length 0..3 with every mixture of ordinary, zero, negative zero and extreme values; every constructor'
    return r.finish()
