"""C01, C11: behaviours of Lifecycle.tla / CtlInit.tla replayed on the real controller base classes."""
import vf
SRC = vf.VERIF + '/harness/ci/ci.cpp'
ENV = {'ASAN_OPTIONS': 'detect_leaks=0'}
def harness(): return vf.build('ci', [(SRC, ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'])], link=['-fsanitize=address,undefined'])
def life_cases(cs):
    for c in cs:
        g = vf.rng('time', str(c)); nc = len(c[0]['st']); odd = g.random() < 0.5
        sts = lambda o: ','.join(o['st'])
        ts = [((100 * n, n), (n, 7)) if not odd else (g.choice([(0, 0), (4294967295, 999999999), (1, 0), (0, 1), (100, 5)]), g.choice([(0, 0), (0, 1), (-1, 999999999), (2147483647, 0), (-5, 0), (1, 0)])) for n in range(1, len(c) + 1)]
        exp = ','.join(['constructed'] * nc); ops = ''
        for (t, p), o in zip(ts, c):
            hk = ','.join('%s@%d.%d' % (h, *t) + ('/%d.%d' % p if h == 'update' else '') for h in o['hooks'])
            exp += ' %s;%s;%s' % ('-' if o['op'] == 'update' else 'true' if o['ok'] else 'false', hk, sts(o))
            ops += ' %d:%s:%d:%d:%d:%d' % (o['ctl'], o['op'], *t, *p)
        ks = ('P', 'S_EJ', 'S_JS', 'M_EV', 'M_EVJo')
        for k in range(5 if nc == 1 else 3): yield 'L %s%s' % (','.join(ks[(k + i * g.choice([0, 1, 2])) % 5] for i in range(nc)), ops), exp
RES = ['r1', 'r2', 'r3', 'r4', 'r5', 'r6', 'nope']
def init_cases(cs):
    def judge(ops, sk):
        fmt = lambda s: '+'.join(sorted('%s:%s' % (ty, ','.join(sorted(vf.enc(sk[n]) for n in rs))) for ty, rs in s))
        def j(o):
            got = o.split(' ')
            if len(got) != len(ops): return 'unreadable answer <%s>' % o
            for x, g in zip(ops, got):
                if x['op'] == 'touch': continue
                ok, st, seen, rep, left = g.split(';')
                if ok != ('true' if x['ok'] else 'false'): return '%s initialisation answered %s, expected %s' % (x['kind'], ok, x['ok'])
                if st != x['st']: return '%s is %s, expected %s' % (x['kind'], st, x['st'])
                if x['runs'] != (seen != 'notrun'): return "%s: own initialisation %s" % (x['kind'], 'not reached' if x['runs'] else 'reached although it must not be')
                if x['runs'] and seen != fmt(x['seen']): return '%s saw %s, expected %s' % (x['kind'], seen, fmt(x['seen']))
                if x['ok']:
                    if rep != fmt(x['claims']): return '%s reported claims %s, expected %s' % (x['kind'], rep, fmt(x['claims']))
                    l = dict(t.split(':') for t in left.split('+'))
                    for ty, _ in x['seen']:
                        if l[ty]: return 'claims %s left on %s after initialising %s' % (l[ty], ty, x['kind'])
            return ''
        return j
    for c in cs:
        t = ' '.join('touch:%s:%s' % (o['ty'], o['r']) if o['op'] == 'touch' else 'init:%d:%s:%d:%s' % (o['ctl'], o['kind'], o['rej'], ','.join('%d.%s.%s' % tuple(a) for a in o['acc'])) for o in c['ops'])
        sk = vf.skin(str(c), RES); yield 'I %s %s %s %s %s' % (c['robot']['EJ'], c['robot']['VJ'], c['robot']['JS'], ','.join('%s=%s' % (a, vf.enc(b)) for a, b in sk.items()), t), judge(c['ops'], sk)
def check(prop):
    r = vf.Result(prop, 'model_checking'); t = vf.thorough()
    from concurrent.futures import ThreadPoolExecutor
    sim = lambda n, d: {'extra': ['-simulate', 'num=%d' % n, '-depth', str(d), '-seed', str(vf.SEED)], 'workers': 1}
    with ThreadPoolExecutor(4) as ex:
        hb = ex.submit(harness)
        if prop == 'C01': jobs = [('Lifecycle.tla', 'Lifecycle6.cfg' if t else 'Lifecycle.cfg', {}), ('Lifecycle.tla', 'LifecycleTwo.cfg', {}), ('Lifecycle.tla', 'LifecycleSim.cfg', sim(1000 if t else 60, 45))]; gen = life_cases; r.cov['bound'] = 'every sequence of %d requests, sequences of 4 to two controllers, random sequences of 40 to three; 5 controller classes' % (6 if t else 5)
        else: jobs = [('CtlInit.tla', 'CtlInit.cfg', {}), ('CtlInit.tla', 'CtlInit2.cfg', {}), ('CtlInit.tla', 'CtlInitSim.cfg', sim(1500 if t else 40, 9)), ('CtlInit.tla', 'CtlInitBig.cfg', sim(3000 if t else 60, 13))]; gen = init_cases; r.cov['bound'] = 'every robot x controller class x behaviour x one earlier use; two initialisations on 4 robots; random histories of 8; of 12 with random behaviours and <=6 resources per interface'
        fs = [ex.submit(vf.spec_cases, r, m, c, **{**{'workers': 4}, **k}) for m, c, k in jobs]
        b = hb.result()
        for f in fs: vf.compare(r, b, list(gen(f.result())), prop, env=ENV, timeout=600)
    r.assume += ['hooks do not throw', 'claims after a failed initialisation are not constrained until the next one'] if prop == 'C11' else ['hooks do not throw']
    return r.finish()
