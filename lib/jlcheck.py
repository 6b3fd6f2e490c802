"""C18, C19: histories of Limits.tla replayed on the real joint limit handles and interfaces."""
import vf
ENV = {'ASAN_OPTIONS': 'detect_leaks=0'}
F = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
S = 65536.0
def harness(): return vf.build('jl', [(vf.VERIF + '/harness/jl/jl.cpp', F)], link=['-fsanitize=address,undefined'])
def cases(cs):
    for c in cs:
        g = vf.rng('units', str(c)); lam, tau = g.choice([(1.0, 1.0), (2.0 ** -12, 1.0), (2.0 ** 16, 1.0), (1.0, 2.0 ** -7), (2.0 ** -6, 2.0 ** -7)]); unit = lam / tau if c['kind'][:3] == 'Vel' else lam
        line = '%.17g %.17g %s %s %s %s' % (lam, tau, c['kind'], ' '.join(map(str, c['lim'])), ' '.join(map(str, c['soft'])), ' '.join(','.join(str(x) for x in o[:5]) for o in c['ops']))
        if c['st'] == 'rejected': yield line.strip(), 'rejected'; continue
        def j(o, ops=c['ops'], unit=unit):
            got = o.split(' ')
            if len(got) != len(ops): return 'expected %d commands, observed <%s>' % (len(ops), o)
            for i, (g, op) in enumerate(zip(got, ops)):
                if op[0] != 'enforce': continue
                try: g = float(g) / unit
                except ValueError: return 'observed <%s>' % o
                lo, hi = op[5] / S, op[6] / S
                if op[7] and g != op[1]: return 'step %d: command %s within the limits became %r' % (i + 1, op[1], g)
                if not lo - 1e-6 <= g <= hi + 1e-6: return 'step %d: command %s at position %s, velocity %s became %r, expected %s' % (i + 1, op[1], op[3], op[4], g, lo if lo == hi else '%s to %s' % (lo, hi))
            return ''
        yield line, j
def prune(cs, k):
    """of histories that differ in the last step only, some (simulation prints every last step)"""
    by = {}; r = vf.rng('limits')
    for c in cs: by.setdefault(str((c['kind'], c['lim'], c['soft'], c['ops'][:-1])), []).append(c)
    return [x for v in by.values() for x in (v if len(v) <= k else r.sample(v, k))]
def check(prop):
    r = vf.Result(prop, 'model_checking'); t = vf.thorough(); s = 'sat' if prop == 'C18' else 'soft'
    cfgs = [(s + '1', 0), (s + '2', 0), (s + 'L', 1500 if t else 300 if s == 'sat' else 100)] + ([(s + '3', 0)] if t else []) + ([(s + 'W', 0)] if t or s == 'sat' else [])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4 if not t else 2) as ex:
        hb = ex.submit(harness)
        fs = [ex.submit(vf.spec_cases, r, 'Limits.tla', 'Limits_%s.cfg' % c, **(dict(extra=['-simulate', 'num=%d' % n, '-depth', '10', '-seed', str(vf.SEED)], workers=1, timeout=1800) if n else dict(workers=2 if not t else 4, timeout=1800, heap='8g'))) for c, n in cfgs]
        for f, (c, n) in zip(fs, cfgs): vf.compare(r, hb.result(), list(cases(prune(f.result(), 40) if n else f.result())), prop, env=ENV)
    r.cov['bound'] = 'one step: every kind x limit menu x input menu; two steps: positions and rates%s; 8 steps: seeded simulation' % ('; three steps' if t else '')
    r.assume += ['periods are positive; quantities are multiples of 1/65536 so that the expected value is exact (compared within 1e-6, untouched commands exactly)']
    return r.finish()
