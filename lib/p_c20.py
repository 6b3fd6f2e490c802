"""C20: loads enumerated by LimitsLoad.tla replayed on the real loading functions."""
import vf
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification LimitsLoad.tla checked and enumerated with TLC; every load replayed on the real parameter and URDF loading functions'
NOTE = 'Exhaustive for every flag/value combination of one quantity against three backgrounds, all soft limit combinations, and sequences of two (three) loads. Trusts the parameter server stub.'
Q = ['position', 'velocity', 'acceleration', 'jerk', 'effort']; F = ['min_position', 'max_position', 'max_velocity', 'max_acceleration', 'max_jerk', 'max_effort']; SF = ['k_position', 'k_velocity', 'soft_lower_limit', 'soft_upper_limit']
def cases(cs):
    for c in cs:
        line, exp = ['%d' % vf.rng('values', str(c)).randrange(3), '1' if c['used'] else '0'], []
        for o in c['ops']:
            s = o['src']; n = o['name'].replace(' ', '_')
            if o['kind'] in ('params', 'softparams'):
                ps = [('has_soft_limits', s['flag'])] if o['kind'] == 'softparams' else [('has_%s_limits' % q, s['flag'][q]) for q in Q] + [('angle_wraparound', s['wrap'])]
                ps = [(k, v) for k, v in ps + list(s['val'].items()) if v != 'absent']
                line.append('%s %s %d %s' % (o['kind'], n, len(ps), ' '.join('%s %s' % p for p in ps)))
            else: line.append('%s %s %s %s' % (o['kind'], n, s['type'], s['has']))
            exp.append('%s %s%d %s %s' % (str(o['res']).lower(), ''.join(str(int(o['lim']['has'][q])) for q in Q), o['lim']['wrap'], ' '.join(o['lim']['val'][f] for f in F), ' '.join(o['soft'][f] for f in SF)))
        yield ' '.join(line), ' '.join(exp)
def check(prop):
    r = vf.Result(prop, 'model_checking'); t = vf.thorough(); fl = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        hb = ex.submit(lambda: vf.build('jll', [(vf.VERIF + '/harness/jl/jll.cpp', fl)], link=['-fsanitize=address,undefined']))
        fs = [ex.submit(vf.spec_cases, r, 'LimitsLoad.tla', 'LimitsLoad_%s.cfg' % c, workers=2, timeout=1200) for c in ['one', 'seq', 'soft'] + (['seq3', 'soft2'] if t else [])]
        for f in fs: vf.compare(r, hb.result(), list(cases(f.result())), prop, env={'ASAN_OPTIONS': 'detect_leaks=0'})
    return r.finish()
