"""C12-C15: cases enumerated by Interfaces/Resources/Handles/Conflict.tla replayed on the real hardware_interface headers."""
import vf
SRC = vf.VERIF + '/harness/hw/hw.cpp'
IFACES = {True: ['JointCommandInterface', 'EffortJointInterface', 'VelocityJointInterface', 'PositionJointInterface', 'PosVelJointInterface', 'PosVelAccJointInterface', 'PositionVelocityTorqueGainsJointInterface'],
          False: ['JointStateInterface', 'ActuatorStateInterface', 'ActuatorCommandInterface', 'EffortActuatorInterface', 'VelocityActuatorInterface', 'PositionActuatorInterface', 'ForceTorqueSensorInterface', 'ImuSensorInterface', 'JointModeInterface']}
def harness(): return vf.build('hw', [(SRC, ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'])], link=['-fsanitize=address,undefined'])
ENV = {'ASAN_OPTIONS': 'detect_leaks=0'}
ODD = [0.0, -1.0, float('inf'), float('-inf'), float('nan'), 1e-300, 1e300, -0.5, 3e-5, -7e9, 12345, 0.1]
def odd_value(k): return ODD[k % 12] if k < 100 else ODD[(k + 5 * (k // 100)) % 12]

# ---- C14
def handle_cases(cs):
    for c in cs:
        k = c['kind']; salt = str(c); nm = vf.skin(salt, ['elbow_7'])['elbow_7']; odd = vf.rng('values', salt).random() < 0.5 and k['own'] != 'mode'
        name = vf.enc(nm); num = (lambda v: '%g' % odd_value(v)) if odd else (lambda v: '%g' % v)
        ops = ['%s:%s:%s' % (o[0], o[1], ','.join(map(str, o[2]))) for o in c['ops']]
        line = 'H %d %s %s %s %s %s %s %s' % (odd, k['own'], k['state'], k['cmd'], name, ','.join(c['slots']), ','.join(sorted(c['nulls'])) or '-', ' '.join(ops))
        if c['throws']:
            exp = 'throws+name' if k['own'] in ('joint', 'act') else (lambda o: '' if o.startswith('throws') else 'expected an error, observed <%s>' % o)
        else:
            val = lambda s: 'null' if s in c['nulls'] else '%s/%s' % (num(c['mem'][s]), num(c['mem'][s]))
            exp = name
            if k['own'] in ('ft', 'imu'): exp += ' ' + vf.enc('frame_' + nm)
            exp += ''.join(' %s=%s' % (s, val(s)) for s in c['slots'])
            if k['own'] in ('joint', 'act'): exp += ''.join(' %s%s' % (s, '-tt' if s in c['unavailable'] else '+') for s in ('abs', 'tor'))
            if k['own'] == 'imu': exp += ' | ' + exp
        yield line, exp
# ---- C13
def registry_cases(cs):
    for c in cs:
        plain = {o['name'] for o in c['ops']} - {''}
        for i in IFACES[c['claiming']]:
            sk = vf.skin(str(c) + i, plain); cod = lambda ns: ','.join(sorted(vf.enc(sk[n]) for n in ns))
            exp = ' '.join('%d[%s][%s]' % (o['obs']['res'], cod(o['obs']['names']), cod(o['obs']['claims'])) for o in c['ops'])
            line = ' '.join('%s:%s' % (o['op'], vf.enc(sk[o['name']]) if o['name'] else '') for o in c['ops'])
            yield 'R %s %s' % (i, line), exp
# ---- C12
def interface_cases(cs):
    import re
    pat = re.compile(r'\[([^\]]*)\] A\{([^}]*)\} B\{([^}]*)\} P\{([^}]*)\} ')
    def judge(exp, back):
        def j(o):
            got = pat.findall(o)
            if len(got) != len(exp): return 'unreadable answer <%s>' % o
            for m, (e, g) in enumerate(zip(exp, got), 1):
                names = sorted({'arm::A': 'P', 'arm::A_': 'B'}.get(n, n) for n in g[0].split(',') if n)
                if names != sorted(e['names']): return 'manager %d lists interfaces %s, expected %s' % (m, names, sorted(e['names']))
                for ty, ans in zip('ABP', g[1:]):
                    x = e['get'][ty]; ident, listed, handles = ans.split(';')
                    if '!' in ans: return 'manager %d, type %s: %s' % (m, ty, ans)
                    if {back.get(n, n) for n in listed.split(',') if n} != set(x['listed']): return 'manager %d reports resources {%s} for %s, expected %s' % (m, listed, ty, sorted(x['listed']))
                    objs = x['objs']
                    want = 'none' if not objs else objs[0] if len(objs) == 1 else 'new'
                    if ident != want: return 'manager %d: lookup of %s gave %s, expected %s' % (m, ty, ident, want)
                    h = {back.get(a, a): b for a, b in (t.split('=') for t in handles.split(',') if t)}
                    r = {a: b for a, b in x['res']}
                    if set(h) != set(r): return 'manager %d: %s exposes %s, expected %s' % (m, ty, sorted(h), sorted(r))
                    for n in h:
                        if h[n] not in r[n]: return 'manager %d: handle %s of %s belongs to %s, expected one of %s' % (m, n, ty, h[n], r[n])
            return ''
        return j
    for c in cs:
        sk = vf.skin(str(c), 'vwxyz')
        yield 'I %d %s %s' % (len(c['exp']), ','.join(vf.enc(sk[n]) for n in 'vwxyz'), ' '.join('%s:%s:%s' % tuple(o) for o in c['ops'])), judge(c['exp'], {vf.enc(v): k for k, v in sk.items()})
# ---- C15
def conflict_cases(cs):
    for c in cs:
        for naming in (0, 1):
            sk = vf.skin('%d%s' % (naming, c), {n for ctl in c['ctls'] for i in ctl for n in i}); cod = lambda n: vf.enc(sk[n])
            t = ' '.join('/'.join(','.join(cod(n) for n in i) or '-' for i in ctl) or '!' for ctl in c['ctls'])
            yield 'K %d %s' % (naming, t), 'conflict' if c['conflict'] else 'free'

def check(prop):
    r = vf.Result(prop, 'model_checking')
    t = vf.thorough()
    from concurrent.futures import ThreadPoolExecutor
    sim = lambda n, d: {'extra': ['-simulate', 'num=%d' % n, '-depth', str(d), '-seed', str(vf.SEED)], 'workers': 1}
    with ThreadPoolExecutor(4) as ex:
        hb = ex.submit(harness)
        if prop == 'C14': jobs = [('Handles.tla', 'Handles3.cfg' if t else 'Handles.cfg', {})]; gen = handle_cases; r.cov['bound'] = 'every handle kind x missing-location set; every access sequence of length %d' % (3 if t else 2)
        elif prop == 'C13': jobs = [('Resources.tla', 'Resources5.cfg' if t else 'Resources.cfg', {}), ('Resources.tla', 'ResourcesSim.cfg', sim(200 if t else 15, 45))]; gen = registry_cases; r.cov['bound'] = 'every sequence of %d register/lookup/claim/clear operations on 2 names, random sequences of 40 on 9 names, each of 16 interface types' % (5 if t else 4)
        elif prop == 'C15': jobs = [('Conflict.tla', 'Conflict3.cfg' if t else 'Conflict.cfg', {}), ('ConflictLarge.tla', 'ConflictLarge.cfg', sim(400 if t else 20, 40))]; gen = conflict_cases; r.cov['bound'] = 'every list of <=3 controllers with <=2 interfaces each over %d resources; random lists of <=8 controllers with <=4 interfaces over 20 resources' % (3 if t else 2)
        else:
            jobs = [('Interfaces.tla', 'Interfaces6.cfg' if t else 'Interfaces.cfg', {}),
                    ('Interfaces.tla', 'Interfaces3.cfg', sim(3000 if t else 100, 17))]
            gen = interface_cases; r.cov['bound'] = 'every sequence of %d operations on 2 managers; random sequences of 16 on 5 managers' % (6 if t else 5)
        fs = [ex.submit(vf.spec_cases, r, m, c, heap='12g' if t else '4g', **{**{'workers': 6}, **k}) for m, c, k in jobs]
        b = hb.result()
        for f in fs:
            vf.compare(r, b, list(gen(f.result())), prop, env=ENV, timeout=600)
    r.assume += ['resources are registered with an interface before the interface is registered with a manager' if prop == 'C12' else 'handles are used with the storage they were given still alive']
    return r.finish()
