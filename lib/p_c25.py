"""C25: TransLoad.tla replayed on the real TransmissionInterfaceLoader and its providers."""
import vf, trcheck, json, os, zlib
from xml.sax.saxutils import quoteattr
from concurrent.futures import ThreadPoolExecutor
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification TransLoad.tla checked, enumerated and simulated with TLC; every robot, set of transmissions and history replayed through the real TransmissionInterfaceLoader'
NOTE = 'One and two transmissions of each type; every hardware interface combination, robot interface subset, sensor availability and fault; two fixed histories of twelve steps, others simulated.'
TYPE = {'simple': 'SimpleTransmission', 'diff': 'DifferentialTransmission', 'four': 'FourBarLinkageTransmission'}
HW = {'S': 'JointStateInterface', 'P': 'PositionJointInterface', 'V': 'VelocityJointInterface', 'E': 'EffortJointInterface', 'BP': 'BiDirectionalPositionJointInterface', 'BV': 'BiDirectionalVelocityJointInterface', 'BE': 'BiDirectionalEffortJointInterface', 'X': 'UnknownJointInterface'}
f = lambda r: repr(r[0] / r[1])
XNAMES = [n for n in vf.NAMES if n]
ALL = ['a1', 'a2', 'a3', 'a4', 'a9', 'j1', 'j2', 'j3', 'j4', 'jx', 't1', 't2', 't3']
def transmission(n, t, c, joints, acts, nm):
    dim = len(joints); perm = t['perm']; out = ['<transmission name=%s><type>transmission_interface/%s</type>' % (nm['t%d' % n], TYPE[t['kind']] if t['fault'] != 'type' else 'NoSuchTransmission')]
    for i, j in enumerate(joints):
        k = 1 - i if dim == 2 and perm in ('joints', 'both') else i     # the role of the i-th declared joint
        hw = t['hw'] if i == 0 or t['mix'] == 'same' else t['hw'][::-1] if t['mix'] == 'reversed' else t['hw'] + ['S'] if t['mix'] == 'more' else t['hw'][:-1] or ['S'] if t['mix'] == 'fewer' else ['V' if h != 'V' else 'P' for h in t['hw']]
        out.append('<joint name=%s>%s%s%s<offset>%s</offset></joint>' % (nm[j], '<role>joint%d</role>' % (k + 1) if dim == 2 else '', ''.join('<hardwareInterface>hardware_interface/%s</hardwareInterface>' % HW[h] for h in hw), '<mechanicalReduction>%s</mechanicalReduction>' % f(c['jr'][k]) if dim == 2 else '', f(c['of'][k])))
    for i, a in enumerate(acts):
        k = 1 - i if dim == 2 and perm in ('acts', 'both') else i
        out.append('<actuator name=%s>%s<mechanicalReduction>%s</mechanicalReduction></actuator>' % (nm['a9' if t['fault'] == 'missing' and i == dim - 1 else a], '<role>actuator%d</role>' % (k + 1) if dim == 2 else '', '0' if t['fault'] == 'zero' and i == 0 else f(c['ar'][k])))
    return ''.join(out) + '</transmission>'
def line(c):
    sk = vf.skin(key(c), ALL, pool=XNAMES); sk.update(zip(ALL[10:], sorted((sk[t] for t in ALL[10:]), key=str.encode)))   # transmissions of one joint run in the order of their names
    nm = {k: quoteattr(v) for k, v in sk.items()}
    r = c['robot']; docs = [transmission(i + 1, t, k, j, a, nm) for i, (t, k, j, a) in enumerate(zip(c['ts'], c['confs'], c['joints'], c['acts']))]
    bad = c['ts'][0]['fault'] if c['ts'][0]['fault'] in ('broken', 'nothing', 'noroot') else ''
    urdfs = [docs[0][:-9] if bad == 'broken' else '<robot name="r"></robot>' if bad == 'nothing' else docs[0]] if bad else ['<robot name="r">%s</robot>' % d for d in (docs if c['split'] else [''.join(docs)])]
    body = '%d %s %s' % (len(urdfs), ' '.join(u.encode().hex() for u in urdfs), ' '.join(h['op'] for h in c['hist'][1:]))
    return 'robot %s %s %s %s %s %s' % (' '.join(vf.enc(sk[x]) for x in ALL), ''.join(r['ifaces']) or '-', r['sensors'], r['own'], ['urdf', 'infos'][not bad and zlib.crc32(body.encode()) % 2], body)
def expected(c):
    v = lambda r: 'nan' if r[1] == 0 else r[0] / r[1]
    out = [''.join('01'[x] for x in c['loaded']), 'reg'] + [k + ''.join(':t%d' % i for i in sorted(c['reg'][k])) for k in ('A2Jstate', 'J2Aposition', 'J2Avelocity', 'J2Aeffort', 'J2Astate', 'A2Jposition', 'A2Jvelocity', 'A2Jeffort') if c['reg'] and k in c['reg']]
    head = len(out); steps = []
    for h in c['hist']:
        s = h['seen']; w = ['js']
        for j in sorted(s['js'] or {}): w += [j] + [v(x) for x in s['js'][j]]
        for k in 'PVE':
            w.append(k)
            for j in sorted(s['cmd'][k] or {}): w += [j, v(s['cmd'][k][j])]
        steps.append(w + ['act'] + [v(x) for a in s['act'] for x in a])
    return out, steps
def differs(got, exp):
    if len(got) != len(exp): return True
    for g, e in zip(got, exp):
        if isinstance(e, str):
            if g != e: return True
        else:
            try: x = float(g)
            except ValueError: return True
            if not trcheck.close(x, e): return True
    return False
def complaint(c, o):
    head, steps = expected(c); got = o.split(' ')
    if got[:len(head)] != head or len(got) <= len(head) or got[len(head)] != 'js': return 'load: observed <%s>, expected <%s>' % (' '.join(got[:got.index('js') if 'js' in got else 12]), ' '.join(head))
    at = len(head)
    for i, w in enumerate(steps):
        if at > len(got): return 'too short'
        g = got[at:at + len(w)]
        if differs(g, w): return 'after step %d (%s): observed <%s>, expected <%s>' % (i, c['hist'][i]['op'], ' '.join(got[at:]).split(' js ', 1)[0], ' '.join(map(str, w)))
        at += len(w)
    return '' if at == len(got) else 'more than expected: <%s>' % ' '.join(got[at:])
def key(c): return json.dumps([c['robot'], c['ts'], c['split'], [h['op'] for h in c['hist']]], sort_keys=True)
def cases(cs, known):
    declared = {key(c): c for c in cs if c['wiring'] == 'declared'}
    for c in cs:
        if c['wiring'] != 'role': continue
        d = declared.get(key(c))
        def j(o, c=c, d=d):
            w = complaint(c, o)
            # listed finding: permuted roles are wired as declared; exactly that outcome, nothing else
            if w and d is not None and not complaint(d, o): known.append(c['ts'][0]['kind']); return ''
            return w
        yield line(c), j
def harness():
    s = vf.REPO + '/transmission_interface/src/'
    return vf.build('tload', [(vf.VERIF + '/harness/tr/tload.cpp', trcheck.F)] + [(s + n, trcheck.F) for n in sorted(os.listdir(s)) if n.endswith('.cpp')], link=['-fsanitize=address,undefined', '-ltinyxml', '-Wl,-z,muldefs'])
def check(prop):
    r = vf.Result(prop, 'model_checking'); t = vf.thorough(); known = []
    sim = dict(extra=['-simulate', 'num=%d' % (100 if not t else 3000), '-depth', '12', '-seed', str(vf.SEED)], workers=1, timeout=1500)
    runs = [(c, sim if c == 'sim' else dict(workers=3, timeout=1500, heap='6g')) for c in ['one', 'faults', 'two', 'sim'] + (['twoall'] if t else [])]
    with ThreadPoolExecutor(4) as ex:
        hb = ex.submit(harness)
        for g in [ex.submit(vf.spec_cases, r, 'TransLoad.tla', 'TransLoad_%s.cfg' % c, **kw) for c, kw in runs]:
            vf.compare(r, hb.result(), list(cases(g.result(), known)), prop, env=trcheck.ENV, args=[vf.REPO + '/transmission_interface/ros_control_plugins.xml'])
    if known and 'C25 permuted roles' in open(vf.VERIF + '/KNOWN_FINDINGS.txt').read(): r.known.append('transmissions whose actuators or joints are declared in another order than their roles are connected in declaration order although their reductions and offsets are taken in role order (%d cases)' % len(known))
    elif known: r.violation('permuted roles wired as declared', {'cases': len(known)})
    r.cov['bound'] = NOTE; r.assume += ['transmission names are unique']
    return r.finish()
