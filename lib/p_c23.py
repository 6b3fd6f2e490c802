"""C23: TransDoc.tla replayed on the real transmission parser."""
import vf, trcheck, json
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr
from concurrent.futures import ThreadPoolExecutor
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification TransDoc.tla enumerated with TLC; every document rendered as XML and given to the real parser, everything it reports compared'
NOTE = 'One transmission with everything varied; up to three elements per document (four in the thorough tier); two documents parsed into one list (three).'
HW = {'E': 'hardware_interface/EffortJointInterface', 'P': 'Position & more'}
hexs = lambda s: s.encode().hex() or '-'
class Names:
    """the names and texts of one case: all different, or drawn from all sorts of names, often repeated"""
    TEXT = [n for n in vf.NAMES if n.split() == n.split(' ') and n]
    ATTR = [n for n in vf.NAMES if n]
    def __init__(self, salt): g = vf.rng('names', salt); self.salt = salt; self.style = g.choice(['plain', 'plain', 'pool', 'pool', 'repeat']); self.few = g.randint(1, 3); self.outer = g.choice(['gazebo', 'robot', 'group', 'transmissions', 'link'])
    def __call__(self, d, k, kind, i=0):
        if self.style == 'plain': return plain(d, k, kind, i)
        pool = self.TEXT if kind in 'yr' else self.ATTR; g = vf.rng('name', self.salt, kind)
        if self.style == 'repeat': return g.choice(pool)
        return pool[(g.randrange(len(pool)) + vf.rng('name', self.salt, kind, d, k, i).randrange(self.few)) % len(pool)]
def plain(d, k, kind, i=0): return {'t': 'trans & mission_%d_%d' % (d, k), 'y': 'pkg/Type<%d>' % (d * 10 + k), 'j': 'joint "%d_%d" %d' % (d, k, i), 'a': "actuator '%d_%d' %d" % (d, k, i), 'r': 'role & %d_%d_%d' % (d, k, i)}[kind]
def attr(cls, name): return '' if cls == 'absent' else ' name=%s' % quoteattr(name if cls == 'ok' else '')
def child(tag, cls, text, alt): return '' if cls == 'absent' else '<%s>%s</%s>' % (tag, escape(text), tag) if cls == 'ok' else ['<%s/>', '<%s></%s>', '<%s> </%s>'][alt % 3].replace('%s', tag)
def item(N, kind, d, k, i, it):
    hw = ''.join(child('hardwareInterface', 'empty' if h == 'empty' else 'ok', HW.get(h, ''), i + n) for n, h in enumerate(it['hw']))
    role = child('role', it['role'], N(d, k, 'r', i), i); extra = '<mechanicalReduction>%d.5</mechanicalReduction><!-- a note --><deep a="1"><er>%s</er></deep>' % (i, escape('x < y'))
    tag = 'joint' if kind == 'j' else 'actuator'
    return '<%s%s>%s%s</%s>' % (tag, attr(it['name'], N(d, k, kind, i)), ''.join([role, hw, extra] if i % 2 else [extra, hw, role]), '\n', tag)
def trans(N, d, k, e):
    js = ''.join(item(N, 'j', d, k, i + 1, x) for i, x in enumerate(e['joints'])); as_ = ''.join(item(N, 'a', d, k, i + 1, x) for i, x in enumerate(e['actuators']))
    ty = child('type', e['type'], N(d, k, 'y'), k)
    return '<transmission%s>\n  %s</transmission>' % (attr(e['name'], N(d, k, 't')), ''.join([[ty, js, as_], [as_, ty, js], [js, as_, ty]][k % 3]))
def element(N, d, k, e):
    t = trans(N, d, k, e)
    return {'transmission': t, 'joint': '<joint name="j"><hardwareInterface>x</hardwareInterface></joint>', 'comment': '<!-- %s -->' % t.replace('<!-- a note -->', ''), 'nested': '<%s>%s</%s>' % (N.outer, t, N.outer)}[e['kind']]
BROKEN = ['<robot>%s', '<robot>%s</robto>', '<robot>%s<link name="x></robot>', 'nothing like XML']
def render(N, d, doc):
    if doc['kind'] == 'empty': return ['', ' \n'][d % 2]
    if doc['kind'] == 'noroot': return ['<!-- nothing -->', '<?xml version="1.0"?>', '<?xml version="1.0"?>\n<!-- nothing -->'][d % 3]
    if doc['kind'] == 'broken': return BROKEN[d % 4].replace('%s', trans(N, d, 1, {'name': 'ok', 'type': 'ok', 'joints': [{'name': 'ok', 'role': 'ok', 'hw': ['E']}], 'actuators': [{'name': 'ok', 'role': 'absent', 'hw': ['E']}]}))
    return ['', '<?xml version="1.0"?>\n<!-- a robot -->\n'][d % 2] + '<robot name="r">\n%s</robot>' % '\n'.join(element(N, d, k + 1, e) for k, e in enumerate(doc['elems']))
def canon(e): return (e.tag, sorted(e.attrib.items()), (e.text or '').strip(), [canon(c) for c in e])
def same(a, b):
    try: return canon(ET.fromstring(a)) == canon(ET.fromstring(b))
    except ET.ParseError: return False
def judge(c, N):
    def j(o):
        try: res, ts = json.loads(o)
        except ValueError: return 'observed <%s>' % o[:300]
        want = ''.join('01'[x] for x in c['results'])
        if res != want: return 'parse results %s, expected %s' % (res, want)
        u = lambda h: bytes.fromhex(h).decode()
        got = [(u(t[0]), u(t[1]), len(t[2]), len(t[3])) for t in ts]
        exp = [(N(x['doc'], x['i'], 't'), N(x['doc'], x['i'], 'y'), len(x['joints']), len(x['actuators'])) for x in c['out']]
        if got != exp: return 'transmissions %s, expected %s' % (got, exp)
        for t, x in zip(ts, c['out']):
            e = c['docs'][x['doc'] - 1]['elems'][x['i'] - 1]
            for kind, items, want, src in (('j', t[2], x['joints'], e['joints']), ('a', t[3], x['actuators'], e['actuators'])):
                for g, w in zip(items, want):
                    n = N(x['doc'], x['i'], kind, w['i'])
                    if u(g[0]) != n: return 'item named %s, expected %s' % (u(g[0]), n)
                    if kind == 'j' and u(g[1]) != (N(x['doc'], x['i'], 'r', w['i']) if w['role'] else ''): return 'role of %s is <%s>' % (n, u(g[1]))
                    if [u(h) for h in g[2]] != [HW[h] for h in w['hw']]: return 'hardware interfaces of %s are %s' % (n, [u(h) for h in g[2]])
                    xml = item(N, kind, x['doc'], x['i'], w['i'], src[w['i'] - 1])
                    if not same(u(g[3]), xml): return 'XML of %s is %s, expected %s' % (n, u(g[3]), xml)
        return ''
    return j
def cases(cs):
    for c in cs: N = Names(str(c['docs'])); yield 'parse ' + ' '.join(hexs(render(N, i + 1, d)) for i, d in enumerate(c['docs'])), judge(c, N)
def harness():
    s = vf.REPO + '/transmission_interface/src/'
    return vf.build('tl', [(vf.VERIF + '/harness/tr/tl.cpp', trcheck.F)] + [(s + f + '.cpp', trcheck.F) for f in ('transmission_parser', 'transmission_loader', 'simple_transmission_loader', 'differential_transmission_loader', 'four_bar_linkage_transmission_loader')], link=['-fsanitize=address,undefined', '-ltinyxml', '-Wl,-z,muldefs'])
ARGS = [vf.REPO + '/transmission_interface/ros_control_plugins.xml']
def run(prop, module, cfgs, conv):
    r = vf.Result(prop, 'model_checking')
    with ThreadPoolExecutor(4) as ex:
        hb = ex.submit(harness)
        for f in [ex.submit(vf.spec_cases, r, module, c, workers=3, timeout=1500, heap='6g') for c in cfgs]: vf.compare(r, hb.result(), list(conv(f.result())), prop, env=trcheck.ENV, args=ARGS)
    return r
def check(prop):
    r = run(prop, 'TransDoc.tla', ['TransDoc_%s.cfg' % c for c in ['one', 'several', 'docs'] + (['several4', 'docs3'] if vf.thorough() else [])], cases)
    r.cov['bound'] = NOTE
    return r.finish()
