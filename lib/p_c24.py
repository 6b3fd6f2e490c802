"""C24: TransLoaders.tla replayed on the real transmission loaders."""
import vf, p_c23
from p_c23 import hexs
from xml.sax.saxutils import quoteattr
LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification TransLoaders.tla enumerated with TLC; every description given to the real loader plugins, the transmission built compared value by value'
NOTE = 'Every dimension up to three, every role combination, every class of text for every number; products of all of them in the thorough tier.'
TYPE = {'simple': 'transmission_interface/SimpleTransmission', 'diff': 'transmission_interface/DifferentialTransmission', 'four': 'transmission_interface/FourBarLinkageTransmission'}
POOL = {'num': [2.5, 1.0, 0.001, 123456.789, 1e-12, 3e15, 0.1, 7.0], 'other': [30.0, 0.5, 2.0, 1e-5, 99999999.0, 1e200], 'neg': [-75.0, -1.0, -0.25, -2.5, -1e-9]}
BAD = {'blank': ['', ' ', '\n\t', '<!-- 2.5 -->'], 'text': ['many', 'e5', '--2', '.', '-', 'x2', '$(arg n)', 'two', ',5'], 'trailing': ['2x', '2.5.1', '2,5', '1 2', '1e', '5 rad', '3-', '2.5;', '1/2', '0x'], 'range': ['1e400', '-1e999', '9' * 400]}
class Form:
    """how one case writes its names, roles and numbers"""
    def __init__(self, salt):
        g = self.g = vf.rng('form', salt); self.plain = g.random() < .3
        self.value = {k: v[0] if self.plain else g.choice(v) for k, v in POOL.items()}; self.value.update(zero=0.0, one=1.0)
        self.names = [n for n in vf.NAMES if n]; self.names = g.sample(self.names, g.choice([1, 2, len(self.names)]))
    def name(self, n): return n if self.plain else self.g.choice(self.names)
    def num(self, cls, tag):
        if cls in BAD: return BAD[cls][0] if self.plain else self.g.choice(BAD[cls])
        v = self.value[cls]; t = repr(v)
        if self.plain: return t
        if cls == 'zero': return self.g.choice(['0', '0.0', '0e10', '+0.00', '.0', '00', ' 0 '] + (['-0', '-0.0'] if tag != 'offset' else []))
        return self.g.choice([t, '%.17e' % v, '%.20g' % v, ('+' if v > 0 else '') + t, ' %s ' % t, '\n   %s\n' % t, t.replace('-', '-00') if v < 0 else '00' + t, t.upper(), '<![CDATA[%s]]>' % t])
    def el(self, tag, cls):
        if cls == 'absent': return ''
        x = self.num(cls, tag); return '<%s/>' % tag if cls == 'blank' and not self.plain and self.g.random() < .2 else '<%s>%s</%s>' % (tag, x, tag)
    def role(self, r, what, other):
        """the role element and its text"""
        if r == 'absent': return '', ''
        if r == 'blank': return ('<role>%s</role>' if self.plain else self.g.choice(['<role>%s</role>', '<role> </role>%s', '<role/>%s', '<role><!-- x --></role>%s'])) % '', ''
        t = {'first': what + '1', 'second': what + '2', 'unknown': what + '3' if self.plain else self.g.choice([what + '3', what, what.capitalize() + '1', what + '12', what + ' 1', what + '0', what + '_1', other + '1', other + '2', '1', 'x' + what + '1', what[:-1]])}[r]
        return '<role>%s</role>' % (t if self.plain else self.g.choice(['%s', ' %s', '%s\n', '<![CDATA[%s]]>', '%s<!-- %s -->']).replace('%s', t)), t
def cases(cs):
    for c in cs:
        F = Form(str(c)); line = ['load', TYPE[c['kind']], str(len(c['acts']))]
        for i, a in enumerate(c['acts']): n = F.name('a%d' % i); line += [hexs(n), hexs('<actuator name=%s>%s%s</actuator>' % (quoteattr(n), F.role(a['role'], 'actuator', 'joint')[0], F.el('mechanicalReduction', a['red'])))]
        line.append(str(len(c['joints'])))
        for i, j in enumerate(c['joints']):
            re, rt = F.role(j['role'], 'joint', 'actuator'); n = F.name('j%d' % i)
            rest = [re, F.el('mechanicalReduction', j['red']), F.el('offset', j['off']), ('<ignoreTransmissionAbsoluteEncoder/>' if F.plain else F.g.choice(['<ignoreTransmissionAbsoluteEncoder/>', '<ignoreTransmissionAbsoluteEncoder></ignoreTransmissionAbsoluteEncoder>', '<ignoreTransmissionAbsoluteEncoder>true</ignoreTransmissionAbsoluteEncoder>'])) if j['ign'] else '']
            line += [hexs(n), hexs(rt), hexs('<joint name=%s><hardwareInterface>hardware_interface/JointStateInterface</hardwareInterface>%s</joint>' % (quoteattr(n), ''.join(rest[::1 if i else -1])))]
        if c['st'] == 'nothing': exp = 'nothing'
        else:
            v = lambda xs: ['%.17g' % F.value[x] for x in xs]
            x = c['result']; exp = ' '.join([c['kind']] + v(x['ar']) + v(x['jr']) + v(x['of']) + (['%d' % x['ign']] if c['kind'] == 'diff' else []))
        yield ' '.join(line), exp
def check(prop):
    r = p_c23.run(prop, 'TransLoaders.tla', ['TransLoaders_%s.cfg' % c for c in ['dims', 'roles', 'actuators', 'joints'] + (['all'] if vf.thorough() else [])], cases)
    r.cov['bound'] = NOTE
    return r.finish()
