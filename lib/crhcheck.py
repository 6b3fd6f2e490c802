"""C16, C17: behaviours of CombinedInit.tla / CombinedSwitch.tla replayed on the real CombinedRobotHW."""
import vf
ENV = {'ASAN_OPTIONS': 'detect_leaks=0'}
F = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
def harness(): return vf.build('crh', [(vf.VERIF + '/harness/crh/crh.cpp', F), (vf.REPO + '/combined_robot_hw/src/combined_robot_hw.cpp', F)], link=['-fsanitize=address,undefined'])
def namer(salt, names):
    sk = vf.skin(salt, names); srt = lambda v: ','.join(sorted(vf.enc(sk[n]) for n in v))
    return sk, srt, (lambda o: ';'.join('%s=%s' % (k, srt(v)) for k, v in sorted(o.items()) if v))
def init_cases(cs):
    for c in cs:
        n = len(c['parts']); sk, srt, offer = namer(str(c), 'abcde')
        line = 'P %d %d %s %s' % (c['configured'], n, ' '.join('%s:%s' % (p['fault'], offer(p['offer'])) for p in c['parts']), ' '.join(l['op'] for l in c['log']))
        if not c['ok']: exp = lambda o: '' if o == 'false' else 'expected initialisation to fail, observed <%s>' % o
        else:
            ty = ('EJ', 'VJ', 'JS')
            exp = 'true %s %s' % (','.join('/|/hw/%s_part%d' % (chr(97 + (i + 1) * 7 % 13), i + 1) for i in range(n)), ','.join(sorted(c['names'])))
            exp += ''.join(' ' + (srt(c['exposed'][t]) if c['exposed'][t] else 'none') for t in ty) + ''.join(' ' + srt(c['exposed'][t]) for t in ty)
            exp += ''.join(' ' + ','.join('%s%d' % (l['op'], p) for p in l['parts']) for l in c['log'])
        yield line, exp
def routed(salt, ctls, res):
    """how lists of controllers are given to, and shown by, the harness, under a renaming of controllers and resources"""
    sk, srt, offer = namer(salt, res); ck = vf.skin('ctl' + salt, [str(c) for c in ctls])
    claims = lambda cl: '(' + ';'.join(sorted('%s=%s' % (i, srt(r)) for i, r in cl)) + ')'
    inp = lambda cl: '(' + ';'.join('%s=%s' % (i, srt(r)) for i, r in cl) + ')'
    lst = lambda l: '/'.join(vf.enc(ck[str(c)]) + inp(ctls[c]) for c in l) or '-'
    shown = lambda l: '/'.join(vf.enc(ck[str(c['name'])]) + claims(c['claims']) for c in l)
    return offer, lst, shown
def told(calls, what, c, shown, partial=False):
    """'' if exactly the parts were told what they should be"""
    got = [x for x in calls.split('&') if x]; exp = ['%s%d[%s][%s]' % (what, p + 1, shown(a['start']), shown(a['stop'])) for p, a in enumerate(c['routed'])]
    if partial and (len(set(got)) != len(got) or not set(got) <= set(exp)): return '%s reached parts as %s, expected some of %s' % (what, got, exp)
    if not partial and sorted(got) != sorted(exp): return '%s reached parts as %s, expected %s' % (what, got, exp)
    return ''
def hist_cases(cs, prop):
    for c in cs:
        n = len(c['offers']); ctls = {i + 1: x for i, x in enumerate(c['ctls'])}; offer, lst, shown = routed(str(c), ctls, ['r%d' % i for i in range(1, 7)])
        yn = lambda v: ''.join('y' if x else 'n' for x in v); ans = lambda o: ''.join(a[0] for a in o['answers'])
        def tok(o):
            if o['op'] == 'prep': return 'prep:%s:%s:%s' % (lst(o['start']), lst(o['stop']), yn(o['accept']))
            if o['op'] == 'do': return 'do:%s:%s' % (lst(o['start']), lst(o['stop']))
            if o['op'] == 'res': return 'res:' + ans(o)
            if o['op'] == 'cres': return 'cres:%s:%s:%s' % (ans(o), yn(o['concerned']), lst([o['ctl']]))
            return o['op']
        def j(out, c=c, n=n, shown=shown):
            got = out.split(' ')
            if len(got) != len(c['ops']): return 'unreadable answer <%s>' % out
            for k, (o, g) in enumerate(zip(c['ops'], got), 1):
                w = ''
                if (o['op'] in ('read', 'write')) != (prop == 'C16'): continue
                if o['op'] == 'prep':
                    ok, _, calls = g.partition('|')
                    w = told(calls, 'prepare', o, shown, partial=not o['ok']) if ok == ('true' if o['ok'] else 'false') else 'answered %s, expected %s' % (ok, o['ok'])
                elif o['op'] == 'do': w = told(g, 'switch', o, shown)
                elif 'combined' in o: w = '' if g == o['combined'] else 'answered %s, expected %s' % (g, o['combined'])
                else: e = ','.join('%s%d' % (o['op'], p + 1) for p in range(n)); w = '' if g == e else 'reached %s, expected %s' % (g, e)
                if w: return 'step %d, %s: %s' % (k, o['op'], w)
            return ''
        yield 'H %d %s %s' % (n, ' '.join(offer(o) or '-' for o in c['offers']), ' '.join(map(tok, c['ops']))), j
def switch_cases(cs, ctls):
    for c in cs:
        offer, lst, shown = routed(str(c), ctls, 'abcz')
        n = len(c['offers']); offs = ' '.join(offer(o) or '-' for o in c['offers'])
        if c['mode'] == 'result':
            con = ''.join('y' if p + 1 in c['concerned'] else 'n' for p in range(n))
            yield 'T %d %s %s %s %s' % (n, offs, ''.join(r[0] for r in c['results']), con, lst([c['asked']]) if c['asked'] else '-'), c['combined']
        else:
            args = ['[%s][%s]' % (shown(c['routed'][p]['start']), shown(c['routed'][p]['stop'])) for p in range(n)]
            def j(o, c=c, args=args, n=n):
                ok, prep, sw = o.split(' ') if o.count(' ') == 2 else ('?', '', '')
                if ok != ('true' if c['ok'] else 'false'): return 'prepareSwitch answered <%s>, expected %s' % (o, c['ok'])
                prep = [x for x in prep.split('&') if x]; exp = ['prepare%d%s' % (p + 1, args[p]) for p in range(n)]
                if c['ok']:
                    if sorted(prep) != sorted(exp): return 'parts were asked to prepare %s, expected %s' % (prep, exp)
                elif len(set(prep)) != len(prep) or not set(prep) <= set(exp): return 'parts were asked to prepare %s, expected some of %s' % (prep, exp)
                sw = [x for x in sw.split('&') if x]; exp = ['switch%d%s' % (p + 1, args[p]) for p in range(n)]
                if sorted(sw) != sorted(exp): return 'parts were told to switch %s, expected %s' % (sw, exp)
                return ''
            yield 'S %d %s %s %s %s' % (n, offs, lst(c['start']), lst(c['stop']), ''.join('y' if a else 'n' for a in c['accept'])), j
def check(prop):
    r = vf.Result(prop, 'model_checking'); t = vf.thorough()
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        hb = ex.submit(harness)
        hs = [ex.submit(vf.spec_cases, r, 'CombinedHist.tla', 'CombinedHist.cfg', workers=1, extra=['-simulate', 'num=%d' % (4000 if t else 200), '-depth', '14', '-seed', str(vf.SEED)])]
        if prop == 'C16':
            fs = [ex.submit(vf.spec_cases, r, 'CombinedInit.tla', c, workers=4) for c in ('CombinedInit3.cfg' if t else 'CombinedInit.cfg', 'CombinedInitGood.cfg')]
            r.cov['bound'] = 'every list of <=%d parts x 8 fault kinds x 4 offers; every list of <=4 good parts; 2 cycles; random histories of 12 requests on <=6 parts' % (3 if t else 2)
            for f in fs: vf.compare(r, hb.result(), list(init_cases(f.result())), prop, env=ENV)
        else:
            def run(cfg):
                rc, o = vf.tlc_ok('CombinedSwitch.tla', cfg, workers=4)
                if rc: raise vf.TlcError(o[-2000:])
                r.add('spec_distinct_states', vf.tlc_stats(o)[0])
                return vf.printed(o, 'CASE'), vf.printed(o, 'CTLS')[0]
            fs = [ex.submit(run, c) for c in ('CombinedSwitch3.cfg' if t else 'CombinedSwitch.cfg', 'CombinedResult.cfg')]
            r.cov['bound'] = '%d parts with every combination of 4 offers; start lists of <=2, stop lists of <=1 of 7 controllers; every combination of answers (3 parts for results); random histories of 12 requests on <=6 parts with 6 controllers' % (3 if t else 2)
            for f in fs: cs, ctls = f.result(); vf.compare(r, hb.result(), list(switch_cases(cs, ctls)), prop, env=ENV)
    for f in hs: vf.compare(r, hb.result(), list(hist_cases(f.result(), prop)), prop, env=ENV)
    r.assume += ['part names are distinct']
    return r.finish()
