"""Replays Gui.tla on the real rqt plugin."""
import os, sys, re, importlib
import qtstand as Q
SERVICES = ('list_controllers', 'list_controller_types', 'load_controller', 'unload_controller', 'switch_controller', 'reload_controller_libraries')
class Managers:
    """the managers behind the front end; step() puts the world of the specification in place"""
    def __init__(self, T, case):
        self.T, self.c, self.life, self.log, self.asked = T, case, {m: 0 for m in case['managers']}, [], set()
        self.up, self.ctl = set(), {}
    def step(self, s):
        w = s['world']
        for m in self.c['managers']:
            if m in w['up'] and (m not in self.up or (s['e'] == 'restart' and s['m'] == m)): self.life[m] += 1
        self.up, self.ctl = set(w['up']), {m: [dict(x) for x in l] for m, l in w['ctl'].items()}
        W = self.T['W']; W.services = {'/rosout/get_loggers': 'roscpp/GetLoggers'}
        for m in self.up:
            for n in SERVICES: W.services[self.T['resolve'](self.c['managers'][m] + '/' + n)] = self.T['TYPES'][re.sub('(^|_)(.)', lambda x: x.group(2).upper(), n)]
        W.param_tree = {'/rosdistro': 'kinetic'}
        for ns, names in w['conf'].items():
            p = self.c['namespaces'][ns]; r = self.T['resolve']
            for n in names: W.param_tree[r(p + '/' + n + '/type')] = self.conftype(ns, n, w['cv']); W.param_tree[r(p + '/' + n + '/gains/p')] = 1
            W.param_tree[r(p + '/no_controller/gains/type')] = 'pid'; W.param_tree[r(p + '/limits/a')] = 2
        W.param_names = sorted(W.param_tree)
    def conftype(self, ns, n, v): return 'kind/of_%s_in_%s_%d' % (n, ns, v)
    def claims(self, n, v): l = self.c['claims']; return l[(sorted(self.c['names']).index(n) + v) % len(l)]
    def find(self, name):
        for m, ns in self.c['managers'].items():
            for s in SERVICES:
                if self.T['resolve'](ns + '/' + s) == name: return m, s
        return None, None
    def serve(self, proxy, req):
        T = self.T; srv, msg, X = T['srv'], T['msg'], T['ServiceException']; T['budget'](); m, s = self.find(proxy.resolved_name)
        if m is None: raise X('service [%s] unavailable' % proxy.resolved_name)
        c = getattr(proxy, 'conn', None)
        if proxy.persistent and c is not None and (m not in self.up or self.life[m] != c): raise X('transport error completing service call')   # and it stays broken
        if m not in self.up: raise X('service [%s] unavailable' % proxy.resolved_name)
        proxy.conn = self.life[m]; l = self.ctl[m]; at = {x['n']: x for x in l}
        if s == 'list_controllers':
            self.asked.add('controllers'); return srv.ListControllersResponse([msg.ControllerState(x['n'], x['s'], 'type of %s at %s, version %d' % (x['n'], m, x['v']), [msg.HardwareInterfaceResources(h, list(r)) for h, r in self.claims(x['n'], x['v'])]) for x in l])
        if s == 'list_controller_types': return srv.ListControllerTypesResponse([], [])
        def one(r, n, ok):
            self.log.append([m, r, n])
            if not ok: return False
            if r == 'load': l.append({'n': n, 's': 'initialized', 'v': -1})
            elif r == 'unload': l[:] = [x for x in l if x['n'] != n]
            else: at[n]['s'] = 'stopped' if r == 'stop' else 'running'
            return True
        if s == 'load_controller': return srv.LoadControllerResponse(one('load', req.name, req.name not in at))
        if s == 'unload_controller': return srv.UnloadControllerResponse(one('unload', req.name, req.name in at and at[req.name]['s'] != 'running'))
        if s == 'switch_controller':
            a, b = list(req.start_controllers), list(req.stop_controllers)
            if len(a) + len(b) != 1 or req.strictness != 2: self.log.append([m, 'switch +%s -%s strictness %s' % (a, b, req.strictness), '']); return srv.SwitchControllerResponse(False)
            n = (a + b)[0]; return srv.SwitchControllerResponse(one('start' if a else 'stop', n, n in at and (at[n]['s'] not in ('running', 'waiting') if a else at[n]['s'] == 'running')))
        self.log.append([m, s, '']); return srv.ReloadControllerLibrariesResponse(False)
ENTRY = {'stop': lambda t: t == 'stop', 'kill': lambda t: 'stop' in t and 'unload' in t, 'start': lambda t: t.startswith('start'), 'unload': lambda t: t == 'unload', 'load': lambda t: t == 'load', 'spawn': lambda t: 'load' in t and 'start' in t and 'unload' not in t}
class Front:
    def __init__(self, T, M, module, settings=None):
        self.M = M; first = len(Q.QTimer.every)
        self.context = Q.Context(M.c.get('serial', 1)); self.plugin = module.ControllerManager(self.context)
        self.timers = Q.QTimer.every[first:]; self.w = self.context.widgets[0]; self.popups = None
        if settings is not None: Q.call(self.plugin.restore_settings, (Q.Settings(), settings))
    def of(self, cls, name):
        w = getattr(self.w, name, None)
        return w if isinstance(w, cls) else next(v for v in self.w.__dict__.values() if isinstance(v, cls))
    combo = property(lambda s: s.of(Q.QComboBox, 'cm_combo')); table = property(lambda s: s.of(Q.QTableView, 'table_view'))
    def rows(self):
        t = self.table; m = t.model()
        if m is None: return []
        p = Q.QModelIndex(); r = []
        for i in range(m.rowCount(p)):
            cell = lambda c, role: m.data(m.index(i, c, p), role)
            try: icon = cell(0, Q.Qt.DecorationRole); icon = os.path.basename(icon.path) if icon is not None else ''
            except Exception as e: icon = 'no icon: %s' % type(e).__name__
            try: [cell(c, q) for c in (0, 1) for q in (Q.Qt.FontRole, Q.Qt.TextAlignmentRole, Q.Qt.ToolTipRole, Q.Qt.DecorationRole)]; m.headerData(0, Q.Qt.Horizontal, Q.Qt.DisplayRole)
            except Exception as e: icon = 'cannot be drawn: %s' % type(e).__name__
            r.append([cell(0, Q.Qt.DisplayRole), cell(1, Q.Qt.DisplayRole) if (m.columnCount(p) or 0) > 1 else None, icon])
        return r
    def rowof(self, n): return next((i for i, r in enumerate(self.rows()) if r[0] == n), None)
    def poll(self, kind):
        """the timer that asks for this; a timer may ask for both"""
        for t, asks in zip(self.timers, self.kinds):
            if kind in asks: t.fire()
    def learn(self):
        """which timer does what: the one that queries the master looks for managers"""
        self.kinds = []; T = self.M.T; W = T['W']
        for t in self.timers:
            n = W.listed = 0; self.M.asked.clear(); before = W.steps_master; t.fire(); k = set()
            if W.steps_master != before: k.add('managers')
            if 'controllers' in self.M.asked or not k: k.add('controllers')
            self.kinds.append(k)
def claims(tree):
    m = tree.model(); out = []
    if m is None: return out
    root = m.invisibleRootItem(); tops = [root.child(i) for i in range(root.rowCount())]
    for t in tops:
        for h in range(t.rowCount()): hw = t.child(h); out.append([hw.text(), [hw.child(k).text() for k in range(hw.rowCount())]])
    return out
def run(c, T):
    W = T['W']; W.steps_master = 0; Q.QTimer.every = []; Q.escaped[:] = []
    Q.install(T['REPO']); W.gui = M = Managers(T, c)
    for m in [m for m in sys.modules if m.split('.')[0] == 'rqt_controller_manager']: del sys.modules[m]
    p = T['REPO'] + '/rqt_controller_manager/src'
    if p not in sys.path: sys.path.insert(0, p)
    module = importlib.import_module('rqt_controller_manager.controller_manager')
    steps = c['h']; M.step(steps[0]); F = Front(T, M, module); first = steps[0]['m'] if steps[0]['e'] == 'start selected' else '-'
    # one look at the managers, one at the controllers: which timer is which
    if c.get('probe'): F.learn()
    else: F.kinds = c['clocks']
    F.poll('managers'); F.poll('controllers')
    if first != '-': F.combo.setCurrentIndex(F.combo.findText(c['managers'][first]))
    if c.get('probe'): F.learn(); return {'clocks': [sorted(k) for k in F.kinds]}
    F.poll('managers'); F.poll('controllers')
    obs, i = [], [0]
    def look(): b = F.combo; return {'items': [b.itemText(k) for k in range(b.count())], 'sel': b.currentText(), 'rows': F.rows(), 'extra': list(Q.escaped)}
    obs.append(look())
    def during(menu):
        """the steps until the menu is left happen while it is open"""
        here = obs[-1]; here['menu'] = [a.text() for a in menu.actions() if a.isEnabled()]
        while i[0] + 1 < len(steps):
            i[0] += 1; s = steps[i[0]]
            if s['e'] == 'dismiss' or s['e'].startswith('choose'):
                M.log[:] = []
                if s['e'] == 'dismiss': obs.append({}); return None
                f = ENTRY[s['e'].split()[1]]; a = next((a for a in menu.actions() if f(a.text().lower().replace('&', ''))), None)
                obs.append({} if a is not None else {'no entry': [a.text() for a in menu.actions()]}); return a
            obs.append(do(s))
        return None
    Q.QMenu.shown = during
    def do(s):
        nonlocal F
        e = s['e']; n = s['n']
        if e in ('world', 'restart'): M.step(s); return look()
        if e in ('managers', 'controllers'): F.poll(e); return look()
        if e == 'select': F.combo.setCurrentIndex(F.combo.findText(c['managers'][s['m']])); return look()
        if e == 'reopen':
            kept = Q.Settings(); F.plugin.save_settings(Q.Settings(), kept); F.plugin.shutdown_plugin(); left = any(t.isActive() for t in F.timers); kinds = F.kinds
            F = Front(T, M, module, kept); F.kinds = kinds; o = look()
            if left: o['left'] = True
            return o
        if e == 'details':
            r = F.rowof(n)
            if r is None: return {'missing': n}
            before = set(id(o) for o in []); F.table.doubleClicked.emit(F.table.model().index(r, 0, Q.QModelIndex()))
            pops = [v for v in F.plugin.__dict__.values() if isinstance(v, Q.QWidget) and v is not F.w and v.isVisible()]
            if len(pops) != 1: return {'windows': len(pops), 'extra': list(Q.escaped)}
            p = pops[0]; o = {'name': p.ctrl_name.text(), 'type': p.ctrl_type.text(), 'claims': claims(p.resource_tree)}; p.hide(); return o
        if e == 'open':
            r = F.rowof(n)
            if r is None: return {'missing': n}
            o = {}; obs.append(o); k = len(obs)
            F.table.customContextMenuRequested.emit(Q.QPoint(5, r * Q.QTableView.HEIGHT + 7))
            if 'menu' not in o: o['menu'] = None; skip()      # no menu: what would have happened meanwhile still happens
            obs[-1]['requests'] = list(M.log) if len(obs) > k else []
            if i[0] < len(steps): M.step(steps[i[0]])
            return None
        raise ValueError(e)
    def skip():
        while i[0] + 1 < len(steps):
            i[0] += 1; s = steps[i[0]]
            if s['e'] == 'dismiss' or s['e'].startswith('choose'): M.log[:] = []; obs.append({} if s['e'] == 'dismiss' else {'no entry': []}); return
            obs.append(do(s))
    while i[0] + 1 < len(steps):
        i[0] += 1; s = steps[i[0]]; stray = len(M.log) if s['e'] != 'open' else None
        if s['e'] == 'open': M.log[:] = []
        o = do(s)
        if o is not None: obs.append(o)
        if stray is not None and len(M.log) > stray: obs[-1]['stray'] = M.log[stray:]
    return {'obs': obs}
