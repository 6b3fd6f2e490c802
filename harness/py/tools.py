#!/usr/bin/env python3
"""Runs the Python tools of ros_control against a stand-in for ROS: one JSON case per input line, one JSON answer per output line.
usage: tools.py REPO SCRATCH"""
import sys, os, re, io, json, types, runpy, builtins, time as _time, contextlib, importlib
sys.dont_write_bytecode = True
from importlib.machinery import SourceFileLoader as _Loader
_compiled, _get_code = {}, _Loader.get_code
def get_code(self, fullname):
    if self.path not in _compiled: _compiled[self.path] = _get_code(self, fullname)
    return _compiled[self.path]
_Loader.get_code = get_code
REPO, SCRATCH = sys.argv[1], sys.argv[2]
SCRATCH = os.path.join(SCRATCH, 'tools-%d' % os.getpid()); os.makedirs(SCRATCH, exist_ok=True); os.chdir(SCRATCH)
class Hang(BaseException): pass

# ---- messages, generated from the definitions in the repository
DEFAULT = lambda t: [] if t.endswith(']') else False if t == 'bool' else 0.0 if t.startswith('float') else '' if t == 'string' else 0
def parse(text):
    fields, consts = [], {}
    for l in text.splitlines():
        l = l.split('#')[0].strip()
        if not l: continue
        t, n = l.split(None, 1)
        if '=' in n: k, v = n.split('='); consts[k.strip()] = int(v) if 'int' in t else v.strip()
        else: fields.append((t, n.strip()))
    return fields, consts
def make(name, text):
    fields, consts = parse(text)
    slots = [n for _, n in fields]
    def init(self, *args, **kw):
        if args and kw: raise TypeError('positional and keyword arguments')
        if args and len(args) != len(slots): raise TypeError('Invalid number of arguments, args should be %s args are %s' % (slots, args))
        for k in kw:
            if k not in slots: raise AttributeError('%s is not an attribute of %s' % (k, name))
        for (t, n), v in zip(fields, args) if args else [((t, n), kw.get(n)) for t, n in fields]: setattr(self, n, DEFAULT(t) if v is None else v)
        for t, n in fields:
            v = getattr(self, n)
            if t == 'string' and not isinstance(v, str): raise ServiceException('%s must be a string, not %r' % (n, v))
            if t.endswith(']') and (isinstance(v, str) or not all(t != 'string[]' or isinstance(x, str) for x in v)): raise ServiceException('%s must be a list, not %r' % (n, v))
    eq = lambda s, o: isinstance(o, type(s)) and all(getattr(s, n) == getattr(o, n) for n in slots)
    return type(name, (), dict(consts, __eq__=eq, __hash__=None, __init__=init, __slots__=slots, __repr__=lambda s: '%s(%s)' % (name, ', '.join('%s=%r' % (n, getattr(s, n)) for n in slots))))
msg, srv = types.ModuleType('controller_manager_msgs.msg'), types.ModuleType('controller_manager_msgs.srv')
for f in sorted(os.listdir(REPO + '/controller_manager_msgs/msg')): n = f[:-4]; setattr(msg, n, make(n, open(REPO + '/controller_manager_msgs/msg/' + f).read()))
for f in sorted(os.listdir(REPO + '/controller_manager_msgs/srv')):
    n = f[:-4]; a, b = re.split(r'(?m)^---\s*$', open(REPO + '/controller_manager_msgs/srv/' + f).read())
    rq, rs = make(n + 'Request', a), make(n + 'Response', b)
    setattr(srv, n + 'Request', rq); setattr(srv, n + 'Response', rs); setattr(srv, n, type(n, (), {'_request_class': rq, '_response_class': rs, '_type': 'controller_manager_msgs/' + n}))

# ---- the world behind the tools
class World: pass
W = None
class ROSException(Exception): pass
class ROSInterruptException(ROSException, KeyboardInterrupt): pass
class ServiceException(Exception): pass
class ROSServiceIOException(Exception): pass
ERR = re.compile('error|fail|could not|cannot|unable|exception|traceback', re.I)
def said(text, bad=False):
    W.out.append(text)
    if (bad or ERR.search(text)) and W.log: W.log[-1]['rep'] = True
    if bad or ERR.search(text): W.complained = True
def budget():
    W.steps += 1
    if W.steps > 60000: raise Hang('too many steps')
def poke():
    """a signal that is waiting is delivered here, as the handler of rospy does"""
    budget()
    if W.signal_at is not None and W.now >= W.signal_at: W.signal_at = None; W.pending = True
    if W.pending and not W.shut and not W.hooking: W.pending = False; shutdown_now()
def shutdown_now():
    if W.shut or W.hooking: return
    W.hooking = True
    for h in list(W.hooks):
        try: h()
        except Exception as e: said('exception in shutdown hook: %s' % e)
    W.hooks[:] = []; W.hooking = False; W.shut = True
def resolve(n):
    if n.startswith('~'): n = '/tool/' + n[1:]
    n = '/' + n if not n.startswith('/') else n
    return re.sub('/+', '/', n)
def listed(): return [c for c in W.order if W.st[c] != 'absent']
def throws(k, c): return '%s:%s' % (k, c) in W.f['throws']
def entry(op, c='', start=(), stop=(), strict=False, ok='ok'):
    W.log.append({'op': op, 'c': c, 'start': sorted(start), 'stop': sorted(stop), 'strict': bool(strict), 'ok': ok, 'rep': False, 'heard': W.heard, 'params': dict(W.params), 'dup': len(set(start)) != len(list(start)) or len(set(stop)) != len(list(stop))})
    W.answered += 1
    if W.cut and sum(e['op'] == 'load' for e in W.log) == W.cut and op == 'load': W.pending = True
    return ok
def serve(name, req):
    budget()
    m = re.match('^(.*)/([a-z_]+)$', name)
    if not m or m.group(1) != W.ns + '/controller_manager' or W.now < W.appears: raise ServiceException('service [%s] unavailable' % name)
    k = m.group(2); st, f = W.st, W.f
    if k == 'list_controllers':
        r = srv.ListControllersResponse([msg.ControllerState(c, st[c], 'type of ' + c, [msg.HardwareInterfaceResources('hw%s/%d' % (c, i), ['r']) for i in range(2 if c == 'a' else 1)]) for c in listed()])
        meddle(W.race.pop(W.tick, {})); return r
    if k == 'list_controller_types': return srv.ListControllerTypesResponse(['type/one', 'type/two'], ['base', 'base'])
    if k == 'reload_controller_libraries':
        ok = f['reload'] and (req.force_kill or not listed())
        if ok:
            for c in st: st[c] = 'absent'
        entry('reload', ok='ok' if ok else 'no'); return srv.ReloadControllerLibrariesResponse(ok)
    if k in ('load_controller', 'unload_controller'):
        op, c = k.split('_')[0], req.name
        if throws(op, c): entry(op, c, ok='x'); raise ServiceException('service [%s] failed' % name)
        ok = c in f['load'] and st.get(c) == 'absent' if op == 'load' else c in f['unload'] and st.get(c) not in ('absent', 'running', None)
        if ok: st[c] = 'stopped' if op == 'load' else 'absent'
        entry(op, c, ok='ok' if ok else 'no')
        return (srv.LoadControllerResponse if op == 'load' else srv.UnloadControllerResponse)(ok)
    if k == 'switch_controller':
        start, stop = list(req.start_controllers), list(req.stop_controllers); strict = req.strictness == 2
        if not start and not stop: return srv.SwitchControllerResponse(True)
        if any(throws('start', c) for c in start) or any(throws('stop', c) for c in stop): entry('switch', '', start, stop, strict, 'x'); raise ServiceException('service [%s] failed' % name)
        gone = {c for c in stop if st.get(c) == 'running'}; come = {c for c in start if st.get(c) not in ('absent', 'running', None)}
        ok = not (strict and (gone != set(stop) or come != set(start))) and not come & set(f['refuse'])
        if ok:
            for c in gone: st[c] = 'stopped'
            for c in come: st[c] = 'running'
        entry('switch', '', start, stop, strict, 'ok' if ok else 'no')
        return srv.SwitchControllerResponse(ok)
    raise ServiceException('service [%s] unavailable' % name)
def meddle(acts):
    for c, a in acts.items():
        s = W.st[c]
        W.st[c] = 'stopped' if a == 'stop' and s == 'running' else 'running' if a == 'start' and s == 'stopped' else 'absent' if a == 'unload' else 'stopped' if a == 'load' and s == 'absent' else s

# ---- rospy and its friends
rospy = types.ModuleType('rospy'); rospy.__path__ = []
def persistent_stays_broken(proxy): return bool(proxy.persistent)
class ServiceProxy:
    def __init__(self, name, cls, persistent=False, headers=None):
        self.resolved_name = resolve(name); self.persistent = persistent; self.service_class, self.request_class, self.response_class = cls, cls._request_class, cls._response_class
        if W.tries is not None: W.proxies += 1
    def wait_for_service(self, timeout=None): rospy.wait_for_service(self.resolved_name, timeout)
    def __call__(self, *args, **kw): return self.call(*args, **kw)
    def call(self, *args, **kw):
        req = args[0] if len(args) == 1 and not kw and isinstance(args[0], self.request_class) else self.request_class(*args, **kw)
        if W.tries is not None:
            if getattr(self, 'dead', False): raise ServiceException('closed')
            t = W.tries.pop(0) if W.tries else 'x'
            if t == 'x': self.dead = persistent_stays_broken(self); raise ServiceException('broken connection')
            return self.response_class([msg.ControllerState(t, 'running', 't', [])])
        r = W.gui.serve(self, req) if W.gui else serve(self.resolved_name, req)
        if W.shut: raise ServiceException('service [%s] returned no response' % self.resolved_name)
        return r
    def close(self): pass
class Timer:
    def __init__(self, period, callback, oneshot=False, reset=False): self.cb, self.on = callback, True; W.timers.append(self)
    def shutdown(self): self.on = False
class Duration(float):
    def __new__(cls, s=0, n=0): return float.__new__(cls, s + n * 1e-9)
    def to_sec(self): return float(self)
    @staticmethod
    def from_sec(s): return Duration(s)
class Time(float):
    def __new__(cls, s=0, n=0): return float.__new__(cls, s + n * 1e-9)
    def to_sec(self): return float(self)
    @staticmethod
    def now(): return rospy.get_rostime()
class Subscriber:
    def __init__(self, topic, cls, callback=None, *a, **k):
        self.cb, self.on = callback, True; W.subs.append((resolve(topic), self)); deliver(first=self)
    def unregister(self): self.on = False
def deliver(first=None):
    for k, (t, topic, v) in enumerate(W.messages):
        if t <= W.now and (k not in W.sent):
            for name, s in W.subs:
                if name == topic and s.on and s.cb: W.sent.add(k); W.heard = W.heard or v; s.cb(std.Bool(v))
def sleep(s):
    budget(); W.now += max(float(s), 0.001); deliver(); poke()
    if W.now > 1e6: raise Hang('slept too long')
def rsleep(s):
    sleep(s)
    if W.shut: raise ROSInterruptException('rospy shutdown')
def wait_for_service(name, timeout=None):
    poke()
    if timeout == 0.: raise ValueError('timeout must be non-zero')
    end = None if timeout is None else W.now + float(timeout)
    n, ok = resolve(name), W.ns + '/controller_manager/'
    if W.gui:
        if W.gui.find(n)[0] in W.gui.up: return
        raise ROSException('timeout exceeded while waiting for service %s' % n)
    while not W.shut:
        if W.now >= W.appears and n.startswith(ok) and n[len(ok):] in ('load_controller', 'unload_controller', 'switch_controller', 'list_controllers', 'list_controller_types', 'reload_controller_libraries'): return
        if end is not None and W.now >= end: raise ROSException('timeout exceeded while waiting for service %s' % n)
        sleep(0.3)
    raise ROSInterruptException('rospy shutdown')
def wait_for_message(topic, cls, timeout=None):
    got = []; s = Subscriber(topic, cls, got.append); end = None if timeout is None else W.now + timeout
    while not got and not W.shut:
        if end is not None and W.now >= end: raise ROSException('timeout exceeded')
        sleep(0.01)
    s.unregister()
    if not got: raise ROSInterruptException('rospy shutdown')
    return got[0]
def spin():
    poke()
    if W.shut: return
    for k, acts in enumerate(W.hist):
        meddle(acts)
        if k < len(W.hist) - 1:
            W.now += 3; W.tick = k + 2
            for t in W.timers:
                if t.on: t.cb(None)
    W.pending = True; poke()
def is_shutdown(): poke(); return W.shut
def log(bad):
    def f(m, *a, **k):
        said(str(m) % a if a else str(m), bad); poke()
    return f
def get_param(name, *d):
    poke(); n = resolve(name)
    if n in W.param_tree: return W.param_tree[n]
    below = {k: v for k, v in W.param_tree.items() if k.startswith(n.rstrip('/') + '/')}
    if below and W.gui:
        tree = {}
        for k, v in below.items():
            at = tree; path = k[len(n.rstrip('/')) + 1:].split('/')
            for x in path[:-1]: at = at.setdefault(x, {})
            at[path[-1]] = v
        return tree
    if d: return d[0]
    raise KeyError(name)
def init_node(name, argv=None, anonymous=False, *a, **k):
    W.alone = W.alone or (not anonymous and not re.search(r'\d{2}', name)); poke()   # a fixed name: a second instance ends the first
def myargv(argv=None): return [a for a in (sys.argv if argv is None else argv) if ':=' not in a]
for k, v in dict(ServiceProxy=ServiceProxy, Timer=Timer, Duration=Duration, Time=Time, Subscriber=Subscriber, sleep=rsleep, wait_for_service=wait_for_service, wait_for_message=wait_for_message, spin=spin, is_shutdown=is_shutdown,
                 loginfo=log(False), logdebug=log(False), logout=log(False), logwarn=log(False), logerr=log(True), logfatal=log(True), loginfo_once=log(False), logwarn_once=log(False), logerr_once=log(True), loginfo_throttle=lambda p, m, *a: log(False)(m, *a), logwarn_throttle=lambda p, m, *a: log(False)(m, *a),
                 get_param=get_param, has_param=lambda n: resolve(n) in W.param_tree, myargv=myargv, init_node=init_node, on_shutdown=lambda h: W.hooks.append(h), signal_shutdown=lambda r='': shutdown_now(),
                 get_rostime=lambda: Time(0) if W.clock_unset else Time(W.now + 1), get_time=lambda: 0.0 if W.clock_unset else W.now + 1, get_name=lambda: '/tool', get_namespace=lambda: '/', resolve_name=resolve,
                 ROSException=ROSException, ROSInterruptException=ROSInterruptException, ServiceException=ServiceException).items(): setattr(rospy, k, v)
rospy.exceptions = types.ModuleType('rospy.exceptions'); rospy.service = types.ModuleType('rospy.service'); rospy.service.ServiceException = ServiceException
for e in (ROSException, ROSInterruptException): setattr(rospy.exceptions, e.__name__, e)
std = types.ModuleType('std_msgs.msg'); std.Bool = make('Bool', 'bool data'); std.String = make('String', 'string data')
stdp = types.ModuleType('std_msgs'); stdp.msg = std; stdp.__path__ = []
rosparam, rosservice = types.ModuleType('rosparam'), types.ModuleType('rosservice')
import yaml
def set_param(name, value, verbose=False):
    d = yaml.safe_load(value)
    for k, v in d.items(): W.params[resolve(name + '/' + k)] = v
rosparam.set_param = set_param; rosparam.set_param_raw = lambda n, d, verbose=False: [W.params.__setitem__(resolve(n + '/' + k), v) for k, v in d.items()]; rosparam.upload_params = lambda n, d, verbose=False: rosparam.set_param_raw(n, d); rosparam.load_file = lambda f, default_namespace=None, verbose=False: [(yaml.safe_load(open(f)), default_namespace or '/')]
def global_ns(n): n = resolve(n); return n if n.endswith('/') else n + '/'
rosparam.list_params = lambda ns: sorted(p for p in W.param_names if p.startswith(global_ns(ns)))
def get_service_list(node=None, namespace=None, include_nodes=False):
    if W.master_down: raise ROSServiceIOException('Unable to communicate with master!')
    if W.gui: W.steps_master += 1
    return [s for s in W.services if not namespace or s.startswith(global_ns(namespace))]
def get_service_type(name):
    if W.master_down: raise ROSServiceIOException('Unable to communicate with master!')
    return W.services.get(resolve(name))
rosservice.get_service_list, rosservice.get_service_type, rosservice.ROSServiceIOException, rosservice.ROSServiceException = get_service_list, get_service_type, ROSServiceIOException, Exception
MODULES = {'rospy': rospy, 'rospy.exceptions': rospy.exceptions, 'rospy.service': rospy.service, 'std_msgs': stdp, 'std_msgs.msg': std, 'rosparam': rosparam, 'rosservice': rosservice}
sys.path[:0] = [REPO + '/controller_manager/src', REPO + '/controller_manager_msgs/src']
TYPES = {n: getattr(srv, n)._type for n in dir(srv) if not n.startswith('_') and not n.endswith(('Request', 'Response'))}

def fresh(c):
    global W
    W = World(); w = c.get('in', c)
    W.out, W.log, W.hooks, W.timers, W.subs, W.messages, W.sent = [], [], [], [], [], [], set()
    W.steps = W.answered = 0; W.now = 0.0; W.appears = 0; W.complained = W.shut = W.hooking = W.pending = W.clock_unset = W.master_down = W.alone = False
    W.signal_at = 120.0; W.ns = ''; W.heard = True; W.params, W.param_tree, W.param_names, W.services, W.tries, W.proxies, W.cut = {}, {}, [], {}, None, 0, 0
    W.f = w.get('f', {}); W.gui = None; W.st = dict(w.get('st', {})); W.race = {}; W.tick = 1; W.order = c.get('order') or sorted(W.st, reverse=True); W.hist = [{}]
    for m in [m for m in sys.modules if m.split('.')[0] in ('controller_manager', 'controller_manager_msgs')]: del sys.modules[m]
    sys.modules.update(MODULES)
    import controller_manager_msgs as p
    p.srv, p.msg = srv, msg; sys.modules['controller_manager_msgs.srv'], sys.modules['controller_manager_msgs.msg'] = srv, msg
class Out(io.TextIOBase):
    def write(self, s):
        if s.strip(): said(s)
        return len(s)
    def flush(self): pass
def script(path, args):
    """runs a tool; whatever way it ends, the shutdown hooks run"""
    code = 0; sys.argv = [path] + args
    saved = _time.sleep, _time.time, _time.monotonic
    _time.sleep, _time.time, _time.monotonic = sleep, lambda: 1e9 + W.now, lambda: 1e3 + W.now
    try:
        with contextlib.redirect_stdout(Out()), contextlib.redirect_stderr(Out()):
            try: runpy.run_path(path, run_name='__main__')
            except SystemExit as e: code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except ROSInterruptException: code = 1
            except Exception as e: code = 1; said('exception: %s: %s' % (type(e).__name__, e), True)
            shutdown_now()
    finally: _time.sleep, _time.time, _time.monotonic = saved
    return code
def answer(code): return {'code': code, 'log': [{k: v for k, v in e.items() if k != 'params'} for e in W.log], 'st': W.st, 'out': W.out, 'complained': W.complained, 'alone': W.alone}
def spawner(c):
    i = c['in']; wt = i['wait']; W.cut = i['cut']; W.hist = [i['acts']]; W.appears = wt['appears']; W.clock_unset = wt['clock'] == 'unset'
    if W.clock_unset or c.get('alias'): W.param_tree['/use_sim_time'] = True
    W.ns = '/' + wt['ns'].strip('/') if wt['ns'].strip('/') else ''
    args = []
    if i['stopped']: args.append('--stopped')
    if wt['ns']: args += ['--namespace', wt['ns']]
    if wt['timeout'] == 0: args += ['--no-timeout'] if i['stopped'] else ['--timeout', '0']
    elif wt['timeout'] > 0: args += ['--timeout', str(wt['timeout'])]
    if wt['topic'] != 'none':
        args += ['--wait-for', 'go']; W.heard = False; t = '/go'
        W.messages = {'true': [(0, t, True)], 'falsetrue': [(1, t, False), (60, t, True)], 'silent': [], 'false': [(1, t, False), (90, t, False)], 'late': [(50.5, t, True)]}[wt['topic']]
        W.messages = [(m[0] + (wt['appears'] if m[0] else 0), m[1], m[2]) for m in W.messages] + [(0, '/other', True)]
    names = list(i['args'])
    want = {}
    if wt['file']:
        # the first two names come from a file
        fn = os.path.join(SCRATCH, 'controllers.yaml'); inside = list(dict.fromkeys(names[:2])); want = {resolve(n): {'type': 't/' + n} for n in inside}
        with open(fn, 'w') as o: o.write(''.join('%s:\n  type: t/%s\n' % (n, n) for n in inside))
        names = [fn] + names[2:] if len(names[:2]) == len(inside) else names
        if len(names) == len(i['args']) and fn not in names: want = {}
    code = script(REPO + '/controller_manager/scripts/spawner', args + names + (['__name:=spawner'] if i['stopped'] else []))
    a = answer(code); a['early'] = any(not e['heard'] for e in W.log); a['unconfigured'] = any(e['op'] == 'load' and not all(e['params'].get(k) == v for k, v in want.items()) for e in W.log)
    return a
def late(c): W.appears = 2.0 if c.get('alias') else 0   # the manager comes up while the tool waits for it
def unspawner(c):
    i = c['in']; late(c); W.hist = i['hist']; W.race = {i['race']['k']: {i['race']['c']: i['race']['act']}}
    return answer(script(REPO + '/controller_manager/scripts/unspawner', list(i['named']) or ['nothing']))
def group(c):
    i = c['in']; late(c); gn = c['groups']; W.param_tree['/controller_groups'] = {gn[k]: list(v) + ([] if i['cmd'] == 'list' else list(v)[:1]) for k, v in i['groups'].items()}
    return answer(script(REPO + '/controller_manager/scripts/controller_group', [i['cmd']] + ([] if i['cmd'] == 'list' else [gn['g']])))
def command(c):
    i = c['in']; k = i['cmd']; late(c)
    if k.startswith('api '):
        with contextlib.redirect_stdout(Out()):
            try:
                m = importlib.import_module('controller_manager.controller_manager_interface'); a = list(i['args'])
                one = len(a) == 1 and i['st'][a[0]] != 'running'
                r = {'api start': lambda: m.start_controller(a[0]) if one else m.start_controllers(a), 'api stop': lambda: m.stop_controller(a[0]) if one else m.stop_controllers(a),
                     'api both': lambda: m.start_stop_controllers(a[:1], a[1:]), 'api reload': lambda: m.reload_libraries(True), 'api restore': lambda: m.reload_libraries(True, restore=True)}[k]()
                r = str(bool(r))
            except ServiceException as e: r = "x"; said("exception: %s" % e, True)
        a = answer(0); a['result'] = r; return a
    words = {'reload': ['reload-libraries'], 'reload restore': ['reload-libraries', '--restore'], 'types': ['list-types'], 'none': [], 'nonsense': ['frobnicate']}.get(k, [k])
    if c.get('alias'): words = [{'list': 'lc', 'list-types': 'lt', 'spawn': 'sp', 'kill': 'kl'}.get(words[0], words[0])] + words[1:] if words else []
    return answer(script(REPO + '/controller_manager/scripts/controller_manager', words + list(i['args'])))
def given(c, *a):
    a = list(a)
    while c.get('alias') and a and a[-1] in (None, False) and a[-1] != '': a.pop()   # what is left out is what is taken for granted
    return a
def queries(c):
    u = importlib.import_module('controller_manager_msgs.utils'); k, i = c['q'], c['in']
    if k in ('managers', 'lister'):
        l = u.ControllerManagerLister(i['search']); got = []
        for services in i['worlds']:
            W.master_down = services is None; W.services = services or {}
            if k == 'lister': got.append(list(l()))
            else:
                g = list(i['guess']); got.append(list(u.get_controller_managers(i['search'], g) if i['guess'] or c.get('alias') else u.get_controller_managers(i['search'])))
                if g != i['guess']: got.append('guess changed')
        return got
    if k == 'calls':
        W.tries = list(i['tries']); l = u.ControllerLister('/cm'); return [[x.name for x in l()] for _ in range(i['n'])]
    if k == 'params': W.param_names = i['params']; return [u.get_rosparam_controller_names(i['ns'])]
    l = [msg.ControllerState(x['name'], x['state'], x['type'], [msg.HardwareInterfaceResources(r['hw'], list(r['res'])) for r in x['claims']]) for x in i['list']]
    if k == 'attr': r = getattr(u, 'filter_by_' + i['by'])(l, i['val'], *given(c, i['sub']))
    elif k == 'hw': r = u.filter_by_hardware_interface(l, i['val'], *given(c, i['sub']))
    else: r = u.filter_by_resources(l, list(i['rs']), *given(c, i['hw'], i['any']))
    return [[next(n for n, x in enumerate(l) if x is y) + 1 for y in r]]
def gui(c):
    import gui as g
    return g.run(c, globals())
KINDS = {'gui': gui, 'spawner': spawner, 'unspawner': unspawner, 'group': group, 'command': command, 'queries': queries}
for line in sys.stdin:
    c = json.loads(line); fresh(c)
    try: a = KINDS[c['kind']](c)
    except Hang as e: a = {'hang': str(e)}
    except Exception as e: a = {'exception': '%s: %s' % (type(e).__name__, e)}
    sys.__stdout__.write(json.dumps(a) + '\n'); sys.__stdout__.flush()
import shutil; os.chdir('/'); shutil.rmtree(SCRATCH, ignore_errors=True)
