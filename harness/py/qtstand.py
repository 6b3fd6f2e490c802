"""A stand-in for the parts of Qt, qt_gui and rospkg that a small rqt plugin touches: signals, timers, combo boxes, tables, menus."""
import os, sys, types
import inspect
import xml.etree.ElementTree as ET
class Meta(type):
    def __getattr__(cls, n):
        if n.startswith('__'): raise AttributeError(n)
        return '%s.%s' % (cls.__name__, n)       # enumerators
class BoundSignal:
    def __init__(self, owner, key=None): self.owner, self.slots, self.keys = owner, [], {}
    def __getitem__(self, k):
        k = k if isinstance(k, type) else {'QString': str, 'int': int}.get(k, k)
        return self.keys.setdefault(k, BoundSignal(self.owner))
    def connect(self, f, *a): self.slots.append(f)
    def disconnect(self, f=None): self.slots[:] = [] if f is None else [s for s in self.slots if s != f]
    def emit(self, *args):
        if self.owner is not None and self.owner._blocked: return
        for s in list(self.slots): call(s, args)
class Signal:
    def __init__(self, *types, **k): self.name = None
    def __set_name__(self, owner, name): self.name = name
    def __get__(self, obj, cls=None):
        if obj is None: return self
        return obj.__dict__.setdefault('_signal_%s' % self.name, BoundSignal(obj))
escaped = []
ARITY = {}
def arity(f):
    k = (getattr(f, '__code__', None), hasattr(f, '__self__'))
    if k[0] is None or k not in ARITY:
        try: q = list(inspect.signature(f).parameters.values()); a = (len([p for p in q if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]), any(p.kind == p.VAR_POSITIONAL for p in q))
        except (TypeError, ValueError): a = (99, True)
        if k[0] is None: return a
        ARITY[k] = a
    return ARITY[k]
def call(f, args):
    """a slot that raises is reported and the application goes on; a slot may take fewer arguments than the signal has"""
    try:
        n, var = arity(f)
        f(*(args if var else args[:n]))
    except Exception as e: escaped.append('%s: %s' % (type(e).__name__, e))
class QObject(metaclass=Meta):
    def __init__(self, *a, **k): self._blocked = False; self._parent = a[0] if a else k.get('parent')
    def __getattr__(self, n):
        if n.startswith('_'): raise AttributeError('%s has no attribute %s' % (type(self).__name__, n))
        if n.endswith('Signal') or n in ('clicked', 'triggered', 'toggled', 'activated', 'pressed', 'entered', 'destroyed', 'timeout', 'customContextMenuRequested', 'doubleClicked', 'currentIndexChanged', 'currentTextChanged', 'aboutToHide'): return self.__dict__.setdefault('_signal_%s' % n, BoundSignal(self))
        return lambda *a, **k: None
    def blockSignals(self, b): old = self._blocked; self._blocked = bool(b); return old
    def signalsBlocked(self): return self._blocked
    def setObjectName(self, n): self._name = n
    def objectName(self): return getattr(self, '_name', '')
    def parent(self, *a): return self._parent
    def connect(self, *a): pass
class QWidget(QObject):
    def __init__(self, *a, **k): super().__init__(*a, **k); self._shown = False; self._title = ''
    def show(self): self._shown = True
    def hide(self): self._shown = False
    def setVisible(self, v): self._shown = bool(v)
    def isVisible(self): return self._shown
    def windowTitle(self): return self._title
    def setWindowTitle(self, t): self._title = t
    def mapToGlobal(self, p): return p
    def viewport(self): return self
    def findChild(self, cls, name=None): return self.__dict__.get(name)
class QLabel(QWidget):
    def setText(self, t):
        if not isinstance(t, str): raise TypeError('setText(self, str): %r' % t)
        self._text = t
    def text(self): return getattr(self, '_text', '')
class QComboBox(QWidget):
    def __init__(self, *a, **k): super().__init__(*a, **k); self._items, self._at = [], -1
    def _moved(self):
        t = self.currentText(); s = self.currentIndexChanged
        s.emit(self._at); s[int].emit(self._at); s[str].emit(t); self.currentTextChanged.emit(t)
    def count(self): return len(self._items)
    def currentIndex(self): return self._at
    def currentText(self): return self._items[self._at] if self._at >= 0 else ''
    def itemText(self, i): return self._items[i] if 0 <= i < len(self._items) else ''
    def setCurrentIndex(self, i):
        i = i if 0 <= i < len(self._items) else -1
        if i != self._at: self._at = i; self._moved()
    def findText(self, t, *a): return self._items.index(t) if t in self._items else -1
    def setCurrentText(self, t):
        if t in self._items: self.setCurrentIndex(self._items.index(t))
    def clear(self):
        old = self._at; self._items, self._at = [], -1
        if old >= 0: self._moved()
    def insertItems(self, i, ts):
        ts = list(ts)
        if not all(isinstance(t, str) for t in ts): raise TypeError('insertItems')
        if not ts: return
        empty = not self._items; i = max(0, min(i, len(self._items))); self._items[i:i] = ts
        if empty and self._at < 0: self._at = 0; self._moved()
        elif self._at >= i: self._at += len(ts); self._moved()
    def insertItem(self, i, *a): self.insertItems(i, [x for x in a if isinstance(x, str)][:1])
    def addItems(self, ts): self.insertItems(len(self._items), ts)
    def addItem(self, *a): self.insertItem(len(self._items), *a)
    def removeItem(self, i):
        if not 0 <= i < len(self._items): return
        del self._items[i]
        if i < self._at: self._at -= 1; self._moved()
        elif i == self._at: self._at = min(i, len(self._items) - 1); self._moved()
    def setItemText(self, i, t): self._items[i] = t
class QHeaderView(QObject):
    def setSectionResizeMode(self, *a): self._mode = a[-1]
    setResizeMode = setSectionResizeMode
    def sectionResizeMode(self, i=0): return getattr(self, '_mode', QHeaderView.Interactive)
    resizeMode = sectionResizeMode
QHeaderView.Interactive, QHeaderView.ResizeToContents, QHeaderView.Stretch, QHeaderView.Fixed = 0, 3, 1, 2
class QModelIndex:
    def __init__(self, row=-1, col=-1, model=None, parent=None): self._r, self._c, self._m, self._p = row, col, model, parent
    def row(self): return self._r
    def column(self): return self._c
    def isValid(self): return self._r >= 0
    def model(self): return self._m
    def parent(self): return self._p or QModelIndex()
    def data(self, role=None): return self._m.data(self, role if role is not None else Qt.DisplayRole)
    def sibling(self, r, c): return QModelIndex(r, c, self._m, self._p)
class QAbstractItemModel(QObject):
    def index(self, r, c, parent=None): return QModelIndex(r, c, self)
    def flags(self, index): return 0
QAbstractTableModel = QAbstractItemModel
class QTableView(QWidget):
    HEIGHT = 30
    def __init__(self, *a, **k): super().__init__(*a, **k); self._model = None; self._h = QHeaderView(); self._v = QHeaderView(); self._current = QModelIndex()
    def setModel(self, m): self._model = m; self._current = QModelIndex()
    def model(self): return self._model
    def rows(self): return 0 if self._model is None else self._model.rowCount(QModelIndex())
    def rowAt(self, y): r = y // self.HEIGHT; return r if 0 <= r < self.rows() else -1
    def columnAt(self, x): return 0
    def indexAt(self, p): r = self.rowAt(p.y()); return QModelIndex(r, 0, self._model) if r >= 0 else QModelIndex()
    def horizontalHeader(self): return self._h
    def verticalHeader(self): return self._v
    def currentIndex(self): return self._current
    def selectedIndexes(self): return [self._current] if self._current.isValid() else []
class QStandardItem(QObject):
    def __init__(self, *a, **k): super().__init__(); self._text = next((x for x in a if isinstance(x, str)), ''); self._kids = []
    def appendRow(self, i): self._kids += i if isinstance(i, list) else [i]
    def appendRows(self, i): self._kids += i
    def appendColumn(self, i): self._kids += i
    def insertRow(self, n, i): self._kids[n:n] = i if isinstance(i, list) else [i]
    def setChild(self, r, *a): self._kids[r:r + 1] = [a[-1]]
    def setText(self, t): self._text = t
    def text(self): return self._text
    def rowCount(self): return len(self._kids)
    def child(self, r, c=0): return self._kids[r] if 0 <= r < len(self._kids) else None
class QStandardItemModel(QAbstractItemModel):
    def __init__(self, *a, **k): super().__init__(); self._root = QStandardItem()
    def appendRow(self, i): self._root.appendRow(i)
    def insertRow(self, n, i): self._root.insertRow(n, i)
    def setItem(self, r, *a): self._root.setChild(r, *a)
    def invisibleRootItem(self): return self._root
    def item(self, r, c=0): return self._root.child(r)
    def rowCount(self, p=None): return self._root.rowCount()
    def clear(self): self._root = QStandardItem()
class QTreeView(QWidget):
    def setModel(self, m): self._model = m
    def model(self): return self.__dict__.get('_model')
class QIcon:
    def __init__(self, *a): self.path = str(a[0]) if a else ''
class QAction(QObject):
    def __init__(self, *a, **k):
        super().__init__(); self._text = next((x for x in a if isinstance(x, str)), ''); self._data = None; self._on = True
        f = next((x for x in a if callable(x) and not isinstance(x, QObject)), None) or k.get('triggered')
        if f: self.triggered.connect(f)
    def text(self): return self._text
    def setText(self, t): self._text = t
    def setData(self, d): self._data = d
    def data(self): return self._data
    def setEnabled(self, b): self._on = bool(b)
    def isEnabled(self): return self._on
    def trigger(self): self.triggered.emit(False); self.triggered[bool].emit(False)
class QMenu(QWidget):
    shown = None          # what happens while a menu is open: called with it, returns the action chosen or None
    def __init__(self, *a, **k): super().__init__(*a, **k); self._acts = []
    def addAction(self, *a, **k):
        x = a[0] if len(a) == 1 and isinstance(a[0], QAction) else QAction(*[y for y in a if not (isinstance(y, QObject) and not isinstance(y, QAction))]); self._acts.append(x); return x
    def addSeparator(self): return QAction('')
    def actions(self): return list(self._acts)
    def addActions(self, l): self._acts += l
    def clear(self): self._acts = []
    def exec_(self, *a):
        x = QMenu.shown(self)
        if x is not None: x.trigger()
        return x
    exec = popup = exec_
class QTimer(QObject):
    every = []
    def __init__(self, *a, **k): super().__init__(*a, **k); self._on, self._single = False, False; QTimer.every.append(self)
    def start(self, *a): self._on = True
    def stop(self): self._on = False
    def isActive(self): return self._on
    def setSingleShot(self, b): self._single = bool(b)
    def fire(self):
        if not self._on: return
        if self._single: self._on = False
        self.timeout.emit()
    @staticmethod
    def singleShot(ms, *a): call(a[-1], ())
class QPoint:
    def __init__(self, x=0, y=0): self._x, self._y = x, y
    def x(self): return self._x
    def y(self): return self._y
class QCursor(metaclass=Meta):
    @staticmethod
    def pos(): return QPoint()
class QFont(QObject): pass
class Qt(metaclass=Meta): pass
def QVariant(x=None): return x
class Plugin(QObject):
    def __init__(self, context): super().__init__(context)
class Context:
    def __init__(self, serial): self.serial, self.widgets = serial, []
    def serial_number(self): return self.serial
    def add_widget(self, w): self.widgets.append(w)
class Settings(dict):
    def set_value(self, k, v): self[k] = v
    def value(self, k, default=None, *a): return self.get(k, default)
    def contains(self, k): return k in self
def slot(*a, **k): return lambda f: f
CORE = dict(QObject=QObject, QAbstractTableModel=QAbstractTableModel, QAbstractItemModel=QAbstractItemModel, QModelIndex=QModelIndex, Qt=Qt, QTimer=QTimer, QVariant=QVariant, Signal=Signal, pyqtSignal=Signal, Slot=slot, QPoint=QPoint)
WIDGETS = dict(QWidget=QWidget, QFormLayout=QObject, QHeaderView=QHeaderView, QMenu=QMenu, QAction=QAction, QStyledItemDelegate=type('QStyledItemDelegate', (QObject,), {}), QComboBox=QComboBox, QLabel=QLabel, QTableView=QTableView, QTreeView=QTreeView)
GUI = dict(QCursor=QCursor, QFont=QFont, QIcon=QIcon, QStandardItem=QStandardItem, QStandardItemModel=QStandardItemModel, QAction=QAction)
PARSED = {}
def loadUi(path, widget, *a):
    if path not in PARSED: PARSED[path] = ET.parse(path).getroot().find('widget')
    root = PARSED[path]
    for w in root.iter('widget'):
        if w is root: continue
        o = WIDGETS.get(w.get('class'), QWidget)(widget); setattr(widget, w.get('name'), o)
        t = w.find("property[@name='text']/string")
        if t is not None and isinstance(o, QLabel): o.setText(t.text or '')
    t = root.find("property[@name='windowTitle']/string")
    if t is not None: widget.setWindowTitle(t.text or '')
def install(repo):
    def module(n, **k): m = types.ModuleType(n); m.__dict__.update(k); m.__path__ = []; sys.modules[n] = m; return m
    b = module('python_qt_binding', loadUi=loadUi)
    for n, d in (('QtCore', CORE), ('QtWidgets', WIDGETS), ('QtGui', GUI)): setattr(b, n, module('python_qt_binding.' + n, **d))
    module('qt_gui'); module('qt_gui.plugin', Plugin=Plugin); module('rqt_gui_py'); module('rqt_gui_py.plugin', Plugin=Plugin)
    class RosPack:
        def get_path(self, p): return os.path.join(repo, p)
    module('rospkg', RosPack=RosPack)
