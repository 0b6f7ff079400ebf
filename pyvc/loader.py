"""Loads the repository's modules into the symbolic world.

The source text of every sporco module is read from the repository on every
run, parsed, and executed unchanged except that

  * imports are resolved to the symbolic stand-ins for numpy, scipy, numexpr,
    pyfftw (assumed contracts) and to the symbolic copies of sporco modules;
  * the builtins len, range, isinstance, float, int, abs, max, min, sum, round
    accept symbolic values;
  * loops named in a contract are cut at their invariant (see loops.py);
  * functions with a contract marked `modular` are replaced, for their callers,
    by that contract.

Nothing else is dropped: docstrings, decorators, default arguments, class
bodies and metaclasses are executed as they are."""
import ast
import builtins
import importlib
import os
import sys
import types

import numpy as rnp

from . import terms as T
from .terms import Unsupported
from . import sval as V
from .sval import SV, SDtype, SType, to_sv, is_sym, simp
from . import snp, stubs, loops
from .engine import PathEnd

REPO = os.environ.get('PYVC_REPO', '/repo')


class _Fmt(ast.NodeTransformer):
    """'literal' % values: symbolic values are formatted as '?'."""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) \
                and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Name(
                '__strmod__', ast.Load()), [n.left, n.right], []), n)
        return n


def _strmod(f, v):
    t = v if isinstance(v, tuple) else (v,)
    if not any(is_sym(x) for x in t):
        return f % v
    return '?' + f


# ---- builtins -------------------------------------------------------------------

def b_len(x):
    if getattr(x, '_is_sarr', False):
        return x.shape[0]
    return builtins.len(x)


def b_range(*a):
    if any(isinstance(x, SV) for x in a):
        a2 = []
        for x in a:
            x = simp(x)
            if isinstance(x, SV):
                return loops.SymRange(*a)
            a2.append(x)
        a = a2
    return builtins.range(*[int(x) if isinstance(x, rnp.integer) else x
                            for x in a])


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, SV) and
                                               x.k == 'i')

    def __call__(cls, x=0, *a):
        if isinstance(x, SV):
            return simp(V.cast(x, rnp.dtype('int64')))
        if getattr(x, '_is_sarr', False):
            return simp(V.cast(x.item(), rnp.dtype('int64')))
        return builtins.int(x, *a)


class b_int(builtins.int, metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, SV) and
                                                 x.k == 'f')

    def __call__(cls, x=0.0):
        if isinstance(x, SV):
            return V.cast(x, rnp.dtype('float64'))
        if getattr(x, '_is_sarr', False):
            return V.cast(x.item(), rnp.dtype('float64'))
        return builtins.float(x)


class b_float(builtins.float, metaclass=_FloatMeta):
    pass


def b_isinstance(x, t):
    if isinstance(t, tuple):
        return any(b_isinstance(x, y) for y in t)
    if isinstance(t, SType):
        return isinstance(x, t.d.type) or (isinstance(x, SV) and
                                           x.dt == t.d)
    if t is builtins.int or t is b_int:
        return isinstance(x, builtins.int) or (isinstance(x, SV) and
                                               x.k == 'i')
    if t is builtins.float or t is b_float:
        return isinstance(x, builtins.float) or (isinstance(x, SV) and
                                                 x.k == 'f')
    if isinstance(x, SV) and isinstance(t, type) and issubclass(
            t, rnp.generic):
        return issubclass((x.dt or V._KDT[x.k]).type, t)
    if isinstance(x, builtins.dict) and t is builtins.dict:
        return True
    return builtins.isinstance(x, t)


def _minmax(op):
    def f(*a, **k):
        if len(a) == 1:
            it = list(a[0])
        else:
            it = list(a)
        if not any(is_sym(x) for x in it):
            return getattr(builtins, op)(*a, **k)
        r = it[0]
        for x in it[1:]:
            g = V.f_max if op == 'max' else V.f_min
            r = simp(g(to_sv(r), to_sv(x)))
        return r
    return f


def b_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def b_print(*a, **k):
    pass


BUILTINS = dict(vars(builtins))
BUILTINS.update(len=b_len, range=b_range, int=b_int, float=b_float,
                isinstance=b_isinstance, max=_minmax('max'),
                min=_minmax('min'), sum=b_sum, print=b_print)


class World(object):
    """A fresh symbolic copy of the package."""

    def __init__(self, modular=(), cuts=None, repo=None, subs=None):
        self.repo = repo or REPO
        self.mods = {}
        self.modular = dict(modular)      # qualname -> replacement factory
        self.cuts = cuts or {}
        self.original = {}
        self.subs = subs or {}            # module name -> stub module
        self.files = set()
        self.bi = dict(BUILTINS)
        self.bi['__import__'] = self._import
        self.bimod = types.ModuleType('builtins')
        self.bimod.__dict__.update(self.bi)

    # -- import machinery -------------------------------------------------
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            base = pkg.split('.')
            if level > 1:
                base = base[:-(level - 1)]
            name = '.'.join(base + ([name] if name else []))
        root = name.split('.')[0]
        if root == 'builtins':
            return self.bimod
        if root == 'sporco':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and self._path(
                            name + '.' + f):
                        self.load(name + '.' + f)
                return m
            return self.mods['sporco']
        st = self.subs.get(root) or stubs.MODULES.get(root)
        if st is not None:
            m = st
            parts = name.split('.')[1:]
            if fromlist:
                for p in parts:
                    m = getattr(m, p)
            return m
        return builtins.__import__(name, None, None, fromlist, 0)

    def _path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        if os.path.isfile(p + '.py'):
            return p + '.py'
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = None
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        path = self._path(name)
        if path is None:
            raise ImportError('No module named %s' % name)
        with open(path, encoding='utf8') as f:
            src = f.read()
        self.files.add(path)
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(_Fmt().visit(tree))
        tree = loops.transform(tree, name, self.cuts)
        m = types.ModuleType(name)
        m.__file__ = path
        ispkg = path.endswith('__init__.py')
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.bi
        m.__dict__['__vc__'] = loops.RT
        m.__dict__['__strmod__'] = _strmod
        self.mods[name] = m
        saved = sys.modules.get(name)
        sys.modules['__pyvc__.' + name] = m
        m.__name__ = '__pyvc__.' + name
        code = compile(tree, path, 'exec')
        exec(code, m.__dict__)
        m.__name__ = '__pyvc__.' + name
        if parent is not None:
            setattr(parent, name.rpartition('.')[2], m)
        self._apply_modular(name, m)
        return m

    def _apply_modular(self, name, m):
        for q, fac in self.modular.items():
            mod, _, attr = q.rpartition('.')
            if mod == name and attr in m.__dict__:
                orig = m.__dict__[attr]
                self.original[q] = orig
                m.__dict__[attr] = fac(self, orig)

    def get(self, qual):
        """The function under verification (the original even if it is
        replaced by its contract for callers)."""
        mod, _, attr = qual.rpartition('.')
        try:
            m = self.load(mod)
            if qual in self.original:
                return self.original[qual]
            return getattr(m, attr)
        except ImportError:
            c = self.get(mod)
            return getattr(c, attr)
