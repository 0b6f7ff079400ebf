"""Contracts, and the two worlds a contract is run in.

A contract is a Python function body(w, case): it makes the arguments of a
function of the repository (requires), calls it, and states what must hold
(ensures).  In the symbolic world the arguments are arbitrary arrays of
arbitrary sizes and each `ensures` clause is a proof obligation; in the
numeric world the same text runs against the unmodified package with concrete
arguments and each clause is evaluated (runtime contract checking, used to
replay failures, to test the assumed contracts on numpy, scipy, pyfftw and
numexpr, and as the labelled bounded stand-in where a function is outside the
verifier's reach)."""
import inspect
import itertools
import math
import os
import sys
import time
import traceback
import zlib

import numpy as rnp

from . import terms as T
from .terms import P, Unsupported
from .engine import Engine, PathEnd
from . import sval as V
from .sval import SV, to_sv, simp
from . import sarr as A
from .sarr import SArr, lift
from . import snp, loops, stubs
from .loader import World, REPO

REGISTRY = []


class Contract(object):
    def __init__(self, prop, name, body, fns, cases, sym, trials, modular,
                 cuts, specs, timeout, numeric, note, max_paths, budget,
                 subs, bounded_only, numsecs, fft, fork):
        self.prop = prop
        self.name = name
        self.body = body
        self.fns = fns
        self.cases = cases
        self.sym = sym
        self.trials = trials
        self.modular = modular
        self.cuts = cuts
        self.specs = specs
        self.timeout = timeout
        self.numeric = numeric
        self.note = note
        self.max_paths = max_paths
        self.budget = budget
        self.subs = subs
        self.bounded_only = bounded_only
        self.numsecs = numsecs
        self.fft = fft
        self.fork = fork


def contract(prop, fns, cases=(None,), sym=True, trials=120, modular=None,
             cuts=(), specs=None, timeout=8000, numeric=True, note='',
             name=None, max_paths=400, budget=60, subs=None,
             bounded_only='', numsecs=8, fft=None, fork=False):
    def d(body):
        REGISTRY.append(Contract(
            prop, name or body.__name__, body,
            [fns] if isinstance(fns, str) else list(fns), list(cases), sym,
            trials, modular or {}, set(cuts), specs or {}, timeout, numeric,
            note or (inspect.getdoc(body) or ''), max_paths, budget, subs,
            bounded_only, numsecs, fft, fork))
        return body
    return d


class Skip(Exception):
    """The concrete arguments do not satisfy the precondition."""


class ContractFail(Exception):
    pass


# ---- symbolic world -----------------------------------------------------------

class SymW(object):
    sym = True
    eps = 0

    def __init__(self, con, case, timeout=None):
        self.con = con
        self.case = case
        self.e = Engine(timeout or con.timeout, con.max_paths)
        self.e.contract = con.name
        self.world = World(modular=con.modular, cuts=con.cuts,
                           subs=con.subs)
        self.np = snp.np
        self.inputs = {}

    def mod(self, name):
        return self.world.load(name)

    def fn(self, qual):
        return self.world.get(qual)

    # requires
    def dim(self, name, lo=1, hi=4):
        p = T.var(name, 'I')
        self.e.assume(T.le0(P(lo) - p))
        if lo >= 1:
            self.e.pos_dims.add(p.single_atom())
        return SV('i', p)

    def int(self, name, lo=None, hi=None):
        p = T.var(name, 'I')
        if lo is not None:
            self.e.assume(T.le0(to_sv(lo).poly() - p))
        if hi is not None:
            self.e.assume(T.le0(p - to_sv(hi).poly()))
        return SV('i', p)

    def real(self, name, pos=False, nonneg=False, lo=None, hi=None):
        p = T.var(name, 'R')
        if pos:
            self.e.assume(T.lt0(-p))
            self.e.nonneg_vars.add(name)
            self.e.pos_vars.add(name)
        if nonneg:
            self.e.assume(T.le0(-p))
            self.e.nonneg_vars.add(name)
        if lo is not None:
            self.e.assume(T.le0(to_sv(lo).poly() - p))
        if hi is not None:
            self.e.assume(T.le0(p - to_sv(hi).poly()))
        return SV('f', p)

    def bool(self, name):
        return bool(SV('b', T.b_leaf(name)))

    def arr(self, name, dims, kind='f', pos=False, nonneg=False, dtype=None,
            vals=None):
        d = dtype or {'f': 'float64', 'c': 'complex128', 'i': 'int64',
                      'b': 'bool'}[kind]
        a = snp.sym_leaf(name, snp._shape(dims), d)
        if pos or nonneg:
            def fact(at):
                return T.lt0(-P(at)) if pos else T.le0(-P(at))
            self.e.leaf_facts.setdefault(name, []).append(fact)
            self.e._nnl.add(name)
            if pos:
                self.e._pol.add(name)
        return a

    def assume(self, c):
        self.e.assume(to_sv(c).cond())

    def assume_all(self, arr, why=''):
        """Assume an elementwise condition on the leaf array it is about
        (instantiated at the generic indices used later)."""
        raise Unsupported('assume_all')

    # ensures
    def generic(self, axes, fresh=False):
        """Generic index for the given axes (the same one for the same
        axes, unless fresh)."""
        if not fresh:
            k = tuple(axes)
            if k not in self.e.gcache:
                self.e.gcache[k] = self.generic(axes, True)
            return self.e.gcache[k]
        out = []
        for f in axes:
            t = []
            for d in f:
                c = d.const()
                g = T.var(T.fresh_name('g'), 'I')
                self.e.assume(T.le0(-g))
                self.e.assume(T.lt0(g - d))
                self.e.generic_idx.append((g, T.ZERO, d))
                t.append(g)
            out.append(tuple(t))
        return tuple(out)

    def index(self, arr):
        """A generic (arbitrary) multi-index of arr, as integers."""
        a = lift(arr)
        g = self.generic(a.axes, True)
        return tuple(simp(SV('i', A.lin(t, f) if f else T.ZERO))
                     for t, f in zip(g, a.axes))

    def gindex(self, n):
        """An arbitrary integer in range(n)."""
        p = to_sv(n).poly()
        if p.const() == 1:
            return 0
        g = T.var(T.fresh_name('g'), 'I')
        self.e.assume(T.le0(-g))
        self.e.assume(T.lt0(g - p))
        self.e.generic_idx.append((g, T.ZERO, p))
        return SV('i', g)

    def same_shape(self, name, a, b):
        a, b = lift(a), lift(b)
        if a.ndim != b.ndim:
            self.e.record(name + ' [shape]', 'refuted', 'rank', 0.0,
                          'rank %d vs %d' % (a.ndim, b.ndim))
            return False
        ok = True
        for k in range(a.ndim):
            p, q = A.axdim(a.axes[k]), A.axdim(b.axes[k])
            if p is not q:
                ok = self.e.prove_zero('%s [dimension %d]' % (name, k),
                                       p - q) and ok
        return ok

    def eq(self, name, a, b, shape=True, tol=None):
        a, b = lift(a), lift(b)
        if a.ndim == 0 and b.ndim > 0:
            b, a = a, b
        if b.ndim > 0 or a.ndim == 0:
            if not self.same_shape(name, a, b):
                return
        axes = tuple(f if len(f) >= len(g) else g
                     for f, g in zip(a.axes, b.axes)) if b.ndim else a.axes
        g = self.generic(axes)
        self.e.forkelt = self.con.fork
        try:
            va = a.elt(tuple(A.conv(i, x, y)
                             for i, x, y in zip(g, axes, a.axes)))
            vb = b.elt(tuple(A.conv(i, x, y)
                             for i, x, y in zip(g, axes, b.axes))
                       if b.ndim else ())
        finally:
            self.e.forkelt = False
        self._eqv(name, va, vb)

    def _eqv(self, name, va, vb):
        if va.k == 'b' and vb.k == 'b':
            self.e.prove(name, V.f_eq(va, vb).re)
            return
        self.e.prove_zero(name, va.poly() - vb.poly())
        if va.k == 'c' or vb.k == 'c':
            self.e.prove_zero(name + ' [imag]', va.im - vb.im)

    def _elems(self, *arrs):
        arrs = [lift(x) for x in arrs]
        axes = A.broadcast_axes(*[x.axes for x in arrs])
        g = self.generic(axes)
        return [x.elt(A.reindex(g, axes, x.axes)) for x in arrs]

    def le(self, name, a, b, tol=None):
        va, vb = self._elems(a, b)
        self.e.prove(name, V.f_le(va, vb).re)

    def imp(self, name, c, rel, a, b, tol=None):
        """For every element: c implies a rel b."""
        vc, va, vb = self._elems(c, a, b)
        cd = vc.cond()
        if rel == 'eq':
            if va.k == 'c' or vb.k == 'c':
                self.e.prove_zero(name + ' [imag]', va.im - vb.im,
                                  extra=[cd])
            self.e.prove_zero(name, va.poly() - vb.poly(), extra=[cd])
        elif rel == 'le':
            self.e.prove(name, T.c_implies(cd, T.le0(va.poly() -
                                                     vb.poly())))
        elif rel == 'lt':
            self.e.prove(name, T.c_implies(cd, T.lt0(va.poly() -
                                                     vb.poly())))

    def all(self, name, c, tol=None):
        vc, = self._elems(c)
        self.e.prove(name, vc.cond())

    def true(self, name, c, tol=None):
        if getattr(c, '_is_sarr', False):
            c = c.item()
        self.e.prove(name, to_sv(c).cond())

    def fail(self, name, detail=''):
        self.e.record(name, 'refuted', 'execution', 0.0, detail)

    def defined(self, name='no division by zero'):
        """Every division evaluated so far has a nonzero divisor where its
        value is used."""
        divs = dict(self.e.divs)
        if not divs:
            self.e.record(name, 'proved', 'no division', 0.0)
            return
        for den, gss in divs.items():
            for gs in gss:
                self.e.prove(name + ': divisor %s' % T.show(den)[:60],
                             T.c_implies(T.c_and(*gs),
                                         T.c_not(T.eq0(den))))

    def finite(self, name, *arrs):
        for a in arrs:
            a = lift(a)
            a.elt(self.generic(a.axes))
        self.defined(name)

    def raises(self, name, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            self.e.record(name, 'proved', 'execution', 0.0)
            return
        self.fail(name, 'no exception raised')

    def bounded(self, name, why):
        """Clauses that are only checked on concrete arguments."""
        self.e.record(name, 'bounded', 'runtime check', 0.0, why)
        return False

    def unsupported(self, why):
        return Unsupported(why)

    def pivots_nonzero(self, why):
        """Assume the divisors that occur are nonzero (a lemma outside the
        verifier; reported as an assumption)."""
        self.e.nonzero_ok = True
        self.e.trusted.add('assumed lemma: ' + why)

    def symmetric(self, name, n, nonneg=False):
        """An arbitrary symmetric matrix A = Q diag(L) Q^T; returns
        (A, L, Q)."""
        Q = self.arr(name + 'Q', (n, n))
        T.ORTHO.add(name + 'Q')
        L = self.arr(name + 'L', (n,), nonneg=nonneg)
        A_ = self.np.dot(Q * L, Q.T)
        A_._eig = (L, Q)
        return A_, L, Q

    def dft(self, kind, a, *args, **kw):
        """The transform as specified by the assumed contract."""
        from . import stubs
        if kind in ('dct', 'idct'):
            return stubs.DCT[kind](a, *args, **kw)
        return stubs.FFT[kind](a, *args, **kw)

    def cut(self, qual, havoc, check):
        """Verify every loop of the function `qual` (named in the contract's
        `cuts`) for an arbitrary iteration: havoc(t) puts the state after t
        iterations, check(t) proves that the state is such a state."""
        sp = loops.Spec(qual, lambda lp, env, t: [
            ('loop invariant', lambda when: check(simp(t), when))],
            lambda lp, env, t: havoc(simp(t)))
        d = dict(loops.RT.specs)
        d[qual] = sp
        loops.RT.specs = d

    def keep(self, x):
        """Contents of x now (for frame conditions)."""
        return lift(x).copy() if getattr(x, '_is_sarr', False) else x

    def unchanged(self, name, x, old):
        self.eq(name, x, old)

    def dtype_is(self, name, a, d):
        ok = lift(a).dt == real_dtype(d)
        self.e.record(name, 'proved' if ok else 'refuted', 'execution', 0.0,
                      'dtype %s' % lift(a).dt)

    def mode(self, *opts):
        raise Unsupported('mode')


real_dtype = V.real_dtype


# ---- numeric world ------------------------------------------------------------

class NumW(object):
    sym = False
    eps = 1e-9

    def __init__(self, con, case, seed, trial, hints=None):
        self.con = con
        self.case = case
        self.hv = dict(hints['vars']) if hints else {}
        self.hl = dict(hints['leaves']) if hints else {}
        if hints and trial % 3 == 1:
            self.hl = {}
        h = zlib.crc32(('%s|%r' % (con.name, case)).encode())
        self.rng = rnp.random.RandomState((seed * 1000003 + trial * 7919 +
                                           h) % (2 ** 32))
        self.seed = seed
        self.trial = trial
        self.np = rnp
        self.inputs = {}
        self.fails = []
        self.nclauses = 0
        self.style = trial % 6
        self.counter = {}

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def fn(self, qual):
        import importlib
        parts = qual.split('.')
        for n in range(len(parts), 0, -1):
            try:
                m = importlib.import_module('.'.join(parts[:n]))
                break
            except ImportError:
                continue
        for p in parts[n:]:
            m = getattr(m, p)
        return m

    def _rec(self, name, v):
        self.inputs[name] = v
        return v

    def _hint(self, name, p=1.0):
        if name in self.hv and (self.trial % 3 != 2 or
                                self.rng.rand() < 0.6):
            return self.hv[name]
        return None

    def dim(self, name, lo=1, hi=4):
        if isinstance(self.inputs.get(name), int):
            return self.inputs[name]
        h = self._hint(name)
        if isinstance(h, int) and lo <= h <= 16:
            return self._rec(name, h)
        return self._rec(name, int(self.rng.randint(lo, max(lo, hi) + 1)))

    def int(self, name, lo=None, hi=None):
        h = self._hint(name)
        if isinstance(h, int) and abs(h) < 1000:
            return self._rec(name, h)
        lo = -5 if lo is None else lo
        hi = lo + 10 if hi is None else hi
        return self._rec(name, int(self.rng.randint(lo, hi + 1)))

    def real(self, name, pos=False, nonneg=False, lo=None, hi=None):
        r = self.rng
        h = self._hint(name)
        if h is not None and abs(h) < 1e9:
            return self._rec(name, float(h))
        if lo is not None or hi is not None:
            a = lo if lo is not None else hi - 3.0
            b = hi if hi is not None else lo + 3.0
            k = r.randint(0, 5)
            v = a if k == 0 and lo is not None and not pos else \
                b if k == 1 and hi is not None else r.uniform(a, b)
        else:
            k = r.randint(0, 6)
            v = [r.uniform(.02 if pos else 0, 2), 1.0, 0.5, r.uniform(.02 if pos else 0, 20),
                 r.uniform(.02 if pos else 0, .1), 2.0][k]
            if nonneg and r.randint(0, 6) == 0:
                v = 0.0
            if not (pos or nonneg) and r.randint(0, 2):
                v = -v
        return self._rec(name, float(v))

    def bool(self, name):
        return self._rec(name, bool(self.rng.randint(0, 2)))

    def arr(self, name, dims, kind='f', pos=False, nonneg=False, dtype=None,
            vals=None):
        r = self.rng
        shp = tuple(int(d) for d in (dims if isinstance(dims, (tuple, list))
                                     else (dims,)))

        def draw():
            st = r.randint(0, 6)
            if st == 0:
                x = r.randint(-3, 4, size=shp) / 2.0
            elif st == 1:
                x = r.randn(*shp) * (r.rand(*shp) < 0.5)
            elif st == 2:
                x = r.randn(*shp) * 10.0 ** r.randint(-2, 3)
            elif st == 3 and self.style == 5:
                x = rnp.zeros(shp)
            else:
                x = r.randn(*shp)
            return rnp.asarray(x, dtype=float)
        if vals is not None:
            a = r.choice(vals, size=shp)
        elif kind == 'c':
            a = draw() + 1j * draw()
        elif kind == 'i':
            a = r.randint(-4, 5, size=shp)
        elif kind == 'b':
            a = r.rand(*shp) < 0.5
        else:
            a = draw()
            if nonneg:
                a = rnp.abs(a)
            if pos:
                a = rnp.abs(a) + 0.1
        if self.hl:
            for sfx, f in (('', 1), ('.re', 1), ('.im', 1j)):
                for ix, v in self.hl.get(name + sfx, ()):
                    try:
                        ix = [k for k in ix]
                        # axes of size one carry no index
                        j = []
                        for n in shp:
                            j.append(0 if n == 1 and len(ix) < len(shp) -
                                     len(j) else ix.pop(0))
                        j = tuple(j)
                        if any(k < 0 or k >= n for k, n in zip(j, shp)):
                            continue
                        if a.dtype.kind == 'c':
                            a[j] = complex(v, a[j].imag) if f == 1 else \
                                complex(a[j].real, v)
                        else:
                            a[j] = v
                    except Exception:
                        pass
        if dtype is not None:
            a = a.astype(real_dtype(dtype))
        self._rec(name, a.copy())
        return a

    def assume(self, c):
        if not bool(rnp.all(c)):
            raise Skip()

    def index(self, arr):
        a = rnp.asarray(arr)
        if a.size == 0:
            raise Skip()
        return tuple(int(self.rng.randint(0, n)) for n in a.shape)

    def gindex(self, n):
        return int(self.rng.randint(0, n))

    def _fail(self, name, detail, rel=None):
        # rel: discrepancy relative to the largest value compared
        self.fails.append((name, detail))
        if rel is None or not rel < self.SOFT:
            self.soft = False

    SOFT = 1e-4
    soft = True

    def fail(self, name, detail=''):
        self.nclauses += 1
        self._fail(name, detail)

    def same_shape(self, name, a, b):
        self.nclauses += 1
        if rnp.shape(a) != rnp.shape(b):
            self._fail(name + ' [shape]', 'shape %s vs %s' % (
                rnp.shape(a), rnp.shape(b)))
            return False
        return True

    TOL = 1e-7

    def eq(self, name, a, b, shape=True, tol=None):
        if rnp.ndim(b) > 0 and rnp.ndim(a) > 0:
            if not self.same_shape(name, a, b):
                return
        self._cmp(name, a, b, None, tol)

    def _cmp(self, name, a, b, mask, tol=None):
        self.nclauses += 1
        a, b = rnp.asarray(a), rnp.asarray(b)
        if a.dtype.kind == 'b' and b.dtype.kind == 'b':
            bad = a != b
        else:
            t = tol or self.TOL
            if rnp.dtype('float32') in (a.dtype, b.dtype) or \
                    rnp.dtype('complex64') in (a.dtype, b.dtype):
                t = max(t, 1e-3)
            ad, bd = (x.astype(complex if x.dtype.kind == 'c' else float)
                      for x in (a, b))
            m = 1.0
            for x in (ad, bd):
                y = rnp.abs(x[rnp.isfinite(x)]) if x.ndim else (
                    rnp.abs(x) if rnp.isfinite(x) else rnp.zeros(1))
                if y.size:
                    m = max(m, float(rnp.max(y)))
            with rnp.errstate(all='ignore'):
                d = rnp.abs(ad - bd)
                bad = ~(d <= t * m)
                # equal infinities agree
                bad = bad & ~(ad == bd)
        if mask is not None:
            bad = bad & mask
        if rnp.any(bad):
            with rnp.errstate(all='ignore'):
                rel = float(rnp.max(rnp.where(bad, d, 0) / m)) \
                    if a.dtype.kind != 'b' else None
            self._fail(name, 'expected %s, got %s' % (_sh(b), _sh(a)), rel)

    def le(self, name, a, b, tol=None):
        self.nclauses += 1
        a, b = rnp.asarray(a, float), rnp.asarray(b, float)
        t = tol or 1e-7
        s = t * (1 + rnp.maximum(rnp.abs(a), rnp.abs(b)))
        if not rnp.all(a <= b + s):
            self._fail(name, 'not <= : %s vs %s' % (_sh(a), _sh(b)))

    def imp(self, name, c, rel, a, b, tol=None):
        c, a, b = rnp.broadcast_arrays(c, a, b)
        if rel == 'eq':
            self._cmp(name, a, b, c, tol)
        else:
            self.nclauses += 1
            t = tol or 1e-7
            s = t * (1 + rnp.maximum(rnp.abs(a), rnp.abs(b)))
            bad = c & ~(a <= b + s)
            if rnp.any(bad):
                self._fail(name, 'not <= : %s vs %s' % (_sh(a), _sh(b)))

    def all(self, name, c, tol=None):
        self.nclauses += 1
        if not rnp.all(c):
            self._fail(name, 'condition false: %s' % _sh(rnp.asarray(c)))

    def true(self, name, c, tol=None):
        self.nclauses += 1
        if not bool(c):
            self._fail(name, 'condition false')

    def defined(self, name='no division by zero'):
        pass

    def finite(self, name, *arrs):
        self.nclauses += 1
        for a in arrs:
            if not rnp.all(rnp.isfinite(a)):
                self._fail(name, 'non-finite values %s' % _sh(
                    rnp.asarray(a)))

    def raises(self, name, exc, f, *a, **k):
        self.nclauses += 1
        try:
            f(*a, **k)
        except exc:
            return
        self._fail(name, 'no exception raised')

    def bounded(self, name, why):
        return True

    def pivots_nonzero(self, why):
        pass

    def dft(self, kind, a, *args, **kw):
        if kind in ('dct', 'idct'):
            import scipy.fftpack
            return getattr(scipy.fftpack, kind)(a, *args, **kw)
        s, axes = (tuple(args) + (None, None))[:2]
        if axes is None:
            axes = tuple(range(a.ndim)) if s is None else \
                tuple(range(a.ndim - len(s), a.ndim))
        return getattr(rnp.fft, kind)(
            a, None if s is None else [int(x) for x in s], axes)

    def cut(self, qual, havoc, check):
        pass

    def symmetric(self, name, n, nonneg=False):
        B = self.arr(name, (n, n))
        S = B.T.dot(B) if nonneg or self.rng.randint(0, 2) else B + B.T
        L, Q = rnp.linalg.eigh(S)
        return S, L, Q

    def keep(self, x):
        return rnp.array(x, copy=True) if isinstance(x, rnp.ndarray) else x

    def unchanged(self, name, x, old):
        self.nclauses += 1
        if rnp.shape(x) != rnp.shape(old) or not rnp.array_equal(
                x, old, equal_nan=rnp.asarray(x).dtype.kind in 'fc'):
            self._fail(name, 'modified: %s -> %s' % (_sh(old), _sh(x)))

    def dtype_is(self, name, a, d):
        self.nclauses += 1
        if rnp.asarray(a).dtype != real_dtype(d):
            self._fail(name, 'dtype %s' % rnp.asarray(a).dtype)


def _sh(x):
    x = rnp.asarray(x)
    s = rnp.array2string(x, threshold=20, precision=6)
    return s if len(s) < 500 else s[:500] + '...'


# ---- running --------------------------------------------------------------------

def run_sym(con, case, budget=None):
    """Prove one case of a contract.  Returns a result dict."""
    t0 = time.time()
    res = dict(contract=con.name, case=repr(case), obligations=[],
               status='proved', reason='', paths=0, solver_s=0.0)
    if con.bounded_only:
        res['status'] = 'bounded'
        res['reason'] = con.bounded_only
        return res
    try:
        w = SymW(con, case)
        e = w.e
        e.deadline = t0 + (budget or con.budget)
        loops.RT.specs = con.specs
        stubs.OPAQUE[0] = con.fft == 'opaque'
        stubs.opaque_reset()

        def run():
            w.inputs = {}
            try:
                con.body(w, case)
            except (PathEnd, Unsupported):
                raise
            except RecursionError:
                raise Unsupported('recursion limit')
            except Exception as ex:
                # the code raised an exception on a feasible path
                st, be, mdl, low = e.check([], timeout=4000)
                if st == 'unsat':
                    raise PathEnd('infeasible')
                tb = traceback.extract_tb(ex.__traceback__)
                inrepo = tb and tb[-1].filename.startswith(REPO)
                inpyvc = [t for t in tb if '/pyvc/' in t.filename]
                txt = '%s: %s at %s:%d' % (
                    type(ex).__name__, ex, tb[-1].filename, tb[-1].lineno)
                if inpyvc and (isinstance(ex, (
                        AttributeError, TypeError, KeyError,
                        AssertionError)) or os.path.basename(
                            tb[-1].filename) in ('engine.py', 'terms.py')):
                    raise Unsupported('internal: ' + txt)
                e.record('no exception', 'refuted', 'execution', 0.0, txt)
                raise PathEnd('exception')
        e.explore(run)
    except Unsupported as ex:
        res['status'] = 'unsupported'
        tb = traceback.extract_tb(ex.__traceback__)
        res['reason'] = '%s [%s]' % (ex, '; '.join(
            '%s:%d' % (os.path.basename(t.filename), t.lineno)
            for t in tb[-4:]))
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        res['status'] = 'unsupported'
        res['reason'] = 'internal error %s: %s [%s]' % (
            type(ex).__name__, ex, '; '.join(
                '%s:%d' % (os.path.basename(t.filename), t.lineno)
                for t in tb[-4:]))
    try:
        e = w.e
    except NameError:
        res['secs'] = time.time() - t0
        return res
    res['obligations'] = [o.asdict() for o in e.obls]
    res['paths'] = e.paths
    res['solver_s'] = e.solver_time
    res['trusted'] = sorted(e.trusted)
    res['files'] = sorted(w.world.files)
    res['queries'] = e.nqueries
    sts = [o.status for o in e.obls]
    if 'refuted' in sts:
        res['status'] = 'refuted'
    elif res['status'] == 'proved':
        if 'unknown' in sts:
            res['status'] = 'unknown'
        elif not sts:
            res['status'] = 'unsupported'
            res['reason'] = 'no obligation was generated'
    res['secs'] = time.time() - t0
    return res


def run_num(con, case, seed, trials, deadline=None, first=0, hints=None):
    """Runtime check of one case.  Returns (evaluated, skipped, failure)."""
    n = sk = clauses = nsoft = 0
    soft = None
    tr = first
    while n < trials and tr < first + trials * 6:
        if deadline and time.time() > deadline:
            break
        w = NumW(con, case, seed, tr, hints)
        st = rnp.random.get_state()
        rnp.random.seed(zlib.crc32(('%d %d' % (seed, tr)).encode()))
        try:
            with rnp.errstate(all='ignore'):
                con.body(w, case)
        except Skip:
            sk += 1
            tr += 1
            continue
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            loc = [t for t in tb if t.filename.startswith(REPO)]
            l = loc[-1] if loc else tb[-1]
            w._fail('no exception', '%s: %s at %s:%d' % (
                type(ex).__name__, ex, l.filename, l.lineno))
        finally:
            rnp.random.set_state(st)
        n += 1
        clauses += w.nclauses
        if w.fails:
            f = dict(
                contract=con.name, case=repr(case), seed=seed, trial=tr,
                hints=hints,
                fails=[dict(clause=a, detail=b) for a, b in w.fails[:8]],
                inputs={k: _sh(v) for k, v in w.inputs.items()})
            if not w.soft:
                return n, sk, clauses, f
            nsoft += 1
            soft = soft or f
        tr += 1
    if soft:
        # only discrepancies of the size of amplified rounding errors
        soft['soft'] = nsoft / float(n)
    return n, sk, clauses, soft
