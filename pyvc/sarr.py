"""Symbolic arrays: concrete rank, symbolic sizes, element = function of the
index."""
import numpy as rnp

from . import terms as T
from .terms import P, Poly, Unsupported
from .engine import Engine
from . import sval as V
from .sval import SV, to_sv, simp, eng, SDtype, real_dtype


# An axis is a tuple of factors (Poly dims, none of them the constant 1); an
# index along the axis is a tuple of the same length.  Row-major order.

def mkaxis(d):
    if isinstance(d, Axis):
        return d.f
    d = to_sv(d)
    p = d.poly()
    if p.const() == 1:
        return ()
    return (p,)


class Axis(object):
    """Composite dimension given explicitly (a product of factors)."""

    def __init__(self, *dims):
        f = ()
        for d in dims:
            f += mkaxis(d)
        self.f = f


def axdim(f):
    p = T.ONE
    for x in f:
        p = p * x
    return p


def lin(entry, f):
    """Row-major linear index."""
    r = T.ZERO
    for i, d in zip(entry, f):
        r = r * d + i
    return r


def conv(entry, ff, tf):
    """Convert an index entry between two factorisations of an axis."""
    if ff == tf:
        return entry
    if len(ff) == len(tf) and all(a is b for a, b in zip(ff, tf)):
        return entry
    if not tf:
        return ()
    if not ff:
        return tuple(T.ZERO for _ in tf)
    if len(tf) == len(ff):
        return entry
    l = lin(entry, ff)
    if len(tf) == 1:
        return (l,)
    out = []
    for d in reversed(tf[1:]):
        out.append(T.imod(l, d))
        l = T.idiv(l, d)
    out.append(l)
    return tuple(reversed(out))


class Buf(object):
    __slots__ = ('axes', 'dt', 'fn')

    def __init__(self, axes, dt, fn):
        self.axes = axes
        self.dt = dt
        self.fn = fn


def memo(fn):
    cache = {}

    def g(idx):
        e = eng()
        k = (tuple(id(x) for t in idx for x in t),
             tuple(id(c) for c in e.guards), id(e))
        r = cache.get(k)
        if r is None:
            r = (fn(idx), idx)
            cache[k] = r
        return r[0]
    return g


class guard(object):
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        if not self.c.is_true():
            eng().guards.append(self.c)
            self.p = True
        else:
            self.p = False

    def __exit__(self, *a):
        if self.p:
            eng().guards.pop()


def _forkable(c):
    """The condition is about generic indices and sizes only."""
    if c.op in ('le', 'eq'):
        for i in c.args[0].atoms():
            a = T.ATOMS[i]
            if a.fv or a.kind != 'var' or a.sort != 'I' or \
                    str(a.args[0]).startswith('arg'):
                return False
        return True
    return c.op in ('and', 'not') and all(_forkable(x) for x in c.args)


def _bvs(c, out):
    """The bound variables of a condition on indices and sizes alone (False
    if it is about anything else)."""
    if c.op in ('le', 'eq'):
        for i in c.args[0].atoms():
            a = T.ATOMS[i]
            if a.sort != 'I' or a.kind not in ('var', 'bv'):
                return False
            if a.kind == 'bv':
                out.add(i)
        return all(len(m) <= 1 for m in c.args[0].t)
    return c.op in ('and', 'not') and all(_bvs(x, out) for x in c.args)


def _bvdecide(e, c):
    """Truth value of a condition on summation variables that follows from
    their ranges, or None."""
    bs = set()
    if not _bvs(c, bs) or not bs or any(b not in e.bvrange for b in bs):
        return None
    r = T.c_and(*[e.bvrange[b] for b in sorted(bs)])
    if e._intcheck(T.c_and(r, T.c_not(c))) == 'unsat':
        return True
    if e._intcheck(T.c_and(r, c)) == 'unsat':
        return False
    return None


def choose(c, fa, fb):
    """fa() where c holds, fb() elsewhere: by cases on the path when the
    engine asks for it, otherwise as one guarded expression."""
    if c.is_true():
        return fa()
    if c.is_false():
        return fb()
    e = eng()
    if e.forkelt:
        if _forkable(c):
            return fa() if e.decide(c, 'index region') else fb()
        rest = []
        for x in (c.args if c.op == 'and' else (c,)):
            if _forkable(x):
                if not e.decide(x, 'index region'):
                    return fb()
                continue
            d = _bvdecide(e, x)
            if d is False:
                return fb()
            if d is None:
                rest.append(x)
        c = T.c_and(*rest)
        if c.is_true():
            return fa()
    with guard(c):
        a = fa()
    with guard(T.c_not(c)):
        b = fb()
    return _ite(c, a, b)


class SArr(object):
    _is_sarr = True
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, axes, dt, fn=None, buf=None, vmap=None, vinv=None):
        self.axes = tuple(axes)
        if buf is None:
            buf = Buf(self.axes, real_dtype(dt), memo(fn))
        self.buf = buf
        self.vmap = vmap
        self.vinv = vinv
        self.tag = None

    # ---- attributes --------------------------------------------------------
    @property
    def dt(self):
        return self.buf.dt

    @property
    def dtype(self):
        return SDtype(self.buf.dt)

    @property
    def shape(self):
        return tuple(simp(SV('i', axdim(f))) for f in self.axes)

    @shape.setter
    def shape(self, shp):
        raise Unsupported('assignment to shape')

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        p = T.ONE
        for f in self.axes:
            p = p * axdim(f)
        return simp(SV('i', p))

    @property
    def strides(self):
        from . import snp
        return snp._strides(self)

    @property
    def flags(self):
        raise Unsupported('array flags')

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        if self.dt.kind != 'c':
            return self
        f = self.snap()
        return SArr(self.axes, V._realdt(self.dt), lambda i: f(i).real)

    @property
    def imag(self):
        f = self.snap()
        return SArr(self.axes, V._realdt(self.dt), lambda i: f(i).imag)

    def __len__(self):
        if not self.axes:
            raise TypeError('len() of unsized object')
        d = self.shape[0]
        return d if isinstance(d, int) else d.__index__()

    def len(self):
        return self.shape[0]

    def __iter__(self):
        n = self.shape[0]
        if not isinstance(n, int):
            raise Unsupported('iteration over a symbolic dimension')
        return iter([self[k] for k in range(n)])

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'SArr%s' % (self.shape,)

    def __format__(self, spec):
        return '<sym array>'

    def __bool__(self):
        n = self.size
        if isinstance(n, int) and n == 1:
            return bool(self.item())
        raise Unsupported('truth value of an array')

    def __float__(self):
        return float(self.item())

    def __index__(self):
        return self.item().__index__()

    # ---- element access ----------------------------------------------------
    def snap(self):
        """Immutable element function of the current contents."""
        f = self.buf.fn
        m = self.vmap
        if m is None:
            return f
        return lambda idx: f(m(idx))

    def elt(self, idx):
        return self.snap()(idx)

    def item(self, *args):
        if args:
            raise Unsupported('item(args)')
        if self.size != 1:
            raise ValueError('can only convert an array of size 1')
        return self.elt(tuple(() for _ in self.axes))

    def tolist(self):
        n = self.shape
        if len(n) == 1 and isinstance(n[0], int):
            return [simp(self[k]) for k in range(n[0])]
        raise Unsupported('tolist')

    def copy(self, order='C'):
        return SArr(self.axes, self.dt, self.snap())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, m):
        return self.copy()

    def astype(self, dt, copy=True, **kw):
        d = real_dtype(dt)
        f = self.snap()
        if d == self.dt:
            return self.copy() if copy else self
        if d.kind == self.dt.kind and d.kind in 'fc':
            return SArr(self.axes, d, lambda i: _relabel(f(i), d))
        return SArr(self.axes, d, lambda i: V.cast(f(i), d))

    def fill(self, v):
        self[...] = v

    # ---- views ---------------------------------------------------------------
    def _view(self, axes, fwd, bwd):
        """View: fwd maps view index -> self index, bwd maps self index ->
        (cond, view index)."""
        m, iv = self.vmap, self.vinv
        if m is None:
            vmap = fwd
            vinv = bwd
        else:
            vmap = lambda i: m(fwd(i))
            if bwd is None or iv is None:
                vinv = None
            else:
                def vinv(b):
                    c1, i1 = iv(b)
                    if c1.is_false():
                        return c1, None
                    c2, i2 = bwd(i1)
                    return T.c_and(c1, c2), i2
        return SArr(axes, None, buf=self.buf, vmap=vmap, vinv=vinv)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or
                               isinstance(axes[0], (tuple, list,
                                                    rnp.ndarray))):
            axes = axes[0]
        n = self.ndim
        if axes is None or len(axes) == 0:
            axes = tuple(range(n))[::-1]
        axes = [int(a) % n for a in axes]
        if sorted(axes) != list(range(n)):
            raise ValueError("axes don't match array")
        inv = [axes.index(k) for k in range(n)]
        return self._view(
            tuple(self.axes[a] for a in axes),
            lambda i: tuple(i[inv[k]] for k in range(n)),
            lambda b: (T.TRUE(), tuple(b[a] for a in axes)))

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        a %= self.ndim
        b %= self.ndim
        p[a], p[b] = p[b], p[a]
        return self.transpose(p)

    def squeeze(self, axis=None):
        n = self.ndim
        if axis is None:
            drop = [k for k in range(n) if not self.axes[k]]
            for k in range(n):
                if self.axes[k] and eng().decide(
                        T.eq0(axdim(self.axes[k]) - 1)):
                    drop.append(k)
        else:
            drop = [a % n for a in (axis if isinstance(axis, tuple)
                                    else (axis,))]
            for k in drop:
                if self.axes[k]:
                    if not eng().decide(T.eq0(axdim(self.axes[k]) - 1)):
                        raise ValueError('cannot select an axis to squeeze '
                                         'out which has size not equal to '
                                         'one')
        keep = [k for k in range(n) if k not in drop]
        ax = self.axes

        def fwd(i):
            r = [None] * n
            for j, k in enumerate(keep):
                r[k] = i[j]
            for k in drop:
                r[k] = tuple(T.ZERO for _ in ax[k])
            return tuple(r)
        return self._view(tuple(self.axes[k] for k in keep), fwd,
                          lambda b: (T.TRUE(), tuple(b[k] for k in keep)))

    def reshape(self, *shp, order='C'):
        if len(shp) == 1 and not isinstance(shp[0], (int, SV, Axis,
                                                     rnp.integer)):
            shp = shp[0]
        if getattr(shp, '_is_sarr', False):
            shp = shp.tolist()
        shp = list(shp)
        if order not in ('C', 'A'):
            if order == 'F':
                return self.T.reshape(*shp[::-1]).T
            raise Unsupported('reshape order')
        newaxes, fac = _regroup(self.axes, shp)
        if fac is None:
            # same factors, only regrouped
            n0 = [len(a) for a in self.axes]
            n1 = [len(a) for a in newaxes]
            return self._view(newaxes,
                              lambda i: _split([x for t in i for x in t],
                                               n0),
                              lambda b: (T.TRUE(),
                                         _split([x for t in b for x in t],
                                                n1)))
        # factors were refined: fac maps between flat lists
        old_flat_to_new, new_flat_to_old = fac
        n0 = [len(a) for a in self.axes]
        n1 = [len(a) for a in newaxes]
        return self._view(
            newaxes,
            lambda i: _split(new_flat_to_old([x for t in i for x in t]), n0),
            lambda b: (T.TRUE(), _split(old_flat_to_new(
                [x for t in b for x in t]), n1)))

    def ravel(self, order='C'):
        if order == 'F':
            return self.T.ravel()
        return self.reshape((-1,))

    def flatten(self, order='C'):
        return self.ravel(order).copy()

    # ---- indexing ------------------------------------------------------------
    def __getitem__(self, key):
        r = self._index(key)
        if isinstance(r, _Mask):
            raise Unsupported('boolean mask selection')
        if r.ndim == 0 and not _has_ellipsis(key):
            return simp(r.item())
        return r

    def _index(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if len(key) == 1 and getattr(key[0], '_is_sarr', False) and \
                key[0].dt.kind == 'b':
            return _Mask(self, key[0])
        if len(key) == 1 and isinstance(key[0], rnp.ndarray) and \
                key[0].dtype.kind == 'b':
            return _Mask(self, lift(key[0]))
        nidx = sum(1 for k in key if k is not None and k is not Ellipsis)
        if sum(1 for k in key if k is Ellipsis) > 1:
            raise IndexError('an index can only have a single ellipsis')
        if nidx > self.ndim:
            raise IndexError('too many indices for array')
        out = []
        seen = False
        for k in key:
            if k is Ellipsis:
                out.extend([slice(None)] * (self.ndim - nidx))
                seen = True
            else:
                out.append(k)
        if not seen:
            out.extend([slice(None)] * (self.ndim - nidx))
        plan = []     # per view axis / per own axis
        newaxes = []
        ax = 0
        fwd_parts = []     # own axis -> function(view idx tuple)
        bwd_parts = []     # view axis -> function(own idx)
        conds = []
        vpos = 0
        nfancy = 0
        for k in out:
            if k is None:
                newaxes.append(())
                bwd_parts.append(lambda b: ())
                vpos += 1
                continue
            f = self.axes[ax]
            n = axdim(f)
            if isinstance(k, slice):
                if k == slice(None) or (k.start is None and k.stop is None
                                        and k.step in (None, 1)):
                    newaxes.append(f)
                    fwd_parts.append(lambda i, v=vpos: i[v])
                    bwd_parts.append(lambda b, a=ax: b[a])
                    vpos += 1
                else:
                    st, ln, step = _slice(k, n)
                    nf = mkaxis(SV('i', ln))
                    newaxes.append(nf)

                    def fw(i, v=vpos, nf=nf, st=st, step=step, f=f):
                        j = lin(i[v], nf) if nf else T.ZERO
                        return conv((st + j * step,), (axdim(f),), f) \
                            if f else ()
                    fwd_parts.append(fw)
                    own = ax

                    def bw(b, a=own, nf=nf, st=st, step=step, f=f):
                        x = lin(b[a], f) if f else T.ZERO
                        d = (x - st) * step if step in (1, -1) else \
                            T.idiv(x - st, P(step))
                        return (d,) if nf else ()
                    bwd_parts.append(bw)

                    def cd(b, a=own, ln=ln, st=st, step=step, f=f):
                        x = lin(b[a], f) if f else T.ZERO
                        if step in (1, -1):
                            d = (x - st) * step
                            return T.c_and(T.le0(-d), T.lt0(d - ln))
                        d = x - st
                        return T.c_and(T.le0(-d), T.lt0(d - ln * step),
                                       T.eq0(T.imod(d, P(step))))
                    conds.append(cd)
                    vpos += 1
                ax += 1
            elif isinstance(k, list) and any(
                    isinstance(x, SV) for x in k) and all(
                        isinstance(x, (int, SV)) for x in k) or \
                    isinstance(k, (list, rnp.ndarray)) and not any(
                        isinstance(x, SV) for x in list(k)) and \
                    not rnp.isscalar(k) and rnp.ndim(k) == 1:
                nfancy += 1
                if nfancy > 1:
                    raise Unsupported('several index arrays')
                ks = [x if isinstance(x, SV) else int(x) for x in k]
                nf = mkaxis(len(ks))
                newaxes.append(nf)
                pos = [_intidx(x, n) for x in ks]

                def fw(i, v=vpos, nf=nf, pos=pos, f=f):
                    if not nf:
                        p = pos[0]
                    else:
                        p = _select(i[v][0], pos)
                    return conv((p,), (axdim(f),), f) if f else ()
                fwd_parts.append(fw)
                bwd_parts.append(None)
                vpos += 1
                ax += 1
            elif isinstance(k, (int, SV, rnp.integer)) and \
                    not isinstance(k, bool):
                p = _intidx(k, n)
                fwd_parts.append(lambda i, p=p, f=f: conv(
                    (p,), (axdim(f),), f) if f else ())

                def cd(b, a=ax, p=p, f=f):
                    x = lin(b[a], f) if f else T.ZERO
                    return T.eq0(x - p)
                conds.append(cd)
                ax += 1
            elif getattr(k, '_is_sarr', False) and k.ndim == 0:
                p = _intidx(k.item(), n)
                fwd_parts.append(lambda i, p=p, f=f: conv(
                    (p,), (axdim(f),), f) if f else ())

                def cd(b, a=ax, p=p, f=f):
                    x = lin(b[a], f) if f else T.ZERO
                    return T.eq0(x - p)
                conds.append(cd)
                ax += 1
            else:
                raise Unsupported('index of type %s' % type(k).__name__)

        def fwd(i):
            return tuple(p(i) for p in fwd_parts)
        if any(b is None for b in bwd_parts):
            bwd = None
        else:
            def bwd(b):
                c = T.c_and(*[f(b) for f in conds]) if conds else T.TRUE()
                return c, tuple(p(b) for p in bwd_parts)
        v = self._view(tuple(newaxes), fwd, bwd)
        if bwd is None:
            v = v.copy()
            v._nowrite = True
        return v

    def __setitem__(self, key, val):
        tgt = self._index(key)
        if isinstance(tgt, _Mask):
            mask = tgt.mask
            if len(mask.axes) != len(self.axes):
                raise Unsupported('partial boolean mask')
            mf = broadcast_to(mask, self.axes).snap()
            if getattr(val, '_is_sarr', False) and val.size != 1:
                raise Unsupported('masked assignment of an array')
            sv = V.cast(to_sv(val) if not getattr(val, '_is_sarr', False)
                        else val.item(), self.dt)
            whole = self if self.vmap is None else None
            if whole is None:
                cur = self.snap()
                self._store(SArr(self.axes, self.dt, lambda i: V.f_where(
                    mf(i), sv, cur(i))))
                return
            old = self.buf.fn

            def nf(i):
                c = mf(i).cond()
                if c.is_true():
                    return sv
                if c.is_false():
                    return old(i)
                with guard(T.c_not(c)):
                    o = old(i)
                return _ite(c, sv, o)
            self.buf.fn = memo(nf)
            return
        if getattr(tgt, '_nowrite', False):
            return self._store_list(key, tgt, val)
        tgt._store(val)

    def _store_list(self, key, tgt, val):
        """Assignment through one list of integers: entry by entry."""
        key = key if isinstance(key, tuple) else (key,)
        ls = [j for j, k in enumerate(key)
              if isinstance(k, (list, rnp.ndarray))]
        if len(ls) != 1 or any(
                not isinstance(k, slice) and k is not Ellipsis
                for j, k in enumerate(key) if j != ls[0]):
            raise Unsupported('assignment through an index array')
        p = ls[0]
        ax = p if Ellipsis not in [k for k in key[:p] if k is Ellipsis] \
            else self.ndim - (len(key) - p)
        v = broadcast_to(lift(val), tgt.axes).copy()
        for j, k in enumerate(list(key[p])):
            self[key[:p] + (int(k),) + key[p + 1:]] = \
                v[(slice(None),) * ax + (j,)]


    def _store(self, val):
        v = lift(val)
        if v.ndim > self.ndim:
            # leading length-1 axes may be dropped
            while v.ndim > self.ndim and (
                    not v.axes[0] or
                    eng().valid(T.eq0(axdim(v.axes[0]) - 1))):
                v = v[0] if v.ndim > 1 else v.squeeze()
                v = lift(v)
            if v.ndim > self.ndim:
                raise ValueError('could not broadcast input array into shape')
        vf = broadcast_to(v, self.axes).snap()
        dt = self.dt
        if v.dt.kind == 'c' and dt.kind != 'c':
            inner = vf
            vf = lambda i: inner(i).real
        if self.vmap is None:
            self.buf.fn = memo(lambda i: _relabel(V.cast(vf(i), dt), dt))
            return
        if self.vinv is None:
            raise Unsupported('assignment through a non-invertible view')
        old = self.buf.fn
        iv = self.vinv

        def nf(b):
            c, i = iv(b)
            if c.is_false():
                return old(b)
            if c.is_true():
                return _relabel(V.cast(vf(i), dt), dt)
            return choose(c, lambda: V.cast(vf(i), dt), lambda: old(b))
        self.buf.fn = memo(nf)

    # ---- arithmetic ----------------------------------------------------------
    def __add__(self, o):
        return elementwise(V.f_add, self, o)

    def __radd__(self, o):
        return elementwise(V.f_add, o, self)

    def __sub__(self, o):
        return elementwise(V.f_sub, self, o)

    def __rsub__(self, o):
        return elementwise(V.f_sub, o, self)

    def __mul__(self, o):
        return elementwise(V.f_mul, self, o)

    def __rmul__(self, o):
        return elementwise(V.f_mul, o, self)

    def __truediv__(self, o):
        return elementwise(V.f_div, self, o)

    def __rtruediv__(self, o):
        return elementwise(V.f_div, o, self)

    def __floordiv__(self, o):
        return elementwise(V.f_floordiv, self, o)

    def __mod__(self, o):
        return elementwise(V.f_mod, self, o)

    def __pow__(self, o):
        return elementwise(V.f_pow, self, o)

    def __rpow__(self, o):
        return elementwise(V.f_pow, o, self)

    def __neg__(self):
        return elementwise(V.f_neg, self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return elementwise(V.f_abs, self)

    def __invert__(self):
        return elementwise(V.f_not, self)

    def __and__(self, o):
        return elementwise(V.f_and, self, o)
    __rand__ = __and__

    def __or__(self, o):
        return elementwise(V.f_or, self, o)
    __ror__ = __or__

    def __lt__(self, o):
        return elementwise(V.f_lt, self, o)

    def __le__(self, o):
        return elementwise(V.f_le, self, o)

    def __gt__(self, o):
        return elementwise(V.f_gt, self, o)

    def __ge__(self, o):
        return elementwise(V.f_ge, self, o)

    def __eq__(self, o):
        if o is None:
            return False
        return elementwise(V.f_eq, self, o)

    def __ne__(self, o):
        if o is None:
            return True
        return elementwise(V.f_ne, self, o)

    def _inplace(self, f, o):
        r = elementwise(f, self, o)
        r = lift(r)
        if r.dt.kind == 'c' and self.dt.kind != 'c':
            raise TypeError('Cannot cast ufunc output from complex to real')
        if r.dt.kind == 'f' and self.dt.kind in 'iub':
            raise TypeError('Cannot cast ufunc output from float to int')
        if r.ndim > self.ndim:
            raise ValueError('non-broadcastable output operand')
        self._store(r)
        return self

    def __iadd__(self, o):
        return self._inplace(V.f_add, o)

    def __isub__(self, o):
        return self._inplace(V.f_sub, o)

    def __imul__(self, o):
        return self._inplace(V.f_mul, o)

    def __itruediv__(self, o):
        return self._inplace(V.f_div, o)

    def __ipow__(self, o):
        return self._inplace(V.f_pow, o)

    def __matmul__(self, o):
        return dot(self, o)

    # ---- methods ---------------------------------------------------------------
    def dot(self, o, out=None):
        return dot(self, o)

    def conj(self):
        return elementwise(V.f_conj, self)
    conjugate = conj

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return reduce_mean(self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False):
        return reduce_mm('max', self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False):
        return reduce_mm('min', self, axis, keepdims)

    def prod(self, axis=None):
        return reduce_prod(self, axis)

    def any(self, axis=None, keepdims=False):
        return reduce_bool('any', self, axis, keepdims)

    def all(self, axis=None, keepdims=False):
        return reduce_bool('all', self, axis, keepdims)

    def clip(self, lo, hi):
        r = self
        if lo is not None:
            r = elementwise(V.f_max, r, lo)
        if hi is not None:
            r = elementwise(V.f_min, r, hi)
        return r

    def argmax(self, axis=None):
        raise Unsupported('argmax')

    def view(self, *a):
        raise Unsupported('ndarray.view')


class _Mask(object):
    def __init__(self, arr, mask):
        self.arr = arr
        self.mask = mask


def _has_ellipsis(key):
    if key is Ellipsis:
        return True
    return isinstance(key, tuple) and any(k is Ellipsis for k in key)


def _relabel(v, d):
    if v.dt is d:
        return v
    return SV(v.k, v.re, v.im if v.k == 'c' else None, d)


def _ite(c, a, b):
    return V.f_where(SV('b', c), a, b)


def _select(i, pos):
    r = pos[-1]
    for k in range(len(pos) - 2, -1, -1):
        r = T.ite(T.eq0(i - k), pos[k], r)
    return r


def _split(flat, lens):
    out = []
    k = 0
    for n in lens:
        out.append(tuple(flat[k:k + n]))
        k += n
    return tuple(out)


def _intidx(k, n):
    p = to_sv(k).poly()
    c = p.const()
    if c is not None and c < 0:
        p = p + n
    elif c is None:
        e = eng()
        if not e.valid(T.le0(-p)):
            if not e.decide(T.le0(-p)):
                p = p + n
    if not eng().decide(T.c_and(T.le0(-p), T.lt0(p - n))):
        raise IndexError('index out of bounds')
    return p


def _bound(a, n):
    p = to_sv(a).poly()
    e = eng()
    c = p.const()
    if c is None:
        if not e.decide(T.le0(-p)):
            p = p + n
            if not e.decide(T.le0(-p)):
                return T.ZERO
            return p
    elif c < 0:
        p = p + n
        if not e.decide(T.le0(-p)):
            return T.ZERO
        return p
    elif c == 0:
        return p
    if p is n:
        return p
    if e.decide(T.le0(p - n)):
        return p
    return n


def _slice(k, n):
    """(start, length, step) of a slice on an axis of length n."""
    step = 1 if k.step is None else int(k.step)
    if step > 0:
        a = T.ZERO if k.start is None else _bound(k.start, n)
        b = n if k.stop is None else _bound(k.stop, n)
        d = b - a
        if d.const() is not None:
            ln = P(max(0, d.const()))
        elif eng().decide(T.le0(-d)):
            ln = d
        else:
            ln = T.ZERO
        if step != 1:
            ln = T.idiv(ln + (step - 1), P(step))
        return a, ln, step
    if step == -1 and k.start is None and k.stop is None:
        return n - 1, n, -1
    raise Unsupported('slice with negative step and bounds')


def _regroup(axes, shp):
    """New axes for a reshape.  Returns (axes, None) if the factors are only
    regrouped, or (axes, (old->new, new->old)) flat index converters."""
    flat = [d for f in axes for d in f]
    dims = []
    neg = None
    for j, s in enumerate(shp):
        if isinstance(s, Axis):
            dims.append(axdim(s.f))
            continue
        p = to_sv(s).poly()
        if p.const() == -1:
            if neg is not None:
                raise ValueError('can only specify one unknown dimension')
            neg = j
            dims.append(None)
        else:
            dims.append(p)
    e = eng()
    # greedy grouping from the left up to the unknown dimension and from the
    # right after it
    left = dims if neg is None else dims[:neg]
    right = [] if neg is None else dims[neg + 1:]
    pos = 0
    groups_l = []
    rest = list(flat)
    conv_needed = [False]
    refine = []      # description of refinements

    def take(side, want):
        # take factors whose product is want
        acc = T.ONE
        got = []
        if want.const() == 1:
            return []
        while acc is not want:
            if not rest:
                # maybe equal under assumptions
                if got and e.decide(T.eq0(acc - want)):
                    return got
                if not got and e.decide(T.eq0(want - 1)):
                    return []
                raise _ReshapeFail()
            d = rest[0] if side == 'l' else rest[-1]
            nw = acc * d
            nc, wc = nw.const(), want.const()
            if nc is not None and wc is not None and nc > wc:
                # concrete split
                ac = acc.const()
                if wc % ac == 0 and d.const() % (wc // ac) == 0:
                    need = wc // ac
                    other = d.const() // need
                    if need == 1:
                        return got
                    i = 0 if side == 'l' else len(rest) - 1
                    newf = [P(need), P(other)] if side == 'l' else \
                        [P(other), P(need)]
                    rest[i:i + 1] = newf
                    refine.append(d)
                    continue
                raise _ReshapeFail()
            if nw is not want and got and e.valid(T.eq0(acc - want)):
                return got
            qd = _monodiv(want, acc)
            qo = _monodiv(d, qd) if qd is not None and nw is not want \
                else None
            if qo is not None and qo.const() is None and \
                    qd.const() is None:
                i = 0 if side == 'l' else len(rest) - 1
                rest[i:i + 1] = [qd, qo] if side == 'l' else [qo, qd]
                refine.append(d)
                continue
            if nw is not want and not got and wc is None and \
                    e.valid(T.eq0(nw - want)):
                pass
            elif nw is not want and nc is None and len(rest) == 1 and \
                    not e.valid(T.eq0(nw - want)):
                if got and e.valid(T.eq0(acc - want)):
                    return got
            if side == 'l':
                rest.pop(0)
                got.append(d)
            else:
                rest.pop()
                got.insert(0, d)
            acc = nw
            if acc is not want and e.valid(T.eq0(acc - want)) and \
                    want.const() is None:
                return got
        return got

    try:
        gl = [tuple(take('l', w)) for w in left]
        gr = [tuple(take('r', w)) for w in reversed(right)][::-1]
    except _ReshapeFail:
        # check the total size
        tot = T.ONE
        for d in flat:
            tot = tot * d
        if neg is None:
            want = T.ONE
            for d in dims:
                want = want * d
            if e.valid(T.c_not(T.eq0(tot - want))):
                raise ValueError('cannot reshape array')
        raise Unsupported('reshape %s -> %s' % (
            [T.show(d) for d in flat], [T.show(d) if d is not None else -1
                                        for d in dims]))
    if neg is None:
        if rest:
            tot = T.ONE
            for d in rest:
                tot = tot * d
            if e.decide(T.eq0(tot - 1)):
                # leftover factors equal one: attach to the last group
                if gl:
                    gl[-1] = gl[-1] + tuple(rest)
                else:
                    raise Unsupported('reshape to zero dimensions')
            else:
                raise ValueError('cannot reshape array')
        new = gl
    else:
        new = gl + [tuple(rest)] + gr
    new = tuple(new)
    if not refine:
        return new, None
    nflat = [d for f in new for d in f]
    return new, _flat_conv(flat, nflat)


def _monodiv(p, q):
    """p / q for monomials with coefficient one, or None."""
    if len(p.t) != 1 or len(q.t) != 1:
        return None
    (m, c), = p.t.items()
    (n, k), = q.t.items()
    if c != 1 or k != 1:
        return None
    d = dict(m)
    for i, e in n:
        if d.get(i, 0) < e:
            return None
        d[i] -= e
    return T._mkpoly({tuple(sorted((i, e) for i, e in d.items() if e)): 1})


class _ReshapeFail(Exception):
    pass


def _flat_conv(old, new):
    """Index converters between two factor lists, where new refines some
    concrete factors of old."""
    plan = []
    j = 0
    for d in old:
        acc = T.ONE
        k = j
        while acc is not d:
            if k >= len(new):
                raise Unsupported('reshape refinement')
            acc = acc * new[k]
            k += 1
        if k == j:
            raise Unsupported('reshape refinement')
        plan.append((d, new[j:k]))
        j = k

    def o2n(flat):
        out = []
        for x, (d, fs) in zip(flat, plan):
            out.extend(conv((x,), (d,), tuple(fs)))
        return out

    def n2o(flat):
        out = []
        j = 0
        for d, fs in plan:
            out.append(lin(flat[j:j + len(fs)], fs))
            j += len(fs)
        return out
    return o2n, n2o


# ---- lifting and broadcasting ---------------------------------------------------

def lift(x):
    if getattr(x, '_is_sarr', False):
        return x
    if isinstance(x, SV):
        return SArr((), x.dt or V._KDT[x.k], lambda i: x)
    if isinstance(x, (list, tuple)):
        return from_list(x)
    a = rnp.asarray(x)
    if a.dtype == object:
        if a.ndim == 0:
            return lift(a.item())
        return from_list(list(x))
    if a.ndim == 0:
        v = to_sv(x if not isinstance(x, rnp.ndarray) else x[()])
        return SArr((), a.dtype, lambda i: v)
    axes = tuple(mkaxis(int(n)) for n in a.shape)
    if a.size and a.size < 5000 and (a == a.flat[0]).all():
        v = to_sv(a.flat[0])
        return SArr(axes, a.dtype, lambda i: v)

    def f(idx):
        pos = []
        symb = False
        for t in idx:
            if not t:
                pos.append(0)
            else:
                c = t[0].const()
                if c is None:
                    symb = True
                pos.append(t[0] if c is None else int(c))
        if not symb:
            if any(not (0 <= p < n) for p, n in zip(pos, a.shape)):
                return to_sv(a.flat[0])
            return to_sv(a[tuple(pos)])
        return _lookup(a, pos, 0, ())
    return SArr(axes, a.dtype, f)


def _lookup(a, pos, k, got):
    if k == len(pos):
        return to_sv(a[got])
    p = pos[k]
    if isinstance(p, int):
        return _lookup(a, pos, k + 1, got + (min(p, a.shape[k] - 1),))
    n = a.shape[k]
    r = _lookup(a, pos, k + 1, got + (n - 1,))
    for j in range(n - 2, -1, -1):
        r = _ite(T.eq0(p - j), _lookup(a, pos, k + 1, got + (j,)), r)
    return r


def from_list(xs, dt=None):
    xs = list(xs)
    if any(isinstance(x, (list, tuple)) or getattr(x, '_is_sarr', False) or
           (isinstance(x, rnp.ndarray) and x.ndim > 0) for x in xs):
        from .snp import stack
        return stack([lift(x) for x in xs])
    vs = [to_sv(x) for x in xs]
    ks = 'b'
    for v in vs:
        if V._KORD[v.k] > V._KORD[ks]:
            ks = v.k
    d = real_dtype(dt) if dt is not None else None
    if d is None:
        lab = [v.dt for v in vs if v.dt is not None]
        d = V._KDT[ks] if not lab or len(lab) < len(vs) else \
            rnp.result_type(*lab)
    axes = (mkaxis(len(vs)),)
    vs = [V.cast(v, d) for v in vs]

    def f(idx):
        if not idx[0]:
            return vs[0]
        c = idx[0][0].const()
        if c is not None:
            return vs[int(c)] if 0 <= c < len(vs) else vs[0]
        r = vs[-1]
        for j in range(len(vs) - 2, -1, -1):
            r = _ite(T.eq0(idx[0][0] - j), vs[j], r)
        return r
    return SArr(axes, d, f)


def join_axis(f, g):
    """Broadcast of two axis factorisations; returns the result axis."""
    if f == g:
        return f
    if not f:
        return g
    if not g:
        return f
    a, b = axdim(f), axdim(g)
    e = eng()
    if a is b or e.valid(T.eq0(a - b)):
        return f if len(f) >= len(g) else g
    one_a, one_b = T.eq0(a - 1), T.eq0(b - 1)
    if e.decide(T.eq0(a - b)):
        return f if len(f) >= len(g) else g
    if e.decide(one_a):
        return g
    if e.decide(one_b):
        return f
    raise ValueError('operands could not be broadcast together')


def broadcast_axes(*axl):
    n = max(len(a) for a in axl)
    out = []
    for k in range(n):
        r = ()
        for a in axl:
            j = k - (n - len(a))
            if j >= 0:
                r = join_axis(r, a[j])
        out.append(r)
    return tuple(out)


def reindex(idx, frm, to):
    """Index in array with axes `to` (right-aligned broadcast operand) for
    an index of the broadcast axes `frm`."""
    off = len(frm) - len(to)
    out = []
    for k, f in enumerate(to):
        src = frm[k + off]
        if not f:
            out.append(())
        elif not src:
            out.append(tuple(T.ZERO for _ in f))
        elif src == f or src is f:
            out.append(idx[k + off])
        elif axdim(src) is not axdim(f) and len(src) == 1 and len(f) == 1:
            # either provably equal, or f is one on this path
            if eng().valid(T.eq0(axdim(f) - axdim(src))):
                out.append(idx[k + off])
            else:
                out.append((T.ZERO,))
        else:
            out.append(conv(idx[k + off], src, f))
    return tuple(out)


def broadcast_to(a, axes):
    a = lift(a)
    if a.axes == tuple(axes):
        return a
    if len(a.axes) > len(axes):
        raise ValueError('could not broadcast input array')
    off = len(axes) - len(a.axes)
    for k, f in enumerate(a.axes):
        if f:
            tgt = axes[k + off]
            if not tgt:
                if not eng().decide(T.eq0(axdim(f) - 1)):
                    raise ValueError('could not broadcast input array')
                continue
            j = join_axis(f, tgt)
            if axdim(j) is not axdim(tgt) and not eng().valid(
                    T.eq0(axdim(j) - axdim(tgt))):
                raise ValueError('could not broadcast input array')
    f = a.snap()
    fr = a.axes
    return SArr(axes, a.dt, lambda i: f(reindex(i, axes, fr)))


_CMPF = (V.f_lt, V.f_le, V.f_gt, V.f_ge, V.f_eq, V.f_ne, V.f_and, V.f_or,
         V.f_not)


def _is_weak(x):
    return isinstance(x, (bool, int, float, complex)) and not isinstance(
        x, rnp.generic) or (isinstance(x, SV) and x.dt is None)


def result_dt(f, args, arrs):
    if f in _CMPF:
        return rnp.dtype(bool)
    ds = []
    for x, a in zip(args, arrs):
        if _is_weak(x):
            ds.append({'b': True, 'i': 1, 'f': 1.0, 'c': 1j}[to_sv(x).k])
        else:
            ds.append(a.dt)
    if all(not isinstance(d, rnp.dtype) for d in ds):
        r = rnp.result_type(*[rnp.asarray(d).dtype for d in ds])
    else:
        r = rnp.result_type(*ds)
    if f is V.f_div and r.kind in 'iub':
        r = rnp.dtype('float64')
    if f is V.f_sqrt and r.kind in 'iub':
        r = rnp.dtype('float64')
    if f in (V.f_abs, V.f_real, V.f_imag) and r.kind == 'c':
        r = V._realdt(r)
    if f in (V.f_neg,) and r.kind == 'b':
        raise TypeError('numpy boolean negative is not supported')
    return r


def elementwise(f, *args, dt=None):
    for x in args:
        if isinstance(x, str) or x is None:
            raise TypeError('unsupported operand %r' % (x,))
    arrs = [lift(x) for x in args]
    axes = broadcast_axes(*[a.axes for a in arrs])
    d = dt or result_dt(f, args, arrs)
    fs = [a.snap() for a in arrs]
    axl = [a.axes for a in arrs]

    def g(idx):
        vs = [h(reindex(idx, axes, ax)) for h, ax in zip(fs, axl)]
        return _relabel(_fixkind(f(*vs), d), d)
    r = SArr(axes, d, g)
    if not axes:
        return simp(r.item())
    return r


def _fixkind(v, d):
    k = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'c': 'c'}[d.kind]
    if v.k == k:
        return v
    return V.cast(v, d)


# ---- reductions -----------------------------------------------------------------

def norm_axis(axis, n):
    if axis is None:
        return tuple(range(n))
    if isinstance(axis, (list, tuple, rnp.ndarray)):
        ax = tuple(int(a) for a in axis)
    else:
        ax = (int(axis),)
    out = []
    for a in ax:
        if not -n <= a < n:
            raise rnp.exceptions.AxisError(a, n)
        out.append(a % n)
    if len(set(out)) != len(out):
        raise ValueError("duplicate value in 'axis'")
    return tuple(out)


def _reduce(a, axis, keepdims, dt, comb):
    a = lift(a)
    n = a.ndim
    ax = norm_axis(axis, n)
    f = a.snap()
    axs = a.axes
    outaxes = []
    for k in range(n):
        if k in ax:
            if keepdims:
                outaxes.append(())
        else:
            outaxes.append(axs[k])

    def g(idx):
        full = []
        bvs = []
        j = 0
        for k in range(n):
            if k in ax:
                bs = []
                for d in axs[k]:
                    b = T.bvar()
                    bvs.append((b, T.ZERO, d))
                    q = P(b)
                    bs.append(q)
                    if eng().forkelt:
                        eng().bvrange[q.single_atom()] = T.c_and(
                            T.le0(-q), T.lt0(q - d))
                full.append(tuple(bs))
                if keepdims:
                    j += 1
            else:
                full.append(idx[j])
                j += 1
        gs = [T.c_and(T.le0(lo - P(b)), T.lt0(P(b) - hi))
              for b, lo, hi in bvs]
        e = eng()
        e.guards.extend(gs)
        try:
            v = f(tuple(full))
        finally:
            if gs:
                del e.guards[-len(gs):]
        return comb(v, bvs)
    r = SArr(tuple(outaxes), dt, lambda i: _relabel(g(i), dt))
    if not outaxes:
        return simp(r.item())
    return r


def reduce_sum(a, axis=None, keepdims=False):
    a = lift(a)
    dt = a.dt if a.dt.kind in 'fc' else rnp.dtype('int64')

    def comb(v, bvs):
        p = v.poly()
        r = T.big_sum(bvs, p)
        e = eng()
        if e.is_nonneg(p):
            e.mark_nonneg(r)
            if not r.fv:
                e.axioms.append(T.le0(-r))
                note_nonneg_sum(e, bvs, p, r)
        if v.k == 'c':
            return SV('c', r, T.big_sum(bvs, v.im))
        return SV('f' if v.k == 'f' else 'i', r)
    return _reduce(a, axis, keepdims, dt, comb)


def note_nonneg_sum(e, bvs, body, total):
    """Instances total >= body(i) at the generic indices known now, and the
    record needed to add them for later ones."""
    if not hasattr(e, 'nnsums') or e.nnsums is None:
        e.nnsums = []
    key = (tuple((lo, hi) for _, lo, hi in bvs), total)
    e.nnsums.append((bvs, body, total))


def reduce_mean(a, axis=None, keepdims=False):
    a = lift(a)
    ax = norm_axis(axis, a.ndim)
    n = T.ONE
    for k in ax:
        n = n * axdim(a.axes[k])
    s = reduce_sum(a, axis, keepdims)
    return s / SV('i', n)


def reduce_mm(op, a, axis=None, keepdims=False):
    a = lift(a)
    if a.dt.kind == 'c':
        raise Unsupported('%s of complex array' % op)

    def comb(v, bvs):
        return SV(v.k if v.k != 'b' else 'i', T.reduction(op, bvs, v.poly()))
    return _reduce(a, axis, keepdims, a.dt, comb)


def reduce_prod(a, axis=None):
    a = lift(a)
    if a.ndim == 1:
        n = a.shape[0]
        if isinstance(n, int):
            r = 1
            for k in range(n):
                r = r * a[k]
            return r
    raise Unsupported('product over a symbolic dimension')


def reduce_bool(op, a, axis=None, keepdims=False):
    a = lift(a)
    n = a.size
    if axis is None and isinstance(n, int) and n <= 64:
        fl = a.ravel()
        cs = [to_sv(fl[k]).cond() for k in range(n)] if n > 1 else \
            [a.item().cond()]
        if op == 'any':
            return simp(SV('b', T.c_or(*cs)))
        return simp(SV('b', T.c_and(*cs)))
    # count of true elements
    cnt = reduce_sum(elementwise(V.f_mul, elementwise(
        V.f_not if op == 'all' else (lambda v: SV('b', v.cond())), a,
        dt=rnp.dtype(bool)), 1), axis, keepdims)
    return cnt == 0 if op == 'all' else cnt > 0


def dot(a, b):
    a, b = lift(a), lift(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    dt = rnp.result_type(a.dt, b.dt)
    fa, fb = a.snap(), b.snap()
    axa, axb = a.axes[-1], b.axes[-2] if b.ndim > 1 else b.axes[-1]
    if axdim(axa) is not axdim(axb):
        if not eng().decide(T.eq0(axdim(axa) - axdim(axb))):
            raise ValueError('shapes not aligned')
    fac = axa if len(axa) >= len(axb) else axb
    na = a.ndim - 1
    outaxes = a.axes[:-1] + (b.axes[:-2] + b.axes[-1:] if b.ndim > 1 else ())

    def g(idx):
        bvs = [(T.bvar(), T.ZERO, d) for d in fac]
        k = tuple(P(x[0]) for x in bvs)
        ia = idx[:na] + (conv(k, fac, axa),)
        if b.ndim > 1:
            ib = idx[na:-1] + (conv(k, fac, axb),) + idx[-1:]
        else:
            ib = (conv(k, fac, axb),)
        v = V.f_mul(fa(ia), fb(ib))
        re = T.big_sum(bvs, v.poly())
        im = T.big_sum(bvs, v.im) if v.k == 'c' else None
        k2 = v.k if v.k != 'b' else 'i'
        return SV(k2, re, im, dt)
    r = SArr(outaxes, dt, g)
    if not outaxes:
        return simp(r.item())
    return r
