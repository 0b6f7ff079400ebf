"""The symbolic world's numpy.  Each function below is an assumed contract on
the numpy function of the same name; `trusted` records the ones used.

Calls without symbolic arguments go to the real numpy."""
import types
import numpy as rnp

from . import terms as T
from .terms import P, Unsupported
from . import sval as V
from .sval import SV, SDtype, SType, to_sv, simp, eng, is_sym, real_dtype
from . import sarr as A
from .sarr import SArr, lift, elementwise, guard


def deep_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, (list, tuple, set)):
        return any(deep_sym(y) for y in x)
    if isinstance(x, dict):
        return any(deep_sym(y) for y in x.values())
    if isinstance(x, rnp.ndarray) and x.dtype == object:
        return any(deep_sym(y) for y in x.flat)
    return False


def to_real(x):
    """Replace dtype stand-ins by real dtypes before calling real numpy."""
    if isinstance(x, (SDtype, SType)):
        return x.d
    if isinstance(x, list):
        return [to_real(y) for y in x]
    if type(x) is tuple:
        return tuple(to_real(y) for y in x)
    return x


class CArr(rnp.ndarray):
    """A concrete array in the symbolic world: its dtype is a stand-in, so
    that scalars built from it may be symbolic."""

    @property
    def dtype(self):
        return SDtype(rnp.ndarray.dtype.__get__(self))

    def astype(self, dtype, *a, **k):
        return rnp.ndarray.astype(self, to_real(dtype), *a, **k)


def from_real(x):
    if isinstance(x, rnp.dtype):
        return SDtype(x)
    if type(x) is rnp.ndarray and x.dtype != object:
        return x.view(CArr)
    return x


IMPL = {}


def impl(*names):
    def d(f):
        for n in names or (f.__name__,):
            IMPL[n] = f
        return f
    return d


class NPFunc(object):
    def __init__(self, name, path='numpy'):
        self.name = name
        self.path = path
        self.__name__ = name.split('.')[-1]

    def __call__(self, *a, **k):
        f = IMPL.get(self.name)
        if a and getattr(a[0], '_is_factor', False) and \
                self.name in ('asarray', 'array', 'ascontiguousarray'):
            return a[0]
        sym = any(deep_sym(x) for x in a) or any(deep_sym(x)
                                                 for x in k.values())
        if sym:
            if f is None:
                raise Unsupported('numpy.%s on symbolic arguments' %
                                  self.name)
            e = eng()
            if e is not None:
                e.trusted.add('numpy.' + self.name)
            return f(*a, **k)
        r = rnp
        for part in self.name.split('.'):
            r = getattr(r, part)
        return from_real(r(*[to_real(x) for x in a],
                           **{n: to_real(x) for n, x in k.items()}))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return NPFunc(self.name + '.' + n)

    def __repr__(self):
        return 'np.' + self.name

    def __deepcopy__(self, m):
        return self


# ---- elementwise ---------------------------------------------------------------

def _ew(name, f):
    def g(*a, out=None, where=True, dtype=None, casting=None, **kw):
        if kw:
            raise Unsupported('keyword %s' % list(kw))
        if where is not True:
            return _masked(f, a, out, where)
        r = elementwise(f, *a)
        if out is not None:
            out[...] = r
            return out
        return r
    IMPL[name] = g


def _masked(f, a, out, where):
    arrs = [lift(x) for x in a]
    w = lift(where)
    o = lift(out) if out is not None else None
    axl = [x.axes for x in arrs] + [w.axes] + ([o.axes] if o is not None
                                               else [])
    axes = A.broadcast_axes(*axl)
    fs = [x.snap() for x in arrs]
    wf = w.snap()
    of = o.snap() if o is not None else None
    d = o.dt if o is not None else A.result_dt(f, a, arrs)

    def g(idx):
        c = wf(A.reindex(idx, axes, w.axes)).cond()
        if not c.is_false():
            with guard(c):
                n = f(*[h(A.reindex(idx, axes, x.axes))
                        for h, x in zip(fs, arrs)])
            n = A._fixkind(n, d)
            if c.is_true():
                return n
        old = of(A.reindex(idx, axes, o.axes)) if of is not None else \
            SV('f', T.var(T.fresh_name('uninit'), 'R'))
        if c.is_false():
            return old
        return A._ite(c, n, old)
    r = SArr(axes, d, lambda i: A._relabel(g(i), d))
    if out is not None and getattr(out, '_is_sarr', False):
        for x, y in zip(r.axes, out.axes):
            if A.axdim(x) is not A.axdim(y) and not eng().valid(
                    T.eq0(A.axdim(x) - A.axdim(y))):
                raise ValueError('non-broadcastable output operand')
        if len(r.axes) != len(out.axes):
            raise ValueError('non-broadcastable output operand')
        out[...] = r
        return out
    return r


for _n, _f in [('add', V.f_add), ('subtract', V.f_sub),
               ('multiply', V.f_mul), ('divide', V.f_div),
               ('true_divide', V.f_div), ('negative', V.f_neg),
               ('abs', V.f_abs), ('absolute', V.f_abs), ('fabs', V.f_abs),
               ('sqrt', V.f_sqrt), ('sign', V.f_sign), ('conj', V.f_conj),
               ('conjugate', V.f_conj), ('maximum', V.f_max),
               ('minimum', V.f_min), ('fmax', V.f_max), ('fmin', V.f_min),
               ('less', V.f_lt), ('less_equal', V.f_le),
               ('greater', V.f_gt), ('greater_equal', V.f_ge),
               ('equal', V.f_eq), ('not_equal', V.f_ne),
               ('logical_and', V.f_and), ('logical_or', V.f_or),
               ('logical_not', V.f_not), ('power', V.f_pow),
               ('mod', V.f_mod), ('remainder', V.f_mod),
               ('floor', V.f_floor), ('ceil', V.f_ceil),
               ('floor_divide', V.f_floordiv),
               ('exp', V.f_fn('exp')), ('log', V.f_fn('log')),
               ('log10', V.f_fn('log10')), ('cos', V.f_fn('cos')),
               ('sin', V.f_fn('sin'))]:
    _ew(_n, _f)


_multiply = IMPL['multiply']


@impl('multiply')
def _mul(x, y, **kw):
    if _has_stride(x) or _has_stride(y):
        if kw or len(x) != len(y):
            raise Unsupported('products of strides')
        return [a * b for a, b in zip(x, y)]
    return _multiply(x, y, **kw)


@impl('square')
def _square(x, **kw):
    return elementwise(V.f_pow, x, 2)


@impl('reciprocal')
def _recip(x):
    return elementwise(V.f_div, 1.0, x)


@impl('real')
def _real(x):
    return x.real


@impl('imag')
def _imag(x):
    return x.imag


@impl('clip')
def _clip(a, a_min=None, a_max=None, out=None):
    r = a
    if a_min is not None:
        r = elementwise(V.f_max, r, a_min)
    if a_max is not None and not (isinstance(a_max, float) and
                                  a_max == float('inf')):
        r = elementwise(V.f_min, r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


@impl('where')
def _where(c, x=None, y=None):
    if x is None:
        raise Unsupported('np.where with one argument')
    cl, xl, yl = lift(c), lift(x), lift(y)
    axes = A.broadcast_axes(cl.axes, xl.axes, yl.axes)
    d = A.result_dt(V.f_add, (x, y), (xl, yl))
    cf, xf, yf = cl.snap(), xl.snap(), yl.snap()

    def g(idx):
        cd = cf(A.reindex(idx, axes, cl.axes)).cond()
        if cd.is_true():
            return xf(A.reindex(idx, axes, xl.axes))
        if cd.is_false():
            return yf(A.reindex(idx, axes, yl.axes))
        return A.choose(cd, lambda: xf(A.reindex(idx, axes, xl.axes)),
                        lambda: yf(A.reindex(idx, axes, yl.axes)))
    r = SArr(axes, d, lambda i: A._relabel(A._fixkind(g(i), d), d))
    return r if axes else simp(r.item())


# ---- creation --------------------------------------------------------------------

def _shape(shp):
    if getattr(shp, '_is_sarr', False):
        shp = shp.tolist()
    if isinstance(shp, (int, SV, rnp.integer, A.Axis)):
        shp = (shp,)
    return tuple(A.mkaxis(s if isinstance(s, (A.Axis, SV)) else int(s))
                 for s in shp)


def _const(shp, v, dtype):
    d = real_dtype(dtype) if dtype is not None else rnp.dtype('float64')
    sv = V.cast(to_sv(v), d)
    return SArr(_shape(shp), d, lambda i: sv)


@impl('zeros')
def _zeros(shape, dtype=None, order='C'):
    return _const(shape, 0, dtype)


@impl('ones')
def _ones(shape, dtype=None, order='C'):
    return _const(shape, 1, dtype)


@impl('full')
def _full(shape, v, dtype=None):
    return _const(shape, v, dtype or lift(v).dt)


@impl('empty')
def _empty(shape, dtype=None, order='C'):
    d = real_dtype(dtype) if dtype is not None else rnp.dtype('float64')
    nm = T.fresh_name('uninit')
    return sym_leaf(nm, _shape(shape), d)


def sym_leaf(name, axes, d):
    """Array of fresh symbolic elements."""
    d = real_dtype(d)

    def f(idx):
        fl = [x for t in idx for x in t]
        if d.kind == 'c':
            return SV('c', T.leaf(name + '.re', fl, 'R'),
                      T.leaf(name + '.im', fl, 'R'), d)
        if d.kind == 'f':
            return SV('f', T.leaf(name, fl, 'R'), None, d)
        if d.kind in 'iu':
            return SV('i', T.leaf(name, fl, 'I'), None, d)
        if d.kind == 'b':
            return SV('b', T.b_leaf(name, fl), None, d)
        raise Unsupported('leaf of dtype %s' % d)
    return SArr(axes, d, f)


@impl('zeros_like')
def _zeros_like(a, dtype=None, **k):
    a = lift(a)
    d = real_dtype(dtype) if dtype is not None else a.dt
    sv = V.cast(to_sv(0), d)
    return SArr(a.axes, d, lambda i: sv)


@impl('ones_like')
def _ones_like(a, dtype=None, **k):
    a = lift(a)
    d = real_dtype(dtype) if dtype is not None else a.dt
    sv = V.cast(to_sv(1), d)
    return SArr(a.axes, d, lambda i: sv)


@impl('empty_like')
def _empty_like(a, dtype=None, **k):
    a = lift(a)
    d = real_dtype(dtype) if dtype is not None else a.dt
    return sym_leaf(T.fresh_name('uninit'), a.axes, d)


@impl('identity')
def _identity(n, dtype=None):
    return _eye(n, None, dtype=dtype)


@impl('eye')
def _eye(N, M=None, k=0, dtype=None):
    d = real_dtype(dtype) if dtype is not None else rnp.dtype('float64')
    axes = _shape((N, N if M is None else M))

    def f(idx):
        i = idx[0][0] if idx[0] else T.ZERO
        j = idx[1][0] if idx[1] else T.ZERO
        return V.cast(SV('i', T.eq0(i + k - j).ind), d)
    return SArr(axes, d, f)


@impl('arange')
def _arange(a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    if step != 1:
        raise Unsupported('arange with a step')
    lo, hi = to_sv(a), to_sv(b)
    if lo.k not in 'bi' or hi.k not in 'bi':
        raise Unsupported('non-integer arange')
    d = real_dtype(dtype) if dtype is not None else rnp.dtype('int64')
    ax = A.mkaxis(SV('i', hi.poly() - lo.poly()))
    return SArr((ax,), d, lambda i: V.cast(SV('i', lo.poly() + (
        i[0][0] if i[0] else T.ZERO)), d))


@impl('asarray', 'array', 'ascontiguousarray', 'asanyarray')
def _asarray(x, dtype=None, copy=None, order=None, ndmin=0):
    was = getattr(x, '_is_sarr', False)
    d = real_dtype(dtype) if dtype is not None else None
    if d is not None and d.kind == 'O':
        raise Unsupported('object array')
    if isinstance(x, (list, tuple)):
        r = A.from_list(x, None)
    else:
        r = lift(x)
    if d is not None and d != r.dt:
        r = r.astype(d)
        was = False
    return r


def _array(x, dtype=None, copy=True, order=None, ndmin=0):
    r = _asarray(x, dtype)
    if r is x and copy:
        r = r.copy()
    return r


IMPL['array'] = _array


@impl('copy')
def _copy(x, **k):
    return lift(x).copy()


# ---- shape manipulation -------------------------------------------------------------

@impl('reshape')
def _reshape(a, shp, order='C'):
    if isinstance(shp, (int, SV)):
        shp = (shp,)
    return lift(a).reshape(shp, order=order)


@impl('ravel')
def _ravel(a):
    return lift(a).ravel()


@impl('transpose')
def _transpose(a, axes=None):
    return lift(a).transpose(axes)


@impl('swapaxes')
def _swapaxes(a, x, y):
    return lift(a).swapaxes(x, y)


@impl('moveaxis')
def _moveaxis(a, src, dst):
    a = lift(a)
    n = a.ndim
    s = [src] if isinstance(src, int) else list(src)
    d = [dst] if isinstance(dst, int) else list(dst)
    s = [x % n for x in s]
    d = [x % n for x in d]
    order = [k for k in range(n) if k not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return a.transpose(order)


@impl('rollaxis')
def _rollaxis(a, axis, start=0):
    a = lift(a)
    n = a.ndim
    axis %= n
    if start < 0:
        start += n
    if axis < start:
        start -= 1
    order = list(range(n))
    order.remove(axis)
    order.insert(start, axis)
    return a.transpose(order)


@impl('expand_dims')
def _expand_dims(a, axis):
    a = lift(a)
    ax = axis if isinstance(axis, (tuple, list)) else (axis,)
    n = a.ndim + len(ax)
    ax = sorted(x % n for x in ax)
    key = []
    for k in range(n):
        key.append(None if k in ax else slice(None))
    return a[tuple(key)]


@impl('squeeze')
def _squeeze(a, axis=None):
    return lift(a).squeeze(axis)


@impl('atleast_1d')
def _atleast1(a):
    a = lift(a)
    return a if a.ndim else a.reshape((1,))


@impl('repeat')
def _repeat(a, repeats, axis=None):
    a = lift(a)
    if axis is None or a.axes[axis]:
        raise Unsupported('numpy.repeat along an axis longer than one')
    ax = axis % a.ndim
    return A.broadcast_to(a, _shape(
        tuple(a.shape[:ax]) + (repeats,) + tuple(a.shape[ax + 1:]))).copy()


@impl('broadcast_to')
def _broadcast_to(a, shape):
    return A.broadcast_to(a, _shape(shape))


@impl('concatenate')
def _concatenate(xs, axis=0, out=None, dtype=None):
    xs = [lift(x) for x in xs]
    n = xs[0].ndim
    if any(x.ndim != n for x in xs):
        raise ValueError('all the input array dimensions must match')
    if axis is None:
        raise Unsupported('concatenate(axis=None)')
    if not -n <= axis < n:
        raise rnp.exceptions.AxisError(axis, n)
    axis %= n
    for x in xs[1:]:
        for k in range(n):
            if k != axis:
                p = A.axdim(x.axes[k]) - A.axdim(xs[0].axes[k])
                if p.t and not eng().decide(T.eq0(p)):
                    raise ValueError('all the input array dimensions must '
                                     'match exactly')
    dt = rnp.result_type(*[x.dt for x in xs])
    offs = [T.ZERO]
    for x in xs:
        offs.append(offs[-1] + A.axdim(x.axes[axis]))
    axes = list(xs[0].axes)
    axes[axis] = A.mkaxis(SV('i', offs[-1]))
    fs = [x.snap() for x in xs]

    def g(idx):
        if not axes[axis]:
            j = T.ZERO
        else:
            j = idx[axis][0]
        r = None
        for m in range(len(xs) - 1, -1, -1):
            fac = xs[m].axes[axis]
            ii = list(A.reindex(idx, tuple(
                axes[k] if k != axis else fac for k in range(n)),
                xs[m].axes)) if False else list(idx)
            for k in range(n):
                if k != axis:
                    ii[k] = A.conv(idx[k], axes[k], xs[m].axes[k])
            ii[axis] = A.conv((j - offs[m],), (A.axdim(fac),), fac) \
                if fac else ()
            c = T.lt0(j - offs[m + 1])
            if r is None:
                prev = T.c_not(T.lt0(j - offs[m])) if m else T.TRUE()
                with guard(prev):
                    r = fs[m](tuple(ii))
            else:
                if c.is_false():
                    continue
                with guard(c if m == 0 else T.c_and(
                        c, T.c_not(T.lt0(j - offs[m])))):
                    v = fs[m](tuple(ii))
                r = A._ite(c, v, r)
        return r
    return SArr(tuple(axes), dt, lambda i: A._relabel(A._fixkind(g(i), dt),
                                                      dt))


@impl('hstack')
def _hstack(xs):
    xs = [lift(x) for x in xs]
    xs = [x if x.ndim else x.reshape((1,)) for x in xs]
    return _concatenate(xs, 0 if xs[0].ndim == 1 else 1)


@impl('vstack')
def _vstack(xs):
    xs = [lift(x) for x in xs]
    xs = [x if x.ndim > 1 else x.reshape((1, -1)) for x in xs]
    return _concatenate(xs, 0)


@impl('stack')
def stack(xs, axis=0):
    xs = [lift(x) for x in xs]
    n = xs[0].ndim + 1
    axis %= n
    return _concatenate([_expand_dims(x, axis) for x in xs], axis)


class DimVec(list):
    """A short array of integers of known length (an array shape)."""

    def __getitem__(self, k):
        if isinstance(k, (list, tuple)):
            return DimVec(list.__getitem__(self, int(i)) for i in k)
        return list.__getitem__(self, k)

    def __setitem__(self, k, v):
        if isinstance(k, (list, tuple)):
            for i, x in zip(k, list(v)):
                list.__setitem__(self, int(i), x)
        else:
            list.__setitem__(self, k, v)


def _dims(a):
    return isinstance(a, (tuple, DimVec)) and all(
        isinstance(x, (int, SV)) for x in a)


@impl('insert')
def _insert(a, pos, val, axis=None):
    if not _dims(a) or axis is not None or not isinstance(pos, int) or \
            not isinstance(val, (int, SV)):
        raise Unsupported('numpy.insert on symbolic arguments')
    n = len(a)
    k = pos if pos >= 0 else pos + n
    return DimVec(list(a)[:k] + [val] + list(a)[k:])


@impl('roll')
def _roll(a, shift, axis=None):
    if _dims(a) and axis is None and isinstance(shift, int) and len(a):
        k = shift % len(a)
        return DimVec(list(a)[len(a) - k:] + list(a)[:len(a) - k])
    a = lift(a)
    if axis is None:
        if a.ndim == 1:
            axis = 0
        else:
            raise Unsupported('roll without axis')
    if isinstance(axis, (tuple, list)):
        sh = list(shift) if not isinstance(shift, int) else \
            [shift] * len(axis)
        r = a
        for s, x in zip(sh, axis):
            r = _roll(r, s, x)
        return r
    if not -a.ndim <= axis < a.ndim:
        raise rnp.exceptions.AxisError(axis, a.ndim)
    axis %= a.ndim
    f = a.snap()
    fac = a.axes[axis]
    n = A.axdim(fac)
    s = to_sv(shift).poly()
    if not fac:
        return a.copy()

    def g(idx):
        j = A.lin(idx[axis], fac) - s
        c = s.const()
        if c is not None and abs(c) == 1:
            # |shift| <= n for n >= 1
            if c > 0:
                j2 = T.ite(T.lt0(j), j + n, j)
            else:
                j2 = T.ite(T.le0(n - j), j - n, j)
        else:
            j2 = T.imod(j, n)
        ii = list(idx)
        ii[axis] = A.conv((j2,), (n,), fac)
        return f(tuple(ii))
    return SArr(a.axes, a.dt, g)


@impl('flip')
def _flip(a, axis=None):
    a = lift(a)
    ax = A.norm_axis(axis, a.ndim)
    key = tuple(slice(None, None, -1) if k in ax else slice(None)
                for k in range(a.ndim))
    return a[key]


@impl('diff')
def _diff(a, n=1, axis=-1, prepend=None, append=None):
    if n != 1:
        raise Unsupported('diff order')
    a = lift(a)
    axis %= a.ndim
    parts = []

    def ext(v):
        v = lift(v)
        if v.ndim == 0:
            axes = list(a.axes)
            axes[axis] = ()
            return A.broadcast_to(v, tuple(axes)).astype(a.dt)
        return v
    if prepend is not None:
        parts.append(ext(prepend))
    parts.append(a)
    if append is not None:
        parts.append(ext(append))
    if len(parts) > 1:
        a = _concatenate(parts, axis)
    hi = [slice(None)] * a.ndim
    lo = [slice(None)] * a.ndim
    hi[axis] = slice(1, None)
    lo[axis] = slice(None, -1)
    return a[tuple(hi)] - a[tuple(lo)]


def _padmap(mode, n, b, e):
    """Index map of a non-constant padding (at most one period)."""
    if mode == 'constant':
        return None
    lim = n - 1 if mode == 'reflect' else n
    for p in (b, e):
        if not eng().decide(T.le0(p - lim)):
            raise Unsupported('pad wider than the array')
    lo, hi = {'wrap': (lambda j: j + n, lambda j: j - n),
              'reflect': (lambda j: -j, lambda j: n * 2 - j - 2),
              'symmetric': (lambda j: -j - 1, lambda j: n * 2 - j - 1)}[mode]

    def f(j):
        c = SV('i', j)
        r = V.f_where(c < 0, SV('i', lo(j)),
                      V.f_where(c < SV('i', n), c, SV('i', hi(j))))
        return to_sv(r).poly()
    return f


class Stride(object):
    """Integer combination of the strides of the axes of one array."""
    _is_stride = True

    def __init__(self, arr, co):
        self.arr = arr
        self.co = co

    def __mul__(self, k):
        if not isinstance(k, (int, SV, rnp.integer)):
            return NotImplemented
        return Stride(self.arr, [to_sv(k).poly() * c for c in self.co])

    __rmul__ = __mul__


def _strides(a):
    return tuple(Stride(a, [T.ONE if i == j else T.ZERO
                            for i in range(a.ndim)])
                 for j in range(a.ndim))


def _has_stride(x):
    return isinstance(x, (tuple, list)) and any(
        isinstance(y, Stride) for y in x)


@impl('lib.stride_tricks.as_strided')
def _as_strided(x, shape=None, strides=None, **kw):
    if kw or shape is None or strides is None or \
            len(shape) != len(strides):
        raise Unsupported('as_strided arguments')
    for t in strides:
        if not isinstance(t, Stride) or t.arr.buf is not x.buf or \
                t.arr.ndim != x.ndim:
            raise Unsupported('as_strided with strides of another array')
    axes = tuple(A.mkaxis(to_sv(n)) for n in shape)
    for ax in range(x.ndim):
        hi = T.ZERO
        for n, t in zip(shape, strides):
            hi = hi + (to_sv(n).poly() - 1) * t.co[ax]
        eng().prove('as_strided reads within the array (axis %d)' % ax,
                    T.lt0(hi - A.axdim(x.axes[ax])))
    f = x.snap()

    def g(idx):
        ii = []
        for ax in range(x.ndim):
            p = T.ZERO
            for k, t in enumerate(strides):
                if axes[k]:
                    p = p + A.lin(idx[k], axes[k]) * t.co[ax]
            ii.append(A.conv((p,), (A.axdim(x.axes[ax]),), x.axes[ax])
                      if x.axes[ax] else ())
        return f(tuple(ii))
    return SArr(axes, x.dt, g)


@impl('pad')
def _pad(a, pw, mode='constant', **kw):
    if mode not in ('constant', 'wrap', 'reflect', 'symmetric') or \
            any(v != 0 for v in kw.values()):
        raise Unsupported('pad mode %s' % mode)
    a = lift(a)
    pw = list(pw)
    if len(pw) == 2 and not isinstance(pw[0], (tuple, list)) and \
            not getattr(pw[0], '_is_sarr', False):
        pw = [tuple(pw)] * a.ndim
    if len(pw) == 1 and a.ndim > 1:
        pw = pw * a.ndim
    if len(pw) != a.ndim:
        raise ValueError('operands could not be broadcast together')
    axes = []
    offs = []
    for f, (b, e) in zip(a.axes, pw):
        bp, ep = to_sv(b).poly(), to_sv(e).poly()
        if not bp.t and not ep.t:
            axes.append(f)
            offs.append(None)
        else:
            axes.append(A.mkaxis(SV('i', A.axdim(f) + bp + ep)))
            offs.append((bp, ep, _padmap(mode, A.axdim(f), bp, ep)))
    f = a.snap()
    z = V.cast(to_sv(0), a.dt)

    def g(idx):
        cs = []
        ii = []
        for k, o in enumerate(offs):
            if o is None:
                ii.append(idx[k])
            else:
                j = (A.lin(idx[k], axes[k]) if axes[k] else T.ZERO) - o[0]
                n = A.axdim(a.axes[k])
                if mode != 'constant':
                    m = o[2](j)
                    ii.append(A.conv((m,), (n,), a.axes[k])
                              if a.axes[k] else ())
                    continue
                cs.append(T.c_and(T.le0(-j), T.lt0(j - n)))
                ii.append(A.conv((j,), (n,), a.axes[k]) if a.axes[k] else ())
        c = T.c_and(*cs)
        if c.is_false():
            return z
        return A.choose(c, lambda: f(tuple(ii)), lambda: z)
    return SArr(tuple(axes), a.dt, g)


@impl('take')
def _take(a, ind, axis=None):
    a = lift(a)
    if axis is None:
        raise Unsupported('take without axis')
    axis %= a.ndim
    if isinstance(ind, (list, tuple)):
        parts = []
        for k in ind:
            key = (slice(None),) * axis + (k,)
            parts.append(_expand_dims(lift(a[key]), axis))
        if len(parts) == 1:
            return parts[0].copy()
        return _concatenate(parts, axis)
    return lift(a[(slice(None),) * axis + (ind,)]).copy()


@impl('diag')
def _diag(v, k=0):
    v = lift(v)
    if v.ndim != 1 or k:
        raise Unsupported('diag')
    f = v.snap()
    ax = v.axes[0]

    def g(idx):
        c = T.c_and(*[T.eq0(x - y) for x, y in zip(idx[0], idx[1])])
        val = f((idx[0],))
        return A._ite(c, val, V.cast(to_sv(0), v.dt))
    return SArr((ax, ax), v.dt, g)


# ---- reductions and products ----------------------------------------------------------

@impl('sum')
def _sum(a, axis=None, dtype=None, out=None, keepdims=False):
    return A.reduce_sum(a, axis, keepdims)


@impl('average')
def average(a, axis=None, weights=None, returned=False):
    if returned:
        raise Unsupported('average(returned=True)')
    if weights is None:
        return mean(a, axis=axis)
    a, wt = lift(a), lift(weights)
    if wt.ndim != a.ndim:
        if axis is None or wt.ndim != 1:
            raise Unsupported('average with weights of another rank')
        ax = axis if axis >= 0 else axis + a.ndim
        wt = wt[(None,) * ax + (slice(None),) + (None,) * (a.ndim - ax - 1)]
        return IMPL['sum'](a * wt, axis=axis) / IMPL['sum'](wt)
    return IMPL['sum'](a * wt, axis=axis) / IMPL['sum'](wt, axis=axis)


@impl('mean')
def _mean(a, axis=None, dtype=None, out=None, keepdims=False):
    return A.reduce_mean(a, axis, keepdims)


@impl('var')
def _var(a, axis=None):
    a = lift(a)
    m = A.reduce_mean(a, axis, True) if axis is not None else \
        A.reduce_mean(a, None, False)
    d = elementwise(V.f_abs, a - m)
    return A.reduce_mean(d ** 2, axis, False)


@impl('prod')
def _prod(a, axis=None, **k):
    if isinstance(a, (tuple, list)):
        r = 1
        for x in a:
            r = r * x
        return r
    return A.reduce_prod(a, axis)


@impl('max', 'amax')
def _max(a, axis=None, out=None, keepdims=False):
    return A.reduce_mm('max', a, axis, keepdims)


@impl('min', 'amin')
def _min(a, axis=None, out=None, keepdims=False):
    return A.reduce_mm('min', a, axis, keepdims)


@impl('any')
def _any(a, axis=None, keepdims=False):
    return A.reduce_bool('any', a, axis, keepdims)


@impl('all')
def _all(a, axis=None, keepdims=False):
    return A.reduce_bool('all', a, axis, keepdims)


@impl('dot', 'matmul')
def _dot(a, b, out=None):
    r = A.dot(a, b)
    if out is not None:
        out[...] = r
        return out
    return r


@impl('vdot')
def _vdot(a, b):
    return A.reduce_sum(elementwise(V.f_conj, lift(a).ravel()) *
                        lift(b).ravel())


@impl('inner')
def _inner(a, b):
    a, b = lift(a), lift(b)
    if a.ndim == 1 and b.ndim == 1:
        return A.dot(a, b)
    raise Unsupported('np.inner')


@impl('linalg.norm')
def _norm(x, ord=None, axis=None, keepdims=False):
    x = lift(x)
    if ord is None or ord == 'fro' or (ord == 2 and (x.ndim == 1 or
                                                     axis is not None)):
        a2 = elementwise(V.f_abs, x) ** 2 if x.dt.kind == 'c' else x ** 2
        s = A.reduce_sum(a2, axis, keepdims)
        return elementwise(V.f_sqrt, s)
    if ord == 1 and (x.ndim == 1 or axis is not None):
        return A.reduce_sum(elementwise(V.f_abs, x), axis, keepdims)
    if ord in (float('inf'), 'inf') and x.ndim == 1:
        return A.reduce_mm('max', elementwise(V.f_abs, x))
    raise Unsupported('norm order %r' % (ord,))


EIGH = []


@impl('linalg.eigh')
def _eigh(a):
    e = getattr(a, '_eig', None)
    if e is None:
        # arbitrary eigenvalues and eigenvectors: what is proved with them
        # uses no property of the decomposition (the contract states which
        # matrix it is applied to)
        a = lift(a)
        if a.ndim != 2:
            raise Unsupported('eigh of an array of %d dimensions' % a.ndim)
        n = a.axes[0]
        e = (sym_leaf(T.fresh_name('eigval'), [n], a.dt),
             sym_leaf(T.fresh_name('eigvec'), [n, n], a.dt))
        EIGH.append((a,) + e)
    return e


def _opaque(a, axis, pfx):
    a = lift(a)
    axes = a.axes
    if axis is None:
        axes = (sum(a.axes, ()),)
    return sym_leaf(T.fresh_name(pfx), axes, a.dt)


@impl('sort')
def _sort(a, axis=-1, kind=None):
    return _opaque(a, axis, 'sorted')


@impl('cumsum')
def _cumsum(a, axis=None, dtype=None):
    return _opaque(a, axis, 'cumsum')


@impl('einsum')
def _einsum(*args, **kw):
    if isinstance(args[0], str):
        ops = [lift(x) for x in args[1:]]
        spec = args[0].replace(' ', '')
        if '->' in spec:
            ins, outl = spec.split('->')
        else:
            ins, outl = spec, None
        labs = []
        for s in ins.split(','):
            labs.append(_lab(s))
        outl = _lab(outl) if outl is not None else None
    else:
        rest = list(args)
        outl = None
        if len(rest) % 2:
            outl = list(rest.pop())
        ops = [lift(x) for x in rest[0::2]]
        labs = [list(x) for x in rest[1::2]]
    # expand ellipsis with broadcast labels
    nell = 0
    for o, l in zip(ops, labs):
        if Ellipsis in l:
            nell = max(nell, o.ndim - (len(l) - 1))
    ex = []
    for o, l in zip(ops, labs):
        if Ellipsis in l:
            k = o.ndim - (len(l) - 1)
            i = l.index(Ellipsis)
            l = l[:i] + [('e', nell - k + j) for j in range(k)] + l[i + 1:]
        if len(l) != o.ndim:
            raise ValueError('einsum: wrong number of subscripts')
        ex.append(l)
    if outl is None:
        cnt = {}
        for l in ex:
            for x in l:
                if not isinstance(x, tuple):
                    cnt[x] = cnt.get(x, 0) + 1
        outl = [('e', j) for j in range(nell)] + sorted(
            x for x in cnt if cnt[x] == 1)
    elif Ellipsis in outl:
        i = outl.index(Ellipsis)
        outl = outl[:i] + [('e', j) for j in range(nell)] + outl[i + 1:]
    axof = {}
    for o, l in zip(ops, ex):
        for x, f in zip(l, o.axes):
            axof[x] = A.join_axis(axof.get(x, ()), f)
    summed = [x for x in axof if x not in outl]
    dt = rnp.result_type(*[o.dt for o in ops])
    fs = [o.snap() for o in ops]
    outaxes = tuple(axof[x] for x in outl)

    def g(idx):
        env = {x: i for x, i in zip(outl, idx)}
        bvs = []
        for x in summed:
            bs = []
            for d in axof[x]:
                b = T.bvar()
                bvs.append((b, T.ZERO, d))
                bs.append(P(b))
            env[x] = tuple(bs)
        gs = [T.c_and(T.le0(lo - P(b)), T.lt0(P(b) - hi))
              for b, lo, hi in bvs]
        e = eng()
        e.guards.extend(gs)
        try:
            v = None
            for o, l, f in zip(ops, ex, fs):
                ii = A.reindex(tuple(env[x] for x in l),
                               tuple(axof[x] for x in l), o.axes)
                w = f(ii)
                v = w if v is None else V.f_mul(v, w)
        finally:
            if gs:
                del e.guards[-len(gs):]
        re = T.big_sum(bvs, v.poly())
        if e.is_nonneg(v.poly()):
            e.mark_nonneg(re)
            if not re.fv:
                e.axioms.append(T.le0(-re))
        im = T.big_sum(bvs, v.im) if v.k == 'c' else None
        return SV(v.k if v.k != 'b' else 'i', re, im, dt)
    r = SArr(outaxes, dt, lambda i: A._relabel(A._fixkind(g(i), dt), dt))
    return r if outaxes else simp(r.item())


def _lab(s):
    out = []
    i = 0
    while i < len(s):
        if s.startswith('...', i):
            out.append(Ellipsis)
            i += 3
        else:
            out.append(s[i])
            i += 1
    return out


# ---- predicates ----------------------------------------------------------------------

@impl('isrealobj')
def _isrealobj(x):
    return lift(x).dt.kind != 'c'


@impl('iscomplexobj')
def _iscomplexobj(x):
    return lift(x).dt.kind == 'c'


@impl('ndim')
def _ndim(x):
    return lift(x).ndim


@impl('shape')
def _shp(x):
    return lift(x).shape


@impl('size')
def _size(x, axis=None):
    x = lift(x)
    return x.size if axis is None else x.shape[axis]


@impl('isscalar')
def _isscalar(x):
    return isinstance(x, SV)


@impl('isnan')
def _isnan(x):
    return elementwise(lambda v: SV('b', T.FALSE()), x, dt=rnp.dtype(bool))


@impl('isfinite')
def _isfinite(x):
    return elementwise(lambda v: SV('b', T.TRUE()), x, dt=rnp.dtype(bool))


@impl('isinf')
def _isinf(x):
    return elementwise(lambda v: SV('b', T.FALSE()), x, dt=rnp.dtype(bool))


@impl('divmod')
def _divmod(a, b):
    return (elementwise(V.f_floordiv, a, b), elementwise(V.f_mod, a, b))


@impl('result_type')
def _rt(*a):
    return SDtype(rnp.result_type(*[lift(x).dt if is_sym(x) else to_real(x)
                                    for x in a]))


@impl('random.randn')
def _randn(*shp):
    return sym_leaf(T.fresh_name('randn'), _shape(shp), 'float64')


@impl('count_nonzero')
def _cnz(a, axis=None, keepdims=False):
    return A.reduce_sum(elementwise(lambda v: SV('b', v.cond()), a,
                                    dt=rnp.dtype(bool)), axis, keepdims)


# ---- the module object -----------------------------------------------------------------

class _NDMeta(type):
    def __instancecheck__(cls, x):
        return getattr(x, '_is_sarr', False) or isinstance(x, rnp.ndarray)


class ndarray(object, metaclass=_NDMeta):
    pass


class NPModule(types.ModuleType):
    def __init__(self, name='numpy', path=''):
        super().__init__(name)
        self.__dict__['_path'] = path

    def __getattr__(self, n):
        if n.startswith('__') and n != '__version__':
            raise AttributeError(n)
        path = self._path + n
        if path == 'ndarray':
            return ndarray
        if path == 'dtype':
            return _dtype
        r = rnp
        for part in path.split('.'):
            r = getattr(r, part)
        if isinstance(r, types.ModuleType):
            return NPModule('numpy.' + path, path + '.')
        if isinstance(r, type) and issubclass(r, rnp.generic):
            if r in (rnp.generic, rnp.number, rnp.inexact, rnp.floating,
                     rnp.integer, rnp.complexfloating, rnp.signedinteger,
                     rnp.unsignedinteger):
                return r
            return SType(r)
        if isinstance(r, type) or callable(r):
            if isinstance(r, type) and path in ('errstate', 'ndindex',
                                                'iinfo', 'finfo'):
                if path == 'finfo':
                    return lambda d: rnp.finfo(to_real(d))
                if path == 'iinfo':
                    return lambda d: rnp.iinfo(
                        d if isinstance(d, (str, rnp.dtype)) or
                        isinstance(d, type) and issubclass(d, rnp.integer)
                        else to_real(d) if isinstance(d, (SDtype, SType))
                        else 'int64')
                return r
            return NPFunc(path)
        return r


def _dtype(x):
    return SDtype(to_real(x))


np = NPModule()
