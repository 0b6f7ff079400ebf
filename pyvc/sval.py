"""Symbolic scalars (SV): what a Python/numpy scalar is in the symbolic
world."""
import numpy as rnp
from fractions import Fraction

from . import terms as T
from .terms import P, Poly, Cond, Unsupported
from .engine import Engine


def eng():
    return Engine.cur


class SDtype(object):
    """A numpy dtype in the symbolic world."""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = rnp.dtype(d)

    @property
    def kind(self):
        return self.d.kind

    @property
    def name(self):
        return self.d.name

    @property
    def itemsize(self):
        return self.d.itemsize

    @property
    def char(self):
        return self.d.char

    @property
    def type(self):
        return SType(self.d)

    def __eq__(self, o):
        try:
            return self.d == real_dtype(o)
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.d)

    def __repr__(self):
        return repr(self.d)

    def __deepcopy__(self, memo):
        return self

    def __call__(self, x):
        return SType(self.d)(x)


class SType(object):
    """A numpy scalar type (np.float32 ...)."""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = rnp.dtype(d)

    def __call__(self, x=0):
        if is_sym(x):
            if hasattr(x, 'astype'):
                return x.astype(self)
        return self.d.type(x)

    @property
    def type(self):
        return self

    @property
    def kind(self):
        return self.d.kind

    def __instancecheck__(self, x):
        return isinstance(x, self.d.type)

    def __eq__(self, o):
        try:
            return self.d == real_dtype(o)
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.d)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'np.' + self.d.name

    @property
    def __name__(self):
        return self.d.name


def real_dtype(x):
    if isinstance(x, (SDtype, SType)):
        return x.d
    return rnp.dtype(x)


def is_sym(x):
    return isinstance(x, (SV,)) or getattr(x, '_is_sarr', False)


_KORD = {'b': 0, 'i': 1, 'f': 2, 'c': 3}
_KDT = {'b': rnp.dtype(bool), 'i': rnp.dtype('int64'),
        'f': rnp.dtype('float64'), 'c': rnp.dtype('complex128')}


class SV(object):
    __slots__ = ('k', 're', 'im', 'dt')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, k, re, im=None, dt=None):
        self.k = k
        self.re = re
        self.im = im if im is not None else T.ZERO
        self.dt = dt

    # ---- attributes of numpy scalars -------------------------------------
    @property
    def dtype(self):
        return SDtype(self.dt or _KDT[self.k])

    @property
    def real(self):
        return self if self.k != 'c' else SV('f', self.re, None,
                                             _realdt(self.dt))

    @property
    def imag(self):
        return SV('f', self.im, None, _realdt(self.dt)) if self.k == 'c' \
            else SV('f', T.ZERO)

    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    def ravel(self):
        from .sarr import lift
        return lift(self).reshape((1,))
    flatten = ravel

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self

    def conj(self):
        return f_conj(self)

    def conjugate(self):
        return f_conj(self)

    def squeeze(self, *a):
        return self

    def astype(self, dt, copy=True):
        return cast(self, real_dtype(dt))

    def reshape(self, *shp):
        from .sarr import lift
        return lift(self).reshape(*shp)

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def __getitem__(self, key):
        from .sarr import lift
        return lift(self)[key]

    # ---- conversions -----------------------------------------------------
    def poly(self):
        if self.k == 'b':
            return self.re.ind
        return self.re

    def cond(self):
        if self.k == 'b':
            return self.re
        if self.k == 'c':
            return T.c_not(T.c_and(T.eq0(self.re), T.eq0(self.im)))
        return T.c_not(T.eq0(self.re))

    def __bool__(self):
        return eng().decide(self.cond())

    def __index__(self):
        if self.k in 'bi':
            c = self.poly().const()
            if c is not None:
                return int(c)
        raise Unsupported('symbolic value used where a concrete integer is '
                          'needed: %r' % (self,))

    def __int__(self):
        c = self.poly().const()
        if c is not None and self.k != 'c':
            return int(c)
        raise Unsupported('int() of a symbolic value')

    def __float__(self):
        c = self.poly().const()
        if c is not None and self.k != 'c':
            return float(c)
        raise Unsupported('float() of a symbolic value')

    def __hash__(self):
        return hash((self.k, id(self.re), id(self.im)))

    def __repr__(self):
        if self.k == 'b':
            return 'SV<%s>' % T.show_cond(self.re)
        if self.k == 'c':
            return 'SV<%s + i(%s)>' % (T.show(self.re), T.show(self.im))
        return 'SV<%s>' % T.show(self.re)

    def __format__(self, spec):
        return '<sym>'

    # ---- arithmetic ------------------------------------------------------
    def __add__(self, o):
        return _bin(f_add, self, o)

    def __radd__(self, o):
        return _bin(f_add, o, self)

    def __sub__(self, o):
        return _bin(f_sub, self, o)

    def __rsub__(self, o):
        return _bin(f_sub, o, self)

    def __mul__(self, o):
        if isinstance(o, (tuple, list)):
            return o * int(self)
        if getattr(o, '_is_stride', False):
            return NotImplemented
        return _bin(f_mul, self, o)

    def __rmul__(self, o):
        if isinstance(o, (tuple, list, str)):
            return o * int(self)
        return _bin(f_mul, o, self)

    def __truediv__(self, o):
        return _bin(f_div, self, o)

    def __rtruediv__(self, o):
        return _bin(f_div, o, self)

    def __floordiv__(self, o):
        return _bin(f_floordiv, self, o)

    def __rfloordiv__(self, o):
        return _bin(f_floordiv, o, self)

    def __mod__(self, o):
        return _bin(f_mod, self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return '<fmt>'
        return _bin(f_mod, o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return _bin(f_pow, self, o)

    def __rpow__(self, o):
        return _bin(f_pow, o, self)

    def __neg__(self):
        return simp(f_neg(self))

    def __pos__(self):
        return self

    def __abs__(self):
        return simp(f_abs(self))

    def __and__(self, o):
        return _bin(f_and, self, o)
    __rand__ = __and__

    def __or__(self, o):
        return _bin(f_or, self, o)
    __ror__ = __or__

    def __invert__(self):
        return f_not(self)

    def __lt__(self, o):
        return _bin(f_lt, self, o)

    def __le__(self, o):
        return _bin(f_le, self, o)

    def __gt__(self, o):
        return _bin(f_gt, self, o)

    def __ge__(self, o):
        return _bin(f_ge, self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return _bin(f_eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return True
        return _bin(f_ne, self, o)


def _realdt(dt):
    if dt is None:
        return None
    return rnp.zeros(1, dt).real.dtype


def simp(v):
    """Constant integers and booleans become Python values."""
    if isinstance(v, SV):
        if v.k == 'i':
            c = v.re.const()
            if c is not None:
                return int(c)
        elif v.k == 'b':
            if v.re.is_true():
                return True
            if v.re.is_false():
                return False
    return v


def to_sv(x):
    if isinstance(x, SV):
        return x
    if isinstance(x, (bool, rnp.bool_)):
        return SV('b', T.TRUE() if x else T.FALSE())
    if isinstance(x, (int, rnp.integer)):
        return SV('i', P(int(x)), None,
                  x.dtype if isinstance(x, rnp.integer) else None)
    if isinstance(x, (float, rnp.floating)):
        f = float(x)
        if f != f or f in (float('inf'), float('-inf')):
            return SV('f', SPECIAL(f))
        return SV('f', P(Fraction(f)), None,
                  x.dtype if isinstance(x, rnp.floating) and
                  not isinstance(x, float) else None)
    if isinstance(x, (complex, rnp.complexfloating)):
        c = complex(x)
        return SV('c', P(Fraction(c.real)), P(Fraction(c.imag)))
    if isinstance(x, Fraction):
        return SV('f', P(x))
    if isinstance(x, rnp.ndarray) and x.ndim == 0:
        return to_sv(x[()])
    if getattr(x, '_is_sarr', False) and x.ndim == 0:
        return x.item()
    raise Unsupported('no symbolic scalar for %r' % (type(x),))


def SPECIAL(f):
    nm = 'NaN' if f != f else ('+Inf' if f > 0 else '-Inf')
    return T.var(nm, 'R')


def special(p):
    a = p.single_atom()
    if a is not None and a.kind == 'var' and a.args[0] in ('NaN', '+Inf',
                                                           '-Inf'):
        return a.args[0]
    a = (-p).single_atom()
    if a is not None and a.kind == 'var' and a.args[0] in ('+Inf', '-Inf'):
        return '-Inf' if a.args[0] == '+Inf' else '+Inf'
    return None


def _bin(f, a, b):
    for x in (a, b):
        if getattr(x, '_is_sarr', False) or (isinstance(x, rnp.ndarray)
                                             and x.ndim > 0):
            from .sarr import elementwise
            return elementwise(f, a, b)
    return simp(f(to_sv(a), to_sv(b)))


def _dt(a, b, k):
    """Result dtype label of a binary operation on scalars (weak Python
    scalars have no label)."""
    if a.dt is None and b.dt is None:
        return None
    if a.dt is None or b.dt is None:
        d = a.dt or b.dt
        if _KORD[k] > _KORD.get({'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f',
                                 'c': 'c'}[d.kind], 0):
            return rnp.result_type(d, {'f': 1.0, 'c': 1j, 'i': 1,
                                       'b': True}[k])
        return d
    return rnp.result_type(a.dt, b.dt)


def _k(a, b, lo='b'):
    k = a.k if _KORD[a.k] >= _KORD[b.k] else b.k
    return k if _KORD[k] >= _KORD[lo] else lo


def f_add(a, b):
    k = _k(a, b, 'i')
    if a.k == 'b' and b.k == 'b':
        return SV('b', T.c_or(a.re, b.re))
    if k == 'c':
        return SV('c', a.poly() + b.poly(), a.im + b.im, _dt(a, b, k))
    return SV(k, a.poly() + b.poly(), None, _dt(a, b, k))


def f_sub(a, b):
    return f_add(a, f_neg(b))


def f_neg(a):
    if a.k == 'c':
        return SV('c', -a.re, -a.im, a.dt)
    return SV('i' if a.k == 'b' else a.k, -a.poly(), None, a.dt)


def f_mul(a, b):
    if a.k == 'b' and b.k == 'b':
        return SV('b', T.c_and(a.re, b.re))
    k = _k(a, b, 'i')
    dt = _dt(a, b, k)
    if k == 'c':
        ar, ai, br, bi = a.poly(), a.im, b.poly(), b.im
        if not ai.t:
            return SV('c', ar * br, ar * bi, dt)
        if not bi.t:
            return SV('c', ar * br, ai * br, dt)
        r = SV('c', ar * br - ai * bi, ar * bi + ai * br, dt)
        if ar is br and ai is -bi:
            eng().mark_nonneg(r.re)
        return r
    ap, bp = a.poly(), b.poly()
    r = ap * bp
    if ap is bp and len(ap.t) > 1:
        eng().mark_nonneg(r)
    return SV(k, r, None, dt)


def note_div(den):
    if den.const() is not None:
        return
    e = eng()
    e.divs.setdefault(den, set()).add(tuple(e.guards))


def f_div(a, b):
    k = _k(a, b, 'f')
    dt = _dt(a, b, k)
    if b.k == 'c' and b.im.t:
        den = b.re * b.re + b.im * b.im
        eng().mark_nonneg(den)
        if den.const() == 0:
            raise Unsupported('division by zero constant')
        note_div(den)
        n = f_mul(a, SV('c', b.re, -b.im))
        i = T.inv(den)
        return SV('c', n.poly() * i, n.im * i, dt)
    bp = b.poly()
    if bp.const() == 0:
        e = eng()
        e.divs.setdefault(bp, set()).add(tuple(e.guards))
        return SV(k, T.var(T.fresh_name('undef'), 'R'), None, dt)
    sp = special(bp)
    if sp in ('+Inf', '-Inf'):
        return SV(k, T.ZERO, None, dt)
    note_div(bp)
    i = T.inv(bp)
    if k == 'c':
        return SV('c', a.poly() * i, a.im * i, dt)
    return SV(k, a.poly() * i, None, dt)


def f_floordiv(a, b):
    if a.k in 'bi' and b.k in 'bi':
        bp = b.poly()
        if not eng().valid(T.lt0(-bp)):
            raise Unsupported('floor division by a possibly non-positive '
                              'integer')
        return SV('i', T.idiv(a.poly(), bp))
    return f_floor(f_div(a, b))


def f_mod(a, b):
    if a.k in 'bi' and b.k in 'bi':
        bp = b.poly()
        if not eng().valid(T.lt0(-bp)):
            raise Unsupported('remainder by a possibly non-positive integer')
        return SV('i', T.imod(a.poly(), bp))
    return f_sub(a, f_mul(b, f_floor(f_div(a, b))))


def f_floor(a):
    if a.k in 'bi':
        return a
    c = a.re.const()
    if c is not None:
        import math
        return SV('f', P(math.floor(c)), None, a.dt)
    # floor(p * (1/q)) with integer p, q: exact integer division
    r = _int_ratio(a.re)
    if r is not None:
        return SV('f', T.idiv(*r), None, a.dt)
    fl = T.fn('floor', [a.re], 'I')
    e = eng()
    e.axioms.append(T.le0(fl - a.re))
    e.axioms.append(T.lt0(a.re - fl - 1))
    return SV('f', fl, None, a.dt)


def f_ceil(a):
    return f_neg(f_floor(f_neg(a)))


def _int_ratio(p):
    """p == n/d with integer polynomials n, d (d > 0 provable) or None."""
    invs = set()
    for m in p.t:
        for i, e in m:
            a = T.ATOMS[i]
            if a.kind == 'inv':
                if e != 1:
                    return None
                invs.add(a)
            elif a.sort != 'I':
                return None
    if len(invs) > 1:
        return None
    num = T.ZERO
    den = T.ONE
    if invs:
        a, = invs
        den = a.args[0]
        if not den.is_int():
            return None
        for m, c in p.t.items():
            rest = tuple((i, e) for i, e in m if i != a.id)
            if len(rest) == len(m):
                num = num + T._mkpoly({rest: c}) * den
            else:
                num = num + T._mkpoly({rest: c})
    else:
        num = p
    l = 1
    for c in num.t.values():
        if isinstance(c, Fraction):
            l = l * c.denominator // _gcd(l, c.denominator)
    num = num * l
    den = den * l
    if not (num.is_int() and den.is_int()):
        return None
    if not eng().valid(T.lt0(-den)):
        return None
    return num, den


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def f_pow(a, b):
    bc = b.poly().const() if b.k != 'c' else None
    if bc is not None:
        if isinstance(bc, int):
            if bc == 0:
                return SV('f' if a.k != 'i' else 'i', T.ONE, None, a.dt)
            n = abs(bc)
            if n <= 6:
                r = a
                for j in range(n - 1):
                    r = f_mul(r, a)
                if n == 2 and a.k in 'if':
                    eng().mark_nonneg(r.re)
                if bc < 0:
                    r = f_div(SV('f', T.ONE), r)
                if a.k == 'b':
                    return SV('i', r.poly())
                return r
        elif bc == Fraction(1, 2) and a.k != 'c':
            return f_sqrt(a)
    if a.k == 'c' or b.k == 'c':
        raise Unsupported('complex power')
    return SV('f', T.fn('pow', [a.poly(), b.poly()]), None, a.dt)


def f_conj(a):
    if a.k == 'c':
        return SV('c', a.re, -a.im, a.dt)
    return a


def f_real(a):
    return a.real


def f_imag(a):
    return a.imag


def f_abs(a):
    if a.k == 'c':
        if not a.im.t:
            return SV('f', T.absv(a.re), None, _realdt(a.dt))
        p = a.re * a.re + a.im * a.im
        eng().mark_nonneg(p)
        return SV('f', T.sqrt(p), None, _realdt(a.dt))
    if a.k == 'b':
        return a
    sp = special(a.re)
    if sp:
        return SV('f', SPECIAL(float('inf')) if sp != 'NaN' else a.re)
    return SV(a.k, T.absv(a.re), None, a.dt)


def f_sqrt(a):
    if a.k == 'c':
        if not a.im.t and eng().valid(T.le0(-a.re)):
            eng().mark_nonneg(a.re)
            return SV('c', T.sqrt(a.re), T.ZERO, a.dt)
        raise Unsupported('complex square root')
    return SV('f', T.sqrt(a.poly()), None, a.dt if a.dt is not None and
              a.dt.kind == 'f' else None)


def f_sign(a):
    if a.k == 'c':
        # numpy >= 2: z/|z|, 0 at 0
        n = f_abs(a)
        z = T.c_and(T.eq0(a.re), T.eq0(a.im))
        i = T.inv(n.re)
        return SV('c', T.ite(z, T.ZERO, a.re * i),
                  T.ite(z, T.ZERO, a.im * i), a.dt)
    p = a.poly()
    return SV(a.k if a.k != 'b' else 'i',
              T.ite(T.lt0(-p), T.ONE, T.ite(T.eq0(p), T.ZERO, P(-1))),
              None, a.dt)


def _cmp(a, b):
    if a.k == 'c' or b.k == 'c':
        raise Unsupported('ordering of complex values')
    return a.poly() - b.poly()


def f_lt(a, b):
    r = _spcmp(a, b)
    if r is not None:
        return SV('b', T.TRUE() if r < 0 else T.FALSE())
    return SV('b', T.lt0(_cmp(a, b)))


def f_le(a, b):
    r = _spcmp(a, b)
    if r is not None:
        return SV('b', T.TRUE() if r <= 0 else T.FALSE())
    return SV('b', T.le0(_cmp(a, b)))


def _spcmp(a, b):
    if a.k == 'b' or b.k == 'b':
        return None
    sa, sb = special(a.re), special(b.re)
    if sa is None and sb is None:
        return None
    v = {'+Inf': 1, '-Inf': -1, None: 0}
    if 'NaN' in (sa, sb):
        raise Unsupported('comparison with NaN')
    return v[sa] - v[sb]


def f_gt(a, b):
    return f_lt(b, a)


def f_ge(a, b):
    return f_le(b, a)


def f_eq(a, b):
    if a.k == 'b' and b.k == 'b':
        return SV('b', T.c_or(T.c_and(a.re, b.re),
                              T.c_and(T.c_not(a.re), T.c_not(b.re))))
    if a.k == 'c' or b.k == 'c':
        return SV('b', T.c_and(T.eq0(a.poly() - b.poly()),
                               T.eq0(a.im - b.im)))
    r = _spcmp(a, b)
    if r is not None:
        return SV('b', T.TRUE() if r == 0 else T.FALSE())
    return SV('b', T.eq0(a.poly() - b.poly()))


def f_ne(a, b):
    return f_not(f_eq(a, b))


def f_not(a):
    return SV('b', T.c_not(a.cond()))


def f_and(a, b):
    return SV('b', T.c_and(a.cond(), b.cond()))


def f_or(a, b):
    return SV('b', T.c_or(a.cond(), b.cond()))


def f_where(c, a, b):
    cd = c.cond()
    if cd.is_true():
        return a
    if cd.is_false():
        return b
    if a.k == 'b' and b.k == 'b':
        return SV('b', T.c_or(T.c_and(cd, a.re),
                              T.c_and(T.c_not(cd), b.re)))
    k = _k(a, b, 'i')
    im = None
    if k == 'c':
        im = T.ite(cd, a.im, b.im)
    return SV(k, T.ite(cd, a.poly(), b.poly()), im, _dt(a, b, k))


def f_max(a, b):
    r = _spcmp(a, b)
    if r is not None:
        return a if r >= 0 else b
    if a.k != 'c' and b.k != 'c':
        d = a.poly() - b.poly()
        if _known_nonneg(d):
            return a
        if _known_nonneg(-d):
            return b
    return f_where(f_le(b, a), a, b)


def _known_nonneg(p):
    """p >= 0 by sign of the factors, or because p is a maximum minus one
    of its elements."""
    if eng().is_nonneg(p):
        return True
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
            r = T.ATOMS[m[0][0]]
            if r.kind == 'red' and r.args[0] == ('max' if c == 1 else 'min'):
                # p = max(body) - x, is x an instance of body ?
                x = (P(r) - p) if c == 1 else (p + P(r))
                if _instance(r.args[3], r.args[2], x):
                    return True
    return False


def _instance(body, bvs, x):
    def leaves(q):
        out = []
        st = [q]
        while st:
            y = st.pop()
            for i in y.atoms():
                a = T.ATOMS[i]
                if a.kind == 'leaf':
                    out.append(a)
                else:
                    st.extend(z for z in T._children(a.args)
                              if isinstance(z, T.Poly))
        return out
    mp = {}
    lb, lx = leaves(body), leaves(x)
    for a in lb:
        for b in lx:
            if a.args[0] == b.args[0]:
                for s, t in zip(a.args[1], b.args[1]):
                    at = s.single_atom()
                    if at is not None and at in bvs:
                        mp.setdefault(at, t)
                break
    return len(mp) == len(bvs) and T.subst(body, mp) is x


def f_min(a, b):
    r = _spcmp(a, b)
    if r is not None:
        return a if r <= 0 else b
    return f_where(f_le(a, b), a, b)


def f_fn(name):
    def f(a):
        if a.k == 'c':
            raise Unsupported('%s of a complex value' % name)
        return SV('f', T.fn(name, [a.poly()]), None, a.dt)
    return f


def cast(v, dt):
    """Value conversion of a scalar to a dtype (reals stay exact)."""
    k = dt.kind
    if k == 'O':
        return v
    if k == 'b':
        return SV('b', v.cond(), None, dt)
    if k in 'iu':
        if v.k == 'f':
            c = v.re.const()
            if c is not None:
                return SV('i', P(int(c)), None, dt)
            if v.re.is_int():
                return SV('i', v.re, None, dt)
            # truncation toward zero
            fl = f_floor(v)
            if eng().valid(T.le0(-v.re)):
                return SV('i', fl.re, None, dt)
            raise Unsupported('float to integer conversion')
        if v.k == 'c':
            raise Unsupported('complex to integer')
        return SV('i', v.poly(), None, dt)
    if k == 'f':
        return SV('f', v.poly(), None, dt)
    if k == 'c':
        return SV('c', v.poly(), v.im, dt)
    raise Unsupported('dtype %s' % dt)
