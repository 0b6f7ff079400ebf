"""Term language of the verifier: polynomials over interned atoms.

A scalar value of the program under verification is a polynomial with rational
coefficients over *atoms*.  An atom is one of

  var    a symbolic input (integer or real)
  bv     a bound variable of a sum / reduction
  leaf   an element of a symbolic array: name[index polynomials]
  inv    1/p                    (arbitrary where p == 0)
  sqrt   principal square root  (arbitrary where p < 0)
  abs    absolute value of a real polynomial
  ind    indicator (0/1) of a literal condition
  sum    sum of a monomial over index ranges
  red    other reduction over index ranges (max, min, ...)
  idiv, imod   integer division and remainder (positive divisor)
  fn     application of a named elementary/uninterpreted function

Polynomials are kept in normal form and hash-consed, so equality of ring
expressions is pointer equality.  Everything is a mathematical integer or real.
"""
from fractions import Fraction
import itertools


class Unsupported(Exception):
    """The code uses something the verifier does not model."""


MAXTERMS = 60000

ATOMS = []
_AINT = {}
_PINT = {}
_SUBST_SERIAL = [0]


class Atom(object):
    __slots__ = ('id', 'kind', 'args', 'sort', 'fv', 'h')

    def __repr__(self):
        return show_atom(self)


def reset():
    ATOMS.clear()
    _AINT.clear()
    _PINT.clear()
    _CINT.clear()
    global ZERO, ONE
    ZERO = _mkpoly({})
    ONE = _mkpoly({(): 1})
    Cond._true = Cond._false = None


def mk_atom(kind, args, sort):
    key = (kind, args)
    a = _AINT.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.kind = kind
    a.args = args
    a.sort = sort
    fv = set()
    h = 0
    if kind == 'bv':
        h = args[1]
        a.fv = frozenset((a,))
        a.h = h
        ATOMS.append(a)
        _AINT[key] = a
        return a
    for p in _children(args):
        fv |= p.fv
        if p.h > h:
            h = p.h
    if kind in ('sum', 'red'):
        nb = args[1] if kind == 'sum' else args[2]
        fv = set(v for v in fv if v not in nb)
    a.fv = frozenset(fv)
    a.h = h
    ATOMS.append(a)
    _AINT[key] = a
    return a


def _children(args):
    for x in args:
        if isinstance(x, (Poly, Cond)):
            yield x
        elif isinstance(x, tuple):
            for y in _children(x):
                yield y


class Poly(object):
    __slots__ = ('t', 'key', 'fv', 'h', '_int')

    def __repr__(self):
        return show(self)

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        if len(self.t) < len(o.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v == 0:
                t.pop(m, None)
            else:
                t[m] = v
        return _mkpoly(t)
    __radd__ = __add__

    def __neg__(self):
        return _mkpoly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if o is ONE:
            return self
        if self is ONE:
            return o
        if len(self.t) * len(o.t) > MAXTERMS:
            raise Unsupported('expression too large')
        t = {}
        extra = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, ex = _mulmono(m1, m2)
                if ex is None:
                    v = t.get(m, 0) + c1 * c2
                    if v == 0:
                        t.pop(m, None)
                    else:
                        t[m] = v
                else:
                    extra.append((m, c1 * c2, ex))
        r = _mkpoly(t)
        if not extra:
            return r
        rs = [r]
        for m, c, ex in extra:
            q = _mkpoly({m: c})
            for e in ex:
                q = q * e
            rs.append(q)
        return addall(rs)
    __rmul__ = __mul__

    def __pow__(self, n):
        if n == 0:
            return ONE
        r = self
        for _ in range(n - 1):
            r = r * self
        return r

    # queries ---------------------------------------------------------------
    def const(self):
        """The constant value (int or Fraction) or None."""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def is_int(self):
        if self._int is None:
            self._int = all(
                isinstance(c, int) and all(ATOMS[i].sort == 'I' for i, _ in m)
                for m, c in self.t.items())
        return self._int

    def atoms(self):
        s = set()
        for m in self.t:
            for i, _ in m:
                s.add(i)
        return s

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return ATOMS[m[0][0]]
        return None


def addall(ps):
    """Sum of a list of polynomials."""
    ps = [q for q in ps if q.t]
    if not ps:
        return ZERO
    if len(ps) == 1:
        return ps[0]
    t = dict(ps[0].t)
    for q in ps[1:]:
        for m, c in q.t.items():
            if m in t:
                v = t[m] + c
                if v == 0:
                    del t[m]
                else:
                    t[m] = v
            else:
                t[m] = c
    return _mkpoly(t)


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def _mkpoly(t):
    t = {m: _norm(c) for m, c in t.items()}
    key = tuple(sorted(t.items()))
    p = _PINT.get(key)
    if p is not None:
        return p
    p = Poly()
    p.t = t
    p.key = key
    fv = frozenset()
    h = 0
    for m in t:
        for i, _ in m:
            a = ATOMS[i]
            if a.fv:
                fv = fv | a.fv
            if a.h > h:
                h = a.h
    p.fv = fv
    p.h = h
    p._int = None
    _PINT[key] = p
    return p


def _mulmono(m1, m2):
    """Product of monomials; returns (mono, extra factors or None)."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    touched = False
    for i, e in m2:
        if i in d:
            d[i] += e
            touched = True
        else:
            d[i] = e
    extra = None
    if touched:
        for i in list(d):
            e = d[i]
            if e > 1:
                a = ATOMS[i]
                if a.kind == 'ind':
                    d[i] = 1
                elif a.kind in ('sqrt', 'abs'):
                    k, r = divmod(e, 2)
                    if k:
                        if extra is None:
                            extra = []
                        base = a.args[0] if a.kind == 'sqrt' else \
                            a.args[0] * a.args[0]
                        extra.extend([base] * k)
                        if r:
                            d[i] = 1
                        else:
                            del d[i]
    # mutually exclusive / complementary equality literals are left to z3
    return tuple(sorted(d.items())), extra


def P(x):
    """Coerce a number to a polynomial."""
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return _mkpoly({(): x}) if x else ZERO
    if isinstance(x, Fraction):
        return _mkpoly({(): x}) if x else ZERO
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant in arithmetic')
        return P(Fraction(x))
    if isinstance(x, Atom):
        return _mkpoly({((x.id, 1),): 1})
    raise Unsupported('cannot make a term of %r' % (type(x),))


ZERO = _mkpoly({})
ONE = _mkpoly({(): 1})


# Conditions -----------------------------------------------------------------

_CINT = {}


class Cond(object):
    """Boolean combination of literals p <= 0, p == 0 and named booleans."""
    __slots__ = ('op', 'args', 'fv', 'h', '_ind')
    _true = None
    _false = None

    def __repr__(self):
        return show_cond(self)

    @property
    def ind(self):
        if self._ind is None:
            self._ind = _indicator(self)
        return self._ind

    def is_true(self):
        return self.op == 'true'

    def is_false(self):
        return self.op == 'false'


def _mkcond(op, args):
    key = (op, args)
    c = _CINT.get(key)
    if c is not None:
        return c
    c = Cond()
    c.op = op
    c.args = args
    fv = frozenset()
    h = 0
    for x in _children(args):
        fv = fv | x.fv
        h = max(h, x.h)
    c.fv = fv
    c.h = h
    c._ind = None
    _CINT[key] = c
    return c


def TRUE():
    return _mkcond('true', ())


def FALSE():
    return _mkcond('false', ())


def _lead(p):
    """Sign of the canonical leading (non-constant) coefficient, and scale."""
    for m, c in p.key:
        if m:
            return c
    return None


def le0(p):
    """p <= 0"""
    c = p.const()
    if c is not None:
        return TRUE() if c <= 0 else FALSE()
    ld = _lead(p)
    if p.is_int():
        # canonical sign: leading coefficient positive
        if ld < 0:
            return c_not(_mkcond('le', (ONE - p,)))
        return _mkcond('le', (p,))
    s = Fraction(1) / abs(ld)
    if s != 1:
        p = p * P(s)
    return _mkcond('le', (p,))


def lt0(p):
    """p < 0"""
    if p.is_int():
        return le0(p + 1)
    return c_not(le0(-p))


def eq0(p):
    c = p.const()
    if c is not None:
        return TRUE() if c == 0 else FALSE()
    ld = _lead(p)
    if ld != 1:
        if p.is_int():
            if ld < 0:
                p = -p
        else:
            p = p * P(Fraction(1) / ld)
    return _mkcond('eq', (p,))


def c_not(c):
    if c.op == 'true':
        return FALSE()
    if c.op == 'false':
        return TRUE()
    if c.op == 'not':
        return c.args[0]
    return _mkcond('not', (c,))


def c_and(*cs):
    out = []
    for c in cs:
        if c.op == 'false':
            return c
        if c.op == 'true':
            continue
        if c.op == 'and':
            for d in c.args:
                if d not in out:
                    out.append(d)
        elif c not in out:
            out.append(c)
    if not out:
        return TRUE()
    for c in out:
        if c_not(c) in out:
            return FALSE()
    if len(out) == 1:
        return out[0]
    return _mkcond('and', tuple(out))


def c_or(*cs):
    return c_not(c_and(*[c_not(c) for c in cs]))


def c_implies(a, b):
    return c_or(c_not(a), b)


def b_leaf(name, idx=()):
    return _mkcond('b', (name,) + tuple(idx))


def _indicator(c):
    if c.op == 'true':
        return ONE
    if c.op == 'false':
        return ZERO
    if c.op == 'not':
        return ONE - c.args[0].ind
    if c.op == 'and':
        r = ONE
        for d in c.args:
            r = r * d.ind
        return r
    return P(mk_atom('ind', (c,), 'I'))


def ite(c, p, q):
    p = P(p)
    q = P(q)
    if c.op == 'true':
        return p
    if c.op == 'false':
        return q
    if p is q:
        return p
    return q + c.ind * (p - q)


# Atom constructors ------------------------------------------------------------

_fresh = [0]


def fresh_name(pfx):
    _fresh[0] += 1
    return '%s!%d' % (pfx, _fresh[0])


def var(name, sort):
    return P(mk_atom('var', (name,), sort))


def bvar():
    _fresh[0] += 1
    return mk_atom('bv', ('f%d' % _fresh[0], 0), 'I')


def canon_bv(h):
    return mk_atom('bv', ('#%d' % h, h), 'I')


def leaf(name, idx, sort):
    return P(mk_atom('leaf', (name, tuple(P(i) for i in idx)), sort))


def fn(name, args, sort='R'):
    return P(mk_atom('fn', (name,) + tuple(P(a) for a in args), sort))


def inv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            raise Unsupported('division by the constant zero')
        return P(Fraction(1) / c)
    # pull out the numeric content so that 1/(2p) and 1/p share an atom
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = P(Fraction(1) / c)
        for i, e in m:
            a = ATOMS[i]
            if a.kind == 'inv':
                # 1/(1/x): only valid for x != 0; keep opaque
                base = P(mk_atom('inv', (P(a),), 'R'))
            else:
                base = P(mk_atom('inv', (P(a),), 'R'))
            r = r * base ** e
        return r
    ld = _lead(p)
    if ld is not None and ld != 1:
        q = p * P(Fraction(1) / ld)
        return P(Fraction(1) / ld) * P(mk_atom('inv', (q,), 'R'))
    return P(mk_atom('inv', (p,), 'R'))


def sqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        f = Fraction(c)
        import math
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return P(Fraction(a, b))
    # sqrt(q*q) with q a single abs/var atom
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 2:
            return absv(P(ATOMS[m[0][0]]))
        # pull a perfect square constant
        if m and c != 1 and c > 0:
            s = sqrt(P(c))
            if s.const() is not None:
                return s * sqrt(_mkpoly({m: 1}))
    return P(mk_atom('sqrt', (p,), 'R'))


def absv(p):
    c = p.const()
    if c is not None:
        return P(abs(c))
    a = p.single_atom()
    if a is not None and a.kind in ('abs', 'sqrt', 'ind'):
        return p
    ld = _lead(p)
    if ld is not None and ld < 0:
        p = -p
        ld = -ld
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = P(c)
        for i, e in m:
            b = ATOMS[i]
            if b.kind in ('abs', 'sqrt', 'ind'):
                r = r * P(b) ** e
            elif e % 2 == 0:
                r = r * P(b) ** e
            else:
                r = r * P(b) ** (e - 1) * P(mk_atom('abs', (P(b),), b.sort))
        return r
    return P(mk_atom('abs', (p,), 'I' if p.is_int() else 'R'))


def _recomb(p):
    """d * (x // d) + x % d -> x"""
    for m, c in p.t.items():
        if len(m) != 1 or m[0][1] != 1 or ATOMS[m[0][0]].kind != 'imod':
            continue
        x, d = ATOMS[m[0][0]].args
        t = d * P(mk_atom('idiv', (x, d), 'I'))
        if all(p.t.get(k) == v * c for k, v in t.t.items()):
            return _recomb(p - P(c) * (t + _mkpoly({m: 1})) + P(c) * x)
    return p


def idiv(p, q):
    p = _recomb(p)
    cp, cq = p.const(), q.const()
    if cq == 1:
        return p
    if cp == 0:
        return ZERO
    if cp is not None and cq is not None and cq:
        return P(cp // cq)
    if cq and all(isinstance(c, int) and (c % cq == 0 or (not m and cq > 0))
                  for m, c in p.t.items()):
        return _mkpoly({m: c // cq for m, c in p.t.items() if c // cq})
    return P(mk_atom('idiv', (p, q), 'I'))


def imod(p, q):
    p = _recomb(p)
    cp, cq = p.const(), q.const()
    if cq == 1 or cp == 0:
        return ZERO
    if cp is not None and cq is not None and cq:
        return P(cp % cq)
    if cq and all(isinstance(c, int) and (c % cq == 0 or (not m and cq > 0))
                  for m, c in p.t.items()):
        return P(p.t.get((), 0) % cq)
    return P(mk_atom('imod', (p, q), 'I'))


# Substitution -----------------------------------------------------------------

def subst(p, mp, memo=None):
    """Replace atoms by polynomials: mp maps Atom -> Poly."""
    if memo is None:
        memo = {}
    return _subst(p, mp, memo)


def _subst(p, mp, memo):
    k = ('p', id(p))
    if k in memo:
        return memo[k]
    if not any(_touches(ATOMS[i], mp, memo) for i in p.atoms()):
        memo[k] = p
        return p
    keep, rs = {}, []
    for m, c in p.t.items():
        rest, q = [], None
        for i, e in m:
            a = ATOMS[i]
            if _touches(a, mp, memo):
                v = _subst_atom(a, mp, memo) ** e
                q = v if q is None else q * v
            else:
                rest.append((i, e))
        if q is None:
            keep[m] = c
        else:
            rs.append(q * _mkpoly({tuple(rest): c}))
    if keep:
        rs.append(_mkpoly(keep))
    r = addall(rs)
    memo[k] = r
    return r


def _touches(a, mp, memo):
    k = ('t', a.id)
    if k in memo:
        return memo[k]
    if a in mp:
        r = True
    else:
        r = False
        for x in _children(a.args):
            if isinstance(x, Poly):
                if any(_touches(ATOMS[i], mp, memo) for i in x.atoms()):
                    r = True
                    break
            elif _ctouches(x, mp, memo):
                r = True
                break
    memo[k] = r
    return r


def _ctouches(c, mp, memo):
    for x in _children(c.args):
        if isinstance(x, Poly):
            if any(_touches(ATOMS[i], mp, memo) for i in x.atoms()):
                return True
        elif _ctouches(x, mp, memo):
            return True
    return False


def _subst_atom(a, mp, memo):
    if a in mp:
        return mp[a]
    k = ('a', a.id)
    if k in memo:
        return memo[k]
    if not _touches(a, mp, memo):
        r = P(a)
    else:
        s = lambda x: _subst(x, mp, memo)
        kd = a.kind
        if kd == 'leaf':
            r = leaf(a.args[0], [s(x) for x in a.args[1]], a.sort)
        elif kd == 'inv':
            r = inv(s(a.args[0]))
        elif kd == 'sqrt':
            r = sqrt(s(a.args[0]))
        elif kd == 'abs':
            r = absv(s(a.args[0]))
        elif kd == 'ind':
            r = subst_cond(a.args[0], mp, memo).ind
        elif kd == 'idiv':
            r = idiv(s(a.args[0]), s(a.args[1]))
        elif kd == 'imod':
            r = imod(s(a.args[0]), s(a.args[1]))
        elif kd == 'fn':
            r = fn(a.args[0], [s(x) for x in a.args[1:]], a.sort)
        elif kd == 'sum':
            rng, bvs, body = a.args
            fr = [bvar() for _ in bvs]
            m2 = {b: P(f) for b, f in zip(bvs, fr)}
            body2 = subst(body, m2)
            body2 = subst(body2, mp)
            r = big_sum([(f, s(lo), s(hi)) for f, (lo, hi)
                         in zip(fr, rng)], body2)
        elif kd == 'red':
            op, rng, bvs, body = a.args
            fr = [bvar() for _ in bvs]
            m2 = {b: P(f) for b, f in zip(bvs, fr)}
            body2 = subst(subst(body, m2), mp)
            r = reduction(op, [(f, s(lo), s(hi)) for f, (lo, hi)
                               in zip(fr, rng)], body2)
        else:
            raise Unsupported('substitution in %s' % kd)
    memo[k] = r
    return r


def subst_cond(c, mp, memo=None):
    if memo is None:
        memo = {}
    if c.op in ('true', 'false'):
        return c
    if c.op == 'not':
        return c_not(subst_cond(c.args[0], mp, memo))
    if c.op == 'and':
        return c_and(*[subst_cond(d, mp, memo) for d in c.args])
    if c.op == 'le':
        return le0(_subst(c.args[0], mp, memo))
    if c.op == 'eq':
        return eq0(_subst(c.args[0], mp, memo))
    if c.op == 'b':
        return b_leaf(c.args[0], [_subst(x, mp, memo) for x in c.args[1:]])
    raise Unsupported('condition %s' % c.op)


# Sums -------------------------------------------------------------------------

CONCRETE_SUM = 64
SUM_HOOK = [None]     # called with (ranges, body) -> None, for sign facts


def big_sum(rng, body):
    """Sum of body over bound variables rng = [(bv atom, lo, hi)], hi
    exclusive."""
    body = P(body)
    if not rng:
        return body
    # concrete small ranges are expanded
    for j, (b, lo, hi) in enumerate(rng):
        n = (hi - lo).const()
        if n is not None:
            if n <= 0:
                return ZERO
            if n <= CONCRETE_SUM:
                r = ZERO
                for k in range(int(n)):
                    r = r + subst(body, {b: lo + k})
                return big_sum(rng[:j] + rng[j + 1:], r)
    b, lo, hi = rng[-1]
    r = addall([_sum1(b, lo, hi, m, c) for m, c in body.t.items()])
    return big_sum(rng[:-1], r)


def _sum1(b, lo, hi, m, c):
    dep, ind = [], []
    for i, e in m:
        a = ATOMS[i]
        (dep if b in a.fv else ind).append((a, e))
    out = P(c)
    for a, e in ind:
        out = out * P(a) ** e
    if not dep:
        return out * (hi - lo)
    # literals decided by the range of b
    dep2 = []
    for a, e in dep:
        d = _range_lit(a, b, lo, hi)
        if d is False:
            return ZERO
        if d is None:
            dep2.append((a, e))
    if len(dep2) < len(dep):
        dep = dep2
        if not dep:
            return out * (hi - lo)
    # delta elimination
    for a, e in dep:
        if a.kind == 'ind' and a.args[0].op == 'eq':
            p = a.args[0].args[0]
            co = p.t.get(((b.id, 1),), 0)
            if co in (1, -1):
                rest = p - P(co) * P(b)
                if b not in rest.fv:
                    r = rest * P(-co)
                    q = ONE
                    for a2, e2 in dep:
                        if a2 is not a:
                            q = q * P(a2) ** e2
                    q = subst(q, {b: r})
                    q = q * c_and(le0(lo - r), lt0(r - hi)).ind
                    return out * q
    # flatten nested sums that depend on b
    bvs = [(b, lo, hi)]
    mono = ONE
    for a, e in dep:
        if a.kind == 'sum':
            for _ in range(e):
                rg, inner, bd = a.args
                fr = [bvar() for _ in inner]
                mono = mono * subst(bd, {x: P(f) for x, f in zip(inner, fr)})
                for f, (l2, h2) in zip(fr, rg):
                    bvs.append((f, l2, h2))
        else:
            mono = mono * P(a) ** e
    if len(mono.t) != 1:
        # flattening produced several terms (rewrites): sum them separately
        return out * addall([_sum_atom(bvs, m2, c2)
                             for m2, c2 in mono.t.items()])
    (m2, c2), = mono.t.items()
    return out * _sum_atom(bvs, m2, c2)


def _range_lit(a, b, lo, hi):
    """Truth value of an indicator literal forced by lo <= b < hi, or
    None."""
    if a.kind != 'ind' or a.args[0].op not in ('le', 'eq'):
        return None
    p = a.args[0].args[0]
    co = p.t.get(((b.id, 1),), 0)
    if co == 0:
        return None
    r = p - P(co) * P(b)
    if b in r.fv:
        return None
    top = ((hi - 1) if co > 0 else lo) * P(co) + r
    bot = (lo if co > 0 else (hi - 1)) * P(co) + r
    tc, bc = top.const(), bot.const()
    if a.args[0].op == 'le':
        if tc is not None and tc <= 0:
            return True
        if bc is not None and bc > 0:
            return False
    else:
        if tc is not None and tc < 0 or bc is not None and bc > 0:
            return False
    return None


def _sum_atom(bvs, m, c):
    """Canonical sum atom for a monomial m over bound variables bvs."""
    # drop or factor what does not depend on the bound variables
    allb = set(b for b, _, _ in bvs)
    dep, out = [], P(c)
    used = set()
    for i, e in m:
        a = ATOMS[i]
        s = a.fv & allb
        if s:
            dep.append((a, e, s))
            used |= s
        else:
            out = out * P(a) ** e
    for b, lo, hi in bvs:
        if b not in used:
            out = out * (hi - lo)
    bvs = [x for x in bvs if x[0] in used]
    if not bvs:
        return out
    # delta elimination over any of the bound variables
    for j, (b, lo, hi) in enumerate(bvs):
        for a, e, _ in dep:
            if a.kind == 'ind' and a.args[0].op == 'eq' and b in a.fv:
                p = a.args[0].args[0]
                co = p.t.get(((b.id, 1),), 0)
                if co in (1, -1):
                    rest = p - P(co) * P(b)
                    if b not in rest.fv:
                        r = rest * P(-co)
                        q = ONE
                        for a2, e2, _ in dep:
                            if a2 is not a:
                                q = q * P(a2) ** e2
                        q = subst(q, {b: r})
                        q = q * c_and(le0(lo - r), lt0(r - hi)).ind
                        return out * big_sum(bvs[:j] + bvs[j + 1:], q)
    # split into connected components
    comp = {b: b for b, _, _ in bvs}

    def find(x):
        while comp[x] is not x:
            x = comp[x]
        return x
    for a, e, s in dep:
        s = list(s)
        for y in s[1:]:
            rx, ry = find(s[0]), find(y)
            if rx is not ry:
                comp[ry] = rx
    groups = {}
    for b, lo, hi in bvs:
        groups.setdefault(find(b), []).append((b, lo, hi))
    if len(groups) > 1:
        for root, g in groups.items():
            gb = set(b for b, _, _ in g)
            mono = ONE
            for a, e, s in dep:
                if s & gb:
                    mono = mono * P(a) ** e
            (m2, c2), = mono.t.items()
            out = out * _canon_sum(g, m2) * P(c2)
        return out
    mono = ONE
    for a, e, s in dep:
        mono = mono * P(a) ** e
    if len(mono.t) != 1:
        r = ZERO
        for m2, c2 in mono.t.items():
            r = r + _sum_atom(bvs, m2, c2)
        return out * r
    (m2, c2), = mono.t.items()
    return out * P(c2) * _canon_sum(bvs, m2)


ORTHO = set()      # names of leaf matrices Q with Q^T Q = Q Q^T = I


def _ortho(bvs, m):
    """Sum_k Q[k,i] Q[k,j] -> [i == j] (and for rows) for orthogonal Q;
    returns the reduced sum or None."""
    qs = [(ATOMS[i], e) for i, e in m if ATOMS[i].kind == 'leaf' and
          ATOMS[i].args[0] in ORTHO]
    if not qs:
        return None
    for n, (b, lo, hi) in enumerate(bvs):
        occ = [(ATOMS[i], e) for i, e in m if b in ATOMS[i].fv]
        if sum(e for _, e in occ) != 2:
            continue
        two = [a for a, e in occ for _ in range(e)]
        if any(a.kind != 'leaf' or a.args[0] not in ORTHO for a in two) or \
                two[0].args[0] != two[1].args[0]:
            continue
        for pos in (0, 1):
            if all(a.args[1][pos] is P(b) and b not in a.args[1][1 - pos].fv
                   for a in two):
                d = eq0(two[0].args[1][1 - pos] - two[1].args[1][1 - pos])
                rest = ONE
                left = list(m)
                for i, e in m:
                    k = sum(1 for a in two if a.id == i)
                    if e > k:
                        rest = rest * P(ATOMS[i]) ** (e - k)
                return big_sum(bvs[:n] + bvs[n + 1:], rest * d.ind)
    return None


def _canon_sum(bvs, m):
    if ORTHO:
        r = _ortho(bvs, m)
        if r is not None:
            return r
    body = _mkpoly({m: 1})
    h = body.h
    for b, lo, hi in bvs:
        h = max(h, lo.h, hi.h)
        if (lo.fv | hi.fv) & set(x[0] for x in bvs):
            raise Unsupported('sum range depends on another bound variable')
    n = len(bvs)
    if n > 5:
        raise Unsupported('sum over more than five indices')
    names = [canon_bv(h + 1 + k) for k in range(n)]
    best = None
    for perm in itertools.permutations(range(n)):
        rng = tuple((bvs[j][1], bvs[j][2]) for j in perm)
        bd = subst(body, {bvs[j][0]: P(names[k])
                          for k, j in enumerate(perm)})
        key = (tuple((lo.key, hi.key) for lo, hi in rng), bd.key)
        if best is None or key < best[0]:
            best = (key, rng, bd)
    _, rng, bd = best
    return P(mk_atom('sum', (rng, tuple(names), bd), 'I' if
                     _mkpoly({m: 1}).is_int() else 'R'))


def reduction(op, rng, body):
    """Other reductions (max, min) over symbolic ranges."""
    body = P(body)
    used = [x for x in rng if x[0] in body.fv]
    if not used:
        return body
    for j, (b, lo, hi) in enumerate(used):
        n = (hi - lo).const()
        if n is not None and n <= CONCRETE_SUM:
            vals = [subst(body, {b: lo + k}) for k in range(int(n))]
            r = vals[0]
            for v in vals[1:]:
                if op == 'max':
                    r = ite(le0(r - v), v, r)
                else:
                    r = ite(le0(v - r), v, r)
            return reduction(op, used[:j] + used[j + 1:], r)
    h = body.h
    names = [canon_bv(h + 1 + k) for k in range(len(used))]
    bd = subst(body, {x[0]: P(nm) for x, nm in zip(used, names)})
    return P(mk_atom('red', (op, tuple((lo, hi) for _, lo, hi in used),
                             tuple(names), bd), 'R'))


# Display ----------------------------------------------------------------------

def show_atom(a):
    k = a.kind
    if k in ('var', 'bv'):
        return str(a.args[0])
    if k == 'leaf':
        return '%s[%s]' % (a.args[0], ','.join(show(x) for x in a.args[1]))
    if k == 'inv':
        return '1/(%s)' % show(a.args[0])
    if k in ('sqrt', 'abs'):
        return '%s(%s)' % (k, show(a.args[0]))
    if k == 'ind':
        return '[%s]' % show_cond(a.args[0])
    if k == 'sum':
        return 'Sum{%s}(%s)' % (','.join(
            '%s<=%s<%s' % (show(lo), b.args[0], show(hi))
            for b, (lo, hi) in zip(a.args[1], a.args[0])), show(a.args[2]))
    if k == 'red':
        return '%s{..}(%s)' % (a.args[0], show(a.args[3]))
    if k == 'fn':
        return '%s(%s)' % (a.args[0], ','.join(show(x) for x in a.args[1:]))
    return '%s(%s)' % (k, ','.join(show(x) for x in a.args))


def show(p):
    if not p.t:
        return '0'
    out = []
    for m, c in p.key[:40]:
        s = '*'.join((show_atom(ATOMS[i]) + ('^%d' % e if e > 1 else ''))
                     for i, e in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        else:
            out.append('%s*%s' % (c, s))
    if len(p.key) > 40:
        out.append('...(%d terms)' % len(p.key))
    return ' + '.join(out)


def show_cond(c):
    if c.op in ('true', 'false'):
        return c.op
    if c.op == 'not':
        return 'not(%s)' % show_cond(c.args[0])
    if c.op == 'and':
        return ' & '.join('(%s)' % show_cond(d) for d in c.args)
    if c.op == 'b':
        return '%s(%s)' % (c.args[0], ','.join(show(x) for x in c.args[1:]))
    return '%s %s 0' % (show(c.args[0]), '<=' if c.op == 'le' else '==')
