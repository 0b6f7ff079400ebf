"""Assumed contracts on the compiled dependencies other than numpy: pyfftw,
scipy, numexpr.  Everything here is trusted (and exercised against the real
library by the runtime check of the same contracts)."""
import sys
import types
import numpy as rnp

from . import terms as T
from .terms import P, Unsupported, ATOMS
from . import sval as V
from .sval import SV, to_sv, simp, eng, is_sym, real_dtype
from . import sarr as A
from .sarr import SArr, lift, elementwise
from . import snp
from .snp import np as snumpy, deep_sym, to_real


def trust(name):
    e = eng()
    if e is not None:
        e.trusted.add(name)


class Lazy(types.ModuleType):
    """Stub module: known attributes are modelled, others pass to the real
    module when the arguments are concrete."""

    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__['_real'] = name
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith('__') and n != '__version__':
            raise AttributeError(n)
        import importlib
        try:
            r = importlib.import_module(self._real)
            v = getattr(r, n)
        except AttributeError:
            try:
                v = importlib.import_module(self._real + '.' + n)
            except ImportError:
                raise AttributeError(n)
        if isinstance(v, types.ModuleType):
            return Lazy(v.__name__)
        if callable(v) and not isinstance(v, type):
            return _pass(self._real + '.' + n, v)
        return v


def _pass(name, f):
    def g(*a, **k):
        if any(deep_sym(x) for x in a) or any(deep_sym(x)
                                              for x in k.values()):
            raise Unsupported('%s on symbolic arguments' % name)
        return f(*[to_real(x) for x in a],
                 **{n: to_real(x) for n, x in k.items()})
    g.__name__ = name
    return g


# ---- FFT -----------------------------------------------------------------------
#
# The forward transform of a[x] over `axes` is modelled by what it is, a sum
# over x of a[x] times a kernel, with the kernel's cosine and sine parts
# uninterpreted.  Linearity and congruence follow from the normal form of
# sums.  The inverse of a spectrum that is (syntactically, up to coefficients
# that do not depend on the frequency) a forward transform is its argument.

def _fft_axes(a, s, axes):
    n = a.ndim
    if axes is None:
        axes = tuple(range(n)) if s is None else tuple(range(n - len(s), n))
    axes = [int(x) for x in axes]
    axes = [x % n if -n <= x < n else _axerr(x, n) for x in axes]
    if s is not None:
        if getattr(s, '_is_sarr', False):
            s = s.tolist()
        s = [x if isinstance(x, SV) else int(x) for x in s]
        if len(s) != len(axes):
            raise ValueError('Shape requires axes of the same length')
    return axes, s


def _axerr(x, n):
    raise rnp.exceptions.AxisError(x, n)


def _resize(a, axes, s):
    """Zero-pad or crop to sizes s."""
    if s is None:
        return a
    for ax, m in zip(axes, s):
        n = a.shape[ax]
        d = simp(to_sv(m) - to_sv(n))
        if isinstance(d, int) and d == 0:
            continue
        if not isinstance(d, int) and eng().valid(T.eq0(d.poly())):
            continue
        if (d >= 0 if isinstance(d, int) else bool(d >= 0)):
            pw = [(0, 0)] * a.ndim
            pw[ax] = (0, d)
            a = snp.IMPL['pad'](a, pw)
        else:
            a = a[(slice(None),) * ax + (slice(0, m),)]
    return a


def _ker(part, ks, xs, ns):
    return T.leaf('DFT%d.%s' % (len(ks), part), list(ks) + list(xs) +
                  list(ns), 'R')


def _bvs(a, axes):
    xs, rng = {}, []
    for ax in axes:
        f = a.axes[ax]
        t = []
        for d in f:
            b = T.bvar()
            rng.append((b, T.ZERO, d))
            t.append(P(b))
        xs[ax] = tuple(t)
    return xs, rng


def _fwd(a, axes, real):
    """Forward transform of the (already resized) array a."""
    a = lift(a)
    if OPAQUE[0]:
        return _ofwd(SArr(a.axes, a.dt, a.snap()), axes, real)
    ns = [A.axdim(a.axes[x]) for x in axes]
    out = list(a.axes)
    for x in axes:
        out[x] = A.mkaxis(SV('i', A.axdim(a.axes[x])))
    if real:
        l = axes[-1]
        out[l] = A.mkaxis(SV('i', T.idiv(ns[-1], P(2)) + 1))
    dt = rnp.result_type(a.dt, rnp.complex64)
    f = a.snap()
    aax = a.axes

    def g(idx):
        ks = [A.lin(idx[x], out[x]) if out[x] else T.ZERO for x in axes]
        xs, rng = _bvs(a, axes)
        ii = tuple(xs.get(k, idx[k]) for k in range(a.ndim))
        lx = [A.lin(xs[x], aax[x]) if aax[x] else T.ZERO for x in axes]
        v = f(ii)
        c = _ker('c', ks, lx, ns)
        s = _ker('s', ks, lx, ns)
        if v.k == 'c':
            re = T.big_sum(rng, v.re * c) - T.big_sum(rng, v.im * s)
            im = T.big_sum(rng, v.re * s) + T.big_sum(rng, v.im * c)
        else:
            re = T.big_sum(rng, v.poly() * c)
            im = T.big_sum(rng, v.poly() * s)
        return SV('c', re, im, dt)
    return SArr(tuple(out), dt, g)


def _dft_atom(a, nk, kat):
    """If atom a is sum over x of body(x) * DFT.part(k, x, n) with k exactly
    the atoms kat, return (part, bvs, rng, body, xs, ns)."""
    if a.kind != 'sum':
        return None
    rng, bvs, body = a.args
    (m, c), = body.t.items()
    if c != 1:
        return None
    ker = None
    rest = []
    for i, e in m:
        b = ATOMS[i]
        if b.kind == 'leaf' and b.args[0].startswith('DFT') and e == 1 and \
                b.args[0][3:].split('.')[0] == str(nk) and ker is None:
            ix = b.args[1]
            if all(ix[j] is kat[j] for j in range(nk)):
                ker = b
                continue
        rest.append((i, e))
    if ker is None:
        return None
    rb = T._mkpoly({tuple(rest): 1})
    ix = ker.args[1]
    return (ker.args[0].split('.')[1], bvs, rng, rb, ix[nk:2 * nk],
            ix[2 * nk:])


def _decomp(p, nk, kat, kset):
    """Split p into {(bvs,rng,body,xs,ns): [coef of c-part, coef of s-part]}
    with coefficients free of k, and the remainder."""
    out = {}
    rem = T.ZERO
    for m, c in p.t.items():
        hit = None
        rest = []
        for i, e in m:
            a = ATOMS[i]
            if hit is None and e == 1:
                d = _dft_atom(a, nk, kat)
                if d is not None and not (d[3].fv & kset):
                    hit = d
                    continue
            rest.append((i, e))
        co = T._mkpoly({tuple(rest): c})
        if hit is not None and not (co.fv & kset):
            key = hit[1:]
            e = out.setdefault(key, [T.ZERO, T.ZERO])
            e[0 if hit[0] == 'c' else 1] = e[0 if hit[0] == 'c' else 1] + co
        else:
            rem = rem + T._mkpoly({m: c})
    return out, rem


def _inv(z, axes, s, real):
    """Inverse transform to sizes s of the spectrum z."""
    z = lift(z)
    nk = len(axes)
    out = list(z.axes)
    ns = []
    for j, x in enumerate(axes):
        if s is not None:
            n = to_sv(s[j]).poly()
        elif real and x == axes[-1]:
            n = (A.axdim(z.axes[x]) - 1) * 2
        else:
            n = A.axdim(z.axes[x])
        ns.append(n)
        out[x] = A.mkaxis(SV('i', n))
    # the spectrum must have the shape of a spectrum of an array of size s
    for j, x in enumerate(axes):
        want = T.idiv(ns[j], P(2)) + 1 if real and j == nk - 1 else ns[j]
        got = A.axdim(z.axes[x])
        if got is not want and not eng().valid(T.eq0(got - want)):
            if not eng().decide(T.eq0(got - want)):
                raise Unsupported('inverse transform that changes the size')
    cdt = rnp.result_type(z.dt, rnp.complex64)
    dt = V._realdt(cdt) if real else cdt
    f = z.snap()
    if OPAQUE[0]:
        return _oinv(SArr(z.axes, z.dt, f), axes, ns, out, real, dt)

    def g(idx):
        kb = {x: [T.bvar() for _ in z.axes[x]] for x in axes}
        kidx = tuple(tuple(P(b) for b in kb[k]) if k in kb else idx[k]
                     for k in range(z.ndim))
        kat = [A.lin(kidx[x], z.axes[x]) if z.axes[x] else T.ZERO
               for x in axes]
        kset = frozenset(b for t in kb.values() for b in t)
        v = f(kidx)
        vre, vim = v.poly(), v.im if v.k == 'c' else T.ZERO
        dre, rre = _decomp(vre, nk, kat, kset)
        dim, rim = _decomp(vim, nk, kat, kset)
        xs = [A.lin(idx[x], out[x]) if out[x] else T.ZERO for x in axes]
        re, im = T.ZERO, T.ZERO
        for key in set(dre) | set(dim):
            a, mb = dre.get(key, (T.ZERO, T.ZERO))
            b, a2 = dim.get(key, (T.ZERO, T.ZERO))
            bvs, rng, body, bx, bn = key
            ok = a is a2 and mb is -b and not (real and b.t) and \
                all(p is q or eng().valid(T.eq0(p - q))
                    for p, q in zip(bn, ns))
            mp = {}
            if ok:
                for q, val in zip(bx, xs):
                    at = q.single_atom()
                    if at is None or at not in bvs:
                        if q.t:
                            ok = False
                        continue
                    mp[at] = val
                if len(mp) != len(bvs):
                    ok = False
            if ok:
                val = T.subst(body, mp)
                re = re + a * val
                im = im + b * val
            else:
                # keep it in the remainder
                full = T._mkpoly
                for part, kk in (('c', 0), ('s', 1)):
                    ker = _ker(part, kat, bx, bn)
                    sm = T.big_sum([(x, lo, hi) for x, (lo, hi) in
                                    zip(bvs, rng)], body * ker)
                    rre = rre + dre.get(key, (T.ZERO, T.ZERO))[kk] * sm
                    rim = rim + dim.get(key, (T.ZERO, T.ZERO))[kk] * sm
        if rre.t or rim.t:
            rng = []
            for x in axes:
                for b, d in zip(kb[x], z.axes[x]):
                    rng.append((b, T.ZERO, d))
            nm = 'IRDFT' if real else 'IDFT'
            kc = T.leaf('%s%d.c' % (nm, nk), xs + kat + ns, 'R')
            ks = T.leaf('%s%d.s' % (nm, nk), xs + kat + ns, 'R')
            if real:
                re = re + T.big_sum(rng, rre * kc) - T.big_sum(rng, rim * ks)
            else:
                re = re + T.big_sum(rng, rre * kc) - T.big_sum(rng, rim * ks)
                im = im + T.big_sum(rng, rre * ks) + T.big_sum(rng, rim * kc)
        if real:
            return SV('f', re, None, dt)
        return SV('c', re, im, dt)
    return SArr(tuple(out), dt, g)


# In opaque mode (contracts with fft='opaque') the transform of each monomial
# of the argument that depends on the transformed index is one function
# symbol per (normal form of the) monomial.  Linearity and congruence are kept
# by construction, and the round trips ifftn(fftn(x)) = x,
# irfftn(rfftn(x), n) = x and fftn(ifftn(z)) = z are normalisation rules.

OPAQUE = [False]
_OTAB = {}        # key -> id
_OINV = []        # id -> (kind, body, reserved transform vars, other vars)


def opaque_reset():
    _OTAB.clear()
    del _OINV[:]


def _rvar(j, c, t):
    return T.var('fft%s%d_%d' % (t, j, c), 'I')


def _obody(z, axes):
    """Element of z at the reserved indices: (value, transformed linear
    indices, transformed atoms, other components [(axis, comp, atom)])."""
    idx, xat, oth, gs = [], [], [], []
    for k, f in enumerate(z.axes):
        t = []
        for c, d in enumerate(f):
            v = _rvar(axes.index(k), c, 'x') if k in axes else \
                _rvar(k, c, 'o')
            t.append(v)
            gs += [T.le0(-v), T.lt0(v - d)]
            if k in axes:
                xat.append(v.single_atom())
            else:
                oth.append((k, c, v.single_atom()))
        idx.append(tuple(t))
    with A.guard(T.c_and(*gs) if gs else T.TRUE()):
        v = z.snap()(tuple(idx))
    lx = [A.lin(idx[x], z.axes[x]) if z.axes[x] else T.ZERO for x in axes]
    return v, lx, xat, oth


def _omono(p, xset):
    """[(coefficient poly, dependent monomial poly)]"""
    out = []
    for m, c in p.t.items():
        dep, ind = T.ONE, P(c)
        for i, e in m:
            a = ATOMS[i]
            if _dep(a, xset):
                dep = dep * P(a) ** e
            else:
                ind = ind * P(a) ** e
        out.append((ind, dep))
    return out


def _dep(a, xset):
    if a in xset:
        return True
    for x in T._children(a.args):
        if _depx(x, xset):
            return True
    return False


def _depx(x, xset):
    if isinstance(x, T.Poly):
        return any(_dep(ATOMS[i], xset) for i in x.atoms())
    if hasattr(x, 'args'):
        return any(_depx(y, xset) for y in T._children(x.args))
    return False


def _okey(x):
    a = ATOMS[x[0]]
    return (a.kind, a.args[0] if a.kind in ('leaf', 'fn') else '', x[0])


class _Abstract(object):
    """Replace the index arguments of the leaves of a term that do not depend
    on the transformed index by parameters, so that the term is a canonical
    name of a family of functions of the transformed index."""

    def __init__(self, xset, oats):
        self.xset, self.oats = xset, oats
        self.par, self.val = {}, []

    def param(self, q):
        if q.key not in self.par:
            self.par[q.key] = T.var('ftp%d' % len(self.val), 'I')
            self.val.append(q)
        return self.par[q.key]

    def poly(self, p, bound):
        # in an order that does not depend on when the terms were created,
        # as far as names tell them apart
        rs = []
        for m, c in sorted(((sorted(m, key=_okey), c) for m, c in
                            p.t.items()), key=lambda mc: [
                                (_okey(x), x[1]) for x in mc[0]]):
            q = P(c)
            for i, e in m:
                q = q * self.atom(ATOMS[i], bound) ** e
            rs.append(q)
        return T.addall(rs)

    def arg(self, q, bound):
        if not (_depx(q, self.xset) or (bound and _depx(q, bound))):
            return self.param(q)
        return self.poly(q, bound)

    def atom(self, a, bound):
        if a in self.oats:
            return self.param(P(a))
        kd = a.kind
        s = lambda x: self.poly(x, bound)
        if kd == 'leaf':
            if not a.args[1]:
                return P(a)
            return T.leaf(a.args[0], [self.arg(x, bound)
                                      for x in a.args[1]], a.sort)
        if kd == 'inv':
            return T.inv(s(a.args[0]))
        if kd == 'sqrt':
            return T.sqrt(s(a.args[0]))
        if kd == 'abs':
            return T.absv(s(a.args[0]))
        if kd == 'idiv':
            return T.idiv(s(a.args[0]), s(a.args[1]))
        if kd == 'imod':
            return T.imod(s(a.args[0]), s(a.args[1]))
        if kd == 'fn':
            return T.fn(a.args[0], [s(x) for x in a.args[1:]], a.sort)
        if kd == 'sum':
            rng, bvs, body = a.args
            fr = [T.bvar() for _ in bvs]
            body = T.subst(body, {b: P(f) for b, f in zip(bvs, fr)})
            body = self.poly(body, bound | set(fr))
            return T.big_sum([(f, s(lo), s(hi)) for f, (lo, hi)
                              in zip(fr, rng)], body)
        # indicators, reductions: only the indices themselves
        mp = {o: self.param(P(o)) for o in self.oats
              if _depx(P(a), {o})}
        return T.subst(P(a), mp) if mp else P(a)


def _oleaf(kind, dep, ns, dims, lx, oth):
    """(id, values of the parameters)"""
    xset = set(x.single_atom() for x in lx if x.single_atom() is not None)
    for x in lx:
        xset |= set(ATOMS[i] for i in x.atoms())
    ab = _Abstract(xset, [o[2] for o in oth])
    dep = ab.poly(dep, frozenset())
    key = (kind, len(lx), tuple(n.key for n in ns),
           tuple(d.key for d in dims), dep.key, tuple(x.key for x in lx))
    if key not in _OTAB:
        _OTAB[key] = len(_OINV)
        _OINV.append(dict(kind=kind, dep=dep, ns=list(ns), lx=list(lx),
                          dims=list(dims), par=[
                              ab.par[q.key].single_atom() for q in ab.val]))
    return _OTAB[key], tuple(ab.val)


def _omk(i, part, ks, mp):
    i, val = i
    args = list(ks) + [T.subst(v, mp) for v in val]
    return T.leaf('%s#%d.%s' % (_OINV[i]['kind'], i, part), args, 'R')


def _ohit(dep, kinds, parts, lx):
    """dep is exactly one leaf of one of the kinds at frequency/position lx:
    (id, part, other args)."""
    a = dep.single_atom()
    if a is None or a.kind != 'leaf' or '#' not in a.args[0]:
        return None
    nm, part = a.args[0].split('.')
    kd, i = nm.split('#')
    if kd not in kinds or part not in parts:
        return None
    n = len(lx)
    ix = a.args[1]
    if len(_OINV[int(i)]['lx']) != n or \
            any(ix[j] is not lx[j] for j in range(n)):
        return None
    return int(i), part, ix[n:]


def _oinst(i, xs, others):
    """The argument of transform i at the linear position xs."""
    r = _OINV[i]
    mp = {}
    for q, v in zip(r['lx'], xs):
        at = q.single_atom()
        if at is None:
            if q.t:
                return None
            continue
        mp[at] = v
    for at, v in zip(r['par'], others):
        mp[at] = v
    return T.subst(r['dep'], mp)


def _same(p, q):
    return p is q or eng().valid(T.eq0(p - q))


def _ofwd(a, axes, real):
    ns = [A.axdim(a.axes[x]) for x in axes]
    out = list(a.axes)
    for x in axes:
        out[x] = A.mkaxis(SV('i', A.axdim(a.axes[x])))
    if real:
        l = axes[-1]
        out[l] = A.mkaxis(SV('i', T.idiv(ns[-1], P(2)) + 1))
    dt = rnp.result_type(a.dt, rnp.complex64)
    memo = []

    def build():
        v, lx, xat, oth = _obody(a, axes)
        xset = set(xat)
        dims = [d for x in axes for d in a.axes[x]]
        res = []      # (coef, id, part of input: 're'/'im', rule)
        for pt, p in (('re', v.poly() if v.k != 'c' else v.re),
                      ('im', v.im if v.k == 'c' else T.ZERO)):
            for co, dep in _omono(p, xset):
                h = _ohit(dep, ('IF',), ('re',), lx)
                rule = None
                if h is not None:
                    r = _OINV[h[0]]
                    if all(_same(p_, q_) for p_, q_ in zip(r['ns'], ns)):
                        # dep = Re ifft(Z): its imaginary companion
                        comp = T.leaf('IF#%d.im' % h[0], list(lx) +
                                      list(h[2]), 'R')
                        j = _oleaf('F', comp, ns, dims, lx, oth)
                        rule = (h[0], h[2], j)
                i = None if rule else _oleaf('F', dep, ns, dims, lx, oth)
                res.append((co, i, pt, rule))
        oat = {(k, c): at for k, c, at in oth}
        return res, oat

    def g(idx):
        if not memo:
            memo.append(build())
        res, oat = memo[0]
        ks = [A.lin(idx[x], out[x]) if out[x] else T.ZERO for x in axes]
        mp = {at: idx[k][c] for (k, c), at in oat.items()}
        re, im = T.ZERO, T.ZERO
        for co, i, pt, rule in res:
            co = T.subst(co, mp)
            if rule:
                src, others, j = rule
                z = _oinst(src, ks, [T.subst(o, mp) for o in others])
                fr = z + _omk(j, 'im', ks, mp)
                fi = -_omk(j, 're', ks, mp)
            else:
                fr, fi = _omk(i, 're', ks, mp), _omk(i, 'im', ks, mp)
            if pt == 're':
                re, im = re + co * fr, im + co * fi
            else:
                re, im = re - co * fi, im + co * fr
        return SV('c', re, im, dt)
    return SArr(tuple(out), dt, g)


def _oinv(z, axes, ns, out, real, dt):
    memo = []

    def build():
        v, lx, xat, oth = _obody(z, axes)
        xset = set(xat)
        dims = [d for x in axes for d in z.axes[x]]
        kd = 'IRF' if real else 'IF'
        res = []
        for pt, p in (('re', v.poly() if v.k != 'c' else v.re),
                      ('im', v.im if v.k == 'c' else T.ZERO)):
            for co, dep in _omono(p, xset):
                h = _ohit(dep, ('F',), ('re',), lx)
                rule = None
                if h is not None:
                    r = _OINV[h[0]]
                    if all(_same(p_, q_) for p_, q_ in zip(r['ns'], ns)):
                        comp = T.leaf('F#%d.im' % h[0], list(lx) +
                                      list(h[2]), 'R')
                        kk = kd if not real else kd + 's'
                        j = _oleaf(kk, comp, ns, dims, lx, oth)
                        rule = (h[0], h[2], j)
                kk = kd if not real else kd + ('c' if pt == 're' else 's')
                i = None
                if not (rule and (pt == 're' or not real)):
                    rule = None
                    i = _oleaf(kk, dep, ns, dims, lx, oth)
                res.append((co, i, pt, rule))
        return res, {(k, c): at for k, c, at in oth}

    def g(idx):
        if not memo:
            memo.append(build())
        res, oat = memo[0]
        xs = [A.lin(idx[x], out[x]) if out[x] else T.ZERO for x in axes]
        mp = {at: idx[k][c] for (k, c), at in oat.items()}
        re, im = T.ZERO, T.ZERO
        for co, i, pt, rule in res:
            co = T.subst(co, mp)
            if rule:
                src, others, j = rule
                x = _oinst(src, xs, [T.subst(o, mp) for o in others])
                if real:
                    re = re + co * (x - _omk(j, 're', xs, mp))
                    continue
                fr = x + _omk(j, 'im', xs, mp)
                fi = -_omk(j, 're', xs, mp)
            elif real:
                re = re + co * _omk(i, 're', xs, mp)
                continue
            else:
                fr, fi = _omk(i, 're', xs, mp), _omk(i, 'im', xs, mp)
            if pt == 're':
                re, im = re + co * fr, im + co * fi
            else:
                re, im = re - co * fi, im + co * fr
        if real:
            return SV('f', re, None, dt)
        return SV('c', re, im, dt)
    return SArr(tuple(out), dt, g)


def _mkfft(kind):
    def f(a, s=None, axes=None, norm=None, **kw):
        if not (deep_sym(a) or deep_sym(s)):
            import pyfftw
            return getattr(pyfftw.interfaces.numpy_fft, kind)(
                a, s=to_real(s), axes=axes)
        trust('pyfftw.%s' % kind)
        if norm is not None:
            raise Unsupported('fft norm')
        a = lift(a)
        axes, s = _fft_axes(a, s, axes)
        if kind in ('fftn', 'rfftn'):
            if kind == 'rfftn' and a.dt.kind == 'c':
                raise TypeError('rfftn requires real input')
            return _fwd(_resize(a, axes, s), axes, kind == 'rfftn')
        if kind == 'ifftn':
            if s is not None:
                a = _resize(a, axes, s)
            return _inv(a, axes, s, False)
        return _inv(a, axes, s, True)
    f.__name__ = kind
    return f


FFT = {k: _mkfft(k) for k in ('fftn', 'ifftn', 'rfftn', 'irfftn')}


def _empty_aligned(shape, dtype='float64', order='C', n=None):
    return snp._empty(shape, dtype)


def _byte_align(a, n=None, dtype=None):
    if not is_sym(a):
        return a if dtype is None else a.astype(to_real(dtype))
    return a if dtype is None else a.astype(dtype)


_cache = Lazy('pyfftw.interfaces.cache', enable=lambda *a: None,
              set_keepalive_time=lambda *a: None)
_npfft = Lazy('pyfftw.interfaces.numpy_fft', **FFT)
pyfftw = Lazy('pyfftw', interfaces=Lazy('pyfftw.interfaces', cache=_cache,
                                        numpy_fft=_npfft),
              empty_aligned=_empty_aligned, byte_align=_byte_align)


# ---- numexpr -------------------------------------------------------------------

def _ne_evaluate(expr, local_dict=None, global_dict=None, **kw):
    fr = sys._getframe(1)
    loc = dict(local_dict) if local_dict is not None else dict(fr.f_locals)
    glo = global_dict if global_dict is not None else fr.f_globals
    trust('numexpr.evaluate')

    def _abs(x):
        r = snumpy.abs(x)
        # numexpr returns a complex result for complex input
        if is_sym(x) and lift(x).dt.kind == 'c':
            return lift(r).astype(lift(x).dt)
        return r
    env = dict(where=snumpy.where, abs=_abs, sqrt=snumpy.sqrt,
               exp=snumpy.exp, log=snumpy.log,
               conj=snumpy.conj, real=snumpy.real, imag=snumpy.imag)
    code = compile(expr.strip(), '<numexpr>', 'eval')
    for n in code.co_names:
        if n not in env:
            if n in loc:
                env[n] = loc[n]
            elif n in glo:
                env[n] = glo[n]
            else:
                raise KeyError(n)
    for n in env:
        if isinstance(env[n], rnp.ndarray) and n in code.co_names:
            env[n] = lift(env[n])
    r = eval(code, {'__builtins__': {}}, env)
    if isinstance(r, (bool, int, float, complex, SV)):
        r = lift(r)
    return r


numexpr = Lazy('numexpr', evaluate=_ne_evaluate)


# ---- scipy ---------------------------------------------------------------------

class Factor(object):
    """Opaque factorisation of a matrix."""
    _is_factor = True

    def __init__(self, M, kind):
        self.M = M
        self.kind = kind
        self.shape = M.shape

    def __deepcopy__(self, m):
        return self


class Piv(object):
    def __init__(self, f):
        self.f = f

    def __deepcopy__(self, m):
        return self


def solve_system(M, b, what):
    """x with M x = b (M nonsingular): fresh x plus the hypothesis."""
    M, b = lift(M), lift(b)
    e = eng()
    dt = rnp.result_type(M.dt, b.dt)
    nm = T.fresh_name('sol')
    axes = (M.axes[1],) + b.axes[1:]
    if A.axdim(M.axes[0]) is not A.axdim(b.axes[0]) and not e.decide(
            T.eq0(A.axdim(M.axes[0]) - A.axdim(b.axes[0]))):
        raise ValueError('incompatible dimensions')
    x = snp.sym_leaf(nm, axes, dt)
    mf, bf = M.snap(), b.snap()

    def resid(idx):
        """Residual (M x - b)[idx] -> SV, known to be zero."""
        bv = [(T.bvar(), T.ZERO, d) for d in M.axes[1]]
        j = tuple(P(t[0]) for t in bv)
        v = V.f_mul(mf((idx[0], j)), x.elt((j,) + tuple(idx[1:])))
        re = T.big_sum(bv, v.poly())
        im = T.big_sum(bv, v.im) if v.k == 'c' else T.ZERO
        bb = bf(idx)
        return re - bb.poly(), im - (bb.im if bb.k == 'c' else T.ZERO)
    e.hyps.append(dict(name=nm, axes=axes, resid=resid, what=what))
    return x


def _lu_factor(a, overwrite_a=False, check_finite=True):
    if not is_sym(a):
        import scipy.linalg
        return scipy.linalg.lu_factor(a)
    trust('scipy.linalg.lu_factor/lu_solve')
    f = Factor(lift(a), 'lu')
    return f, Piv(f)


def _lu_solve(lu_piv, b, trans=0, overwrite_b=False, check_finite=True):
    lu, piv = lu_piv
    if not isinstance(lu, Factor):
        if is_sym(b):
            raise Unsupported('lu_solve')
        import scipy.linalg
        return scipy.linalg.lu_solve(lu_piv, b, trans=trans)
    if piv.f is not lu:
        raise Unsupported('mismatched lu and piv')
    M = lu.M
    if trans == 1:
        M = M.T
    elif trans == 2:
        M = elementwise(V.f_conj, M).T
    return solve_system(M, b, 'lu_solve')


def _cho_factor(a, lower=False, overwrite_a=False, check_finite=True):
    if not is_sym(a):
        import scipy.linalg
        return scipy.linalg.cho_factor(a, lower=lower)
    trust('scipy.linalg.cho_factor/cho_solve')
    return Factor(lift(a), 'cho' + ('l' if lower else 'u')), lower


def _cho_solve(c_lower, b, overwrite_b=False, check_finite=True):
    c, lower = c_lower
    if not isinstance(c, Factor):
        if is_sym(b):
            raise Unsupported('cho_solve')
        import scipy.linalg
        return scipy.linalg.cho_solve(c_lower, b)
    if c.kind != 'cho' + ('l' if lower else 'u'):
        raise Unsupported('cho_solve with the wrong triangle')
    # precondition of cho_factor: the matrix is symmetric
    return solve_system(c.M, b, 'cho_solve')


class LinearOperator(object):
    def __init__(self, shape, matvec=None, rmatvec=None, dtype=None):
        self.shape = shape
        self.matvec = matvec
        self.rmatvec = rmatvec
        self.dtype = dtype


def _cg(Aop, b, x0=None, rtol=1e-5, atol=0., maxiter=None, M=None,
        callback=None, tol=None):
    if not isinstance(Aop, LinearOperator):
        raise Unsupported('cg')
    trust('scipy.sparse.linalg.cg (exact solve assumed)')
    e = eng()
    b = lift(b)
    nm = T.fresh_name('cg')
    x = snp.sym_leaf(nm, b.axes, b.dt)
    r = lift(Aop.matvec(x))
    rf, bf = r.snap(), b.snap()

    def resid(idx):
        a, c = rf(idx), bf(idx)
        return (a.poly() - c.poly(), (a.im if a.k == 'c' else T.ZERO) -
                (c.im if c.k == 'c' else T.ZERO))
    e.hyps.append(dict(name=nm, axes=b.axes, resid=resid, what='cg'))
    return x, 0


def _brentq(f, a, b, **kw):
    if not (deep_sym(a) or deep_sym(b)):
        try:
            import scipy.optimize
            return scipy.optimize.brentq(f, a, b, **kw)
        except (TypeError, Unsupported):
            pass
    trust('scipy.optimize.brentq (exact root assumed)')
    e = eng()
    fa, fb = to_sv(f(a)), to_sv(f(b))
    # brentq raises unless the signs differ
    ok = T.le0(fa.poly() * fb.poly())
    e.prove('precondition of brentq: the end points bracket a root', ok)
    e.assume(ok)
    r = SV('f', T.var(T.fresh_name('root'), 'R'))
    fr = to_sv(f(r))
    e.assume(T.eq0(fr.poly()))
    lo, hi = to_sv(a).poly(), to_sv(b).poly()
    e.assume(T.le0(lo - r.re))
    e.assume(T.le0(r.re - hi))
    e.root = r
    return r


# ---- DCT and SVD ---------------------------------------------------------------
#
# Opaque linear transforms: one function symbol per normal form of each
# monomial of the argument; dct (type 2, ortho) and idct (type 2, ortho) along
# the same axis are mutually inverse.

def _mkdct(kind):
    def f(x, type=2, n=None, axis=-1, norm=None, overwrite_x=False):
        if not deep_sym(x):
            import scipy.fftpack
            return getattr(scipy.fftpack, kind)(
                to_real(x), type=type, n=n, axis=axis, norm=norm)
        trust('scipy.fftpack.%s' % kind)
        if n is not None:
            raise Unsupported('dct length')
        a = lift(x)
        axis = int(axis) % a.ndim if -a.ndim <= axis < a.ndim else \
            _axerr(axis, a.ndim)
        a = SArr(a.axes, a.dt, a.snap())
        nm = '%s_%s_%s' % (kind.upper(), type, norm)
        inv = {'dct': 'IDCT', 'idct': 'DCT'}[kind] + '_%s_%s' % (type, norm)
        ok = type == 2 and norm == 'ortho'
        nx = [A.axdim(a.axes[axis])]
        out = list(a.axes)
        out[axis] = A.mkaxis(SV('i', nx[0]))
        axes = [axis]
        dt = rnp.result_type(a.dt, rnp.float32)
        memo = []

        def build():
            v, lx, xat, oth = _obody(a, axes)
            xset = set(xat)
            dims = list(a.axes[axis])
            res = []
            for pt, p in (('re', v.poly() if v.k != 'c' else v.re),
                          ('im', v.im if v.k == 'c' else T.ZERO)):
                for co, dep in _omono(p, xset):
                    h = _ohit(dep, (inv,), ('re',), lx) if ok else None
                    if h is not None and _same(_OINV[h[0]]['ns'][0], nx[0]):
                        res.append((co, None, pt, (h[0], h[2])))
                    else:
                        res.append((co, _oleaf(nm, dep, nx, dims, lx, oth),
                                    pt, None))
            return res, {(k, c): at for k, c, at in oth}

        def g(idx):
            if not memo:
                memo.append(build())
            res, oat = memo[0]
            ks = [A.lin(idx[axis], out[axis]) if out[axis] else T.ZERO]
            mp = {at: idx[k][c] for (k, c), at in oat.items()}
            part = {'re': [], 'im': []}
            for co, i, pt, rule in res:
                co = T.subst(co, mp)
                if rule:
                    z = _oinst(rule[0], ks, [T.subst(o, mp)
                                             for o in rule[1]])
                else:
                    z = _omk(i, 're', ks, mp)
                part[pt].append(co * z)
            if a.dt.kind == 'c':
                return SV('c', T.addall(part['re']), T.addall(part['im']),
                          dt)
            return SV('f', T.addall(part['re']), None, dt)
        return SArr(tuple(out), dt, g)
    f.__name__ = kind
    return f


DCT = {k: _mkdct(k) for k in ('dct', 'idct')}


_SVD = {}


@snp.impl('linalg.svd')
def _svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    """Opaque factors, functions of the matrix; s >= 0."""
    a = lift(a)
    if a.ndim != 2 or a.dt.kind == 'c':
        raise Unsupported('svd')
    if compute_uv and full_matrices:
        raise Unsupported('full svd')
    m, n = A.axdim(a.axes[0]), A.axdim(a.axes[1])
    k = snumpy.minimum(SV('i', m), SV('i', n))
    k = k.item() if getattr(k, '_is_sarr', False) else k
    v, _, _, _ = _obody(a, [])
    key = (m.key, n.key, v.poly().key)
    i = _SVD.setdefault(key, len(_SVD))
    kx = A.mkaxis(k)
    dt = a.dt

    def leaf(nm, *ix):
        return SV('f', T.leaf('SVD%s#%d.re' % (nm, i), list(ix), 'R'), None,
                  dt)

    def sv(idx):
        r = T.leaf('SVDs#%d.re' % i, [A.lin(idx[0], kx)], 'R')
        eng().axioms.append(T.le0(-r)) if not r.fv else None
        return SV('f', r, None, dt)
    s = SArr((kx,), dt, sv)
    if not compute_uv:
        return s
    U = SArr((a.axes[0], kx), dt, lambda ix: leaf(
        'u', A.lin(ix[0], a.axes[0]) if a.axes[0] else T.ZERO,
        A.lin(ix[1], kx)))
    Vt = SArr((kx, a.axes[1]), dt, lambda ix: leaf(
        'v', A.lin(ix[0], kx),
        A.lin(ix[1], a.axes[1]) if a.axes[1] else T.ZERO))
    return U, s, Vt


scipy = Lazy(
    'scipy',
    fftpack=Lazy('scipy.fftpack', dct=DCT['dct'], idct=DCT['idct']),
    linalg=Lazy('scipy.linalg', lu_factor=_lu_factor, lu_solve=_lu_solve,
                cho_factor=_cho_factor, cho_solve=_cho_solve),
    sparse=Lazy('scipy.sparse', linalg=Lazy(
        'scipy.sparse.linalg', LinearOperator=LinearOperator, cg=_cg)),
    optimize=Lazy('scipy.optimize', brentq=_brentq))

MODULES = {'numpy': snumpy, 'scipy': scipy, 'numexpr': numexpr,
           'pyfftw': pyfftw}
