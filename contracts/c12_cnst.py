"""C12: projection onto the constraint sets of dictionary updates."""
from pyvc.framework import contract
from contracts.callee import spy, spied

CR = 'sporco.cnvrep.'
_F = [CR + n for n in ('getPcn', '_Pcn', '_Pcn_zm', '_Pcn_crp', '_Pcn_zm_crp',
                       'bcrop', 'zpad', 'zeromean', 'normalise')]

# (dimN, dimC, multi, crop, zero mean, kind); multi: 0 one filter size,
# 1 two blocks of filters of different sizes, 2 two blocks of which the
# first has two channel blocks of different sizes
_CS = [(n, c, 0, crp, zm, 'f') for n in (1, 2, 3) for c in (0, 1)
       for crp in (0, 1) for zm in (0, 1)]
_CS += [(2, 1, 0, 0, 1, 'c')]
_CM = [(n, c, m, crp, zm, 'f') for n in (1, 2) for m, c in
       ((1, 0), (1, 1), (2, 1)) for crp in (0, 1) for zm in (0, 1)]


def _blocks(w, dimN, multi, wide):
    """Filter blocks [(first m, end m, first c, end c, support)], the size
    specification and the numbers of channels and filters."""
    def sup(t):
        return tuple(w.dim('h%s%d' % (t, i)) for i in range(dimN))

    M0 = w.dim('M0')
    C = w.dim('C') if wide else 1
    if multi == 0:
        s = sup('a')
        return [(0, M0, 0, C, s)], s + ((C,) if wide else ()) + (M0,), C, M0
    M1 = w.dim('M1')
    sa, sb = sup('a'), sup('b')
    if multi == 1:
        cc = (C,) if wide else ()
        return [(0, M0, 0, C, sa), (M0, M0 + M1, 0, C, sb)], \
            (sa + cc + (M0,), sb + cc + (M1,)), C, M0 + M1
    C0, C1 = w.dim('C0'), w.dim('C1')
    sc = sup('c')
    return [(0, M0, 0, C0, sa), (0, M0, C0, C0 + C1, sc),
            (M0, M0 + M1, 0, C0 + C1, sb)], \
        ((sa + (C0, M0), sc + (C1, M0)), (sb + (C0 + C1, M1),)), \
        C0 + C1, M0 + M1


def _max(w, a, b):
    if not w.sym:
        return max(a, b)
    return a if a >= b else b


def _arg(call, i, name, default):
    v, a, k, r = call
    if i < len(a):
        return a[i]
    return k.get(name, default)


@contract('C12', [CR + 'normalise'], cases=[
    (nd, k, kind) for nd in (1, 2, 3, 4) for k in range(1, nd + 1)
    for kind in 'fc'])
def normalise(w, case):
    """normalise(v, k): v divided by its norm over the first k axes, where
    that is not zero."""
    nd, k, kind = case
    np = w.np
    v = w.arr('v', [w.dim('n%d' % i) for i in range(nd)], kind)
    v0 = w.keep(v)
    d = w.fn(CR + 'normalise')(v, k)
    ax = tuple(range(k))
    n2 = np.sum(np.abs(v0) ** 2, axis=ax, keepdims=True)
    w.same_shape('shape', d, v)
    w.imp('rescaling', n2 > 0, 'eq', np.sqrt(n2) * d, v0)
    w.imp('zero stays zero', n2 == 0, 'eq', np.abs(d), 0)
    w.imp('unit norm', n2 > 0, 'eq',
          np.sum(np.abs(d) ** 2, axis=ax, keepdims=True), 1)
    w.finite('defined', d)
    w.unchanged('argument not modified', v, v0)


@contract('C12', _F, cases=_CS + _CM, fork=True, budget=200,
          modular={CR + 'normalise':
                                               spy('normalise')})
def pcn(w, case):
    """getPcn(...)(x) is the nearest point of the set of unit norm filters
    supported on the leading samples (of each block), of zero mean there if
    requested: a positive rescaling, per filter, of the orthogonal
    projection of x onto the support / zero mean subspace."""
    dimN, wide, multi, crp, zm, kind = case
    np = w.np
    bl, dsz, C, M = _blocks(w, dimN, multi, wide)
    mx = bl[0][4]
    for b in bl[1:]:
        mx = tuple(_max(w, a, c) for a, c in zip(mx, b[4]))
    Nv = tuple(m + w.dim('g%d' % i, lo=0) for i, m in enumerate(mx))
    x = w.arr('x', Nv + (C, 1, M), kind)
    x0 = w.keep(x)
    P = w.fn(CR + 'getPcn')(dsz, Nv, dimN=dimN, dimC=wide, crp=bool(crp),
                            zm=bool(zm))
    calls = spied('normalise')
    d = P(x)
    w.unchanged('argument not modified', x, x0)
    shp = mx if crp else Nv
    w.same_shape('shape', d, x if not crp else np.zeros(mx + (C, 1, M)))
    ax = tuple(range(dimN + wide))
    # orthogonal projection onto the subspace
    p = np.zeros(shp + (C, 1, M), dtype=x.dtype)
    for m0, m1, c0, c1, s in bl:
        sl = tuple(slice(0, k) for k in s) + (slice(c0, c1), slice(None),
                                              slice(m0, m1))
        q = x[sl]
        if zm:
            k = 1
            for n in s:
                k = k * n
            q = q - np.sum(q, axis=tuple(range(dimN)), keepdims=True) / k
        p[sl] = q
    if calls:
        # contract of normalise in place of its body
        c = calls[-1]
        w.eq('normalised array is the projection', c[0], p)
        w.true('norm over the axes of a filter',
               _arg(c, 0, 'dimN', 2) == dimN + wide)
        w.eq('result is the normalised array', d, c[3])
        return
    n2 = np.sum(np.abs(p) ** 2, axis=ax, keepdims=True)
    w.eq('positive multiple of the projection', np.sqrt(n2) * d, p)
    nd = np.sum(np.abs(d) ** 2, axis=ax, keepdims=True)
    w.imp('unit norm', n2 > 0, 'eq', nd, 1)
    w.imp('zero filters stay zero', n2 == 0, 'eq', nd, 0)
    w.finite('defined', d)
