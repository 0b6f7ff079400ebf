"""C03: structured (frequency domain) linear solvers."""
from pyvc.framework import contract

L = 'sporco.linalg.'


def _ash(w, kind):
    """Shapes of ah and b for the single rank-one systems: (ah, b, axis)."""
    if kind == 'cbpdn':       # N0 N1 C K M
        n = [w.dim('n%d' % i) for i in range(2)]
        C, K, M = w.dim('C'), w.dim('K'), w.dim('M')
        return n + [C, 1, M], n + [C, K, M], 4
    if kind == 'single':
        n = [w.dim('n%d' % i) for i in range(2)]
        K, M = w.dim('K'), w.dim('M')
        return n + [1, 1, M], n + [1, K, M], 4
    if kind == 'axis3':       # sum over the signal axis
        n = [w.dim('n%d' % i) for i in range(2)]
        K, M = w.dim('K'), w.dim('M')
        return n + [1, K, M], n + [1, K, M], 3
    if kind == 'one':
        n = [w.dim('n0')]
        M = w.dim('M')
        return n + [M], n + [M], 1
    if kind == 'first':
        n = [w.dim('n0')]
        M = w.dim('M')
        return [M] + n, [M] + n, 0
    if kind == 'neg':
        n = [w.dim('n0')]
        M = w.dim('M')
        return n + [1, 1, M], n + [1, 1, M], -1
    raise KeyError(kind)


_KIND = [(k, c) for k in ('cbpdn', 'single', 'axis3', 'one', 'first', 'neg')
         for c in ('none', 'cached')]


def _ip(np, a, x, axis):
    return np.sum(a * x, axis=axis, keepdims=True)


@contract('C03', [L + 'solvedbi_sm', L + 'solvedbi_sm_c', L + 'inner'],
          cases=_KIND)
def solvedbi_sm(w, case):
    """(rho I + a a^H) x = b, with and without the cached vector."""
    kind, cache = case
    np = w.np
    sa, sb, ax = _ash(w, kind)
    ah = w.arr('ah', sa, 'c')
    b = w.arr('b', sb, 'c')
    rho = w.real('rho', pos=True)
    ah0, b0 = w.keep(ah), w.keep(b)
    c = None
    if cache == 'cached':
        c = w.fn(L + 'solvedbi_sm_c')(ah, np.conj(ah), rho, ax)
    x = w.fn(L + 'solvedbi_sm')(ah, rho, b, c, axis=ax)
    w.same_shape('solution has the shape of b', x, b)
    w.eq('(rho I + a a^H) x = b',
         rho * x + np.conj(ah) * _ip(np, ah, x, ax), b, tol=1e-6)
    w.finite('solution is defined', x)
    w.unchanged('ah not modified', ah, ah0)
    w.unchanged('b not modified', b, b0)


@contract('C03', [L + 'solvedbd_sm', L + 'solvedbd_sm_c', L + 'inner'],
          cases=_KIND)
def solvedbd_sm(w, case):
    """(diag(d) + a a^H) x = b."""
    kind, cache = case
    np = w.np
    sa, sb, ax = _ash(w, kind)
    ah = w.arr('ah', sa, 'c')
    b = w.arr('b', sb, 'c')
    d = w.arr('d', sa, pos=True)
    b0 = w.keep(b)
    c = None
    if cache == 'cached':
        c = w.fn(L + 'solvedbd_sm_c')(ah, np.conj(ah), d, ax)
    x = w.fn(L + 'solvedbd_sm')(ah, d, b, c, axis=ax)
    w.same_shape('solution has the shape of b', x, b)
    w.eq('(diag(d) + a a^H) x = b',
         d * x + np.conj(ah) * _ip(np, ah, x, ax), b, tol=1e-6)
    w.finite('solution is defined', x)
    w.unchanged('b not modified', b, b0)


def _md(w, K, C=1):
    n = [w.dim('n%d' % i) for i in range(2)]
    M = w.dim('M')
    ah = w.arr('ah', n + [1, K, M], 'c')
    b = w.arr('b', n + [C, 1, M], 'c')
    return ah, b


def _mdres(w, np, ah, x, rho, b):
    s = _ip(np, ah, x, 4)
    w.eq('(rho I + sum_k a_k a_k^H) x = b',
         rho * x + np.sum(np.conj(ah) * s, axis=3, keepdims=True), b,
         tol=1e-5)


@contract('C03', [L + 'solvemdbi_ism', L + 'inner'],
          cases=[(K, C, neg) for K in (1, 2) for C in (1, 2)
                 for neg in (0, 1)])
def solvemdbi_ism(w, case):
    K, C, neg = case
    np = w.np
    ah, b = _md(w, K, C)
    rho = w.real('rho', pos=True)
    ah0, b0 = w.keep(ah), w.keep(b)
    w.pivots_nonzero('1 + a^H R^-1 a > 0 for R = rho I + sum of rank one '
                     'terms, rho > 0')
    x = w.fn(L + 'solvemdbi_ism')(ah, rho, b, 4 - 5 * neg, 3 - 5 * neg)
    w.same_shape('solution has the shape of b', x, b)
    _mdres(w, np, ah, x, rho, b)
    w.unchanged('ah not modified', ah, ah0)
    w.unchanged('b not modified', b, b0)


@contract('C03', [L + 'solvemdbi_ism', L + 'inner'],
          cases=[(K, m) for K in (1, 2) for m in ('M', 1)], budget=200)
def solvemdbi_ism_diag(w, case):
    """With an array of diagonal elements, as used by the convolutional
    solvers with gradient terms."""
    K, m = case
    np = w.np
    ah, b = _md(w, K)
    sh = [ah.shape[0], ah.shape[1], 1, 1, ah.shape[4] if m == 'M' else 1]
    rho = w.arr('rho', sh, pos=True)
    if not w.sym:
        rho = rho + 0.1
    rho0 = w.keep(rho)
    w.pivots_nonzero('1 + a^H R^-1 a > 0 for R positive diagonal + sum of '
                     'rank one terms')
    x = w.fn(L + 'solvemdbi_ism')(ah, rho, b, 4, 3)
    w.same_shape('solution has the shape of b', x, b)
    _mdres(w, np, ah, x, rho, b)
    w.unchanged('rho not modified', rho, rho0)


@contract('C03', [L + 'solvemdbi_rsm', L + 'inner'], cases=[1, 2],
          budget=60)
def solvemdbi_rsm(w, case):
    np = w.np
    ah, b = _md(w, case)
    rho = w.real('rho', pos=True)
    w.pivots_nonzero('1 + a^H R^-1 a > 0 for R = rho I + sum of rank one '
                     'terms, rho > 0')
    x = w.fn(L + 'solvemdbi_rsm')(ah, rho, b, 3)
    w.same_shape('solution has the shape of b', x, b)
    _mdres(w, np, ah, x, rho, b)


@contract('C03', [L + 'solvemdbi_cg', L + 'inner'], cases=['sym'])
def solvemdbi_cg(w, case):
    """The operator handed to conjugate gradients is rho I + sum a_k a_k^H
    (cg itself is assumed to solve the system it is given)."""
    np = w.np
    n = [w.dim('n%d' % i) for i in range(2)]
    M, K = w.dim('M'), w.dim('K')
    ah = w.arr('ah', n + [1, K, M], 'c')
    b = w.arr('b', n + [1, 1, M], 'c')
    rho = w.real('rho', lo=0.5, hi=3.0)
    x, info = w.fn(L + 'solvemdbi_cg')(ah, rho, b, 4, 3, tol=1e-10)
    w.same_shape('solution has the shape of b', x, b)
    s = _ip(np, ah, x, 4)
    w.eq('(rho I + sum_k a_k a_k^H) x = b',
         rho * x + np.sum(np.conj(ah) * s, axis=3, keepdims=True), b,
         tol=1e-4)


@contract('C03', [L + 'inner'],
          cases=[(nd, ax, k) for nd in (1, 2, 3) for ax in range(-nd, nd)
                 for k in ('f', 'c')])
def inner(w, case):
    nd, ax, kind = case
    np = w.np
    dims = [w.dim('n%d' % i) for i in range(nd)]
    x = w.arr('x', dims, kind)
    y = w.arr('y', dims, kind)
    r = w.fn(L + 'inner')(x, y, axis=ax)
    w.eq('sum of products along the axis', r, _ip(np, x, y, ax))


@contract('C03', [L + 'dot'],
          cases=[(2, -2), (2, 0), (3, 0), (3, 1), (3, -2), (4, 1)])
def dot(w, case):
    """dot(a, b): a applied to b along the given axis."""
    nd, ax = case
    np = w.np
    dims = [w.dim('n%d' % i) for i in range(nd)]
    p = w.dim('p')
    k = ax % nd
    a = w.arr('a', (p, dims[k]))
    b = w.arr('b', dims)
    r = w.fn(L + 'dot')(a, b, axis=ax)
    i = w.gindex(p)
    # slice i of the result is the combination of slices of b with weights
    # a[i]
    sh = [1] * nd
    sh[k] = dims[k]
    ref = np.sum(a[i].reshape(sh) * b, axis=k)
    w.true('leading dimension', r.shape[k] == p)
    w.eq('row i of a applied to b', r[(slice(None),) * k + (i,)], ref)


@contract('C03', [L + 'block_circulant'], cases=[1, 2, 3])
def block_circulant(w, case):
    np = w.np
    r, c = w.dim('r'), w.dim('c')
    A = [w.arr('A%d' % k, (r, c)) for k in range(case)]
    B = w.fn(L + 'block_circulant')(A)
    w.true('rows', B.shape[0] == case * r)
    w.true('columns', B.shape[1] == case * c)
    for p in range(case):
        for q in range(case):
            w.eq('block %d,%d' % (p, q),
                 B[p * r:(p + 1) * r, q * c:(q + 1) * c],
                 A[(p - q) % case])


@contract('C03', [L + 'solvemdbi_ism', L + 'solvemdbi_rsm'],
          cases=[3, 4, 5], bounded_only='more than two rank-one terms: the '
          'rational normal form is too large', trials=10)
def solvemdbi_many(w, case):
    np = w.np
    ah, b = _md(w, case)
    rho = w.real('rho', lo=0.3, hi=3.0)
    _mdres(w, np, ah, w.fn(L + 'solvemdbi_ism')(ah, rho, b, 4, 3), rho, b)
    _mdres(w, np, ah, w.fn(L + 'solvemdbi_rsm')(ah, rho, b, 3), rho, b)
