"""C01: proximal operators return the minimiser of their defining problem."""
from pyvc.framework import contract

LP = 'sporco.prox._lp.'


def _dims(w, n, **k):
    return tuple(w.dim('n%d' % i, **k) for i in range(n))


# shape of the threshold: scalar, full array, or one value per group
_L1 = [(kind, nd, al) for kind in 'fc' for nd in (1, 2, 3)
       for al in ('scalar', 'full', 'bcast')]


def _alpha(w, al, dims):
    if al == 'scalar':
        return w.real('alpha', nonneg=True)
    if al == 'full':
        return w.arr('alpha', dims, nonneg=True)
    return w.arr('alpha', (1,) * (len(dims) - 1) + dims[-1:], nonneg=True)


@contract('C01', [LP + 'prox_l1'], cases=_L1)
def prox_l1(w, case):
    kind, nd, al = case
    np = w.np
    dims = _dims(w, nd)
    v = w.arr('v', dims, kind)
    a = _alpha(w, al, dims)
    v0 = w.keep(v)
    x = w.fn(LP + 'prox_l1')(v, a)
    w.same_shape('result has the shape of v', x, v)
    if kind == 'f':
        w.imp('x > 0 implies v - x = alpha', x > 0, 'eq', v - x, a + 0 * v)
        w.imp('x < 0 implies v - x = -alpha', x < 0, 'eq', v - x, 0 * v - a)
    else:
        w.eq('(v - x)|x| = alpha x', (v - x) * np.abs(x), a * x)
    w.imp('x = 0 implies |v| <= alpha', x == 0, 'le', np.abs(v), a + 0 *
          np.abs(v))
    w.imp('|v| <= alpha implies x = 0', np.abs(v) <= a, 'eq', x, 0 * v)
    w.finite('result is defined everywhere', x)
    w.unchanged('argument v not modified', v, v0)


@contract('C01', [LP + 'prox_l0'], cases=_L1)
def prox_l0(w, case):
    kind, nd, al = case
    np = w.np
    dims = _dims(w, nd)
    v = w.arr('v', dims, kind)
    a = _alpha(w, al, dims)
    x = w.fn(LP + 'prox_l0')(v, a)
    av2 = np.abs(v) ** 2
    w.same_shape('result has the shape of v', x, v)
    w.imp('|v|^2 > 2 alpha implies x = v', av2 > 2 * a * (1 + w.eps), 'eq',
          x, v)
    w.imp('|v|^2 < 2 alpha implies x = 0', av2 * (1 + w.eps) < 2 * a, 'eq',
          x, 0 * v)
    w.all('x is v or 0', (x == v) | (x == 0))


_AX = [('f', 1, None), ('f', 2, None), ('c', 2, None), ('f', 2, 0),
       ('f', 2, -1), ('c', 2, 1), ('f', 3, (0, 2)), ('f', 3, 1),
       ('c', 3, (1, 2)), ('f', 3, (0, 1)), ('f', 4, (0, 1))]


def _norm(np, v, axis):
    return np.sqrt(np.sum(np.abs(v) ** 2, axis=axis, keepdims=True))


def _galpha(w, name, nd, axis, arr):
    """A threshold: scalar, or one per group."""
    if not arr:
        return w.real(name, nonneg=True)
    ax = axis if isinstance(axis, tuple) else (axis,)
    ax = [i % nd for i in ax]
    return w.arr(name, [1 if i in ax else d for i, d in
                        enumerate(_dims(w, nd))], nonneg=True)


@contract('C01', [LP + 'prox_l2'],
          cases=[c + (0,) for c in _AX] +
          [c + (1,) for c in _AX if c[2] is not None])
def prox_l2(w, case):
    kind, nd, axis, arr = case
    np = w.np
    v = w.arr('v', _dims(w, nd), kind)
    a = _galpha(w, 'alpha', nd, axis, arr)
    v0 = w.keep(v)
    x = w.fn(LP + 'prox_l2')(v, a, axis=axis)
    n = _norm(np, v, axis)
    w.same_shape('result has the shape of v', x, v)
    w.imp('|v| > alpha implies |v| x = (|v| - alpha) v', n > a, 'eq',
          n * x, (n - a) * v)
    w.imp('|v| <= alpha implies x = 0', n <= a, 'eq', x, 0 * v)
    w.finite('result is defined everywhere', x)
    w.unchanged('argument v not modified', v, v0)


@contract('C01', ['sporco.prox._l21.prox_sl1l2', LP + 'prox_l1',
                  LP + 'prox_l2'], cases=_AX)
def prox_sl1l2(w, case):
    """prox of alpha||.||_1 + beta||.||_2: (v - x) = alpha p + beta q with p, q
    subgradients, i.e. group shrinkage of the soft-thresholded vector."""
    kind, nd, axis = case
    np = w.np
    v = w.arr('v', _dims(w, nd), kind)
    a = w.real('alpha', nonneg=True)
    b = w.real('beta', nonneg=True)
    x = w.fn('sporco.prox._l21.prox_sl1l2')(v, a, b, axis=axis)
    s = w.fn(LP + 'prox_l1')(v, a)
    n = _norm(np, s, axis)
    w.same_shape('result has the shape of v', x, v)
    w.imp('inside the group threshold the result is zero', n <= b, 'eq', x,
          0 * v)
    w.imp('otherwise |s| x = (|s| - beta) s', n > b, 'eq', n * x, (n - b) * s)
    w.imp('zero entries stay zero', v == 0, 'eq', x, 0 * v)
    w.finite('result is defined everywhere', x)


@contract('C01', [LP + 'norm_l1', LP + 'norm_2l2', LP + 'norm_l2',
                  LP + 'norm_l0', 'sporco.prox._l21.norm_l21'], cases=_AX)
def norms(w, case):
    """The norms are those the operators are defined from."""
    kind, nd, axis = case
    np = w.np
    v = w.arr('v', _dims(w, nd, lo=1), kind)
    s1 = np.sum(np.abs(v), axis=axis, keepdims=True)
    s2 = np.sum(np.abs(v) ** 2, axis=axis, keepdims=True)
    s0 = np.sum(np.abs(v) > 0, axis=axis, keepdims=True)

    def same(name, r, ref):
        # a single value is returned as a scalar
        if np.ndim(r) == 0:
            ref = np.sum(ref)
        w.eq(name, r, ref)
    same('norm_l1', w.fn(LP + 'norm_l1')(v, axis=axis), s1)
    same('norm_2l2', w.fn(LP + 'norm_2l2')(v, axis=axis), s2)
    same('norm_l0', w.fn(LP + 'norm_l0')(v, axis=axis), s0)
    same('norm_l2', w.fn(LP + 'norm_l2')(v, axis=axis), np.sqrt(s2))
    r = w.fn('sporco.prox._l21.norm_l21')(v, axis=axis)
    w.eq('norm_l21', r, np.sum(np.sqrt(s2)))


@contract('C01', [LP.rpartition('_lp')[0] + '_nuclear.prox_nuclear',
                  LP.rpartition('_lp')[0] + '_nuclear.norm_nuclear'])
def prox_nuclear(w, case):
    """Singular values are soft thresholded, singular vectors kept (with the
    singular value decomposition as an assumed contract)."""
    np = w.np
    v = w.arr('v', (w.dim('m'), w.dim('n')))
    al = w.real('alpha', nonneg=True)
    v0 = w.keep(v)
    N = LP.rpartition('_lp')[0] + '_nuclear.'
    x, s = w.fn(N + 'prox_nuclear')(v, al)
    w.unchanged('argument not modified', v, v0)
    U, sv, Vt = np.linalg.svd(v, full_matrices=False)
    t = np.where(sv > al, sv - al, 0.0)
    w.eq('singular values', s, t)
    w.eq('minimiser', x, np.dot(U * t, Vt))
    w.eq('norm', w.fn(N + 'norm_nuclear')(v), np.sum(sv))


@contract('C01', ['sporco.prox._dl1l2.prox_dl1l2',
                  'sporco.prox._dl1l2.norm_dl1l2'],
          cases=[(1, None), (2, None), (2, 0), (2, -1), (3, 1)],
          bounded_only='index of the largest entry (argmax) is outside the '
          'symbolic array model')
def prox_dl1l2(w, case):
    """The result has the smallest objective among the stationary points:
    zero, the one-sparse points, and the rescaled soft thresholding."""
    nd, axis = case
    np = w.np
    sh = _dims(w, nd)
    v = w.arr('v', sh)
    al, be = w.real('alpha', pos=True), w.real('beta', lo=0.0, hi=1.0)
    v0 = w.keep(v)
    D = 'sporco.prox._dl1l2.'
    u = w.fn(D + 'prox_dl1l2')(v, al, be, axis=axis)
    w.unchanged('argument not modified', v, v0)
    w.same_shape('shape', u, v)
    nrm = w.fn(D + 'norm_dl1l2')(v, be, axis=axis)
    if axis is None:
        U, V = u.reshape(1, -1), v.reshape(1, -1)
    else:
        U = np.moveaxis(u, axis, -1).reshape(-1, sh[axis])
        V = np.moveaxis(v, axis, -1).reshape(-1, sh[axis])

    def R(x):
        return np.sum(np.abs(x)) - be * np.sqrt(np.sum(x ** 2))
    w.eq('norm', np.asarray(nrm).ravel(), np.array([R(x) for x in V]))
    for x, y in zip(U, V):
        def F(z):
            return al * R(z) + 0.5 * np.sum((z - y) ** 2)
        c = [np.zeros(y.shape)]
        z = np.sign(y) * np.maximum(np.abs(y) - al, 0)
        n = np.sqrt(np.sum(z ** 2))
        if n > 0:
            c.append(z * (n + al * be) / n)
        for i in range(y.size):
            e = np.zeros(y.shape)
            e[i] = np.sign(y[i]) * max(abs(y[i]) - (1 - be) * al, 0)
            c.append(e)
        m = min(F(z) for z in c)
        w.true('minimal objective', F(x) <= m + 1e-7 * (1 + abs(m)))
