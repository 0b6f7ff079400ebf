"""C02: ball projections."""
from pyvc.framework import contract
from .c01_prox import _dims, _norm

LP = 'sporco.prox._lp.'
_AX = [('f', 1, None), ('f', 2, None), ('c', 2, None), ('f', 2, 0),
       ('f', 2, -1), ('c', 2, 1), ('f', 3, (0, 2)), ('c', 3, (1, 2)),
       ('f', 3, 1), ('f', 4, (0, 1))]


@contract('C02', [LP + 'proj_l2'], cases=_AX)
def proj_l2(w, case):
    kind, nd, axis = case
    np = w.np
    v = w.arr('v', _dims(w, nd), kind)
    g = w.real('gamma', nonneg=True)
    v0 = w.keep(v)
    x = w.fn(LP + 'proj_l2')(v, g, axis=axis)
    n = _norm(np, v, axis)
    w.same_shape('result has the shape of v', x, v)
    w.imp('points inside the ball are fixed', n <= g, 'eq', x, v)
    w.imp('outside: |v| x = gamma v', n > g, 'eq', n * x, g * v)
    w.finite('result is defined everywhere', x)
    w.unchanged('argument v not modified', v, v0)


@contract('C02', ['sporco.linalg.proj_l2ball'],
          cases=[(1, None), (2, None), (2, (1,)), (3, (0, 1))])
def proj_l2ball(w, case):
    nd, axes = case
    np = w.np
    dims = _dims(w, nd)
    b = w.arr('b', dims)
    s = w.arr('s', dims)
    r = w.real('r', nonneg=True)
    x = w.fn('sporco.linalg.proj_l2ball')(b, s, r, axes=axes)
    n = _norm(np, b - s, axes)
    w.same_shape('result has the shape of b', x, b)
    w.imp('points inside the ball are fixed', n <= r, 'eq', x, b)
    w.imp('outside: |b-s| (x-s) = r (b-s)', n > r, 'eq', n * (x - s),
          r * (b - s))
    w.finite('result is defined everywhere', x)


_L1C = [(1, None, None), (2, None, None), (1, None, 'scalarroot'),
(1, None, 'sortcumsum'),
        (2, None, 'sortcumsum'), (2, 0, None), (2, 1, 'sortcumsum'),
        (3, -1, None), (3, (0, 2), None), (3, (1, 2), 'sortcumsum'),
        (3, (0, 1), None), (4, (0, 1), None)]


@contract('C02', ['sporco.prox._l1proj.proj_l1',
                  'sporco.prox._l1proj._proj_l1_scalar_root',
                  'sporco.prox._l1proj._proj_l1_sortsum',
                  'sporco.prox._util.ndto2d', 'sporco.prox._util.ndfrom2d'],
          cases=_L1C)
def proj_l1(w, case):
    """Optimality conditions of the projection onto the l1 ball of radius
    gamma: feasible, fixed points inside, and v - x is a multiple of a
    subgradient of the norm at x."""
    nd, axis, method = case
    np = w.np
    dims = _dims(w, nd)
    v = w.arr('v', dims)
    g = w.real('gamma', pos=True)
    v0 = w.keep(v)
    x = w.fn('sporco.prox._l1proj.proj_l1')(v, g, axis=axis, method=method)
    n = np.sum(np.abs(v), axis=axis, keepdims=True)
    m = np.sum(np.abs(x), axis=axis, keepdims=True)
    w.same_shape('result has the shape of v', x, v)
    # two entries of the same group
    i = w.index(v)
    j = list(w.index(v))
    ax = range(nd) if axis is None else (
        axis if isinstance(axis, tuple) else (axis % nd,))
    j = tuple(j[k] if k in ax else i[k] for k in range(nd))
    d, e = v[i] - x[i], v[j] - x[j]
    w.imp('a nonzero entry keeps its sign and is shrunk', x[i] != 0, 'le',
          0.0, d * x[i])
    w.imp('all entries are shrunk by the same amount', x[i] != 0, 'le',
          np.abs(e), np.abs(d))
    w.le('no entry grows', np.abs(x), np.abs(v))
    if (axis is None and method != 'sortcumsum') or w.bounded(
            'norm of the result', 'sorting and prefix sums are opaque to the '
            'verifier'):
        w.imp('points inside the ball are fixed', n <= g, 'eq', x, v)
        w.imp('otherwise the result is on the sphere', n > g, 'eq', m,
              0 * n + g)
        w.finite('result is defined everywhere', x)
    w.unchanged('argument v not modified', v, v0)


@contract('C02', ['sporco.prox._l1proj.proj_l1'])
def proj_l1_method(w, case):
    v = w.arr('v', _dims(w, 2))
    f = w.fn('sporco.prox._l1proj.proj_l1')
    w.raises('unknown method rejected', ValueError, f, v, 1.0,
             method='nosuch')
    w.raises('scalarroot rejects an axis', ValueError, f, v, 1.0, axis=0,
             method='scalarroot')
