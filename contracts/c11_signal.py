"""C11: gradient operators."""
from pyvc.framework import contract

S = 'sporco.signal.'


def ip(np, a, b):
    return np.sum(a * b)


_AX = [(nd, ax, z) for nd in (1, 2, 3) for ax in range(-nd, nd)
       for z in (False, True)]


def _sh(w, nd, ax, pad=0):
    n = [w.dim('n%d' % i) for i in range(nd)]
    n[ax] = n[ax] + pad
    return tuple(n)


@contract('C11', [S + 'grad'], cases=_AX)
def grad_definition(w, case):
    """(G x)_i = x_{i+1} - x_i with the documented boundary rows."""
    nd, ax, zp = case
    np = w.np
    sh = _sh(w, nd, ax)
    x = w.arr('x', sh)
    x0 = w.keep(x)
    g = w.fn(S + 'grad')(x, ax, zp)
    w.unchanged('x not modified', x, x0)
    n = sh[ax]
    sl = lambda a, b: (slice(None),) * (ax % nd) + (slice(a, b),)
    if zp:
        w.eq('length', g.shape[ax], n + 1)
        w.eq('first row', g[sl(0, 1)], x[sl(0, 1)])
        w.eq('last row', g[sl(n, n + 1)], -x[sl(n - 1, n)])
        w.eq('differences', g[sl(1, n)], x[sl(1, n)] - x[sl(0, n - 1)])
    else:
        w.same_shape('shape kept', g, x)
        w.eq('last row zero', g[sl(n - 1, n)], 0.0 * x[sl(n - 1, n)])
        w.eq('differences', g[sl(0, n - 1)], x[sl(1, n)] - x[sl(0, n - 1)])


@contract('C11', [S + 'grad', S + 'gradT'], cases=_AX)
def adjoint(w, case):
    """<G x, y> = <x, G^T y> for all x, y: element-wise, G^T y is the
    transpose of the documented matrix applied to y."""
    nd, ax, zp = case
    np = w.np
    sh = _sh(w, nd, ax)
    n = sh[ax]
    ys = list(sh)
    if zp:
        ys[ax] = n + 1
    y = w.arr('y', tuple(ys))
    y0 = w.keep(y)
    g = w.fn(S + 'gradT')(y, ax, zp)
    w.unchanged('y not modified', y, y0)
    sl = lambda a, b: (slice(None),) * (ax % nd) + (slice(a, b),)
    w.eq('length', g.shape[ax], n)
    if zp:
        w.eq('transpose', g, y[sl(0, n)] - y[sl(1, n + 1)])
    elif n == 1:
        w.eq('transpose of the zero operator', g, 0.0 * y)
    else:
        w.eq('first row', g[sl(0, 1)], -y[sl(0, 1)])
        w.eq('last row', g[sl(n - 1, n)], y[sl(n - 2, n - 1)])
        w.eq('inner rows', g[sl(1, n - 1)],
             y[sl(0, n - 2)] - y[sl(1, n - 1)])
    if not w.sym:
        x = w.arr('x', sh)
        w.eq('<G x, y> = <x, G^T y>', ip(np, w.fn(S + 'grad')(x, ax, zp), y),
             ip(np, x, g), tol=1e-8)


_GF = [(2, (0, 1)), (3, (0, 1)), (3, (1, 2)), (2, (1,)), (3, (2, 0)),
       (1, (0,)), (3, (0, 1, 2)), (5, (0, 1))]


@contract('C11', [S + 'gradient_filters'],
          cases=[(nd, ax, k) for nd, ax in _GF for k in 'fc'])
def gradient_filters(w, case):
    """Gf[..., j] is the transfer function of the circular difference along
    the j-th of the given axes, and GHGf the sum of the squared moduli."""
    nd, axes, kd = case
    np = w.np
    n = [w.dim('n%d' % i, lo=2) for i in range(nd)]
    axshp = tuple(n[a] for a in axes)
    dt = np.dtype(np.float64 if kd == 'f' else np.complex128)
    Gf, GHGf = w.fn(S + 'gradient_filters')(nd, axes, axshp, dtype=dt)
    w.eq('number of filters', Gf.shape[-1], len(axes))
    sh = [n[a] if a in axes else 1 for a in range(nd)]
    x = w.arr('x', tuple(sh), kd)
    fft = w.fn('sporco.fft.' + ('rfftn' if kd == 'f' else 'fftn'))
    xf = fft(x, None, axes)
    w.eq('power spectrum', GHGf, np.sum(
        np.real(np.conj(Gf) * Gf), axis=-1))
    if not w.sym:
        w.true('real power spectrum', not np.iscomplexobj(GHGf))
    for j, a in enumerate(axes):
        z = np.zeros(tuple(sh), dtype=dt)
        z[(0,) * nd] = 1
        z[tuple(1 if i == a else 0 for i in range(nd))] = -1
        w.eq('transfer function of the difference', Gf[..., j],
             fft(z, None, axes))
        g = x - np.roll(x, 1, axis=a)
        if w.sym:
            if not w.bounded('circular difference', 'product of transforms'):
                continue
        w.eq('circular difference along the axis', Gf[..., j] * xf,
             fft(g, None, axes), tol=1e-7)
