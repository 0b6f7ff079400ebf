"""C16, C17: convolutional sparse coding with total variation terms."""
from pyvc.framework import contract
from contracts import callee
from contracts.callee import RRS, SOLVERS, NORM2
from contracts.conv import problem, newdict, newrho, normal_eq, adj, fnorm2

TV = 'sporco.admm.cbpdntv.'


def mk(w, p, cls, opt=None, wtv=False):
    B = w.fn(TV + cls)
    o = dict({'Verbose': False}, **(opt or {}))
    p.Wt = 1.0
    if wtv:
        o['TVWeight'] = w.arr('Wtv', (p.M,), nonneg=True)
        p.Wt = o['TVWeight'].reshape((1,) * (p.dimN + 2) + (p.M,))
    s = B(p.D0, p.S, w.real('lmbda', pos=True), w.real('mu', pos=True),
          B.Options(o), dimK=p.dimK, dimN=p.dimN)
    np = w.np
    p.Gf, p.GHGf = w.fn('sporco.signal.gradient_filters')(
        p.dimN + 3, p.axisN, p.Nv, dtype=np.dtype('float64'))
    return s




_LX = ('g', 'CK', 'WK')
_XS = [(c, lay, hm, wt, hist)
       for c in ('ConvBPDNScalarTV', 'ConvBPDNVectorTV') for lay in _LX
       for hm in (False, True) for wt in (False, True) for hist in (0, 1, 2)
       if not (lay == 'WK' and hm) and not (c == 'ConvBPDNVectorTV' and
                                            (lay != 'g' or hist == 1))]


@contract('C16', [TV + 'ConvBPDNScalarTV.xstep',
                  TV + 'ConvBPDNScalarTV.setdict',
                  TV + 'ConvBPDNScalarTV.rhochange',
                  TV + 'ConvBPDNScalarTV.__init__',
                  TV + 'ConvBPDNVectorTV.__init__'],
          cases=_XS, fft='opaque', modular=dict(RRS, **SOLVERS))
def stv_xstep(w, case):
    """X solves (D^H D + rho I + rho W^2 G^H G) x = D^H s + rho A^T (y - u)
    for the current dictionary and penalty."""
    cls, lay, hm, wt, hist = case
    np = w.np
    p = problem(w, lay)
    s = mk(w, p, cls, {'HighMemSolve': hm}, wt)
    D = newdict(w, p, s, hist >= 1)
    newrho(w, s, hist == 2)
    shp = p.shpX + (p.dimN + 1,)
    s.Y, s.U = w.arr('Y', shp), w.arr('U', shp)
    keep = [(n, x, w.keep(x)) for n, x in (('Y', s.Y), ('U', s.U),
                                           ('S', p.S), ('D', D))]
    s.xstep()
    V = p.fft(keep[0][2] - keep[1][2], None, p.axisN)
    b = V[..., -1]
    for i in range(p.dimN):
        b = b + p.Wt * np.conj(p.Gf[..., i]) * V[..., i]
    Df = p.fft(D, p.Nv, p.axisN)
    b = adj(w, p, Df, p.fft(p.Si, None, p.axisN)) + s.rho * b
    normal_eq(w, p, s, D, s.rho + s.rho * p.Wt ** 2 * p.GHGf, b, s.Xf)
    w.eq('X is the inverse transform', s.X, p.ifft(s.Xf, p.Nv, p.axisN))
    w.same_shape('shape', s.X, w.np.zeros(p.shpX))
    for n, x, x0 in keep:
        w.unchanged(n, x, x0)


def grads(w, p, Xf):
    """W G_i X for each spatial axis."""
    return [p.Wt * p.ifft(p.Gf[..., i] * Xf, p.Nv, p.axisN)
            for i in range(p.dimN)]


@contract('C16', [TV + 'ConvBPDNScalarTV.cnst_A', TV +
                  'ConvBPDNScalarTV.cnst_A0', TV +
                  'ConvBPDNScalarTV.cnst_A1', TV +
                  'ConvBPDNScalarTV.cnst_AT', TV +
                  'ConvBPDNScalarTV.cnst_A0T', TV +
                  'ConvBPDNScalarTV.cnst_A1T', TV +
                  'ConvBPDNScalarTV.cnst_B', TV + 'ConvBPDNScalarTV.cnst_c',
                  TV + 'ConvBPDNScalarTV.relax_AX',
                  TV + 'ConvBPDNScalarTV.reconstruct',
                  TV + 'ConvBPDNScalarTV.var_y0',
                  TV + 'ConvBPDNScalarTV.var_y1',
                  TV + 'ConvBPDNScalarTV.var_yx',
                  TV + 'ConvBPDNScalarTV.getmin',
                  TV + 'ConvBPDNScalarTV.getcoef'],
          cases=[(l, wt) for l in _LX for wt in (False, True)],
          fft='opaque', modular=dict(RRS, **SOLVERS))
def stv_constraint(w, case):
    """A X is the weighted gradients of X followed by X, and A^T is its
    adjoint; relaxation averages A X with the current Y."""
    lay, wt = case
    np = w.np
    p = problem(w, lay)
    s = mk(w, p, 'ConvBPDNScalarTV', None, wt)
    D = newdict(w, p, s)
    shp = p.shpX + (p.dimN + 1,)
    X = w.arr('X', p.shpX)
    Xf = p.fft(X, None, p.axisN)
    A = s.cnst_A(X)
    w.true('shape', tuple(A.shape) == tuple(shp))
    for i, g in enumerate(grads(w, p, Xf)):
        w.eq('gradient %d' % i, A[..., i], g)
    w.eq('coefficients', A[..., -1], X)
    w.eq('given transform', s.cnst_A(X, Xf), A)
    Y = w.arr('Y', shp)
    Yf = p.fft(Y, None, p.axisN)
    R = Y[..., -1]
    for i in range(p.dimN):
        R = R + p.Wt * p.ifft(np.conj(p.Gf[..., i]) * Yf[..., i], p.Nv,
                              p.axisN)
    w.eq('adjoint', s.cnst_AT(Y), R)
    w.eq('B', s.cnst_B(Y), -Y)
    s.X, s.Xf = X, Xf
    s.Y = Y
    s.rlx = w.real('rlx', lo=0.1, hi=1.9)
    s.relax_AX()
    w.eq('AX not relaxed', s.AXnr, A)
    w.eq('AX relaxed', s.AX, s.rlx * A + (1 - s.rlx) * Y)
    s.rlx = 1.0
    s.relax_AX()
    w.eq('AX without relaxation', s.AX, A)
    Df = p.fft(D, p.Nv, p.axisN)
    w.eq('reconstruction', s.reconstruct(),
         p.ifft(np.sum(Df * Xf, axis=p.axisM), p.Nv, p.axisN))
    Z = w.arr('Z', p.shpX)
    w.eq('reconstruction of given coefficients', s.reconstruct(Z),
         p.ifft(np.sum(Df * p.fft(Z, None, p.axisN), axis=p.axisM), p.Nv,
                p.axisN))
    w.eq('gradient block', s.var_y0(), Y[..., :-1])
    w.eq('coefficient block', s.var_y1(), Y[..., -1:])
    w.eq('coefficients of Y', s.var_yx(), Y[..., -1])
    w.eq('minimiser', s.getmin(), Y[..., -1])
    w.eq('coefficients', s.getcoef(), Y[..., -1])
    w.unchanged('Y', s.Y, w.keep(Y))


@contract('C16', [TV + 'ConvBPDNScalarTV.ystep',
                  TV + 'ConvBPDNVectorTV.ystep'],
          cases=[(c, l, lw) for c in ('ConvBPDNScalarTV', 'ConvBPDNVectorTV')
                 for l in _LX for lw in (False, True)],
          fft='opaque', modular=dict(RRS, **SOLVERS))
def stv_ystep(w, case):
    """The gradient vectors at each point (for each filter, or jointly for
    all filters) and the coefficients are the prox of the corresponding
    terms of the documented functional, at A x + u."""
    cls, lay, lw = case
    np = w.np
    P = w.mod('sporco.prox')
    p = problem(w, lay)
    o = {}
    if lw:
        o['L1Weight'] = w.arr('W1', p.shpX, nonneg=True)
    s = mk(w, p, cls, o)
    newrho(w, s)
    shp = p.shpX + (p.dimN + 1,)
    for n in ('Y', 'U', 'AX'):
        setattr(s, n, w.arr(n, shp))
    AX, U = w.keep(s.AX), w.keep(s.U)
    s.ystep()
    V = AX + U
    ax = -1 if cls == 'ConvBPDNScalarTV' else (p.axisM, -1)
    w.eq('gradients', s.Y[..., :-1],
         P.prox_l2(V[..., :-1], s.mu / s.rho, axis=ax))
    w.eq('coefficients', s.Y[..., -1],
         P.prox_l1(V[..., -1], s.lmbda / s.rho * (o['L1Weight'] if lw
                                                  else 1.0)))
    w.unchanged('AX', s.AX, AX)
    w.unchanged('U', s.U, U)


def _obj(w, s, p, D, fv, l1, tv):
    np = w.np
    Ef = np.sum(p.fft(D, p.Nv, p.axisN) * fv, axis=p.axisM,
                keepdims=True) - p.fft(p.Si, None, p.axisN)
    dfd = 0.5 * fnorm2(w, p, Ef)
    r = s.eval_objfn()
    w.true('number of terms', len(r) == 4)
    for i, (a, b) in enumerate(zip(r, (dfd + s.lmbda * l1 + s.mu * tv, dfd,
                                       l1, tv))):
        w.eq('term %d' % i, a, b)


_OB = [(l, f, g) for l in _LX for f in (False, True) for g in (False, True)]


@contract('C17', [TV + 'ConvBPDNScalarTV.eval_objfn',
                  TV + 'ConvBPDNScalarTV.obfn_dfd',
                  TV + 'ConvBPDNScalarTV.obfn_reg',
                  TV + 'ConvBPDNVectorTV.obfn_reg',
                  TV + 'ConvBPDNScalarTV.obfn_fvarf',
                  TV + 'ConvBPDNScalarTV.obfn_g0var',
                  TV + 'ConvBPDNScalarTV.obfn_g1var'],
          cases=[(c,) + q for c in ('ConvBPDNScalarTV', 'ConvBPDNVectorTV')
                 for q in _OB],
          fft='opaque', modular=dict(RRS, **dict(SOLVERS, **NORM2)))
def stv_objective(w, case):
    """Data fidelity, l1 norm and TV of the current dictionary and the
    variables selected by the options."""
    cls, lay, f, g = case
    np = w.np
    p = problem(w, lay)
    s = mk(w, p, cls, {'fEvalX': f, 'gEvalY': g,
                       'L1Weight': w.arr('W1', p.shpX, nonneg=True)}, True)
    D = newdict(w, p, s)
    s.X, s.Y = w.arr('X', p.shpX), w.arr('Y', p.shpX + (p.dimN + 1,))
    s.Xf = p.fft(s.X, None, p.axisN)
    # the value of A X is the subject of stv_constraint
    s.AXnr = w.arr('AXnr', p.shpX + (p.dimN + 1,))
    X, Y = w.keep(s.X), w.keep(s.Y)
    fv = s.Xf if f else p.fft(Y[..., -1], None, p.axisN)
    V = Y if g else s.AXnr
    c = V[..., -1]
    q = sum(V[..., i] ** 2 for i in range(p.dimN))
    if cls == 'ConvBPDNVectorTV':
        q = np.sum(q, axis=p.axisM)
    tv = np.sum(np.sqrt(q))
    W1 = s.opt['L1Weight']
    _obj(w, s, p, D, fv, np.sum(np.abs(W1 * c)), tv)
    w.unchanged('X', s.X, X)
    w.unchanged('Y', s.Y, Y)


def rblocks(w, p, Y):
    """Coefficients and gradient blocks of a ConvBPDNRecTV variable, the
    latter with the channels on the channel axis and one entry per spatial
    axis on an additional last axis."""
    np = w.np
    Y0, Y1 = Y[..., :p.M], Y[..., p.M:]
    if p.Cd > 1:
        Y1 = Y1.reshape(p.Nv + (p.Cd, p.K, p.dimN))
    return Y0, np.swapaxes(Y1[..., np.newaxis], p.axisM, -1)


def rshp(p):
    return p.shpX[:-1] + (p.M + p.dimN * p.Cd,)


def gd(w, p, D):
    """Transforms of W G_i d_m."""
    Df = p.fft(D, p.Nv, p.axisN)
    return [p.Gf[..., i] * (p.Wt * Df) for i in range(p.dimN)]


_LR = ('g', 'C', 'CK', 'W', 'W2')


@contract('C16', [TV + 'ConvBPDNRecTV.xstep', TV + 'ConvBPDNRecTV.setdict',
                  TV + 'ConvBPDNRecTV.block_sep0',
                  TV + 'ConvBPDNRecTV.block_sep1',
                  TV + 'ConvBPDNRecTV.__init__'],
          cases=[(l, wt, h) for l in _LR for wt in (False, True)
                 for h in (0, 1, 2)],
          fft='opaque', modular=dict(RRS, **SOLVERS))
def rtv_xstep(w, case):
    """X solves (D^H D + rho sum_i (G_i D)^H (G_i D) + rho I) x =
    D^H s + rho A^T (y - u): the rank-one terms given to the solver are
    those of the dictionary and of its scaled gradients."""
    lay, wt, hist = case
    np = w.np
    p = problem(w, lay)
    s = mk(w, p, 'ConvBPDNRecTV', None, wt)
    D = newdict(w, p, s, hist >= 1)
    newrho(w, s, hist == 2)
    shp = rshp(p)
    s.Y, s.U = w.arr('Y', shp), w.arr('U', shp)
    keep = [(n, x, w.keep(x)) for n, x in (('Y', s.Y), ('U', s.U),
                                           ('S', p.S), ('D', D))]
    s.xstep()
    Y0, Y1 = rblocks(w, p, keep[0][2] - keep[1][2])
    Df = p.fft(D, p.Nv, p.axisN)
    G = gd(w, p, D)
    b = p.fft(Y0, None, p.axisN)
    for i in range(p.dimN):
        b = b + adj(w, p, G[i], p.fft(Y1[..., i], None, p.axisN))
    b = adj(w, p, Df, p.fft(p.Si, None, p.axisN)) + s.rho * b
    if w.sym:
        # the rank-one terms: on the channel axis, or on an additional
        # axis where the channels of the signal are independent problems
        r = np.sqrt(s.rho)
        c = callee.SPIED['solve'][-1]
        own = len(c['b'].shape) > len(b.shape)
        w.true('channels of the signal are independent problems',
               own or p.Cd > 1 or p.C == 1)
        if own:
            A = np.concatenate([Df[..., np.newaxis]] + [
                r * g[..., np.newaxis] for g in G], axis=-1)
            bb = b[..., np.newaxis]
        else:
            A = np.concatenate([Df] + [r * g for g in G], axis=p.axisC)
            bb = b
        w.true('solver', c['kind'] == 'solvemdbi_ism')
        w.true('axis of the filters', c['axis'] % len(bb.shape) == p.axisM)
        w.true('axis of the terms', c['axK'] % len(bb.shape) == (
            len(bb.shape) - 1 if own else p.axisC))
        w.eq('rank-one terms', c['ah'], A)
        w.eq('diagonal', c['rho'], s.rho)
        w.eq('right-hand side', c['b'], bb)
        w.eq('solution used', s.Xf, c['r'][..., 0] if own else c['r'])
    else:
        r = adj(w, p, Df, np.sum(Df * s.Xf, axis=p.axisM, keepdims=True))
        for g in G:
            r = r + s.rho * adj(w, p, g, np.sum(g * s.Xf, axis=p.axisM,
                                                keepdims=True))
        w.eq('normal equations', r + s.rho * s.Xf, b, tol=1e-6)
    w.eq('X is the inverse transform', s.X, p.ifft(s.Xf, p.Nv, p.axisN))
    for n, x, x0 in keep:
        w.unchanged(n, x, x0)


@contract('C16', [TV + 'ConvBPDNRecTV.cnst_A', TV + 'ConvBPDNRecTV.cnst_A0',
                  TV + 'ConvBPDNRecTV.cnst_A1',
                  TV + 'ConvBPDNRecTV.cnst_AT',
                  TV + 'ConvBPDNRecTV.cnst_A0T',
                  TV + 'ConvBPDNRecTV.cnst_A1T',
                  TV + 'ConvBPDNRecTV.cnst_B', TV + 'ConvBPDNRecTV.cnst_c',
                  TV + 'ConvBPDNRecTV.block_cat',
                  TV + 'ConvBPDNRecTV.block_sep0',
                  TV + 'ConvBPDNRecTV.block_sep1',
                  TV + 'ConvBPDNRecTV.relax_AX',
                  TV + 'ConvBPDNRecTV.reconstruct',
                  TV + 'ConvBPDNRecTV.getmin',
                  TV + 'ConvBPDNRecTV.getcoef'],
          cases=[(l, wt) for l in _LR for wt in (False, True)
                 if not (l == 'W2' and wt)],
          fft='opaque', modular=dict(RRS, **SOLVERS), budget=200)
def rtv_constraint(w, case):
    """A X is X followed by the weighted gradients of its reconstruction,
    and A^T its adjoint; relaxation averages A X with the current Y."""
    lay, wt = case
    np = w.np
    p = problem(w, lay)
    s = mk(w, p, 'ConvBPDNRecTV', None, wt)
    D = newdict(w, p, s)
    X = w.arr('X', p.shpX)
    Xf = p.fft(X, None, p.axisN)
    A = s.cnst_A(X)
    w.true('shape', tuple(A.shape) == tuple(rshp(p)))
    A0, A1 = rblocks(w, p, A)
    w.eq('coefficients', A0, X)
    G = gd(w, p, D)
    for i in range(p.dimN):
        w.eq('gradient %d' % i, A1[..., i],
             p.ifft(np.sum(G[i] * Xf, axis=p.axisM, keepdims=True), p.Nv,
                    p.axisN))
    w.eq('given transform', s.cnst_A(X, Xf), A)
    Y = w.arr('Y', rshp(p))
    Y0, Y1 = rblocks(w, p, Y)
    w.eq('coefficient block', s.block_sep0(Y), Y0)
    w.eq('gradient block', s.block_sep1(Y), Y1)
    w.eq('blocks together', s.block_cat(Y0, Y1), Y)
    R = Y0
    for i in range(p.dimN):
        R = R + p.ifft(adj(w, p, G[i], p.fft(Y1[..., i], None, p.axisN)),
                       p.Nv, p.axisN)
    w.eq('adjoint', s.cnst_AT(Y), R)
    w.eq('B', s.cnst_B(Y), -Y)
    s.X, s.Xf = X, Xf
    s.Y = Y
    s.rlx = w.real('rlx', lo=0.1, hi=1.9)
    s.relax_AX()
    w.eq('AX not relaxed', s.AXnr, A)
    w.eq('AX relaxed', s.AX, s.rlx * A + (1 - s.rlx) * Y)
    s.rlx = 1.0
    s.relax_AX()
    w.eq('AX without relaxation', s.AX, A)
    Df = p.fft(D, p.Nv, p.axisN)
    w.eq('reconstruction', s.reconstruct(),
         p.ifft(np.sum(Df * Xf, axis=p.axisM), p.Nv, p.axisN))
    Z = w.arr('Z', p.shpX)
    w.eq('reconstruction of given coefficients', s.reconstruct(Z),
         p.ifft(np.sum(Df * p.fft(Z, None, p.axisN), axis=p.axisM), p.Nv,
                p.axisN))
    w.eq('minimiser', s.getmin(), Y0)
    w.eq('coefficients', s.getcoef(), Y0)


@contract('C16', [TV + 'ConvBPDNRecTV.ystep',
                  TV + 'ConvBPDNRecTV.block_cat',
                  TV + 'ConvBPDNRecTV.block_sep0',
                  TV + 'ConvBPDNRecTV.block_sep1'],
          cases=[(l, lw) for l in _LR for lw in (False, True)],
          fft='opaque', modular=dict(RRS, **dict(SOLVERS, **{
              'sporco.prox.' + k: callee.same_shape_fn('sporco.prox.' + k)
              for k in ('prox_l1', 'prox_l2')})))
def rtv_ystep(w, case):
    """The coefficients and the gradient vectors (joint over channels) at
    each point are the prox of the corresponding terms at A x + u."""
    lay, lw = case
    np = w.np
    P = w.mod('sporco.prox')
    p = problem(w, lay)
    o = {}
    if lw:
        o['L1Weight'] = w.arr('W1', p.shpX, nonneg=True)
    s = mk(w, p, 'ConvBPDNRecTV', o)
    newrho(w, s)
    for n in ('Y', 'U', 'AX'):
        setattr(s, n, w.arr(n, rshp(p)))
    AX, U = w.keep(s.AX), w.keep(s.U)
    s.ystep()
    V0, V1 = rblocks(w, p, AX + U)
    Y0, Y1 = rblocks(w, p, s.Y)
    w.eq('coefficients', Y0,
         P.prox_l1(V0, s.lmbda / s.rho * (o['L1Weight'] if lw else 1.0)))
    w.eq('gradients', Y1,
         P.prox_l2(V1, s.mu / s.rho, axis=(p.axisC, -1)))
    w.unchanged('AX', s.AX, AX)
    w.unchanged('U', s.U, U)


@contract('C17', [TV + 'ConvBPDNRecTV.eval_objfn',
                  TV + 'ConvBPDNRecTV.obfn_dfd',
                  TV + 'ConvBPDNRecTV.obfn_reg',
                  TV + 'ConvBPDNRecTV.obfn_fvarf',
                  TV + 'ConvBPDNRecTV.obfn_g0var',
                  TV + 'ConvBPDNRecTV.obfn_g1var'],
          cases=[(l, f, g) for l in _LR for f in (False, True)
                 for g in (False, True)],
          fft='opaque', modular=dict(RRS, **dict(SOLVERS, **NORM2)))
def rtv_objective(w, case):
    """Data fidelity, l1 norm and TV of the reconstruction."""
    lay, f, g = case
    np = w.np
    p = problem(w, lay)
    s = mk(w, p, 'ConvBPDNRecTV', {
        'fEvalX': f, 'gEvalY': g,
        'L1Weight': w.arr('W1', p.shpX, nonneg=True)}, True)
    D = newdict(w, p, s)
    s.X, s.Y = w.arr('X', p.shpX), w.arr('Y', rshp(p))
    s.Xf = p.fft(s.X, None, p.axisN)
    s.AXnr = w.arr('AXnr', rshp(p))
    X, Y = w.keep(s.X), w.keep(s.Y)
    fv = s.Xf if f else p.fft(Y[..., :p.M], None, p.axisN)
    c, G = rblocks(w, p, Y if g else s.AXnr)
    G = [G[..., i] for i in range(p.dimN)]
    tv = np.sum(np.sqrt(np.sum(sum(v ** 2 for v in G), axis=p.axisC)))
    W1 = s.opt['L1Weight']
    _obj(w, s, p, D, fv, np.sum(np.abs(W1 * c)), tv)
    w.unchanged('X', s.X, X)
    w.unchanged('Y', s.Y, Y)
