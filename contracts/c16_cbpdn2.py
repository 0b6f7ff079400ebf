"""C16, C17: convolutional sparse coding with two-block constraints (l2 ball
constraint, mask decoupling, l1 data fidelity)."""
from pyvc.framework import contract
from contracts.callee import RRS, SOLVERS, NORM2, PROJ_L2
from contracts.conv import CB, problem, newdict, newrho, normal_eq, adj, \
    fnorm2, blocks, shp2
from contracts.c16_cbpdn import weights, constrained

CLS = ('ConvMinL1InL2Ball', 'ConvBPDNMaskDcpl', 'ConvL1L1Grd')
LAYS = ('g', 'CK', 'WK')


def mk(w, p, cls, opt=None, mask=False):
    B = w.fn(CB + cls)
    o = B.Options(dict({'Verbose': False}, **(opt or {})))
    kw = dict(dimK=p.dimK, dimN=p.dimN)
    p.W, W = 1.0, None
    if mask:
        p.W = W = w.arr('W', p.shpS, nonneg=True)
    if cls == 'ConvMinL1InL2Ball':
        return B(p.D0, p.S, w.real('epsilon', pos=True), o, **kw)
    lm = w.real('lmbda', pos=True)
    if cls == 'ConvBPDNMaskDcpl':
        return B(p.D0, p.S, lm, W, o, **kw)
    return B(p.D0, p.S, lm, w.real('mu', pos=True), W, o, **kw)


def state(w, p, s):
    s.X = w.arr('X', p.shpX, p.kd)
    for n in ('Y', 'U', 'AX'):
        setattr(s, n, w.arr(n, shp2(p), p.kd))


def gterm(w, p, s, wg):
    _, G = w.fn('sporco.signal.gradient_filters')(
        p.dimN + 3, p.axisN, p.Nv, dtype=w.np.dtype('float64'))
    return wg * G


@contract('C22', [CB + 'ConvTwoBlockCnstrnt.xstep',
                  CB + 'ConvTwoBlockCnstrnt.setdict',
                  CB + 'ConvL1L1Grd.xstep', CB + 'ConvL1L1Grd.setdict',
                  CB + 'ConvL1L1Grd.rhochange'],
          cases=[(c, l, hm, h) for c in CLS for l in LAYS
                 for hm in (False, True) for h in (0, 1, 2)
                 if not (l == 'WK' and hm)
                 and not (c != 'ConvL1L1Grd' and h == 2)],
          fft='opaque', modular=dict(RRS, **SOLVERS))
def cbpdn2_xstep(w, case):
    """X solves (D^H D + I [+ mu/rho G^H G]) x = D^H (y0 - u0 + s) +
    (y1 - u1) for the current dictionary and penalty."""
    cls, lay, hm, hist = case
    np = w.np
    p = problem(w, lay)
    o = {'HighMemSolve': hm}
    if cls == 'ConvL1L1Grd':
        o['GradWeight'] = w.arr('Wg', (p.M,), nonneg=True)
    s = mk(w, p, cls, o)
    D = newdict(w, p, s, hist >= 1)
    newrho(w, s, hist == 2)
    state(w, p, s)
    Y, U, S, D1 = (w.keep(x) for x in (s.Y, s.U, p.S, D))
    s.xstep()
    den = 1.0
    if cls == 'ConvL1L1Grd':
        den = s.mu / s.rho * gterm(w, p, s, o['GradWeight']) + 1.0
    V0, V1 = blocks(w, p, Y - U)
    Df = p.fft(D1, p.Nv, p.axisN)
    b = adj(w, p, Df, p.fft(V0 + p.Si, None, p.axisN)) + \
        p.fft(V1, None, p.axisN)
    normal_eq(w, p, s, D1, den, b, s.Xf)
    w.eq('X is the inverse transform', s.X, p.ifft(s.Xf, p.Nv, p.axisN))
    w.true('shape', tuple(s.X.shape) == tuple(p.shpX))
    w.unchanged('Y', s.Y, Y)
    w.unchanged('U', s.U, U)
    w.unchanged('S', p.S, S)
    w.unchanged('D', D, D1)


@contract('C22', [CB + 'ConvTwoBlockCnstrnt.ystep',
                  CB + 'ConvTwoBlockCnstrnt.block_sep0',
                  CB + 'ConvTwoBlockCnstrnt.block_cat',
                  CB + 'ConvMinL1InL2Ball.ystep',
                  CB + 'ConvBPDNMaskDcpl.ystep', CB + 'ConvL1L1Grd.ystep'],
          cases=[(c, l, wt, nn, nb) for c in CLS for l in LAYS
                 for wt in ('', 'a', 'm') for nn in (False, True)
                 for nb in (False, True)
                 if (l == 'CK' or wt != 'm') and (l != 'g' or nn == nb)],
          fft='opaque', fork=True, modular=dict(RRS, **SOLVERS))
def cbpdn2_ystep(w, case):
    """The data block of Y is the proximal operator of the data term, the
    coefficient block that of the weighted l1 norm with the requested
    constraints imposed, at A X + U with the current penalty."""
    cls, lay, wt, nn, nb = case
    P = w.mod('sporco.prox')
    p = problem(w, lay)
    o = {'NonNegCoef': nn, 'NoBndryCross': nb}
    wl1 = 1.0
    if wt:
        o['L1Weight'], wl1 = weights(w, p, wt)
    s = mk(w, p, cls, o, bool(wt))
    newrho(w, s)
    state(w, p, s)
    U, AX = w.keep(s.U), w.keep(s.AX)
    s.ystep()
    V0, V1 = blocks(w, p, AX + U)
    E0 = V0 - p.Si
    lm = 1.0
    if cls == 'ConvMinL1InL2Ball':
        E0 = P.proj_l2(E0, s.epsilon, axis=p.axisN)
    elif cls == 'ConvBPDNMaskDcpl':
        lm = s.lmbda
        E0 = s.rho * E0 / (p.W ** 2 + s.rho)
    else:
        lm = s.lmbda
        E0 = P.prox_l1(E0, p.W / s.rho)
    E1 = P.prox_l1(V1, lm / s.rho * wl1)
    w.same_shape('shape', s.Y, AX)
    Y0, Y1 = blocks(w, p, s.Y)
    w.eq('data block', Y0, E0)
    w.eq('coefficient block', Y1, constrained(w, p, E1, nn, nb))
    w.unchanged('AX', s.AX, AX)
    w.unchanged('U', s.U, U)


@contract('C22', [CB + 'ConvTwoBlockCnstrnt.cnst_A0',
                  CB + 'ConvTwoBlockCnstrnt.cnst_A0T',
                  CB + 'ConvTwoBlockCnstrnt.cnst_A',
                  CB + 'ConvTwoBlockCnstrnt.cnst_c0',
                  CB + 'ConvTwoBlockCnstrnt.relax_AX'],
          cases=[(c, l, r) for c in CLS for l in LAYS for r in (0, 1)],
          fft='opaque', modular=dict(RRS, **SOLVERS))
def cbpdn2_constraint(w, case):
    """A X = (D X, X), its adjoint is (Y0, Y1) -> D^H Y0 + Y1, the constant
    is (S, 0), and the relaxed value is alpha A X + (1 - alpha)(Y + c)."""
    cls, lay, rl = case
    np = w.np
    p = problem(w, lay)
    r = w.real('rlx', pos=True)
    s = mk(w, p, cls, {'RelaxParam': r} if rl else {'RelaxParam': 1.0})
    D = newdict(w, p, s)
    state(w, p, s)
    s.Xf = p.fft(s.X, None, p.axisN)
    Df = p.fft(D, p.Nv, p.axisN)
    DX = p.ifft(np.sum(Df * s.Xf, axis=p.axisM, keepdims=True), p.Nv,
                p.axisN)
    X, Y = w.keep(s.X), w.keep(s.Y)
    w.eq('D X', s.cnst_A0(s.X), DX)
    w.eq('D X, transform given', s.cnst_A0(s.X, s.Xf), DX)
    Y0, Y1 = blocks(w, p, Y)
    AT = p.ifft(adj(w, p, Df, p.fft(Y0, None, p.axisN)), p.Nv, p.axisN) + Y1
    w.eq('adjoint', s.cnst_AT(s.Y), AT)
    s.relax_AX()
    A0, A1 = blocks(w, p, s.AX)
    N0, N1 = blocks(w, p, s.AXnr)
    w.eq('A X, data block', N0, DX)
    w.eq('A X, coefficient block', N1, X)
    if rl:
        w.eq('relaxed data block', A0, r * DX + (1 - r) * (Y0 + p.Si))
        w.eq('relaxed coefficient block', A1, r * X + (1 - r) * Y1)
    else:
        w.eq('data block', A0, DX)
        w.eq('coefficient block', A1, X)
    w.unchanged('X', s.X, X)
    w.unchanged('Y', s.Y, Y)
    U = w.keep(s.U)
    s.ustep()
    U0, U1 = blocks(w, p, s.U)
    P0, P1 = blocks(w, p, U)
    w.eq('dual update, data block', U0, P0 + A0 - Y0 - p.Si)
    w.eq('dual update, coefficient block', U1, P1 + A1 - Y1)


@contract('C17', [CB + 'ConvTwoBlockCnstrnt.eval_objfn',
                  CB + 'ConvTwoBlockCnstrnt.obfn_g0var',
                  CB + 'ConvMinL1InL2Ball.eval_objfn',
                  CB + 'ConvMinL1InL2Ball.obfn_g0',
                  CB + 'ConvMinL1InL2Ball.obfn_g1',
                  CB + 'ConvBPDNMaskDcpl.eval_objfn',
                  CB + 'ConvBPDNMaskDcpl.obfn_g0',
                  CB + 'ConvBPDNMaskDcpl.obfn_g1',
                  CB + 'ConvL1L1Grd.eval_objfn',
                  CB + 'ConvL1L1Grd.obfn_g0'],
          cases=[(c, l, wt, g, rl) for c in CLS for l in LAYS
                 for wt in ('', 'a') for g in (False, True)
                 for rl in (False, True)],
          fft='opaque', modular=dict(RRS, **dict(SOLVERS, **dict(NORM2, **PROJ_L2))))
def cbpdn2_objective(w, case):
    """The reported values are those of the documented functional, at the
    auxiliary variables or at (D X - S, X) as the option AuxVarObj
    requests."""
    cls, lay, wt, g, rl = case
    np = w.np
    P = w.mod('sporco.prox')
    p = problem(w, lay)
    o = {'AuxVarObj': g, 'RelaxParam': 1.8 if rl else 1.0}
    wl1 = wg = 1.0
    if wt:
        o['L1Weight'], wl1 = weights(w, p, wt)
    if cls == 'ConvL1L1Grd':
        wg = o['GradWeight'] = w.arr('Wg', (p.M,), nonneg=True)
    s = mk(w, p, cls, o, bool(wt))
    D = newdict(w, p, s)
    newrho(w, s)
    state(w, p, s)
    s.Xf = p.fft(s.X, None, p.axisN)
    s.relax_AX()
    X, Y, Xf = w.keep(s.X), w.keep(s.Y), w.keep(s.Xf)
    r = s.eval_objfn()
    if g:
        g0, g1 = blocks(w, p, Y)
    else:
        g0 = p.ifft(np.sum(p.fft(D, p.Nv, p.axisN) * Xf, axis=p.axisM,
                           keepdims=True), p.Nv, p.axisN) - p.Si
        g1 = X
    l1 = np.sum(np.abs(wl1 * g1))
    if cls == 'ConvMinL1InL2Ball':
        d = P.proj_l2(g0, s.epsilon, axis=p.axisN) - g0
        e = (l1, np.sqrt(np.sum(np.abs(d) ** 2)))
    elif cls == 'ConvBPDNMaskDcpl':
        dfd = 0.5 * np.sum(np.abs(p.W * g0) ** 2)
        e = (dfd + s.lmbda * l1, dfd, l1)
    else:
        dfd = np.sum(np.abs(p.W * g0))
        Gf, _ = w.fn('sporco.signal.gradient_filters')(
            p.dimN + 3, p.axisN, p.Nv, dtype=np.dtype('float64'))
        gr = 0.5 * sum(fnorm2(w, p, np.sqrt(wg) * Gf[..., i] * Xf)
                       for i in range(p.dimN))
        e = (dfd + s.lmbda * l1 + s.mu * gr, dfd, l1, gr)
    w.true('number of terms', len(r) == len(e))
    for i, (a, b) in enumerate(zip(r, e)):
        w.eq('term %d' % i, a, b)
    w.unchanged('X', s.X, X)
    w.unchanged('Y', s.Y, Y)
