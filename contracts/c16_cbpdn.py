"""C16, C17: convolutional sparse coding by ADMM."""
from pyvc.framework import contract
from contracts.callee import RRS, SOLVERS, PROJ_L1, NORM2
from contracts.conv import CB, problem, newdict, newrho, normal_eq, adj, fnorm2


def mk(w, p, cls, opt=None, D=None):
    B = w.fn(CB + cls)
    o = B.Options(dict({'Verbose': False}, **(opt or {})))
    kw = dict(dimK=p.dimK, dimN=p.dimN)
    D = p.D0 if D is None else D
    if cls == 'ConvBPDNProjL1':
        return B(D, p.S, w.real('gamma', pos=True), o, **kw)
    lm = w.real('lmbda', pos=True)
    if cls == 'ConvBPDN':
        return B(D, p.S, lm, o, **kw)
    return B(D, p.S, lm, w.real('mu', pos=True), o, **kw)


def state(w, p, s):
    s.Y = w.arr('Y', p.shpX, p.kd)
    s.U = w.arr('U', p.shpX, p.kd)


_XS = [(c, lay, hm, hist) for c in (
    'ConvBPDN', 'ConvElasticNet', 'ConvBPDNGradReg', 'ConvBPDNProjL1')
    for lay in ('g', 'CK', 'WK') for hm in (False, True)
    for hist in (0, 1, 2)
    if not (lay == 'WK' and hm) and not (c == 'ConvBPDNProjL1' and lay != 'g')]


@contract('C22', [CB + 'GenericConvBPDN.xstep', CB + 'ConvElasticNet.xstep',
                  CB + 'ConvBPDNGradReg.xstep', CB + 'GenericConvBPDN.setdict',
                  CB + 'ConvElasticNet.setdict', CB +
                  'ConvBPDNGradReg.setdict', CB + 'GenericConvBPDN.rhochange',
                  CB + 'ConvElasticNet.rhochange',
                  CB + 'ConvBPDNGradReg.rhochange'],
          cases=_XS, fft='opaque', modular=dict(RRS, **SOLVERS))
def cbpdn_xstep(w, case):
    """X solves (D^H D + rho I [+ mu I | + mu G^H G]) x = D^H s + rho (y - u)
    for the current dictionary and penalty, with or without the cached
    factor."""
    cls, lay, hm, hist = case
    np = w.np
    p = problem(w, lay)
    o = {'HighMemSolve': hm}
    if cls == 'ConvBPDNGradReg':
        o['GradWeight'] = w.arr('Wg', (p.M,), nonneg=True)
    s = mk(w, p, cls, o)
    D = newdict(w, p, s, hist >= 1)
    newrho(w, s, hist == 2)
    state(w, p, s)
    Y0, U0, S0, D1 = (w.keep(x) for x in (s.Y, s.U, p.S, D))
    s.xstep()
    den = s.rho
    if cls == 'ConvElasticNet':
        den = s.rho + s.mu
    if cls == 'ConvBPDNGradReg':
        _, GHGf = w.fn('sporco.signal.gradient_filters')(
            p.dimN + 3, p.axisN, p.Nv, dtype=np.dtype('float64'))
        den = s.rho + s.mu * o['GradWeight'] * GHGf
    Df = p.fft(D1, p.Nv, p.axisN)
    b = adj(w, p, Df, p.fft(p.Si, None, p.axisN)) + \
        s.rho * p.fft(Y0 - U0, None, p.axisN)
    normal_eq(w, p, s, D1, den, b, s.Xf)
    w.eq('X is the inverse transform', s.X, p.ifft(s.Xf, p.Nv, p.axisN))
    w.same_shape('shape', s.X, Y0)
    w.unchanged('Y', s.Y, Y0)
    w.unchanged('U', s.U, U0)
    w.unchanged('S', p.S, S0)
    w.unchanged('D', D, D1)


def weights(w, p, wt):
    """A weight option and the array it stands for in the internal
    layout."""
    if wt == 'a':
        W = w.arr('wl1', p.shpX, nonneg=True)
        return W, W
    if wt == 'm':
        W = w.arr('wl1', (1,) * (p.dimN + 2) + (p.M,), nonneg=True)
        return W, W
    return 1.0, 1.0


def constrained(w, p, Y, nn, nb):
    """Y with negative entries set to zero, and entries at which the filter
    would cross the boundary set to zero."""
    np = w.np
    if nn:
        Y = np.where(Y < 0.0, 0.0, Y)
    if nb:
        for n in range(p.dimN):
            i = np.arange(p.Nv[n]).reshape((-1,) + (1,) * (
                p.dimN + 2 - n))
            Y = np.where(i > p.Nv[n] - p.h[n], 0.0, Y)
    return Y


_YS = [(c, lay, wt, nn, nb) for c in ('ConvBPDN', 'ConvElasticNet',
                                      'ConvBPDNGradReg', 'ConvBPDNJoint',
                                      'ConvBPDNProjL1')
       for lay in ('g', 'CK', 'WK') for wt in ('', 'a', 'm')
       for nn in (False, True) for nb in (False, True)
       if (c == 'ConvBPDN' or lay == 'CK' or wt != 'm')
       and not (c == 'ConvBPDNProjL1' and wt)
       and (c in ('ConvBPDN', 'ConvBPDNJoint', 'ConvBPDNProjL1') or
            (wt and nn and nb))]


@contract('C22', [CB + 'GenericConvBPDN.ystep', CB + 'ConvBPDN.ystep',
                  CB + 'ConvBPDNJoint.ystep', CB + 'ConvBPDNProjL1.ystep'],
          cases=_YS, fft='opaque', fork=True,
          modular=dict(RRS, **dict(SOLVERS, **PROJ_L1)))
def cbpdn_ystep(w, case):
    """Y is the proximal operator of the regulariser, with the current
    penalty and weights, at A X + U, with the requested constraints
    imposed."""
    cls, lay, wt, nn, nb = case
    np = w.np
    P = w.mod('sporco.prox')
    p = problem(w, lay)
    o = {'NonNegCoef': nn, 'NoBndryCross': nb}
    wl1 = 1.0
    if wt:
        o['L1Weight'], wl1 = weights(w, p, wt)
    wl2 = 1.0
    if cls == 'ConvBPDNJoint' and wt:
        wl2 = o['L21Weight'] = w.arr('wl21', (1,) * (p.dimN + 2) + (p.M,),
                                     nonneg=True)
    s = mk(w, p, cls, o)
    newrho(w, s)
    s.X = w.arr('X', p.shpX, p.kd)
    s.AX = w.arr('AX', p.shpX, p.kd)
    state(w, p, s)
    U, AX = w.keep(s.U), w.keep(s.AX)
    s.ystep()
    V = AX + U
    ax = p.axisN + (p.axisC, p.axisM)
    if cls == 'ConvBPDNJoint':
        e = P.prox_sl1l2(V, s.lmbda / s.rho * wl1, s.mu / s.rho * wl2,
                         axis=p.axisC)
    elif cls == 'ConvBPDNProjL1':
        e = P.proj_l1(V, s.gamma, axis=ax)
    else:
        e = P.prox_l1(V, s.lmbda / s.rho * wl1)
    w.same_shape('shape', s.Y, AX)
    w.eq('Y', s.Y, constrained(w, p, e, nn, nb))
    w.unchanged('AX', s.AX, AX)
    w.unchanged('U', s.U, U)


_OB = [(c, lay, wt, f, g) for c in ('ConvBPDN', 'ConvElasticNet',
                                    'ConvBPDNGradReg', 'ConvBPDNJoint',
                                    'ConvBPDNProjL1')
       for lay in ('g', 'CK', 'WK') for wt in ('', 'a')
       for f in (False, True) for g in (False, True)
       if not (c == 'ConvBPDNProjL1' and wt)
       and (f != g or c == 'ConvBPDN' and not wt)]


@contract('C17', [CB + 'GenericConvBPDN.eval_objfn',
                  CB + 'GenericConvBPDN.obfn_dfd',
                  CB + 'GenericConvBPDN.obfn_fvarf',
                  CB + 'ConvBPDN.obfn_reg', CB + 'ConvBPDNJoint.obfn_reg',
                  CB + 'ConvElasticNet.obfn_reg',
                  CB + 'ConvBPDNGradReg.obfn_reg',
                  CB + 'ConvBPDNProjL1.eval_objfn'],
          cases=_OB, fft='opaque',
          modular=dict(RRS, **dict(SOLVERS, **dict(NORM2, **PROJ_L1))))
def cbpdn_objective(w, case):
    """The reported objective, data fidelity and regularisation are those of
    the documented functional at the current dictionary, evaluated at X or Y
    as the options fEvalX and gEvalY request."""
    cls, lay, wt, f, g = case
    np = w.np
    p = problem(w, lay)
    o = {'fEvalX': f, 'gEvalY': g}
    wl1 = 1.0
    if wt:
        o['L1Weight'], wl1 = weights(w, p, wt)
    wg = wl2 = 1.0
    if cls == 'ConvBPDNGradReg':
        wg = o['GradWeight'] = w.arr('Wg', (p.M,), nonneg=True)
    if cls == 'ConvBPDNJoint' and wt:
        wl2 = o['L21Weight'] = w.arr('wl21', (1,) * (p.dimN + 2) + (p.M,),
                                     nonneg=True)
    s = mk(w, p, cls, o)
    D = newdict(w, p, s)
    newrho(w, s)
    state(w, p, s)
    s.X = w.arr('X', p.shpX, p.kd)
    s.Xf = p.fft(s.X, None, p.axisN)
    X, Y, Xf = w.keep(s.X), w.keep(s.Y), w.keep(s.Xf)
    r = s.eval_objfn()
    fv, gv = (X if f else Y), (Y if g else X)
    vf = p.fft(fv, None, p.axisN)
    Ef = np.sum(p.fft(D, p.Nv, p.axisN) * vf, axis=p.axisM,
                keepdims=True) - p.fft(p.Si, None, p.axisN)
    dfd = 0.5 * fnorm2(w, p, Ef)
    l1 = np.sum(np.abs(wl1 * gv))
    lm = getattr(s, 'lmbda', None)
    if cls == 'ConvBPDN':
        e = (dfd + lm * l1, dfd, l1)
    elif cls == 'ConvBPDNJoint':
        l21 = np.sum(wl2 * np.sqrt(np.sum(gv ** 2, axis=p.axisC,
                                          keepdims=True)))
        e = (dfd + lm * l1 + s.mu * l21, dfd, l1, l21)
    elif cls == 'ConvElasticNet':
        l2 = 0.5 * np.sum(np.abs(gv) ** 2)
        e = (dfd + lm * l1 + s.mu * l2, dfd, l1, l2)
    elif cls == 'ConvBPDNGradReg':
        Gf, _ = w.fn('sporco.signal.gradient_filters')(
            p.dimN + 3, p.axisN, p.Nv, dtype=np.dtype('float64'))
        gr = 0.5 * sum(fnorm2(w, p, np.sqrt(wg) * Gf[..., i] * vf)
                       for i in range(p.dimN))
        e = (dfd + lm * l1 + s.mu * gr, dfd, l1, gr)
    else:
        P = w.fn('sporco.prox.proj_l1')
        d = P(gv, s.gamma, axis=p.axisN + (p.axisC, p.axisM)) - gv
        e = (dfd, np.sqrt(np.sum(d ** 2)))
    w.true('number of terms', len(r) == len(e))
    for i, (a, b) in enumerate(zip(r, e)):
        w.eq('term %d' % i, a, b)
    w.unchanged('X', s.X, X)
    w.unchanged('Y', s.Y, Y)
    w.unchanged('Xf', s.Xf, Xf)
