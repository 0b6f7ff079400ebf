"""C21: dictionary learning: consistency of the two stages, of the values
reported with them, and the online algorithm."""
from pyvc.framework import contract
from contracts import callee
from contracts.callee import RRS, SOLVERS, NORM2, SPIED, same_shape_fn
from contracts.conv import problem, fnorm2, blocks, shp2

CD = 'sporco.dictlrn.cbpdndl.'
DL = 'sporco.dictlrn.dictlrn.'



def mk(w, p, xm, dm, acc=False, wl=None, sz=None):
    B = w.fn(CD + 'ConvBPDNDictLearn')
    o = {'Verbose': False, 'AccurateDFid': acc}
    if wl is not None:
        o['CBPDN'] = {'L1Weight': wl}
    o = B.Options(o, xmethod=xm, dmethod=dm)
    return B(p.D0, p.S, w.real('lmbda', pos=True), o, xmethod=xm, dmethod=dm,
             dimK=p.dimK, dimN=p.dimN)


def coef_layout(p, X):
    """Coefficients with the channels as additional signals, where each
    channel has its own coefficients."""
    if p.wide:
        return X
    return X.reshape(p.Nv + (1, p.C * p.K, p.M))


@contract('C21', [CD + 'ConvBPDNDictLearn.__init__',
                  CD + 'ConvBPDNDictLearn.getdict',
                  DL + 'DictLearn.getcoef', DL + 'DictLearn.post_xstep',
                  DL + 'DictLearn.post_dstep'],
          cases=[(l, xm, dm) for l in ('K', 'CK', 'WK')
                 for xm in ('admm', 'pgm') for dm in ('ism', 'cns', 'pgm')],
          fft='opaque', modular=dict(RRS, **dict(SOLVERS, **NORM2)))
def cdl_cross(w, case):
    """Both stages start from the same, normalised, dictionary; the
    dictionary stage works with the coefficients the coding stage just
    returned and the coding stage with the dictionary the dictionary stage
    returned, which are also what the user is given."""
    lay, xm, dm = case
    np = w.np
    p = problem(w, lay)
    D0 = w.keep(p.D0)
    s = mk(w, p, xm, dm)
    w.unchanged('initial dictionary', p.D0, D0)
    D = w.mod('sporco.cnvrep').Pcn(D0, p.shpD, p.Nv, 2, 1 if p.wide else 0,
                                   crp=True)
    D = D.reshape(p.shpDi)
    w.eq('initial dictionary of the coding stage', s.xstep.Df,
         p.fft(D, p.Nv, p.axisN))
    w.eq('initial dictionary of the dictionary stage', s.getdict(), D)
    X = w.arr('X_', p.shpX)
    s.xstep.X = X
    s.xstep.Y = w.arr('Y_', p.shpX)
    if xm == 'admm':
        X = s.xstep.Y
    X = w.keep(X)
    w.eq('coefficients', s.getcoef(), X)
    s.post_xstep()
    w.eq('coefficients of the dictionary stage', s.dstep.Zf, p.fft(
        coef_layout(p, X), p.Nv, p.axisN))
    shp = p.Nv + (p.Cd, 1, p.M)
    s.dstep.X = Y = w.arr('D_', shp)
    if dm != 'pgm':
        if dm == 'cns':
            s.dstep.X = w.arr('D1_', shp + (s.dstep.Nb,))
        else:
            s.dstep.X = w.arr('D1_', shp)
        s.dstep.Y = Y
    Y = w.keep(Y)
    w.eq('dictionary', s.getdict(crop=False), Y)
    Dn = w.keep(Y[tuple(slice(0, n) for n in p.h)])
    w.eq('cropped dictionary', s.getdict(), Dn)
    s.post_dstep()
    w.eq('dictionary of the coding stage', s.xstep.Df, p.fft(
        Dn, p.Nv, p.axisN))
    w.eq('coefficients unchanged', s.getcoef(), X)
    w.eq('dictionary unchanged', s.getdict(crop=False), Y)


@contract('C21', [CD + 'ConvBPDNDictLearn.reconstruct',
                  CD + 'ConvBPDNDictLearn.evaluate'],
          cases=[(l, xm, dm, wl) for l in ('K', 'CK', 'WK')
                 for xm in ('admm', 'pgm') for dm in ('cns', 'pgm')
                 for wl in (False, True)],
          fft='opaque', modular=dict(RRS, **dict(SOLVERS, **NORM2)))
def cdl_evaluate(w, case):
    """The reported objective is the documented functional at the current
    dictionary and coefficients."""
    lay, xm, dm, wl = case
    np = w.np
    p = problem(w, lay)
    W = w.arr('wl1', (1,) * 4 + (p.M,), nonneg=True) if wl else 1.0
    s = mk(w, p, xm, dm, True, W if wl else None)
    shp = p.Nv + (p.Cd, 1, p.M)
    for x, q in ((s.xstep, p.shpX), (s.dstep, shp)):
        x.X, x.Y = w.arr('X_', q), w.arr('Y_', q)
    if dm == 'cns':
        s.dstep.X = w.arr('D1_', shp + (s.dstep.Nb,))
    X = w.keep(s.xstep.Y if xm == 'admm' else s.xstep.X)
    D = w.keep(s.dstep.Y if dm == 'cns' else s.dstep.X)
    R = np.sum(p.fft(D, p.Nv, p.axisN) * p.fft(X, p.Nv, p.axisN),
               axis=p.axisM, keepdims=True)
    w.eq('reconstruction', s.reconstruct(), p.ifft(R, p.Nv, p.axisN))
    r = s.evaluate()
    dfd = 0.5 * fnorm2(w, p, R - p.fft(p.Si, None, p.axisN))
    l1 = np.sum(np.abs(W * X))
    w.eq('data fidelity', r['DFid'], dfd)
    w.eq('l1 term', r['RegL1'], l1)
    w.eq('total', r['ObjFun'], dfd + s.xstep.lmbda * l1)


OL = 'sporco.dictlrn.onlinecdl.'


def online(w, p, zm, msk):
    B = w.fn(OL + ('OnlineConvBPDNMaskDictLearn' if msk else
                   'OnlineConvBPDNDictLearn'))
    o = B.Options({'Verbose': False, 'ZeroMean': zm,
                   'eta_a': w.real('eta_a', pos=True),
                   'eta_b': w.real('eta_b', pos=True)})
    return B(p.D0, w.real('lmbda', pos=True), o, dimK=p.dimK, dimN=p.dimN)


OLAY = ('g', 'K', 'C', 'CK', 'W', 'WK')


@contract('C21', [OL + 'OnlineConvBPDNDictLearn.__init__',
                  OL + 'OnlineConvBPDNDictLearn.init_vars',
                  OL + 'OnlineConvBPDNDictLearn.setcoef',
                  OL + 'OnlineConvBPDNDictLearn.dstep',
                  OL + 'OnlineConvBPDNDictLearn.getdict',
                  OL + 'OnlineConvBPDNMaskDictLearn.dstep'],
          cases=[(l, zm, m, 0) for l in OLAY for zm in (False, True)
                 for m in (False, True)] +
          [(l, True, m, h) for l in ('K', 'CK', 'WK')
           for m in (False, True) for h in (1, 2)],
          fft='opaque', modular=RRS)
def online_dstep(w, case):
    """The dictionary moves from its current value along the gradient of the
    (masked) data fidelity of the current signals and coefficients, with the
    step size of the current iteration, and is projected onto the constraint
    set."""
    lay, zm, msk, hist = case
    np = w.np
    p = problem(w, lay)
    if lay in ('C', 'CK'):
        w.assume(p.C > 1)
    s = online(w, p, zm, msk)
    C = w.mod('sporco.cnvrep')
    dCd = 1 if p.wide else 0
    D0 = C.Pcn(p.D0.reshape(p.shpDi), p.shpD, (), 2, dCd, crp=True, zm=zm)
    w.eq('initial dictionary', s.getdict(), D0)
    if hist:
        # an earlier batch with another (or the same) number of signals
        if hist == 1:
            K1 = w.dim('K1')
            w.assume(K1 != p.K)
        else:
            K1 = p.K
        s.init_vars(w.arr('S1', p.Nv + p.S.shape[2:-1] + (K1,)), p.dimK)
        s.setcoef(w.arr('Z1', p.Nv + (p.Cx, K1, p.M)))
    s.D = w.arr('D', p.shpDi)
    D = w.keep(s.D)
    s.init_vars(p.S, p.dimK)
    Df = p.fft(D, p.Nv, p.axisN)
    w.eq('transform of the dictionary', s.Df, Df)
    Z = w.arr('Z_', p.shpX)
    Z0 = w.keep(Z)
    s.setcoef(Z)
    w.unchanged('coefficients', Z, Z0)
    Zf = p.fft(Z0, p.Nv, p.axisN)
    Sf = p.fft(p.Si, None, p.axisN)
    if p.wide or lay in ('g', 'K'):
        w.eq('coefficients used', s.Zf, Zf)
    s.Sf = p.fft(p.S.reshape(s.cri.shpS), None, p.axisN)
    s.j = w.int('j', lo=0, hi=None if w.sym else 9)
    a = ()
    W = None
    if msk:
        W = w.arr('W', p.Nv + (1, 1, 1))
        a = (W,)
    V0 = w.arr('V', p.Nv + (p.Cd, 1, p.M))
    if not msk:
        w.eq('constraint set', s.Pcn(V0), C.Pcn(V0, p.shpD, (), 2, dCd,
                                                crp=True, zm=zm))
    r = w.arr('proj', p.shpDi)
    arg = []

    def prox(v):
        arg.append(v)
        return r
    s.Pcn = prox
    s.dstep(*a)
    R = np.sum(Df * Zf, axis=p.axisM, keepdims=True) - Sf
    if msk:
        R = p.fft(W * p.ifft(R, p.Nv, p.axisN), None, p.axisN)
    G = np.conj(Zf) * R
    G = np.sum(G, axis=p.axisK if p.wide else (p.axisC, p.axisK),
               keepdims=True)
    eta = s.opt['eta_a'] / (s.j + s.opt['eta_b'])
    w.eq('step size', s.eta, eta)
    V = p.ifft(Df - eta * G, p.Nv, p.axisN)
    w.eq('gradient step', s.G, V)
    w.true('projected once', len(arg) == 1)
    w.eq('projected array', arg[0], V)
    w.eq('dictionary', s.getdict(), r)
    w.eq('previous dictionary', s.Dprv, D)


BD = 'sporco.dictlrn.bpdndl.BPDNDictLearn'
WD = 'sporco.dictlrn.wbpdndl.WeightedBPDNDictLearn'


@contract('C21', [BD + '.__init__', BD + '.evaluate', WD + '.__init__',
                  WD + '.evaluate', DL + 'DictLearn.post_xstep',
                  DL + 'DictLearn.post_dstep', DL + 'DictLearn.getdict',
                  DL + 'DictLearn.getcoef'],
          cases=[(wt, zm, wl) for wt in (False, True)
                 for zm in (False, True) for wl in (False, True)],
          modular=RRS)
def dl_cross(w, case):
    """As cdl_cross and cdl_evaluate, for dictionary learning without
    convolution."""
    wt, zm, wl = case
    np = w.np
    N, M, K = w.dim('N', lo=2), w.dim('M', lo=2), w.dim('K', lo=2)
    D0, S = w.arr('D0', (N, M)), w.arr('S', (N, K))
    D0k = w.keep(D0)
    lmbda = w.real('lmbda', pos=True)
    B = w.fn(WD if wt else BD)
    W = 1.0
    ob = {}
    if wl:
        W = ob['L1Weight'] = w.arr('wl1', (M, 1), nonneg=True)
    o = B.Options({'Verbose': False, 'AccurateDFid': True, 'BPDN': ob,
                   'CMOD': {'ZeroMean': zm}})
    if wt:
        Wd = w.arr('W', (N, K), nonneg=True)
        s = B(D0, S, lmbda, Wd, opt=o)
        P = w.mod('sporco.pgm.cmod').getPcn(zm, False)
    else:
        Wd = 1.0
        s = B(D0, S, lmbda, opt=o)
        P = w.mod('sporco.admm.cmod').getPcn(zm)
    w.unchanged('initial dictionary', D0, D0k)
    D = P(D0k)
    w.eq('initial dictionary of the coding stage', s.xstep.D, D)
    w.eq('initial dictionary of the dictionary stage', s.getdict(), D)
    s.xstep.X, s.xstep.Y = w.arr('X_', (M, K)), w.arr('Y_', (M, K))
    s.dstep.X, s.dstep.Y = w.arr('DX_', (N, M)), w.arr('DY_', (N, M))
    X = w.keep(s.xstep.X if wt else s.xstep.Y)
    D = w.keep(s.dstep.X if wt else s.dstep.Y)
    w.eq('coefficients', s.getcoef(), X)
    w.eq('dictionary', s.getdict(), D)
    s.post_xstep()
    w.eq('coefficients of the dictionary stage', s.dstep.Z, X)
    s.post_dstep()
    w.eq('dictionary of the coding stage', s.xstep.D, D)
    r = s.evaluate()
    dfd = 0.5 * np.sum(Wd * (D.dot(X) - S) ** 2)
    l1 = np.sum(np.abs(W * X))
    w.eq('data fidelity', r['DFid'], dfd)
    w.eq('l1 term', r['RegL1'], l1)
    w.eq('total', r['ObjFun'], dfd + lmbda * l1)


MD = 'sporco.dictlrn.cbpdndlmd.'


@contract('C21', [MD + 'ConvBPDNMaskDictLearn.__init__',
                  MD + 'ConvBPDNMaskDictLearn.getdict',
                  MD + 'ConvBPDNMaskDictLearn.reconstruct',
                  MD + 'ConvBPDNMaskDictLearn.evaluate'],
          cases=[(l, xm, dm, wl) for l in ('K', 'CK', 'WK')
                 for xm in ('admm', 'pgm') for dm in ('ism', 'cns', 'pgm')
                 for wl in (False, True)],
          fft='opaque', modular=dict(RRS, **dict(SOLVERS, **NORM2)))
def cdlmd_cross(w, case):
    """As cdl_cross and cdl_evaluate, with a mask."""
    lay, xm, dm, wl = case
    np = w.np
    p = problem(w, lay)
    D0 = w.keep(p.D0)
    Wm = w.arr('W', p.Nv + (1, 1, 1))
    W = w.arr('wl1', (1,) * 4 + (p.M,), nonneg=True) if wl else 1.0
    B = w.fn(MD + 'ConvBPDNMaskDictLearn')
    o = {'Verbose': False, 'AccurateDFid': True}
    if wl:
        o['CBPDN'] = {'L1Weight': W}
    lmbda = w.real('lmbda', pos=True)
    s = B(p.D0, p.S, lmbda, Wm, B.Options(o, xmethod=xm, dmethod=dm),
          xmethod=xm, dmethod=dm, dimK=p.dimK, dimN=p.dimN)
    w.unchanged('initial dictionary', p.D0, D0)
    D = w.mod('sporco.cnvrep').Pcn(D0, p.shpD, p.Nv, 2, 1 if p.wide else 0,
                                   crp=True).reshape(p.shpDi)
    if not wl:
        w.eq('initial dictionary of the coding stage', s.xstep.Df,
             p.fft(D, p.Nv, p.axisN))
        w.eq('initial dictionary of the dictionary stage', s.getdict(), D)
    X = w.arr('X_', p.shpX)
    if xm == 'pgm':
        s.xstep.X = X
    else:
        s.xstep.Y = w.arr('Y_', shp2(p))
        X = blocks(w, p, s.xstep.Y)[1]
        s.xstep.X = w.arr('Xx_', p.shpX)
    X = w.keep(X)
    w.eq('coefficients', s.getcoef(), X)
    s.post_xstep()
    w.eq('coefficients of the dictionary stage', s.dstep.Zf, p.fft(
        coef_layout(p, X), p.Nv, p.axisN))
    shp = p.Nv + (p.Cd, 1, p.M)
    D = w.arr('D_', shp)
    if dm == 'ism':
        K = p.K if p.wide else p.C * p.K
        s.dstep.Y = w.arr('DY_', p.Nv + (p.Cd, 1, K + p.M))
        D = s.dstep.Y[..., K:]
        s.dstep.X = w.arr('Dx_', shp)
    elif dm == 'cns':
        s.dstep.Y = D
        s.dstep.X = w.arr('Dx_', shp + (s.dstep.Nb,))
    else:
        s.dstep.X = D
    D = w.keep(D)
    w.eq('dictionary', s.getdict(crop=False), D)
    Dn = w.keep(D[tuple(slice(0, n) for n in p.h)])
    w.eq('cropped dictionary', s.getdict(), Dn)
    R = np.sum(p.fft(D, p.Nv, p.axisN) * p.fft(X, p.Nv, p.axisN),
               axis=p.axisM, keepdims=True)
    R = p.ifft(R, p.Nv, p.axisN)
    w.eq('reconstruction', s.reconstruct(), R)
    s.post_dstep()
    w.eq('dictionary of the coding stage', s.xstep.Df, p.fft(
        Dn, p.Nv, p.axisN))
    r = s.evaluate()
    dfd = 0.5 * np.sum((Wm * (R - p.Si)) ** 2)
    l1 = np.sum(np.abs(W * X))
    w.eq('data fidelity', r['DFid'], dfd)
    w.eq('l1 term', r['RegL1'], l1)
    w.eq('total', r['ObjFun'], dfd + lmbda * l1)


@contract('C21', [OL + 'OnlineConvBPDNDictLearn.solve',
                  OL + 'OnlineConvBPDNDictLearn.xstep',
                  OL + 'OnlineConvBPDNMaskDictLearn.solve',
                  OL + 'OnlineConvBPDNMaskDictLearn.xstep'],
          cases=[(l, m) for l in OLAY for m in (0, 1, 2)],
          fft='opaque', modular=RRS)
def online_solve(w, case):
    """One coding problem for the given signals and mask with the current
    dictionary, then a dictionary step with its coefficients; iterations are
    numbered consecutively."""
    lay, msk = case
    np = w.np
    p = problem(w, lay)
    s = online(w, p, False, msk > 0)
    s.D = w.arr('D', p.shpDi)
    D = w.keep(s.D)
    j0 = s.j = w.int('j', lo=0, hi=None if w.sym else 9)
    Z = w.arr('Z_', p.shpX)
    Sf = p.fft(p.Si, None, p.axisN)
    log = []

    class Coder(object):
        itstat = []

        def __init__(self, *a, **kw):
            self.a, self.kw, self.Sf = a, kw, Sf
            log.append(self)

        def solve(self):
            log.append('coded')

        def getcoef(self):
            w.true('coefficients of the solution', log[-1] == 'coded')
            return Z
    cb = w.mod('sporco.admm.cbpdn')
    nm = 'ConvBPDNMaskDcpl' if msk else 'ConvBPDN'
    orig = getattr(cb, nm)

    def dstep(*a):
        log.append(('dstep', a))
        w.eq('transform of the dictionary', s.Df, p.fft(D, p.Nv, p.axisN))
        w.eq('transform of the coefficients', np.sum(s.Zf), np.sum(
            p.fft(Z, p.Nv, p.axisN)))
        w.eq('transform of the signals', s.Sf, Sf)
    s.dstep = dstep
    s.manage_itstat = lambda: log.append(('stat', s.j))
    W = None
    if msk == 2:
        W = w.arr('W', p.Nv + (1, 1, 1))
    try:
        setattr(cb, nm, Coder)
        r = s.solve(p.S, *((W,) if msk else ()), dimK=p.dimK)
    finally:
        setattr(cb, nm, orig)
    w.true('sequence', len(log) == 4 and log[1] == 'coded' and
           log[2][0] == 'dstep' and log[3][0] == 'stat')
    c = log[0]
    w.eq('dictionary of the coding problem', c.a[0], D.reshape(p.shpD))
    w.eq('signals of the coding problem', c.a[1], p.S)
    w.eq('parameter of the coding problem', c.a[2], s.lmbda)
    w.true('layout of the coding problem', c.kw['dimK'] == p.dimK and
           c.kw['dimN'] == 2)
    if msk:
        for x in (c.a[3], log[2][1][0]):
            w.eq('mask', x, W if msk == 2 else np.ones((1,) * 5))
    w.true('options', c.a[-1] is s.opt['CBPDN'])
    w.eq('iteration recorded', log[3][1], j0)
    w.eq('next iteration', s.j, j0 + 1)
    w.true('dictionary returned', r is s.D)
