"""C16, C17: additive mask simulation and multiple dictionaries, wrappers
around a convolutional sparse coding solver."""
from pyvc.framework import contract
from contracts.callee import RRS, SOLVERS, NORM2
from contracts.conv import CB, problem, fnorm2


def mkams(w, p, opt=None, msk='full'):
    A = w.fn(CB + 'AddMaskSim')
    B = w.fn(CB + 'ConvBPDN')
    o = B.Options(dict({'Verbose': False}, **(opt or {})))
    sh = {'full': p.shpS, 'image': p.Nv + (1, 1, 1)}[msk]
    p.W = w.arr('W', sh, nonneg=True)
    if not w.sym:
        p.W = (p.W > w.np.mean(p.W)).astype('float64')
    s = A(B, p.D0, p.S, p.W, w.real('lmbda', pos=True), o, dimK=p.dimK,
          dimN=p.dimN)
    p.shpA = p.shpX[:-1] + (p.M + p.Cd,)
    return s


_AC = [(l, m, h) for l in ('g', 'CK', 'WK') for m in ('full', 'image')
       for h in (0, 1)]


def impulses(w, p):
    """One impulse filter for each channel of the dictionary."""
    np = w.np
    d = np.where(np.arange(p.h[0]).reshape((-1,) + (1,) * (p.dimN - 1)) == 0,
                 1.0, 0.0)
    for n in range(1, p.dimN):
        d = d * np.where(np.arange(p.h[n]).reshape(
            (1,) * n + (-1,) + (1,) * (p.dimN - 1 - n)) == 0, 1.0, 0.0)
    e = np.eye(p.Cd).reshape((1,) * p.dimN + (p.Cd, 1, p.Cd))
    return d.reshape(p.h + (1, 1, 1)) * e


@contract('C22', [CB + 'AddMaskSim.ystep', CB + 'AddMaskSim.__init__',
                  CB + 'AddMaskSim.setdict', CB + 'AddMaskSim.getcoef',
                  CB + 'AddMaskSim.reconstruct'],
          cases=_AC, fft='opaque', fork=True, modular=dict(RRS, **SOLVERS))
def ams_step(w, case):
    """The dictionary of the inner solver is the current dictionary followed
    by impulse filters; the coefficient maps of the impulses are free where
    the mask is zero and zero elsewhere, the other maps are as without the
    mask; the coefficients and the reconstruction leave the impulses out."""
    lay, msk, hist = case
    np = w.np
    P = w.mod('sporco.prox')
    p = problem(w, lay)
    s = mkams(w, p, msk=msk)
    c = s.cbpdn
    D = p.D0.reshape(p.shpDi)
    if hist:
        D = w.arr('D', p.shpDi)
        s.setdict(D)
    c.rho = w.real('rho', pos=True)
    c.rhochange()
    M = p.M
    w.true('size', tuple(c.D.shape) == tuple(p.shpDi[:-1]) + (M + p.Cd,))
    w.eq('dictionary', c.D[..., :M], D)
    w.eq('impulses', c.D[..., M:], impulses(w, p))
    w.eq('transform of the dictionary', c.Df, p.fft(c.D, p.Nv, p.axisN))
    for n in ('X', 'Y', 'U', 'AX'):
        setattr(c, n, w.arr(n, p.shpA))
    AX, U = w.keep(c.AX), w.keep(c.U)
    c.ystep()
    V = AX + U
    w.eq('coefficients', c.Y[..., :M],
         P.prox_l1(V[..., :M], c.lmbda / c.rho))
    W = p.W.reshape(p.shpS if msk == 'full' else p.Nv + (1, 1, 1))
    if p.Cd > 1 and msk == 'full':
        W = np.swapaxes(W, p.axisC, p.axisM)
    w.eq('impulse coefficients', c.Y[..., M:],
         np.where(W != 0.0, 0.0, V[..., M:]))
    w.unchanged('AX', c.AX, AX)
    w.unchanged('U', c.U, U)
    w.eq('coefficients returned', s.getcoef(), c.getcoef()[..., :M])
    Yf = p.fft(c.Y[..., :M], None, p.axisN)
    R = p.ifft(np.sum(p.fft(D, p.Nv, p.axisN) * Yf, axis=p.axisM), p.Nv,
               p.axisN)
    w.eq('reconstruction', s.reconstruct(), R)
    X = w.arr('Xr', p.shpX)
    R = p.ifft(np.sum(p.fft(D, p.Nv, p.axisN) * p.fft(X, None, p.axisN),
                      axis=p.axisM), p.Nv, p.axisN)
    w.eq('reconstruction of given coefficients', s.reconstruct(X), R)


@contract('C17', [CB + 'AddMaskSim.obfn_gvar'],
          cases=[(l, f, g) for l in ('g', 'CK', 'WK')
                 for f in (False, True) for g in (False, True)],
          fft='opaque',
          modular=dict(RRS, **dict(SOLVERS, **NORM2)))
def ams_objective(w, case):
    """The regularisation term leaves out the impulse coefficients, which
    only enter the data fidelity."""
    lay, f, g = case
    np = w.np
    p = problem(w, lay)
    s = mkams(w, p, {'fEvalX': f, 'gEvalY': g})
    c = s.cbpdn
    # any dictionary of the inner solver
    D = w.arr('D', p.shpDi[:-1] + (p.M + p.Cd,))
    c.setdict(D)
    for n in ('X', 'Y', 'U'):
        setattr(c, n, w.arr(n, p.shpA))
    c.Xf = p.fft(c.X, None, p.axisN)
    X, Y = w.keep(c.X), w.keep(c.Y)
    r = c.eval_objfn()
    fv, gv = (X if f else Y), (Y if g else X)
    vf = p.fft(fv, None, p.axisN)
    Ef = np.sum(p.fft(D, p.Nv, p.axisN) * vf, axis=p.axisM,
                keepdims=True) - p.fft(p.Si, None, p.axisN)
    dfd = 0.5 * fnorm2(w, p, Ef)
    l1 = np.sum(np.abs(gv[..., :p.M]))
    for i, (a, b) in enumerate(zip(r, (dfd + c.lmbda * l1, dfd, l1))):
        w.eq('term %d' % i, a, b)
    w.unchanged('X', c.X, X)
    w.unchanged('Y', c.Y, Y)


@contract('C22', [CB + 'MultiDictConvBPDN.__init__',
                  CB + 'MultiDictConvBPDN.reconstruct',
                  CB + 'MultiDictConvBPDN.getcoef'],
          cases=[(dc, dn) for dc in (0, 1) for dn in (1, 2)],
          fft='opaque', fork=True, modular=dict(RRS, **SOLVERS))
def multidict(w, case):
    """The inner solver sees every dictionary, zero-padded to a common
    size, and every signal, each on its own channels, so that the data term
    is the sum of the data terms, and reconstruct(b) is the reconstruction
    with dictionary b."""
    dimC, dimN = case
    np = w.np
    M = w.dim('M')
    Nv = tuple(w.dim('N%d' % i, lo=3, hi=6) for i in range(dimN))
    hs = [(2, 3)[:dimN], (3, 1)[:dimN]]
    chn = [2, 1] if dimC else [1, 1]
    D = [w.arr('D%d' % b, hs[b] + ((chn[b],) if dimC else ()) + (M,))
         for b in range(2)]
    S = [w.arr('S%d' % b, Nv + ((chn[b],) if dimC else ()))
         for b in range(2)]
    A = w.fn(CB + 'MultiDictConvBPDN')
    B = w.fn(CB + 'ConvBPDN')
    s = A(B, D, S, w.real('lmbda', pos=True), B.Options({'Verbose': False}),
          dimK=0, dimN=dimN)
    F = w.mod('sporco.fft')
    ax = tuple(range(dimN))
    X = w.arr('X', Nv + (1, 1, M))
    Xf = F.rfftn(X, None, ax)
    c = s.cbpdn
    o = 0
    for b in range(2):
        Db = D[b].reshape(hs[b] + (chn[b], 1, M))
        Dbf = F.rfftn(Db, Nv, ax)
        # compare in the spatial domain, where the padding is explicit
        blk = c.D[(slice(None),) * dimN + (slice(o, o + chn[b]),)]
        pad = [(0, max(h[i] for h in hs) - hs[b][i]) for i in range(dimN)]
        w.eq('dictionary %d' % b, blk, np.pad(Db, pad + [(0, 0)] * 3,
                                              'constant'))
        w.eq('signal %d' % b, c.S[(slice(None),) * dimN +
                                  (slice(o, o + chn[b]),)],
             S[b].reshape(Nv + (chn[b], 1, 1)))
        R = F.irfftn(np.sum(c.Df[(slice(None),) * dimN +
                                 (slice(o, o + chn[b]),)] * Xf, axis=-1),
                     Nv, ax)
        w.eq('reconstruction %d' % b, s.reconstruct(b, X), R)
        if not w.sym:
            R = F.irfftn(np.sum(Dbf * Xf, axis=-1), Nv, ax)
            w.eq('reconstruction %d' % b, s.reconstruct(b, X), R)
        o += chn[b]
    w.true('all channels', c.D.shape[dimN] == o)
    w.eq('transform of the dictionary', c.Df, F.rfftn(c.D, Nv, ax))
    w.eq('coefficients', s.getcoef(), c.getcoef())
