"""C10, C16, C17: the proximal gradient solvers: gradient and Hessian of the
data fidelity, proximal step, objective."""
from pyvc.framework import contract
from contracts.callee import NORM2, same_shape_fn
from contracts import conv
from contracts import c16_ccmod as cc
from contracts.conv import adj, fnorm2

PB, PC = 'sporco.pgm.bpdn.', 'sporco.pgm.cmod.'
PX = {'sporco.prox.prox_l1': same_shape_fn('sporco.prox.prox_l1')}


def opts(B, o):
    return B.Options(dict({'Verbose': False}, **o))


def ss(np, x):
    return np.sum(np.abs(x) ** 2)


def wmat(w, kind, sh):
    """Weight arrays that broadcast against a matrix."""
    if kind is None:
        return None, 1.0
    W = w.arr('W', {'full': sh, 'row': (1, sh[1]), 'col': (sh[0], 1)}[kind],
              nonneg=True)
    return W, W


_WK = (('BPDN', None), ('WeightedBPDN', None), ('WeightedBPDN', 'full'),
       ('WeightedBPDN', 'col'))


def mkb(w, cls, wk, o=None, wl=False):
    np = w.np
    n, m, k = w.dim('n'), w.dim('m'), w.dim('k')
    h = type('H', (), {})()
    h.S, h.D = w.arr('S', (n, k)), w.arr('D', (n, m))
    o = dict(o or {})
    h.wl1 = 1.0
    if wl:
        h.wl1 = o['L1Weight'] = w.arr('wl1', (m, k), nonneg=True)
    C = w.fn(PB + cls)
    lm = w.real('lmbda', pos=True)
    W, h.W = wmat(w, wk, (n, k))
    D0 = w.arr('D0', (n, m))
    h.s = C(D0, h.S, lm, W, opts(C, o)) if cls[0] == 'W' else \
        C(D0, h.S, lm, opts(C, o))
    h.s.setdict(h.D)
    h.s.L = w.real('L', pos=True)
    h.X, h.Y, h.V = (w.arr(c, (m, k)) for c in 'XYV')
    h.s.X, h.s.Y = h.X, h.Y
    return h


@contract('C10', [PB + 'BPDN.grad_f', PB + 'BPDN.hessian_f', PB +
                  'BPDN.obfn_f', PB + 'BPDN.setdict',
                  PB + 'WeightedBPDN.__init__', PB + 'WeightedBPDN.grad_f',
                  PB + 'WeightedBPDN.hessian_f', PB + 'WeightedBPDN.obfn_f'],
          cases=_WK)
def bpdn_smooth(w, case):
    """f, its gradient and its Hessian for the current dictionary."""
    cls, wk = case
    np = w.np
    h = mkb(w, cls, wk)
    s, D, S, W = h.s, h.D, h.S, h.W
    X, Y, V = (w.keep(v) for v in (h.X, h.Y, h.V))
    w.eq('gradient at Y', s.grad_f(), D.T.dot(W * (D.dot(Y) - S)))
    w.eq('gradient', s.grad_f(h.V), D.T.dot(W * (D.dot(V) - S)))
    w.eq('Hessian', s.hessian_f(h.V), D.T.dot(W * D.dot(V)))
    f = lambda x: 0.5 * np.sum(W * (D.dot(x) - S) ** 2)
    w.eq('f at X', s.obfn_f(), f(X))
    w.eq('f', s.obfn_f(h.V), f(V))
    for n, a, b in (('X', h.X, X), ('Y', h.Y, Y), ('V', h.V, V)):
        w.unchanged(n, a, b)


@contract('C10', [PB + 'BPDN.prox_g'],
          cases=[(nn, wl) for nn in (False, True) for wl in (False, True)])
def bpdn_prox(w, case):
    """The prox of g / L, and its restriction to nonnegative arrays."""
    nn, wl = case
    np = w.np
    P = w.mod('sporco.prox')
    h = mkb(w, 'BPDN', None, {'NonNegCoef': nn}, wl)
    V = w.keep(h.V)
    U = s = h.s.prox_g(h.V)
    R = P.prox_l1(V, h.s.lmbda / h.s.L * h.wl1)
    w.eq('prox', U, np.where(R < 0, 0.0, R) if nn else R)
    w.unchanged('V', h.V, V)


@contract('C17', [PB + 'BPDN.eval_objfn', PB + 'BPDN.obfn_reg', PB +
                  'BPDN.reconstruct', PB + 'BPDN.getcoef'],
          cases=[a + (wl,) for a in _WK for wl in (False, True)])
def bpdn_objective(w, case):
    cls, wk, wl = case
    np = w.np
    h = mkb(w, cls, wk, None, wl)
    X, V = w.keep(h.X), w.keep(h.V)
    r = h.s.eval_objfn()
    dfd = 0.5 * np.sum(h.W * (h.D.dot(X) - h.S) ** 2)
    l1 = np.sum(np.abs(h.wl1 * X))
    w.true('number of terms', len(r) == 3)
    for i, (a, b) in enumerate(zip(r, (dfd + h.s.lmbda * l1, dfd, l1))):
        w.eq('term %d' % i, a, b)
    w.eq('reconstruction', h.s.reconstruct(), h.D.dot(X))
    w.eq('reconstruction of given coefficients', h.s.reconstruct(h.V),
         h.D.dot(V))
    w.eq('coefficients', h.s.getcoef(), X)
    w.unchanged('X', h.X, X)


_WC = (('CnstrMOD', None), ('WeightedCnstrMOD', None),
       ('WeightedCnstrMOD', 'full'), ('WeightedCnstrMOD', 'row'),
       ('WeightedCnstrMOD', 'col'))


def mkc(w, cls, wk, o=None, later=True):
    n, m, k = w.dim('n'), w.dim('m'), w.dim('k')
    h = type('H', (), {})()
    h.S, h.Z = w.arr('S', (n, k)), w.arr('Z', (m, k))
    C = w.fn(PC + cls)
    W, h.W = wmat(w, wk, (n, k))
    Z0 = w.arr('Z0', (m, k)) if later else h.Z
    if cls[0] == 'W':
        h.s = C(Z0, h.S, W, None, opts(C, o or {}))
    else:
        h.s = C(Z0, h.S, None, opts(C, o or {}))
    if later:
        h.s.setcoef(h.Z)
    h.X, h.Y, h.V = (w.arr(c, (n, m)) for c in 'XYV')
    h.s.X, h.s.Y = h.X, h.Y
    return h


@contract('C10', [PC + 'CnstrMOD.grad_f', PC + 'CnstrMOD.hessian_f', PC +
                  'CnstrMOD.obfn_f', PC + 'CnstrMOD.setcoef',
                  PC + 'CnstrMOD.reconstruct', PC + 'CnstrMOD.getdict',
                  PC + 'WeightedCnstrMOD.__init__',
                  PC + 'WeightedCnstrMOD.grad_f',
                  PC + 'WeightedCnstrMOD.hessian_f',
                  PC + 'WeightedCnstrMOD.obfn_f'],
          cases=[a + (l,) for a in _WC for l in (False, True)])
def cmod_smooth(w, case):
    cls, wk, later = case
    np = w.np
    h = mkc(w, cls, wk, None, later)
    s, Z, S, W = h.s, h.Z, h.S, h.W
    X, Y, V = (w.keep(v) for v in (h.X, h.Y, h.V))
    g = lambda v: (W * (v.dot(Z) - S)).dot(Z.T)
    w.eq('gradient at Y', s.grad_f(), g(Y))
    w.eq('gradient', s.grad_f(h.V), g(V))
    w.eq('Hessian', s.hessian_f(h.V), (W * V.dot(Z)).dot(Z.T))
    f = lambda x: 0.5 * np.sum(W * (x.dot(Z) - S) ** 2)
    w.eq('f at X', s.obfn_f(), f(X))
    w.eq('f', s.obfn_f(h.V), f(V))
    w.eq('reconstruction', s.reconstruct(), X.dot(Z))
    w.eq('reconstruction with given dictionary', s.reconstruct(h.V),
         V.dot(Z))
    w.eq('dictionary', s.getdict(), X)
    for n, a, b in (('X', h.X, X), ('Y', h.Y, Y), ('V', h.V, V)):
        w.unchanged(n, a, b)


def _pcn(w, zm, nn, V):
    np = w.np
    if zm:
        V = V - np.mean(V, axis=0, keepdims=True)
    if nn:
        V = np.where(V < 0, 0.0, V)
    n = np.sqrt(np.sum(V ** 2, axis=0, keepdims=True))
    return V / np.where(n == 0, 1.0, n)


@contract('C12', [PC + 'CnstrMOD.prox_g', PC + 'getPcn', PC + 'normalise',
                  PC + 'zeromean'],
          cases=[(False, False), (True, False), (False, True)])
def cmod_prox(w, case):
    """Columns are normalised, after removing their means or negative
    entries where requested; zero columns stay zero."""
    zm, nn = case
    h = mkc(w, 'CnstrMOD', None, {'ZeroMean': zm, 'NonNegCoef': nn})
    V = w.keep(h.V)
    w.eq('projection', h.s.prox_g(h.V), _pcn(w, zm, nn, V))
    w.unchanged('V', h.V, V)


@contract('C17', [PC + 'CnstrMOD.eval_objfn', PC + 'CnstrMOD.obfn_cns'],
          cases=[a + z for a in (('CnstrMOD', None),
                                 ('WeightedCnstrMOD', 'full'))
                 for z in ((False, False), (True, False), (False, True))])
def cmod_objective(w, case):
    cls, wk, zm, nn = case
    np = w.np
    h = mkc(w, cls, wk, {'ZeroMean': zm, 'NonNegCoef': nn})
    X = w.keep(h.X)
    r = h.s.eval_objfn()
    w.true('number of terms', len(r) == 2)
    w.eq('data fidelity', r[0], 0.5 * np.sum(
        h.W * (X.dot(h.Z) - h.S) ** 2))
    V = X - np.mean(X, axis=0, keepdims=True) if zm else X
    V = np.clip(V, 0, None) if nn else V
    V = w.fn(PC + 'normalise')(V)
    w.eq('constraint', r[1], np.sqrt(np.sum((V - X) ** 2)))
    w.unchanged('X', h.X, X)


# --- convolutional sparse coding ---

CB = 'sporco.pgm.cbpdn.'
_LX = ('g', 'CK', 'WK')


def mkcb(w, p, cls, o=None, msk='full'):
    B = w.fn(CB + cls)
    lm = w.real('lmbda', pos=True)
    kw = dict(dimK=p.dimK, dimN=p.dimN)
    p.W = 1.0
    if cls == 'ConvBPDNMask':
        W = None
        if msk != 'none':
            sh = p.shpS if msk == 'full' else p.Nv + (1, 1, 1)
            W = p.W = w.arr('W', sh, nonneg=True)
        s = B(p.D0, p.S, lm, W, opts(B, o or {}), **kw)
    else:
        s = B(p.D0, p.S, lm, opts(B, o or {}), **kw)
    s.L = w.real('L', pos=True)
    return s


_MK = [('ConvBPDN', None)] + [('ConvBPDNMask', m) for m in
                              ('none', 'full', 'image')]


@contract('C10', [CB + 'ConvBPDN.grad_f', CB + 'ConvBPDN.eval_Rf',
                  CB + 'ConvBPDN.hessian_f', CB + 'ConvBPDN.setdict',
                  CB + 'ConvBPDN.__init__', CB + 'ConvBPDNMask.__init__',
                  CB + 'ConvBPDNMask.grad_f',
                  CB + 'ConvBPDNMask.hessian_f'],
          cases=[m + (l, h) for m in _MK for l in _LX for h in (0, 1)],
          fft='opaque')
def cbpdn_smooth(w, case):
    """Gradient D^H (W^2 (D v - s)) and Hessian D^H W^2 D v in the DFT
    domain, for the current dictionary."""
    cls, msk, lay, hist = case
    np = w.np
    p = conv.problem(w, lay)
    s = mkcb(w, p, cls, None, msk)
    D = conv.newdict(w, p, s, hist)
    Df = p.fft(D, p.Nv, p.axisN)
    s.Yf = p.fft(w.arr('Y', p.shpX), None, p.axisN)
    s.Xf = p.fft(w.arr('X', p.shpX), None, p.axisN)
    Vf = p.fft(w.arr('V', p.shpX), None, p.axisN)
    keep = [(n, a, w.keep(a)) for n, a in (
        ('Yf', s.Yf), ('Xf', s.Xf), ('Vf', Vf), ('S', p.S))]
    Sf = p.fft(p.Si, None, p.axisN)

    def op(Rf):
        if cls == 'ConvBPDNMask':
            R = p.ifft(Rf, p.Nv, p.axisN)
            Rf = p.fft(p.W * (p.W * R), None, p.axisN)
        return adj(w, p, Df, Rf)
    Dv = lambda v: np.sum(Df * v, axis=p.axisM, keepdims=True)
    w.eq('gradient at Y', s.grad_f(), op(Dv(keep[0][2]) - Sf))
    w.eq('gradient', s.grad_f(Vf), op(Dv(keep[2][2]) - Sf))
    w.eq('Hessian', s.hessian_f(Vf), op(Dv(keep[2][2])))
    for n, a, b in keep:
        w.unchanged(n, a, b)


@contract('C10', [CB + 'ConvBPDN.prox_g'],
          cases=[(l, nn, nb, wl) for l in _LX for nn in (False, True)
                 for nb in (False, True) for wl in (False, True)],
          fft='opaque', fork=True, modular=PX)
def cbpdn_prox(w, case):
    """The prox of g / L, with negative coefficients and coefficients of
    filters that cross the boundary set to zero where requested."""
    lay, nn, nb, wl = case
    np = w.np
    p = conv.problem(w, lay)
    o = {'NonNegCoef': nn, 'NoBndryCross': nb}
    W = 1.0
    if wl:
        W = o['L1Weight'] = w.arr('wl1', p.shpX, nonneg=True)
    s = mkcb(w, p, 'ConvBPDN', o)
    V = w.arr('V', p.shpX)
    V0 = w.keep(V)
    R = w.mod('sporco.prox').prox_l1(V0, s.lmbda / s.L * W)
    if nn:
        R = np.where(R < 0, 0.0, R)
    if nb:
        for n in range(p.dimN):
            i = np.arange(p.Nv[n]).reshape(
                (1,) * n + (-1,) + (1,) * (4 - n))
            R = np.where(i <= p.Nv[n] - p.h[n], R, 0.0)
    w.eq('prox', s.prox_g(V), R)
    w.unchanged('V', V, V0)


@contract('C17', [CB + 'ConvBPDN.eval_objfn', CB + 'ConvBPDN.obfn_dfd',
                  CB + 'ConvBPDN.obfn_reg', CB + 'ConvBPDNMask.obfn_dfd',
                  CB + 'ConvBPDN.reconstruct', CB + 'ConvBPDN.getcoef'],
          cases=[m + (l, wl) for m in _MK for l in _LX
                 for wl in (False, True)],
          fft='opaque', modular=NORM2)
def cbpdn_objective(w, case):
    cls, msk, lay, wl = case
    np = w.np
    p = conv.problem(w, lay)
    o = {}
    W = 1.0
    if wl:
        W = o['L1Weight'] = w.arr('wl1', p.shpX, nonneg=True)
    s = mkcb(w, p, cls, o, msk)
    D = conv.newdict(w, p, s)
    X = s.X = w.arr('X', p.shpX)
    s.Xf = p.fft(X, None, p.axisN)
    Df = p.fft(D, p.Nv, p.axisN)
    X0 = w.keep(X)
    r = s.eval_objfn()
    Ef = np.sum(Df * s.Xf, axis=p.axisM, keepdims=True) - \
        p.fft(p.Si, None, p.axisN)
    if cls == 'ConvBPDN':
        dfd = 0.5 * fnorm2(w, p, Ef)
    else:
        dfd = 0.5 * np.sum((p.W * p.ifft(Ef, p.Nv, p.axisN)) ** 2)
    l1 = np.sum(np.abs(W * X0))
    w.true('number of terms', len(r) == 3)
    for i, (a, b) in enumerate(zip(r, (dfd + s.lmbda * l1, dfd, l1))):
        w.eq('term %d' % i, a, b)
    w.eq('reconstruction', s.reconstruct(),
         p.ifft(np.sum(Df * s.Xf, axis=p.axisM), p.Nv, p.axisN))
    Z = w.arr('Z', p.shpX)
    w.eq('reconstruction of given coefficients', s.reconstruct(Z),
         p.ifft(np.sum(Df * p.fft(Z, None, p.axisN), axis=p.axisM), p.Nv,
                p.axisN))
    w.eq('coefficients', s.getcoef(), X0)
    w.unchanged('X', s.X, X0)


# --- convolutional dictionary update ---

CC = 'sporco.pgm.ccmod.'


def mkcc(w, p, cls, o=None, msk='full', later=True):
    np = w.np
    B = w.fn(CC + cls)
    kw = dict(dimK=p.dimK, dimN=p.dimN)
    if cls == 'ConvCnstrMODMask':
        if msk in ('sig', 'chan') and 'K' in p.lay:
            w.assume(p.K >= 2)
        sh = {'full': (p.C, p.K, 1), 'image': (1, 1, 1),
              'chan': (p.C, 1, 1), 'sig': (1, p.K, 1)}[msk]
        W = w.arr('W', p.Nv + sh, nonneg=True)
        p.W = W if msk == 'image' else np.broadcast_to(
            W, p.Nv + (p.C, p.K, 1)).reshape(p.Nv + (p.Cd, p.Ke, 1))
        s = B(p.Z0, p.S, W, p.dsz, opts(B, o or {}), **kw)
    else:
        s = B(p.Z0, p.S, p.dsz, opts(B, o or {}), **kw)
    p.Z = p.Z0
    if later:
        p.Z = w.arr('Z', p.shpZ)
        s.setcoef(p.Z)
    p.Zi = p.Z.reshape(p.Nv + (1, p.Ke, p.M))
    return s


_MC = [('ConvCnstrMOD', None)] + [('ConvCnstrMODMask', m) for m in
                                  ('full', 'image', 'chan', 'sig')]


@contract('C10', [CC + 'ConvCnstrMOD.grad_f', CC + 'ConvCnstrMOD.eval_Rf',
                  CC + 'ConvCnstrMOD.hessian_f', CC + 'ConvCnstrMOD.setcoef',
                  CC + 'ConvCnstrMOD.__init__',
                  CC + 'ConvCnstrMODMask.__init__',
                  CC + 'ConvCnstrMODMask.grad_f',
                  CC + 'ConvCnstrMODMask.hessian_f'],
          cases=[m + (l, h) for m in _MC for l in cc.LAYS for h in (0, 1)
                 if not (h and m[1] in ('chan', 'sig'))],
          fft='opaque')
def ccmod_smooth(w, case):
    """Gradient Z^H (W^2 (Z v - s)) and Hessian Z^H W^2 Z v in the DFT
    domain, for the current coefficient maps."""
    cls, msk, lay, hist = case
    np = w.np
    p = cc.problem(w, lay)
    s = mkcc(w, p, cls, None, msk, hist)
    Zf = p.fft(p.Zi, None, p.axisN)
    s.Yf = p.fft(w.arr('Y', p.shpD), None, p.axisN)
    s.Xf = p.fft(w.arr('X', p.shpD), None, p.axisN)
    Vf = p.fft(w.arr('V', p.shpD), None, p.axisN)
    keep = [(n, a, w.keep(a)) for n, a in (
        ('Yf', s.Yf), ('Xf', s.Xf), ('Vf', Vf), ('S', p.S), ('Z', p.Z))]
    Sf = p.fft(p.Si, None, p.axisN)

    def op(Rf):
        if cls == 'ConvCnstrMODMask':
            Rf = p.fft(p.W * (p.W * p.ifft(Rf, p.Nv, p.axisN)), None,
                       p.axisN)
        return np.sum(np.conj(Zf) * Rf, axis=p.axisK, keepdims=True)
    Zv = lambda v: np.sum(Zf * v, axis=p.axisM, keepdims=True)
    w.eq('gradient at Y', s.grad_f(), op(Zv(keep[0][2]) - Sf))
    w.eq('gradient', s.grad_f(Vf), op(Zv(keep[2][2]) - Sf))
    w.eq('Hessian', s.hessian_f(Vf), op(Zv(keep[2][2])))
    for n, a, b in keep:
        w.unchanged(n, a, b)


@contract('C17', [CC + 'ConvCnstrMOD.eval_objfn',
                  CC + 'ConvCnstrMOD.obfn_dfd', CC + 'ConvCnstrMOD.obfn_cns',
                  CC + 'ConvCnstrMODMask.obfn_dfd',
                  CC + 'ConvCnstrMOD.prox_g', CC + 'ConvCnstrMOD.getdict',
                  CC + 'ConvCnstrMOD.reconstruct'],
          cases=[m + (l, zm) for m in _MC for l in cc.LAYS
                 for zm in (False, True)
                 if not (zm and m[1] not in (None, 'full'))],
          fft='opaque', modular=dict(NORM2, **cc.PCN))
def ccmod_objective(w, case):
    """Data fidelity and distance from the constraint set, the prox of which
    is the projection; the dictionary returned and the reconstruction."""
    cls, msk, lay, zm = case
    np = w.np
    p = cc.problem(w, lay)
    s = mkcc(w, p, cls, {'ZeroMean': zm}, msk)
    X = s.X = w.arr('X', p.shpD)
    s.Xf = p.fft(X, None, p.axisN)
    X0 = w.keep(X)
    r = s.eval_objfn()
    Zf = p.fft(p.Zi, None, p.axisN)
    Ef = np.sum(Zf * s.Xf, axis=p.axisM, keepdims=True) - \
        p.fft(p.Si, None, p.axisN)
    if cls == 'ConvCnstrMOD':
        dfd = 0.5 * fnorm2(w, p, Ef)
    else:
        dfd = 0.5 * np.sum((p.W * p.ifft(Ef, p.Nv, p.axisN)) ** 2)
    P = cc.projection(w, p, zm, X0)
    w.true('number of terms', len(r) == 2)
    w.eq('data fidelity', r[0], dfd)
    w.eq('constraint', r[1], np.sqrt(np.sum((P - X0) ** 2)))
    V = w.arr('V', p.shpD)
    w.eq('prox', s.prox_g(V), cc.projection(w, p, zm, V))
    w.eq('dictionary', s.getdict(False), X0)
    w.eq('cropped dictionary', s.getdict(),
         X0[tuple(slice(0, a) for a in p.h)])
    w.eq('reconstruction', s.reconstruct(),
         p.ifft(np.sum(Zf * s.Xf, axis=p.axisM), p.Nv, p.axisN))
    w.eq('reconstruction with given dictionary', s.reconstruct(V),
         p.ifft(np.sum(Zf * p.fft(V, None, p.axisN), axis=p.axisM), p.Nv,
                p.axisN))
    w.unchanged('X', s.X, X0)
