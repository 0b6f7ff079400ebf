"""Common parts of the contracts of convolutional solvers: harness and
specification of their linear steps in the DFT domain."""
from contracts import callee

CB = 'sporco.admm.cbpdn.'

# layouts: g one image, K several signals, C channels with a single-channel
# dictionary, W multi-channel dictionary (two channels), WK the same with
# several signals (W2: two), CK channels and signals with a single-channel dictionary
LAY = {'g': ('', 0), 'K': ('K', 0), 'C': ('C', 0), 'CK': ('CK', 0),
       'W': ('C', 1), 'WK': ('CK', 1), 'W2': ('CK', 1)}
DIMK = {'g': 0, 'K': 1, 'C': 0, 'CK': 1, 'W': 0, 'WK': 1, 'W2': 1}


class Prob(object):
    pass


def problem(w, lay, dimN=2, kd='f'):
    """Signal, dictionary and sizes of a problem with the given layout."""
    p = Prob()
    callee.start(w)
    ax, wide = LAY[lay]
    p.lay, p.dimN, p.kd, p.wide = lay, dimN, kd, wide
    p.Nv = tuple(w.dim('N%d' % i, lo=2, hi=5) for i in range(dimN))
    p.h = tuple(w.dim('h%d' % i, hi=3) for i in range(dimN))
    if not w.sym:
        p.h = tuple(min(a, b) for a, b in zip(p.h, p.Nv))
    else:
        for a, b in zip(p.h, p.Nv):
            w.assume(a <= b)
    p.M = w.dim('M')
    p.C = 2 if wide else w.dim('C') if 'C' in ax else 1
    p.K = 2 if lay == 'W2' else w.dim('K') if 'K' in ax else 1
    sz = {'C': p.C, 'K': p.K}
    p.S = w.arr('S', p.Nv + tuple(sz[a] for a in ax), kd)
    p.Cd = 2 if wide else 1
    p.Cx = 1 if wide else p.C
    p.shpD = p.h + ((2,) if wide else ()) + (p.M,)
    p.shpDi = p.h + (p.Cd, 1, p.M)
    p.shpS = p.Nv + (p.C, p.K, 1)
    p.shpX = p.Nv + (p.Cx, p.K, p.M)
    p.axisN = tuple(range(dimN))
    p.axisC, p.axisK, p.axisM = dimN, dimN + 1, dimN + 2
    p.dimK = DIMK[lay]
    p.D0 = w.arr('D0', p.shpD, kd)
    F = w.mod('sporco.fft')
    p.real = kd == 'f'
    p.fft = F.rfftn if p.real else F.fftn
    p.ifft = F.irfftn if p.real else F.ifftn
    p.Si = p.S.reshape(p.shpS)
    return p


def newdict(w, p, s, setd=True):
    """Install a new dictionary (history) and return it in the internal
    layout."""
    if not setd:
        return p.D0.reshape(p.shpDi)
    D = w.arr('D', p.shpDi, p.kd)
    s.setdict(D)
    return D


def newrho(w, s, change=True):
    if change:
        s.rho = w.real('rho', pos=True)
        s.rhochange()
    return s.rho


def normal_eq(w, p, s, D, den, b, Xf, name='normal equations'):
    """sum over channels of conj(D_m) (sum_k D_k X_k) + den_m X_m = b_m at
    every frequency."""
    np = w.np
    Df = p.fft(D, p.Nv, p.axisN)
    if w.sym and callee.solution(w, name, (p.axisM, p.axisC), Df, den, b,
                                 Xf):
        return Df
    DX = np.sum(Df * Xf, axis=p.axisM, keepdims=True)
    g = np.conj(Df) * DX
    if p.Cd > 1:
        g = np.sum(g, axis=p.axisC, keepdims=True)
    w.eq(name, g + den * Xf, b)
    return Df


def adj(w, p, Df, Vf):
    """conj(D_m) V, summed over channels for a multi-channel dictionary."""
    np = w.np
    r = np.conj(Df) * Vf
    if p.Cd > 1:
        r = np.sum(r, axis=p.axisC, keepdims=True)
    return r


def fnorm2(w, p, zf):
    """Squared norm of the array with transform zf."""
    if w.sym:
        F = w.mod('sporco.fft')
        if p.real:
            return F.rfl2norm2(zf, p.Nv, p.axisN)
        return F.fl2norm2(zf, p.axisN)
    return w.np.sum(w.np.abs(p.ifft(zf, p.Nv, p.axisN)) ** 2)


def blocks(w, p, Y):
    """The data block (in the layout of the signal) and the coefficient
    block of a two-block variable."""
    np = w.np
    Y0, Y1 = Y[..., :p.Cd], Y[..., p.Cd:]
    if p.Cd > 1:
        Y0 = np.swapaxes(Y0, p.axisC, p.axisM)
    return Y0, Y1


def shp2(p):
    return p.Nv + (1 if p.Cd > 1 else p.Cx, p.K, p.M + p.Cd)
