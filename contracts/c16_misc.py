"""C16, C17: dense dictionary update, spline, robust PCA."""
from pyvc.framework import contract
from contracts.callee import RRS

A = 'sporco.admm.'


def build(w, C, args, opt, **k):
    return C(*args, opt=C.Options(dict({'Verbose': False}, **opt)), **k)


def mkcmod(w, opt):
    n, m, k = w.dim('n'), w.dim('m'), w.dim('k')
    h = type('H', (), {})()
    C = w.fn(A + 'cmod.CnstrMOD')
    Z0, h.S, h.Z = w.arr('Z0', (m, k)), w.arr('S', (n, k)), \
        w.arr('Z', (m, k))
    h.s = s = build(w, C, (Z0, h.S), opt)
    s.setcoef(h.Z)
    s.rho = w.real('rho', lo=0.25, hi=4.0)
    s.rhochange()
    for v in 'XYU':
        setattr(s, v, w.arr(v, (n, m)))
    s.AX = w.arr('AX', (n, m))
    return h


@contract('C16', [A + 'cmod.CnstrMOD.xstep', A + 'cmod.CnstrMOD.setcoef',
                  A + 'cmod.CnstrMOD.rhochange'])
def cmod_xstep(w, case):
    """X solves X (Z Z^T + rho I) = S Z^T + rho (Y - U) for the current
    coefficients and penalty."""
    h = mkcmod(w, {})
    s, Z, S = h.s, w.keep(h.Z), w.keep(h.S)
    Y, U = w.keep(s.Y), w.keep(s.U)
    s.xstep()
    w.eq('normal equations', s.X.dot(Z).dot(Z.T) + s.rho * s.X,
         S.dot(Z.T) + s.rho * (Y - U), tol=1e-6)
    w.unchanged('Y', s.Y, Y)
    w.unchanged('U', s.U, U)
    w.unchanged('Z', h.Z, Z)
    w.unchanged('S', h.S, S)


def proj(w, V, zm):
    """Columns of V (less their means) scaled to unit norm; zero columns
    unchanged."""
    np = w.np
    if zm:
        V = V - np.mean(V, axis=0)
    n2 = np.sum(V ** 2, axis=0)
    n2 = np.where(n2 == 0, 1.0, n2)
    return V / np.sqrt(n2)


@contract('C12', [A + 'cmod.CnstrMOD.ystep', A + 'cmod.getPcn',
                  A + 'cmod.zeromean', A + 'cmod.normalise'],
          cases=[False, True])
def cmod_ystep(w, case):
    """Y is the projection of A X + U onto the dictionaries with unit norm
    (and zero mean) columns."""
    np = w.np
    h = mkcmod(w, {'ZeroMean': case})
    s = h.s
    AX, U = w.keep(s.AX), w.keep(s.U)
    s.ystep()
    w.eq('Y', s.Y, proj(w, AX + U, case))
    w.finite('finite', s.Y)
    w.unchanged('AX', s.AX, AX)
    w.unchanged('U', s.U, U)


@contract('C17', [A + 'cmod.CnstrMOD.eval_objfn'],
          cases=[(z, f, g) for z in (False, True) for f in (False, True)
                 for g in (False, True)])
def cmod_objective(w, case):
    """(1/2 ||D Z - S||^2, distance from the constraint set)."""
    z, f, g = case
    np = w.np
    h = mkcmod(w, {'ZeroMean': z, 'fEvalX': f, 'gEvalY': g})
    s = h.s
    X, Y = w.keep(s.X), w.keep(s.Y)
    r = s.eval_objfn()
    fv, gv = (X if f else Y), (Y if g else X)
    w.eq('data fidelity', r[0], 0.5 * np.sum((fv.dot(h.Z) - h.S) ** 2))
    P = w.fn(A + 'cmod.getPcn')(z)
    w.eq('constraint', r[1], np.sqrt(np.sum((P(gv) - gv) ** 2)))
    w.unchanged('X', s.X, X)
    w.unchanged('Y', s.Y, Y)


_SP = [(1, (0,)), (2, (0, 1)), (2, (1,)), (3, (0, 1)), (3, (2, 0))]


def mkspline(w, case, opt=None, wt=False):
    nd, axes = case
    h = type('H', (), {})()
    h.sh = tuple(w.dim('n%d' % i) for i in range(nd))
    h.S = w.arr('S', h.sh)
    h.lmbda = w.real('lmbda', pos=True)
    o = dict(opt or {})
    h.W = 1.0
    if wt:
        h.W = o['DFidWeight'] = w.arr('Wdf', h.sh, pos=True)
    C = w.fn(A + 'spline.SplineL1')
    h.s = s = build(w, C, (h.S, h.lmbda), o, axes=axes)
    s.rho = w.real('rho', pos=True)
    s.rhochange()
    for v in ('X', 'Y', 'U', 'AX'):
        setattr(s, v, w.arr(v, h.sh))
    np = w.np
    al = 0.0
    for ax in axes:
        k = np.arange(h.sh[ax]).reshape((1,) * ax + (-1,) +
                                        (1,) * (nd - ax - 1))
        al = al - 2.0 + 2.0 * np.cos(k * np.pi / h.sh[ax])
    h.alpha = al
    return h


@contract('C16', [A + 'spline.SplineL1.xstep', A + 'spline.SplineL1.ystep',
                  A + 'spline.SplineL1.rhochange',
                  'sporco.fft.dctii', 'sporco.fft.idctii'],
          cases=[c + (wt,) for c in _SP for wt in (False, True)],
          modular=RRS)
def spline_steps(w, case):
    """X solves (I + (lmbda / rho) L^2) X = Y + S - U, with L the Laplacian
    diagonalised by the DCT; Y is the shrinkage of A X - S + U."""
    nd, axes, wt = case
    np = w.np
    h = mkspline(w, (nd, axes), {'LinSolveCheck': wt}, wt)
    s = h.s
    Y, U, S, AX = w.keep(s.Y), w.keep(s.U), w.keep(h.S), w.keep(s.AX)
    s.xstep()
    F = w.mod('sporco.fft')
    w.eq('normal equations in the DCT domain',
         (1.0 + h.lmbda / s.rho * h.alpha ** 2) * F.dctii(s.X, axes),
         F.dctii(Y + S - U, axes), tol=1e-7)
    w.unchanged('Y', s.Y, Y)
    s.ystep()
    P = w.fn('sporco.prox.prox_l1')
    w.eq('Y', s.Y, P(AX - S + U, h.W / s.rho))
    w.unchanged('U', s.U, U)
    w.unchanged('S', h.S, S)
    x = w.arr('x', h.sh)
    w.eq('A', s.cnst_A(x), x)
    w.eq('A^T', s.cnst_AT(x), x)
    w.eq('B', s.cnst_B(x), -x)
    w.eq('c', s.cnst_c() + 0.0 * x, S)


@contract('C17', [A + 'spline.SplineL1.eval_objfn'],
          cases=[c + (wt, g) for c in _SP[:4] for wt in (False, True)
                 for g in (False, True)])
def spline_objective(w, case):
    """||W (x - s)||_1 + lmbda / 2 ||L x||^2."""
    nd, axes, wt, g = case
    np = w.np
    h = mkspline(w, (nd, axes), {'gEvalY': g}, wt)
    s = h.s
    r = s.eval_objfn()
    F = w.mod('sporco.fft')
    gv = s.Y if g else s.X - h.S
    d = np.sum(np.abs(h.W * gv))
    lx = F.idctii(h.alpha * F.dctii(s.X, axes), axes)
    q = 0.5 * np.sum(lx ** 2)
    w.eq('data fidelity', r[1], d)
    w.eq('regularisation', r[2], q)
    w.eq('total', r[0], d + h.lmbda * q)


def mkrpca(w, opt):
    h = type('H', (), {})()
    sh = (w.dim('m'), w.dim('n'))
    h.S = w.arr('S', sh)
    h.lmbda = w.real('lmbda', pos=True)
    C = w.fn(A + 'rpca.RobustPCA')
    h.s = s = build(w, C, (h.S, h.lmbda), opt)
    s.rho = w.real('rho', pos=True)
    s.rhochange()
    for v in ('X', 'Y', 'U', 'AX'):
        setattr(s, v, w.arr(v, sh))
    return h


@contract('C16', [A + 'rpca.RobustPCA.xstep', A + 'rpca.RobustPCA.ystep'])
def rpca_steps(w, case):
    """X is the singular value thresholding of S - Y - U, Y the shrinkage of
    S - A X - U."""
    h = mkrpca(w, {})
    s = h.s
    Y, U, S, AX = w.keep(s.Y), w.keep(s.U), w.keep(h.S), w.keep(s.AX)
    s.xstep()
    P = w.mod('sporco.prox')
    w.eq('X', s.X, P.prox_nuclear(S - Y - U, 1 / s.rho)[0])
    w.unchanged('Y', s.Y, Y)
    s.ystep()
    w.eq('Y', s.Y, P.prox_l1(S - AX - U, h.lmbda / s.rho))
    w.unchanged('U', s.U, U)
    w.unchanged('S', h.S, S)


@contract('C17', [A + 'rpca.RobustPCA.eval_objfn'],
          cases=[(f, g) for f in (False, True) for g in (False, True)])
def rpca_objective(w, case):
    """||X||_* + lmbda ||Y||_1 and the violation of X + Y = S."""
    f, g = case
    np = w.np
    h = mkrpca(w, {'fEvalX': f, 'gEvalY': g})
    s = h.s
    s.xstep()
    P = w.mod('sporco.prox')
    if f:
        nn = np.sum(P.prox_nuclear(h.S - s.Y - s.U, 1 / s.rho)[1])
        if not w.sym:
            w.eq('nuclear norm of X', nn, P.norm_nuclear(s.X), tol=1e-6)
    else:
        nn = P.norm_nuclear(h.S - s.Y)
    r = s.eval_objfn()
    l1 = np.sum(np.abs(s.Y if g else h.S - s.X))
    w.eq('nuclear norm', r[1], nn)
    w.eq('l1 norm', r[2], l1)
    w.eq('constraint', r[3], np.sqrt(np.sum((s.X + s.Y - h.S) ** 2)))
    w.eq('total', r[0], nn + h.lmbda * l1)
