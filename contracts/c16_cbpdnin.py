"""C16, C17: convolutional sparse coding with inhibition terms and with a
product dictionary."""
from pyvc.framework import contract
from contracts import callee
from contracts.callee import RRS, SOLVERS, NORM2, same_shape_fn
from contracts.conv import problem, newrho, fnorm2

IN = 'sporco.admm.cbpdnin.ConvBPDNInhib'
PX = {'sporco.prox.prox_l1': same_shape_fn('sporco.prox.prox_l1')}


def mk(w, p, kind, opt=None):
    """lateral ('l'), self ('s') or both inhibition terms; windows (given by
    their transforms), group matrix and current weights are arbitrary."""
    np = w.np
    B = w.fn(IN)
    o = dict({'Verbose': False}, **(opt or {}))
    s = B(p.D0, p.S, lmbda=w.real('lmbda', pos=True),
          opt=B.Options(o), dimK=p.dimK, dimN=p.dimN)
    s.mu = w.real('mu', pos=True) if 'l' in kind else 0.0
    s.gamma = w.real('gamma', pos=True) if 's' in kind else 0.0
    s.Wg = w.arr('Wg', (w.dim('G'), p.M), nonneg=True) if 'l' in kind \
        else None
    for n in ('Whfl', 'Whfs'):
        setattr(s, n, p.fft(w.arr(n, p.Nv + (1, 1, 1)), None, p.axisN))
    s.wml = w.arr('wml', p.shpX, nonneg=True) if 'l' in kind else 0
    s.wms = w.arr('wms', p.shpX, nonneg=True) if 's' in kind else 0
    s.smooth = w.real('smooth', lo=0.0, hi=1.0)
    return s


@contract('C22', [IN + '.ystep'],
          cases=[(l, k, nn) for l in ('g', 'CK', 'WK') for k in
                 ('', 'l', 's', 'ls') for nn in (False, True)],
          fft='opaque', modular=dict(RRS, **dict(SOLVERS, **PX)))
def inhib_ystep(w, case):
    """Y is the prox of the weighted l1 terms with the current inhibition
    weights, which are then moved towards those of the current X."""
    lay, kind, nn = case
    np = w.np
    p = problem(w, lay)
    s = mk(w, p, kind, {'NonNegCoef': nn})
    newrho(w, s)
    for n in ('X', 'Y', 'U', 'AX'):
        setattr(s, n, w.arr(n, p.shpX))
    keep = [(n, getattr(s, n), w.keep(getattr(s, n))) for n in
            ('X', 'U', 'AX')]
    wml, wms = w.keep(s.wml), w.keep(s.wms)
    s.ystep()
    R = w.mod('sporco.prox').prox_l1(
        keep[2][2] + keep[1][2],
        (s.lmbda + s.mu * wml + s.gamma * wms) / s.rho)
    w.eq('coefficients', s.Y, np.where(R < 0, 0.0, R) if nn else R)
    Xa = p.fft(np.abs(keep[0][2]), None, p.axisN)
    if 'l' in kind:
        h = p.ifft(s.Whfl * Xa, p.Nv, p.axisN)
        # sum over the other members of each group
        t = np.dot(np.dot(h, s.Wg.T), s.Wg) - np.sum(s.Wg, axis=0) * h
        w.eq('lateral weights', s.wml,
             s.smooth * wml + (1 - s.smooth) * t)
    else:
        w.eq('lateral weights', s.wml, wml)
    if 's' in kind:
        t = p.ifft(s.Whfs * Xa, p.Nv, p.axisN)
        w.eq('self weights', s.wms, s.smooth * wms + (1 - s.smooth) * t)
    else:
        w.eq('self weights', s.wms, wms)
    for n, x, x0 in keep:
        w.unchanged(n, x, x0)


@contract('C17', [IN + '.obfn_reg'],
          cases=[(l, k, g) for l in ('g', 'CK', 'WK') for k in
                 ('', 'l', 's', 'ls') for g in (False, True)],
          fft='opaque', modular=dict(RRS, **SOLVERS))
def inhib_objective(w, case):
    lay, kind, g = case
    np = w.np
    p = problem(w, lay)
    s = mk(w, p, kind, {'gEvalY': g})
    s.X, s.Y = w.arr('X', p.shpX), w.arr('Y', p.shpX)
    v = s.Y if g else s.X
    t = [np.sum(np.abs(v)), np.sum(np.abs(s.wml * v)),
         np.sum(np.abs(s.wms * v))]
    r = s.obfn_reg()
    w.true('number of terms', len(r) == 4)
    w.eq('total', r[0], s.lmbda * t[0] + s.mu * t[1] + s.gamma * t[2])
    for i in range(3):
        w.eq('term %d' % i, r[i + 1], t[i])


@contract('C22', [IN + '.__init__'], cases=[(n, k) for n in (1, 2)
                                            for k in (None, 1, 2, 3, 4)],
          trials=8, bounded_only='window functions of scipy')
def inhib_windows(w, case):
    """The inhibition windows are centred at the origin, symmetric and of
    odd length; the self inhibition window is zero at the origin."""
    dimN, whn = case
    np = w.np
    r = w.rng
    N = tuple(int(r.randint(7, 10)) for _ in range(dimN))
    h = int(r.randint(2, 5))
    D = r.randn(*((h,) * dimN + (3,)))
    S = r.randn(*N)
    F = w.mod('sporco.fft')
    s = w.fn(IN)(D, S, np.ones((1, 3)), whn, ('tukey', 0.5), 0.1, 0.1, 0.1,
                 dimN=dimN)
    n = h if whn is None else whn
    n += not n % 2
    from scipy import signal
    w1 = signal.get_window(('tukey', 0.5), n)
    H = np.zeros(N)
    for i in np.ndindex(*((n,) * dimN)):
        H[tuple((a - n // 2) % b for a, b in zip(i, N))] = np.prod(
            [w1[a] for a in i]) ** (1.0 / dimN)
    ax = tuple(range(dimN))
    w.eq('lateral window', F.irfftn(s.Whfl, N, ax).reshape(N), H)
    H[(0,) * dimN] = 0
    w.eq('self window', F.irfftn(s.Whfs, N, ax).reshape(N), H)


# --- product dictionaries ---

PD = 'sporco.admm.pdcsc.'


def pprob(w, lay):
    """Multi-channel signal, single-channel convolutional dictionary and a
    C x Mb dictionary B for the channels.  The eigendecomposition of B^T B
    is given by numpy."""
    p = problem(w, lay)
    p.Mb = w.dim('Mb')
    p.B0 = w.arr('B0', (p.C, p.Mb))
    p.shpX = p.Nv + (p.Mb, p.K, p.M)
    return p


def chan(w, p, A, V):
    """A applied along the channel axis."""
    np = w.np
    return np.sum(A.reshape((1,) * p.dimN + tuple(A.shape) + (1, 1)) *
                  V.reshape(tuple(V.shape[:p.axisC]) + (1,) +
                            tuple(V.shape[p.axisC:])),
                  axis=p.axisC + 1)


def mkp(w, p, cls, o=None, hist=1):
    B = w.fn(PD + cls)
    o = B.Options(dict({'Verbose': False}, **(o or {})))
    a = (p.D0, p.B0, p.S, w.real('lmbda', pos=True))
    if cls != 'ConvProdDictBPDN':
        a += (w.real('mu', pos=True),)
    s = B(*a, opt=o, dimK=p.dimK, dimN=p.dimN)
    p.D, p.B = p.D0.reshape(p.shpDi), p.B0
    kw = {}
    if hist & 1:
        kw['D'] = p.D = w.arr('D', p.shpDi)
    if hist & 2:
        kw['B'] = p.B = w.arr('B', (p.C, p.Mb))
    if kw:
        s.setdict(**kw)
    if hist & 4:
        newrho(w, s)
    return s


@contract('C22', [PD + 'ConvProdDictBPDN.xstep',
                  PD + 'ConvProdDictBPDN.setdict',
                  PD + 'ConvProdDictBPDN.rhochange',
                  PD + 'ConvProdDictBPDN.__init__'],
          cases=[(l, hm, h) for l in ('C', 'CK') for hm in (False, True)
                 for h in (0, 1, 2, 3, 4, 7)],
          fft='opaque', modular=dict(RRS, **SOLVERS))
def pd_xstep(w, case):
    """X solves (B^T B (x) D^H D + rho I) x = B^T D^H s + rho (y - u) for the
    current D, B and penalty: in the eigenbasis of B^T B, the system given
    to the solver is the documented one."""
    lay, hm, hist = case
    np = w.np
    p = pprob(w, lay)
    s = mkp(w, p, 'ConvProdDictBPDN', {'HighMemSolve': hm}, hist)
    s.Y, s.U = w.arr('Y', p.shpX), w.arr('U', p.shpX)
    keep = [(n, x, w.keep(x)) for n, x in (
        ('Y', s.Y), ('U', s.U), ('S', p.S), ('D', p.D), ('B', p.B))]
    s.xstep()
    Df = p.fft(p.D, p.Nv, p.axisN)
    V = p.fft(keep[0][2] - keep[1][2], None, p.axisN)
    DS = np.conj(Df) * p.fft(p.Si, None, p.axisN)
    if w.sym:
        from pyvc import snp
        A, L, Q = snp.EIGH[-1]
        w.eq('eigenvalue problem', A, p.B.T.dot(p.B))
        g = np.sqrt(np.abs(L)).reshape((1,) * p.dimN + (p.Mb, 1, 1))
        b = chan(w, p, p.B.dot(Q).T, DS) + s.rho * chan(w, p, Q.T, V)
        Xh = callee.SPIED['solve'][-1]['r']
        _sol(w, p, g * Df, s.rho, b, Xh)
        w.eq('X in the eigenbasis', s.Xf, chan(w, p, Q, Xh))
    else:
        r = np.conj(Df) * np.sum(Df * s.Xf, axis=p.axisM, keepdims=True)
        w.eq('normal equations',
             chan(w, p, p.B.T.dot(p.B), r) + s.rho * s.Xf,
             chan(w, p, p.B.T, DS) + s.rho * V, tol=1e-6)
    w.eq('X is the inverse transform', s.X, p.ifft(s.Xf, p.Nv, p.axisN))
    for n, x, x0 in keep:
        w.unchanged(n, x, x0)


def _sol(w, p, ah, rho, b, x):
    """As callee.solution for a rank one system for each channel."""
    c = callee.SPIED['solve'][-1]
    w.true('axis of the filters', c['axis'] % 5 == p.axisM)
    w.true('kind of the solver', c['kind'] in ('solvedbi_sm', 'solvedbd_sm'))
    if c['kind'] == 'solvedbi_sm':
        sh = w.np.asarray(rho).shape
        w.true('diagonal constant over filters', len(sh) == 0 or sh[-1] == 1)
    w.eq('operator', c['ah'], ah)
    w.eq('diagonal', c['rho'], rho)
    w.eq('right-hand side', c['b'], b)
    if c['c'] is not None:
        h = [q for q in callee.SPIED.get('cache', []) if q['r'] is c['c']]
        w.true('cached array known', len(h) == 1)
        for q in h:
            w.true('cached array of the same kind', q['kind'] == c['kind']
                   and q['axis'] % 5 == p.axisM)
            w.eq('cached array of the current operator', q['ah'], ah)
            w.eq('cached array of the current operator', q['a'],
                 w.np.conj(ah))
            w.eq('cached array of the current diagonal', q['rho'], rho)


@contract('C22', [PD + 'ConvProdDictBPDNJoint.ystep'],
          cases=[(l, lw) for l in ('C', 'CK') for lw in (False, True)],
          fft='opaque', modular=dict(RRS, **dict(
              SOLVERS, **{'sporco.prox.prox_sl1l2':
                          same_shape_fn('sporco.prox.prox_sl1l2')})))
def pd_joint_ystep(w, case):
    lay, lw = case
    np = w.np
    p = pprob(w, lay)
    o = {}
    W = 1.0
    if lw:
        W = o['L1Weight'] = w.arr('wl1', (1,) * 4 + (p.M,), nonneg=True)
    s = mkp(w, p, 'ConvProdDictBPDNJoint', o, 4)
    for n in ('Y', 'U', 'AX'):
        setattr(s, n, w.arr(n, p.shpX))
    AX, U = w.keep(s.AX), w.keep(s.U)
    s.ystep()
    w.eq('prox', s.Y, w.mod('sporco.prox').prox_sl1l2(
        AX + U, s.lmbda / s.rho * W, s.mu / s.rho, axis=p.axisC))
    w.unchanged('AX', s.AX, AX)
    w.unchanged('U', s.U, U)


@contract('C17', [PD + 'ConvProdDictBPDN.obfn_dfd',
                  PD + 'ConvProdDictBPDNJoint.obfn_reg',
                  PD + 'ConvProdDictBPDN.reconstruct'],
          cases=[(c, l, f, g) for c in ('ConvProdDictBPDN',
                                        'ConvProdDictBPDNJoint')
                 for l in ('C', 'CK') for f in (False, True)
                 for g in (False, True)],
          fft='opaque', modular=dict(RRS, **dict(SOLVERS, **NORM2)))
def pd_objective(w, case):
    cls, lay, f, g = case
    np = w.np
    p = pprob(w, lay)
    W = w.arr('wl1', (1,) * 4 + (p.M,), nonneg=True)
    s = mkp(w, p, cls, {'fEvalX': f, 'gEvalY': g, 'L1Weight': W}, 3)
    s.X, s.Y = w.arr('X', p.shpX), w.arr('Y', p.shpX)
    s.Xf = p.fft(s.X, None, p.axisN)
    fv, gv = (s.X if f else s.Y), (s.Y if g else s.X)
    Df = p.fft(p.D, p.Nv, p.axisN)

    def rec(v):
        return chan(w, p, p.B, np.sum(Df * p.fft(v, None, p.axisN),
                                      axis=p.axisM, keepdims=True))
    dfd = 0.5 * fnorm2(w, p, rec(fv) - p.fft(p.Si, None, p.axisN))
    l1 = np.sum(np.abs(W * gv))
    t = (dfd + s.lmbda * l1, dfd, l1)
    if cls != 'ConvProdDictBPDN':
        l21 = np.sum(np.sqrt(np.sum(gv ** 2, axis=p.axisC)))
        t = (t[0] + s.mu * l21, dfd, l1, l21)
    r = s.eval_objfn()
    w.true('number of terms', len(r) == len(t))
    for i, (a, b) in enumerate(zip(r, t)):
        w.eq('term %d' % i, a, b)
    Z = w.arr('Z', p.shpX)
    w.eq('reconstruction', s.reconstruct(Z),
         p.ifft(rec(Z), p.Nv, p.axisN)[..., 0])
    w.eq('reconstruction of Y', s.reconstruct(),
         p.ifft(rec(s.Y), p.Nv, p.axisN)[..., 0])
