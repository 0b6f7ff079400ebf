"""C16, C17: sparse coding (BPDN family)."""
from pyvc.framework import contract
from contracts.callee import RRS, PROJ_L1

M = 'sporco.admm.bpdn.'


def opts(cls, o):
    return cls.Options(dict({'Verbose': False}, **o))


def mk(w, cls, opt=None, wt=False, dict_later=True):
    """A solver with arbitrary data; the dictionary and the penalty have
    been replaced after construction."""
    np = w.np
    n, m, k = w.dim('n'), w.dim('m'), w.dim('k')
    h = type('H', (), {})()
    D0, h.S = w.arr('D0', (n, m)), w.arr('S', (n, k))
    h.D = w.arr('D', (n, m))
    h.lmbda = w.real('lmbda', pos=True)
    h.mu = w.real('mu', nonneg=True)
    o = dict(opt or {})
    h.wl1 = 1.0
    if wt:
        h.wl1 = o['L1Weight'] = w.arr('wl1', (m, k), nonneg=True)
    C = w.fn(M + cls)
    o = opts(C, o)
    if cls in ('ElasticNet', 'BPDNJoint'):
        s = C(D0, h.S, h.lmbda, h.mu, o)
    else:
        s = C(D0, h.S, h.lmbda, o)
    h.s = s
    s.setdict(h.D)
    s.rho = w.real('rho', pos=True)
    s.rhochange()
    h.shp = (m, k)
    return h


def state(w, h, shp=None):
    s = h.s
    s.X = w.arr('X', h.shp)
    s.Y = w.arr('Y', shp or h.shp)
    s.U = w.arr('U', shp or h.shp)
    s.AX = w.arr('AX', shp or h.shp)


@contract('C16', [M + 'GenericBPDN.xstep', M + 'GenericBPDN.setdict',
                  M + 'GenericBPDN.rhochange', M + 'ElasticNet.xstep',
                  M + 'ElasticNet.setdict', M + 'ElasticNet.rhochange'],
          cases=[(c, x) for c in ('BPDN', 'BPDNJoint', 'ElasticNet',
                                  'BPDNProjL1')
                 for x in (False, True)], modular=RRS)
def bpdn_xstep(w, case):
    """X solves (D^T D + (rho [+ mu]) I) X = D^T S + rho (Y - U) for the
    current dictionary, penalty, Y and U."""
    cls, chk = case
    h = mk(w, cls, {'LinSolveCheck': chk})
    s = h.s
    state(w, h)
    Y, U, D, S = [w.keep(z) for z in (s.Y, s.U, h.D, h.S)]
    s.xstep()
    sg = s.rho + (h.mu if cls == 'ElasticNet' else 0.0)
    w.eq('normal equations', D.T.dot(D.dot(s.X)) + sg * s.X,
         D.T.dot(S) + s.rho * (Y - U), tol=1e-6)
    w.same_shape('shape', s.X, Y)
    w.unchanged('Y', s.Y, Y)
    w.unchanged('U', s.U, U)
    w.unchanged('D', h.D, D)
    w.unchanged('S', h.S, S)
    if chk and not w.sym:
        w.true('reported residual', s.xrrs < 1e-6)


def clip(w, x, nn):
    return w.np.where(x < 0.0, 0.0, x) if nn else x


@contract('C16', [M + 'BPDN.ystep', M + 'BPDNJoint.ystep',
                  M + 'BPDNProjL1.ystep', M + 'GenericBPDN.ystep',
                  M + 'MinL1InL2Ball.ystep'],
          cases=[(c, wt, nn) for c in ('BPDN', 'BPDNJoint', 'ElasticNet',
                                       'BPDNProjL1', 'MinL1InL2Ball')
                 for wt in (False, True) for nn in (False, True)
                 if not (c == 'BPDNProjL1' and wt or
                         c in ('BPDNJoint', 'BPDNProjL1') and nn)],
          modular=PROJ_L1)
def bpdn_ystep(w, case):
    """Y is the proximal operator (projection) of the regulariser at
    A X + U, with the current penalty, and with negative entries set to zero
    if the solution is constrained to be non-negative."""
    cls, wt, nn = case
    np = w.np
    P = w.mod('sporco.prox')
    if cls == 'MinL1InL2Ball':
        h = mkball(w, {'NonNegCoef': nn}, wt)
        bstate(w, h)
    else:
        h = mk(w, cls, {'NonNegCoef': nn}, wt)
        state(w, h)
    s = h.s
    V = s.AX + s.U
    AX, U, S = [w.keep(z) for z in (s.AX, s.U, h.S)]
    s.ystep()
    if cls == 'MinL1InL2Ball':
        m = h.m
        w.eq('coefficient block', s.Y[:m], clip(
            w, P.prox_l1(V[:m], h.wl1 / s.rho), nn))
        w.eq('data block', s.Y[m:], h.S + P.proj_l2(
            V[m:] - h.S, h.eps, axis=0))
    elif cls == 'BPDNJoint':
        w.eq('Y', s.Y, P.prox_sl1l2(V, h.lmbda / s.rho * h.wl1,
                                    h.mu / s.rho, axis=-1))
    elif cls == 'BPDNProjL1':
        w.eq('Y', s.Y, P.proj_l1(V, h.lmbda, axis=0), tol=1e-6)
    else:
        w.eq('Y', s.Y, clip(w, P.prox_l1(V, h.lmbda / s.rho * h.wl1), nn))
    w.same_shape('shape', s.Y, AX)
    w.unchanged('AX', s.AX, AX)
    w.unchanged('U', s.U, U)
    w.unchanged('S', h.S, S)


def mkball(w, opt=None, wt=False):
    h = type('H', (), {})()
    n, m, k = w.dim('n'), w.dim('m'), w.dim('k')
    h.n, h.m, h.k = n, m, k
    D0, h.S, h.D = w.arr('D0', (n, m)), w.arr('S', (n, k)), \
        w.arr('D', (n, m))
    h.eps = w.real('eps', pos=True)
    o = dict(opt or {})
    h.wl1 = 1.0
    if wt:
        h.wl1 = o['L1Weight'] = w.arr('wl1', (m, k), nonneg=True)
    C = w.fn(M + 'MinL1InL2Ball')
    h.s = C(D0, h.S, h.eps, opts(C, o))
    h.s.setdict(h.D)
    h.s.rho = w.real('rho', pos=True)
    h.s.rhochange()
    return h


def bstate(w, h):
    s = h.s
    s.X = w.arr('X', (h.m, h.k))
    s.Y = w.arr('Y', (h.m + h.n, h.k))
    s.U = w.arr('U', (h.m + h.n, h.k))
    s.AX = w.arr('AX', (h.m + h.n, h.k))


@contract('C16', [M + 'MinL1InL2Ball.xstep', M + 'MinL1InL2Ball.setdict',
                  M + 'MinL1InL2Ball.cnst_A1', M + 'MinL1InL2Ball.cnst_A1T'])
def ball_xstep(w, case):
    """X solves (I + D^T D) X = (Y_0 - U_0) + D^T (Y_1 - U_1), and the
    constraint blocks are X and D X."""
    h = mkball(w)
    s = h.s
    bstate(w, h)
    m = h.m
    Y, U, D = w.keep(s.Y), w.keep(s.U), w.keep(h.D)
    s.xstep()
    V = Y - U
    w.eq('normal equations', s.X + D.T.dot(D.dot(s.X)),
         V[:m] + D.T.dot(V[m:]), tol=1e-6)
    w.unchanged('Y', s.Y, Y)
    w.unchanged('U', s.U, U)
    X = w.arr('X1', (m, h.k))
    Z = w.arr('Z', (h.n, h.k))
    w.eq('first block', s.cnst_A0(X), X)
    w.eq('second block', s.cnst_A1(X), D.dot(X))
    w.eq('adjoint of the second block', s.cnst_A1T(Z), D.T.dot(Z))


_OB = [(c, wt, f, g) for c in ('BPDN', 'BPDNJoint', 'ElasticNet',
                               'BPDNProjL1')
       for wt in (False, True) for f in (False, True) for g in (False, True)
       if not (wt and c == 'BPDNProjL1')]


@contract('C17', [M + 'GenericBPDN.eval_objfn', M + 'GenericBPDN.obfn_dfd',
                  M + 'BPDN.obfn_reg', M + 'BPDNJoint.obfn_reg',
                  M + 'ElasticNet.obfn_reg', M + 'BPDNProjL1.eval_objfn'],
          cases=_OB, modular=PROJ_L1)
def bpdn_objective(w, case):
    """The reported objective, data fidelity and regularisation are those of
    the documented functional at the current dictionary, evaluated at X or Y
    as the options fEvalX and gEvalY request."""
    cls, wt, f, g = case
    np = w.np
    h = mk(w, cls, {'fEvalX': f, 'gEvalY': g}, wt)
    s = h.s
    state(w, h)
    X, Y = w.keep(s.X), w.keep(s.Y)
    r = s.eval_objfn()
    fv, gv = (X if f else Y), (Y if g else X)
    dfd = 0.5 * np.sum((h.D.dot(fv) - h.S) ** 2)
    l1 = np.sum(np.abs(h.wl1 * gv))
    if cls == 'BPDN':
        e = (dfd + h.lmbda * l1, dfd, l1)
    elif cls == 'BPDNJoint':
        l21 = np.sum(np.sqrt(np.sum(gv ** 2, axis=1)))
        e = (dfd + h.lmbda * l1 + h.mu * l21, dfd, l1, l21)
    elif cls == 'ElasticNet':
        l2 = 0.5 * np.sum(gv ** 2)
        e = (dfd + h.lmbda * l1 + h.mu * l2, dfd, l1, l2)
    else:
        P = w.fn('sporco.prox.proj_l1')
        d = P(gv, h.lmbda, axis=0) - gv
        e = (dfd, np.sqrt(np.sum(d ** 2)))
    w.true('number of terms', len(r) == len(e))
    for i, (a, b) in enumerate(zip(r, e)):
        w.eq('term %d' % i, a, b)
    w.unchanged('X', s.X, X)
    w.unchanged('Y', s.Y, Y)


@contract('C17', [M + 'MinL1InL2Ball.eval_objfn'],
          cases=[(wt, g) for wt in (False, True)
                 for g in (False, True)])
def ball_objective(w, case):
    """(l1 norm of the coefficients, distance of the reconstruction from the
    ball around the signal)."""
    wt, g = case
    np = w.np
    h = mkball(w, {'AuxVarObj': g}, wt)
    s = h.s
    bstate(w, h)
    m = h.m
    s.AXnr = w.arr('AXnr', (h.m + h.n, h.k))
    r = s.eval_objfn()
    g0 = s.Y[:m] if g else s.X
    g1 = s.Y[m:] if g else h.D.dot(s.X)
    w.eq('l1 norm', r[0], np.sum(np.abs(h.wl1 * g0)))
    P = w.fn('sporco.prox.proj_l2')
    d = h.S + P(g1 - h.S, h.eps, axis=0) - g1
    w.eq('constraint violation', r[1], np.sqrt(np.sum(d ** 2)))
