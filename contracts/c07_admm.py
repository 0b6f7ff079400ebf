"""C07, C08, C09: the ADMM base classes."""
from pyvc.framework import contract

M = 'sporco.admm.admm.'


def base(w, cls='ADMM'):
    """A solver derived from one of the ADMM base classes."""
    return w.fn(M + cls)


def opts(w, cls, **k):
    o = cls.Options()
    for a, b in k.items():
        o[a] = b
    return o


def mk(w, kind, dims=('n0', 'n1'), opt=None, **attrs):
    """An instance of base class `kind` in an arbitrary state, together with
    the constraint operators A, A^T, B, c that define its residuals."""
    np = w.np
    B = base(w, {'general': 'ADMM', 'equal': 'ADMMEqual',
                 'two': 'ADMMTwoBlockCnstrnt', 'cns': 'ADMMConsensus',
                 'wcns': 'WeightedADMMConsensus'}[kind])

    class Solver(B):
        pass
    o = Solver.Options(opt or {})
    h = type('H', (), {})()
    if kind == 'general':
        m, n, p = w.dim('m'), w.dim('n'), w.dim('p')
        Am = w.arr('A', (m, n))
        Bm = w.arr('B', (m, p))
        c = w.arr('c', (m,))
        Solver.cnst_A = lambda self, X: Am.dot(X)
        Solver.cnst_AT = lambda self, Y: Am.T.dot(Y)
        Solver.cnst_B = lambda self, Y: Bm.dot(Y)
        Solver.cnst_c = lambda self: c
        s = Solver(n, (p,), (m,), np.dtype(np.float64), o)
        h.A, h.AT, h.B, h.c = (lambda X: Am.dot(X)), (
            lambda Y: Am.T.dot(Y)), (lambda Y: Bm.dot(Y)), c
        h.xs, h.ys, h.us = (n,), (p,), (m,)
        h.nc, h.nx = m, n
    elif kind == 'equal':
        n0, n1 = w.dim('n0'), w.dim('n1')
        s = Solver((n0, n1), np.dtype(np.float64), o)
        h.A = h.AT = lambda X: X
        h.B, h.c = (lambda Y: -Y), 0.0
        h.xs = h.ys = h.us = (n0, n1)
        h.nc = h.nx = n0 * n1
    elif kind == 'two':
        n, m0, m1 = w.dim('n'), w.dim('m0'), w.dim('m1')
        p = w.dim('p')
        A0, A1 = w.arr('A0', (m0, n)), w.arr('A1', (m1, n))
        c0, c1 = w.arr('c0', (m0, p)), w.arr('c1', (m1, p))
        Solver.cnst_A0 = lambda self, X: A0.dot(X)
        Solver.cnst_A1 = lambda self, X: A1.dot(X)
        Solver.cnst_A0T = lambda self, Y: A0.T.dot(Y)
        Solver.cnst_A1T = lambda self, Y: A1.T.dot(Y)
        Solver.cnst_c0 = lambda self: c0
        Solver.cnst_c1 = lambda self: c1
        s = Solver(n * p, (m0 + m1, p), 0, m0, np.dtype(np.float64), o)
        h.A = lambda X: np.concatenate((A0.dot(X), A1.dot(X)), axis=0)
        h.AT = lambda Y: A0.T.dot(Y[:m0]) + A1.T.dot(Y[m0:])
        h.B = lambda Y: -Y
        h.c = np.concatenate((c0, c1), axis=0)
        h.nc_ = np.sqrt(np.sum(c0 ** 2) + np.sum(c1 ** 2))
        h.A0, h.A1, h.c0, h.c1, h.m0 = A0, A1, c0, c1, m0
        h.xs, h.ys, h.us = (n, p), (m0 + m1, p), (m0 + m1, p)
        h.nc, h.nx = (m0 + m1) * p, n * p
    else:
        n, K = w.dim('n'), w.dim('K')
        if kind == 'cns':
            s = Solver(K, (n,), np.dtype(np.float64), o)
        else:
            al = w.arr('alpha', (K,), pos=True)
            s = Solver(K, al, (n,), np.dtype(np.float64), o)
            h.alpha = al
        h.K = K
        h.xs, h.ys, h.us = (n, K), (n,), (n, K)
        h.nc = h.nx = n * K
    h.s = s
    return h


def state(w, h):
    """Arbitrary values of the variables of the iteration."""
    s = h.s
    s.X = w.arr('X', h.xs)
    s.Y = w.arr('Y', h.ys)
    s.Yprev = w.arr('Yprev', h.ys)
    s.U = w.arr('U', h.us)
    s.rho = w.real('rho', pos=True)


KINDS = ('general', 'equal', 'two', 'cns', 'wcns')


def norm(w, x):
    np = w.np
    return np.sqrt(np.sum(np.abs(x) ** 2))


_CR = [(k, m, x) for k in KINDS for m in ('std', 'normalised')
       for x in ('rsdl',)]


@contract('C08', [M + 'ADMM.compute_residuals', M + 'ADMM.rsdl_r',
                  M + 'ADMM.rsdl_s', M + 'ADMM.rsdl_rn', M + 'ADMM.rsdl_sn',
                  M + 'ADMMEqual.rsdl_r', M + 'ADMMEqual.rsdl_s',
                  M + 'ADMMEqual.rsdl_rn', M + 'ADMMEqual.rsdl_sn',
                  M + 'ADMMTwoBlockCnstrnt.rsdl_r',
                  M + 'ADMMTwoBlockCnstrnt.rsdl_s',
                  M + 'ADMMTwoBlockCnstrnt.rsdl_rn',
                  M + 'ADMMTwoBlockCnstrnt.rsdl_sn',
                  M + 'ADMMConsensus.rsdl_r', M + 'ADMMConsensus.rsdl_s',
                  M + 'ADMMConsensus.rsdl_rn', M + 'ADMMConsensus.rsdl_sn',
                  M + 'WeightedADMMConsensus.rsdl_r',
                  M + 'WeightedADMMConsensus.rsdl_s',
                  M + 'WeightedADMMConsensus.rsdl_rn',
                  M + 'WeightedADMMConsensus.rsdl_sn'],
          cases=[(k, m) for k in KINDS for m in ('std', 'normalised')])
def residuals(w, case):
    """Primal and dual residuals and stopping tolerances."""
    kind, mode = case
    np = w.np
    at, rt = w.real('abstol', nonneg=True), w.real('reltol', nonneg=True)
    h = mk(w, kind, opt={'AbsStopTol': at, 'RelStopTol': rt,
                         'AutoRho': {'StdResiduals': mode == 'std'}})
    s = h.s
    state(w, h)
    s.AXnr = w.arr('AXnr', h.us)
    s.AX = w.arr('AX', h.us)     # relaxed: must not enter the residuals
    X0 = [w.keep(a) for a in (s.X, s.Y, s.Yprev, s.U)]
    r, d, epri, edua = s.compute_residuals()
    Y, Yp, U, AX, rho = s.Y, s.Yprev, s.U, s.AXnr, s.rho
    if kind in ('general', 'equal', 'two'):
        nr = norm(w, AX + h.B(Y) - h.c)
        ns = rho * norm(w, h.AT(h.B(Y) - h.B(Yp)))
        rn = np.maximum(np.maximum(norm(w, AX), norm(w, h.B(Y))),
                        getattr(h, 'nc_', None) if kind == 'two' else
                        norm(w, h.c))
        sn = rho * norm(w, h.AT(U))
    elif kind == 'cns':
        K = h.K
        nr = norm(w, AX - Y[..., np.newaxis])
        ns = rho * np.sqrt(K) * norm(w, Yp - Y)
        rn = np.maximum(norm(w, AX), np.sqrt(K) * norm(w, Y))
        sn = rho * norm(w, U)
    else:
        al = h.alpha
        sa = np.sqrt(al)
        nr = norm(w, sa * (AX - Y[..., np.newaxis]))
        a2 = np.sqrt(np.sum(al ** 2))
        ns = rho * a2 * norm(w, Yp - Y)
        rn = np.maximum(norm(w, sa * AX), a2 * norm(w, Y))
        sn = rho * norm(w, U)
    sc, sx = np.sqrt(h.nc), np.sqrt(h.nx)
    if mode == 'std':
        w.eq('primal residual', r, nr)
        w.eq('dual residual', d, ns)
        w.eq('primal tolerance', epri, sc * at + rt * rn)
        w.eq('dual tolerance', edua, sx * at + rt * sn)
    else:
        rn1 = np.where(rn == 0.0, 1.0, rn)
        sn1 = np.where(sn == 0.0, 1.0, sn)
        w.eq('primal residual', r * rn1, nr)
        w.eq('dual residual', d * sn1, ns)
        w.eq('primal tolerance', epri * rn1, sc * at + rt * rn1)
        w.eq('dual tolerance', edua * sn1, sx * at + rt * sn1)
    for nm, a, b in zip(('X', 'Y', 'Yprev', 'U'),
                        (s.X, s.Y, s.Yprev, s.U), X0):
        w.unchanged(nm + ' not modified', a, b)


@contract('C09', [M + 'ADMM.relax_AX', M + 'ADMM.ustep',
                  M + 'ADMMEqual.relax_AX', M + 'ADMMTwoBlockCnstrnt.relax_AX',
                  M + 'ADMMTwoBlockCnstrnt.block_sep',
                  M + 'ADMMTwoBlockCnstrnt.block_cat',
                  M + 'ADMMTwoBlockCnstrnt.cnst_A',
                  M + 'ADMMConsensus.relax_AX',
                  M + 'WeightedADMMConsensus.ustep'],
          cases=[(k, r) for k in KINDS for r in ('one', 'any')])
def relax_and_dual_step(w, case):
    """AX <- alpha A X - (1 - alpha)(B Y - c); U <- U + AX + B Y - c."""
    kind, rl = case
    np = w.np
    al = 1.0 if rl == 'one' else w.real('alpha_r', lo=0.5, hi=1.9)
    h = mk(w, kind, opt={'RelaxParam': al})
    s = h.s
    state(w, h)
    X0, Y0, U0 = [w.keep(a) for a in (s.X, s.Y, s.U)]
    s.relax_AX()
    if kind in ('cns', 'wcns'):
        A = lambda X: X
        By = lambda Y: -Y[..., np.newaxis]
        c = 0.0
    else:
        A, By, c = h.A, h.B, h.c
    AX = al * A(X0) - (1 - al) * (By(Y0) - c)
    w.eq('unrelaxed A X', s.AXnr, A(X0))
    w.eq('relaxed A X', s.AX, AX + np.zeros(h.us))
    w.unchanged('X not modified', s.X, X0)
    w.unchanged('Y not modified', s.Y, Y0)
    w.unchanged('U not modified by relaxation', s.U, U0)
    s.Y = w.arr('Ynew', h.ys)
    Y1 = w.keep(s.Y)
    s.ustep()
    U1 = U0 + AX + By(Y1) - c
    if kind == 'wcns':
        U1 = U0 + AX - Y1[..., np.newaxis]
    w.eq('dual update', s.U, U1)
    w.unchanged('Y not modified', s.Y, Y1)
    w.eq('unrelaxed A X kept', s.AXnr, A(X0))


@contract('C09', [M + 'ADMMConsensus.ystep',
                  M + 'WeightedADMMConsensus.ystep'],
          cases=['cns', 'wcns'])
def consensus_ystep(w, case):
    """Y minimises g(Y) + rho/2 sum_i w_i ||AX_i + U_i - Y||^2: the proximal
    operator of g is called with the (weighted) mean and rho times the sum
    of the weights."""
    np = w.np
    h = mk(w, case)
    s = h.s
    state(w, h)
    s.AX = w.arr('AX', h.us)
    Z = w.arr('Z', h.ys)
    got = []

    def prox(self, X, rho):
        got.append((X, rho))
        return Z
    type(s).prox_g = prox
    AX, U = w.keep(s.AX), w.keep(s.U)
    Yobj = s.Y
    s.ystep()
    w.true('one proximal step', len(got) == 1)
    X, rho = got[0]
    if case == 'cns':
        al = np.ones((h.K,))
    else:
        al = h.alpha
    sa = np.sum(al)
    w.eq('penalty of the proximal step', rho, sa * s.rho)
    w.eq('weighted mean of A X + U', X * sa, np.sum(al * (AX + U), axis=-1))
    w.eq('Y is the proximal point', s.Y, Z)
    w.unchanged('AX not modified', s.AX, AX)
    w.unchanged('U not modified', s.U, U)


@contract('C09', [M + 'ADMMTwoBlockCnstrnt.block_sep0',
                  M + 'ADMMTwoBlockCnstrnt.block_sep1',
                  M + 'ADMMTwoBlockCnstrnt.block_cat',
                  M + 'ADMMTwoBlockCnstrnt.block_sep',
                  M + 'ADMMTwoBlockCnstrnt.var_y0',
                  M + 'ADMMTwoBlockCnstrnt.var_y1'],
          cases=[0, 1, 2])
def two_block_structure(w, ax):
    """block_cat and block_sep are inverse, along any axis, and the blocks
    are the leading and trailing parts of Y."""
    np = w.np
    n = [w.dim('n%d' % i) for i in range(3)]
    m1 = w.dim('m1')
    B = base(w, 'ADMMTwoBlockCnstrnt')
    sh = list(n)
    sh[ax] = n[ax] + m1
    s1 = list(n)
    s1[ax] = m1
    s = B(n[0] * n[1] * n[2], tuple(sh), ax, n[ax], np.dtype(np.float64),
          B.Options())
    Y0, Y1 = w.arr('Y0', tuple(n)), w.arr('Y1', tuple(s1))
    Y = s.block_cat(Y0, Y1)
    a, b = s.block_sep(Y)
    w.eq('first block recovered', a, Y0)
    w.eq('second block recovered', b, Y1)
    Z = w.arr('Z', tuple(sh))
    z0, z1 = s.block_sep(Z)
    w.eq('blocks partition Z', s.block_cat(z0, z1), Z)
    s.Y = Z
    w.eq('var_y0', s.var_y0(), z0)
    w.eq('var_y1', s.var_y1(), z1)


@contract('C09', [M + 'ADMMEqual.getmin', M + 'ADMMEqual.eval_objfn',
                  M + 'ADMMTwoBlockCnstrnt.getmin',
                  M + 'ADMMTwoBlockCnstrnt.eval_objfn',
                  M + 'ADMMConsensus.getmin', M + 'ADMMConsensus.eval_objfn',
                  M + 'ADMM.eval_objfn', M + 'ADMM.getmin'],
          cases=[('general', 0, 0), ('equal', 0, 0), ('equal', 0, 1),
                 ('equal', 1, 0), ('equal', 1, 1), ('two', 0, 'X'),
                 ('two', 0, 'Y0'), ('two', 1, 'Y1'), ('cns', 1, 0),
                 ('cns', 0, 0), ('wcns', 1, 0), ('wcns', 0, 0)])
def objective_variables(w, case):
    """The objective is f + g at the variables chosen by the options and the
    solution returned is the variable chosen by the options."""
    kind, a, b = case
    np = w.np
    if kind == 'equal':
        opt = {'fEvalX': bool(a), 'gEvalY': bool(b), 'ReturnX': bool(a)}
    elif kind == 'two':
        opt = {'AuxVarObj': bool(a), 'ReturnVar': b}
    elif kind in ('cns', 'wcns'):
        opt = {'fEvalX': not a, 'gEvalY': bool(a)}
    else:
        opt = {}
    h = mk(w, kind, opt=opt)
    s = h.s
    state(w, h)
    wf = lambda v: np.sum(v * v)
    wg = lambda v: np.sum(v * v * v)
    cl = type(s)
    X, Y = s.X, s.Y
    if kind in ('general', 'equal'):
        cl.obfn_f = lambda self, V: wf(V)
        cl.obfn_g = lambda self, V: wg(V)
        fv = X if (kind == 'general' or a) else Y
        gv = Y if (kind == 'general' or b) else X
        o = s.eval_objfn()
        w.eq('objective', o[0], wf(fv) + wg(gv))
        w.eq('f', o[1], wf(fv))
        w.eq('g', o[2], wg(gv))
        w.eq('solution', s.getmin(), X if (kind == 'general' or a) else Y)
    elif kind == 'two':
        cl.obfn_g0 = lambda self, V: wf(V)
        cl.obfn_g1 = lambda self, V: wg(V)
        v0 = Y[:h.m0] if a else h.A0.dot(X) - h.c0
        v1 = Y[h.m0:] if a else h.A1.dot(X) - h.c1
        o = s.eval_objfn()
        w.eq('objective', o[0], wf(v0) + wg(v1))
        w.eq('g0', o[2], wf(v0))
        w.eq('g1', o[3], wg(v1))
        w.eq('solution', s.getmin(), {'X': X, 'Y0': Y[:h.m0],
                                      'Y1': Y[h.m0:]}[b])
    else:
        cl.obfn_g = lambda self, V: wg(V)
        al = getattr(h, 'alpha', np.ones((h.K,)))
        gv = Y if a else None
        if not a:
            gv = np.sum(al * X, axis=-1) / np.sum(al)
        w.eq('argument of g', s.obfn_gvar(), gv)
        i = w.gindex(h.K)
        w.eq('argument of f', s.obfn_fvar(i), Y if a else X[..., i])
        w.eq('solution', s.getmin(), Y)


@contract('C09', [M + 'ADMM.__init__', M + 'ADMM.yinit', M + 'ADMM.uinit'],
          cases=[('equal', 0), ('equal', 1), ('general', 0), ('general', 1)])
def initial_state(w, case):
    """Y0 and U0 are copied; zero otherwise; rho from the options."""
    kind, given = case
    np = w.np
    opt = {}
    rho = w.real('rho0', pos=True)
    opt['rho'] = rho
    if kind == 'equal':
        n0, n1 = w.dim('n0'), w.dim('n1')
        ys = us = (n0, n1)
    else:
        ys, us = (w.dim('p'),), (w.dim('m'),)
    if given:
        Y0, U0 = w.arr('Y0', ys), w.arr('U0', us)
        opt['Y0'] = Y0
        opt['U0'] = U0
    h = mk(w, kind, opt=opt)
    s = h.s
    w.eq('rho', s.rho, rho)
    w.true('no iterations yet', s.k == 0 and len(s.itstat) == 0)
    if given:
        a, b = w.keep(Y0), w.keep(U0)
        w.eq('Y0 used', s.Y, a)
        w.eq('U0 used', s.U, b)
        s.Y += 1.0
        s.U += 1.0
        w.unchanged('Y0 is not aliased', Y0, a)
        w.unchanged('U0 is not aliased', U0, b)
    else:
        w.eq('Y zero', s.Y, np.zeros(h.ys))
        w.eq('U zero', s.U, np.zeros(h.us))


@contract('C07', [M + 'ADMM.update_rho'],
          cases=[(a, b) for a in (False, True) for b in (False, True)])
def update_rho(w, case):
    """Penalty adaptation keeps rho U (the unscaled multiplier) unchanged,
    keeps rho positive, follows the documented rule, and signals changes."""
    enabled, auto = case
    np = w.np
    tau = w.real('tau', lo=1.0)
    mu = w.real('mu', lo=1.0)
    xi = w.real('xi', lo=0.01)
    per = w.int('period', lo=1, hi=12) if not w.sym else w.int('period', lo=1)
    h = mk(w, 'equal', opt={'AutoRho': {
        'Enabled': enabled, 'AutoScaling': auto, 'Scaling': tau,
        'RsdlRatio': mu, 'RsdlTarget': xi, 'Period': per}})
    s = h.s
    state(w, h)
    calls = []
    type(s).rhochange = lambda self: calls.append(self.rho)
    rho0, U0 = s.rho, w.keep(s.U)
    Y0 = w.keep(s.Y)
    k = w.int('k', lo=0, hi=None if w.sym else 30)
    r, d = w.real('r', nonneg=True), w.real('s', nonneg=True)
    s.update_rho(k, r, d)
    w.true('rho stays positive', s.rho > 0)
    w.eq('rho U unchanged', s.rho * s.U, rho0 * U0)
    w.unchanged('Y not modified', s.Y, Y0)
    active = enabled and (k != 0) and ((k + 1) % per == 0)
    if not active:
        w.eq('rho unchanged', s.rho, rho0)
    else:
        if auto:
            if r == 0.0 or d == 0.0:
                mlt = tau
            else:
                q = r / (d * xi)
                q = np.where(r > d * xi, q, 1 / q)
                mlt = np.where(q > tau * tau, tau, np.sqrt(q))
        else:
            mlt = tau
        if r > xi * mu * d:
            w.eq('rho increased when the primal residual dominates', s.rho,
                 rho0 * mlt, tol=1e-6)
        elif xi * d > mu * r:
            w.eq('rho decreased when the dual residual dominates',
                 s.rho * mlt, rho0, tol=1e-6)
        else:
            w.eq('rho unchanged when the residuals are balanced', s.rho,
                 rho0)
    if not (s.rho == rho0):
        w.true('change of rho signalled after the update', len(calls) == 1)
        w.eq('new rho visible to rhochange', calls[0], s.rho)
    else:
        w.true('at most one signal', len(calls) <= 1)
