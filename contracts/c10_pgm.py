"""C10: steps of the proximal gradient method."""
from pyvc.framework import contract
from contracts.c06_loops import mkpgm

G = 'sporco.pgm.pgm.'
B = 'sporco.pgm.backtrack.'
MO = 'sporco.pgm.momentum.'
S = 'sporco.pgm.stepsize.'


def ss(np, x):
    return np.sum(np.abs(x) ** 2)


@contract('C10', [G + 'PGM.xstep'],
          cases=[(p, m) for p in ('none', 'cauchy', 'bb')
                 for m in ('grad', 'own')])
def xstep(w, case):
    """X = prox_g(Y - grad f(Y) / L), where L is first updated by the step
    size policy (from the third iteration on)."""
    pol, gm = case
    np = w.np
    opt = {}
    SP = w.mod('sporco.pgm.stepsize')
    if pol == 'cauchy':
        opt['StepSizePolicy'] = SP.StepSizePolicyCauchy()
    elif pol == 'bb':
        opt['StepSizePolicy'] = SP.StepSizePolicyBB()
    s, sh = mkpgm(w, opt)
    cl = type(s)
    s.X, s.Y = w.arr('X', sh), w.arr('Y', sh)
    s.L = w.real('L', pos=True)
    L0 = s.L
    s.k = w.int('k', lo=0, hi=None if w.sym else 4)
    grad = w.arr('grad', sh)
    Z = w.arr('Z', sh)
    Hg = w.arr('Hg', sh)
    got = []

    def prox(self, V):
        got.append(w.keep(V))
        return Z
    cl.prox_g = prox
    cl.grad_f = lambda self, V=None: grad
    cl.hessian_f = lambda self, V: Hg
    X0, Y0, g0 = w.keep(s.X), w.keep(s.Y), w.keep(grad)
    Lx = L0
    if pol == 'bb':
        xp, gp = w.arr('xprv', sh), w.arr('gradprv', sh)
        s.stepsizepolicy.store_prev_state(xp, gp)
        num, den = np.sum((grad - gp) ** 2), np.sum((X0 - xp) * (grad - gp))
        if s.k > 1:
            w.assume(den != 0)
            Lx = num / den
            if Lx < 0:
                Lx = L0
            w.assume(Lx > 0)
    elif pol == 'cauchy' and s.k > 1:
        w.assume(np.sum(grad * grad) > 0)
        Lx = np.sum(grad * Hg) / np.sum(grad * grad)
        w.assume(Lx > 0)
    r = s.xstep(grad) if gm == 'grad' else s.xstep()
    w.true('one proximal step', len(got) == 1)
    w.eq('step size', s.L, Lx)
    w.eq('gradient step from Y', got[0], Y0 - grad / Lx)
    w.eq('X is the proximal point', s.X, Z)
    w.eq('gradient returned', r, g0)
    w.unchanged('Y not modified', s.Y, Y0)
    w.unchanged('gradient not modified', grad, g0)
    if pol == 'bb':
        w.eq('previous point for the next step size', s.stepsizepolicy.xprv,
             X0)
        w.eq('previous gradient for the next step size',
             s.stepsizepolicy.gradprv, g0)


@contract('C10', [G + 'PGM.ystep', G + 'PGM.var_momentum',
                  MO + 'MomentumNesterov.update', MO + 'MomentumLinear.update',
                  MO + 'MomentumGenLinear.update'],
          cases=[(m, b) for m in ('nesterov', 'linear', 'gen')
                 for b in (0, 1)])
def ystep(w, case):
    """Y = X + (t_k - 1)/t_{k+1} (X - Xprev) (plus t_k/t_{k+1} (Z - X) in
    the monotone variant), with t from the documented momentum rule."""
    mom, mono = case
    np = w.np
    MM = w.mod('sporco.pgm.momentum')
    b = w.real('b', lo=2.0)
    a = w.real('a', pos=True)
    m = {'nesterov': lambda: MM.MomentumNesterov(),
         'linear': lambda: MM.MomentumLinear(b),
         'gen': lambda: MM.MomentumGenLinear(a, b)}[mom]()
    s, sh = mkpgm(w, {'Momentum': m, 'Monotone': bool(mono)})
    s.X, s.Xprv, s.ZZ = (w.arr(n, sh) for n in ('X', 'Xprv', 'ZZ'))
    s.Y = w.arr('Y', sh)
    s.k = k = w.int('k', lo=0, hi=None if w.sym else 6)
    s.t = t0 = w.real('t', lo=1.0)
    X0 = w.keep(s.X)
    s.ystep()
    if mom == 'nesterov':
        t1 = (1 + np.sqrt(1 + 4 * t0 * t0)) / 2
        w.eq('t^2 - t = (previous t)^2', s.t * s.t - s.t, t0 * t0)
        w.true('t increases', s.t > t0)
    elif mom == 'linear':
        t1 = (k + b) / b
    else:
        t1 = (k + a) / b
    w.eq('momentum coefficient', s.t, t1)
    Y = s.X + (t0 - 1) / t1 * (X0 - s.Xprv)
    if mono and k > 0:
        Y = Y + t0 / t1 * (s.ZZ - X0)
    w.eq('extrapolated point', s.Y, Y)
    w.unchanged('X not modified', s.X, X0)


@contract('C10', [G + 'PGM.xstep', G + 'PGM.on_iteration_start',
                  G + 'PGM.eval_objfn'], cases=[0, 1])
def monotone(w, first):
    """With Monotone, the objective of the iterate never increases, and the
    recorded objective is the objective of the iterate."""
    np = w.np
    s, sh = mkpgm(w, {'Monotone': True})
    cl = type(s)
    s.X, s.Y = w.arr('X', sh), w.arr('Y', sh)
    s.L = w.real('L', pos=True)
    s.k = 0 if first else w.int('k', lo=1, hi=None if w.sym else 6)
    Z = w.arr('Z', sh)
    cl.prox_g = lambda self, V: Z
    cl.grad_f = lambda self, V=None: w.arr('g', sh)
    W1, W2 = w.arr('W1', sh), w.arr('W2', sh)
    cl.obfn_f = lambda self, X: np.sum(W1 * X)
    cl.obfn_g = lambda self, X: np.sum(W2 * X)
    F = lambda X: np.sum(W1 * X) + np.sum(W2 * X)
    X0 = w.keep(s.X)
    if not first:
        s.objfn = s.eval_objfn()
    s.on_iteration_start()
    s.xstep()
    if first:
        w.eq('X is the proximal point', s.X, Z)
    else:
        w.le('objective does not increase', F(s.X), F(X0), tol=1e-9)
        w.eq('recorded objective is that of X', s.objfn[0], F(s.X),
             tol=1e-9)
        w.eq('candidate kept for the extrapolation', s.ZZ, Z)
        if F(Z) <= F(X0):
            w.eq('candidate accepted', s.X, Z)
        elif F(Z) > F(X0):
            w.eq('candidate rejected', s.X, X0)


def _btsolver(w, robust):
    """Solver whose x step, objective and gradient are arbitrary."""
    np = w.np
    s, sh = mkpgm(w, {})
    cl = type(s)
    s.X, s.Y = w.arr('X', sh), w.arr('Y', sh)
    s.Xprv = w.arr('Xprv', sh)
    s.L = w.real('L', pos=True)
    log = []

    class Rec(object):
        pass

    def xstep(self, grad=None):
        r = Rec()
        r.i = len(log)
        r.Y, r.L, r.grad = w.keep(self.Y), self.L, grad
        if grad is None:
            r.grad = self.grad_f()
        self.X = w.arr('X_%d' % r.i, sh)
        r.X = w.keep(self.X)
        r.fx = w.real('fx_%d' % r.i)
        r.fy = w.real('fy_%d' % r.i)
        r.ys = 0
        log.append(r)
        return r.grad

    def grad_f(self, V=None):
        g = w.arr('G_%d' % len(log), sh)
        return g

    def obfn_f(self, V):
        r = log[-1]
        if V is self.X:
            return r.fx
        w.eq('f evaluated at X or Y', V, self.Y)
        return r.fy

    def ystep(self):
        log[-1].ys += 1
    cl.xstep, cl.grad_f, cl.obfn_f, cl.ystep = xstep, grad_f, obfn_f, ystep

    def Q(r):
        d = r.X - r.Y
        return r.fy + np.sum(d * r.grad) + r.L / 2 * np.sum(d * d)
    return s, sh, log, Q


@contract('C10', [B + 'BacktrackStandard.update',
                  G + 'PGM.eval_linear_approx', G + 'PGM.eval_Dxy'],
          cuts=[B + 'BacktrackStandard.update'], trials=80)
def backtrack_standard(w, case):
    """Backtracking returns an X for which f(X) <= Q_L(X, Y), or has used
    all trials; L grows by gamma_u after each failure; F, Q and the number of
    trials are those of the X returned."""
    np = w.np
    s, sh, log, Q = _btsolver(w, False)
    gu = w.real('gamma_u', lo=1.1)
    mx = w.int('maxiter', lo=1, hi=None if w.sym else 9)
    bt = w.fn(B + 'BacktrackStandard')(gamma_u=gu, maxiter=mx)
    L0, Y0 = s.L, w.keep(s.Y)
    gh = {'n': 0, 'L': L0, 'F': None, 'Q': None}

    def havoc(t):
        gh['n'] = t
        if t == 0:
            return {'iterBTrack': 0, 'linesearch': 1}
        # state after t failed trials
        s.L = gh['L'] = w.real('Lt', pos=True)
        s.X = w.arr('Xt', sh)
        return {'iterBTrack': t, 'linesearch': 1, 'f': w.real('ft'),
                'Q': w.real('Qt')}

    def check(t, when):
        if when.endswith('(entry)'):
            return
        r = log[-1]
        w.true('only failures are repeated', r.fx > Q(r))
        w.eq('L increased after a failed trial', s.L, gh['L'] * gu)
        w.eq('trial at Y', r.Y, Y0)
        w.eq('one trial per iteration', len(log), 1)
    w.cut(B + 'BacktrackStandard.update', havoc, check)
    bt.update(s)
    n = gh['n'] + len(log)
    w.eq('number of trials', s.iterBTrack, n)
    w.true('at most maxiter trials', np.logical_and(n >= 1, n <= mx))
    if log:
        r = log[-1]
        w.eq('F of the X returned', s.F, r.fx)
        w.eq('Q of the X returned', s.Q, Q(r))
        w.eq('X of the last trial', s.X, r.X)
        w.true('auxiliary sequence updated once', r.ys == 1)
        for q in log:
            w.eq('trial at Y', q.Y, Y0)
        if r.fx <= Q(r):
            w.eq('L of the accepted step', s.L, r.L)
        else:
            w.true('stopped without success only after maxiter', n == mx)
            w.eq('L after the last failed trial', s.L, r.L * gu)
        if not w.sym:
            L = L0
            for i, q in enumerate(log):
                w.eq('L of each trial', q.L, L)
                L = L * gu
                w.true('only failures are repeated',
                       i == len(log) - 1 or q.fx > Q(q))


@contract('C10', [B + 'BacktrackRobust.update', G + 'PGM.var_y',
                  G + 'PGM.eval_linear_approx', G + 'PGM.eval_Dxy'],
          cuts=[B + 'BacktrackRobust.update'], trials=80, cases=[0, 1])
def backtrack_robust(w, first):
    """Robust backtracking: L is first reduced by gamma_d, each trial is at
    y = (T_k x_k + t z_k) / (T_k + t) with L t^2 = T_k + t, and on exit
    f(X) <= Q_L(X, y) or all trials are used; z is advanced by t L (X - y)
    and T by t."""
    np = w.np
    s, sh, log, Q = _btsolver(w, True)
    gu, gd = w.real('gamma_u', lo=1.1), w.real('gamma_d', lo=.5, hi=1.0)
    mx = w.int('maxiter', lo=1, hi=None if w.sym else 9)
    bt = w.fn(B + 'BacktrackRobust')(gamma_d=gd, gamma_u=gu, maxiter=mx)
    L0 = s.L
    if not first:
        bt.Tk = w.real('Tk', nonneg=True)
        bt.Zrb = w.arr('Zrb', sh)
    T0 = bt.Tk
    Z0 = w.keep(s.X if first else bt.Zrb)
    Xp = w.keep(s.Xprv)
    gh = {'n': 0, 'L': L0 * gd}

    def trial(r):
        t = (1 + np.sqrt(1 + 4 * r.L * T0)) / (2 * r.L)
        w.eq('trial point', r.Y, (T0 * Xp + t * Z0) / (T0 + t))
        return t

    def havoc(t):
        gh['n'] = t
        if t == 0:
            return {'iterBTrack': 0, 'linesearch': 1}
        s.L = gh['L'] = w.real('Lt', pos=True)
        s.X, s.Y = w.arr('Xt', sh), w.arr('Yt', sh)
        return {'iterBTrack': t, 'linesearch': 1, 'f': w.real('ft'),
                'Q': w.real('Qt'), 't': w.real('tt'), 'T': w.real('Tt'),
                'y': s.Y, 'gradY': w.arr('gt', sh), 'Dxy': w.arr('dt', sh)}

    def check(t, when):
        if when.endswith('(entry)'):
            return
        r = log[-1]
        trial(r)
        w.true('only failures are repeated', r.fx > Q(r))
        w.eq('L increased after a failed trial', s.L, gh['L'] * gu)
        w.eq('one trial per iteration', len(log), 1)
        w.eq('T unchanged during the search', bt.Tk, T0)
        w.eq('z unchanged during the search', bt.Zrb, Z0)
    w.cut(B + 'BacktrackRobust.update', havoc, check)
    bt.update(s)
    n = gh['n'] + len(log)
    w.eq('number of trials', s.iterBTrack, n)
    w.true('at most maxiter trials', np.logical_and(n >= 1, n <= mx))
    r = log[-1]
    w.eq('F of the X returned', s.F, r.fx)
    w.eq('Q of the X returned', s.Q, Q(r))
    w.eq('X of the last trial', s.X, r.X)
    t = trial(r)
    w.eq('L t^2 = T + t', r.L * t * t, T0 + t, tol=1e-6)
    w.eq('T advanced', bt.Tk, T0 + t)
    w.eq('L of the first trial', log[0].L, gh['L'])
    if r.fx <= Q(r):
        w.eq('L of the accepted step', s.L, r.L)
        w.eq('z advanced', bt.Zrb, Z0 + t * r.L * (r.X - r.Y))
    else:
        w.true('stopped without success only after maxiter', n == mx)
    if not w.sym:
        L = L0 * gd
        for i, q in enumerate(log):
            w.eq('L of each trial', q.L, L)
            L = L * gu
            w.true('only failures are repeated',
                   i == len(log) - 1 or q.fx > Q(q))


@contract('C10', [S + 'StepSizePolicyCauchy.update',
                  S + 'StepSizePolicyBB.update',
                  S + 'StepSizePolicyBB.store_prev_state'],
          cases=[(p, k) for p in ('cauchy', 'bb') for k in 'fc'])
def stepsize(w, case):
    """Cauchy: L = Re(g^H H g) / ||g||^2.  Barzilai-Borwein: L =
    ||dg||^2 / Re(dx^H dg), or the previous L where that is negative."""
    pol, kd = case
    np = w.np
    n0, n1 = w.dim('n0'), w.dim('n1')
    g = w.arr('g', (n0, n1), kd)
    H = w.arr('Hg', (n0, n1), kd)
    x = w.arr('x', (n0, n1), kd)

    class Obj(object):
        L = w.real('L', pos=True)

        def grad_f(self):
            return g

        def hessian_f(self, V):
            w.eq('Hessian applied to the gradient', V, g)
            return H

        def var_x(self):
            return x
    o = Obj()
    C = w.mod('sporco.pgm.stepsize')
    own = w.bool('own')
    re = lambda a, b: np.sum(np.real(np.conj(a) * b))
    if pol == 'cauchy':
        w.assume(re(g, g) > 0)
        p = C.StepSizePolicyCauchy()
        L = p.update(o) if own else p.update(o, g)
        w.eq('L', L * re(g, g), re(g, H))
    else:
        p = C.StepSizePolicyBB()
        xp, gp = w.arr('xp', (n0, n1), kd), w.arr('gp', (n0, n1), kd)
        p.store_prev_state(xp, gp)
        dx, dg = x - xp, g - gp
        w.assume(np.abs(re(dx, dg)) > (0 if w.sym else 1e-6))
        L = p.update(o) if own else p.update(o, g)
        if re(dx, dg) > 0:
            w.eq('L', L * re(dx, dg), re(dg, dg))
        elif re(dg, dg) > 0:
            w.eq('previous L kept', L, o.L)


@contract('C10', [G + 'PGM.rsdl', G + 'PGM.compute_residuals'],
          cases=[(m, a) for m in (0, 1) for a in (0, 1)])
def pgm_residual(w, case):
    """Fixed point residual and stopping tolerance."""
    mono, auto = case
    np = w.np
    tol, tau0 = w.real('tol', pos=True), w.real('tau0', pos=True)
    s, sh = mkpgm(w, {'Monotone': bool(mono), 'RelStopTol': tol,
                      'AutoStop': {'Enabled': bool(auto), 'Tau0': tau0}})
    s.X, s.Y, s.Yprv = (w.arr(n, sh) for n in ('X', 'Y', 'Yprv'))
    s.k = w.int('k', lo=0, hi=None if w.sym else 4)
    r, t = s.compute_residuals()
    Z = s.Y if (mono and s.k > 0) else s.Yprv
    w.eq('residual', r, np.sqrt(np.sum((s.X - Z) ** 2)))
    w.eq('tolerance', t, tau0 / (1 + s.k) if auto else tol)


def mkdft(w, opt=None):
    np = w.np
    P = w.fn(G + 'PGMDFT')

    class Solver(P):
        pass
    sh = (w.dim('n0', lo=1), w.dim('n1', lo=1), w.dim('m'))
    s = Solver(sh, sh[:2], (0, 1), np.dtype(np.float64),
               Solver.Options(opt or {}))
    F = lambda x: w.fn('sporco.fft.rfftn')(x, None, (0, 1))
    s.X, Y = w.arr('X', sh), w.arr('Y', sh)
    s.Xf, s.Yf = F(s.X), F(Y)
    s.Vf = F(w.arr('V', sh))
    s.L = w.real('L', pos=True)
    return s, sh, F, Y


@contract('C10', [G + 'PGMDFT.xstep'],
          cases=[(p, g) for p in ('none', 'cauchy', 'bb') for g in (0, 1)])
def dft_xstep(w, case):
    """X = prox_g(F^-1(Yf - gradf / L)) and Xf is its transform."""
    pol, gm = case
    np = w.np
    SP = w.mod('sporco.pgm.stepsize')
    opt = {}
    if pol == 'cauchy':
        opt['StepSizePolicy'] = SP.StepSizePolicyCauchy()
    elif pol == 'bb':
        opt['StepSizePolicy'] = SP.StepSizePolicyBB()
    s, sh, F, Y = mkdft(w, opt)
    cl = type(s)
    s.k = w.int('k', lo=0, hi=None if w.sym else 4)
    gr = w.arr('grad', sh)
    gradf = F(gr)
    Z = w.arr('Z', sh)
    got = []
    Ln = w.real('Ln', pos=True)
    up = []

    def prox(self, V):
        got.append(w.keep(V))
        return Z
    cl.prox_g = prox
    cl.grad_f = lambda self, V=None: gradf
    if pol != 'none':
        def update(obj, g):
            up.append(1)
            w.eq('policy sees the gradient', g, gradf)
            return Ln
        s.stepsizepolicy.update = update
    Xf0, g0, L0 = w.keep(s.Xf), w.keep(gradf), s.L
    r = s.xstep(gradf) if gm else s.xstep()
    Lx = Ln if pol != 'none' and s.k > 1 else L0
    w.eq('step size', s.L, Lx)
    w.true('one proximal step', len(got) == 1)
    w.eq('gradient step from Y', got[0], Y - gr / Lx)
    w.eq('X is the proximal point', s.X, Z)
    w.eq('Xf is the transform of X', s.Xf, F(Z))
    w.eq('gradient returned', r, g0)
    w.unchanged('gradient not modified', gradf, g0)
    w.eq('Yf not modified', s.Yf, F(Y))
    if pol == 'bb':
        w.eq('previous point for the next step size', s.stepsizepolicy.xprv,
             Xf0)
        w.eq('previous gradient for the next step size',
             s.stepsizepolicy.gradprv, g0)


@contract('C10', [G + 'PGMDFT.ystep', G + 'PGMDFT.on_iteration_start',
                  G + 'PGMDFT.eval_Dxy', G + 'PGMDFT.var_x',
                  G + 'PGMDFT.var_y', G + 'PGMDFT.var_xprv'],
          cases=[0, 1])
def dft_ystep(w, mono):
    np = w.np
    s, sh, F, Y = mkdft(w, {'Monotone': bool(mono)})
    X0 = s.X
    s.k = k = w.int('k', lo=1, hi=None if w.sym else 6)
    s.t = t0 = w.real('t', lo=1.0)
    s.objfn = (w.real('o'),)
    s.on_iteration_start()
    w.eq('previous transform kept', s.var_xprv(), s.Xf)
    w.eq('previous Yf kept', s.Yfprv, s.Yf)
    s.Xf[:] = F(w.arr('Xn', sh))
    w.eq('previous transform is a copy', s.var_xprv(), F(X0))
    Xf, Xfp = w.keep(s.Xf), w.keep(s.Xfprv)
    s.ZZf = F(w.arr('ZZ', sh))
    w.eq('difference', s.eval_Dxy(), s.Xf - s.Yf)
    w.eq('x variable', s.var_x(), s.Xf)
    w.eq('y variable', s.var_y(), s.Yf)
    s.ystep()
    t1 = (1 + np.sqrt(1 + 4 * t0 * t0)) / 2
    w.eq('momentum coefficient', s.t, t1)
    Yf = Xf + (t0 - 1) / t1 * (Xf - Xfp)
    if mono:
        Yf = Yf + t0 / t1 * (s.ZZf - Xf)
    w.eq('extrapolated point', s.Yf, Yf)
    V = w.arr('Vn', s.Yf.shape, 'c')
    s.var_y(V)
    w.eq('y variable set', s.Yf, V)


@contract('C10', [G + 'PGMDFT.xstep', G + 'PGMDFT.on_iteration_start'],
          cases=[0, 1])
def dft_monotone(w, first):
    """Monotone variant in the frequency domain: the iterate, its transform
    and the recorded objective stay consistent, and the objective does not
    increase."""
    np = w.np
    s, sh, F, Y = mkdft(w, {'Monotone': True})
    cl = type(s)
    s.k = 0 if first else w.int('k', lo=1, hi=None if w.sym else 6)
    Z = w.arr('Z', sh)
    cl.prox_g = lambda self, V: Z
    gf = F(w.arr('g', sh))
    cl.grad_f = lambda self, V=None: gf
    W1 = w.arr('W1', sh)
    cl.eval_objfn = lambda self: (np.sum(W1 * self.X), 0.0)
    obj = lambda X: np.sum(W1 * X)
    X0 = w.keep(s.X)
    if not first:
        s.objfn = s.eval_objfn()
    s.on_iteration_start()
    s.xstep()
    w.eq('Xf is the transform of X', s.Xf, F(s.X))
    if first:
        w.eq('X is the proximal point', s.X, Z)
    else:
        w.le('objective does not increase', obj(s.X), obj(X0), tol=1e-9)
        w.eq('recorded objective is that of X', s.objfn[0], obj(s.X),
             tol=1e-9)
        w.eq('candidate kept for the extrapolation', s.ZZf, F(Z))
        if obj(Z) <= obj(X0):
            w.eq('candidate accepted', s.X, Z)
