"""C06: the outer loops of the iterative solvers."""
from pyvc.framework import contract
from contracts.c07_admm import mk, state

M = 'sporco.admm.admm.'
G = 'sporco.pgm.pgm.'
D = 'sporco.dictlrn.dictlrn.'


class Stats(list):
    """A list of which only the number of the first entries is known."""
    base = 0

    def __len__(self):
        raise TypeError('length')

    def size(self):
        return self.base + list.__len__(self)

    def __bool__(self):
        return True


def size(x):
    return x.size() if isinstance(x, Stats) else len(x)


def gstats(n, last=None):
    s = Stats([last] if last is not None else [])
    s.base = n - (1 if last is not None else 0)
    return s


def niter(w):
    return w.int('N', lo=1, hi=None if w.sym else 5)


class Rec(object):
    """What was observed in one iteration."""


@contract('C06', [M + 'ADMM.solve', M + 'ADMM.iteration_stats'],
          cuts=[M + 'ADMM.solve'], trials=60,
          cases=[(f, a, c) for f in (0, 1) for a in (0, 1) for c in (0, 1)])
def admm_solve(w, case):
    """Iterations are numbered consecutively from where the previous call
    stopped; each does one x, relaxation, y and dual step in order on the
    current state; statistics describe that iteration; the loop ends exactly
    when the callback asks for it, the residuals meet the tolerances or the
    iterations are used up; the solution returned is the current one."""
    fast, auto, cb = case
    np = w.np
    N = niter(w)
    log = []

    def callback(obj):
        r = log[-1]
        r.stopcb = w.bool('cb%d' % len(log))
        r.cbk = obj.k
        w.eq('callback sees the X of this iteration', obj.X, r.X)
        w.eq('callback sees the Y of this iteration', obj.Y, r.Y)
        return r.stopcb
    opt = {'FastSolve': bool(fast), 'MaxMainIter': N,
           'AutoRho': {'Enabled': bool(auto)},
           'RelaxParam': 1.0 if fast else 1.6}
    if cb:
        opt['Callback'] = callback
    h = mk(w, 'equal', opt=opt)
    s = h.s
    state(w, h)
    k0 = s.k = w.int('k0', lo=0, hi=None if w.sym else 9)
    al = s.rlx
    active = auto or not fast
    n0 = 2
    s.itstat = ['a', 'b']
    cl = type(s)

    def ended(r):
        """This iteration was the last one."""
        c = r.stopcb if cb else False
        if active:
            c = c or bool(np.logical_and(r.res[0] < r.res[2],
                                         r.res[1] < r.res[3]))
        return c

    def xstep(self):
        if log and not w.sym:
            after(log[-1])
        r = Rec()
        r.i = len(log)
        r.k = self.k
        r.Yold, r.Uold, r.rho = w.keep(self.Y), w.keep(self.U), self.rho
        r.stopcb = False
        r.step = 'x'
        log.append(r)
        self.X = w.arr('X_%d' % r.i, h.xs)
        r.X = w.keep(self.X)

    def ystep(self):
        r = log[-1]
        w.true('y step follows the x step', r.step == 'x')
        r.step = 'y'
        r.AX = al * r.X + (1 - al) * r.Yold
        w.eq('y step sees the relaxed X', self.AX, r.AX)
        w.eq('y step sees the previous dual variable', self.U, r.Uold)
        self.Y[:] = w.arr('Y_%d' % r.i, h.ys)
        r.Y = w.keep(self.Y)

    def compute_residuals(self):
        r = log[-1]
        w.true('residuals follow the steps', r.step == 'y')
        r.step = 'r'
        w.eq('dual variable updated once', self.U, r.Uold + r.AX - r.Y)
        w.eq('previous Y available', self.Yprev, r.Yold)
        w.eq('unrelaxed A X available', self.AXnr, r.X)
        r.res = tuple(w.real('%s_%d' % (n, r.i), nonneg=True)
                      for n in ('r', 's', 'epri', 'edua'))
        return r.res

    def update_rho(self, k, rr, ss):
        r = log[-1]
        w.true('penalty update once per iteration', r.step == 'r')
        r.step = 'u'
        w.eq('penalty update sees the iteration', k, r.k)
        w.eq('penalty update sees r', rr, r.res[0])
        w.eq('penalty update sees s', ss, r.res[1])
        self.rho = w.real('rho_%d' % r.i, pos=True)

    def after(r):
        """Checked after each iteration that is not the last."""
        w.true('loop continues only if not asked to stop', not ended(r))
        iteration(r)

    def iteration(r):
        w.true('all steps were done', r.step == ('u' if active else 'y'))
        if not fast:
            st = s.itstat[-1]
            w.eq('statistics: iteration number', st.Iter, r.k)
            w.eq('statistics: objective', st.ObjFun, r.f + r.g)
            w.eq('statistics: f', st.FVal, r.f)
            w.eq('statistics: g', st.GVal, r.g)
            for n, v in zip(('PrimalRsdl', 'DualRsdl', 'EpsPrimal',
                             'EpsDual'), r.res):
                w.eq('statistics: ' + n, getattr(st, n), v)
            w.eq('statistics: rho used in the iteration', st.Rho, r.rho)

    def obfn_f(self, X):
        r = log[-1]
        w.eq('f evaluated at X', X, r.X)
        r.f = w.real('f_%d' % r.i)
        return r.f

    def obfn_g(self, Y):
        r = log[-1]
        w.eq('g evaluated at Y', Y, r.Y)
        r.g = w.real('g_%d' % r.i)
        return r.g
    cl.xstep, cl.ystep, cl.compute_residuals = xstep, ystep, \
        compute_residuals
    cl.update_rho, cl.obfn_f, cl.obfn_g = update_rho, obfn_f, obfn_g

    ghost = {'n': 0}

    def havoc(t):
        ghost['n'] = t
        s.k = np.where(t > 0, k0 + t - 1, k0)
        s.X, s.Y, s.U = (w.arr(n, d) for n, d in (
            ('Xt', h.xs), ('Yt', h.ys), ('Ut', h.us)))
        s.Yprev, s.AX, s.AXnr = (w.arr(n, h.ys) for n in (
            'Ypt', 'AXt', 'AXnt'))
        s.rho = w.real('rhot', pos=True)
        s.itstat = gstats(n0 + (0 if fast else t))
        ghost['X'] = s.X

    def check(t, when):
        if when.endswith('(entry)'):
            w.true(when, size(s.itstat) == n0)
            return
        r = log[-1]
        w.eq(when + ': one iteration more', len(log), 1)
        w.eq(when + ': numbered consecutively', r.k, k0 + t - 1)
        w.eq(when + ': iteration number kept', s.k, r.k)
        w.eq(when + ': one record per iteration', size(s.itstat),
             n0 + (0 if fast else t))
        after(r)
    w.cut(M + 'ADMM.solve', havoc, check)
    X = s.solve()
    n = ghost['n'] + len(log)
    w.true('at least one and at most MaxMainIter iterations',
           np.logical_and(n >= 1, n <= N))
    w.eq('next iteration number', s.k, k0 + n)
    w.eq('one record per iteration', size(s.itstat),
         n0 + (0 if fast else n))
    if log:
        r = log[-1]
        iteration(r)
        w.true('stopped for a reason', ended(r) or n == N)
        w.eq('numbered consecutively', r.k, k0 + n - 1)
        w.eq('solution returned', X, r.X)
        if cb:
            w.eq('callback sees the iteration number', r.cbk, r.k)
    else:
        w.true('all iterations used', n == N)
        w.eq('solution returned', X, ghost['X'])
    if not w.sym:
        for i, r in enumerate(log):
            w.eq('numbered consecutively', r.k, k0 + i)
            if not fast:
                w.eq('records in order', s.itstat[n0 + i].Iter, k0 + i)
        w.true('earlier records kept', s.itstat[:2] == ['a', 'b'])


def mkpgm(w, opt=None, dims=('n0', 'n1'), kind='f'):
    """A PGM solver for an arbitrary problem: gradient, proximal operator
    and objective are left open."""
    np = w.np
    B = w.fn(G + 'PGM')

    class Solver(B):
        pass
    sh = tuple(w.dim(d) for d in dims)
    s = Solver(sh, np.dtype(np.float64 if kind == 'f' else np.complex128),
               Solver.Options(opt or {}))
    s.Y = s.X.copy()
    return s, sh


@contract('C06', [G + 'PGM.solve', G + 'PGM.iteration_stats',
                  G + 'PGM.compute_residuals', G + 'PGM.on_iteration_start'],
          cuts=[G + 'PGM.solve'], trials=60,
          cases=[(f, b, c, a) for f in (0, 1) for b in (0, 1)
                 for c in (0, 1) for a in (0, 1)])
def pgm_solve(w, case):
    """As admm_solve, for the proximal gradient method."""
    fast, btrack, cb, auto = case
    np = w.np
    N = niter(w)
    log = []

    def callback(obj):
        r = log[-1]
        r.stopcb = w.bool('cb%d' % len(log))
        r.cbk = obj.k
        w.eq('callback sees the X of this iteration', obj.X, r.X)
        return r.stopcb
    tol, tau0 = w.real('tol', pos=True), w.real('tau0', pos=True)
    opt = {'FastSolve': bool(fast), 'MaxMainIter': N, 'RelStopTol': tol,
           'AutoStop': {'Enabled': bool(auto), 'Tau0': tau0}}
    if cb:
        opt['Callback'] = callback

    class BT(w.fn('sporco.pgm.backtrack.BacktrackBase')):
        def update(self, obj):
            begin(obj)
            r = log[-1]
            obj.X = w.arr('X_%d' % r.i, sh)
            obj.Y = w.arr('Y_%d' % r.i, sh)
            r.X, r.Y = w.keep(obj.X), w.keep(obj.Y)
            obj.F, obj.Q, obj.iterBTrack = r.bt = (
                w.real('F_%d' % r.i), w.real('Q_%d' % r.i), 7)
            obj.L = w.real('L_%d' % r.i, pos=True)
            r.L = obj.L
            r.step = 'y'
    if btrack:
        opt['Backtrack'] = BT()
    s, sh = mkpgm(w, opt)
    cl = type(s)
    s.X, s.Y = w.arr('X', sh), w.arr('Y', sh)
    s.L = w.real('L', pos=True)
    k0 = s.k = w.int('k0', lo=0, hi=None if w.sym else 9)
    n0 = 2
    s.itstat = ['a', 'b']

    def ended(r):
        c = r.stopcb if cb else False
        if not fast:
            t = tau0 / (1. + r.k) if auto else tol
            c = c or bool(r.res < t)
        return c

    def begin(self):
        if log and not w.sym:
            after(log[-1])
        r = Rec()
        r.i = len(log)
        r.k = self.k
        r.stopcb = False
        r.Xold, r.Yold = w.keep(self.X), w.keep(self.Y)
        r.L = self.L
        r.bt = (None, None, None)
        w.eq('previous X available', self.Xprv, r.Xold)
        log.append(r)

    def xstep(self, grad=None):
        begin(self)
        r = log[-1]
        r.step = 'x'
        self.X[:] = w.arr('X_%d' % r.i, sh)
        r.X = w.keep(self.X)

    def ystep(self):
        r = log[-1]
        w.true('y step follows the x step', r.step == 'x')
        w.eq('y step sees X', self.X, r.X)
        w.eq('previous X kept', self.Xprv, r.Xold)
        r.step = 'y'
        self.Y[:] = w.arr('Y_%d' % r.i, sh)
        r.Y = w.keep(self.Y)

    def rsdl(self):
        r = log[-1]
        w.true('residual follows the steps', r.step == 'y')
        w.eq('previous Y available', self.Yprv, r.Yold)
        w.eq('residual sees X', self.X, r.X)
        r.res = w.real('res_%d' % r.i, nonneg=True)
        return r.res

    def obfn_f(self, X):
        r = log[-1]
        w.eq('f evaluated at X', X, r.X)
        r.f = w.real('f_%d' % r.i)
        return r.f

    def obfn_g(self, X):
        r = log[-1]
        w.eq('g evaluated at X', X, r.X)
        r.g = w.real('g_%d' % r.i)
        return r.g
    cl.xstep, cl.ystep, cl.rsdl = xstep, ystep, rsdl
    cl.obfn_f, cl.obfn_g = obfn_f, obfn_g

    def after(r):
        w.true('loop continues only if not asked to stop', not ended(r))
        iteration(r)

    def iteration(r):
        w.true('all steps were done', r.step == 'y')
        if fast:
            return
        st = s.itstat[-1]
        w.eq('statistics: iteration number', st.Iter, r.k)
        w.eq('statistics: objective', st.ObjFun, r.f + r.g)
        w.eq('statistics: f', st.FVal, r.f)
        w.eq('statistics: g', st.GVal, r.g)
        w.eq('statistics: residual', st.Rsdl, r.res)
        w.eq('statistics: L', st.L, r.L)
        if btrack:
            w.eq('statistics: F', st.F_Btrack, r.bt[0])
            w.eq('statistics: Q', st.Q_Btrack, r.bt[1])
            w.eq('statistics: iterations', st.IterBTrack, r.bt[2])
    ghost = {'n': 0}

    def havoc(t):
        ghost['n'] = t
        s.k = np.where(t > 0, k0 + t - 1, k0)
        s.X, s.Y, s.Xprv, s.Yprv = (w.arr(n, sh) for n in (
            'Xt', 'Yt', 'Xpt', 'Ypt'))
        s.L = w.real('Lt', pos=True)
        s.itstat = gstats(n0 + (0 if fast else t))
        ghost['X'] = s.X

    def check(t, when):
        if when.endswith('(entry)'):
            w.true(when, size(s.itstat) == n0)
            return
        r = log[-1]
        w.eq(when + ': one iteration more', len(log), 1)
        w.eq(when + ': numbered consecutively', r.k, k0 + t - 1)
        w.eq(when + ': iteration number kept', s.k, r.k)
        w.eq(when + ': one record per iteration', size(s.itstat),
             n0 + (0 if fast else t))
        after(r)
    w.cut(G + 'PGM.solve', havoc, check)
    X = s.solve()
    n = ghost['n'] + len(log)
    w.true('at least one and at most MaxMainIter iterations',
           np.logical_and(n >= 1, n <= N))
    w.eq('next iteration number', s.k, k0 + n)
    w.eq('one record per iteration', size(s.itstat),
         n0 + (0 if fast else n))
    if log:
        r = log[-1]
        iteration(r)
        w.true('stopped for a reason', ended(r) or n == N)
        w.eq('numbered consecutively', r.k, k0 + n - 1)
        w.eq('solution returned', X, r.X)
        if cb:
            w.eq('callback sees the iteration number', r.cbk, r.k)
    else:
        w.true('all iterations used', n == N)
        w.eq('solution returned', X, ghost['X'])
    if not w.sym:
        for i, r in enumerate(log):
            w.eq('numbered consecutively', r.k, k0 + i)
            if not fast:
                w.eq('records in order', s.itstat[n0 + i].Iter, k0 + i)
        w.true('earlier records kept', s.itstat[:2] == ['a', 'b'])


@contract('C06', [D + 'DictLearn.solve', D + 'DictLearn.post_xstep',
                  D + 'DictLearn.post_dstep', D + 'IterStatsConfig.iterstats'],
          cuts=[D + 'DictLearn.solve'], trials=60, cases=[0, 1])
def dictlearn_solve(w, cb):
    """Each iteration of dictionary learning updates the coefficients with
    the current dictionary, hands them to the dictionary step, updates the
    dictionary and hands it to the coefficient step; the dictionary returned
    is the one last computed."""
    np = w.np
    N = niter(w)
    log = []
    ev = []

    class XS(object):
        def solve(self):
            if log and not w.sym:
                after(log[-1])
            r = Rec()
            r.i, r.j, r.step, r.stopcb = len(log), dl.j, 'x', False
            log.append(r)
            w.eq('coefficient step uses the current dictionary', self.D,
                 dl.dstep.D)
            self.X = w.arr('X_%d' % r.i, (n,))
            r.X = w.keep(self.X)
            self.itstat = list(self.itstat) + [stat('x', r)]

        def getcoef(self):
            return self.X

        def setdict(self, D):
            self.D = D

    class DS(object):
        def solve(self):
            r = log[-1]
            w.true('dictionary step follows the coefficient step',
                   r.step == 'x')
            w.eq('dictionary step uses the current coefficients', self.X,
                 r.X)
            r.step = 'd'
            self.D = w.arr('D_%d' % r.i, (n,))
            r.D = w.keep(self.D)
            self.itstat = list(self.itstat) + [stat('d', r)]

        def getdict(self):
            return self.D

        def setcoef(self, X):
            self.X = X

    class ST(object):
        def __init__(self, which, i):
            self.ObjFun, self.PrimalRsdl, self.DualRsdl, self.Rho = (
                w.real('%s%s_%d' % (q, which, i)) for q in 'opdr')
            self.DFid = self.ObjFun

    def stat(which, r):
        v = ST(which, r.i)
        setattr(r, 'st' + which, v)
        return v
    n = w.dim('n')
    xs, ds = XS(), DS()
    ds.D = w.arr('D', (n,))
    ds.X = w.arr('Xold', (n,))
    xs.D, xs.X = w.keep(ds.D), w.arr('X', (n,))
    xs.itstat, ds.itstat = [ST('x', 99)], [ST('d', 99)]

    def callback(obj):
        r = log[-1]
        r.stopcb = w.bool('cb%d' % len(log))
        w.eq('callback sees the iteration number', obj.j, r.j)
        w.eq('callback sees the dictionary', obj.getdict(), r.D)
        w.eq('callback sees the coefficients', obj.getcoef(), r.X)
        return r.stopcb
    DL = w.fn(D + 'DictLearn')
    opt = DL.Options({'MaxMainIter': N})
    if cb:
        opt['Callback'] = callback
    dl = DL(xs, ds, opt)
    k0 = dl.j = w.int('k0', lo=0, hi=None if w.sym else 9)
    n0 = 2
    dl.itstat = ['a', 'b']

    def after(r):
        w.true('loop continues only if not asked to stop', not r.stopcb)
        iteration(r)

    def iteration(r):
        w.true('both steps were done', r.step == 'd')
        w.eq('next coefficient step has the new dictionary', xs.D, r.D)
        st = dl.itstat[-1]
        w.eq('statistics: iteration number', st.Iter, r.j)
        for f, q in (('ObjFun', 'ObjFun'), ('PrimalRsdl', 'PrRsdl'),
                     ('DualRsdl', 'DlRsdl'), ('Rho', 'Rho')):
            for c, v in (('X', r.stx), ('D', r.std)):
                nm = q + c if q == 'ObjFun' else c + q
                w.eq('statistics: ' + nm, getattr(st, nm), getattr(v, f))
    ghost = {'n': 0}

    def havoc(t):
        ghost['n'] = t
        dl.j = np.where(t > 0, k0 + t - 1, k0)
        ds.D = w.arr('Dt', (n,))
        xs.D = w.keep(ds.D)
        xs.X, ds.X = w.arr('Xt', (n,)), w.arr('Xot', (n,))
        xs.itstat, ds.itstat = [ST('x', 98)], [ST('d', 98)]
        dl.itstat = gstats(n0 + t)
        ghost['D'] = ds.D

    def check(t, when):
        if when.endswith('(entry)'):
            w.true(when, size(dl.itstat) == n0)
            return
        r = log[-1]
        w.eq(when + ': one iteration more', len(log), 1)
        w.eq(when + ': numbered consecutively', r.j, k0 + t - 1)
        w.eq(when + ': iteration number kept', dl.j, r.j)
        w.eq(when + ': one record per iteration', size(dl.itstat), n0 + t)
        after(r)
    w.cut(D + 'DictLearn.solve', havoc, check)
    R = dl.solve()
    m = ghost['n'] + len(log)
    w.true('at least one and at most MaxMainIter iterations',
           np.logical_and(m >= 1, m <= N))
    w.eq('next iteration number', dl.j, k0 + m)
    w.eq('one record per iteration', size(dl.itstat), n0 + m)
    if log:
        r = log[-1]
        iteration(r)
        w.true('stopped for a reason', r.stopcb or m == N)
        w.eq('dictionary returned', R, r.D)
        w.eq('coefficients', dl.getcoef(), r.X)
    else:
        w.true('all iterations used', m == N)
        w.eq('dictionary returned', R, ghost['D'])
    if not w.sym:
        for i, r in enumerate(log):
            w.eq('numbered consecutively', r.j, k0 + i)
            w.eq('records in order', dl.itstat[n0 + i].Iter, k0 + i)
        w.true('earlier records kept', dl.itstat[:2] == ['a', 'b'])
