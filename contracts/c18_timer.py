"""C18, C20: timers and grid search."""
from pyvc.framework import contract

U = 'sporco.util.'


class _Clock(object):
    """Replaces the clock of sporco.util by given values."""

    def __init__(self, w, t):
        self.m = w.mod('sporco.util')
        self.t = t

    def __enter__(self):
        self.old = self.m.timer
        self.m.timer = lambda: self.t

    def __exit__(self, *a):
        self.m.timer = self.old
        return False


_ST = ('absent', 'stopped', 'running')
# labels passed, as seen from a timer with labels 'main', 'a', 'b'
_ARG = {'none': None, 'str': 'a', 'list': ['a', 'b'], 'tuple': ('b',),
        'all': 'all', 'new': 'zz', 'newlist': ['a', 'zz']}


def _state(w, st, dflt='main'):
    """Timer in an arbitrary state: for each label absent, stopped with any
    accumulated time, or running since any time up to now."""
    T = w.mod('sporco.util').Timer(dfltlbl=dflt)
    now = w.real('now')
    old = {}
    for l, s in zip(('main', 'a', 'b'), st):
        if s == 'absent':
            continue
        T.td[l] = w.real('td_' + l, nonneg=True)
        T.t0[l] = None
        if s == 'running':
            T.t0[l] = now - w.real('run_' + l, nonneg=True)
        old[l] = (T.td[l], T.t0[l])
    return T, now, old


def _names(arg, T):
    if arg is None:
        return [T.dfltlbl]
    if arg == 'all':
        return list(T.t0.keys())
    return [arg] if isinstance(arg, str) else list(arg)


def _check(w, name, T, want):
    w.true(name + ': labels', set(T.td) == set(want) and
           set(T.t0) == set(want))
    for l in want:
        td, t0 = want[l]
        w.eq(name + ': accumulated time', T.td[l], td)
        if t0 is None:
            w.true(name + ': not running', T.t0[l] is None)
        else:
            w.true(name + ': running', T.t0[l] is not None)
            if T.t0[l] is not None:
                w.eq(name + ': start time', T.t0[l], t0)


_CS = [(m, a, b) for m in _ST for a in _ST for b in _ST]


@contract('C18', [U + 'Timer.__init__', U + 'Timer.start', U + 'Timer.stop',
                  U + 'Timer.reset', U + 'Timer.elapsed', U +
                  'Timer.labels'],
          cases=[(s, a) for s in _CS for a in sorted(_ARG)], trials=2)
def timer_operations(w, case):
    """Each operation from an arbitrary state of the timer (so by induction
    after any sequence of operations)."""
    st, an = case
    arg = _ARG[an]
    # start
    T, now, old = _state(w, st)
    want = dict(old)
    if an != 'all':
        for l in _names(arg, T):
            td, t0 = want.get(l, (0.0, None))
            want[l] = (td, now if t0 is None else t0)
        with _Clock(w, now):
            T.start(arg)
        _check(w, 'start', T, want)
    # stop and reset
    for op in ('stop', 'reset'):
        T, now, old = _state(w, st)
        want = dict(old)
        nm = _names(arg, T)
        with _Clock(w, now):
            if any(l not in old for l in nm):
                w.raises(op + ' of an unknown label', KeyError,
                         getattr(T, op), arg)
                continue
            getattr(T, op)(arg)
        for l in nm:
            td, t0 = old[l]
            if op == 'reset':
                want[l] = (0.0, None)
            elif t0 is not None:
                want[l] = (td + (now - t0), None)
        _check(w, op, T, want)
    # elapsed
    if an in ('none', 'str', 'new'):
        for total in (True, False):
            T, now, old = _state(w, st)
            l = _names(arg, T)[0]
            with _Clock(w, now):
                if l not in old and an != 'none':
                    w.raises('elapsed of an unknown label', KeyError,
                             T.elapsed, arg, total)
                    continue
                e = T.elapsed(arg, total)
            td, t0 = old.get(l, (0.0, None))
            run = 0.0 if t0 is None else now - t0
            w.eq('elapsed', e, run + td if total else run)
            _check(w, 'elapsed', T, old)
    T, now, old = _state(w, st)
    w.true('labels', set(T.labels()) == set(old))


@contract('C18', [U + 'Timer.__init__', U + 'Timer.start'], cases=[None],
          trials=2)
def timer_initial(w, case):
    """New timers are stopped at zero; the default label can be changed."""
    U_ = w.mod('sporco.util')
    for arg, nm in ((None, []), ('x', ['x']), (['x', 'y'], ['x', 'y']),
                    (('y',), ['y'])):
        T = U_.Timer(arg)
        _check(w, 'new timer', T, {l: (0.0, None) for l in nm})
    t = w.real('t')
    T = U_.Timer('x', dfltlbl='x', alllbl='ev')
    with _Clock(w, t):
        T.start()
        T.start('q')
    _check(w, 'default label', T, {'x': (0.0, t), 'q': (0.0, t)})
    with _Clock(w, t + 1):
        T.stop('ev')
    _check(w, 'label for all', T, {'x': (1.0, None), 'q': (1.0, None)})
    with _Clock(w, t + 3):
        w.eq('elapsed of default label', T.elapsed(), 1.0)


@contract('C18', [U + 'ContextTimer.__init__', U + 'ContextTimer.__enter__',
                  U + 'ContextTimer.__exit__', U + 'ContextTimer.elapsed'],
          cases=[(s, a, l, x) for s in _ST for a in ('StartStop',
                                                     'StopStart')
                 for l in (None, 'a') for x in (False, True)
                 if not (a == 'StopStart' and s == 'absent')], trials=2)
def context_timer(w, case):
    """The timer runs (or is stopped) exactly inside the block, also when
    the block raises, and the exception is not swallowed."""
    s, act, lbl, exc = case
    U_ = w.mod('sporco.util')
    st = (s, 'stopped', 'running') if lbl is None else ('stopped', s,
                                                        'running')
    T, now, old = _state(w, st)
    l = 'main' if lbl is None else lbl
    dt = w.real('dt', nonneg=True)
    C = U_.ContextTimer(T, lbl, act)
    clk = _Clock(w, now)
    raised = False
    with clk:
        try:
            with C:
                mid = (T.td[l], T.t0[l])
                clk.m.timer = lambda: now + dt
                if exc:
                    raise ValueError('x')
        except ValueError:
            raised = True
        e = C.elapsed()
    w.true('exceptions pass', raised == exc)
    td, t0 = old.get(l, (0.0, None))
    want = dict(old)
    if act == 'StartStop':
        w.true('running inside', mid[1] is not None)
        b = now if t0 is None else t0
        want[l] = (td + (now + dt - b), None)
    else:
        w.true('stopped inside', mid[1] is None)
        want[l] = (td + (0.0 if t0 is None else now - t0), now + dt)
    _check(w, 'after the block', T, want)
    w.eq('elapsed', e, want[l][0])
    w.raises('unknown action', ValueError, U_.ContextTimer, T, lbl, 'Stop')


class _Comm(object):
    """Assumed contract on MPI: scan returns the sum of the values sent by
    the ranks up to this one, each of which runs the same code."""

    def __init__(self, rank, size, scan):
        self.rank, self.size, self.f = rank, size, scan

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def scan(self, sendobj=None, op=None):
        self.sent = sendobj
        return self.f(sendobj)


@contract('C20', ['sporco.mpiutil._get_rank_limits'], cases=[1, 2, 3, 4, 7],
          trials=40)
def rank_limits(w, P):
    """The ranges of the ranks are consecutive, cover the whole array, and
    differ in length by at most one, for any length."""
    n = w.int('n', lo=0, hi=None if w.sym else 40)
    f = w.fn('sporco.mpiutil._get_rank_limits')
    tot = 0
    ls = []
    for r in range(P):
        c = _Comm(r, P, lambda s: tot + s)
        b, e = f(c, n)
        w.eq('starts where the previous rank ends', b, tot)
        w.eq('length', e - b, c.sent)
        tot = e
        ls.append(e - b)
        w.le('ranges do not run backwards', b, e)
    w.eq('all elements', tot, n)
    for r in range(P):
        w.le('balanced', ls[r], ls[-1] + 1)
        w.le('balanced', ls[-1], ls[r])


class _Pool(object):
    """Assumed contract on multiprocessing.Pool: map is the ordered map."""

    def __init__(self, processes=None):
        pass

    def map(self, fn, it):
        return [fn(x) for x in it]

    def close(self):
        pass

    def join(self):
        pass


@contract('C20', [U + 'grid_search'], sym=False,
          cases=[(d, v, m) for d in (1, 2, 3) for v in (0, 1, 2)
                 for m in (True, False)], trials=60)
def grid(w, case):
    """The best value over the whole grid (NaN ignored), its parameters and
    index, and all values at their grid positions."""
    d, v, m = case
    np = w.np
    g = [np.sort(w.arr('g%d' % i, (w.dim('n%d' % i, hi=4),)))
         for i in range(d)]
    shp = tuple(a.size for a in g)
    vals = w.arr('vals', shp + ((v,) if v else ()))
    if vals.size > v + 2:
        vals[(0,) * d] = np.nan
    left = {}
    for ix in np.ndindex(*shp):
        left.setdefault(tuple(g[i][ix[i]] for i in range(d)), []).append(ix)

    def fn(p):
        ix = left[tuple(p)].pop(0)
        return tuple(vals[ix]) if v else vals[ix]
    M = w.mod('sporco.util')
    old = M.mp.Pool
    M.mp.Pool = _Pool
    try:
        sprm, sfvl, fv, sidx = M.grid_search(fn, tuple(g), fmin=m, nproc=1)
    finally:
        M.mp.Pool = old
    w.true('all values', fv.shape == vals.shape and
           bool(np.array_equal(fv, vals, equal_nan=True)))
    best = np.nanmin if m else np.nanmax
    for j in range(max(v, 1)):
        vj = vals[..., j] if v else vals
        w.eq('best value', sfvl[j] if v else sfvl, best(vj))
        ix = tuple(sidx[i][j] for i in range(d)) if v else tuple(sidx)
        w.eq('index of the best value', vj[ix], best(vj))
        for i in range(d):
            w.eq('parameters', sprm[i][j] if v else sprm[i], g[i][ix[i]])
