"""Contracts of callees, used in place of their bodies when a caller is
verified."""
import inspect
from pyvc import terms as T
from pyvc.sval import SV, eng


def rrs(world, orig):
    """A non-negative number (its value is specified by the contract
    `relative_residual`)."""
    def f(ax, b):
        p = T.var(T.fresh_name('rrs'), 'R')
        eng().assume(T.le0(-p))
        return SV('f', p)
    return f


RRS = {'sporco.linalg.rrs': rrs}


_TAB = {}


def _reserved(a):
    return tuple(tuple(T.var('arg%d_%d' % (k, c), 'I')
                       for c in range(len(f))) for k, f in enumerate(a.axes))


def _argkey(x):
    if isinstance(x, (tuple, list)):
        return tuple(_argkey(y) for y in x)
    if isinstance(x, SV):
        return x.poly().key
    return repr(x)


def same_shape_fn(name):
    """A callee that is a function of its arguments alone and returns an
    array of the shape of the first one: equal arguments (normal forms) give
    equal results.  What the function computes is the subject of its own
    contract."""
    def fac(world, orig):
        def f(v, *a, **k):
            from pyvc import sarr as A
            from pyvc.sval import is_sym, to_sv
            ar = [A.lift(v)]
            key = [name]
            b = inspect.signature(orig).bind(v, *a, **k)
            b.apply_defaults()
            for x in list(b.arguments.values())[1:]:
                if getattr(x, '_is_sarr', False) and not any(x.axes):
                    # one element: same as a scalar
                    key.append(_argkey(x.snap()(_reserved(x))))
                elif getattr(x, '_is_sarr', False):
                    ar.append(x)
                else:
                    key.append(_argkey(x))
            for x in ar:
                e = x.snap()(_reserved(x))
                if e.k == 'c':
                    key.append((e.re.key, e.im.key))
                else:
                    key.append(e.poly().key)
                key.append(tuple(tuple(d.key for d in fx) for fx in x.axes))
            key = tuple(key)
            if key not in _TAB:
                _TAB[key] = len(_TAB)
            i = _TAB[key]
            cp = ar[0].dt.kind == 'c'

            def g(idx):
                fl = [c for t in idx for c in t]
                re = T.leaf('%s!%d.re' % (name, i), fl, 'R')
                if cp:
                    return SV('c', re, T.leaf('%s!%d.im' % (name, i), fl,
                                              'R'), ar[0].dt)
                return SV('f', re, None, ar[0].dt)
            eng().trusted.add('%s is a function of its arguments '
                              '(specified by its own contract)' % name)
            return A.SArr(ar[0].axes, ar[0].dt, g)
        return f
    return fac


PROJ_L2 = {'sporco.prox._lp.proj_l2': same_shape_fn('proj_l2')}
PROJ_L1 = {'sporco.prox._l1proj.proj_l1': same_shape_fn('proj_l1')}


SPIED = {}


def spied(name):
    """Start recording the calls of a spied callee; the list of calls."""
    SPIED[name] = []
    return SPIED[name]


def spy(name):
    """A callee replaced by an arbitrary array of the shape of its first
    argument; the calls (arguments and result) are recorded in
    spied(name) for the contract to check against the callee's
    precondition and to relate its result to."""
    def fac(world, orig):
        def f(v, *a, **k):
            from pyvc import sarr as A, snp
            v = A.lift(v)
            r = snp.sym_leaf(T.fresh_name(name), v.axes, v.dt.name)
            SPIED.setdefault(name, []).append((v, a, k, r))
            return r
        return f
    return fac


def _bshape(*arrs):
    from pyvc import sarr as A
    return A.broadcast_axes(*[A.lift(x).axes for x in arrs])


def _cache(kind):
    def fac(world, orig):
        def f(ah, a, rho, axis=-1):
            from pyvc import snp
            r = snp.sym_leaf(T.fresh_name(kind), _bshape(ah, rho),
                             'complex128')
            SPIED.setdefault('cache', []).append(
                dict(kind=kind, ah=ah, a=a, rho=rho, axis=axis, r=r))
            return r
        return f
    return fac


def _solver(kind):
    def fac(world, orig):
        def f(ah, rho, b, *a, **k):
            from pyvc import snp
            c = None
            if kind in ('solvedbi_sm', 'solvedbd_sm'):
                c = a[0] if a else k.get('c')
                ax = a[1] if len(a) > 1 else k.get('axis', 4)
                axK = None
            else:
                ax = a[0] if a else k['axisM']
                axK = a[1] if len(a) > 1 else k['axisK']
            sh = _bshape(ah, b)
            if axK is not None:
                sh = list(sh)
                sh[axK] = b.axes[axK]
            r = snp.sym_leaf(T.fresh_name(kind), sh, 'complex128')
            SPIED.setdefault('solve', []).append(
                dict(kind=kind, ah=ah, rho=rho, b=b, c=c, axis=ax, axK=axK,
                     r=r))
            if kind == 'solvemdbi_cg':
                eng().trusted.add('solvemdbi_cg solves its system to its '
                                  'tolerance (scipy.sparse.linalg.cg)')
                return r, SV('i', T.var(T.fresh_name('cgit'), 'I'))
            return r
        return f
    return fac


# callees specified by the contracts of C03: the result is the solution of
# the documented system with coefficients ah and right-hand side b, if the
# cached array c, when given, was computed from the same coefficients
SOLVERS = {'sporco.linalg.' + k: _solver(k) for k in (
    'solvedbi_sm', 'solvedbd_sm', 'solvemdbi_ism', 'solvemdbi_rsm',
    'solvemdbi_cg')}
SOLVERS.update({'sporco.linalg.%s_c' % k: _cache(k) for k in (
    'solvedbi_sm', 'solvedbd_sm')})


def solution(w, name, axes, ah, rho, b, x):
    """x is the solution, given by a specified solver, of the system with
    the given coefficients and right-hand side.  False if x was not obtained
    from such a solver."""
    cs = [c for c in SPIED.get('solve', [])]
    if not cs:
        return False
    c = cs[-1]
    axM, axK = axes
    nd = len(b.shape)
    w.true(name + ': axis of the filters', c['axis'] % nd == axM)
    if c['axK'] is not None:
        w.true(name + ': axis of the sum', c['axK'] % nd == axK)
    elif axK is not None:
        w.true(name + ': rank one term', ah.shape[axK] == 1)
    if c['kind'] == 'solvedbi_sm':
        # precondition: the diagonal does not depend on the filter
        sh = w.np.asarray(c['rho']).shape
        w.true(name + ': diagonal constant over filters',
               len(sh) == 0 or sh[axM - nd] == 1)
    w.eq(name + ': operator', c['ah'], ah)
    w.eq(name + ': diagonal', c['rho'], rho)
    w.eq(name + ': right-hand side', c['b'], b)
    if c['c'] is not None:
        h = [q for q in SPIED.get('cache', []) if q['r'] is c['c']]
        w.true(name + ': cached array known', len(h) == 1)
        for q in h:
            w.true(name + ': cached array of the same kind',
                   q['kind'] == c['kind'] and q['axis'] % nd == axM)
            w.eq(name + ': cached array of the current operator', q['ah'],
                 ah)
            w.eq(name + ': cached array of the current operator', q['a'],
                 w.np.conj(ah))
            w.eq(name + ': cached array of the current diagonal', q['rho'],
                 rho)
    w.eq(name + ': solution used', x, c['r'])
    return True


def start(w):
    SPIED.clear()


def _norm2(real):
    """sum_k wt_k |z_k|^2, where the weights depend on the transformed axes
    and sizes only: a linear function of |z|^2 (specified by C15)."""
    def fac(world, orig):
        def f(xf, *a, **k):
            from pyvc import sarr as A, stubs
            a = list(a)
            ns = []
            xf = A.lift(xf)
            if real:
                xs = a.pop(0) if a else k['xs']
            axis = a[0] if a else k.get('axis', (0, 1))
            axis = tuple(x % xf.ndim if x < 0 else x for x in axis)
            if real:
                ns = [SV('i', T.P(xs[x])) if not isinstance(xs[x], SV)
                      else xs[x] for x in axis]
                ns = [n.poly() for n in ns]
            idx, gs, ats, dims = [], [], [], []
            for q, fx in enumerate(xf.axes):
                t = []
                for c, d in enumerate(fx):
                    v = T.var('n2_%d_%d' % (q, c), 'I')
                    gs += [T.le0(-v), T.lt0(v - d)]
                    ats.append(v.single_atom())
                    dims.append((q, d.key))
                    t.append(v)
                idx.append(tuple(t))
            with A.guard(T.c_and(*gs) if gs else T.TRUE()):
                v = xf.snap()(tuple(idx))
                e = v.re * v.re + v.im * v.im if v.k == 'c' else \
                    v.poly() * v.poly()
            r = []
            for co, dep in stubs._omono(e, set(ats)):
                key = ('N2', real, tuple(n.key for n in ns), axis,
                       tuple(dims), dep.key)
                if key not in _TAB:
                    _TAB[key] = len(_TAB)
                r.append(co * T.leaf('norm2!%d' % _TAB[key], [], 'R'))
            r = T.addall(r)
            eng().trusted.add('fl2norm2 and rfl2norm2 are weighted sums of '
                              'squared moduli (specified by C15)')
            return SV('f', r)
        return f
    return fac


NORM2 = {'sporco.fft.fl2norm2': _norm2(False),
         'sporco.fft.rfl2norm2': _norm2(True)}
