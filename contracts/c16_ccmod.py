"""C16, C17: convolutional dictionary update by ADMM."""
from pyvc.framework import contract
from contracts.callee import RRS, SOLVERS, NORM2, SPIED, solution, start, \
    same_shape_fn
from contracts.conv import fnorm2, Prob

CC = 'sporco.admm.ccmod.'
# K signals with one channel, C channels (and K signals) with a single-channel
# dictionary, W multi-channel dictionary
LAYS = ('K', 'C', 'CK', 'WK', 'W')


def problem(w, lay, dimN=2, kd='f'):
    p = Prob()
    start(w)
    p.dimN, p.kd, p.lay = dimN, kd, lay
    p.Nv = tuple(w.dim('N%d' % i, lo=2, hi=5) for i in range(dimN))
    p.h = tuple(w.dim('h%d' % i, hi=3) for i in range(dimN))
    if not w.sym:
        p.h = tuple(min(a, b) for a, b in zip(p.h, p.Nv))
    else:
        for a, b in zip(p.h, p.Nv):
            w.assume(a <= b)
    p.M = w.dim('M')
    p.Cd = 2 if 'W' in lay else 1
    p.C = 2 if 'W' in lay or 'C' in lay else 1
    p.K = w.dim('K') if 'K' in lay else 1
    p.dimK = 1 if 'K' in lay else 0
    sh = p.Nv + ((p.C,) if p.C > 1 else ()) + ((p.K,) if p.dimK else ())
    p.S = w.arr('S', sh, kd)
    p.dsz = p.h + ((p.Cd,) if p.Cd > 1 else ()) + (p.M,)
    p.axisN = tuple(range(dimN))
    p.axisC, p.axisK, p.axisM = dimN, dimN + 1, dimN + 2
    p.Cx = p.C - p.Cd + 1
    p.shpZ = p.Nv + (p.Cx, p.K, p.M)
    p.shpD = p.Nv + (p.Cd, 1, p.M)
    # channels of a signal with a single-channel dictionary are treated as
    # further signals
    p.Ke = p.C * p.K if p.Cd == 1 else p.K
    p.Si = p.S.reshape(p.Nv + (p.Cd, p.Ke, 1))
    p.Z0 = w.arr('Z0', p.shpZ, kd)
    F = w.mod('sporco.fft')
    p.real = kd == 'f'
    p.fft = F.rfftn if p.real else F.fftn
    p.ifft = F.irfftn if p.real else F.ifftn
    return p


def mk(w, p, cls, opt=None, later=True):
    B = w.fn(CC + cls)
    o = B.Options(dict({'Verbose': False}, **(opt or {})))
    s = B(p.Z0, p.S, p.dsz, o, dimK=p.dimK, dimN=p.dimN)
    p.Z = p.Z0
    if later:
        p.Z = w.arr('Z', p.shpZ, p.kd)
        s.setcoef(p.Z)
    p.Zi = p.Z.reshape(p.Nv + (1, p.Ke, p.M))
    s.rho = w.real('rho', pos=True)
    s.rhochange()
    return s


def normal_eq(w, p, s, Zf, b, Xf, name='normal equations'):
    """sum_k conj(Z_k,m) (sum_n Z_k,n X_n) + rho X_m = b_m"""
    np = w.np
    if w.sym and solution(w, name, (p.axisM, p.axisK), Zf, s.rho, b, Xf):
        return
    ZX = np.sum(Zf * Xf, axis=p.axisM, keepdims=True)
    w.eq(name, np.sum(np.conj(Zf) * ZX, axis=p.axisK, keepdims=True) +
         s.rho * Xf, b, tol=1e-4)


@contract('C22', [CC + 'ConvCnstrMOD_IterSM.xstep',
                  CC + 'ConvCnstrMOD_CG.xstep',
                  CC + 'ConvCnstrMODBase.setcoef',
                  CC + 'ConvCnstrMODBase.__init__'],
          cases=[(c, l, h) for c in ('IterSM', 'CG') for l in LAYS
                 for h in (False, True)],
          fft='opaque', modular=dict(RRS, **SOLVERS))
def ccmod_xstep(w, case):
    """X solves (sum_k Z_k^H Z_k + rho I) x = sum_k Z_k^H s_k + rho (y - u)
    for the current coefficient maps and penalty (to the tolerance of the
    inner solver for CG)."""
    cls, lay, hist = case
    np = w.np
    p = problem(w, lay)
    o = {'CG': {'StopTol': 1e-9, 'MaxIter': 5000}} if cls == 'CG' else {}
    s = mk(w, p, 'ConvCnstrMOD_' + cls, o, hist)
    s.Y, s.U = w.arr('Y', p.shpD, p.kd), w.arr('U', p.shpD, p.kd)
    Y, U, S, Z = (w.keep(x) for x in (s.Y, s.U, p.S, p.Z))
    if not w.sym:
        s.Xf = s.Xf * 0
    s.xstep()
    Zf = p.fft(p.Zi, None, p.axisN)
    b = np.sum(np.conj(Zf) * p.fft(p.Si, None, p.axisN), axis=p.axisK,
               keepdims=True) + s.rho * p.fft(Y - U, None, p.axisN)
    normal_eq(w, p, s, Zf, b, s.Xf)
    w.eq('X is the inverse transform', s.X, p.ifft(s.Xf, p.Nv, p.axisN))
    w.same_shape('shape', s.X, Y)
    w.unchanged('Y', s.Y, Y)
    w.unchanged('U', s.U, U)
    w.unchanged('S', p.S, S)
    w.unchanged('Z', p.Z, Z)


PCN = {'sporco.cnvrep.' + n: same_shape_fn(n) for n in ('_Pcn', '_Pcn_zm')}


def projection(w, p, zm, V):
    """Projection onto the filter constraint set."""
    c = w.mod('sporco.cnvrep')
    return (c._Pcn_zm if zm else c._Pcn)(V, p.dsz, p.Nv, p.dimN,
                                         1 if p.Cd > 1 else 0)


@contract('C22', [CC + 'ConvCnstrMODBase.ystep',
                  CC + 'ConvCnstrMOD_Consensus.prox_g',
                  CC + 'ConvCnstrMODBase.getdict',
                  CC + 'ConvCnstrMOD_Consensus.getdict',
                  CC + 'ConvCnstrMODBase.reconstruct'],
          cases=[(c, l, zm) for c in ('IterSM', 'Consensus') for l in LAYS
                 for zm in (False, True)],
          fft='opaque', modular=dict(RRS, **dict(SOLVERS, **PCN)))
def ccmod_ystep(w, case):
    """Y is the projection of A X + U (of its mean over the blocks) onto the
    constraint set the options and the filter sizes describe; the dictionary
    returned is Y cropped to the filter supports."""
    cls, lay, zm = case
    np = w.np
    p = problem(w, lay)
    s = mk(w, p, 'ConvCnstrMOD_' + cls, {'ZeroMean': zm})
    sh = p.shpD + ((p.Ke,) if cls == 'Consensus' else ())
    s.Y = w.arr('Y', p.shpD)
    s.U, s.AX = w.arr('U', sh), w.arr('AX', sh)
    U, AX, Z = w.keep(s.U), w.keep(s.AX), w.keep(p.Z)
    s.ystep()
    V = AX + U
    if cls == 'Consensus':
        V = np.sum(V, axis=-1) / p.Ke
    w.eq('Y', s.Y, projection(w, p, zm, V))
    w.true('shape', tuple(s.Y.shape) == tuple(p.shpD))
    w.unchanged('AX', s.AX, AX)
    w.unchanged('U', s.U, U)
    D = s.getdict()
    w.eq('dictionary', D, s.Y[tuple(slice(0, n) for n in p.h)])
    w.eq('dictionary, not cropped', s.getdict(crop=False), s.Y)
    if cls == 'IterSM':
        Df = p.fft(s.Y, None, p.axisN)
        R = p.ifft(np.sum(p.fft(p.Zi, None, p.axisN) * Df, axis=p.axisM),
                   p.Nv, p.axisN)
        w.eq('reconstruction', s.reconstruct(s.Y), R)
    w.unchanged('Z', p.Z, Z)


@contract('C17', [CC + 'ConvCnstrMODBase.eval_objfn',
                  CC + 'ConvCnstrMODBase.obfn_dfd',
                  CC + 'ConvCnstrMODBase.obfn_cns',
                  CC + 'ConvCnstrMODBase.obfn_fvarf',
                  CC + 'ConvCnstrMOD_Consensus.eval_objfn',
                  CC + 'ConvCnstrMOD_Consensus.obfn_dfd',
                  CC + 'ConvCnstrMOD_Consensus.obfn_cns',
                  CC + 'ConvCnstrMOD_Consensus.obfn_fvarf',
                  CC + 'ConvCnstrMOD_Consensus.swapaxes'],
          cases=[(c, l, zm, f, g) for c in ('IterSM', 'CG', 'Consensus')
                 for l in LAYS for zm in (False, True)
                 for f in (False, True) for g in (False, True)
                 if (f or g) or l == 'WK'],
          fft='opaque', modular=dict(RRS, **dict(
              SOLVERS, **dict(PCN, **NORM2))))
def ccmod_objective(w, case):
    """Half the squared error of the reconstruction, and the distance from
    the constraint set, at X or Y as the options request."""
    cls, lay, zm, f, g = case
    np = w.np
    p = problem(w, lay)
    s = mk(w, p, 'ConvCnstrMOD_' + cls, {'ZeroMean': zm, 'fEvalX': f,
                                         'gEvalY': g})
    cns = cls == 'Consensus'
    sh = p.shpD + ((p.Ke,) if cns else ())
    s.Y = w.arr('Y', p.shpD)
    s.X = w.arr('X', sh)
    s.Xf = p.fft(s.X, None, p.axisN)
    X, Y, Z = w.keep(s.X), w.keep(s.Y), w.keep(p.Z)
    r = s.eval_objfn()
    if f:
        # each signal with its own block
        fv = np.swapaxes(X, p.axisK, -1)[..., 0] if cns else X
    else:
        fv = Y
    gv = Y if g else np.sum(X, axis=-1) / p.Ke if cns else X
    Ef = np.sum(p.fft(p.Zi, None, p.axisN) * p.fft(fv, None, p.axisN),
                axis=p.axisM, keepdims=True) - p.fft(p.Si, None, p.axisN)
    d = projection(w, p, zm, gv) - gv
    w.true('number of terms', len(r) == 2)
    w.eq('data fidelity', r[0], 0.5 * fnorm2(w, p, Ef))
    w.eq('constraint', r[1], np.sqrt(np.sum(d ** 2)))
    w.unchanged('X', s.X, X)
    w.unchanged('Y', s.Y, Y)
    w.unchanged('Z', p.Z, Z)


def block_solver(kind):
    """The solution of the system of the current block (see SOLVERS), stored
    in slice t of the array of all solutions."""
    from contracts import callee

    def fac(world, orig):
        gen = callee.SOLVERS['sporco.linalg.' + kind](world, orig)

        def f(*a, **k):
            r = gen(*a, **k)
            blk = callee.SPIED.get('block')
            if blk is not None:
                r = blk['G'][..., blk['t']]
                callee.SPIED['solve'][-1]['r'] = r
                blk['n'] += 1
            return r
        return f
    return fac


@contract('C22', [CC + 'ConvCnstrMOD_Consensus.xstep',
                  CC + 'ConvCnstrMOD_Consensus.xistep',
                  CC + 'ConvCnstrMOD_Consensus.setcoef',
                  CC + 'ConvCnstrMOD_Consensus.__init__'],
          cases=[(l, h) for l in LAYS for h in (False, True)],
          cuts=[CC + 'ConvCnstrMOD_Consensus.xstep'],
          fft='opaque', modular=dict(RRS, **{
              'sporco.linalg.solvedbi_sm': block_solver('solvedbi_sm')}))
def ccmod_cns_xstep(w, case):
    """Block i of X solves (Z_i^H Z_i + rho I) x = Z_i^H s_i + rho (y - u_i)
    for the current coefficient maps and penalty, for every block i."""
    lay, hist = case
    np = w.np
    p = problem(w, lay)
    s = mk(w, p, 'ConvCnstrMOD_Consensus', {}, hist)
    sh = p.shpD + (p.Ke,)
    s.Y, s.U = w.arr('Y', p.shpD), w.arr('U', sh)
    Y, U, S, Z = (w.keep(x) for x in (s.Y, s.U, p.S, p.Z))
    Zf = p.fft(p.Zi, None, p.axisN)
    Sf = p.fft(p.Si, None, p.axisN)

    def rhs(t):
        return np.conj(Zf[..., [t], :]) * Sf[..., [t], :] + \
            s.rho * p.fft(Y - U[..., t], None, p.axisN)

    def equation(t, x, name):
        Zt = Zf[..., [t], :]
        if w.sym and solution(w, name, (p.axisM, p.axisK), Zt, s.rho,
                              rhs(t), x):
            return
        w.eq(name, np.conj(Zt) * np.sum(Zt * x, axis=p.axisM, keepdims=True)
             + s.rho * x, rhs(t))
    if not w.sym:
        s.xstep()
        for t in range(p.Ke):
            equation(t, s.Xf[..., t], 'normal equations')
        w.eq('X is the inverse transform', s.X, p.ifft(s.Xf, p.Nv, p.axisN))
    else:
        G = p.fft(w.arr('G', sh), None, p.axisN)
        blk = SPIED['block'] = dict(G=G, t=None, n=0)
        Xf0, X0 = w.keep(s.Xf), w.keep(s.X)
        iG = p.ifft(G, p.Nv, p.axisN)

        def first(t, A, B):
            i = np.arange(p.Ke)
            return np.where(i < t, A, B)

        def havoc(t):
            blk['t'], blk['n'] = t, 0
            s.Xf = first(t, G, Xf0)
            if p.Cd > 1:
                s.X = first(t, iG, X0)
            return {}

        def check(t, when):
            if blk['n']:
                equation(blk['t'], G[..., blk['t']], 'normal equations')
            w.eq('solutions of the first blocks', s.Xf, first(t, G, Xf0))
            if p.Cd > 1:
                w.eq('transforms of the first blocks', s.X,
                     first(t, iG, X0))
        w.cut(CC + 'ConvCnstrMOD_Consensus.xstep', havoc, check)
        s.xstep()
        w.eq('all blocks solved', s.Xf, G)
        w.eq('X is the inverse transform', s.X, iG)
    w.unchanged('Y', s.Y, Y)
    w.unchanged('U', s.U, U)
    w.unchanged('S', p.S, S)
    w.unchanged('Z', p.Z, Z)
