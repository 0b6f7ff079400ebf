"""C16, C17: convolutional dictionary update with mask decoupling."""
from pyvc.framework import contract
from contracts.callee import RRS, SOLVERS, NORM2, SPIED, solution
from contracts.c16_ccmod import CC as _CC, LAYS, PCN, problem, projection, \
    block_solver

CC = 'sporco.admm.ccmodmd.ConvCnstrMODMaskDcpl'
MSK = ('full', 'image', 'chan', 'sig')


def mk(w, p, cls, opt=None, msk='full', later=True):
    np = w.np
    B = w.fn(CC + cls)
    o = B.Options(dict({'Verbose': False}, **(opt or {})))
    if msk == 'sig' and 'K' in p.lay:
        # a single signal is the case of a mask for all signals
        w.assume(p.K >= 2)
    sh = {'full': (p.C, p.K, 1), 'image': (1, 1, 1), 'chan': (p.C, 1, 1),
          'sig': (1, p.K, 1)}[msk]
    W = w.arr('W', p.Nv + sh, nonneg=True)
    full = np.broadcast_to(W, p.Nv + (p.C, p.K, 1))
    p.Wi = W if msk == 'image' else full.reshape(p.Nv + (p.Cd, p.Ke, 1))
    s = B(p.Z0, p.S, W, p.dsz, o, dimK=p.dimK, dimN=p.dimN)
    p.Z = p.Z0
    if later:
        p.Z = w.arr('Z', p.shpZ, p.kd)
        s.setcoef(p.Z)
    p.Zi = p.Z.reshape(p.Nv + (1, p.Ke, p.M))
    s.rho = w.real('rho', pos=True)
    s.rhochange()
    p.shpY = p.Nv + (p.Cd, 1, p.Ke + p.M)
    return s


def blocks(w, p, Y):
    """Data block in the layout of the signal, and dictionary block."""
    return w.np.swapaxes(Y[..., :p.Ke], p.axisK, p.axisM), Y[..., p.Ke:]


def state(w, p, s):
    s.X = w.arr('X', p.shpD)
    for n in ('Y', 'U', 'AX'):
        setattr(s, n, w.arr(n, p.shpY))


@contract('C22', [CC + '_IterSM.xstep', CC + '_CG.xstep',
                  CC + 'Base.setcoef', CC + 'Base.__init__',
                  CC + 'Base.block_sep0'],
          cases=[(c, l, h) for c in ('_IterSM', '_CG') for l in LAYS
                 for h in (False, True)],
          fft='opaque', modular=dict(RRS, **SOLVERS))
def ccmodmd_xstep(w, case):
    """X solves (sum_k Z_k^H Z_k + I) x = sum_k Z_k^H (y0_k - u0_k + s_k) +
    (y1 - u1) for the current coefficient maps."""
    cls, lay, hist = case
    np = w.np
    p = problem(w, lay)
    o = {'CG': {'StopTol': 1e-9, 'MaxIter': 5000}} if cls == '_CG' else {}
    s = mk(w, p, cls, o, 'image', hist)
    state(w, p, s)
    Y, U, S, Z = (w.keep(x) for x in (s.Y, s.U, p.S, p.Z))
    s.xstep()
    Zf = p.fft(p.Zi, None, p.axisN)
    V0, V1 = blocks(w, p, Y - U)
    b = np.sum(np.conj(Zf) * p.fft(V0 + p.Si, None, p.axisN), axis=p.axisK,
               keepdims=True) + p.fft(V1, None, p.axisN)
    if not (w.sym and solution(w, 'normal equations', (p.axisM, p.axisK),
                               Zf, 1.0, b, s.Xf)):
        ZX = np.sum(Zf * s.Xf, axis=p.axisM, keepdims=True)
        w.eq('normal equations', np.sum(np.conj(Zf) * ZX, axis=p.axisK,
                                        keepdims=True) + s.Xf, b, tol=1e-4)
    w.eq('X is the inverse transform', s.X, p.ifft(s.Xf, p.Nv, p.axisN))
    w.true('shape', tuple(s.X.shape) == tuple(p.shpD))
    w.unchanged('Y', s.Y, Y)
    w.unchanged('U', s.U, U)
    w.unchanged('S', p.S, S)
    w.unchanged('Z', p.Z, Z)


@contract('C22', [CC + 'Base.ystep', CC + 'Base.block_cat',
                  CC + 'Base.getdict', CC + 'Base.reconstruct',
                  CC + 'Base.__init__'],
          cases=[(l, m, zm) for l in LAYS for m in MSK
                 for zm in (False, True)],
          fft='opaque', fork=True, modular=dict(RRS, **dict(SOLVERS, **PCN)))
def ccmodmd_ystep(w, case):
    """The data block of Y is the proximal operator of the masked squared
    error at A X + U - S, the dictionary block the projection onto the
    constraint set."""
    lay, msk, zm = case
    np = w.np
    p = problem(w, lay)
    s = mk(w, p, '_IterSM', {'ZeroMean': zm}, msk)
    state(w, p, s)
    AX, U = w.keep(s.AX), w.keep(s.U)
    s.ystep()
    V0, V1 = blocks(w, p, AX + U)
    Y0, Y1 = blocks(w, p, s.Y)
    w.true('shape', tuple(s.Y.shape) == tuple(p.shpY))
    w.eq('data block', (p.Wi ** 2 + s.rho) * Y0, s.rho * (V0 - p.Si))
    w.eq('dictionary block', Y1, projection(w, p, zm, V1))
    w.unchanged('AX', s.AX, AX)
    w.unchanged('U', s.U, U)
    w.eq('dictionary', s.getdict(), Y1[tuple(slice(0, n) for n in p.h)])
    w.eq('dictionary, not cropped', s.getdict(crop=False), Y1)
    D = w.arr('Dr', p.shpD)
    R = p.ifft(np.sum(p.fft(p.Zi, None, p.axisN) * p.fft(D, None, p.axisN),
                      axis=p.axisM), p.Nv, p.axisN)
    w.eq('reconstruction', s.reconstruct(D), R)


@contract('C22', [CC + 'Base.cnst_A0', CC + 'Base.cnst_A0T',
                  CC + 'Base.cnst_A', CC + 'Base.cnst_c0',
                  CC + 'Base.relax_AX'],
          cases=[(l, r) for l in LAYS for r in (0, 1)],
          fft='opaque', modular=dict(RRS, **SOLVERS))
def ccmodmd_constraint(w, case):
    """A X = (Z X, X), its adjoint is (Y0, Y1) -> sum_k Z_k^H Y0_k + Y1, the
    constant is (S, 0), and the relaxed value is alpha A X + (1 - alpha)
    (Y + c); the dual variable is increased by A X - Y - c."""
    lay, rl = case
    np = w.np
    p = problem(w, lay)
    r = w.real('rlx', pos=True)
    s = mk(w, p, '_IterSM', {'RelaxParam': r if rl else 1.0}, 'image')
    state(w, p, s)
    s.Xf = p.fft(s.X, None, p.axisN)
    Zf = p.fft(p.Zi, None, p.axisN)
    ZX = p.ifft(np.sum(Zf * s.Xf, axis=p.axisM, keepdims=True), p.Nv,
                p.axisN)
    X, Y, U = w.keep(s.X), w.keep(s.Y), w.keep(s.U)
    w.eq('Z X', s.cnst_A0(s.X), ZX)
    w.eq('Z X, transform given', s.cnst_A0(s.X, s.Xf), ZX)
    Y0, Y1 = blocks(w, p, Y)
    AT = p.ifft(np.sum(np.conj(Zf) * p.fft(Y0, None, p.axisN), axis=p.axisK,
                       keepdims=True), p.Nv, p.axisN) + Y1
    w.eq('adjoint', s.cnst_AT(s.Y), AT)
    s.relax_AX()
    A0, A1 = blocks(w, p, s.AX)
    if rl:
        w.eq('relaxed data block', A0, r * ZX + (1 - r) * (Y0 + p.Si))
        w.eq('relaxed dictionary block', A1, r * X + (1 - r) * Y1)
    else:
        w.eq('data block', A0, ZX)
        w.eq('dictionary block', A1, X)
    w.unchanged('X', s.X, X)
    w.unchanged('Y', s.Y, Y)
    s.ustep()
    U0, U1 = blocks(w, p, s.U)
    P0, P1 = blocks(w, p, U)
    w.eq('dual update, data block', U0, P0 + A0 - Y0 - p.Si)
    w.eq('dual update, dictionary block', U1, P1 + A1 - Y1)


@contract('C17', [CC + 'Base.eval_objfn', CC + 'Base.obfn_g0',
                  CC + 'Base.obfn_g1', CC + 'Base.obfn_g0var'],
          cases=[(c, l, m, g, rl) for c in ('_IterSM', '_CG') for l in LAYS
                 for m in MSK for g in (False, True) for rl in (False, True)
                 if c == '_IterSM' or m == 'image' and rl],
          fft='opaque', fork=True, modular=dict(RRS, **dict(
              SOLVERS, **dict(NORM2, **PCN))))
def ccmodmd_objective(w, case):
    """Half the squared masked error, and the distance from the constraint
    set, at the auxiliary variables or at X as the option requests."""
    cls, lay, msk, g, rl = case
    np = w.np
    p = problem(w, lay)
    s = mk(w, p, cls, {'AuxVarObj': g, 'RelaxParam': 1.8 if rl else 1.0},
           msk)
    state(w, p, s)
    s.Xf = p.fft(s.X, None, p.axisN)
    s.relax_AX()
    X, Y = w.keep(s.X), w.keep(s.Y)
    r = s.eval_objfn()
    if g:
        g0, g1 = blocks(w, p, Y)
    else:
        g0 = p.ifft(np.sum(p.fft(p.Zi, None, p.axisN) * s.Xf, axis=p.axisM,
                           keepdims=True), p.Nv, p.axisN) - p.Si
        g1 = X
    w.true('number of terms', len(r) == 2)
    w.eq('data fidelity', r[0], 0.5 * np.sum((p.Wi * g0) ** 2))
    d = projection(w, p, False, g1) - g1
    w.eq('constraint', r[1], np.sqrt(np.sum(d ** 2)))
    w.unchanged('X', s.X, X)
    w.unchanged('Y', s.Y, Y)


def cstate(w, p, s):
    sh = p.shpD + (p.Ke,)
    s.Y = w.arr('Y', p.shpD)
    for n in ('X', 'U', 'AX'):
        setattr(s, n, w.arr(n, sh))
    for n in ('Y1', 'U1', 'AX1'):
        setattr(s, n, w.arr(n, p.Nv + (p.Cd, p.Ke, 1)))
    s.Xf = p.fft(s.X, None, p.axisN)


@contract('C22', [CC + '_Consensus.xstep', CC + '_Consensus.setcoef',
                  CC + '_Consensus.__init__'],
          cases=[(l, h) for l in LAYS for h in (False, True)],
          cuts=[_CC + 'ConvCnstrMOD_Consensus.xstep'],
          fft='opaque', modular=dict(RRS, **{
              'sporco.linalg.solvedbi_sm': block_solver('solvedbi_sm')}))
def ccmodmd_cns_xstep(w, case):
    """Block i of X solves (Z_i^H Z_i + I) x = Z_i^H (y1_i - u1_i + s_i) +
    (y - u_i), for every block i, and the penalty is not changed."""
    lay, hist = case
    np = w.np
    p = problem(w, lay)
    s = mk(w, p, '_Consensus', {}, 'image', hist)
    Xf1 = w.keep(s.Xf)
    cstate(w, p, s)
    s.Xf = Xf1
    Y, U, S, Z, Y1, U1 = (w.keep(x) for x in (s.Y, s.U, p.S, p.Z, s.Y1,
                                              s.U1))
    rho = s.rho
    Zf = p.fft(p.Zi, None, p.axisN)
    Sf = p.fft(p.Si + Y1 - U1, None, p.axisN)

    def equation(t, x, name):
        Zt = Zf[..., [t], :]
        b = np.conj(Zt) * Sf[..., [t], :] + p.fft(Y - U[..., t], None,
                                                  p.axisN)
        if w.sym and solution(w, name, (p.axisM, p.axisK), Zt, 1.0, b, x):
            return
        w.eq(name, np.conj(Zt) * np.sum(Zt * x, axis=p.axisM, keepdims=True)
             + x, b)
    if not w.sym:
        s.xstep()
        for t in range(p.Ke):
            equation(t, s.Xf[..., t], 'normal equations')
        w.eq('X is the inverse transform', s.X, p.ifft(s.Xf, p.Nv, p.axisN))
    else:
        G = p.fft(w.arr('G', p.shpD + (p.Ke,)), None, p.axisN)
        blk = SPIED['block'] = dict(G=G, t=None, n=0)
        Xf0, X0 = w.keep(s.Xf), w.keep(s.X)
        iG = p.ifft(G, p.Nv, p.axisN)

        def first(t, A, B):
            return np.where(np.arange(p.Ke) < t, A, B)

        def havoc(t):
            blk['t'], blk['n'] = t, 0
            s.Xf = first(t, G, Xf0)
            if p.Cd > 1:
                s.X = first(t, iG, X0)
            return {}

        def check(t, when):
            if blk['n']:
                equation(blk['t'], G[..., blk['t']], 'normal equations')
            w.eq('solutions of the first blocks', s.Xf, first(t, G, Xf0))
            if p.Cd > 1:
                w.eq('transforms of the first blocks', s.X,
                     first(t, iG, X0))
        w.cut(_CC + 'ConvCnstrMOD_Consensus.xstep', havoc, check)
        s.xstep()
        w.eq('all blocks solved', s.Xf, G)
        w.eq('X is the inverse transform', s.X, iG)
    w.eq('penalty', s.rho, rho)
    for n, a, b in (('Y', s.Y, Y), ('U', s.U, U), ('S', p.S, S),
                    ('Z', p.Z, Z), ('Y1', s.Y1, Y1), ('U1', s.U1, U1)):
        w.unchanged(n, a, b)


@contract('C22', [CC + '_Consensus.ystep', CC + '_Consensus.ustep',
                  CC + '_Consensus.relax_AX', CC + '_Consensus.var_y1'],
          cases=[(l, m, rl) for l in LAYS for m in MSK for rl in (0, 1)],
          fft='opaque', modular=dict(RRS, **dict(SOLVERS, **PCN)))
def ccmodmd_cns_steps(w, case):
    """The data variable is the proximal operator of the masked error, the
    dictionary the projection of the mean of the blocks; relaxation and dual
    updates for both constraints."""
    lay, msk, rl = case
    np = w.np
    p = problem(w, lay)
    r = w.real('rlx', pos=True)
    s = mk(w, p, '_Consensus', {'RelaxParam': r if rl else 1.0}, msk)
    cstate(w, p, s)
    X, Y, U, Y1, U1 = (w.keep(x) for x in (s.X, s.Y, s.U, s.Y1, s.U1))
    s.relax_AX()
    Xs = np.swapaxes(X, p.axisK, -1)[..., 0]
    ZX = p.ifft(np.sum(p.fft(p.Zi, None, p.axisN) *
                       p.fft(Xs, None, p.axisN), axis=p.axisM,
                       keepdims=True), p.Nv, p.axisN)
    a = r if rl else 1.0
    w.eq('relaxed blocks', s.AX, a * X + (1 - a) * Y[..., np.newaxis])
    w.eq('relaxed data variable', s.AX1, a * ZX + (1 - a) * (Y1 + p.Si))
    s.AX = w.arr('AXa', p.shpD + (p.Ke,))
    s.AX1 = w.arr('AXb', p.Nv + (p.Cd, p.Ke, 1))
    s.ystep()
    w.eq('Y', s.Y, projection(w, p, False,
                              np.sum(s.AX + U, axis=-1) / p.Ke))
    w.eq('data variable', (p.Wi ** 2 + s.rho) * s.Y1,
         s.rho * (s.AX1 + U1 - p.Si))
    w.unchanged('U', s.U, U)
    w.unchanged('U1', s.U1, U1)
    Ya, Yb = w.keep(s.Y), w.keep(s.Y1)
    s.ustep()
    w.eq('dual update', s.U, U + s.AX - Ya[..., np.newaxis])
    w.eq('dual update of the data constraint', s.U1,
         U1 + s.AX1 - Yb - p.Si)
    w.unchanged('Y', s.Y, Ya)
    w.unchanged('Y1', s.Y1, Yb)


@contract('C17', [CC + '_Consensus.obfn_dfd'],
          cases=[(l, m, f, g) for l in LAYS for m in MSK
                 for f in (False, True) for g in (False, True) if f != g],
          fft='opaque', modular=dict(RRS, **dict(
              SOLVERS, **dict(PCN, **NORM2))))
def ccmodmd_cns_objective(w, case):
    """Half the squared masked error, and the distance from the constraint
    set, at X or Y as the options request."""
    lay, msk, f, g = case
    np = w.np
    p = problem(w, lay)
    s = mk(w, p, '_Consensus', {'fEvalX': f, 'gEvalY': g}, msk)
    cstate(w, p, s)
    X, Y = w.keep(s.X), w.keep(s.Y)
    r = s.eval_objfn()
    fv = np.swapaxes(X, p.axisK, -1)[..., 0] if f else Y
    gv = Y if g else np.sum(X, axis=-1) / p.Ke
    E = p.ifft(np.sum(p.fft(p.Zi, None, p.axisN) * p.fft(fv, None, p.axisN),
                      axis=p.axisM, keepdims=True), p.Nv, p.axisN) - p.Si
    d = projection(w, p, False, gv) - gv
    w.true('number of terms', len(r) == 2)
    w.eq('data fidelity', r[0], 0.5 * np.sum((p.Wi * E) ** 2))
    w.eq('constraint', r[1], np.sqrt(np.sum(d ** 2)))
    w.unchanged('X', s.X, X)
    w.unchanged('Y', s.Y, Y)
