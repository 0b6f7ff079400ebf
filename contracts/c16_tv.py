"""C11, C16, C17: total variation denoising and deconvolution."""
from pyvc.framework import contract
from contracts.callee import RRS

T1 = 'sporco.admm.tvl1.'
T2 = 'sporco.admm.tvl2.'
S = 'sporco.signal.'
DT = {'f': 'float64', 'c': 'complex128'}


def G(w, x, ax):
    return w.fn(S + 'grad')(x, ax)


def GT(w, x, ax):
    return w.fn(S + 'gradT')(x, ax)


_AX = [(1, (0,), None), (2, (0, 1), None), (2, (1,), None),
       (3, (0, 1), 2), (3, (1, 2), None), (3, (2, 0), None)]
_SUBS = dict(timeout=60)


def mk(w, cls, axes, caxis, nd, opt=None, kd='f', A=None):
    np = w.np
    sh = tuple(w.dim('n%d' % i, lo=2) for i in range(nd))
    s = w.arr('S', sh, kd)
    lm = w.real('lmbda', pos=True)
    B = w.fn(cls)
    o = B.Options(dict({'Verbose': False}, **(opt or {})))
    if A is None:
        o = B(s, lm, o, axes, caxis)
    else:
        o = B(A, s, lm, o, axes, caxis)
    return o, sh, s, lm


_DEN = [(k, ax) for k in ('1', '2') for ax in _AX]


@contract('C11', [T1 + 'TVL1Denoise.cnst_A', T1 + 'TVL1Denoise.cnst_AT',
                  T2 + 'TVL2Denoise.cnst_A', T2 + 'TVL2Denoise.cnst_AT'],
          cases=_DEN)
def tv_adjoint(w, case):
    """A x = (G_1 x, ..., G_n x[, x]) and A^T is its transpose, for any
    choice of axes."""
    k, (nd, axes, ca) = case
    np = w.np
    cls = T1 + 'TVL1Denoise' if k == '1' else T2 + 'TVL2Denoise'
    s, sh, sig, lm = mk(w, cls, axes, ca, nd)
    x = w.arr('x', sh)
    nb = len(axes) + (1 if k == '1' else 0)
    y = w.arr('y', sh + (nb,))
    a = s.cnst_A(x)
    w.eq('number of blocks', a.shape[-1], nb)
    for i, ax in enumerate(axes):
        w.eq('gradient block', a[..., i], G(w, x, ax))
    b = s.cnst_AT(y)
    e = sum(GT(w, y[..., i], ax) for i, ax in enumerate(axes))
    if k == '1':
        w.eq('identity block', a[..., -1], x)
        e = e + y[..., -1]
    w.eq('transpose', b, e)
    if not w.sym:
        w.eq('<A x, y> = <x, A^T y>', np.sum(a * y), np.sum(x * b), tol=1e-8)


@contract('C16', [T1 + 'TVL1Denoise.GaussSeidelStep',
                  T1 + 'TVL1Denoise.LaplaceCentreWeight',
                  T2 + 'TVL2Denoise.GaussSeidelStep',
                  T2 + 'TVL2Denoise.LaplaceCentreWeight'],
          cases=_DEN)
def tv_sweep(w, case):
    """One sweep changes x by the residual of the normal equations
    (W2 + rho A^T A) x = W2 s + rho A^T v divided by the diagonal, so that
    its fixed points are the solutions."""
    k, (nd, axes, ca) = case
    np = w.np
    cls = T1 + 'TVL1Denoise' if k == '1' else T2 + 'TVL2Denoise'
    s, sh, sig, lm = mk(w, cls, axes, ca, nd)
    x, v, sg = w.arr('x', sh), w.arr('v', sh), w.arr('sg', sh)
    rho = w.real('rho', pos=True)
    w2 = w.arr('w2', sh, pos=True)
    x0 = w.keep(x)
    z = s.GaussSeidelStep(sg, x, v, rho, s.LaplaceCentreWeight(), w2)
    w.unchanged('x not modified', x, x0)
    H = w2 * x + rho * sum(GT(w, G(w, x, ax), ax) for ax in axes)
    d = np.zeros(sh)
    for ax in axes:
        i = np.arange(sh[ax]).reshape((1,) * (ax) + (-1,) +
                                      (1,) * (nd - ax - 1))
        d = d + 2.0 - np.where(i == 0, 1.0, 0.0) - np.where(
            i == sh[ax] - 1, 1.0, 0.0)
    w.eq('Jacobi step', (w2 + rho * d) * (z - x), w2 * sg + rho * v - H)


def ostate(w, s, sh, kd, den=True):
    """Arbitrary iterate."""
    np = w.np
    s.X = w.arr('X', sh, kd)
    s.Y = w.arr('Y', s.Y.shape, kd)
    s.U = w.arr('U', s.U.shape, kd)
    s.AX = w.arr('AX', s.Y.shape, kd)
    s.rho = w.real('rho', pos=True)


def invertible(w, den):
    """Precondition: the normal equations have a unique solution."""
    if w.sym:
        w.pivots_nonzero('the linear system of the subproblem is regular '
                         '(precondition)')
    else:
        w.assume(w.np.abs(den).min() > 1e-3)


def wts(w, sh, wt):
    """Weight options."""
    o = {}
    if wt:
        o['TVWeight'] = w.arr('Wtv', sh, pos=True)
    return o


def mkA(w, nd, axes, kd):
    """A filter no larger than the signal, of the same number of axes."""
    sh = tuple(w.dim('n%d' % i, lo=2) for i in range(nd))
    fs = []
    for i in range(nd):
        if i in axes:
            m = w.dim('m%d' % i)
            w.assume(m <= sh[i])
            fs.append(m)
        else:
            fs.append(1)
    return w.arr('A', tuple(fs), kd)


_XD = [(k, ax, kd) for k in ('1', '2')
       for ax in [(1, (0,), None), (2, (0, 1), None), (3, (0, 1), 2),
                  (3, (1, 2), None)] for kd in 'fc']


@contract('C16', [T1 + 'TVL1Deconv.xstep', T2 + 'TVL2Deconv.xstep'],
          cases=_XD, fft='opaque')
def tv_deconv_xstep(w, case):
    """X solves the normal equations of its subproblem for the current Y,
    U and penalty, diagonalised by the DFT."""
    k, (nd, axes, ca), kd = case
    np = w.np
    cls = T1 + 'TVL1Deconv' if k == '1' else T2 + 'TVL2Deconv'
    A = mkA(w, nd, axes, kd)
    s, sh, sig, lm = mk(w, cls, axes, ca, nd, kd=kd, A=A)
    ostate(w, s, sh, kd)
    Y0, U0, S0 = w.keep(s.Y), w.keep(s.U), w.keep(sig)
    F = w.mod('sporco.fft')
    r = kd == 'f'
    axs = tuple(sh[i] for i in axes)
    fft = F.rfftn if r else F.fftn
    Af = fft(A, axs, axes)
    Gf, GHGf = w.fn(S + 'gradient_filters')(
        nd, axes, axs, dtype=np.dtype(DT[kd]))
    Sf = fft(sig, None, axes)
    V = fft(s.Y - s.U, None, axes)
    rho = s.rho
    b = np.conj(Af) * Sf
    g = sum(np.conj(Gf[..., i]) * V[..., i] for i in range(len(axes)))
    if k == '1':
        den = np.conj(Af) * Af + GHGf
        b = b + g + np.conj(Af) * V[..., -1]
    else:
        den = np.conj(Af) * Af + rho * GHGf
        b = b + rho * g
    invertible(w, den)
    s.xstep()
    ifft = F.irfftn if r else F.ifftn
    w.eq('normal equations', s.X, ifft(b / den, axs, axes))
    w.same_shape('shape', s.X, sig)
    w.unchanged('Y', s.Y, Y0)
    w.unchanged('U', s.U, U0)
    w.unchanged('S', sig, S0)


_GS = [(k, ax) for k in ('1', '2')
       for ax in [(1, (0,), None), (2, (0, 1), None), (3, (1, 2), None)]]


@contract('C16', [T1 + 'TVL1Denoise.xstep', T2 + 'TVL2Denoise.xstep'],
          cases=[c + (m,) for c in _GS for m in (1, 2)], modular=RRS)
def tv_denoise_xstep(w, case):
    """X is the result of the permitted number of sweeps (when the tolerance
    is not met before) for the current subproblem, started at X."""
    k, (nd, axes, ca), mx = case
    np = w.np
    cls = T1 + 'TVL1Denoise' if k == '1' else T2 + 'TVL2Denoise'
    opt = {'MaxGSIter': mx, 'GSTol': -1.0}
    if k == '2':
        sh_ = tuple(w.dim('n%d' % i, lo=2) for i in range(nd))
        opt['DFidWeight'] = w.arr('Wdf', sh_, pos=True)
    s, sh, sig, lm = mk(w, cls, axes, ca, nd, opt)
    ostate(w, s, sh, 'f')
    X, Y, U = w.keep(s.X), w.keep(s.Y), w.keep(s.U)
    S0, rho = w.keep(sig), s.rho
    s.xstep()
    AV = sum(GT(w, (Y - U)[..., i], ax) for i, ax in enumerate(axes))
    e = X
    for _ in range(mx):
        if k == '1':
            e = s.GaussSeidelStep(sig + (Y - U)[..., -1], e, AV, 1.0,
                                  s.LaplaceCentreWeight(), 1.0)
        else:
            e = s.GaussSeidelStep(sig, e, AV, rho, s.LaplaceCentreWeight(),
                                  opt['DFidWeight'] ** 2)
    w.eq('sweep (contract tv_sweep) of the current subproblem', s.X, e)
    w.same_shape('shape', s.X, sig)
    w.unchanged('Y', s.Y, Y)
    w.unchanged('U', s.U, U)
    w.unchanged('S', sig, S0)


_OB = [(k, p, ax, wt) for k in ('1', '2') for p in ('Denoise', 'Deconv')
       for ax in [(2, (0, 1), None), (3, (0, 1), 2), (3, (1, 2), None)]
       for wt in (False, True)]


def setup(w, case, kd='f', opt=None):
    k, p, (nd, axes, ca), wt = case
    cls = (T1 if k == '1' else T2) + 'TVL%s%s' % (k, p)
    sh = tuple(w.dim('n%d' % i, lo=2) for i in range(nd))
    o = dict(opt or {})
    if wt:
        o['TVWeight'] = w.arr('Wtv', sh if ca is None else
                              sh[:ca] + (1,) + sh[ca + 1:], pos=True)
        if not (k == '2' and p == 'Deconv'):
            o['DFidWeight'] = w.arr('Wdf', sh, pos=True)
    A = mkA(w, nd, axes, kd) if p == 'Deconv' else None
    s, sh, sig, lm = mk(w, cls, axes, ca, nd, o, kd=kd, A=A)
    return s, sh, sig, lm, o, A


@contract('C16', [T1 + 'TVL1Denoise.ystep', T2 + 'TVL2Denoise.ystep',
                  T1 + 'TVL1Deconv.ystep', T2 + 'TVL2Deconv.ystep'],
          cases=_OB, fft='opaque')
def tv_ystep(w, case):
    """Y is the (group) shrinkage of A X + U by lmbda w / rho, and, for an
    l1 data term, the shrinkage of X + U - S by the data weight / rho."""
    k, p, (nd, axes, ca), wt = case
    np = w.np
    s, sh, sig, lm, o, A = setup(w, case)
    ostate(w, s, sh, 'f')
    AX, U, S0 = w.keep(s.AX), w.keep(s.U), w.keep(sig)
    s.ystep()
    na = len(axes)
    Wt = o.get('TVWeight', 1.0)
    if wt:
        Wt = Wt[..., np.newaxis]
    P = w.fn('sporco.prox.prox_l2')
    ax = (-1,) if ca is None else (ca, -1)
    w.eq('gradient blocks', s.Y[..., :na],
         P((AX + U)[..., :na], lm * Wt / s.rho, axis=ax))
    if k == '1':
        w.eq('data block', s.Y[..., na], w.fn('sporco.prox.prox_l1')(
            (AX + U)[..., na] - sig, o.get('DFidWeight', 1.0) / s.rho))
    w.eq('number of blocks', s.Y.shape[-1], na + (k == '1'))
    w.unchanged('AX', s.AX, AX)
    w.unchanged('U', s.U, U)
    w.unchanged('S', sig, S0)


@contract('C17', [T1 + 'TVL1Denoise.eval_objfn', T2 + 'TVL2Denoise.eval_objfn',
                  T1 + 'TVL1Deconv.eval_objfn', T2 + 'TVL2Deconv.eval_objfn'],
          cases=[c + (g,) for c in _OB for g in (True, False)
                 if not (c[3] and c[2][2] is not None)],
          fft='opaque')
def tv_objective(w, case):
    """(total, data fidelity, total variation): the documented functional
    evaluated at the auxiliary variable (gEvalY) or at X."""
    k, p, (nd, axes, ca), wt, gy = case
    np = w.np
    s, sh, sig, lm, o, A = setup(w, case[:4], opt={'gEvalY': gy})
    ostate(w, s, sh, 'f')
    na = len(axes)
    F = w.mod('sporco.fft')
    axs = tuple(sh[i] for i in axes)
    if p == 'Deconv':
        s.Xf = F.rfftn(s.X, None, axes)
        Af = F.rfftn(A, axs, axes)
        AX = F.irfftn(Af * s.Xf, axs, axes)
        Gf, GHGf = w.fn(S + 'gradient_filters')(
            nd, axes, axs, dtype=np.dtype('float64'))
        gx = [F.irfftn(Gf[..., i] * s.Xf, axs, axes) for i in range(na)]
    else:
        AX = s.X
        gx = [G(w, s.X, a) for a in axes]
    X0, Y0 = w.keep(s.X), w.keep(s.Y)
    r = s.eval_objfn()
    Wd, Wt = o.get('DFidWeight', 1.0), o.get('TVWeight', 1.0)
    gr = [s.Y[..., i] for i in range(na)] if gy else gx
    t = sum(np.abs(x) ** 2 for x in gr)
    if ca is not None:
        t = np.sum(t, axis=ca)
    reg = np.sum(Wt * np.sqrt(t))
    if k == '1':
        dr = s.Y[..., -1] if gy else AX - sig
        dfd = np.sum(Wd * np.abs(dr))
    elif p == 'Denoise':
        dfd = np.sum((Wd * (s.X - sig)) ** 2) / 2.0
    else:
        Sf = F.rfftn(sig, None, axes)
        dfd = w.fn('sporco.fft.rfl2norm2')(Af * s.Xf - Sf, sh,
                                           axis=axes) / 2.0
        if not w.sym:
            w.eq('data term in the signal domain', dfd,
                 np.sum((AX - sig) ** 2) / 2.0, tol=1e-7)
    w.eq('data fidelity', r[1], dfd)
    w.eq('regularisation', r[2], reg)
    w.eq('total', r[0], dfd + lm * reg)
    w.unchanged('X', s.X, X0)
    w.unchanged('Y', s.Y, Y0)
