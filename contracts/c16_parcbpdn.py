"""C16, C17: convolutional sparse coding with the consensus over groups of
filters (ParConvBPDN); the steps are functions of module variables."""
from pyvc.framework import contract
from contracts import callee
from contracts.callee import SOLVERS, same_shape_fn, SPIED
from contracts.conv import problem

PM = 'sporco.admm.parcbpdn.'
LAYS = ('g', 'CK', 'WK')


class Mod(object):
    """The variables of the module, with the filters split into two
    groups."""

    def __init__(self, w, p, hm=False, wl=False, nn=False, nb=False):
        m = self.m = w.mod('sporco.admm.parcbpdn')
        np = w.np
        self.w, self.p = w, p
        self.G = 2
        if w.sym:
            w.assume(p.M >= 2)
            g = w.dim('g', lo=1)
            w.assume(g + 1 <= p.M)
        else:
            p.M = p.M + 1
            g = 1 + p.M // 3 if p.M > 2 else 1
        self.grp = [0, g, p.M]
        d = dict(mp_grp=self.grp, mp_ngrp=2, mp_Nv=p.Nv,
                 mp_axisN=tuple(i + 1 for i in p.axisN), mp_C=p.C,
                 mp_Cd=p.Cd, mp_axisC=p.axisC + 1, mp_axisM=0,
                 mp_Dshp=p.h + (p.Cd, 1, p.M), mp_NonNegCoef=nn,
                 mp_NoBndryCross=nb)
        for n in ('lmbda', 'rho', 'alpha'):
            d['mp_' + n] = w.real(n, pos=True)
        d['mp_rlx'] = w.real('rlx', lo=0.1, hi=1.9)
        sx = (p.M,) + p.Nv + (p.Cx, p.K)
        sd = (2,) + p.Nv + (p.C, p.K)
        d['mp_wl1'] = w.arr('wl1', sx if wl else (1,) * 5, nonneg=True)
        d['mp_S'] = w.arr('Sw', (1,) + p.Nv + (p.C, p.K))
        self.D = w.arr('D', (p.M,) + p.h + (p.Cd, 1))
        d['mp_Df'] = p.fft(self.D, p.Nv, d['mp_axisN'])
        for n in ('X', 'Xnr', 'Y1', 'U1', 'Y1old'):
            d['mp_' + n] = w.arr(n, sx)
        for n in ('DX', 'DXnr', 'Y0', 'U0', 'Y0old'):
            d['mp_' + n] = w.arr(n, sd)
        d['mp_b'] = w.arr('b', (1,) + sd[1:])
        d['mp_inv_off_diag'] = w.arr('iod', (1,) + p.Nv + (1, 1))
        d['mp_cache'] = [None, None]
        for n in ('ry0', 'ry1', 'sy0', 'sy1', 'nrmAx', 'nrmBy', 'nrmu'):
            d['mp_' + n] = w.arr(n, (2,))
        self.old = {}
        for k, v in d.items():
            self.old[k] = getattr(m, k, None)
            setattr(m, k, v)
        if hm:
            sl = w.mod('sporco.linalg')
            m.mp_cache = [sl.solvedbi_sm_c(
                m.mp_Df[self.sl(i)], np.conj(m.mp_Df[self.sl(i)]),
                m.mp_alpha ** 2, 0) for i in range(2)]
        self.names = [k for k in d if hasattr(d[k], 'shape')]

    def sl(self, i):
        return slice(self.grp[i], self.grp[i + 1])

    def __enter__(self):
        self.kept = {k: self.w.keep(getattr(self.m, k)) for k in self.names}
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.m, k, v)

    def frame(self, *written):
        for k in self.names:
            if k not in written:
                self.w.unchanged(k, getattr(self.m, k), self.kept[k])

    def group(self, name, var, i, val):
        """Block i of the variable is val and the other is unchanged."""
        v, v0 = getattr(self.m, var), self.kept[var]
        big = self.p.M is not None and var in (
            'mp_X', 'mp_Xnr', 'mp_Y1', 'mp_U1')
        s, o = (self.sl(i), self.sl(1 - i)) if big else (
            slice(i, i + 1), slice(1 - i, 2 - i))
        self.w.eq(name, v[s], val)
        self.w.eq(name + ': other group', v[o], v0[o])


@contract('C22', [PM + 'par_xstep'],
          cases=[(l, i, hm) for l in LAYS for i in (0, 1)
                 for hm in (False, True) if not (hm and l == 'WK')],
          fft='opaque', modular=SOLVERS)
def par_xstep(w, case):
    """The X of each group solves (D_i^H D_i + alpha^2 I) x = D_i^H (y0_i -
    u0_i) + alpha^2 (y1 - u1 / alpha); DX is its reconstruction."""
    lay, i, hm = case
    np = w.np
    p = problem(w, lay)
    with Mod(w, p, hm) as g:
        m, k = g.m, g.kept
        s = g.sl(i)
        w.fn(PM + 'par_xstep')(i)
        axN = m.mp_axisN
        Df = k['mp_Df'][s]
        V0 = p.fft(k['mp_Y0'][i:i + 1] - k['mp_U0'][i:i + 1], None, axN)
        V1 = p.fft(k['mp_Y1'][s] - k['mp_U1'][s] / m.mp_alpha, None, axN)
        b = np.conj(Df) * V0
        if p.Cd > 1:
            b = np.sum(b, axis=3, keepdims=True)
        a2 = m.mp_alpha ** 2
        b = b + a2 * V1
        if w.sym:
            Xf = SPIED['solve'][-1]['r']
            callee.solution(w, 'normal equations', (0, 3), Df, a2, b, Xf)
            w.eq('X', m.mp_X[s], p.ifft(Xf, p.Nv, axN))
        else:
            Xf = p.fft(m.mp_X[s], None, axN)
            r = np.conj(Df) * np.sum(Df * Xf, axis=0, keepdims=True)
            if p.Cd > 1:
                r = np.sum(r, axis=3, keepdims=True)
            # in the range of the real transform
            w.eq('normal equations', p.ifft(r + a2 * Xf, p.Nv, axN),
                 p.ifft(b, p.Nv, axN))
        w.eq('other group', m.mp_X[g.sl(1 - i)], k['mp_X'][g.sl(1 - i)])
        g.group('DX', 'mp_DX', i, p.ifft(
            np.sum(Df * Xf, axis=0, keepdims=True), p.Nv, axN))
        g.frame('mp_X', 'mp_DX')


@contract('C22', [PM + 'par_relax_AX', PM + 'par_u0step', PM + 'par_u1step',
                  PM + 'y0astep', PM + 'par_y0bstep'],
          cases=[(l, i) for l in LAYS for i in (0, 1)], fft='opaque',
          modular=SOLVERS)
def par_updates(w, case):
    """Relaxation, dual variables and data block of each group: with W^2 s in
    S and -W^2 / (rho (rho + 2 W^2)) in the off-diagonal factor, Y0 solves
    W^2 sum_j y0_j + rho y0_i = W^2 s + rho (D x_i + u0_i)."""
    lay, i = case
    np = w.np
    p = problem(w, lay)
    one = slice(i, i + 1)
    with Mod(w, p) as g:
        m, k = g.m, g.kept
        w.fn(PM + 'par_relax_AX')(i)
        a, s = m.mp_rlx, g.sl(i)
        g.group('X not relaxed', 'mp_Xnr', i, k['mp_X'][s])
        g.group('DX not relaxed', 'mp_DXnr', i, k['mp_DX'][one])
        g.group('X relaxed', 'mp_X', i,
                a * k['mp_X'][s] + (1 - a) * k['mp_Y1'][s])
        g.group('DX relaxed', 'mp_DX', i,
                a * k['mp_DX'][one] + (1 - a) * k['mp_Y0'][one])
        g.frame('mp_X', 'mp_Xnr', 'mp_DX', 'mp_DXnr')
    with Mod(w, p) as g:
        m, k = g.m, g.kept
        w.fn(PM + 'par_u0step')(i)
        g.group('U0', 'mp_U0', i,
                k['mp_U0'][one] + k['mp_DX'][one] - k['mp_Y0'][one])
        g.frame('mp_U0')
        w.fn(PM + 'par_u1step')(i)
        s = g.sl(i)
        g.group('U1', 'mp_U1', i, k['mp_U1'][s] + m.mp_alpha * (
            k['mp_X'][s] - k['mp_Y1'][s]))
        g.frame('mp_U0', 'mp_U1')
    with Mod(w, p) as g:
        m, k = g.m, g.kept
        W2 = w.arr('W2', (1,) + p.Nv + (1, 1), nonneg=True)
        rho = m.mp_rho
        m.mp_inv_off_diag = -W2 / (rho * (rho + W2 * 2))
        w.fn(PM + 'y0astep')()
        w.fn(PM + 'par_y0bstep')(0)
        w.fn(PM + 'par_y0bstep')(1)
        Y0 = m.mp_Y0
        w.eq('data block', W2 * np.sum(Y0, axis=0, keepdims=True) +
             rho * Y0, k['mp_S'] + rho * (k['mp_DX'] + k['mp_U0']))
        g.frame('mp_Y0', 'mp_b', 'mp_inv_off_diag')


@contract('C22', [PM + 'par_y1step'],
          cases=[(l, i, wl, nn, nb) for l in LAYS for i in (0, 1)
                 for wl in (False, True) for nn in (False, True)
                 for nb in (False, True)],
          fft='opaque', fork=True, modular=dict(SOLVERS, **{
              'sporco.prox.prox_l1': same_shape_fn('sporco.prox.prox_l1')}))
def par_y1step(w, case):
    """Y1 is the prox of the l1 term at x + u1 / alpha, with the restrictions
    selected."""
    lay, i, wl, nn, nb = case
    np = w.np
    p = problem(w, lay)
    with Mod(w, p, False, wl, nn, nb) as g:
        m, k = g.m, g.kept
        s = g.sl(i)
        w.fn(PM + 'par_y1step')(i)
        wt = k['mp_wl1'][s] if wl else k['mp_wl1']
        R = w.mod('sporco.prox').prox_l1(
            k['mp_X'][s] + k['mp_U1'][s] / m.mp_alpha,
            m.mp_lmbda / (m.mp_alpha ** 2 * m.mp_rho) * wt)
        if nn:
            R = np.where(R < 0, 0.0, R)
        if nb:
            for n in range(p.dimN):
                q = np.arange(p.Nv[n]).reshape(
                    (1,) * (n + 1) + (-1,) + (1,) * (3 - n))
                R = np.where(q <= p.Nv[n] - p.h[n], R, 0.0)
        g.group('Y1', 'mp_Y1', i, R)
        g.frame('mp_Y1')


@contract('C17', [PM + 'ParConvBPDN.obfn_dfd', PM + 'ParConvBPDN.obfn_reg',
                  PM + 'ParConvBPDN.solve', PM + 'ParConvBPDN.__init__',
                  PM + 'ParConvBPDN.distribute'],
          cases=[(a, b, k, wt) for a, b in ((1, 2), (2, 1), (3, 3))
                 for k in (0, 300) for wt in (0, 1)], trials=6,
          bounded_only='shared memory arrays of symbolic size')
def par_solve(w, case):
    """Whole solver, one process: iterations are numbered consecutively, a
    run in two parts is the same as a single run, and the statistics report
    the documented functional at the final variables."""
    a, b, k, wt = case
    np = w.np
    B = w.fn(PM + 'ParConvBPDN')
    r = w.rng
    D = r.randn(3, 2, 3)
    S = r.randn(7, 6)
    W = r.rand(7, 6) if wt else None
    lm = 0.1 + r.rand()
    L1 = r.rand(3).reshape(1, 1, 1, 1, 3) if wt else 1.0
    y1 = r.randn(7, 6, 1, 1, 3)

    def run(parts, fx, gy):
        o = B.Options({'Verbose': False, 'MaxMainIter': parts[0],
                       'fEvalX': fx, 'gEvalY': gy, 'L1Weight': L1,
                       'RelStopTol': 0.0, 'Y1': y1})
        s = B(D, S, lm, W, o, nproc=1, ngrp=2)
        s.k = k
        for n in parts:
            s.opt['MaxMainIter'] = n
            s.solve()
        return s
    s1, s2 = run([a, b], False, True), run([a + b], True, False)
    w.true('iterations', s1.k == k + a + b and [
        t.Iter for t in s1.itstat] == list(range(k, k + a + b)))
    w.eq('coefficients', s1.Y, s2.Y)
    w.eq('primal variable', s1.X, s2.X)

    def terms(f, g):
        F = w.mod('sporco.fft')
        Df = F.rfftn(D.reshape(3, 2, 1, 1, 3), (7, 6), (0, 1))
        E = F.irfftn(np.sum(Df * F.rfftn(f, None, (0, 1)), axis=-1,
                            keepdims=True), (7, 6), (0, 1)) - \
            S.reshape(7, 6, 1, 1, 1)
        if wt:
            E = W.reshape(7, 6, 1, 1, 1) * E
        l1 = np.sum(np.abs(L1 * g))
        d = 0.5 * np.sum(E ** 2)
        return d + lm * l1, d, l1
    for s, f, g in ((s1, s1.Y, s1.Y), (s2, s2.X, s2.X)):
        t = s.itstat[-1]
        for u, v in zip((t.ObjFun, t.DFid, t.RegL1), terms(f, g)):
            w.eq('objective', u, v)
