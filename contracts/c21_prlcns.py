"""C21: the steps of parallel consensus dictionary learning; they are
functions of module variables, with the signals on the leading axis."""
from pyvc.framework import contract
from contracts import callee
from contracts.callee import RRS, SOLVERS, NORM2, SPIED
from contracts.conv import problem, fnorm2

P = 'sporco.dictlrn.prlcnscdl.'
LAYS = ('K', 'W')
OPTS = [(l, wl, cn) for l in LAYS for wl in (0, 1, 2) for cn in (0, 1, 2)]


class Mod(object):
    """The variables of the module for some signals, dictionary and state;
    those of the mask decoupling variant in addition if md."""

    def __init__(self, w, lay, md=0, wk=False, real=True, wl=0, cn=0):
        kd = 'f' if real else 'c'
        p = self.p = problem(w, 'K' if lay == 'K' else 'WK', kd=kd)
        np = w.np
        self.w = w
        m = self.m = w.mod('sporco.dictlrn.prlcnscdl')
        if w.sym:
            self.k = w.int('k', lo=0)
            w.assume(self.k < p.K)
            self.o = w.int('o', lo=0)
            w.assume(self.o < p.K)
        else:
            p.K += 1
            self.k = w.int('k', lo=0, hi=p.K - 1)
            self.o = w.int('o', lo=0, hi=p.K - 1)
        F = w.mod('sporco.fft')
        K, N, C, M = p.K, p.Nv, p.C, p.M
        cri = w.mod('sporco.cnvrep').CDU_ConvRepIndexing(
            p.shpD, w.arr('S_', N + ((C, K) if p.wide else (K,))), 1)
        sX = (K,) + N + (1, 1, M)
        sS = (K,) + N + (C, 1, 1)
        sD = N + (C, 1, M)
        d = dict(mp_cri=cri, real_dtype=real, fftn=F.fftn_func(real),
                 ifftn=F.ifftn_func(real), fl2norm2=F.fl2norm2_func(real))
        for n in ('lmbda', 'xrho', 'drho'):
            d['mp_' + n] = w.real(n, pos=True)
        d['mp_xrlx'] = w.real('xrlx', lo=0.1, hi=1.9)
        d['mp_drlx'] = w.real('drlx', lo=0.1, hi=1.9)
        # weights: none, for each filter, or for each signal and filter
        d['mp_wl1'] = np.ones((1,) * 6) if wl == 0 else w.arr(
            'wl1', ((K if wl == 2 else 1,) + (1,) * 4 + (M,)), nonneg=True)
        d['mp_xnn'] = cn == 1
        d['mp_xbc'] = p.h if cn == 2 else None
        self.wl, self.cn = wl, cn
        self.S = w.arr('S', sS)
        self.D = w.arr('D', sD)
        self.axk = tuple(i + 1 for i in p.axisN)
        d['mp_Df'] = p.fft(self.D, N, p.axisN)
        self.Z0 = w.arr('Z0', sX)
        if md:
            d['mp_S'] = self.S
            d['mp_Zf'] = p.fft(self.Z0, N, self.axk)
            for n in ('Z_X', 'Z_Y1', 'Z_U1'):
                d['mp_' + n] = w.arr(n, sX)
            for n in ('DX', 'Z_Y0', 'Z_U0', 'D_Y1', 'D_U1'):
                d['mp_' + n] = w.arr(n, sS)
            d['mp_D_Y0'] = w.arr('D_Y0', sD)
            for n in ('D_X', 'D_U0'):
                d['mp_' + n] = w.arr(n, (K,) + sD)
            d['mp_W'] = w.arr('W', ((K if wk else 1,) + N + (1,) * 3))
        else:
            d['mp_Sf'] = p.fft(self.S, N, self.axk)
            Zf = p.fft(self.Z0, N, self.axk)
            one = np.ones((1,) * 3 + (C,) + (1, 1))
            d['mp_Zf'] = Zf * one
            d['mp_ZSf'] = np.conj(d['mp_Zf']) * d['mp_Sf']
            d['mp_DSf'] = np.conj(d['mp_Df']) * d['mp_Sf']
            if p.wide:
                d['mp_DSf'] = np.sum(d['mp_DSf'], axis=p.axisC + 1,
                                     keepdims=True)
            for n in ('Z_X', 'Z_Y', 'Z_U'):
                d['mp_' + n] = w.arr(n, sX)
            d['mp_D_Y'] = w.arr('D_Y', sD)
            for n in ('D_X', 'D_U'):
                d['mp_' + n] = w.arr(n, (K,) + sD)
        self.old = {}
        for k, v in d.items():
            self.old[k] = getattr(m, k, None)
            setattr(m, k, v)
        self.names = [k for k in d if hasattr(d[k], 'shape') and
                      d[k].shape != ()]

    def __enter__(self):
        self.kept = {k: self.w.keep(getattr(self.m, k)) for k in self.names}
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.m, k, v)

    def frame(self, *written):
        """Nothing else changes; of the arrays given, only entry k does."""
        for k in self.names:
            v, v0 = getattr(self.m, k), self.kept[k]
            if k not in written:
                self.w.unchanged(k, v, v0)
            elif self.w.sym:
                from pyvc import snp
                d = self.w.np.where(self.k == self.o, v0[self.o], v[self.o])
                self.w.eq(k + ': other signals', d, v0[self.o])
            else:
                for j in range(self.p.K):
                    if j != self.k:
                        self.w.eq(k + ': other signals', v[j], v0[j])


def lin(w, g, name, Df, rho, b, X, axC):
    """X is the inverse transform of the solution x of (Df^H Df + rho I) x =
    b, with Df summed over axis axC, if given, and the filter axis."""
    np, p = w.np, g.p
    if w.sym:
        x = SPIED['solve'][-1]['r']
        w.eq(name + ': inverse transform', X, p.ifft(x, p.Nv, p.axisN))
        w.true(name + ': system', callee.solution(
            w, name, (p.axisM, axC), Df, rho, b, x))
    else:
        x = p.fft(X, None, p.axisN)
        q = np.conj(Df) * np.sum(Df * x, axis=p.axisM, keepdims=True)
        if axC is not None:
            q = np.sum(q, axis=axC, keepdims=True)
        w.eq(name, q + rho * x, b)


def shrink(w, g, name, Y, V):
    """Y is the prox of the weighted l1 norm at V, with the constraints."""
    np, p, m = w.np, g.p, g.m
    W = g.kept['mp_wl1']
    W = W[g.k] if g.wl == 2 else W[0]
    r = w.mod('sporco.prox').prox_l1(V, m.mp_lmbda / m.mp_xrho * W)
    if g.cn == 1:
        r = np.where(r < 0, 0, r)
    if g.cn == 2:
        for n in (0, 1):
            s = [1] * 5
            s[n] = p.Nv[n]
            i = np.arange(p.Nv[n]).reshape(s)
            r = np.where(i < p.Nv[n] - p.h[n] + 1, r, 0)
    w.eq(name, Y, r)


@contract('C21', [P + 'cbpdn_xstep'], cases=LAYS, fft='opaque',
          modular=SOLVERS)
def cns_cbpdn_xstep(w, lay):
    """The coefficients of a signal solve (D^H D + rho I) x = D^H s + rho (y
    - u) for the current dictionary."""
    np = w.np
    with Mod(w, lay) as g:
        m, p, k, o = g.m, g.p, g.k, g.kept
        w.fn(P + 'cbpdn_xstep')(k)
        b = o['mp_DSf'][k] + m.mp_xrho * p.fft(
            o['mp_Z_Y'][k] - o['mp_Z_U'][k], None, p.axisN)
        lin(w, g, 'coefficients', o['mp_Df'], m.mp_xrho, b, m.mp_Z_X[k],
            p.axisC)
        g.frame('mp_Z_X')


@contract('C21', [P + 'cbpdn_setdict'], cases=LAYS, fft='opaque')
def cns_cbpdn_setdict(w, lay):
    """The coding steps use the dictionary just computed."""
    np = w.np
    with Mod(w, lay) as g:
        m, p, o = g.m, g.p, g.kept
        w.fn(P + 'cbpdn_setdict')()
        Df = p.fft(o['mp_D_Y'], p.Nv, p.axisN)
        w.eq('transform of the dictionary', m.mp_Df, Df)
        b = np.conj(Df) * o['mp_Sf']
        if p.wide:
            b = np.sum(b, axis=p.axisC + 1, keepdims=True)
        w.eq('correlation with the signals', m.mp_DSf, b)
        for n in g.names:
            if n not in ('mp_Df', 'mp_DSf'):
                w.unchanged(n, getattr(m, n), o[n])


@contract('C21', [P + 'cbpdn_relax', P + 'cbpdn_ystep', P + 'cbpdn_ustep',
                  P + 'ccmod_relax'], cases=OPTS, fft='opaque')
def cns_small_steps(w, case):
    """Relaxation, shrinkage and dual update of the entry of one signal."""
    lay, wl, cn = case
    np = w.np
    with Mod(w, lay, wl=wl, cn=cn) as g:
        m, p, k, o = g.m, g.p, g.k, g.kept
        w.fn(P + 'cbpdn_relax')(k)
        X = m.mp_xrlx * o['mp_Z_X'][k] + (1 - m.mp_xrlx) * o['mp_Z_Y'][k]
        w.eq('relaxed', m.mp_Z_X[k], X)
        w.fn(P + 'cbpdn_ystep')(k)
        Y = w.keep(m.mp_Z_Y[k])
        shrink(w, g, 'shrinkage', Y, X + o['mp_Z_U'][k])
        w.fn(P + 'cbpdn_ustep')(k)
        w.eq('dual', m.mp_Z_U[k], o['mp_Z_U'][k] + X - Y)
        w.fn(P + 'ccmod_relax')(k)
        w.eq('relaxed dictionary', m.mp_D_X[k], m.mp_drlx * o['mp_D_X'][k] +
             (1 - m.mp_drlx) * o['mp_D_Y'])
        g.frame('mp_Z_X', 'mp_Z_Y', 'mp_Z_U', 'mp_D_X')


@contract('C21', [P + 'ccmod_setcoef', P + 'ccmod_xstep'], cases=LAYS,
          fft='opaque', modular=SOLVERS)
def cns_ccmod_xstep(w, lay):
    """The dictionary of a signal solves (Z_k^H Z_k + rho I) d = Z_k^H s_k +
    rho (y - u_k) for the coefficients just computed."""
    np = w.np
    with Mod(w, lay) as g:
        m, p, k, o = g.m, g.p, g.k, g.kept
        w.fn(P + 'ccmod_setcoef')(k)
        Zf = p.fft(o['mp_Z_Y'][k], p.Nv, p.axisN) * np.ones((1,) * 2 + (
            p.C, 1, 1))
        w.eq('transform of the coefficients', m.mp_Zf[k], Zf)
        w.eq('correlation', m.mp_ZSf[k], np.conj(Zf) * o['mp_Sf'][k])
        w.fn(P + 'ccmod_xstep')(k)
        b = np.conj(Zf) * o['mp_Sf'][k] + m.mp_drho * p.fft(
            o['mp_D_Y'] - o['mp_D_U'][k], None, p.axisN)
        lin(w, g, 'dictionary', Zf, m.mp_drho, b, m.mp_D_X[k], None)
        g.frame('mp_Zf', 'mp_ZSf', 'mp_D_X')


@contract('C21', [P + 'ccmod_ystep', P + 'ccmod_ustep'], cases=LAYS,
          fft='opaque')
def cns_ccmod_ystep(w, lay):
    """The consensus dictionary is the projection of the mean of X_k + U_k
    and the dual variables accumulate the differences from it."""
    np = w.np
    with Mod(w, lay) as g:
        m, p, o = g.m, g.p, g.kept
        r = w.arr('proj', o['mp_D_Y'].shape)
        arg = []

        def prox(v):
            arg.append(w.keep(v))
            return r
        m.mp_dprox = prox
        w.fn(P + 'ccmod_ystep')()
        w.eq('projected array', arg[-1],
             np.sum(o['mp_D_X'] + o['mp_D_U'], axis=0) / p.K)
        w.eq('consensus dictionary', m.mp_D_Y, r)
        w.fn(P + 'ccmod_ustep')()
        w.eq('dual', m.mp_D_U, o['mp_D_U'] + o['mp_D_X'] - r)
        for n in g.names:
            if n not in ('mp_D_Y', 'mp_D_U'):
                w.unchanged(n, getattr(m, n), o[n])


@contract('C21', [P + 'cbpdnmd_setdict', P + 'cbpdnmd_xstep'], cases=LAYS,
          fft='opaque', modular=SOLVERS)
def md_cbpdn_xstep(w, lay):
    """The coefficients of a signal solve (D^H D + I) x = D^H (y0 + s - u0)
    + y1 - u1 for the dictionary just computed; DX is its reconstruction."""
    np = w.np
    with Mod(w, lay, 1) as g:
        m, p, k, o = g.m, g.p, g.k, g.kept
        w.fn(P + 'cbpdnmd_setdict')()
        Df = p.fft(o['mp_D_Y0'], p.Nv, p.axisN)
        w.eq('transform of the dictionary', m.mp_Df, Df)
        w.fn(P + 'cbpdnmd_xstep')(k)
        b = np.conj(Df) * p.fft(o['mp_Z_Y0'][k] + o['mp_S'][k] -
                                o['mp_Z_U0'][k], None, p.axisN)
        if p.wide:
            b = np.sum(b, axis=p.axisC, keepdims=True)
        b = b + p.fft(o['mp_Z_Y1'][k] - o['mp_Z_U1'][k], None, p.axisN)
        lin(w, g, 'coefficients', Df, 1.0, b, m.mp_Z_X[k], p.axisC)
        Xf = SPIED['solve'][-1]['r'] if w.sym else p.fft(m.mp_Z_X[k], None,
                                                         p.axisN)
        w.eq('reconstruction', m.mp_DX[k], p.ifft(np.sum(
            Df * Xf, axis=p.axisM, keepdims=True), p.Nv, p.axisN))
        m.mp_Df[:] = o['mp_Df']
        g.frame('mp_Z_X', 'mp_DX')


@contract('C21', [P + 'cbpdnmd_relax', P + 'cbpdnmd_ystep',
                  P + 'cbpdnmd_ustep', P + 'ccmodmd_relax'],
          cases=[x + (wk,) for x in OPTS for wk in (False, True)],
          fft='opaque')
def md_small_steps(w, case):
    """Relaxation, the solution of the weighted data term, shrinkage and dual
    updates of the entry of one signal, with its own mask."""
    lay, wl, cn, wk = case
    np = w.np
    with Mod(w, lay, 1, wk, wl=wl, cn=cn) as g:
        m, p, k, o = g.m, g.p, g.k, g.kept
        S = o['mp_S'][k]
        w.fn(P + 'cbpdnmd_relax')(k)
        rl = m.mp_xrlx
        X = rl * o['mp_Z_X'][k] + (1 - rl) * o['mp_Z_Y1'][k]
        DX = rl * o['mp_DX'][k] + (1 - rl) * (o['mp_Z_Y0'][k] + S)
        w.eq('relaxed', m.mp_Z_X[k], X)
        w.eq('relaxed reconstruction', m.mp_DX[k], DX)
        w.fn(P + 'cbpdnmd_ystep')(k)
        W = o['mp_W'][k] if wk else o['mp_W'][0]
        Y0, Y1 = w.keep(m.mp_Z_Y0[k]), w.keep(m.mp_Z_Y1[k])
        w.eq('data term', (W ** 2 + m.mp_xrho) * Y0,
             m.mp_xrho * (DX - S + o['mp_Z_U0'][k]))
        shrink(w, g, 'shrinkage', Y1, X + o['mp_Z_U1'][k])
        w.fn(P + 'cbpdnmd_ustep')(k)
        w.eq('dual 0', m.mp_Z_U0[k], o['mp_Z_U0'][k] + DX - S - Y0)
        w.eq('dual 1', m.mp_Z_U1[k], o['mp_Z_U1'][k] + X - Y1)
        DX = w.keep(m.mp_DX[k])
        w.fn(P + 'ccmodmd_relax')(k)
        rl = m.mp_drlx
        w.eq('relaxed dictionary', m.mp_D_X[k], rl * o['mp_D_X'][k] +
             (1 - rl) * o['mp_D_Y0'])
        w.eq('relaxed reconstruction', m.mp_DX[k], rl * DX + (1 - rl) * (
            o['mp_D_Y1'][k] + S))
        g.frame('mp_Z_X', 'mp_DX', 'mp_Z_Y0', 'mp_Z_Y1', 'mp_Z_U0',
                'mp_Z_U1', 'mp_D_X')


@contract('C21', [P + 'ccmodmd_setcoef', P + 'ccmodmd_xstep'], cases=LAYS,
          fft='opaque', modular=SOLVERS)
def md_ccmod_xstep(w, lay):
    """The dictionary of a signal solves (Z_k^H Z_k + I) d = y0 - u0_k +
    Z_k^H (y1_k + s_k - u1_k) for the coefficients just computed."""
    np = w.np
    with Mod(w, lay, 1) as g:
        m, p, k, o = g.m, g.p, g.k, g.kept
        w.fn(P + 'ccmodmd_setcoef')(k)
        Zf = p.fft(o['mp_Z_Y1'][k], p.Nv, p.axisN)
        w.eq('transform of the coefficients', m.mp_Zf[k], Zf)
        w.fn(P + 'ccmodmd_xstep')(k)
        b = p.fft(o['mp_D_Y0'] - o['mp_D_U0'][k], None, p.axisN) + \
            np.conj(Zf) * p.fft(o['mp_D_Y1'][k] + o['mp_S'][k] -
                                o['mp_D_U1'][k], None, p.axisN)
        lin(w, g, 'dictionary', Zf, 1.0, b, m.mp_D_X[k], None)
        Xf = SPIED['solve'][-1]['r'] if w.sym else p.fft(m.mp_D_X[k], None,
                                                         p.axisN)
        w.eq('reconstruction', m.mp_DX[k], p.ifft(np.sum(
            Zf * Xf, axis=p.axisM, keepdims=True), p.Nv, p.axisN))
        g.frame('mp_Zf', 'mp_D_X', 'mp_DX')


@contract('C21', [P + 'ccmodmd_ystep', P + 'ccmodmd_ustep'],
          cases=[(l, wk) for l in LAYS for wk in (False, True)],
          fft='opaque')
def md_ccmod_ystep(w, case):
    """The consensus dictionary is the projection of the mean of X_k + U_k,
    the data term is solved with the mask of each signal and the dual
    variables accumulate the differences."""
    lay, wk = case
    np = w.np
    with Mod(w, lay, 1, wk) as g:
        m, p, o = g.m, g.p, g.kept
        r = w.arr('proj', o['mp_D_Y0'].shape)
        arg = []

        def prox(v):
            arg.append(w.keep(v))
            return r
        m.mp_dprox = prox
        w.fn(P + 'ccmodmd_ystep')()
        w.eq('projected array', arg[-1],
             np.sum(o['mp_D_X'] + o['mp_D_U0'], axis=0) / p.K)
        w.eq('consensus dictionary', m.mp_D_Y0, r)
        Y1 = w.keep(m.mp_D_Y1)
        w.eq('data term', (o['mp_W'] ** 2 + m.mp_drho) * Y1, m.mp_drho * (
            o['mp_DX'] - o['mp_S'] + o['mp_D_U1']))
        w.fn(P + 'ccmodmd_ustep')()
        w.eq('dual 0', m.mp_D_U0, o['mp_D_U0'] + o['mp_D_X'] - r)
        w.eq('dual 1', m.mp_D_U1, o['mp_D_U1'] + o['mp_DX'] - o['mp_S'] - Y1)
        for n in g.names:
            if n not in ('mp_D_Y0', 'mp_D_Y1', 'mp_D_U0', 'mp_D_U1'):
                w.unchanged(n, getattr(m, n), o[n])


class Obj(object):
    pass


CC = P + 'ConvBPDNDictLearn_Consensus.'
MC = P + 'ConvBPDNMaskDcplDictLearn_Consensus.'


@contract('C21', [CC + 'step', MC + 'step'], cuts=[CC + 'step', MC + 'step'],
          cases=[(c, par) for c in (0, 1) for par in (False, True)])
def cns_step(w, case):
    """Every signal is processed exactly once with the consensus variables
    of the previous iteration; then the consensus dictionary, the dual
    variables and the dictionary of the coding steps are updated."""
    md, par = case
    m = w.mod('sporco.dictlrn.prlcnscdl')
    s = Obj()
    s.xstep, s.xstep.cri = Obj(), Obj()
    K = s.xstep.cri.K = w.int('K', lo=1, hi=None if w.sym else 6)
    s.nproc = w.int('nproc', lo=1, hi=None if w.sym else 4) if par else 0
    names = ('md_step_group', 'ccmodmd_ystep', 'ccmodmd_ustep',
             'cbpdnmd_setdict') if md else (
                 'step_group', 'ccmod_ystep', 'ccmod_ustep', 'cbpdn_setdict')
    st = Obj()
    st.n = 0
    log = []

    def group(k):
        w.eq('signals in order', k, st.n)
        w.true('before the dictionary', not log)
        st.n = st.n + 1

    def rec(name):
        def f():
            w.eq('all signals done before ' + name, st.n, K)
            log.append(name)
        return f

    class Pool(object):
        def map(self, f, ks):
            w.true('function of the groups', f is group)
            if w.sym:
                from pyvc.sval import SV
                w.eq('first signal', SV('i', ks.lo), 0)
                w.eq('all signals', SV('i', ks.hi), K)
            else:
                w.true('all signals', list(ks) == list(range(K)))
            st.n = K
    s.pool = Pool()
    old = [(n, getattr(m, n)) for n in names]

    def havoc(t):
        st.n = t

    def check(t, when):
        w.eq(when + ': one call for each signal', st.n, t)
    if w.sym and not par:
        w.cut((MC if md else CC) + 'step', havoc, check)
    try:
        for n in names:
            setattr(m, n, group if n.endswith('group') else rec(n))
        w.fn((MC if md else CC) + 'step')(s)
    finally:
        for n, f in old:
            setattr(m, n, f)
    w.true('order', log == list(names[1:]))


def shared(world, orig):
    """A shared memory array is an array with arbitrary contents."""
    def f(shape, dtype):
        from pyvc import snp, terms as T
        from pyvc.sarr import SArr
        from pyvc import snp
        return snp._empty(tuple(shape), dtype)
    return f


@contract('C21', [CC + '__init__', CC + 'getdict', CC + 'getcoef',
                  CC + 'evaluate', MC + '__init__', MC + 'getdict',
                  MC + 'getcoef', MC + 'evaluate', P + 'init_mpraw',
                  P + 'swap_axis_to_0'],
          cases=[(l, md, wl, acc) for l in ('K', 'WK') for md in (0, 1)
                 for wl in (False, True) for acc in (False, True)],
          fft='opaque', modular=dict(RRS, **dict(SOLVERS, **dict(
              NORM2, **{P + 'mpraw_as_np': shared}))))
def cns_init(w, case):
    """The module variables are the state of the solvers constructed, with
    the signals on the leading axis; the dictionary and coefficients returned
    and the objective reported are those of the current variables."""
    lay, md, wl, acc = case
    np = w.np
    p = problem(w, lay)
    m = w.mod('sporco.dictlrn.prlcnscdl')
    B = w.fn((MC if md else CC)[:-1])
    names = [n for n in dir(m) if n.startswith('mp_')] + [
        'real_dtype', 'fftn', 'ifftn', 'fl2norm2']
    old = [(n, getattr(m, n)) for n in names]
    try:
        o = {'Verbose': False, 'AccurateDFid': acc}
        W = 1.0
        if wl:
            W = w.arr('wl1', (1,) * 4 + (p.M,), nonneg=True)
            o['CBPDN'] = {'L1Weight': W}
        lmbda = w.real('lmbda', pos=True)
        Wm = w.arr('W', p.Nv + (1, 1, 1)) if md else 1.0
        s = B(p.D0, p.S, lmbda, *((Wm,) if md else ()), opt=B.Options(o),
              nproc=0, dimK=p.dimK, dimN=2)
        x, d = s.xstep, s.dstep

        def lead(a):
            return np.swapaxes(a[np.newaxis], 0, p.axisK + 1)
        w.eq('lmbda', m.mp_lmbda, lmbda)
        w.eq('penalty of the coding stage', m.mp_xrho, x.rho)
        w.eq('penalty of the dictionary stage', m.mp_drho, d.rho)
        w.eq('relaxation', m.mp_xrlx, x.rlx)
        w.eq('relaxation', m.mp_drlx, d.rlx)
        w.true('projection', m.mp_dprox == d.Pcn)
        w.eq('weights', m.mp_wl1, (W if wl else np.ones((1,) * 5))[
            np.newaxis])
        w.eq('transform of the dictionary', m.mp_Df, x.Df)
        D = d.Y
        if md:
            w.eq('signals', m.mp_S, lead(x.S))
            w.eq('mask', m.mp_W, Wm[np.newaxis])
            Y0, Y1 = x.block_sep0(x.Y), x.block_sep1(x.Y)
            U0, U1 = x.block_sep0(x.U), x.block_sep1(x.U)
            for n, a, b in (('Z_Y0', m.mp_Z_Y0, Y0), ('Z_Y1', m.mp_Z_Y1, Y1),
                            ('Z_U0', m.mp_Z_U0, U0), ('Z_U1', m.mp_Z_U1,
                                                      U1)):
                w.eq(n, a, lead(b))
            w.eq('D_Y0', m.mp_D_Y0, d.Y)
            w.eq('D_U0', m.mp_D_U0, np.moveaxis(d.U, -1, 0))
            # (the channels and signals of the second block)
            q = (p.K,) + p.Nv + (p.C, 1, 1)
            w.eq('D_Y1', m.mp_D_Y1, np.moveaxis(d.Y1, 3, 0).reshape(q))
            w.eq('D_U1', m.mp_D_U1, np.moveaxis(d.U1, 3, 0).reshape(q))
            vy, vd = 'mp_Z_Y1', 'mp_D_Y0'
        else:
            w.eq('transform of the signals', m.mp_Sf, lead(x.Sf))
            w.eq('correlation', m.mp_DSf, lead(x.DSf))
            w.eq('Z_Y', m.mp_Z_Y, lead(x.Y))
            w.eq('Z_U', m.mp_Z_U, lead(x.U))
            w.eq('D_Y', m.mp_D_Y, d.Y)
            w.eq('D_U', m.mp_D_U, np.moveaxis(d.U, -1, 0))
            vy, vd = 'mp_Z_Y', 'mp_D_Y'
        # arbitrary state after an iteration
        shX, shD = (p.K,) + p.Nv + (1, 1, p.M), p.Nv + (p.C, 1, p.M)
        X, D = w.arr('X', shX), w.arr('D', shD)
        for n, sh in ((vy, shX), (vd, shD), ('mp_D_X', (p.K,) + shD)):
            w.same_shape('shape of ' + n, getattr(m, n), w.arr('q' + n, sh))
        setattr(m, vy, X)
        setattr(m, vd, D)
        ax = tuple(i + 1 for i in p.axisN)
        m.mp_Df = p.fft(D, p.Nv, p.axisN)
        m.mp_Zf = p.fft(X, p.Nv, ax)
        Xe = np.swapaxes(X, 0, p.axisK + 1)[0]
        w.eq('dictionary', s.getdict(), D[tuple(
            slice(0, n) for n in p.h)])
        w.eq('dictionary, not cropped', s.getdict(crop=False), D)
        w.eq('coefficients', s.getcoef(), Xe)
        R = np.sum(p.fft(D, p.Nv, p.axisN) * p.fft(Xe, p.Nv, p.axisN),
                   axis=p.axisM, keepdims=True)
        l1 = np.sum(np.abs(W * Xe))
        if md:
            dfd = 0.5 * np.sum((Wm * (p.ifft(R, p.Nv, p.axisN) -
                                      p.Si)) ** 2)
        else:
            dfd = 0.5 * fnorm2(w, p, R - p.fft(p.Si, None, p.axisN))
        r = s.evaluate()
        w.eq('data fidelity', r[1], dfd)
        w.eq('l1 term', r[2], l1)
        w.eq('objective', r[0], dfd + lmbda * l1)
    finally:
        for n, v in old:
            setattr(m, n, v)
