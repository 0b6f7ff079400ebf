"""C19: metrics, signal utilities, elementary linear algebra."""
from pyvc.framework import contract

M = 'sporco.metric.'
S = 'sporco.signal.'
L = 'sporco.linalg.'


def _sh(w, r, nm='n', lo=1, hi=4):
    return tuple(w.dim('%s%d' % (nm, i), lo=lo, hi=hi) for i in range(r))


def _num(np, x):
    n = 1
    for k in x.shape:
        n = n * k
    return n


def _var(np, x):
    """Variance by its definition."""
    n = _num(np, x)
    return np.sum(np.abs(x - np.sum(x) / n)**2) / n


_KK = [(r, kr, kc) for r in (1, 2, 3) for kr in 'fc' for kc in 'fc']


@contract('C19', [M + 'mae', M + 'mse'], cases=_KK + [(2, 'i', 'i'),
                                                     (1, 'i', 'f')],
          trials=40)
def mean_errors(w, case):
    """Mean absolute and mean squared difference; integer images are
    compared without wrapping around."""
    r, kr, kc = case
    np = w.np
    sh = _sh(w, r)
    if 'i' in (kr, kc):
        a = w.arr('a', sh, kr, dtype='uint8' if kr == 'i' else None)
        b = w.arr('b', sh, kc, dtype='uint8' if kc == 'i' else None)
    else:
        a, b = w.arr('a', sh, kr), w.arr('b', sh, kc)
    a0, b0 = w.keep(a), w.keep(b)
    n = _num(np, a)
    dt = 'complex128' if 'c' in (kr, kc) else 'float64'
    d = np.asarray(a, dtype=dt) - np.asarray(b, dtype=dt)
    w.eq('mean absolute error', w.fn(M + 'mae')(a, b) * n, np.sum(np.abs(d)))
    w.eq('mean squared error', w.fn(M + 'mse')(a, b) * n,
         np.sum(np.abs(d)**2))
    w.unchanged('reference not modified', a, a0)
    w.unchanged('comparison not modified', b, b0)


@contract('C19', [M + 'snr', M + 'psnr', M + 'isnr', M + 'bsnr'],
          cases=[(r, rng) for r in (1, 2, 3) for rng in (False, True)],
          trials=40)
def ratios(w, case):
    """Signal to noise ratios in dB by their definitions."""
    r, rng = case
    np = w.np
    sh = _sh(w, r, lo=2)
    x, y, z = w.arr('x', sh), w.arr('y', sh), w.arr('z', sh)
    n = _num(np, x)
    err = lambda p, q: np.sum((p - q)**2) / n
    w.assume(err(x, y) > 0)
    w.assume(err(x, z) > 0)
    w.assume(_var(np, x) > 0)
    w.assume(_var(np, z - x) > 0)
    db = lambda v: 10.0 * np.log10(v)
    w.eq('signal to noise ratio', w.fn(M + 'snr')(x, y),
         db(_var(np, x) / err(x, y)))
    if rng:
        g = w.real('range', pos=True)
        w.eq('peak signal to noise ratio', w.fn(M + 'psnr')(x, y, g),
             db(g**2 / err(x, y)))
    else:
        g = x.max() - x.min()
        w.assume(g > 0)
        w.eq('peak signal to noise ratio', w.fn(M + 'psnr')(x, y),
             db(g**2 / err(x, y)))
    w.eq('improvement', w.fn(M + 'isnr')(x, y, z),
         db(err(x, y) / err(x, z)))
    w.eq('blurred signal to noise ratio', w.fn(M + 'bsnr')(x, z),
         db(_var(np, x) / _var(np, z - x)))


@contract('C19', [M + 'pamse', M + 'gmsd'], cases=[True, False], sym=False,
          trials=20)
def perceptual(w, rescale):
    """Perceptual errors vanish for identical images, do not depend on the
    scale of rescaled images, and follow their definitions."""
    import scipy.ndimage as nd
    np = w.np
    n, m = w.dim('n', lo=6, hi=9), w.dim('m', lo=6, hi=9)
    x = np.abs(w.arr('x', (n, m))) + 0.5
    y = np.abs(w.arr('y', (n, m))) + 0.5
    scl = 255.0 / x.max() if rescale else 1.0
    pm, gm = w.fn(M + 'pamse'), w.fn(M + 'gmsd')
    w.eq('mean squared error after smoothing', pm(x, y, rescale),
         np.mean(nd.gaussian_filter(scl * (x - y), 0.8)**2))
    w.eq('identical images', gm(x, x, rescale), 0.0)
    s, q = gm(x, y, rescale, True)
    w.eq('score without map', gm(x, y, rescale), s)

    def gmap(v):
        p = np.pad(scl * v, ((1, 0), (1, 0)), 'symmetric')
        a = (p[1:, 1:] + p[:-1, 1:] + p[1:, :-1] + p[:-1, :-1]) / 4
        a = np.pad(a[::2, ::2], 1, 'symmetric')
        k, l = a.shape
        gx = sum(a[i:k - 2 + i, 2:] - a[i:k - 2 + i, :-2]
                 for i in range(3)) / 3
        gy = sum(a[2:, i:l - 2 + i] - a[:-2, i:l - 2 + i]
                 for i in range(3)) / 3
        return np.sqrt(gx**2 + gy**2)
    u, v = gmap(x), gmap(y)
    w.eq('gradient similarity', q, (2 * u * v + 170) / (u**2 + v**2 + 170))
    w.eq('score', s, np.std(q))
    if rescale:
        w.eq('scale invariance', gm(3 * x, 3 * y), gm(x, y))
        w.eq('scale invariance of error', pm(3 * x, 3 * y), pm(x, y))


@contract('C19', [S + 'rgb2gray'], cases=[None], trials=20)
def gray(w, case):
    n, m = _sh(w, 2)
    x = w.arr('x', (n, m, 3))
    w.eq('luminance', w.fn(S + 'rgb2gray')(x), 0.299 * x[..., 0] +
         0.587 * x[..., 1] + 0.114 * x[..., 2])


@contract('C19', [S + 'tikhonov_filter'],
          cases=[(r, k, d) for r in (2, 3) for k in 'fc' for d in (0, 1)],
          fft='opaque', trials=30)
def tikhonov(w, case):
    """The two components add up to the signal and the smooth one is the
    central part of the solution of (I + lambda G^H G) x = padded signal."""
    r, k, d = case
    np = w.np
    n = _sh(w, r, lo=3, hi=6)
    s = w.arr('s', n, k)
    s0 = w.keep(s)
    lmb = w.real('lmbda', pos=True)
    if d:
        p = w.int('npd', lo=1, hi=None if w.sym else 3)
        w.assume(p <= n[0])
        w.assume(p <= n[1])
        lo, hi = w.fn(S + 'tikhonov_filter')(s, lmb, p)
    else:
        p = 16
        w.assume(n[0] >= p)
        w.assume(n[1] >= p)
        lo, hi = w.fn(S + 'tikhonov_filter')(s, lmb)
    w.same_shape('shape', lo, s)
    w.dtype_is('type', lo, s.dtype)
    w.dtype_is('type', hi, s.dtype)
    w.eq('components add up to the signal', lo + hi, s)
    w.unchanged('s not modified', s, s0)
    sp = np.pad(s, [(p, p), (p, p)] + [(0, 0)] * (r - 2), 'symmetric')
    f, b = ('rfftn', 'irfftn') if k == 'f' else ('fftn', 'ifftn')
    sz = (n[0] + 2 * p, n[1] + 2 * p)
    g = np.array([-1.0, 1.0])
    G0 = w.dft(f, g.reshape(2, 1), sz, (0, 1))
    G1 = w.dft(f, g.reshape(1, 2), sz, (0, 1))
    A = 1.0 + lmb * (np.abs(G0)**2 + np.abs(G1)**2)
    if r == 3:
        A = A[..., None]
    x = w.dft(b, w.dft(f, sp, None, (0, 1)) / A, sz, (0, 1))
    w.eq('smooth component', lo, x[p:p + n[0], p:p + n[1]])


@contract('C19', [S + 'tikhonov_filter'], cases=['f', 'c'], sym=False,
          trials=30)
def tikhonov_normal_equations(w, k):
    """The padded problem's normal equations hold (periodic differences):
    for a signal that is its own periodic symmetric extension."""
    np = w.np
    n = w.dim('n', lo=2, hi=4)
    m = w.dim('m', lo=2, hi=4)
    a = w.arr('a', (n, m), k)
    a = np.concatenate((a, a[::-1]), 0)
    a = np.concatenate((a, a[:, ::-1]), 1)
    lmb = w.real('lmbda', pos=True)
    lo, hi = w.fn(S + 'tikhonov_filter')(a, lmb, 2 * min(n, m))
    # the solution of the padded problem solves the problem on a inside
    x = lo
    lap = 0
    for ax in (0, 1):
        lap = lap + 2 * x - np.roll(x, 1, ax) - np.roll(x, -1, ax)
    if n == m:
        w.eq('normal equations', x + lmb * lap, a)


@contract('C19', [S + 'gaussian'],
          cases=[1, 2, 3], sym=False, trials=20)
def gauss(w, r):
    """Normalised separable gaussian on [-3, 3]."""
    np = w.np
    n = _sh(w, r, lo=2, hi=5)
    sd = w.real('sd', pos=True) + 0.2
    g = w.fn(S + 'gaussian')(n, sd)
    e = 1.0
    for i in range(r):
        t = np.linspace(-3, 3, n[i])
        e = e * np.exp(-t**2 / (2 * sd**2)).reshape(
            (1,) * i + (-1,) + (1,) * (r - i - 1))
    w.eq('gaussian', g, e / e.sum())
    w.eq('default standard deviation', w.fn(S + 'gaussian')(n),
         w.fn(S + 'gaussian')(n, 1.0))
    if r == 1:
        w.eq('integer shape', w.fn(S + 'gaussian')(n[0], sd), g)


@contract('C19', [S + 'local_contrast_normalise'],
          cases=[(r, c) for r in (2, 3) for c in (False, True)], sym=False,
          trials=20)
def contrast(w, case):
    """s = normalised * norm + mean, with the gaussian-weighted local mean
    and norm of the symmetrically padded image."""
    r, cc = case
    np = w.np
    k = w.dim('k', lo=1, hi=2)
    n = _sh(w, 2, lo=5, hi=7) + ((2,) if r == 3 else ())
    s = w.arr('s', n)
    s0 = w.keep(s)
    c = w.real('c', pos=True) if cc else None
    a, mn, nr = w.fn(S + 'local_contrast_normalise')(s, k, c)
    w.same_shape('shape', a, s)
    w.eq('decomposition', a * nr + mn, s)
    w.unchanged('s not modified', s, s0)
    g = w.fn(S + 'gaussian')((2 * k + 1,) * 2, 1.0)
    sp = np.pad(s, ((k, k),) * 2 + ((0, 0),) * (r - 2), 'symmetric')

    def loc(v):
        o = 0
        for i in range(-k, k + 1):
            for j in range(-k, k + 1):
                o = o + g[i + k, j + k] * np.roll(v, (i, j), (0, 1))
        return o
    mean = loc(sp)
    nrm = np.sqrt(np.maximum(loc((sp - mean)**2), 0))
    if cc:
        nrm = np.maximum(nrm, c)
    else:
        nrm = np.maximum(nrm, nrm.mean(axis=(0, 1), keepdims=True))
    ct = (slice(k, -k),) * 2
    w.eq('local mean', mn, mean[ct])
    w.eq('local norm', nr, nrm[ct], tol=1e-6)


@contract('C19', [S + 'spnoise', S + 'rndmask', S + 'complex_randn'],
          cases=[1, 2, 3], sym=False, trials=40)
def random_arrays(w, r):
    """Salt and pepper noise changes the pixels only to the given extremes,
    leaving the image alone; masks hold zeros and ones in the requested
    proportion; all are determined by the state of the generator."""
    np = w.np
    n = _sh(w, r)
    s = w.arr('s', n)
    s0 = w.keep(s)
    f = min(1.0, abs(w.real('f', pos=True)) / 3)
    np.random.seed(7)
    y = w.fn(S + 'spnoise')(s, f, -5.0, 6.0)
    np.random.seed(7)
    u = np.random.uniform(-1.0, 1.0, s.shape)
    w.true('noise', bool(np.all(np.where(
        u < f - 1, y == -5.0, np.where(u > 1 - f, y == 6.0, y == s)) |
        ((u < f - 1) & (u > 1 - f)))))
    w.unchanged('image not modified', s, s0)
    np.random.seed(7)
    m = w.fn(S + 'rndmask')(n, f, 'float32')
    w.dtype_is('type of mask', m, 'float32')
    w.true('mask is binary', bool(np.all((m == 0) | (m == 1))))
    w.true('mask', bool(np.all((m == 0) == (np.abs(u.astype('float32')) <
                                            f))))
    big = w.fn(S + 'rndmask')((100, 100), f)
    w.le('proportion of zeros', abs(np.mean(big == 0) - f), 0.03)
    np.random.seed(7)
    c = w.fn(S + 'complex_randn')(*n)
    np.random.seed(7)
    w.eq('complex gaussian', c, np.random.randn(*n) +
         1j * np.random.randn(*n))


@contract('C19', [L + 'inner'], cases=[(r, ax, k) for r in (1, 2, 3)
                                       for ax in range(-r, r)
                                       for k in 'fc'], trials=20)
def inner_product(w, case):
    """Sum of products along the axis, which is kept with length one."""
    r, ax, k = case
    np = w.np
    n = _sh(w, r)
    x, y = w.arr('x', n, k), w.arr('y', n, k)
    w.eq('inner product', w.fn(L + 'inner')(x, y, ax),
         np.sum(x * y, axis=ax, keepdims=True))


@contract('C19', [L + 'dot'], cases=[(2, -2), (2, 0), (3, -2), (3, -3),
                                     (3, 0), (3, 1), (4, 1), (4, -2)],
          trials=20)
def tensor_dot(w, case):
    """Matrix products along the given pair of axes."""
    r, ax = case
    np = w.np
    n = list(_sh(w, r))
    a = w.arr('a', (w.dim('p'), n[ax]))
    b = w.arr('b', tuple(n))
    y = w.fn(L + 'dot')(a, b, ax)
    p = ax % r
    z = np.moveaxis(np.sum(a[(slice(None), slice(None)) + (None,) * (r - 1)]
                           * np.moveaxis(b, p, 0)[None], axis=1), 0, p)
    w.eq('matrix product along the axis', y, z)


@contract('C19', [L + 'block_circulant'], cases=[1, 2, 3, 4], trials=20)
def circulant(w, k):
    """Block (i, j) is the element i - j (mod n) of the list."""
    np = w.np
    n, m = _sh(w, 2)
    A = tuple(w.arr('A%d' % i, (n, m)) for i in range(k))
    B = w.fn(L + 'block_circulant')(A)
    w.eq('rows', B.shape[0], k * n)
    w.eq('columns', B.shape[1], k * m)
    for i in range(k):
        for j in range(k):
            w.eq('block', B[i * n:(i + 1) * n, j * m:(j + 1) * m],
                 A[(i - j) % k])


@contract('C19', [L + 'rrs'], cases=[1, 2], trials=20)
def residual(w, r):
    """Norm of the difference relative to the larger norm."""
    np = w.np
    n = _sh(w, r)
    a, b = w.arr('a', n), w.arr('b', n)
    z = 0.0 * a
    w.eq('zero vectors', w.fn(L + 'rrs')(z, z), 0.0)
    w.assume(np.sum(b**2) > 0)
    v = w.fn(L + 'rrs')(a, b)
    m = np.maximum(np.sqrt(np.sum(a**2)), np.sqrt(np.sum(b**2)))
    w.eq('relative residual', v * m, np.sqrt(np.sum((a - b)**2)))


@contract('C19', [L + 'pca', L + 'nkp', L + 'kpsvd', L + 'valid_adjoint'],
          cases=[None], sym=False, trials=60)
def decompositions(w, case):
    """Principal components, nearest Kronecker product and Kronecker
    decomposition; validity of an adjoint."""
    np = w.np
    n, m = w.dim('n', hi=4), w.dim('m', hi=5)
    U = w.arr('U', (n, m))
    U0 = w.keep(U)
    for c in (False, True):
        B, lam, C = w.fn(L + 'pca')(U, centre=c)
        V = U - U.mean(axis=1, keepdims=True) if c else U
        w.eq('orthonormal basis', B.T.dot(B), np.eye(B.shape[1]))
        w.eq('covariance', B.dot(np.diag(lam)).dot(B.T), V.dot(V.T))
        w.true('sorted', bool(np.all(np.diff(lam) <= 1e-12)))
        if c:
            w.eq('mean', C, U.mean(axis=1, keepdims=True))
        else:
            w.true('no mean', C is None)
    w.unchanged('U not modified', U, U0)
    bs = (w.dim('b0', lo=2, hi=3), w.dim('b1', lo=2, hi=3))
    cs = (w.dim('c0', hi=3), w.dim('c1', hi=3))
    A = w.arr('A', (bs[0] * cs[0], bs[1] * cs[1]))
    S_, Bk, Ck = w.fn(L + 'kpsvd')(A, bs, cs)
    w.true('sorted singular values', bool(np.all(np.diff(S_) <= 1e-12)))
    w.eq('sum of Kronecker products', sum(
        S_[i] * np.kron(Bk[..., i], Ck[..., i]) for i in range(len(S_))), A)
    B1, C1 = w.fn(L + 'nkp')(A, bs, cs)
    w.eq('nearest Kronecker product', np.kron(B1, C1),
         S_[0] * np.kron(Bk[..., 0], Ck[..., 0]))
    w.raises('incompatible shapes', ValueError, w.fn(L + 'nkp'), A,
             (bs[0] + 1, bs[1]), cs)
    w.raises('incompatible shapes', ValueError, w.fn(L + 'kpsvd'), A, bs,
             (cs[0], cs[1] + 1))
    va = w.fn(L + 'valid_adjoint')
    U = U + 20.0 * np.eye(n, m)
    w.true('adjoint', va(lambda x: U.dot(x), lambda x: U.T.dot(x), (m,),
                         (n,)))
    w.true('not the adjoint', not va(
        lambda x: U.dot(x) + 1, lambda x: U.T.dot(x) * 3 - 1, (m,), (n,)))
