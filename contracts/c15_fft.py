"""C15: Fourier transform helpers."""
from pyvc.framework import contract

F = 'sporco.fft.'


def _shape(w, r, nm='n'):
    return tuple(w.dim('%s%d' % (nm, i)) for i in range(r))


_TR = [(k, r, ax, s) for k in ('fftn', 'ifftn', 'rfftn', 'irfftn')
       for r, ax in ((1, None), (2, None), (2, (0,)), (2, (1, 0)),
                     (3, (0, 1)), (3, (-1, 0)), (3, (2,)))
       for s in (False, True) if not (k == 'irfftn' and not s)
       if not (ax is None and s)]


@contract('C15', [F + 'fftn', F + 'ifftn', F + 'rfftn', F + 'irfftn'],
          cases=_TR, fft='opaque', trials=40)
def transforms(w, case):
    """The wrappers are the transforms of the documented sizes and axes."""
    k, r, ax, s = case
    n = r if ax is None else len(ax)
    sz = tuple(w.dim('s%d' % i, lo=2) for i in range(n)) if s else None
    sh = list(_shape(w, r))
    if k == 'irfftn':
        for i, a in enumerate(ax):
            sh[a] = sz[i] if i < n - 1 else sz[i] // 2 + 1
    x = w.arr('x', tuple(sh), 'f' if k == 'rfftn' else 'c')
    x0 = w.keep(x)
    f = w.fn(F + k)
    if k == 'irfftn':
        y = f(x, sz, ax)
    elif s:
        y = f(x, sz, ax)
    elif ax is None:
        y = f(x)
    else:
        y = f(x, axes=ax)
    w.eq('transform', y, w.dft(k, x, sz, ax))
    w.unchanged('x not modified', x, x0)


_RT = [(k, r, ax) for k in ('c', 'f') for r, ax in (
    (1, None), (2, None), (2, (0,)), (2, (0, 1)), (3, (0, 1)), (3, (1, 2)),
    (3, (-1,)), (3, (1, 0)))]


@contract('C15', [F + 'fftn', F + 'ifftn', F + 'rfftn', F + 'irfftn',
                  F + 'fftn_func', F + 'ifftn_func'],
          cases=_RT, fft='opaque', trials=40)
def round_trip(w, case):
    """The inverse transform recovers the array for odd and even sizes."""
    k, r, ax = case
    sh = _shape(w, r)
    x = w.arr('x', sh, k)
    axes = tuple(range(r)) if ax is None else ax
    real = k == 'f'
    fw, bw = w.fn(F + 'fftn_func')(real), w.fn(F + 'ifftn_func')(real)
    xf = fw(x, None, axes)
    y = bw(xf, tuple(sh[i] for i in axes), axes)
    w.eq('round trip', y, x)
    n = [sh[i] for i in range(r)]
    if real:
        n[axes[-1]] = n[axes[-1]] // 2 + 1
    for i in range(r):
        w.eq('size of transform', xf.shape[i], n[i])


_CV = [(ka, kb, r, ax, org) for ka, kb in (('f', 'f'), ('c', 'f'),
                                           ('f', 'c'), ('c', 'c'))
       for r, ax in ((1, None), (2, None), (2, (0, 1)), (2, (1,)),
                     (3, (0, 1)), (3, (1, 2)), (3, (0, 2)))
       for org in (False, True)]


def _cconv(np, a, b, axes, dims):
    """Circular convolution by its definition (concrete arrays)."""
    pa = [(0, 0)] * a.ndim
    pb = [(0, 0)] * a.ndim
    for d, ax in zip(dims, axes):
        pa[ax] = (0, d - a.shape[ax])
        pb[ax] = (0, d - b.shape[ax])
    a, b = np.pad(a, pa), np.pad(b, pb)
    out = 0
    for pos in np.ndindex(*dims):
        ix = [slice(None)] * b.ndim
        for p, ax in zip(pos, axes):
            ix[ax] = slice(p, p + 1)
        out = out + b[tuple(ix)] * np.roll(a, pos, axes)
    return out


@contract('C15', [F + 'fftconv'], cases=_CV, fft='opaque', trials=40)
def convolution(w, case):
    """fftconv is the circular convolution of the zero-padded arguments with
    the given origin."""
    ka, kb, r, ax, org = case
    np = w.np
    axes = tuple(range(r)) if ax is None else ax
    na, nb = _shape(w, r), list(_shape(w, r, 'm'))
    for i in range(r):
        if i not in axes:
            nb[i] = na[i]
    a, b = w.arr('a', na, ka), w.arr('b', tuple(nb), kb)
    a0, b0 = w.keep(a), w.keep(b)
    o = tuple(w.int('o%d' % i, lo=-3, hi=3) for i in range(len(axes))) \
        if org else None
    y = w.fn(F + 'fftconv')(a, b, ax, o)
    dims = tuple(np.maximum(na[i], nb[i]) for i in axes)
    if ka == kb == 'f':
        z = w.dft('irfftn', w.dft('rfftn', a, dims, axes) *
                  w.dft('rfftn', b, dims, axes), dims, axes)
    else:
        z = w.dft('ifftn', w.dft('fftn', a, dims, axes) *
                  w.dft('fftn', b, dims, axes), dims, axes)
    if org:
        z = np.roll(z, tuple(-k for k in o), axes)
    w.eq('inverse transform of the product', y, z)
    w.unchanged('a not modified', a, a0)
    w.unchanged('b not modified', b, b0)
    if not w.sym:
        z = _cconv(np, a, b, axes, dims)
        if org:
            z = np.roll(z, tuple(-k for k in o), axes)
        w.eq('circular convolution', y, z)


_NM = [(r, ax) for r, ax in ((1, (0,)), (2, (0, 1)), (2, (1, 0)), (2, (0,)),
                             (2, (1,)), (3, (0, 1)), (3, (1, 2)), (3, (2,)),
                             (3, (-2, -1)), (4, (0, 1)), (2, (-2,)))]


@contract('C15', [F + 'fl2norm2', F + 'fl2norm2_func'], cases=_NM,
          fft='opaque', trials=40)
def norm_full(w, case):
    """Squared norm divided by the number of frequencies; by Parseval's
    identity (checked at run time) the squared norm of the signal."""
    r, ax = case
    np = w.np
    sh = _shape(w, r)
    if w.sym:
        xf = w.arr('xf', sh, 'c')
    else:
        x = w.arr('x', sh, 'c')
        xf = np.fft.fftn(x, axes=ax)
    n = 1
    for i in ax:
        n = n * sh[i]
    v = w.fn(F + 'fl2norm2')(xf, ax)
    w.eq('norm', v * n, np.sum(np.abs(xf)**2))
    w.eq('function for complex arrays',
         w.fn(F + 'fl2norm2_func')(False)(xf, sh, ax), v)
    if not w.sym:
        w.eq('Parseval', v, np.sum(np.abs(x)**2))


@contract('C15', [F + 'rfl2norm2', F + 'fl2norm2_func'],
          cases=[c + (p,) for c in _NM for p in (0, 1)],
          fft='opaque', trials=40)
def norm_half(w, case):
    """Each frequency of the half spectrum counts twice unless it is its own
    mirror image; by Parseval's identity (checked at run time) this is the
    squared norm of the signal."""
    r, ax, par = case
    np = w.np
    sh = list(_shape(w, r))
    l = ax[-1]
    m = w.int('m', lo=1 - par, hi=None if w.sym else 4)
    sh[l] = 2 * m + par
    sh = tuple(sh)
    if w.sym:
        fs = list(sh)
        fs[l] = m + 1
        xf = w.arr('xf', tuple(fs), 'c')
    else:
        x = w.arr('x', sh)
        xf = np.fft.rfftn(x, axes=ax)
    n = 1
    for i in ax:
        n = n * sh[i]
    v = w.fn(F + 'rfl2norm2')(xf, sh, ax)
    p = np.abs(xf)**2
    at = lambda i: p[(slice(None),) * (l % r) + (i,)]
    t = np.sum(at(0)) + 2 * np.sum(at(slice(1, m + par)))
    if par == 0:
        t = t + np.sum(at(m))
    w.eq('norm', v * n, t)
    w.eq('function for real arrays',
         w.fn(F + 'fl2norm2_func')(True)(xf, sh, ax), v)
    if not w.sym:
        w.eq('Parseval', v, np.sum(np.abs(x)**2))


_DC = [(r, ax) for r, ax in ((1, None), (1, (0,)), (2, None), (2, (1,)),
                             (2, (0, 1)), (3, (0, 1)), (3, (1, 2)),
                             (3, (2, 0)), (3, (-1,)), (3, None))]


@contract('C15', [F + 'dctii', F + 'idctii'], cases=_DC, fft='opaque',
          trials=40)
def cosine(w, case):
    """Orthonormal type-II cosine transform over the axes and its inverse."""
    r, ax = case
    x = w.arr('x', _shape(w, r))
    x0 = w.keep(x)
    y = w.fn(F + 'dctii')(x) if ax is None else w.fn(F + 'dctii')(x, ax)
    z = x
    for a in (range(r) if ax is None else ax):
        z = w.dft('dct', z, 2, axis=a, norm='ortho')
    w.eq('transform', y, z)
    w.unchanged('x not modified', x, x0)
    u = w.fn(F + 'idctii')(y) if ax is None else w.fn(F + 'idctii')(y, ax)
    w.eq('inverse', u, x)
    v = w.fn(F + 'idctii')(x) if ax is None else w.fn(F + 'idctii')(x, ax)
    z = x
    for a in list(range(r) if ax is None else ax)[::-1]:
        z = w.dft('idct', z, 2, axis=a, norm='ortho')
    w.eq('inverse transform', v, z)


@contract('C15', [F + 'rfftn_empty_aligned', F + 'empty_aligned',
                  F + 'empty_aligned_func', F + 'complex_dtype',
                  F + 'real_dtype', F + 'is_complex_dtype'],
          cases=[(r, ax) for r, ax in ((1, (0,)), (2, (0, 1)), (2, (1, 0)),
                                       (3, (0, 1)), (3, (-1,)))],
          fft='opaque', trials=10)
def work_arrays(w, case):
    """Work arrays have the shape and type of the transform they hold; the
    array whose shape is passed is not modified."""
    import numpy
    r, ax = case
    sh = _shape(w, r)
    for dt in ('float32', 'float64'):
        cd = {'float32': 'complex64', 'float64': 'complex128'}[dt]
        d, c = numpy.dtype(dt), numpy.dtype(cd)
        w.true('complex type', w.fn(F + 'complex_dtype')(d) == c)
        w.true('complex type kept', w.fn(F + 'complex_dtype')(c) == c)
        w.true('real type', w.fn(F + 'real_dtype')(c) == d)
        w.true('real type kept', w.fn(F + 'real_dtype')(d) == d)
        w.true('complex', w.fn(F + 'is_complex_dtype')(c) and
               not w.fn(F + 'is_complex_dtype')(d))
        l = list(sh)
        xf = w.dft('rfftn', w.arr('x', sh, dtype=dt), None, ax)
        for e in (w.fn(F + 'rfftn_empty_aligned')(l, ax, d),
                  w.fn(F + 'empty_aligned_func')(True)(sh, ax, d)):
            w.same_shape('shape of the real transform', e, xf)
            w.dtype_is('type of the real transform', e, cd)
        for i in range(r):
            w.eq('argument kept', l[i], sh[i])
        e = w.fn(F + 'empty_aligned_func')(False)(sh, ax, c)
        for i in range(r):
            w.eq('shape of the transform', e.shape[i], sh[i])
        w.dtype_is('type of the transform', e, cd)
