"""C14: array utilities: padding, windows, blocks, record arrays."""
from pyvc.framework import contract

R = 'sporco.array.'


def _sh(w, r, nm='n', lo=1, hi=4):
    return tuple(w.dim('%s%d' % (nm, i), lo=lo, hi=hi) for i in range(r))


@contract('C14', [R + 'zpad'], cases=[(r, ax) for r in (1, 2, 3)
                                      for ax in range(r)], trials=30)
def zero_padding(w, case):
    r, ax = case
    x = w.arr('x', _sh(w, r))
    n = x.shape[ax]
    x0 = w.keep(x)
    a, b = w.int('a', lo=0, hi=None if w.sym else 4), \
        w.int('b', lo=0, hi=None if w.sym else 4)
    y = w.fn(R + 'zpad')(x, (a, b), ax)
    sl = lambda i, j: (slice(None),) * ax + (slice(i, j),)
    w.eq('length', y.shape[ax], n + a + b)
    w.eq('zeros before', y[sl(0, a)], 0.0 * y[sl(0, a)])
    w.eq('array kept', y[sl(a, a + n)], x)
    w.eq('zeros after', y[sl(a + n, n + a + b)], 0.0 * y[sl(a + n,
                                                            n + a + b)])
    w.unchanged('x not modified', x, x0)


@contract('C14', [R + 'zdivide'],
          cases=[(kx, ky, b) for kx in 'fc' for ky in 'fc'
                 for b in ('same', 'row', 'col') if not
                 (kx == 'f' and ky == 'c')], trials=60)
def division(w, case):
    """Quotient where the divisor is not zero, zero elsewhere."""
    kx, ky, b = case
    np = w.np
    n, m = _sh(w, 2)
    x = w.arr('x', (n, m), kx)
    y = w.arr('y', {'same': (n, m), 'row': (1, m), 'col': (n, 1)}[b], ky)
    x0, y0 = w.keep(x), w.keep(y)
    q = w.fn(R + 'zdivide')(x, y)
    w.same_shape('shape', q, x)
    yy = y + 0 * x
    i = w.index(q)
    w.imp('zero where the divisor is zero', yy[i] == 0, '==', q[i], 0)
    w.imp('quotient elsewhere', yy[i] != 0, '==', q[i] * yy[i], x[i])
    w.unchanged('x not modified', x, x0)
    w.unchanged('y not modified', y, y0)


@contract('C14', [R + 'promote16'],
          cases=['float16', 'float32', 'float64', 'complex64'], trials=10)
def promotion(w, dt):
    """Half precision is computed in single precision and returned in half
    precision, other types are left alone."""
    np = w.np
    u = w.arr('u', _sh(w, 2), 'c' if dt[0] == 'c' else 'f', dtype=dt)
    p = w.fn(R + 'promote16')
    up = 'float32' if dt == 'float16' else dt
    v = p(u)
    w.dtype_is('promoted type', v, up)
    w.eq('promoted array', v, u)
    seen = []

    def f(x, a, b=0):
        seen.append(x)
        return x * a + b

    def g(x):
        return x, 2 * x
    v = p(u, f, 2, b=1)
    w.dtype_is('type seen by the function', seen[0], up)
    w.dtype_is('type of the result', v, dt)
    w.eq('result', v, u * 2 + 1, tol=1e-2)
    v = p(u, g)
    w.true('several results', len(v) == 2)
    w.dtype_is('types of the results', v[0], dt)
    w.dtype_is('types of the results', v[1], dt)
    w.eq('first result', v[0], u, tol=1e-2)
    w.eq('second result', v[1], 2 * u, tol=1e-2)


@contract('C14', [R + 'atleast_nd'], cases=[(r, n) for r in (1, 2, 3)
                                            for n in (1, 2, 3, 4, 5)],
          trials=10)
def dimensions(w, case):
    """Singleton axes are appended at the end."""
    r, n = case
    u = w.arr('u', _sh(w, r))
    v = w.fn(R + 'atleast_nd')(n, u)
    w.eq('array', v, u[(Ellipsis,) + (None,) * max(0, n - r)])


@contract('C14', [R + 'split'], cases=[(r, ax, k) for r in (1, 2, 3)
                                       for ax in range(-r, r)
                                       for k in (1, 2, 3)], trials=10)
def splitting(w, case):
    """List of the slices along an axis, in order."""
    r, ax, k = case
    np = w.np
    sh = list(_sh(w, r))
    sh[ax] = k
    u = w.arr('u', tuple(sh))
    v = w.fn(R + 'split')(u, ax)
    w.true('number of slices', len(v) == k)
    for i in range(k):
        w.eq('slice', v[i], u[(slice(None),) * (ax % r) + (i,)])


def _gi(w, n):
    """Arbitrary index below n."""
    return w.gindex(n)


@contract('C14', [R + 'rolling_window'],
          cases=[(r, p) for r in (1, 2, 3) for p in (None, 'wrap',
                                                     'symmetric')
                 if not (r == 3 and p)], trials=60)
def windows(w, case):
    """Element k of window j is element j + k of the array, padded at the
    end (wrapped or as selected) when more windows are requested than fit;
    no element outside the array is read."""
    r, p = case
    np = w.np
    n = _sh(w, r, 'n', hi=5)
    x = w.arr('x', n)
    x0 = w.keep(x)
    z = _sh(w, r, 'w')
    for i in range(r):
        w.assume(z[i] <= n[i])
    if p is None:
        y = w.fn(R + 'rolling_window')(x, z)
        m = tuple(n[i] - z[i] + 1 for i in range(r))
    else:
        m = _sh(w, r, 'm', hi=6)
        for i in range(r):
            w.assume(z[i] + m[i] - 1 <= 2 * n[i])
            w.assume(m[i] <= 2**31 - 1)
            w.assume(n[i] <= 2**31 - 1)
        y = w.fn(R + 'rolling_window')(x, z, m) if p == 'wrap' else \
            w.fn(R + 'rolling_window')(x, z, m, p)
    for i in range(r):
        w.eq('window size', y.shape[i], z[i])
        w.eq('number of windows', y.shape[r + i], m[i])
    k = tuple(_gi(w, z[i]) for i in range(r))
    j = tuple(_gi(w, m[i]) for i in range(r))
    if p is None:
        src = x
    else:
        o = [np.maximum(z[i] + m[i] - 1 - n[i], 0) for i in range(r)]
        src = np.pad(x, [(0, a) for a in o], mode=p)
    w.eq('window element', y[k + j], src[tuple(k[i] + j[i]
                                               for i in range(r))])
    w.unchanged('x not modified', x, x0)


@contract('C14', [R + 'subsample_array'],
          cases=[(r, p) for r in (1, 2, 3)
                 for p in (None, 'reflect', 'symmetric')
                 if not (r == 3 and p)], trials=60)
def subsampling(w, case):
    """Element j of subarray k is element j * step + k of the array; no
    element outside the array is read."""
    r, p = case
    np = w.np
    n = _sh(w, r, 'n', lo=2, hi=7)
    x = w.arr('x', n)
    x0 = w.keep(x)
    s = _sh(w, r, 's')
    f = w.fn(R + 'subsample_array')
    if r == 1 and p is None:
        w.raises('step as large as the array', ValueError, f, x, n)
    for i in range(r):
        w.assume(s[i] < n[i])
    if p is None:
        y = f(x, s)
    elif p == 'reflect':
        y = f(x, s, True)
    else:
        y = f(x, s, True, p)
    c = y.shape[r:]
    for i in range(r):
        w.eq('number of subarrays', y.shape[i], s[i])
        if p is None:
            w.eq('size of subarrays', c[i], n[i] // s[i])
        else:
            w.le('no more than needed', (c[i] - 1) * s[i] + 1, n[i])
            w.le('all elements', n[i], c[i] * s[i])
    k = tuple(_gi(w, y.shape[i]) for i in range(2 * r))
    src = x
    if p is not None:
        src = np.pad(x, [(0, c[i] * s[i] - n[i]) for i in range(r)], mode=p)
    for i in range(r):
        # product of non-negative factors
        w.assume(s[i] * (c[i] - 1 - k[r + i]) >= 0)
    w.eq('subarray element', y[k], src[tuple(k[i] + k[r + i] * s[i]
                                             for i in range(r))])
    w.unchanged('x not modified', x, x0)


_BL = [(r, b, st, tup) for r, b in ((1, 1), (2, 1), (2, 2), (3, 2), (3, 3))
       for st in (False, True) for tup in (False, True)
       if not (tup and r == 1) and not (tup and b == r)]


@contract('C14', [R + 'extract_blocks'], cases=_BL, trials=60)
def blocks(w, case):
    """Blocks in C order of their positions; no element outside the array is
    read."""
    r, b, st, tup = case
    np = w.np
    n = _sh(w, r, 'n', hi=6)
    z = _sh(w, b, 'b')
    for i in range(b):
        w.assume(z[i] <= n[i])
    s = _sh(w, b, 's', hi=3) if st else None
    if tup:
        n = n[:-1] + (2,)
        ims = tuple(w.arr('x%d' % i, n[:-1]) for i in range(2))
        x = np.stack(ims, axis=-1)
        y = w.fn(R + 'extract_blocks')(ims, z, s)
    else:
        x = w.arr('x', n)
        y = w.fn(R + 'extract_blocks')(x, z) if s is None else \
            w.fn(R + 'extract_blocks')(x, z, s)
    t = s if st else (1,) * b
    m = [(n[i] - z[i]) // t[i] + 1 if i < b else n[i] for i in range(r)]
    k = tuple(_gi(w, z[i]) for i in range(b))
    j = tuple(_gi(w, m[i]) for i in range(r))
    pos = 0
    tot = 1
    for i in range(r):
        pos = pos * m[i] + j[i]
        tot = tot * m[i]
    for i in range(b):
        w.eq('block size', y.shape[i], z[i])
    w.eq('number of blocks', y.shape[b], tot)
    w.true('rank', y.ndim == b + 1)
    w.eq('block element', y[k + (pos,)],
         x[tuple(k[i] + j[i] * t[i] if i < b else j[i] for i in range(r))])


@contract('C14', [R + 'average_blocks', R + 'combine_blocks'],
          cases=[(r, b, st) for r, b in ((1, 1), (2, 2), (3, 2))
                 for st in (False, True)], sym=False, trials=60)
def block_averages(w, case):
    """Each pixel is the mean (or the given function) of the values of the
    blocks that contain it, so that extracted blocks recover the image."""
    r, b, st = case
    np = w.np
    n = _sh(w, r, 'n', hi=6)
    z = _sh(w, b, 'b')
    for i in range(b):
        w.assume(z[i] <= n[i])
    s = _sh(w, b, 's', hi=3) if st else None
    t = s if st else (1,) * b
    m = tuple((n[i] - z[i]) // t[i] + 1 if i < b else n[i] for i in range(r))
    N = int(np.prod(m))
    blks = w.arr('blks', z + (N,))
    b0 = w.keep(blks)
    if len(set(tuple(pos[i] * t[i] + off[i] if i < b else pos[i]
                     for i in range(r))
               for pos in np.ndindex(*m) for off in np.ndindex(*z))) < \
            int(np.prod(n)):
        cover = False
    else:
        cover = True
    avg = w.fn(R + 'average_blocks')(blks, n, s)
    med = w.fn(R + 'combine_blocks')(blks, n, s) if b == r and cover else None
    mx = w.fn(R + 'combine_blocks')(blks, n, s, np.max) \
        if b == r and cover else None
    vals = {}
    for q, pos in enumerate(np.ndindex(*m)):
        for off in np.ndindex(*z):
            p = tuple(pos[i] * t[i] + off[i] if i < b else pos[i]
                      for i in range(r))
            vals.setdefault(p, []).append(blks[off + (q,)])
    w.true('shape', avg.shape == tuple(n))
    for p in np.ndindex(*n):
        if p in vals:
            w.eq('mean', avg[p], np.mean(vals[p]))
            if b == r and cover:
                w.eq('median', med[p], np.median(vals[p]))
                w.eq('function', mx[p], np.max(vals[p]))
        else:
            w.true('not covered', bool(np.isnan(avg[p])))
    w.unchanged('blocks not modified', blks, b0)
    x = w.arr('img', n)
    y = w.fn(R + 'average_blocks')(w.fn(R + 'extract_blocks')(x, z, s), n, s)
    w.eq('extracted blocks recover the image',
         np.where(np.isnan(y), x, y), x)


@contract('C14', [R + 'ntpl2array', R + 'array2ntpl',
                  R + 'transpose_ntpl_list'],
          cases=[(f, k) for f in (1, 2, 3) for k in (1, 2, 3)],
          sym=False, trials=20)
def records(w, case):
    """Named tuples survive conversion to an array and back, and lists of
    named tuples are transposed field by field."""
    import collections
    nf, k = case
    np = w.np
    names = ['Iter', 'Obj', 'R'][:nf]
    cls = collections.namedtuple('Rec', names)
    rows = [cls(*[w.real('v%d_%d' % (i, j)) for j in range(nf)])
            for i in range(k)]
    t = w.fn(R + 'transpose_ntpl_list')(rows)
    w.true('fields', t._fields == tuple(names) and
           t.__class__.__name__ == 'Rec')
    for j in range(nf):
        w.true('column', list(t[j]) == [r[j] for r in rows])
    w.true('empty list', w.fn(R + 'transpose_ntpl_list')([]) is None)
    arr = w.fn(R + 'ntpl2array')(rows[0])
    u = w.fn(R + 'array2ntpl')(arr)
    w.true('round trip', tuple(u) == tuple(rows[0]) and
           u._fields == tuple(names) and u.__class__.__name__ == 'Rec')
