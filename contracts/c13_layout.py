"""C13: internal data layouts of convolutional representations."""
from pyvc.framework import contract

CR = 'sporco.cnvrep.'

# (dimN, channel axis of D, axes of S after the spatial ones, dimK); the
# axes of S follow from the documented rule
_CS = [(n, d, s, k) for n in (1, 2, 3) for d, s, k in (
    (0, '', None), (0, '', 0), (0, 'K', None), (0, 'K', 1), (0, 'C', 0),
    (0, 'CK', None), (0, 'CK', 1), (1, 'C', None), (1, 'C', 0),
    (1, 'CK', None), (1, 'CK', 1))]


def _signal(w, case):
    dimN, wide, ax, dimK = case
    Nv = tuple(w.dim('N%d' % i) for i in range(dimN))
    C, K, M = w.dim('C'), w.dim('K'), w.dim('M')
    sz = {'C': C, 'K': K}
    S = w.arr('S', Nv + tuple(sz[a] for a in ax))
    return Nv, C if 'C' in ax else 1, K if 'K' in ax else 1, M, S


def _std(w, a, dimN, ax, tail):
    """`a` with axes (spatial, those named in ax, tail) in the layout
    (spatial, channel, signal, tail or one)."""
    key = (slice(None),) * dimN
    for c in 'CK':
        key += (slice(None),) if c in ax else (None,)
    return a[key + ((slice(None),) if tail else (None,))]


def _check(w, cri, case, Nv, C, K, M, S, shpD):
    dimN, wide, ax, dimK = case
    np = w.np
    w.true('number of channel and signal axes',
           cri.dimC == ('C' in ax) and cri.dimK == ('K' in ax) and
           cri.dimN == dimN)
    Cd = C if wide else 1
    w.true('sizes', np.all(np.array([cri.C == C, cri.K == K, cri.M == M,
                                     cri.Cd == Cd])))
    n = 1
    for k in Nv:
        n = n * k
    w.eq('number of samples', cri.N, n)
    w.true('axes', cri.axisN == tuple(range(dimN)) and
           cri.axisC == dimN and cri.axisK == dimN + 1 and
           cri.axisM == dimN + 2)
    w.eq('internal signal', S.reshape(cri.shpS), _std(w, S, dimN, ax, 0))
    w.same_shape('internal coefficients', np.zeros(cri.shpX),
                 np.zeros(Nv + (1 if wide else C, K, M)))
    w.same_shape('internal dictionary', np.zeros(cri.shpD),
                 np.zeros(shpD + (Cd, 1, M)))


@contract('C13', [CR + 'CSC_ConvRepIndexing.__init__', CR + 'stdformD'],
          cases=_CS)
def csc_indexing(w, case):
    """Dimensions inferred from D and S are those of the documented rule,
    and the internal arrays hold the same data."""
    dimN, wide, ax, dimK = case
    Nv, C, K, M, S = _signal(w, case)
    h = tuple(w.dim('h%d' % i) for i in range(dimN))
    D = w.arr('D', h + ((C,) if wide else ()) + (M,))
    cri = w.fn(CR + 'CSC_ConvRepIndexing')(D, S, dimK=dimK, dimN=dimN)
    _check(w, cri, case, Nv, C, K, M, S, h)
    w.eq('internal dictionary data',
         w.fn(CR + 'stdformD')(D, cri.Cd, cri.M, dimN),
         _std(w, D, dimN, 'C' if wide else '', 1))


@contract('C13', [CR + 'CDU_ConvRepIndexing.__init__',
                  CR + 'DictionarySize.__init__'],
          cases=[c + (m,) for c in _CS for m in (0, 1, 2)
                 if m < 2 or c[1]])
def cdu_indexing(w, case):
    """The same for a dictionary given by its size: one filter size, blocks
    of filters, or blocks of channels of blocks of filters."""
    multi = case[4]
    case = case[:4]
    dimN, wide, ax, dimK = case
    h = tuple(w.dim('h%d' % i) for i in range(dimN))
    g = tuple(w.dim('g%d' % i) for i in range(dimN))
    if multi == 2:
        C0, C1 = w.dim('C0'), w.dim('C1')
        Nv = tuple(w.dim('N%d' % i) for i in range(dimN))
        C, K = C0 + C1, w.dim('K') if 'K' in ax else 1
        S = w.arr('S', Nv + (C,) + ((K,) if 'K' in ax else ()))
    else:
        Nv, C, K, _, S = _signal(w, case)
    M, M1 = w.dim('M'), w.dim('M1')
    cc = (C,) if wide else ()
    if multi == 0:
        dsz, Mt = h + cc + (M,), M
    elif multi == 1:
        dsz, Mt = (h + cc + (M,), g + cc + (M1,)), M + M1
    else:
        dsz, Mt = ((h + (C0, M), g + (C1, M)), (g + (C, M1),)), M + M1
    cri = w.fn(CR + 'CDU_ConvRepIndexing')(dsz, S, dimK=dimK, dimN=dimN)
    _check(w, cri, case, Nv, C, K, Mt, S, Nv)
    ds = w.fn(CR + 'DictionarySize')(dsz, dimN)
    mx = h if multi == 0 else tuple(w.np.maximum(a, b)
                                    for a, b in zip(h, g))
    for i in range(dimN):
        w.eq('maximum filter size', ds.mxsz[i], mx[i])
    w.eq('number of filters', ds.nflt, Mt)
    w.eq('number of channels', ds.nchn, C if wide else 1)


@contract('C13', [CR + 'CSC_ConvRepIndexing.__init__',
                  CR + 'CDU_ConvRepIndexing.__init__'],
          cases=[(n, s) for n in (1, 2, 3) for s in ('K', 'C', 'CK')])
def channel_mismatch(w, case):
    """A multi-channel dictionary with a signal with another number of
    channels is rejected."""
    dimN, ax = case
    Nv, C, K, M, S = _signal(w, (dimN, 1, ax, None))
    Cd = w.int('Cd', lo=2, hi=None if w.sym else 6)
    if 'C' in ax:
        w.assume(Cd != C)
        k = None
    else:
        k = 1
    h = tuple(w.dim('h%d' % i) for i in range(dimN))
    D = w.arr('D', h + (Cd, M))
    w.raises('mismatch rejected', ValueError, w.fn(
        CR + 'CSC_ConvRepIndexing'), D, S, dimK=k, dimN=dimN)
    w.raises('mismatch rejected', ValueError, w.fn(
        CR + 'CDU_ConvRepIndexing'), h + (Cd, M), S, dimK=k, dimN=dimN)


def _cri(w, case, M, S):
    dimN, wide, ax, dimK = case
    C = S.shape[dimN] if 'C' in ax else 1
    return w.fn(CR + 'CDU_ConvRepIndexing')(
        (1,) * dimN + ((C,) if wide else ()) + (M,), S, dimK=dimK,
        dimN=dimN)


@contract('C13', [CR + 'l1Wshape'],
          cases=[c + (k,) for c in _CS for k in
                 ('scalar', 'S', 'S1', 'SM', 'full', 'small')
                 if not (c[1] and k in ('S', 'SM') or
                         k == 'small' and c[0] == 1 and not c[2])])
def l1_weight(w, case):
    """An l1 weight with the axes of S, optionally followed by the filter
    axis, or in the internal layout, is laid out on the matching axes of the
    coefficient array."""
    kind = case[4]
    case = case[:4]
    dimN, wide, ax, dimK = case
    np = w.np
    Nv, C, K, M, S = _signal(w, case)
    cri = _cri(w, case, M, S)
    f = w.fn(CR + 'l1Wshape')
    if kind == 'scalar':
        W = w.arr('W', ())
        w.eq('scalar weight', W.reshape(f(W, cri)),
             W + np.zeros((1,) * (dimN + 3)))
        return
    if kind == 'small':
        n = w.int('n', lo=2, hi=None if w.sym else 5)
        W = w.arr('W', (n,))
        w.raises('too few axes', ValueError, f, W, cri)
        return
    if kind == 'full':
        W = w.arr('W', Nv + (1 if wide else C, K, M))
        w.eq('internal layout kept', W.reshape(f(W, cri)), W)
        return
    # spatially varying weight, constant over some axes
    sz = {'C': 1 if kind == 'S1' and wide else C, 'K': K}
    shp = Nv + tuple(sz[a] for a in ax)
    if kind == 'S':
        W = w.arr('W', shp)
    elif kind == 'S1':
        W = w.arr('W', (1,) * dimN + shp[dimN:] + (M,))
    else:
        W = w.arr('W', shp + (M,))
    r = W.reshape(f(W, cri))
    w.eq('axes of the weight', r, _std(w, W, dimN, ax, kind != 'S'))
    X = w.arr('X', cri.shpX)
    w.same_shape('compatible with the coefficients', r * X, X)


@contract('C13', [CR + 'mskWshape'],
          cases=[c + (k,) for c in _CS for k in (0, 1, 2, 3)])
def mask_weight(w, case):
    """A mask with the axes of S, or only its spatial axes, is laid out on
    the matching axes of the internal signal array; a single further axis of
    a mask for a signal with channel and signal axes is taken as a channel
    axis."""
    kind = case[4]
    case = case[:4]
    dimN, wide, ax, dimK = case
    np = w.np
    Nv, C, K, M, S = _signal(w, case)
    if 'C' in ax:
        w.assume(C > 1)
    if 'K' in ax:
        w.assume(K > 1)
    cri = _cri(w, case, M, S)
    f = w.fn(CR + 'mskWshape')
    if kind == 0:
        W, a = w.arr('W', Nv), ''
    elif kind == 1:
        W, a = w.arr('W', S.shape), ax
    elif kind == 2:
        W, a = w.arr('W', Nv + (C, K, 1)), 'full'
    elif ax == 'CK':
        W, a = w.arr('W', Nv + (C,)), 'C'
    else:
        W, a = w.arr('W', (1,) * len(Nv) + tuple(S.shape)[dimN:]), ax
    r = W.reshape(f(W, cri))
    w.eq('axes of the mask', r, W if a == 'full' else
         _std(w, W, dimN, a, 0))
    Z = w.arr('Z', cri.shpS)
    w.same_shape('compatible with the signal', r * Z, Z)
