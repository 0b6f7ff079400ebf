"""C05: option trees: defaults, nested overrides, unknown keys, isolation."""
import copy

from pyvc.framework import contract

CD = 'sporco.cdict.'

CLS = [
    ('admm.admm', 'ADMM'),
    ('admm.admm', 'ADMMEqual'),
    ('admm.admm', 'ADMMTwoBlockCnstrnt'),
    ('admm.admm', 'ADMMConsensus'),
    ('admm.admm', 'WeightedADMMConsensus'),
    ('admm.bpdn', 'GenericBPDN'),
    ('admm.bpdn', 'BPDN'),
    ('admm.bpdn', 'BPDNProjL1'),
    ('admm.bpdn', 'MinL1InL2Ball'),
    ('admm.cmod', 'CnstrMOD'),
    ('admm.tvl1', 'TVL1Denoise'),
    ('admm.tvl1', 'TVL1Deconv'),
    ('admm.tvl2', 'TVL2Denoise'),
    ('admm.tvl2', 'TVL2Deconv'),
    ('admm.spline', 'SplineL1'),
    ('admm.rpca', 'RobustPCA'),
    ('admm.cbpdn', 'GenericConvBPDN'),
    ('admm.cbpdn', 'ConvBPDN'),
    ('admm.cbpdn', 'ConvBPDNJoint'),
    ('admm.cbpdn', 'ConvBPDNGradReg'),
    ('admm.cbpdn', 'ConvBPDNProjL1'),
    ('admm.cbpdn', 'ConvTwoBlockCnstrnt'),
    ('admm.cbpdn', 'ConvMinL1InL2Ball'),
    ('admm.cbpdn', 'ConvBPDNMaskDcpl'),
    ('admm.cbpdn', 'ConvL1L1Grd'),
    ('admm.cbpdntv', 'ConvBPDNScalarTV'),
    ('admm.cbpdntv', 'ConvBPDNRecTV'),
    ('admm.cbpdnin', 'ConvBPDNInhib'),
    ('admm.pdcsc', 'ConvProdDictL1L1GrdJoint'),
    ('admm.ccmod', 'ConvCnstrMODBase'),
    ('admm.ccmod', 'ConvCnstrMOD_IterSM'),
    ('admm.ccmod', 'ConvCnstrMOD_CG'),
    ('admm.ccmod', 'ConvCnstrMOD_Consensus'),
    ('admm.ccmodmd', 'ConvCnstrMODMaskDcplBase'),
    ('admm.ccmodmd', 'ConvCnstrMODMaskDcpl_IterSM'),
    ('admm.ccmodmd', 'ConvCnstrMODMaskDcpl_CG'),
    ('admm.parcbpdn', 'ParConvBPDN'),
    ('pgm.pgm', 'PGM'),
    ('pgm.pgm', 'PGMDFT'),
    ('pgm.bpdn', 'BPDN'),
    ('pgm.cbpdn', 'ConvBPDN'),
    ('pgm.ccmod', 'ConvCnstrMOD'),
    ('pgm.ccmod', 'ConvCnstrMODMask'),
    ('pgm.cmod', 'CnstrMOD'),
    ('dictlrn.dictlrn', 'DictLearn'),
]


def _leaves(d, pth=()):
    for k in d:
        if isinstance(d[k], dict) and len(d[k]) > 0:
            for x in _leaves(d[k], pth + (k,)):
                yield x
        else:
            yield pth + (k,)


def _nodes(d, pth=()):
    yield pth
    for k in d:
        if isinstance(d[k], dict):
            for x in _nodes(d[k], pth + (k,)):
                yield x


def _get(d, pth):
    for k in pth:
        d = dict.__getitem__(d, k)
    return d


def _tree(pth, v):
    for k in reversed(pth):
        v = {k: v}
    return v


def _copy(d):
    return {k: _copy(d[k]) if isinstance(d[k], dict) else d[k] for k in d}


def _same(a, b, leave=()):
    """Equal trees, apart from the paths in leave."""
    if isinstance(a, dict) != isinstance(b, dict):
        return False
    if not isinstance(a, dict):
        return a is b or type(a) is type(b) and a == b
    ka = [k for k in a if (k,) not in leave]
    kb = [k for k in b if (k,) not in leave]
    return set(ka) == set(kb) and all(
        _same(a[k], b[k], [p[1:] for p in leave if p[0] == k and
                           len(p) > 1]) for k in ka)


def _linked(pth):
    """AuxVarObj is documented to set fEvalX and gEvalY."""
    return [('fEvalX',), ('gEvalY',)] if pth == ('AuxVarObj',) else []


def _suite(w, make, dflt, K):
    """The contract on an options class; make(d) builds an instance from a
    dict, dflt is its tree of defaults, K the module cdict."""
    base = make(None)
    ref = _copy(base)
    d0 = _copy(dflt)
    w.true('exactly the keys of the defaults', set(_leaves(base)) ==
           set(_leaves(dflt)) and set(_nodes(base)) == set(_nodes(dflt)))
    w.true('empty options are the defaults', _same(make({}), ref))
    n = 0
    for p in _leaves(ref):
        v = w.real('v%d' % n)
        n += 1
        skip = [p] + _linked(p)
        # at construction
        arg = _tree(p, v)
        o = make(arg)
        w.true('value given at construction', _get(o, p) is v)
        w.true('other options keep their defaults', _same(o, ref, skip))
        w.true('argument not modified', _get(arg, p) is v and
               _same(arg, _tree(p, v)))
        w.true('value read by path', o[p] is v)
        # of an instance
        q = make(o)
        if p in (('fEvalX',), ('gEvalY',)) and 'AuxVarObj' in ref:
            # AuxVarObj, copied as well, is documented to determine these
            pass
        else:
            w.true('options from options', _get(q, p) is v and
                   _same(q, ref, skip))
        # by path, by nesting, by update
        for how in range(3):
            o = make(None)
            if how == 0:
                o[p if len(p) > 1 else p[0]] = v
            elif how == 1:
                x = o
                for k in p[:-1]:
                    x = x[k]
                x[p[-1]] = v
            else:
                o.update(_tree(p, v))
            w.true('value set later', _get(o, p) is v)
            w.true('other options unchanged', _same(o, ref, skip))
            w.true('other instances unchanged', _same(base, ref) and
                   _same(make(None), ref))
    for p in _nodes(ref):
        bad = p + ('NoSuchOption',)
        w.raises('unknown key at construction', K.UnknownKeyError, make,
                 _tree(bad, 1))
        o = make(None)
        key = bad if len(bad) > 1 else bad[0]
        w.raises('unknown key set', K.UnknownKeyError, o.__setitem__, key, 1)
        w.raises('unknown dict set', K.UnknownKeyError, o.__setitem__, key,
                 {'a': 1})
        w.raises('unknown key in an update', K.UnknownKeyError, o.update,
                 _tree(bad, 1))
        w.raises('unknown key read', K.UnknownKeyError, o.__getitem__, key)
        w.true('nothing changed', _same(o, ref))
        if p:
            key = p if len(p) > 1 else p[0]
            w.raises('value in place of a group', K.InvalidValueError,
                     o.__setitem__, key, 1)
            w.raises('value in place of a group', K.InvalidValueError, make,
                     _tree(p, 1))
            o[key] = {}
            w.true('nothing changed', _same(o, ref))
            lv = [k for k in _leaves(_get(ref, p))]
            if len(lv) > 1:
                a, b = w.real('a'), w.real('b')
                o[key] = _tree(lv[0], a)
                o.update(_tree(p, _tree(lv[1], b)))
                w.true('groups merge', _get(o, p + lv[0]) is a and
                       _get(o, p + lv[1]) is b and
                       _same(o, ref, [p + lv[0], p + lv[1]]))
    w.true('class defaults not modified', _same(dflt, d0))


@contract('C05', [CD + 'ConstrainedDict.__init__', CD +
                  'ConstrainedDict.update', CD +
                  'ConstrainedDict.__setitem__', CD +
                  'ConstrainedDict.__getitem__', CD +
                  'ConstrainedDict.check', CD + 'ConstrainedDict.getparent',
                  CD + 'ConstrainedDict.getnode'], cases=CLS, trials=2)
def solver_options(w, case):
    """The option tree of every solver class: every node and every leaf."""
    m, c = case
    C = getattr(w.mod('sporco.' + m), c).Options
    _suite(w, lambda d: C() if d is None else C(d), C.defaults,
           w.mod('sporco.cdict'))


_TREES = [
    {'a': 0},
    {'a': None, 'b': 'x'},
    {'a': {'b': 0}},
    {'a': {'b': {'c': 0}}, 'b': 1},
    {'a': {'a': {'a': 0, 'b': None}}, 'b': {'a': 2}},
    {'a': {'b': {'c': {'d': True, 'e': 3}, 'f': 4}}, 'b': {'c': {'d': 5}}},
]


@contract('C05', [CD + 'ConstrainedDict.__init__', CD +
                  'ConstrainedDict.update', CD +
                  'ConstrainedDict.__setitem__', CD +
                  'ConstrainedDict.__getitem__', CD +
                  'ConstrainedDict.check', CD + 'ConstrainedDict.getparent',
                  CD + 'ConstrainedDict.getnode'],
          cases=list(range(len(_TREES))), trials=2)
def trees(w, i):
    """User-defined option trees up to depth four, and subclasses, which do
    not share their defaults."""
    K = w.mod('sporco.cdict')
    t = copy.deepcopy(_TREES[i])

    class Opt(K.ConstrainedDict):
        defaults = t

        def __init__(self, opt=None):
            K.ConstrainedDict.__init__(self, opt)

    class Other(Opt):
        defaults = {'z': 1}
    _suite(w, lambda d: Opt() if d is None else Opt(d), t, K)
    w.true('subclass', _same(Other(), {'z': 1}))
    w.raises('subclass does not know', K.UnknownKeyError, Other, {'a': 1})


@contract('C05', [CD + 'keycmp'], cases=list(range(len(_TREES))), trials=2)
def key_comparison(w, i):
    """keycmp accepts exactly the trees whose keys are known and which have
    groups where the reference has groups."""
    K = w.mod('sporco.cdict')
    a = copy.deepcopy(_TREES[i])
    K.keycmp(a, a)
    K.keycmp(a, {})
    for p in _leaves(a):
        K.keycmp(a, _tree(p, w.real('v')) if not isinstance(_get(a, p), dict)
                 else _tree(p, {}))
    for p in _nodes(a):
        w.raises('unknown key', K.UnknownKeyError, K.keycmp, a,
                 _tree(p + ('zz',), 1))
        if p:
            w.raises('value in place of a group', K.InvalidValueError,
                     K.keycmp, a, _tree(p, 1))
