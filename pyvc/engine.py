"""Path exploration and discharge of verification conditions with z3 (cvc5 as
second back end)."""
import itertools
import os
import subprocess
import tempfile
import time
import z3
from fractions import Fraction

from . import terms as T
from .terms import P, Poly, Cond, Atom, Unsupported, ATOMS


class PathEnd(Exception):
    """Stop exploring the current path (a cut loop body was checked, or the
    path condition is infeasible)."""


class Refuted(Exception):
    pass


class Obligation(object):
    def __init__(self, name, status, backend, secs, detail='', path=''):
        self.name = name
        self.status = status          # proved / refuted / unknown
        self.backend = backend
        self.secs = secs
        self.detail = detail
        self.path = path
        self.model = None

    def asdict(self):
        return dict(name=self.name, status=self.status, backend=self.backend,
                    secs=round(self.secs, 3), detail=self.detail[:2000],
                    path=self.path[:1000], model=self.model)


class Lower(object):
    """Lowering of terms to z3, collecting the facts each atom brings."""

    def __init__(self, eng):
        self.eng = eng
        self.m = {}
        self.cm = {}
        self.facts = []
        self.leaves = {}
        self.names = {}

    def _const(self, a, pfx):
        nm = '%s_%d' % (pfx, a.id)
        v = z3.Int(nm) if a.sort == 'I' else z3.Real(nm)
        self.names[nm] = a
        return v

    def num(self, c, isint):
        if isinstance(c, Fraction):
            return z3.RealVal('%d/%d' % (c.numerator, c.denominator))
        return z3.IntVal(c) if isint else z3.RealVal(c)

    def poly(self, p):
        isint = p.is_int()
        s = None
        for m, c in p.key:
            fs = []
            for i, e in m:
                z = self.atom(ATOMS[i])
                if not isint and z.is_int():
                    z = z3.ToReal(z)
                for _ in range(e):
                    fs.append(z)
            if not fs:
                t = self.num(c, isint)
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                if c != 1:
                    t = self.num(c, isint) * t
            s = t if s is None else s + t
        if s is None:
            return z3.IntVal(0) if isint else z3.RealVal(0)
        return s

    def real(self, p):
        z = self.poly(p)
        return z3.ToReal(z) if z.is_int() else z

    def cond(self, c):
        if c in self.cm:
            return self.cm[c]
        op = c.op
        if op == 'true':
            r = z3.BoolVal(True)
        elif op == 'false':
            r = z3.BoolVal(False)
        elif op == 'not':
            r = z3.Not(self.cond(c.args[0]))
        elif op == 'and':
            r = z3.And([self.cond(d) for d in c.args])
        elif op == 'le':
            r = self.poly(c.args[0]) <= 0
        elif op == 'eq':
            r = self.poly(c.args[0]) == 0
        elif op == 'b':
            r = z3.Bool('b!%s!%s' % (c.args[0], '_'.join(
                str(x.key) for x in c.args[1:])))
        else:
            raise Unsupported(op)
        self.cm[c] = r
        return r

    def atom(self, a):
        if a.id in self.m:
            return self.m[a.id]
        k = a.kind
        if k == 'var':
            r = self._const(a, 'v')
            self.m[a.id] = r
        elif k == 'leaf':
            r = self._const(a, 'l')
            self.m[a.id] = r
            nm = a.args[0]
            for b in self.leaves.setdefault(nm, []):
                eqs = []
                diff = False
                for x, y in zip(a.args[1], b.args[1]):
                    d = (x - y)
                    c = d.const()
                    if c is not None:
                        if c != 0:
                            diff = True
                            break
                    else:
                        eqs.append(self.poly(d) == 0)
                if not diff:
                    self.facts.append(z3.Implies(z3.And(eqs),
                                                 r == self.m[b.id]))
            self.leaves[nm].append(a)
            for f in self.eng.leaf_facts.get(nm, ()):
                self.facts.append(self.cond(f(a)))
        elif k == 'inv':
            r = self._const(a, 'i')
            self.m[a.id] = r
            p = self.real(a.args[0])
            self.facts.append(z3.Implies(p != 0, r * p == 1))
        elif k == 'sqrt':
            r = self._const(a, 's')
            self.m[a.id] = r
            p = self.real(a.args[0])
            self.facts.append(z3.Implies(p >= 0, z3.And(r >= 0, r * r == p)))
        elif k == 'abs':
            p = self.poly(a.args[0])
            r = z3.If(p >= 0, p, -p)
            self.m[a.id] = r
        elif k == 'ind':
            r = z3.If(self.cond(a.args[0]), z3.IntVal(1), z3.IntVal(0))
            self.m[a.id] = r
        elif k == 'idiv':
            r = self.poly(a.args[0]) / self.poly(a.args[1])
            self.m[a.id] = r
        elif k == 'imod':
            r = self.poly(a.args[0]) % self.poly(a.args[1])
            self.m[a.id] = r
        elif k == 'fn':
            r = self._const(a, 'f')
            self.m[a.id] = r
            # congruence
            nm = ('fn', a.args[0], len(a.args))
            for b in self.leaves.setdefault(nm, []):
                eqs = [self.poly(x - y) == 0
                       for x, y in zip(a.args[1:], b.args[1:])]
                self.facts.append(z3.Implies(z3.And(eqs),
                                             r == self.m[b.id]))
            self.leaves[nm].append(a)
            for f in self.eng.fn_facts.get(a.args[0], ()):
                self.facts.append(self.cond(f(a)))
        elif k == 'sum':
            r = self._const(a, 'S')
            self.m[a.id] = r
            if self.eng.sum_pos(a):
                self.facts.append(r > 0)
            elif self.eng.sum_nonneg(a):
                self.facts.append(r >= 0)
        elif k == 'red':
            r = self._const(a, 'R')
            self.m[a.id] = r
            for f in self.eng.red_facts(a):
                self.facts.append(self.cond(f))
        elif k == 'bv':
            r = z3.Int('bv_%s' % a.args[0].replace('#', 'c'))
            self.m[a.id] = r
        else:
            raise Unsupported('lowering of %s' % k)
        return self.m[a.id]


class Engine(object):
    cur = None

    def __init__(self, timeout_ms=8000, max_paths=400):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.assumptions = []      # Cond, per path
        self.axioms = []           # Cond, created on demand (global to path)
        self.leaf_facts = {}
        self.fn_facts = {}
        self.obls = []
        self.covers = {}
        self.forkelt = False
        self.bvrange = {}
        self.oracle = []
        self.trace = []
        self.guards = []
        self.divs = {}             # den Poly -> list of guard conds
        self.nonneg_polys = set()
        self.nonneg_sums = set()
        self.generic_idx = []
        self._redfacts = {}
        self.solver_time = 0.0
        self.nqueries = 0
        self.nsyn = 0
        self.paths = 0
        self.backends = {}
        self.path_note = ''
        self.trusted = set()
        self.hyps = []
        self.nnsums = []
        self.deadline = None
        self.eqmap = {}
        self.pos_dims = set()

    # ---- facts -----------------------------------------------------------
    def sum_nonneg(self, a):
        """A sum of a monomial with only even/nonneg factors is >= 0."""
        body = a.args[2]
        if self.is_nonneg(body):
            return True
        return a in self.nonneg_sums

    def is_nonneg(self, p):
        """Cheap syntactic sufficient condition for p >= 0."""
        if p in self.nonneg_polys:
            return True
        for m, c in p.t.items():
            if c < 0:
                return False
            for i, e in m:
                if e % 2 == 0:
                    continue
                a = ATOMS[i]
                if a.kind in ('abs', 'sqrt', 'ind'):
                    continue
                if a.kind == 'leaf' and a.args[0] in self.nonneg_leaves():
                    continue
                if a.kind == 'sum' and self.sum_nonneg(a):
                    continue
                if a.kind == 'inv' and self.is_nonneg(a.args[0]):
                    continue
                if a.kind == 'var' and a.args[0] in self.nonneg_vars:
                    continue
                return False
        return True

    def sum_pos(self, a):
        """A sum of positive terms over a range known to be nonempty."""
        rng, body = a.args[0], a.args[2]
        for lo, hi in rng:
            n = hi - lo
            c = n.const()
            if c is not None:
                if c < 1:
                    return False
            elif not all(cf > 0 and all(ATOMS[i] in self.pos_dims
                                        for i, e in m)
                         for m, cf in n.t.items()):
                return False
        return self.is_pos(body)

    def is_pos(self, p):
        """Syntactic sufficient condition for p > 0."""
        if not self.is_nonneg(p):
            return False
        for m, c in p.t.items():
            if c > 0 and all(
                    (ATOMS[i].kind == 'leaf' and
                     ATOMS[i].args[0] in self._pol) or
                    (ATOMS[i].kind == 'var' and
                     ATOMS[i].args[0] in self.pos_vars)
                    for i, e in m):
                return True
        return False

    _pol = frozenset()
    pos_vars = frozenset()
    nonneg_vars = frozenset()

    def nonneg_leaves(self):
        return getattr(self, '_nnl', ())

    def mark_nonneg(self, p):
        self.nonneg_polys.add(p)

    def red_facts(self, a):
        """max/min: an upper (lower) bound of the body at the generic indices
        in play, attained at a witness."""
        if a in self._redfacts:
            return self._redfacts[a]
        op, rng, bvs, body = a.args
        out = []
        self._redfacts[a] = out
        w = {}
        inr = []
        for b, (lo, hi) in zip(bvs, rng):
            x = T.var(T.fresh_name('wit'), 'I')
            w[b] = x
            inr.append(T.le0(lo - x))
            inr.append(T.lt0(x - hi))
        nonempty = T.c_and(*[T.lt0(lo - hi) for lo, hi in rng])
        att = T.eq0(T.subst(body, w) - P(a))
        out.append(T.c_implies(nonempty, T.c_and(att, *inr)))
        for gi in itertools.product(*[self.generic_cands(lo, hi)
                                      for lo, hi in rng]):
            mp = dict(zip(bvs, gi))
            cs = []
            for x, (lo, hi) in zip(gi, rng):
                cs.append(T.le0(lo - x))
                cs.append(T.lt0(x - hi))
            v = T.subst(body, mp)
            b = T.le0(v - P(a)) if op == 'max' else T.le0(P(a) - v)
            out.append(T.c_implies(T.c_and(*cs), b))
        return out

    def generic_cands(self, lo, hi):
        return [x for x, l, h in self.generic_idx if h is hi]

    # ---- equalities on the path -------------------------------------------
    def _learn(self, c):
        """Use n == const and (product of sizes) == 1 on the path as a
        rewriting of the goals."""
        if c.op == 'and':
            for d in c.args:
                self._learn(d)
            return
        if c.op not in ('eq', 'le'):
            return
        p = self.norm(c.args[0])
        if len(p.t) > 2:
            return
        k = p.t.get((), 0)
        ms = [(m, v) for m, v in p.t.items() if m]
        if len(ms) != 1:
            return
        (m, v), = ms
        at = [ATOMS[i] for i, _ in m]
        if not all(a.kind == 'var' and a.sort == 'I' for a in at):
            return
        new = {}
        pos = all(a in self.pos_dims for a in at)
        if pos and v == -k:
            for a in at:
                new[a] = T.ONE
        elif c.op == 'eq' and len(m) == 1 and m[0][1] == 1 and k % v == 0:
            new[at[0]] = P(-k // v)
        if new:
            for a in list(self.eqmap):
                self.eqmap[a] = T.subst(self.eqmap[a], new)
            self.eqmap.update(new)
            self._norm_memo = None

    def _nmap(self):
        mp = dict(self.eqmap)
        for g, lo, hi in self.generic_idx:
            h = T.subst(hi, self.eqmap)
            if h.const() == 1:
                a = g.single_atom()
                if a is not None:
                    mp[a] = T.ZERO
        return mp

    def norm(self, p):
        if not self.eqmap:
            return p
        return T.subst(p, self._nmap())

    def norm_cond(self, c):
        if not self.eqmap:
            return c
        return T.subst_cond(c, self._nmap())

    # ---- solving ---------------------------------------------------------
    def nnsum_facts(self):
        out = []
        for bvs, body, total in self.nnsums:
            for gi in itertools.product(*[self.generic_cands(lo, hi)
                                          for _, lo, hi in bvs]):
                cs = []
                for x, (_, lo, hi) in zip(gi, bvs):
                    cs.append(T.le0(lo - x))
                    cs.append(T.lt0(x - hi))
                v = T.subst(body, {b[0]: x for b, x in zip(bvs, gi)})
                out.append(T.c_implies(T.c_and(*cs), T.le0(v - total)))
        return out

    def _base(self, extra, full=True):
        low = Lower(self)
        hy = list(self.assumptions) + list(self.axioms) + self.nnsum_facts()
        ex = list(extra)
        if self.eqmap:
            mp = self._nmap()
            memo = {}
            hy = [T.subst_cond(c, mp, memo) for c in hy]
            ex = [T.subst_cond(c, mp, memo) for c in ex]
            for a, v in mp.items():
                hy.append(T.eq0(P(a) - v))
        if not full:
            hy = _relevant(hy, ex)
        cs = [low.cond(c) for c in hy]
        cs += [low.cond(c) for c in ex]
        return low, cs

    def check(self, extra, timeout=None, want_model=False):
        """z3 check of assumptions + axioms + extra.  Returns
        (status, backend, model, lower)."""
        t0 = time.time()
        timeout = timeout or self.timeout_ms
        if len(self.assumptions) + len(self.nnsums) > 6 and extra:
            low, cs = self._base(extra, False)
            s = z3.Solver()
            s.set('timeout', max(500, timeout // 4))
            s.add(cs + low.facts)
            self.nqueries += 1
            if s.check() == z3.unsat:
                self.solver_time += time.time() - t0
                self.backends['z3'] = self.backends.get('z3', 0) + 1
                return 'unsat', 'z3', None, low
        low, cs = self._base(extra)
        cs = cs + low.facts
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(cs)
        self.nqueries += 1
        r = s.check()
        be = 'z3'
        mdl = None
        if r == z3.sat:
            mdl = s.model()
        if r == z3.unknown:
            # nlsat on the purely real part / different strategy
            try:
                t = z3.TryFor(z3.Then('simplify', 'propagate-values',
                                      'purify-arith', 'qfnra'), timeout)
                s2 = t.solver()
                s2.add(cs)
                r2 = s2.check()
                if r2 != z3.unknown:
                    r = r2
                    be = 'z3:qfnra'
                    if r == z3.sat:
                        mdl = s2.model()
            except z3.Z3Exception:
                pass
        if r == z3.unknown:
            r2 = self._cvc5(s, timeout)
            if r2 == 'unsat':
                r = z3.unsat
                be = 'cvc5'
        self.solver_time += time.time() - t0
        self.backends[be] = self.backends.get(be, 0) + 1
        st = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
        return st, be, mdl, low

    def _cvc5(self, s, timeout):
        try:
            txt = '(set-logic ALL)\n' + s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2',
                                             delete=False) as f:
                f.write(txt)
            try:
                o = subprocess.run(
                    ['cvc5', '--nl-cov', '--tlimit=%d' % timeout, f.name],
                    capture_output=True, text=True,
                    timeout=timeout / 1000.0 + 5)
                return o.stdout.strip().split('\n')[0]
            finally:
                os.unlink(f.name)
        except Exception:
            return 'unknown'

    def feasible(self, c):
        if c.is_true():
            return True
        if c.is_false():
            return False
        if _intonly(c) and not self.eqmap:
            return self._intcheck(c) != 'unsat'
        st, _, _, _ = self.check([c], timeout=1500)
        return st != 'unsat'

    def _intcheck(self, c):
        """Check of a condition on dimensions and indices against the
        assumptions on dimensions and indices alone."""
        t0 = time.time()
        low = Lower(self)
        cs = [low.cond(x) for x in self.assumptions if _intonly(x)]
        cs.append(low.cond(c))
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(cs + low.facts)
        self.nqueries += 1
        r = s.check()
        self.solver_time += time.time() - t0
        self.backends['z3'] = self.backends.get('z3', 0) + 1
        return 'unsat' if r == z3.unsat else 'sat'

    def valid(self, c, timeout=None):
        """True if c is a consequence of the assumptions (quick)."""
        if c.is_true():
            return True
        if c.is_false():
            return False
        if _intonly(c) and not self.eqmap and \
                self._intcheck(T.c_not(c)) == 'unsat':
            return True
        st, _, _, _ = self.check([T.c_not(c)], timeout=timeout or 2000)
        return st == 'unsat'

    # ---- branching -------------------------------------------------------
    def decide(self, c, note=''):
        if c.is_true():
            return True
        if c.is_false():
            return False
        k = len(self.trace)
        if k < len(self.oracle):
            d = self.oracle[k]
        else:
            ft = self.feasible(c)
            ff = self.feasible(T.c_not(c))
            if ft and ff:
                d = True
                self.trace.append((c, True, True))
                self.assume(c)
                return True
            if not ft and not ff:
                raise PathEnd('infeasible')
            self.trace.append((c, ft, False))
            return ft
        self.trace.append((c, d[0], d[1]))
        if d[1] or True:
            self.assume(c if d[0] else T.c_not(c))
        return d[0]

    def assume(self, c):
        if c.is_true():
            return
        self._learn(c)
        self.assumptions.append(c)
        if c.is_false():
            raise PathEnd('infeasible')

    def explore(self, run):
        """Run the callable once per feasible path."""
        oracle = []
        while True:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exhausted while exploring '
                                  'paths')
            self.oracle = oracle
            self.trace = []
            self.assumptions = []
            self.axioms = []
            self.guards = []
            self.divs = {}
            self.leaf_facts = {}
            self.nonneg_polys = set()
            self.nonneg_sums = set()
            self._nnl = set()
            self._pol = set()
            self.pos_vars = set()
            self.nonneg_vars = set()
            self.generic_idx = []
            self._redfacts = {}
            self.hyps = []
            self.nonzero_ok = False
            T.ORTHO.clear()
            self.nnsums = []
            self.eqmap = {}
            self.pos_dims = set()
            self._norm_memo = None
            self.gcache = {}
            self._litmemo = {}
            self._lememo = {}
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('more than %d paths' % self.max_paths)
            Engine.cur = self
            try:
                run()
            except PathEnd:
                pass
            # next oracle: flip the last two-sided True decision
            tr = self.trace
            while tr and not (tr[-1][2] and tr[-1][1]):
                tr.pop()
            if not tr:
                return
            c, d, two = tr.pop()
            oracle = [(x[1], x[2]) for x in tr] + [(False, True)]

    # ---- obligations -----------------------------------------------------
    def pathstr(self):
        return ' ; '.join(('' if d else 'not ') + T.show_cond(c)[:120]
                          for c, d, two in self.trace if two)

    def record(self, name, status, be, secs, detail=''):
        o = Obligation(name, status, be, secs, detail, self.pathstr())
        if status == 'refuted':
            o.model = self._last_model
            if o.model is None:
                try:
                    st, be2, mdl, low = self.check([], timeout=3000)
                    if st == 'sat':
                        self._model_str(mdl, low)
                        o.model = self._last_model
                except Exception:
                    pass
        self._last_model = None
        self.obls.append(o)

    def prove(self, name, c, extra=()):
        """Record the obligation that condition c holds here."""
        t0 = time.time()
        c = self.norm_cond(c)
        if c.is_true():
            self.nsyn += 1
            self.record(name, 'proved', 'normal-form', time.time() - t0)
            return True
        g = list(extra)
        st, be, mdl, low = self.check(g + [T.c_not(c)])
        if st == 'unsat':
            self.record(name, 'proved', be, time.time() - t0)
            return True
        det = 'goal: ' + T.show_cond(c)[:600]
        if st == 'sat':
            det += '\nmodel: ' + self._model_str(mdl, low)
            self.record(name, 'refuted', be, time.time() - t0, det)
        else:
            self.record(name, 'unknown', be, time.time() - t0, det)
        return False

    _last_model = None

    def _model_str(self, mdl, low):
        out = []
        try:
            self._last_model = _model_hints(mdl, low)
        except Exception:
            self._last_model = None
        for d in mdl.decls()[:60]:
            a = low.names.get(d.name())
            out.append('%s=%s' % (T.show_atom(a)[:60] if a else d.name(),
                                  mdl[d]))
        return ', '.join(out)

    def prove_zero(self, name, p, extra=()):
        """Record the obligation p == 0."""
        t0 = time.time()
        try:
            p = self.norm(p)
            r, why = self._zero(p, list(extra), 0)
            if not r:
                q = self.split_sums(p)
                if q is not p:
                    r2, why2 = self._zero(q, list(extra), 0)
                    if r2:
                        r, why = r2, 'range+' + why2
                        p = q
        except RecursionError:
            r, why = None, 'recursion limit'
        if r:
            self.record(name, 'proved', why, time.time() - t0)
            return True
        det = 'goal: %s == 0' % T.show(p)[:600]
        if r is False:
            self.record(name, 'refuted', 'z3', time.time() - t0,
                        det + '\n' + why)
        else:
            self.record(name, 'unknown', 'z3', time.time() - t0,
                        det + '\n' + why)
        return False

    def _zero(self, p, extra, depth):
        if not p.t:
            self.nsyn += 1
            return True, 'normal-form'
        # case split on indicator and abs literals
        lit = _first_literal(p)
        if lit is not None and (depth < 14 or 30 <= depth < 38):
            used = 'normal-form+split'
            for val in (True, False):
                c = lit if val else T.c_not(lit)
                st, _, _, _ = self.check(extra + [c], timeout=1500)
                if st == 'unsat':
                    continue
                q = _assign(p, lit, val)
                r, why = self._zero(q, extra + [c], depth + 1)
                if not r:
                    return r, why
                if why.startswith('z3') or why.startswith('cvc5'):
                    used = why
            return True, used
        q = self._clear(p, extra)
        if q is not None and not q.t:
            self.nsyn += 1
            return True, 'normal-form'
        if self.hyps:
            r = self._hyp(p if q is None else q, extra, 0)
            if r:
                return True, 'normal-form+hypothesis'
        goal = T.eq0(p if q is None else q)
        st, be, mdl, low = self.check(extra + [T.c_not(goal)])
        if st == 'unsat':
            return True, be
        if depth < 40:
            g = p if q is None else q
            r = self._pointwise(g, extra, depth)
            if r:
                return True, 'pointwise+' + r
            for h in self._sum_eqs(g):
                r = self._pointwise(h, extra, depth)
                if r:
                    return True, 'pointwise+' + r
            g1 = self._partial(g, extra)
            if g1 is not None:
                if not g1.t:
                    return True, 'normal-form+cancellation'
                r, why = self._zero(g1, extra, 40)
                if r:
                    return True, 'cancellation+' + why
            g2 = self._merge_roots(g, extra, depth)
            if g2 is not None and g2 is not g:
                r, why = self._zero(g2, extra, 40)
                if r:
                    return True, 'congruence+' + why
        if st == 'sat':
            return False, 'model: ' + self._model_str(mdl, low)
        return None, 'solver: unknown'

    def _sum_eqs(self, p):
        """p plus multiples of assumed equalities that involve sums."""
        for c in self.assumptions:
            if c.op != 'eq':
                continue
            h = self.norm(c.args[0])
            if not _has_sum(h):
                continue
            ks = set()
            for m, v in h.t.items():
                if m in p.t:
                    ks.add(Fraction(p.t[m]) / Fraction(v))
            for k in ks:
                yield p - h * P(k)

    def _partial(self, p, extra):
        """Cancel lead(d) * 1/d -> 1 - (d - lead(d))/d, also inside sums,
        for divisors d that are nonzero for every index."""
        out = T.ZERO
        ch = False
        for m, c in p.t.items():
            if not any(ATOMS[i].kind == 'sum' for i, e in m):
                out = out + T._mkpoly({m: c})
                continue
            ii = [i for i, e in m if ATOMS[i].kind == 'sum' and e == 1]
            q = P(c)
            k = ii[0] if len(ii) == 1 else None
            for i, e in m:
                if i != k:
                    q = q * P(ATOMS[i]) ** e
            if k is not None:
                rng, bvs, body = ATOMS[k].args
                g = {}
                cs = []
                for b, (lo, hi) in zip(bvs, rng):
                    x = T.var(T.fresh_name('p'), 'I')
                    g[b] = x
                    cs += [T.le0(lo - x), T.lt0(x - hi)]
                b1 = T.subst(body, g) * q
                b2 = self._cancel_inv(b1, extra + cs)
                if b2 is not None:
                    ch = True
                    back = {}
                    bb = []
                    for b, (lo, hi) in zip(bvs, rng):
                        f = T.bvar()
                        back[g[b].single_atom()] = P(f)
                        bb.append((f, lo, hi))
                    q = T.big_sum(bb, T.subst(b2, back))
                else:
                    q = q * P(ATOMS[k])
            out = out + q
        return out if ch else None

    def _cancel_inv(self, p, extra):
        ch = False
        memo = {}
        for _ in range(40):
            hit = None
            for m, c in p.t.items():
                d = dict(m)
                for i, e in m:
                    a = ATOMS[i]
                    if a.kind != 'inv':
                        continue
                    den = a.args[0]
                    lead, lc = None, None
                    for mm, cc in den.key:
                        if mm:
                            lead, lc = mm, cc
                    if lead is None or any(d.get(j, 0) < k for j, k in lead):
                        continue
                    if a not in memo:
                        memo[a] = self.nonzero_ok or self.check(
                            extra + [T.eq0(den)], timeout=3000)[0] == 'unsat'
                    if memo[a]:
                        hit = (m, c, a, den, lead, lc)
                        break
                if hit:
                    break
            if not hit:
                break
            m, c, a, den, lead, lc = hit
            d = dict(m)
            for j, k in lead:
                d[j] -= k
            d[a.id] -= 1
            rest = T._mkpoly({tuple(sorted((i, e) for i, e in d.items()
                                           if e)): Fraction(c) / lc})
            low = den - T._mkpoly({lead: lc})
            p = p - T._mkpoly({m: c}) + rest * (T.ONE - low * P(a))
            ch = True
        return p if ch else None

    def _pointwise(self, p, extra, depth):
        """sum_i c_i * Sum(body_i) == 0 because sum_i c_i * body_i == 0 at
        every index (all sums over the same ranges)."""
        rng = None
        parts = []
        flat = []
        for m, c in p.t.items():
            sm = None
            rest = []
            for i, e in m:
                a = ATOMS[i]
                if a.kind == 'sum' and sm is None and e == 1:
                    sm = a
                else:
                    rest.append((i, e))
            if sm is None:
                flat.append((m, c))
                continue
            if rng is None:
                rng = sm.args[0]
            elif rng != sm.args[0]:
                return None
            parts.append((sm, T._mkpoly({tuple(rest): c})))
        if rng is None:
            return None
        # closed terms that are multiples of the number of indices
        cnt = T.ONE
        for lo, hi in rng:
            cnt = cnt * (hi - lo)
        if flat and len(cnt.t) != 1:
            return None
        closed = T.ZERO
        if flat:
            (cm, cc), = cnt.t.items()
        for m, c in flat:
            d = dict(m)
            for i, e in cm:
                d[i] = d.get(i, 0) - e
                if d[i] < 0:
                    return None
            closed = closed + T._mkpoly(
                {tuple(sorted((i, e) for i, e in d.items() if e)):
                 Fraction(c) / cc})
        gs = []
        cs = []
        n0 = len(self.generic_idx)
        for lo, hi in rng:
            g = T.var(T.fresh_name('p'), 'I')
            cs += [T.le0(lo - g), T.lt0(g - hi)]
            self.generic_idx.append((g, lo, hi))
            gs.append(g)
        b = closed
        for sm, co in parts:
            b = b + co * T.subst(sm.args[2], dict(zip(sm.args[1], gs)))
        try:
            r, why = self._zero(b, extra + cs, max(depth, 30))
        finally:
            del self.generic_idx[n0:]
        return why if r else None

    def _merge_roots(self, p, extra, depth):
        """Identify square roots / inverses of provably equal terms."""
        ats = [a for a in _all_atoms(p) if a.kind in ('sqrt', 'inv') and
               not a.fv]
        mp = {}
        n = 0
        for i, a in enumerate(ats):
            for b in ats[:i]:
                if a.kind != b.kind or a in mp or b in mp or n > 12:
                    continue
                if not _has_sum(a.args[0]) or not _has_sum(b.args[0]):
                    continue
                n += 1
                r, why = self._zero(a.args[0] - b.args[0], extra,
                                    max(depth, 30))
                if r:
                    mp[a] = P(b)
        return T.subst(p, mp) if mp else None

    # ---- linear hypotheses (contracts of callees: residual(idx) == 0) -------
    def _hyp(self, p, extra, depth, seen=None):
        """p == 0 by adding multiples of hypothesis residuals."""
        if not p.t:
            return True
        if seen is None:
            seen = set()
        if depth > 3 or p in seen:
            return False
        seen.add(p)
        for h in self.hyps:
            nm = h['name']
            occ = _leaf_occ(p, nm)
            if not occ:
                continue
            # (1) direct: subtract multiplier * residual at an index for
            # which the leading terms agree
            for idx in self._hyp_idx(h, p):
                for r in h['resid'](idx):
                    r = self.simp_lits(r)
                    if not r.t:
                        continue
                    for q in _cancel(p, r, nm):
                        if len(q.t) > len(p.t) + 2 * len(r.t):
                            continue
                        if self._hyp_try(q, extra, depth, seen):
                            return True
            # (2) solve the residual for the element and rewrite some of
            # the monomials
            ms = [m for m in p.t if _mono_occ(m, nm)]
            if len(ms) <= 6:
                for n in range(1, len(ms) + 1):
                    for sub in itertools.combinations(ms, n):
                        q = T.ZERO
                        ok = True
                        for m, c in p.t.items():
                            mp = T._mkpoly({m: c})
                            if m in sub:
                                mp = _rewrite(mp, h)
                                if mp is None:
                                    ok = False
                                    break
                            q = q + mp
                        if ok and q is not p:
                            q2 = self._clear(q, extra)
                            if q2 is not None:
                                q = q2
                            if not q.t:
                                return True
        return False

    def _hyp_try(self, q, extra, depth, seen):
        if not q.t:
            return True
        q2 = self._clear(q, extra)
        if q2 is not None:
            q = q2
        return self._hyp(q, extra, depth + 1, seen)

    def split_sums(self, p):
        """Restrict the ranges of sums by their indicator literals and shift
        them to a zero base."""
        for _ in range(4):
            mp = {}
            for a in _all_atoms(p):
                if a.kind == 'sum' and not a.fv:
                    q = self._split_sum(a)
                    if q is not None:
                        mp[a] = q
            if not mp:
                break
            p = T.subst(p, mp)
        return self.simp_lits(p)

    def _split_sum(self, a):
        rng, bvs, body = a.args
        if len(body.t) != 1:
            return None
        (m, c), = body.t.items()
        lo = {b: r[0] for b, r in zip(bvs, rng)}
        hi = {b: r[1] for b, r in zip(bvs, rng)}
        rest = P(c)
        ch = False

        def le(x, y):
            d = (x - y).const()
            if d is not None:
                return d <= 0
            k = T.le0(x - y)
            if k not in self._lememo:
                self._lememo[k] = self.valid(k, 500)
            return self._lememo[k]

        for i, e in m:
            x = ATOMS[i]
            done = False
            if x.kind == 'ind' and x.args[0].op in ('le', 'eq'):
                q = x.args[0].args[0]
                bs = [b for b in bvs if b in q.fv]
                if len(bs) == 1:
                    b = bs[0]
                    co = q.t.get(((b.id, 1),), 0)
                    r = q - P(co) * P(b) if co in (1, -1) else None
                    if r is not None and b not in r.fv and \
                            x.args[0].op == 'le':
                        if co == 1:        # b <= -r
                            h = T.ONE - r
                            if le(h, lo[b]):
                                return T.ZERO
                            if le(hi[b], h):
                                done = True
                            elif le(h, hi[b]) and le(lo[b], h):
                                hi[b] = h
                                done = True
                        else:              # b >= r
                            if le(hi[b], r):
                                return T.ZERO
                            if le(r, lo[b]):
                                done = True
                            elif le(lo[b], r) and le(r, hi[b]):
                                lo[b] = r
                                done = True
            if done:
                ch = True
            else:
                rest = rest * P(x) ** e
        if any(lo[b].t for b in bvs):
            ch = True
        if not ch:
            return self._split_nested(bvs, lo, hi, body, le)
        nb, mp = [], {}
        for b in bvs:
            f = T.bvar()
            mp[b] = P(f) + lo[b]
            nb.append((f, T.ZERO, hi[b] - lo[b]))
        return T.big_sum(nb, T.subst(rest, mp))

    def _split_nested(self, bvs, lo, hi, body, le):
        """Split the range of a sum at the threshold of an indicator inside
        the summand."""
        for x in _all_atoms(body):
            if x.kind != 'ind' or x.args[0].op != 'le':
                continue
            q = x.args[0].args[0]
            bs = [b for b in bvs if b in q.fv]
            if len(bs) != 1:
                continue
            b = bs[0]
            co = q.t.get(((b.id, 1),), 0)
            if co not in (1, -1):
                continue
            r = q - P(co) * P(b)
            if b in r.fv:
                continue
            h = T.ONE - r if co == 1 else r
            low, high = (T.ONE, T.ZERO) if co == 1 else (T.ZERO, T.ONE)
            if le(h, lo[b]):
                parts = [(lo[b], hi[b], high)]
            elif le(hi[b], h):
                parts = [(lo[b], hi[b], low)]
            elif le(lo[b], h) and le(h, hi[b]):
                parts = [(lo[b], h, low), (h, hi[b], high)]
            else:
                continue
            out = []
            for l, u, v in parts:
                bd = T.subst(body, {x: v})
                nb, mp = [], {}
                for y in bvs:
                    f = T.bvar()
                    ly = l if y is b else lo[y]
                    uy = u if y is b else hi[y]
                    mp[y] = P(f) + ly
                    nb.append((f, T.ZERO, uy - ly))
                out.append(T.big_sum(nb, T.subst(bd, mp)))
            return T.addall(out)
        return None

    def simp_lits(self, p):
        """Replace closed indicator literals decided by the assumptions."""
        mp = {}
        for a in _all_atoms(p):
            if a.kind == 'ind' and not a.fv:
                c = a.args[0]
                if c not in self._litmemo:
                    v = None
                    if self.valid(c, 500):
                        v = T.ONE
                    elif self.valid(T.c_not(c), 500):
                        v = T.ZERO
                    self._litmemo[c] = v
                if self._litmemo[c] is not None:
                    mp[a] = self._litmemo[c]
        return T.subst(p, mp) if mp else p

    def _hyp_idx(self, h, p):
        """Candidate index tuples for a residual: generic indices."""
        cands = []
        for f in h['axes']:
            for d in f:
                cs = [x for x, l, hi in self.generic_idx if hi is d]
                cs = cs[-4:]
                if d.const() is not None and d.const() <= 4:
                    cs = cs + [P(k) for k in range(int(d.const()))]
                cands.append(cs)
        n = 1
        for c in cands:
            n *= len(c)
        if n > 64:
            return
        for flat in itertools.product(*cands):
            k = 0
            idx = []
            for f in h['axes']:
                idx.append(tuple(flat[k:k + len(f)]))
                k += len(f)
            yield tuple(idx)

    def _clear(self, p, extra):
        """Clear denominators that are provably nonzero; None if none."""
        changed = False
        for _ in range(12):
            invs = [ATOMS[i] for i in p.atoms() if ATOMS[i].kind == 'inv']
            if not invs:
                break
            # outermost first: an inv atom not occurring inside another one
            a = None
            for x in invs:
                if not any(y is not x and _occurs(x, y) for y in invs):
                    a = x
                    break
            if a is None:
                a = invs[0]
            den = a.args[0]
            nz = T.c_not(T.eq0(den))
            if not self.nonzero_ok:
                st, _, _, _ = self.check(extra + [T.eq0(den)], timeout=4000)
                if st != 'unsat':
                    break
            deg = 0
            for m in p.t:
                for i, e in m:
                    if i == a.id:
                        deg = max(deg, e)
            q = T.ZERO
            for m, c in p.t.items():
                e0 = 0
                rest = []
                for i, e in m:
                    if i == a.id:
                        e0 = e
                    else:
                        rest.append((i, e))
                q = q + T._mkpoly({tuple(rest): c}) * den ** (deg - e0)
            p = q
            changed = True
        return p if changed else None


def _zval(v):
    if v is None:
        return None
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.numerator_as_long()) / float(v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(12)
        return float(a.numerator_as_long()) / float(a.denominator_as_long())
    return None


def _model_hints(mdl, low):
    """Values of the symbolic inputs in a counterexample: scalars by name,
    array elements by name and index."""
    vs = {}
    lv = {}
    for aid, z in list(low.m.items()):
        a = ATOMS[aid]
        if a.kind == 'var':
            x = _zval(mdl.eval(z))
            if x is not None:
                vs[a.args[0]] = x
        elif a.kind == 'leaf':
            x = _zval(mdl.eval(z))
            ix = [_zval(mdl.eval(low.poly(p), model_completion=True))
                  for p in a.args[1]]
            if x is not None and all(isinstance(i, int) for i in ix):
                lv.setdefault(a.args[0], []).append([ix, x])
    return dict(vars=vs, leaves=lv)


def _has_sum(p):
    return any(a.kind == 'sum' for a in _all_atoms(p))


def _atomset(x):
    if isinstance(x, Poly):
        p = [x]
    else:
        p = [y for y in T._children(x.args)]
    out = set()
    for q in p:
        if isinstance(q, Poly):
            for a in _all_atoms(q):
                if a.kind in ('var', 'leaf', 'sum', 'red', 'fn'):
                    out.add(a.id)
        else:
            out |= _atomset(q)
    return out


_ASET = {}


def _aset(c):
    r = _ASET.get(id(c))
    if r is None or r[0] is not c:
        r = (c, _atomset(c))
        _ASET[id(c)] = r
    return r[1]


def _relevant(hy, ex):
    """The hypotheses connected to the goal through shared atoms."""
    live = set()
    for c in ex:
        live |= _aset(c)
    rest = [(c, _aset(c)) for c in hy]
    out = []
    for _ in range(3):
        nxt = []
        add = set()
        for c, s in rest:
            if s & live or not s:
                out.append(c)
                add |= s
            else:
                nxt.append((c, s))
        rest = nxt
        if not add - live:
            break
        live |= add
    return out


def _occurs(x, y):
    """Does atom x occur inside atom y (strictly)?"""
    seen = set()
    st = list(T._children(y.args))
    while st:
        c = st.pop()
        if id(c) in seen:
            continue
        seen.add(id(c))
        if isinstance(c, Poly):
            for i in c.atoms():
                if ATOMS[i] is x:
                    return True
                st.extend(T._children(ATOMS[i].args))
        else:
            st.extend(T._children(c.args))
    return False


def _first_literal(p):
    """An indicator/abs literal (without bound variables) to split on."""
    seen = set()
    st = [p]
    best = None
    while st:
        c = st.pop()
        if id(c) in seen:
            continue
        seen.add(id(c))
        if isinstance(c, Poly):
            for i in sorted(c.atoms()):
                a = ATOMS[i]
                if a.kind == 'ind' and not a.args[0].fv:
                    inner = None
                    for x in T._children(a.args[0].args):
                        inner = inner or _first_literal(x) if isinstance(
                            x, Poly) else inner
                    return inner if inner is not None else a.args[0]
                if a.kind == 'abs' and not a.fv:
                    inner = _first_literal(a.args[0])
                    return inner if inner is not None else T.le0(
                        -a.args[0]) if T.le0(-a.args[0]).op != 'not' else \
                        T.le0(-a.args[0]).args[0]
                if a.kind in ('sum', 'red'):
                    continue
                st.extend(T._children(a.args))
        else:
            st.extend(T._children(c.args))
    return best


def _assign(p, lit, val):
    """Replace the literal by a truth value everywhere in p (outside sums it
    is exact; inside sums only closed occurrences are replaced)."""
    mp = {}
    for a in _all_atoms(p):
        if a.kind == 'ind' and a.args[0] is lit:
            mp[a] = T.ONE if val else T.ZERO
        elif a.kind == 'abs':
            l = T.le0(-a.args[0])
            if l is lit:
                mp[a] = a.args[0] if val else -a.args[0]
            elif l.op == 'not' and l.args[0] is lit:
                mp[a] = -a.args[0] if val else a.args[0]
    return T.subst(p, mp)


def _all_atoms(p):
    seen = set()
    out = []
    st = [p]
    while st:
        c = st.pop()
        if id(c) in seen:
            continue
        seen.add(id(c))
        if isinstance(c, Poly):
            for i in c.atoms():
                a = ATOMS[i]
                if ('a', a.id) not in seen:
                    seen.add(('a', a.id))
                    out.append(a)
                    st.extend(T._children(a.args))
        else:
            st.extend(T._children(c.args))
    return out


def _leaf_occ(p, nm):
    for a in _all_atoms(p):
        if a.kind == 'leaf' and a.args[0].split('.')[0] == nm:
            return True
    return False


def _mono_occ(m, nm):
    return _leaf_occ(T._mkpoly({m: 1}), nm)


def _cancel(p, r, nm):
    """Candidates p - c*r where a monomial of c*r cancels one of p; the
    multiplier c is a monomial."""
    out = []
    done = set()
    for m1, c1 in p.t.items():
        if not _mono_occ(m1, nm):
            continue
        d1 = dict(m1)
        for m2, c2 in r.t.items():
            if not _mono_occ(m2, nm):
                continue
            d = dict(d1)
            ok = True
            for i, e in m2:
                if d.get(i, 0) < e:
                    ok = False
                    break
                d[i] -= e
                if not d[i]:
                    del d[i]
            if ok:
                mult = T._mkpoly({tuple(sorted(d.items())):
                                  Fraction(c1) / Fraction(c2)})
                if mult in done:
                    continue
                done.add(mult)
                out.append(p - mult * r)
    out.sort(key=lambda q: len(q.t))
    return out


def _rewrite(mp, h):
    """Rewrite elements of the hypothesis' unknown in the monomial mp by
    solving the residual for the element (which must occur linearly and
    directly in its own residual)."""
    (m, c), = mp.t.items()
    nm = h['name']
    out = P(c)
    for i, e in m:
        a = ATOMS[i]
        if not _leaf_occ(P(a), nm):
            out = out * P(a) ** e
            continue
        if e != 1:
            return None
        if a.kind == 'leaf':
            r = _solve_leaf(a, h)
            if r is None:
                return None
            out = out * r
        elif a.kind == 'sum':
            rng, bvs, body = a.args
            e = Engine.cur
            fr = [T.var(T.fresh_name('p'), 'I') for _ in bvs]
            n0 = len(e.assumptions)
            for f, (lo, hi) in zip(fr, rng):
                e.assumptions += [T.le0(lo - f), T.lt0(f - hi)]
            try:
                b2 = T.subst(body, dict(zip(bvs, fr)))
                mpn = {}
                for at in _all_atoms(b2):
                    if at.kind == 'leaf' and at.args[0].split('.')[0] == nm:
                        r = _solve_leaf(at, h)
                        if r is None:
                            return None
                        mpn[at] = r
                b3 = T.subst(b2, mpn)
            finally:
                del e.assumptions[n0:]
            bb = [T.bvar() for _ in bvs]
            b3 = T.subst(b3, {f.single_atom(): P(b)
                              for f, b in zip(fr, bb)})
            out = out * T.big_sum([(f, lo, hi) for f, (lo, hi) in
                                   zip(bb, rng)], b3)
        else:
            return None
    return out


def _solve_leaf(a, h):
    flat = list(a.args[1])
    idx = []
    k = 0
    for f in h['axes']:
        idx.append(tuple(flat[k:k + len(f)]))
        k += len(f)
    for r in h['resid'](tuple(idx)):
        r = Engine.cur.simp_lits(r)
        co = T.ZERO
        rest = T.ZERO
        for m, c in r.t.items():
            d = dict(m)
            if d.get(a.id, 0) == 1:
                del d[a.id]
                co = co + T._mkpoly({tuple(sorted(d.items())): c})
            else:
                rest = rest + T._mkpoly({m: c})
        if co.t and not _leaf_occ(co, h['name']):
            return -rest * T.inv(co)
    return None


_INTMEMO = {}


def _intonly(c):
    """The condition mentions only integer variables, integer quotients and
    remainders."""
    k = id(c)
    h = _INTMEMO.get(k)
    if h is not None and h[0] is c:
        return h[1]
    r = True
    if c.op in ('le', 'eq'):
        if any(len(m) > 1 or m and m[0][1] > 1 for m in c.args[0].t):
            r = False
        for i in c.args[0].atoms():
            a = ATOMS[i]
            if a.sort != 'I' or a.kind in ('sum', 'leaf', 'ind'):
                r = False
                break
            if a.kind not in ('var', 'bv') and any(
                    not _intpoly(x) for x in T._children(a.args)):
                r = False
                break
    elif c.op in ('and', 'not'):
        r = all(_intonly(x) for x in c.args)
    elif c.op not in ('true', 'false'):
        r = False
    _INTMEMO[k] = (c, r)
    return r


def _intpoly(x):
    return isinstance(x, T.Poly) and all(
        ATOMS[i].sort == 'I' and ATOMS[i].kind in ('var', 'bv')
        for i in x.atoms())
