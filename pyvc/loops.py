"""Loop cutting.

A loop of a function that has a registered invariant is verified for an
arbitrary iteration: the invariant is proved on entry, the variables the loop
assigns and the state named in `modifies` are given arbitrary values, the
invariant is assumed, the body is executed once and the invariant is proved
again; the code after the loop runs from the invariant plus the negated loop
condition (or from the state at a `break`)."""
import ast
import sys

from . import terms as T
from .terms import P, Unsupported
from .sval import SV, to_sv, simp, eng
from .engine import PathEnd


class SymRange(object):
    """range() with symbolic bounds (step 1)."""

    def __init__(self, *a):
        if len(a) == 1:
            a = (0,) + a
        if len(a) == 3:
            if simp(a[2]) != 1:
                raise Unsupported('symbolic range with a step')
            a = a[:2]
        self.lo = to_sv(a[0]).poly()
        self.hi = to_sv(a[1]).poly()

    def __len__(self):
        raise Unsupported('len of a symbolic range')

    def __iter__(self):
        # empty or singleton ranges may still be concrete on this path
        d = (self.hi - self.lo).const()
        if d is not None:
            return iter([simp(SV('i', self.lo + k))
                         for k in range(max(0, int(d)))])
        raise Unsupported('iteration over a symbolic range without an '
                          'invariant')


class Spec(object):
    """Invariant of one loop.

    havoc(env)   -> dict of new values for locals the loop assigns; may also
                    give the object state named in modifies arbitrary values
    inv(env)     -> list of (name, SV bool / Cond / callable) conditions
    """

    def __init__(self, name, inv, havoc, frame=None, post_iter=None,
                 on_enter=None):
        self.name = name
        self.inv = inv
        self.havoc = havoc
        self.frame = frame
        self.post_iter = post_iter
        self.on_enter = on_enter


class _Runtime(object):
    def __init__(self):
        self.specs = {}

    def spec(self, lid):
        return self.specs.get(lid)

    def enter(self, lid, loc, it):
        """Called before the loop; returns a loop handle."""
        sp = self._match(lid, loc)
        if sp is None:
            return None
        return _Loop(sp, lid, loc, it)

    def _match(self, lid, loc):
        sps = self.specs.get(lid.rsplit('#', 1)[0])
        if not sps:
            return None
        n = int(lid.rsplit('#', 1)[1])
        if callable(sps):
            return sps(n, loc)
        if isinstance(sps, dict):
            return sps.get(n)
        return sps

    def havoc(self, h, names, loc):
        if h is None:
            return tuple(loc.get(n, UNBOUND) for n in names)
        return h.do_havoc(names, loc)

    def iterate(self, h, it):
        if h is None:
            return it
        return h.iterate(it)

    def iterate_while(self, h, cond):
        if h is None:
            return _while(cond)
        return h.iterate_while(cond)


def _while(cond):
    n = 0
    while cond():
        n += 1
        if n > 200:
            raise Unsupported('loop without invariant runs more than 200 '
                              'iterations')
        yield None


class _Unbound(object):
    """Value of a local that a cut loop carries from one iteration to the
    next and that the invariant does not describe."""

    def __repr__(self):
        return '<unbound>'

    def _bad(self, *a, **k):
        raise Unsupported('loop-carried local variable not described by '
                          'the invariant')
    for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv mod pow '
               'lt le gt ge eq ne bool len iter getitem setitem call neg abs '
               'iadd isub imul itruediv index int float contains and or '
               'invert enter hash').split():
        locals()['__%s__' % _n] = _bad
    del _n

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        self._bad()


UNBOUND = _Unbound()


class _Loop(object):
    def __init__(self, sp, lid, loc, it):
        self.sp = sp
        self.lid = lid
        self.it = it
        self.t = None
        env = dict(loc)
        self.entry = env
        self.state = {}
        if isinstance(it, SymRange):
            self.lo, self.hi = it.lo, it.hi
        elif isinstance(it, range):
            self.lo, self.hi = P(it.start), P(max(it.stop, it.start))
            if it.step != 1:
                raise Unsupported('range step')
        else:
            self.lo = self.hi = None
        if sp.on_enter:
            sp.on_enter(self, env)
        self._prove(env, T.ZERO, 'entry')

    def _prove(self, env, t, when):
        for nm, c in self.sp.inv(self, env, SV('i', t)):
            if callable(c):
                c('%s: %s (%s)' % (self.lid, nm, when))
                continue
            c = to_sv(c).cond()
            eng().prove('%s: invariant "%s" on %s' % (self.lid, nm, when), c)

    def do_havoc(self, names, loc):
        e = eng()
        self.t = T.var(T.fresh_name('iter'), 'I')
        e.assume(T.le0(-self.t))
        env = dict(loc)
        new = self.sp.havoc(self, env, SV('i', self.t)) or {}
        for n in names:
            if n in new:
                env[n] = new[n]
        self.env = env
        out = []
        for n in names:
            if n in new:
                out.append(new[n])
            else:
                out.append(UNBOUND)
        for nm, c in self.sp.inv(self, env, SV('i', self.t), ):
            if callable(c):
                continue
            e.assume(to_sv(c).cond())
        return tuple(out)

    def iterate(self, it):
        e = eng()
        if self.lo is not None:
            more = T.lt0(self.lo + self.t - self.hi)
            e.assume(T.c_implies(T.le0(self.lo - self.hi),
                                 T.le0(self.lo + self.t - self.hi)))
            e.assume(T.c_implies(T.lt0(self.hi - self.lo), T.eq0(self.t)))
            item = simp(SV('i', self.lo + self.t))
        else:
            more = T.b_leaf(T.fresh_name('more'))
            item = self.sp.item(self, it)
        if not e.decide(more):
            return
        yield item
        self._after()

    def iterate_while(self, cond):
        # the invariant describes the states from which the loop continues
        # (and the entry state): a body after which the condition fails
        # falls through to the code after the loop
        if not cond():
            if not eng().decide(T.eq0(self.t)):
                raise PathEnd('exit handled at the end of the body')
            return
        yield None
        if not cond():
            return
        self._after()

    def _after(self):
        fr = sys._getframe(2)
        env = dict(fr.f_locals)
        if self.sp.post_iter:
            self.sp.post_iter(self, env)
        self._prove(env, self.t + 1, 'preservation')
        raise PathEnd('loop body checked')


RT = _Runtime()


# ---- AST transformation ---------------------------------------------------------------

def _assigned(nodes):
    out = set()

    class Vis(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp
    for n in nodes:
        Vis().visit(n)
    return sorted(out)


class _Tr(ast.NodeTransformer):
    def __init__(self, mod, cuts):
        self.mod = mod
        self.cuts = cuts
        self.stack = []
        self.count = []

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.count.append(0)
        q = self.mod + '.' + '.'.join(self.stack)
        self.active = q in self.cuts
        act = self.active
        body = []
        for s in n.body:
            self.active = act
            r = self.visit(s)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        n.body = body
        self.stack.pop()
        self.count.pop()
        self.active = False
        return n

    active = False

    def _lid(self):
        k = self.count[-1]
        self.count[-1] += 1
        return '%s.%s#%d' % (self.mod, '.'.join(self.stack), k)

    def visit_For(self, n):
        if not self.active:
            self.generic_visit(n)
            return n
        lid = self._lid()
        n2 = self.generic_visit(n)
        names = _assigned([n.target] + n.body)
        return self._build(n2, lid, names, n.iter, None)

    def visit_While(self, n):
        if not self.active:
            self.generic_visit(n)
            return n
        lid = self._lid()
        n2 = self.generic_visit(n)
        names = _assigned(n.body)
        return self._build(n2, lid, names, None, n.test)

    def _build(self, n, lid, names, it, test):
        h = '__vc_h_%d' % self.count[-1]
        itv = '__vc_it_%d' % self.count[-1]
        ld = lambda x: ast.Name(id=x, ctx=ast.Load())
        stt = lambda x: ast.Name(id=x, ctx=ast.Store())
        rt = lambda m: ast.Attribute(value=ld('__vc__'), attr=m,
                                     ctx=ast.Load())
        loc = ast.Call(func=ld('locals'), args=[], keywords=[])
        pre = []
        if it is not None:
            pre.append(ast.Assign(targets=[stt(itv)], value=it))
        else:
            pre.append(ast.Assign(targets=[stt(itv)],
                                  value=ast.Constant(value=None)))
        pre.append(ast.Assign(targets=[stt(h)], value=ast.Call(
            func=rt('enter'), args=[ast.Constant(value=lid), loc, ld(itv)],
            keywords=[])))
        if names:
            pre.append(ast.Assign(
                targets=[ast.Tuple(elts=[stt(x) for x in names],
                                   ctx=ast.Store())],
                value=ast.Call(func=rt('havoc'), args=[
                    ld(h), ast.Constant(value=tuple(names)), loc],
                    keywords=[])))
        else:
            pre.append(ast.Expr(value=ast.Call(func=rt('havoc'), args=[
                ld(h), ast.Constant(value=()), loc], keywords=[])))
        if it is not None:
            loop = ast.For(target=n.target, iter=ast.Call(
                func=rt('iterate'), args=[ld(h), ld(itv)], keywords=[]),
                body=n.body, orelse=n.orelse)
        else:
            loop = ast.For(target=stt('__vc_w'), iter=ast.Call(
                func=rt('iterate_while'), args=[ld(h), ast.Lambda(
                    args=ast.arguments(posonlyargs=[], args=[],
                                       kwonlyargs=[], kw_defaults=[],
                                       defaults=[]), body=test)],
                keywords=[]), body=n.body, orelse=n.orelse)
        out = pre + [loop]
        for s in out:
            ast.copy_location(s, n)
            ast.fix_missing_locations(s)
        return out


def transform(tree, mod, cuts):
    if any(q.startswith(mod + '.') for q in cuts):
        tree = _Tr(mod, cuts).visit(tree)
        ast.fix_missing_locations(tree)
    return tree
