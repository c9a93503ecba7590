"""Contract language.  A contract is a Python function of a world `w`.  It is executed twice:

* SymWorld: the function under contract is executed symbolically from the sources in /repo for ALL inputs
  (symbolic sizes, symbolic contents); `ensure*` are proof obligations;
* ConcWorld: the same contract is executed on the imported real code with generated inputs; `ensure*` are
  run-time checks (used to replay a failed obligation, to cross-check the models of the dependencies, and as
  the labelled bounded stand-in when the sources leave the supported subset).
"""
import importlib
import math
import sys
import warnings
from fractions import Fraction


class Skip(Exception):
    """generated input violates an assumption of the contract"""


class ConcFail(Exception):
    def __init__(self, name, detail):
        Exception.__init__(self, name, detail)
        self.name, self.detail = name, detail


CONTRACTS = {}


class Contract:
    def __init__(self, pid, name, fn, trials, functions, bounded, seconds, scope=None):
        self.pid, self.name, self.fn, self.trials, self.functions = pid, name, fn, trials, functions
        self.bounded, self.scope = bounded, scope
        self.seconds = seconds


def contract(pid, name, trials=60, functions=(), bounded=None, seconds=6.0, scope=None):
    """bounded: text; when given the contract is only checked concretely (labelled bounded stand-in).
    scope: text; the obligations are generated for a few sizes only (labelled bounded, never counted as proved)"""
    def dec(fn):
        CONTRACTS.setdefault(pid, []).append(Contract(pid, name, fn, trials, list(functions), bounded, seconds, scope))
        return fn
    return dec


# ====================================================================================== symbolic
class SymWorld:
    symbolic = True

    def __init__(self, it):
        from . import terms as tm
        self.it = it
        self.tm = tm
        self.inputs = []
        self.nchk = 0
        it.calls = {}

    # ---- inputs
    def int(self, name, lo=0, hi=None, typ=None):
        tm = self.tm
        v = tm.var(name, True)
        tm.BOUNDS[tm.atom_of(v).id] = (tm.lift(lo), tm.lift(hi) if hi is not None else None)
        return v

    def real(self, name, lo=None, hi=None):
        tm = self.tm
        v = tm.var(name, False)
        if lo is not None or hi is not None:
            tm.BOUNDS[tm.atom_of(v).id] = (tm.lift(lo) if lo is not None else None, tm.lift(hi) if hi is not None else None)
        return v

    def boolean(self, name):
        return self.tm.bapp(name, ())

    def choose(self, name, options):
        for i, o in enumerate(options[:-1]):
            if self.it.branch(self.tm.bapp('choose_%s_%d' % (name, i), ())):
                return o
        return options[-1]

    def arr(self, name, dims, lo=None, hi=None, isint=False, track=True):
        """array of reals/ints in [lo,hi]"""
        from .arrays import Arr, axis
        tm = self.tm
        if lo is not None or hi is not None:
            b = (tm.lift(lo) if lo is not None else None, tm.lift(hi) if hi is not None else None)
            tm.APP_BOUNDS[name] = lambda *a: b
        a = Arr([axis(d) for d in dims], lambda idx: tm.app(name, [t for _, t in idx], isint), 'int' if isint else 'num')
        a.cell.name = name
        if track:
            self.inputs.append((name, a, a.cell.fn))
        return a

    def vec(self, name, n, lo=None, hi=None, isint=False):
        return self.arr(name, (n,), lo, hi, isint)

    def mat(self, name, n, m, lo=None, hi=None):
        return self.arr(name, (n, m), lo, hi)

    def stoch(self, name, n, K):
        """n x K matrix, rows on the simplex"""
        tm = self.tm
        if tm.lift(K).const() == 2:     # rows (1-a, a)
            from .arrays import Arr, axis
            tm.STOCH.pop(name, None)
            tm.APP_BOUNDS[name] = lambda *a: (tm.ZERO, tm.ONE)
            a = Arr([axis(n), axis(2)], lambda idx: self.two(tm.app(name, (idx[0][1],)), idx[1][1]), 'num')
            a.cell.name = name
            self.inputs.append((name, a, a.cell.fn))
            return a
        a = self.arr(name, (n, K), 0, 1)
        tm.STOCH[name] = [(1, tm.lift(K), None)]
        return a

    def two(self, a, k):
        tm = self.tm
        k = tm.lift(k)
        if k.const() is not None:
            return a if k.const() == 1 else tm.ONE - a
        return tm.ite(tm.eq(k, tm.ONE), a, tm.ONE - a)

    def simplex(self, name, K):
        tm = self.tm
        if tm.lift(K).const() == 2:
            from .arrays import Arr, axis
            tm.STOCH.pop(name, None)
            tm.APP_BOUNDS[name] = lambda *a: (tm.ZERO, tm.ONE)
            a = Arr([axis(2)], lambda idx: self.two(tm.app(name, ()), idx[0][1]), 'num')
            a.cell.name = name
            self.inputs.append((name, a, a.cell.fn))
            return a
        a = self.arr(name, (K,), 0, 1)
        tm.STOCH[name] = [(0, tm.lift(K), None)]
        return a

    def classes(self, K, strings=False, ints=None):
        from .arrays import Arr, axis
        tm = self.tm
        tm.INJ.add('cls')
        if ints == 'range0':
            a = Arr([axis(K)], lambda idx: idx[0][1], 'int')
        else:
            a = Arr([axis(K)], lambda idx: tm.app('cls', (idx[0][1],)), 'lab')
        a.meta['classes'] = a
        self.K = K
        self.classes_arr = a
        self.it.ghost['classes'] = a
        return a

    def labels(self, name, n, classes, cover=True, pm=None):
        """label vector; with cover, each class occurs (so np.unique gives classes)"""
        from .arrays import Arr, axis
        tm = self.tm
        nm = 'ci_' + name
        K = classes.axes[0][0].n
        tm.APP_BOUNDS[nm] = lambda *a: (tm.ZERO, K - 1)
        f = classes.snap()
        two = tm.lift(K).const() == 2
        from . import randoms
        randoms.labels(nm, two)
        ci = (lambda t: tm.bapp(nm, (t,)).t) if two else (lambda t: tm.app(nm, (t,), True))
        a = Arr([axis(n)], lambda idx: f(((0, ci(idx[0][1])),)), classes.kind)
        a.meta['classes'] = classes
        a.meta['ci'] = ci
        a.cell.name = name
        if cover:
            self.cover(nm, n, K)
        self.inputs.append((name, a, a.cell.fn))
        return a

    def cover(self, nm, n, K):
        tm = self.tm
        from . import smt

        def sf(A):
            vs, body = tm.open_sum(A)
            if len(vs) != 1 or vs[0][1] is not tm.lift(n):
                return []
            v = vs[0][0]
            B = tm.single_atom(body)
            if B is not None and B.kind == 'ind' and B.data[0] == 'b' and B.data[1] == nm and B.data[2][0] is v:
                return [tm.fnot(smt.lt_raw(tm.atomT(A), tm.ONE)), tm.fnot(smt.lt_raw(tm.lift(n), tm.atomT(A) + 1))]
            if B is None or B.kind != 'ind' or B.data[0] != 'eq':
                return []
            q = B.data[1]
            at = tm.app(nm, (v,), True)
            for s in (1, -1):
                k = at - q * s
                if not (tm.atom_of(v).id in k.fv) and k.isint():
                    out = [tm.implies(tm.fand(tm.fnot(tm.lt(k, tm.ZERO)), tm.lt(k, tm.lift(K))),
                                      tm.fnot(smt.lt_raw(tm.atomT(A), tm.ONE)))]
                    if tm.nonneg(tm.lift(K) - 2):      # some other class occurs
                        out.append(tm.fnot(smt.lt_raw(tm.lift(n), tm.atomT(A) + 1)))
                    return out
            return []
        self.it.facts.sumfacts.append(sf)

    def li(self, y, i):
        return y.meta['ci'](self.tm.lift(i))

    def rows(self, a):
        return self.it.unlift(self.axlen(a, 0))

    def axlen(self, a, i):
        from .arrays import axis_len
        return axis_len(a.axes[i])

    def mod(self, t, n): return self.tm.imod(self.tm.lift(t), self.tm.lift(n))

    def div(self, t, n): return self.tm.idiv(self.tm.lift(t), self.tm.lift(n))

    # ---- logic
    def sum(self, n, fn):
        return self.tm.Sum(self.tm.lift(n), lambda t: self.tm.lift(fn(t)))

    def all(self, n, fn):
        tm = self.tm
        v = tm.fresh('s', True, 0, tm.lift(n) - 1)
        b = tm.liftF(fn(v)).t
        if b.const() == 1:
            return tm.TRUE
        return tm.F(tm.mkbind('all', v, tm.lift(n), b))

    def maxof(self, n, fn):
        tm = self.tm
        v = tm.fresh('s', True, 0, tm.lift(n) - 1)
        return tm.mkbind('max', v, tm.lift(n), tm.lift(fn(v)))

    def minof(self, n, fn):
        tm = self.tm
        v = tm.fresh('s', True, 0, tm.lift(n) - 1)
        return tm.mkbind('min', v, tm.lift(n), tm.lift(fn(v)))

    def argmaxof(self, n, fn):
        tm = self.tm
        c = tm.lift(n).const()
        if c is not None and c <= 4:
            best, arg = tm.lift(fn(0)), tm.ZERO
            for i in range(1, int(c)):
                x = tm.lift(fn(i))
                gt = tm.lt(best, x)
                best, arg = tm.ite(gt, x, best), tm.ite(gt, tm.lift(i), arg)
            return arg
        v = tm.fresh('s', True, 0, tm.lift(n) - 1)
        return tm.mkbind('argmax', v, tm.lift(n), tm.lift(fn(v)))

    def ind(self, c): return self.tm.liftF(c).t

    def ite(self, c, a, b): return self.tm.ite(self.tm.liftF(c), a, b)

    def eq(self, a, b): return self.tm.eq(self.tm.lift(a), self.tm.lift(b))

    def ne(self, a, b): return self.tm.fnot(self.eq(a, b))

    def le(self, a, b): return self.tm.fnot(self.tm.lt(self.tm.lift(b), self.tm.lift(a)))

    def lt(self, a, b): return self.tm.lt(self.tm.lift(a), self.tm.lift(b))

    def And(self, *a): return self.tm.fand(*a)

    def Or(self, *a): return self.tm.forr(*a)

    def Not(self, a): return self.tm.fnot(a)

    def implies(self, a, b): return self.tm.implies(self.tm.liftF(a), self.tm.liftF(b))

    def abs(self, a): return self.tm.absv(self.tm.lift(a))

    def sqrt(self, a): return self.tm.sqrt(self.tm.lift(a))

    def log(self, a): return self.it.np.logf('log', self.tm.lift(a))

    def max(self, a, b): return self.tm.maxv(a, b)

    def min(self, a, b): return self.tm.minv(a, b)

    def clip(self, x, lo, hi): return self.tm.minv(self.tm.maxv(self.tm.lift(x), lo), hi)

    def real_const(self, c): return self.tm.const(c)

    def nclasses(self, name='K', typ=3):
        """two classes or any larger number"""
        if self.it.branch(self.tm.bapp('choose_two_classes', ())):
            return 2
        return self.int(name, 3)

    def holds(self, c):
        """fork on a condition"""
        return self.it.branch(self.tm.liftF(c))

    # ---- ghost abbreviations
    def solve_sum(self, term, q):
        """term = q solved for one of the sums of term: (atom, value)"""
        tm = self.tm
        for m, c in term.p.items():
            S = [(a, e) for a, e in m if tm.ATOMS[a].kind == 'sum']
            if len(S) == 1 and S[0][1] == 1:
                A = tm.ATOMS[S[0][0]]
                co = tm.const(c)
                ok = True
                for a, e in m:
                    if a != A.id:
                        co = co * tm.powatom(tm.atomT(tm.ATOMS[a]), e)
                rest = term - tm.atomT(A) * co
                if not tm.occurs_T(A.id, rest) and not tm.occurs_T(A.id, co):
                    return A, (q - rest) / co
        raise ValueError('let: no sum to solve for in %s' % tm.show(term)[:300])

    def let(self, name, term, lo=None, hi=None):
        """name a term of the specification; the bounds are obligations"""
        tm = self.tm
        term = self.it.letT(tm.lift(term))
        if term.const() is not None or not any(tm.ATOMS[a].kind == 'sum' for m in term.p for a, _ in m):
            return term
        if lo is not None:
            self.it.oblige(name + ' (abbreviation): lower bound', self.le(lo, term), 'lemma')
        if hi is not None:
            self.it.oblige(name + ' (abbreviation): upper bound', self.le(term, hi), 'lemma')
        q = tm.fresh(name, False)
        tm.BOUNDS[tm.atom_of(q).id] = (tm.lift(lo) if lo is not None else None, tm.lift(hi) if hi is not None else None)
        A, v = self.solve_sum(term, q)
        self.it.add_let(lambda t: tm.replace_atom(t, A.id, v))
        return q

    def member(self, n, fn, k):
        """rule: a sum of non-negative terms (obligation) is at least each of its terms"""
        tm = self.tm
        u = tm.fresh('u', True, 0, tm.lift(n) - 1)
        if self.it.oblige('lemma: terms of the sum are non-negative', self.le(0, fn(u)), 'lemma'):
            inr = self.And(self.le(0, k), self.lt(k, n))
            self.it.assume(self.it.letF(tm.implies(inr, tm.fnot(tm.lt(self.sum(n, fn), tm.lift(fn(k)))))))

    def induction(self, name, n, P, hyps=None):
        """rule: P(0), and P(j-1) implies P(j) for all 0 < j < n (both obligations); then P(j) for every j < n: returns the instances.
        hyps(j): valid facts that may be used"""
        tm = self.tm
        j = tm.fresh('j', True, 1, tm.lift(n) - 1)
        ok = True
        for at, before in ((tm.ZERO, None), (j, j - 1)):
            npc = len(self.it.pc)
            for h in (hyps(at) if hyps else []):
                self.it.assume(h)
            if before is not None:
                self.it.assume(P(before))
                self.it.assume(tm.lt(j, tm.lift(n)))
            ok = self.it.oblige('lemma: ' + name, P(at), 'lemma') and ok
            del self.it.pc[npc:]

        def inst(k):
            if ok:
                self.it.assume(tm.implies(self.And(self.le(0, k), self.lt(k, n)), tm.liftF(P(tm.lift(k)))))
        return inst

    def nonneg_sum(self, n, fn):
        """rule: a sum of non-negative terms (obligation) is non-negative"""
        tm = self.tm
        u = tm.fresh('u', True, 0, tm.lift(n) - 1)
        if self.it.oblige('lemma: terms of the sum are non-negative', self.le(0, fn(u)), 'lemma'):
            self.it.assume(self.it.letF(tm.fnot(tm.lt(self.sum(n, fn), tm.ZERO))))

    def let_as(self, name, term, value):
        """lemma term = value, then used as a rewrite of one sum of term"""
        tm = self.tm
        term, value = self.it.letT(tm.lift(term)), self.it.letT(tm.lift(value))
        if term is value or not any(tm.ATOMS[a].kind == 'sum' for m in term.p for a, _ in m):
            return
        if not self.it.oblige_eq('lemma: ' + name, term, value):
            return
        A, v = self.solve_sum(term, value)
        if not tm.occurs_T(A.id, v):
            self.it.add_let(lambda t: tm.replace_atom(t, A.id, v))

    def let_family(self, name, n, fn, stoch=False, using=()):
        """using: sums built from the family (functions of the family), renamed first.  name the family fn(k), k < n (each a multiple of one sum); stoch: the obligation that the family sums to one"""
        tm = self.tm
        n = tm.lift(n)
        ks = tm.fresh('k', True, 0, n - 1)
        kid = tm.atom_of(ks).id
        tmpl = self.it.letT(tm.lift(fn(ks)))
        nm = '%s!%d' % (name, len(self.it.lets))
        A, v = self.solve_sum(tmpl, tm.app(nm, (ks,)))
        heads = {}
        for B in tm.apps_in(A):
            for i, x in enumerate(B.data[1]):
                if x is ks:
                    heads[B.data[0]] = i
        if stoch:
            self.it.oblige_eq(name + ' (abbreviation): sums to one', self.sum(n, fn), 1)
            tm.STOCH[nm] = [(0, n, None)]

        def inst(B):
            if B.kind != 'sum' or len(B.data[0]) != len(A.data[0]):
                return None
            for c in {x.data[1][heads[x.data[0]]] for x in tm.apps_in(B) if x.data[0] in heads}:
                if tm.single_atom(tm.subst(tm.atomT(A), {kid: c})) is B:
                    return tm.subst(v, {kid: c})
            return None
        V = lambda k: tm.app(nm, (tm.lift(k),))
        for u in using:
            A2, v2 = self.solve_sum(self.it.letT(tm.lift(u(fn))), tm.lift(u(V)))
            self.it.add_let(lambda t, A2=A2, v2=v2: tm.replace_atom(t, A2.id, v2))
        self.it.add_let(lambda t: tm.rewrite(t, inst))
        return V

    def opaque(self, name, dims): return self.arr(name, dims, track=False)

    def build(self, dims, fn):
        from .arrays import Arr, axis
        return Arr([axis(d) for d in dims], lambda idx: self.tm.lift(fn(*[t for _, t in idx])), 'num')

    def flat(self, a): return self.it.np.m_ravel(a)

    def inverse_of(self, M): return self.it.np.inverse_spec(M)

    def is_singular(self, M): return self.it.np.singular_spec(M)

    # ---- calls
    def cls(self, qual):
        m, c = qual.rsplit('.', 1)
        return self.it.loader.load(m).env[c] if m.startswith('quantificationlib') else self.it.loader.reference(m, c)

    def new(self, qual, *a, **k):
        return self.it.call(self.cls(qual), [self.val(x) for x in a], {n: self.val(x) for n, x in k.items()})

    def val(self, x):
        from fractions import Fraction as Fr
        if isinstance(x, float):
            return self.tm.const(x)
        return x

    def fn(self, qual):
        m, c = qual.rsplit('.', 1)
        try:
            f = self.it.loader.load(m).env[c]
        except Exception:
            m2, c2 = m.rsplit('.', 1)
            f = self.it.getattr(self.it.loader.load(m2).env[c2], c)
        return lambda *a, **k: self.it.call(f, [self.val(x) for x in a], {n: self.val(x) for n, x in k.items()})

    def call(self, o, meth, *a, **k):
        return self.it.call(self.it.getattr(o, meth), [self.val(x) for x in a], {n: self.val(x) for n, x in k.items()})

    def attr(self, o, name): return self.it.getattr(o, name)

    def setattr(self, o, name, v): self.it.setattr(o, name, v)

    def tuple(self, v, n):
        return self.it.unpack(v, n)

    def raises(self, f, exc='ValueError'):
        """does the call raise exc?  python bool (forks on symbolic conditions)"""
        from .interp import PyRaise
        try:
            f()
            return False
        except PyRaise as e:
            if e.exc.name == exc or exc == 'Exception':
                return True
            raise

    def spy(self, qual, result=None):
        """modular call: the callee is replaced by its contract; arguments recorded"""
        rec = []

        def s(it, env):
            d = {k: v for k, v in env.items()}
            rec.append(d)
            return result(self, d) if result is not None else None
        self.it.summaries[qual] = s
        return rec

    def invariant(self, qual, ordinal, fn):
        self.it.invariants[(qual, ordinal)] = fn

    def need(self, inv):
        """the loop the invariant is for was found (otherwise the code is outside of what the contract can follow)"""
        from .interp import Unsupported
        if not inv.used:
            raise Unsupported('no loop fits the invariant %s' % inv.name)

    def ensure_aux(self, name, c):
        """part of a contract other proofs rely on, stronger than the property: if it cannot be proved the contract is not decided"""
        self.nchk += 1
        self.it.oblige(name, c, 'inv')

    def fork(self, name):
        from . import loopinv
        return self.it.branch(self.tm.F(self.tm.bapp('fork!%d' % loopinv.nid(), ()).t))

    def pair(self, a, b):
        return self.build((2,), lambda i: self.tm.ite(self.tm.eq(i, self.tm.ZERO), self.tm.lift(a), self.tm.lift(b)))

    def random_source(self, name):
        """a given numpy RandomState; two with the same name are in the same state"""
        from .randoms import SymRng
        return SymRng(self.it, ('given', name))

    def fraction(self, a, b):
        from fractions import Fraction
        return Fraction(a, b)

    def part(self, classes, pos):
        """some of the classes, in order"""
        r = self.vector([classes.at(q) for q in pos])
        r.kind, r.meta['part_of'], r.meta['positions'] = classes.kind, classes, list(pos)
        return r

    def vector(self, vals):
        def entry(i):
            r = self.tm.lift(vals[-1])
            for q in range(len(vals) - 2, -1, -1):
                r = self.tm.ite(self.tm.eq(i, self.tm.lift(q)), self.tm.lift(vals[q]), r)
            return r
        return self.build((len(vals),), entry)

    def infinite(self, v): return v is self.tm.PINF

    def is_one(self, v, what): return v is self.tm.PINF

    def at(self, a, *i):
        return self.tm.lift(a.snap()(tuple((0, self.tm.lift(x)) for x in i)))

    def loopinv(self, name, roles, claims, facts=None, make=None, when=None):
        from .loopinv import LoopInv
        li = LoopInv(name, roles, claims, facts, make, None, when)
        self.it.loopinvs.append(li)
        return li

    def recurrence(self, name, comps, step, cont, setup=None):
        from .whiles import Recurrence
        tm = self.tm
        comps = {c: (tuple(tm.lift(d) for d in dims), init, None) for c, (dims, init) in comps.items()}
        r = Recurrence(self.it, name, comps, step, cont, setup)
        self.it.recurrences = [r]
        return r

    # ---- obligations
    def assume(self, c):
        self.it.assume(c)

    def fact(self, fname, fn):
        self.it.facts.add(fname, fn)

    def label(self, name):
        return name

    def ensure(self, name, c):
        self.nchk += 1
        if isinstance(c, bool) or type(c).__name__ == 'bool_':
            c = self.tm.TRUE if c else self.tm.FALSE
        return self.it.oblige(name, c)

    def ensure_eq(self, name, a, b):
        self.nchk += 1
        return self.it.oblige_eq(name, a, b)

    def forall(self, name, dims, fn):
        """for all indices: fn(*idx) is a condition"""
        tm = self.tm
        npc = len(self.it.pc)
        vs = [tm.fresh('u', True, 0, tm.lift(d) - 1) if tm.lift(d).const() is None else None for d in dims]
        for idx in self.idxs(dims, vs):
            self.ensure(name, fn(*idx))
            del self.it.pc[npc:]

    def idxs(self, dims, vs):
        tm = self.tm
        out = [()]
        for d, v in zip(dims, vs):
            c = tm.lift(d).const()
            if v is not None:
                out = [o + (v,) for o in out]
            else:
                out = [o + (tm.const(i),) for o in out for i in range(int(c))]
        return out

    def forall_eq(self, name, dims, fn):
        tm = self.tm
        vs = [tm.fresh('u', True, 0, tm.lift(d) - 1) if tm.lift(d).const() is None else None for d in dims]
        for idx in self.idxs(dims, vs):
            a, b = fn(*idx)
            self.ensure_eq(name, a, b)

    def ensure_arr(self, name, a, dims, fn):
        """a is an array of shape dims with the given elements"""
        from .arrays import Arr, axis_len
        from .interp import is_num
        if not isinstance(a, Arr):
            if isinstance(a, (list, tuple)):
                a = self.it.np.arr(a)
            else:
                self.it.obligations.append((name + ': is an array', False, 'value is a %s' % type(a).__name__, 'goal'))
                return
        if a.ndim != len(dims):
            self.it.obligations.append((name + ': dimensions', False, 'ndim is %d, expected %d' % (a.ndim, len(dims)), 'goal'))
            return
        for i, d in enumerate(dims):
            self.ensure_eq('%s: shape[%d]' % (name, i), axis_len(a.axes[i]), d)
        self.forall_eq(name, dims, lambda *i: (a[i], fn(*i)))

    def ensure_same(self, name, a, b):
        """object identity / verbatim"""
        self.nchk += 1
        from .arrays import Arr
        ok = a is b or (isinstance(a, Arr) and isinstance(b, Arr) and a.cell is b.cell and a.ndim == b.ndim)
        self.it.obligations.append((name, ok, 'identity' if ok else 'different object: %r is not %r' % (a, b), 'goal'))

    def ensure_selected(self, name, a, n, cond, fn):
        """a holds the elements of the positions of [0, n) that satisfy the condition, in order"""
        from .arrays import Arr
        from .interp import Unsupported
        if not isinstance(a, Arr) or len(a.axes[0]) != 1 or a.axes[0][0].guard is None:
            raise Unsupported('a collection of a different form')
        s = a.axes[0][0]
        self.ensure_eq(name + ': collection', s.n, n)
        self.forall_eq(name + ': which', (n,), lambda j: (s.g(j).t, self.ind(cond(j))))
        f = a.snap()
        rest = [self.axlen(a, d) for d in range(1, a.ndim)]
        self.forall_eq(name + ': elements', [n] + rest, lambda j, *i: (self.ind(cond(j)) * self.tm.lift(f(((0, self.tm.lift(j)),) + tuple((0, self.tm.lift(q)) for q in i))), self.ind(cond(j)) * fn(j, *i)))

    def same(self, a, b):
        return a is b

    def isnone(self, a): return a is None

    def length(self, v):
        return self.it.np.b_len(v)

    def dims(self, a): return a.ndim

    def estimator(self, name, classes, fitted=True, **k):
        return SymEst(self, name, classes, fitted)

    def is_sym(self): return True

    def seq(self, n, fn):
        raise NotImplementedError

    def finish(self):
        """frame: no input array has been modified"""
        for name, a, f in self.inputs:
            if a.cell.fn is not f:
                n0 = len(self.it.obligations)
                from .arrays import Arr
                old = Arr(a.axes, f, a.kind)
                idx = [(tuple((si, self.tm.fresh('u', True, 0, s.n - 1)) for si, s in ((0, ax[0]) for ax in a.axes)))][0]
                x, y = a.cell.fn(idx), f(idx)
                self.it.oblige_eq('frame: input %s unchanged' % name, self.tm.lift(x), self.tm.lift(y))
            else:
                self.it.obligations.append(('frame: input %s unchanged' % name, True, 'frame', 'frame'))


class SymEst:
    """opaque estimator: predictions are an uninterpreted function of (state, row)"""
    count = 0

    def __init__(self, w, name, classes, fitted):
        self.w, self.name, self.classes = w, name, classes
        self.fitted = fitted
        self.state = 0
        self.calls = []
        self.train = {}
        self.root, self.copies, self.params, self.tag, self.classes_of = self, [], {}, '', None

    def sym_getattr(self, it, name):
        if name == 'fit':
            return lambda *a, **k: self.fit(it, *a, **k)
        if name == 'predict':
            return lambda X: self.predict(it, X)
        if name == 'predict_proba':
            return lambda X: self.predict_proba(it, X)
        if name == 'classes_':
            return self.classes
        if name == 'get_params':
            return lambda *a, **k: {}
        if name == 'set_params':
            return self.set_params
        from .interp import PyRaise, SExc
        raise PyRaise(SExc('AttributeError', (name,)))

    def sym_setattr(self, it, name, v):
        from .interp import Unsupported
        raise Unsupported('attribute %s set on an estimator' % name)

    def sym_copy(self, it):
        """a copy predicts as the original does until one of them is trained"""
        root = self.root
        root.copies.append(c := SymEst(self.w, self.name, self.classes if root.classes_of is None else root.classes_of(len(root.copies)), self.fitted))
        c.root, c.state, c.train, c.params = root, self.state, dict(self.train), dict(self.params)
        c.tag = 'c%d' % len(root.copies)
        return c

    def set_params(self, **k):
        self.params.update(k)
        return self

    def fit(self, it, X, y, *a, **k):
        self.calls.append(('fit', X, y, a, k))
        self.state = '%d%s' % (len(self.train) + 1, self.tag)
        self.train[self.state] = (X, y)
        self.fitted = True
        return self

    def chk(self, it):
        from .interp import PyRaise, SExc
        if not self.fitted:
            raise PyRaise(SExc('NotFittedError'))

    def rowlam(self, X, i):
        from .npmodel import lam
        from .arrays import Arr
        f = X.snap()
        r = Arr(X.axes[1:], lambda idx: f((i,) + idx), X.kind)
        return lam(r)

    def nm(self, kind):
        return '%s_%s_s%s' % (self.name, kind, self.state)

    def predict(self, it, X):
        from .arrays import Arr
        tm = self.w.tm
        self.chk(it)
        self.calls.append(('predict', X))
        nm = self.nm('ci')
        K = self.classes.axes[0][0].n
        tm.APP_BOUNDS[nm] = lambda *a: (tm.ZERO, K - 1)
        f = self.classes.snap()
        r = Arr([X.axes[0]], lambda idx: f(((0, self.cit(nm, X, idx[0])),)), self.classes.kind)
        r.meta['est'] = self
        return r

    def cit(self, nm, X, i):
        tm = self.w.tm
        if self.classes.axes[0][0].n.const() == 2:
            return tm.bapp(nm, (self.rowlam(X, i),)).t
        return tm.app(nm, (self.rowlam(X, i),), True)

    def predict_proba(self, it, X):
        from .arrays import Arr, axis
        tm = self.w.tm
        self.chk(it)
        self.calls.append(('predict_proba', X))
        nm = self.nm('pp')
        K = self.classes.axes[0][0].n
        tm.APP_BOUNDS[nm] = lambda *a: (tm.ZERO, tm.ONE)
        return Arr([X.axes[0], axis(K)], lambda idx: self.pt(nm, X, idx[0], idx[1][1]), 'num')

    def pt(self, nm, X, i, k):
        tm = self.w.tm
        K = self.classes.axes[0][0].n
        tm.APP_BOUNDS[nm] = lambda *a: (tm.ZERO, tm.ONE)
        if K.const() != 2:
            tm.STOCH[nm] = [(1, K, None)]
        else:
            tm.STOCH.pop(nm, None)
            return self.w.two(tm.app(nm, (self.rowlam(X, i),)), k)
        return tm.app(nm, (self.rowlam(X, i), k))

    # specification side
    def p(self, X, i, k):
        tm = self.w.tm
        return self.pt(self.nm('pp'), X, (0, tm.lift(i)), tm.lift(k))

    def ci(self, X, i):
        tm = self.w.tm
        return self.cit(self.nm('ci'), X, (0, tm.lift(i)))

    @property
    def nfits(self): return sum(1 for c in self.calls if c[0] == 'fit')


# ====================================================================================== concrete
class ConcWorld:
    symbolic = False

    def __init__(self, rng, size=1):
        import numpy as np
        self.np = np
        self.rng = rng
        self.size = size
        self.inputs = []
        self.vals = {}
        self.tol = 1e-7
        self.nchk = 0
        self.patches = []
        self.meta = {}
        self.order = []

    # ---- inputs
    def rec(self, name, v):
        if name not in self.vals:
            self.order.append(name)
        self.vals[name] = v
        return v

    def int(self, name, lo=0, hi=None, typ=6):
        typ = typ or 6
        lo = int(lo)
        if hi is None:
            hi = lo + (typ if self.rng.rand() < 0.8 else 3 * typ)
        hi = int(hi)
        if self.rng.rand() < 0.15:
            v = lo
        else:
            v = int(self.rng.randint(lo, hi + 1))
        return self.rec(name, v)

    def real(self, name, lo=None, hi=None):
        return self.rec(name, float(self.gen((), lo, hi)))

    def boolean(self, name):
        return self.rec(name, bool(self.rng.rand() < 0.5))

    def choose(self, name, options):
        i = self.rng.randint(len(options))
        self.rec('choice ' + name, repr(options[i])[:80])
        return options[i]

    def gen(self, shape, lo, hi):
        r = self.rng
        mode = r.randint(4)
        if lo is not None and hi is not None:
            u = r.rand(*shape) if mode else r.choice([0, 0.25, 0.5, 0.75, 1.0, 0.125], size=shape)
            if mode == 1:
                u = r.randint(0, 5, size=shape) / 4.0
            return lo + (hi - lo) * u
        x = r.randn(*shape) * (1.0 if mode else 3.0)
        if mode == 1:
            x = r.randint(-3, 4, size=shape) * 1.0
        if mode == 2:
            x = self.np.round(x, 1)
        if lo is not None:
            x = lo + self.np.abs(x)
        if hi is not None:
            x = hi - self.np.abs(x)
        return x

    def arr(self, name, dims, lo=None, hi=None, isint=False, track=True):
        np = self.np
        dims = tuple(int(d) for d in dims)
        if isint:
            l = 0 if lo is None else int(lo)
            h = l + 10 if hi is None else int(hi)
            a = self.rng.randint(l, h + 1, size=dims)
        else:
            a = np.array(self.gen(dims, lo, hi), dtype=float).reshape(dims)
        self.rec(name, a)
        if track:
            self.inputs.append((name, a, a.copy()))
        return a

    def nclasses(self, name='K', typ=3):
        return self.int(name, 2, typ=typ)

    def vec(self, name, n, lo=None, hi=None, isint=False):
        return self.arr(name, (n,), lo, hi, isint)

    def mat(self, name, n, m, lo=None, hi=None):
        return self.arr(name, (n, m), lo, hi)

    def stoch(self, name, n, K):
        r = self.rng
        mode = r.randint(4)
        if mode == 0:
            a = self.np.eye(K)[r.randint(0, K, size=n)]
        elif mode == 1:
            b = r.randint(0, 4, size=(n, K)) + 1e-300
            b[self.np.arange(n), r.randint(0, K, size=n)] += 1
            b = self.np.floor(b)
            a = b / b.sum(axis=1, keepdims=True)
        else:
            a = r.dirichlet(self.np.ones(K) * (0.5 if mode == 2 else 2.0), size=n)
        a = self.np.asarray(a, dtype=float).reshape(n, K)
        self.rec(name, a)
        self.inputs.append((name, a, a.copy()))
        return a

    def simplex(self, name, K):
        a = self.stoch(name, 1, K)[0].copy()
        self.inputs.pop()
        self.rec(name, a)
        self.inputs.append((name, a, a.copy()))
        return a

    def classes(self, K, strings=False, ints=None):
        r, np = self.rng, self.np
        mode = r.randint(4 if strings else 3)
        if ints == 'range0' or mode == 0:
            a = np.arange(K)
        elif mode == 1:
            a = np.arange(1, K + 1)
        elif mode == 2:
            a = np.sort(r.choice(np.arange(-2 * K, 3 * K), size=K, replace=False))
        else:
            a = np.array(['c%02d' % i for i in range(K)])
        self.rec('classes', a)
        return a

    def labels(self, name, n, classes, cover=True, pm=None):
        r, np = self.rng, self.np
        K = len(classes)
        if cover:
            if n < K:
                raise Skip()
            ci = np.concatenate([np.arange(K), r.randint(0, K, size=n - K)])
            if r.rand() < 0.3:
                ci[K:] = r.randint(0, K)
            if r.rand() < 0.8:
                r.shuffle(ci)
        else:
            ci = r.randint(0, K, size=n)
        y = classes[ci]
        self.meta[id(y)] = ci
        self.rec(name, y)
        self.inputs.append((name, y, y.copy()))
        return y

    def li(self, y, i): return int(self.meta[id(y)][i])

    def rows(self, a): return len(a)

    def axlen(self, a, i): return a.shape[i]

    def mod(self, t, n): return int(t) % int(n)

    def div(self, t, n): return int(t) // int(n)

    # ---- logic
    def sum(self, n, fn): return math.fsum(float(fn(i)) for i in range(int(n)))

    def all(self, n, fn): return all(bool(fn(i)) for i in range(int(n)))

    def maxof(self, n, fn): return max(float(fn(i)) for i in range(int(n)))

    def minof(self, n, fn): return min(float(fn(i)) for i in range(int(n)))

    def argmaxof(self, n, fn):
        v = [float(fn(i)) for i in range(int(n))]
        return v.index(max(v))

    def ind(self, c): return 1.0 if c else 0.0

    def ite(self, c, a, b): return a if c else b

    def eq(self, a, b): return bool(a == b)

    def ne(self, a, b): return bool(a != b)

    def near(self, a, b):
        a, b = float(a), float(b)
        if a == b:
            return True
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= self.tol * max(1.0, abs(a), abs(b))

    def le(self, a, b): return bool(float(a) <= float(b) + self.tol)

    def lt(self, a, b): return bool(a < b)

    def And(self, *a): return all(bool(x) for x in a)

    def Or(self, *a): return any(bool(x) for x in a)

    def Not(self, a): return not a

    def implies(self, a, b): return (not a) or bool(b)

    def abs(self, a): return abs(a)

    def sqrt(self, a): return math.sqrt(a)

    def log(self, a): return math.log(a)

    def max(self, a, b): return max(a, b)

    def min(self, a, b): return min(a, b)

    def clip(self, x, lo, hi): return min(max(x, lo), hi)

    def real_const(self, c): return c

    def holds(self, c): return bool(c)

    def opaque(self, name, dims): return None

    def build(self, dims, fn):
        a = self.np.zeros(tuple(int(d) for d in dims))
        for i in self.np.ndindex(*a.shape):
            a[i] = fn(*i)
        return a

    def flat(self, a): return self.np.ravel(a)

    def let(self, name, term, lo=None, hi=None): return term

    def let_as(self, *a): pass

    def member(self, *a): pass

    def nonneg_sum(self, *a): pass

    def let_family(self, name, n, fn, stoch=False, using=()): return fn

    # ---- calls
    def cls(self, qual):
        m, c = qual.rsplit('.', 1)
        return getattr(importlib.import_module(m), c)

    def new(self, qual, *a, **k): return self.cls(qual)(*a, **k)

    def fn(self, qual):
        m, c = qual.rsplit('.', 1)
        try:
            return getattr(importlib.import_module(m), c)
        except ImportError:
            m2, c2 = m.rsplit('.', 1)
            return getattr(getattr(importlib.import_module(m2), c2), c)

    def call(self, o, meth, *a, **k): return getattr(o, meth)(*a, **k)

    def attr(self, o, name): return getattr(o, name)

    def setattr(self, o, name, v): setattr(o, name, v)

    def tuple(self, v, n): return tuple(v)

    def raises(self, f, exc='ValueError'):
        try:
            f()
            return False
        except Skip:
            raise
        except Exception as e:
            names = [c.__name__ for c in type(e).__mro__]
            if exc in names:
                return True
            raise

    def spy(self, qual, result=None):
        import inspect
        m, c = qual.rsplit('.', 1)
        rec = []
        real = getattr(importlib.import_module(m), c)
        sig = inspect.signature(real)

        def wrapper(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            rec.append(dict(b.arguments))
            return real(*a, **k)
        for mod in list(sys.modules.values()):
            if getattr(mod, '__name__', '').startswith('quantificationlib') and getattr(mod, c, None) is real:
                setattr(mod, c, wrapper)
                self.patches.append((mod, c, real))
        return rec

    def invariant(self, *a): pass

    # ---- checks
    def assume(self, c):
        if not c:
            raise Skip()

    def fact(self, fname, fn): pass

    def fail(self, name, detail):
        raise ConcFail(name, detail)

    def ensure(self, name, c):
        self.nchk += 1
        if not bool(c):
            self.fail(name, 'condition is false')

    def ensure_eq(self, name, a, b):
        self.nchk += 1
        np = self.np
        if np.ndim(a) or np.ndim(b):
            if np.shape(a) == np.shape(b) or np.size(a) == 1 == np.size(b):
                ok = all(self.near(x, z) for x, z in zip(np.ravel(a), np.ravel(b)))
            else:
                ok = False
        elif isinstance(a, str) or isinstance(b, str):
            ok = a == b
        else:
            try:
                ok = self.near(a, b)
            except (TypeError, ValueError):
                ok = a == b
        if not ok:
            self.fail(name, 'got %r, expected %r' % (a, b))

    def idxs(self, dims):
        import itertools
        dims = [int(d) for d in dims]
        tot = 1
        for d in dims:
            tot *= d
        if tot <= 400:
            return list(itertools.product(*[range(d) for d in dims]))
        return [tuple(int(self.rng.randint(d)) for d in dims) for _ in range(400)]

    def forall(self, name, dims, fn):
        for i in self.idxs(dims):
            self.nchk += 1
            if not bool(fn(*i)):
                self.fail(name, 'condition is false at %r' % (i,))

    def forall_eq(self, name, dims, fn):
        for i in self.idxs(dims):
            a, b = fn(*i)
            self.ensure_eq('%s' % name, a, b)

    def ensure_arr(self, name, a, dims, fn):
        np = self.np
        s = np.shape(a)
        if tuple(s) != tuple(int(d) for d in dims):
            self.fail(name + ': shape', 'got shape %r, expected %r' % (s, tuple(dims)))
        a = np.asarray(a)
        self.forall_eq(name, dims, lambda *i: (a[i], fn(*i)))

    def ensure_same(self, name, a, b):
        self.nchk += 1
        if a is not b:
            self.fail(name, 'not the same object')

    def same(self, a, b): return a is b

    def isnone(self, a): return a is None

    def length(self, v): return len(v)

    def dims(self, a): return self.np.ndim(a)

    def estimator(self, name, classes, fitted=True, **k):
        e = make_conc_est()(tag=int(self.rng.randint(1 << 30)), labels=classes)
        e.prefit = fitted
        e.world = None
        return e

    def is_sym(self): return False

    def finish(self):
        np = self.np
        for name, a, old in self.inputs:
            same = a.shape == old.shape and (np.array_equal(a, old) if a.dtype.kind not in 'fc' else np.array_equal(a, old, equal_nan=True))
            if not same:
                self.fail('frame: input %s unchanged' % name, 'the input array was modified')

    def restore(self):
        for mod, c, real in self.patches:
            setattr(mod, c, real)
        self.patches = []


_CE = [None]


def make_conc_est():
    if _CE[0] is not None:
        return _CE[0]
    import numpy as np
    import zlib
    from sklearn.base import BaseEstimator, ClassifierMixin
    from sklearn.exceptions import NotFittedError

    class ConcEst(BaseEstimator, ClassifierMixin):
        """deterministic pseudo-random classifier: output is a hash of (tag, fitted state, row)"""
        ALL = []

        def __init__(self, tag=0, labels=None):
            self.tag = tag
            self.labels = labels
            self.calls = []
            self.state = 0
            self.prefit = False
            self.train = {}

        @property
        def classes_(self):
            return self.labels

        def fit(self, X, y, *a, **k):
            X = np.asarray(X)
            self.calls.append(('fit', X, y, a, k))
            self.state = zlib.crc32(np.ascontiguousarray(X, dtype=float).tobytes() + repr(list(y)).encode())
            self.train[self.state] = (X, y)
            self.prefit = True
            ConcEst.ALL.append(self)
            return self

        def _row(self, x):
            return np.random.RandomState(zlib.crc32(np.ascontiguousarray(x, dtype=float).tobytes() + b'%d/%d' % (self.tag, self.state)) % (1 << 31))

        def predict_proba(self, X):
            if not self.prefit:
                raise NotFittedError('x')
            self.calls.append(('predict_proba', X))
            return np.array([self._row(x).dirichlet(np.ones(len(self.labels))) for x in np.asarray(X)]).reshape(len(X), len(self.labels))

        def predict(self, X):
            if not self.prefit:
                raise NotFittedError('x')
            self.calls.append(('predict', X))
            return self.labels[np.array([self._row(x).randint(len(self.labels)) for x in np.asarray(X)], dtype=int)]

        def p(self, X, i, k):
            return self._row(np.asarray(X)[i]).dirichlet(np.ones(len(self.labels)))[k]

        def ci(self, X, i):
            return int(self._row(np.asarray(X)[i]).randint(len(self.labels)))

        @property
        def nfits(self):
            return sum(1 for c in self.calls if c[0] == 'fit')
    _CE[0] = ConcEst
    return ConcEst
