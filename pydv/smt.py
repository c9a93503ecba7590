"""Discharging obligations: normal form first, then z3 with ground lemma instances."""
import time
from fractions import Fraction
import z3
from . import terms as tm
from .terms import *

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'nf': 0, 'smt': 0, 'lemmas': 0}
FACTS = []        # (trigger function name or None, fn(args...) -> F) : universally quantified hypotheses
FACT_NAMES = {}
TIMEOUT = 4000


class Facts:
    """Universally quantified hypotheses, by trigger (an uninterpreted function name)."""

    def __init__(self):
        self.by = {}
        self.sumfacts = []      # fn(list of sum atoms) -> list of F

    def add(self, fname, fn):
        self.by.setdefault(fname, []).append(fn)


_LIVE = []


class Enc:
    def __init__(self, facts):
        self.facts = facts
        self.cache = {}
        self.cons = []
        self.done = set()
        self.queue = []
        self.binds, self.crossed = [], False
        self.seen = {}

    def num(self, t):
        r = None
        if not t.p:
            return z3.RealVal(0)
        tot = []
        for m, c in t.p.items():
            f = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
            fs, ls = [], []
            for a, e in m:
                if ATOMS[a].kind == 'ind' and e > 0:
                    ls.append(self.lit_(a))
                    continue
                z = self.atom(ATOMS[a])
                if e < 0:
                    z = self.invof(ATOMS[a], z)
                    e = -e
                fs += [z] * e
            pr = f
            if fs:
                pr = fs[0]
                for x in fs[1:]:
                    pr = pr * x
                pr = pr if c == 1 else f * pr
            if ls:
                pr = z3.If(z3.And(*ls) if len(ls) > 1 else ls[0], pr, z3.RealVal(0))
            tot.append(pr)
        return tot[0] if len(tot) == 1 else z3.Sum(tot)

    def invof(self, A, z):
        k = ('inv', A.id)
        if k not in self.cache:
            r = z3.Real('inv%d' % A.id)
            self.cache[k] = r
            self.cons.append(z3.Implies(z != 0, z * r == 1))
            self.cons.append(z3.Implies(z > 0, r > 0))
            self.cons.append(z3.Implies(z < 0, r < 0))
        return self.cache[k]

    def atom(self, A):
        r = self.cache.get(A.id)
        if r is not None:
            return r
        k = A.kind
        if k == 'ind':
            r = z3.If(self.lit(A), z3.RealVal(1), z3.RealVal(0))
        elif k == 'poly':
            r = self.num(A.data)
        elif k == 'var':
            if A.data[0] == '+inf' or A.data[0] == '-inf':
                r = z3.Real('INF_' + A.data[0])
            elif A.isint:
                r = z3.ToReal(z3.Int('v%d_%s' % (A.id, A.data[0])))
            else:
                r = z3.Real('v%d_%s' % (A.id, A.data[0]))
        elif k == 'app':
            args = [self.num(x) for x in A.data[1]]
            nm = 'f_%s_%d' % (A.data[0], len(args))
            if not args:
                r = z3.ToReal(z3.Int(nm)) if A.isint else z3.Real(nm)
            else:
                f = z3.Function(nm, *([z3.RealSort()] * len(args) + [z3.IntSort() if A.isint else z3.RealSort()]))
                r = f(*args)
                if A.isint:
                    r = z3.ToReal(r)
        elif k in ('sum', 'bind'):
            r = z3.ToReal(z3.Int('s%d' % A.id)) if A.isint else z3.Real('s%d' % A.id)
        self.cache[A.id] = r
        if A.id not in self.done:
            self.done.add(A.id)
            self.queue.append(A)
        return r

    def lit(self, A):
        kind = A.data[0]
        if kind == 'b':
            args = [self.num(x) for x in A.data[2]]
            if not args:
                return z3.Bool('b_' + A.data[1])
            f = z3.Function('b_%s_%d' % (A.data[1], len(args)), *([z3.RealSort()] * len(args) + [z3.BoolSort()]))
            return f(*args)
        q = self.num(A.data[1])
        if A.data[1].isint():           # integer tightening
            if kind == 'lt':
                return q <= -1
            if ('tight', A.id) not in self.cache:
                self.cache[('tight', A.id)] = True
                self.cons.append(z3.Or(q <= -1, q == 0, q >= 1))
            return q == 0
        return q == 0 if kind == 'eq' else q < 0

    def form(self, f):
        t = f.t
        c = t.const()
        if c is not None:
            return z3.BoolVal(c != 0)
        if len(t.p) == 1:
            (m, c), = t.p.items()
            if c == 1 and all(ATOMS[a].kind == 'ind' for a, _ in m):
                ls = [self.lit_(a) for a, _ in m]
                return z3.And(*ls) if len(ls) > 1 else ls[0]
        n = fnot(f).t
        if len(n.p) == 1:
            (m, c), = n.p.items()
            if c == 1 and all(ATOMS[a].kind == 'ind' for a, _ in m):
                return z3.Not(z3.And(*[self.lit_(a) for a, _ in m]))
        return self.num(t) == 1

    def lit_(self, a):
        A = ATOMS[a]
        self.atom(A)
        return self.lit(A)

    # ground instances of definitional facts
    def saturate(self, depth=0, rounds=4):
        for _ in range(rounds):
            q, self.queue = self.queue, []
            if not q:
                if self.cross():
                    continue
                return
            for A in q:
                for f in self.instances(A):
                    self.cons.append(self.form(f))
                if A.kind in ('sum',):
                    for f in sum_lemmas(A, self.facts, depth):
                        self.cons.append(self.form(f))
                    for f in self.prefix(A):
                        self.cons.append(self.form(f))
                if A.kind == 'bind':
                    for f in bind_lemmas(A, self, self.facts, depth):
                        self.cons.append(self.form(f))

    def cross(self):
        """instances of the quantified atoms at the witnesses of the others, once"""
        if self.crossed or len(self.binds) < 2 or len(self.binds) > 6:
            return False
        self.crossed = True
        for a, (A, v, n, body, _) in enumerate(self.binds):
            if A.data[0] != 'all':
                continue
            va = tm.atom_of(v).id
            for b, (B, _, _, _, w) in enumerate(self.binds):
                if a != b and w is not None:
                    inr = fand(fnot(lt(w, ZERO)), lt(w, n))
                    self.cons.append(self.form(implies(fand(inr, eq_raw(atomT(A), ONE)), eq(subst(body, {va: w}), ONE))))
        return True

    def prefix(self, A):
        """sums of the same terms over ranges of different length"""
        if len(A.data[0]) != 1:
            return []
        (v, n), = A.data[0]
        body = A.data[1]
        t = atomT(A)
        out = []
        if n.const() is None and not tm.nonneg(n - 1):
            self.cons.append(z3.Implies(self.num(n) == 0, self.atom(A) == 0))
        B = tm.single_atom(body)
        if B is not None and B.kind == 'app' and B.data[0] in tm.STOCH:
            for pos, sn, val in tm.STOCH[B.data[0]]:
                if tm.single_atom(B.data[1][pos]) is ATOMS[v] and not any(v in x.fv for i, x in enumerate(B.data[1]) if i != pos) and not callable(sn) and val is None:
                    self.cons.append(z3.Implies(self.num(n) == self.num(sn), self.atom(A) == 1))
        prev = self.seen.setdefault(('sum', id(body)), [])
        for B in prev:
            m, u = B.data[0][0][1], atomT(B)
            c = (n - m).const()
            if c is not None and abs(c) == 1:
                lo, s, g = (m, u, t) if c == 1 else (n, t, u)
                out.append(implies(fnot(lt(lo, ZERO)), eq_raw(g, s + tm.subst(body, {v: lo}))))
        prev.append(A)
        others = self.seen.setdefault('sums', [])
        if len(others) < 24:
            for B in others:
                xy = same_sum(A, B)
                if xy is not None:
                    self.cons.append(z3.Implies(self.atom(ATOMS[xy[0]]) == self.atom(ATOMS[xy[1]]), self.atom(A) == self.atom(B)))
            others.append(A)
        return out

    def instances(self, A):
        out = []
        t = atomT(A)
        b = tm.abounds(A)
        if b is not None:
            if b[0] is not None:
                out.append(rawle(b[0], t))
            if b[1] is not None:
                out.append(rawle(t, b[1]))
        if A.kind == 'app':
            n, args = A.data[0], A.data[1]
            if n == 'abs':
                z, x = self.atom(A), self.num(args[0])
                self.cons.append(z == z3.If(x >= 0, x, -x))
            elif n == 'sqrt':
                z, x = self.atom(A), self.num(args[0])
                self.cons.append(z3.Implies(x >= 0, z3.And(z >= 0, z * z == x)))
            elif n == 'exp':
                self.cons.append(self.atom(A) > 0)
            elif n == 'idiv':
                a, bb = args
                q, r = self.atom(A), self.num(imod(a, bb))
                aa, bv = self.num(a), self.num(bb)
                self.cons.append(z3.Implies(bv > 0, z3.And(aa == bv * q + r, r >= 0, r < bv)))
            if n == 'ceil':
                out += [rawle(args[0], t), lt(t, args[0] + 1)]
            if n == 'floor':
                out += [rawle(t, args[0]), lt(args[0], t + 1)]
            if n == 'trunc':
                neg = lt(args[0], ZERO)
                out += [implies(fnot(neg), fand(fnot(lt(t, ZERO)), fnot(lt(args[0], t)))), implies(fnot(neg), lt(args[0], t + 1)),
                        implies(neg, fand(fnot(lt(ZERO, t)), fnot(lt(t, args[0])))), implies(neg, lt(t - 1, args[0]))]
            if n == 'rnd':
                out += [rawle(t - const(Fraction(1, 2)), args[0]), rawle(args[0] - const(Fraction(1, 2)), t)]
            pf = PAIRFACTS.get(n)
            if pf is not None:
                prev = self.seen.setdefault(n, [])
                for B in prev:
                    out += pf(A.data[1], B.data[1], t, atomT(B)) + pf(B.data[1], A.data[1], atomT(B), t)
                prev.append(A)
            for f in self.facts.by.get(n, ()):
                r = f(*args)
                if r is not None:
                    out.extend(r if isinstance(r, (list, tuple)) else [r])
        if A.kind == 'ind' and A.data[0] == 'b':
            for f in self.facts.by.get(A.data[1], ()):
                r = f(*A.data[2])
                if r is not None:
                    out.extend(r if isinstance(r, (list, tuple)) else [r])
        return [liftF(x) for x in out]


_SS = {}


def same_sum(A, B):
    """equal sums when an index of one equals an index of the other"""
    k = (A.id, B.id)
    if k in _SS:
        return _SS[k]
    out = _SS[k] = None
    ta, tb = atomT(A), atomT(B)
    ix = lambda t: [a for a in t.fv if ATOMS[a].kind == 'var' and ATOMS[a].isint and not ATOMS[a].data[0].startswith('#')]
    xs, ys = ix(ta), ix(tb)
    if not xs or not ys or len(xs) > 5 or len(ys) > 5 or fnames(A.data[1]) != fnames(B.data[1]):
        return out
    for x in xs:
        for y in ys:
            if x != y and x not in ys and subst(ta, {x: atomT(ATOMS[y])}) is tb:
                _SS[k] = x, y
                return x, y
            if x != y and y not in xs and subst(tb, {y: atomT(ATOMS[x])}) is ta:
                _SS[k] = x, y
                return x, y
    return out


def mono(a, b, ta, tb):
    return [implies(fnot(lt(b[0], a[0])), fnot(lt(tb, ta)))]


def sorted_pair(a, b, ta, tb):
    return [implies(fnot(lt(b[1], a[1])), fnot(lt(tb, ta)))] if a[0] is b[0] else []


def argsort_pair(a, b, ta, tb):
    if a[0] is not b[0]:
        return []
    from .npmodel import apply_lam
    return [implies(fnot(lt(b[1], a[1])), fnot(lt(apply_lam(a[0], tb), apply_lam(a[0], ta))))]


PAIRFACTS = {'rnd': mono, 'ppf': mono, 'sorted': sorted_pair, 'argsort': argsort_pair}


class RawF(F):
    """a <= b kept unsimplified (bounds facts would simplify themselves away)"""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.t = ONE


def rawle(a, b):
    return RawF(a, b)


_old_form = Enc.form


def _form(self, f):
    if isinstance(f, RawF):
        return self.num(f.a) <= self.num(f.b)
    return _old_form(self, f)


Enc.form = _form


def _binder_ctx(A):
    vs, body = open_sum(A)
    return vs, body


_SL = {}


def sum_lemmas(A, facts, depth):
    """sign facts of a sum atom, each proved pointwise"""
    if depth > 2:
        return []
    k = (A.id, id(facts))
    if k in _SL:
        return _SL[k]
    _SL[k] = []
    vs, body = open_sum(A)
    out = []
    for sf in facts.sumfacts:
        out.extend(sf(A))
    hy = []
    for v, n in vs:
        hy.append(rawle(ZERO, v))
        hy.append(rawle(v, n - 1))
    if tm.nonneg(body) or prove(fnot(lt(body, ZERO)), hy, facts, depth=depth + 1, quick=True)[0]:
        out.append(fnot(lt_raw(atomT(A), ZERO)))
        if len(vs) >= 1:
            if prove(lt(ZERO, body), hy, facts, depth=depth + 1, quick=True)[0]:
                cond = fand(*[lt(ZERO, n) for _, n in vs])
                out.append(implies(cond, lt_raw(ZERO, atomT(A))))
            if len(vs) == 1 and body.isint() and tm.bound(body, True) is not None:
                pass
        # part of a distribution
        B = tm.single_atom(body)
        if len(vs) == 1 and B is not None and B.kind == 'app' and B.data[0] in tm.STOCH:
            v = tm.atom_of(vs[0][0]).id
            for pos, sn, val in tm.STOCH[B.data[0]]:
                if B.data[1][pos] is vs[0][0] and not any(v in x.fv for i, x in enumerate(B.data[1]) if i != pos):
                    out.append(implies(fand(fnot(lt(vs[0][1], ZERO)), fnot(lt(sn, vs[0][1]))), fnot(lt_raw(ONE, atomT(A)))))
        # an indicator sum is at most its range
        if len(vs) == 1 and all(ATOMS[a].kind == 'ind' for m in body.p for a, _ in m):
            out.append(fnot(lt_raw(vs[0][1], atomT(A))))
    elif prove(fnot(lt(ZERO, body)), hy, facts, depth=depth + 1, quick=True)[0]:
        out.append(fnot(lt_raw(ZERO, atomT(A))))
    STATS['lemmas'] += len(out)
    _SL[k] = out
    return out


def lt_raw(a, b):
    """a < b as an indicator atom without interval simplification"""
    d = a - b
    c = d.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    return F(tm._indatom('lt', d))


def bind_lemmas(A, enc, facts, depth):
    op, v, n, body = open_bind(A)
    t = atomT(A)
    out = []
    va = tm.atom_of(v).id
    enc.binds.append([A, v, n, body, None])
    # witness
    if op in ('max', 'min'):
        w = fresh('w', True, 0, n - 1)
        out.append(implies(lt(ZERO, n), eq_raw(t, subst(body, {va: w}))))
        for x in candidates(enc, body, va):
            inr = fand(fnot(lt(x, ZERO)), lt(x, n))
            bx = subst(body, {va: x})
            out.append(implies(inr, fnot(lt_raw(t, bx) if op == 'max' else lt_raw(bx, t))))
    elif op in ('argmax', 'argmin'):
        bt = subst(body, {va: t})
        for x in candidates(enc, body, va):
            inr = fand(fnot(lt(x, ZERO)), lt(x, n))
            bx = subst(body, {va: x})
            worse = lt_raw(bt, bx) if op == 'argmax' else lt_raw(bx, bt)
            out.append(implies(inr, fnot(worse)))
            # the first optimum
            out.append(implies(fand(inr, lt_raw(x, t)), lt_raw(bx, bt) if op == 'argmax' else lt_raw(bt, bx)))
    elif op == 'all':
        out.append(forr(eq_raw(t, ZERO), eq_raw(t, ONE)))
        w = fresh('w', True, 0, n - 1)
        enc.binds[-1][4] = w
        bw = subst(body, {va: w})
        out.append(implies(eq_raw(t, ZERO), fand(lt(ZERO, n), eq(bw, ZERO))))
        for x in candidates(enc, body, va):
            inr = fand(fnot(lt(x, ZERO)), lt(x, n))
            out.append(implies(fand(inr, eq_raw(t, ONE)), eq(subst(body, {va: x}), ONE)))
    return out


def eq_raw(a, b):
    d = a - b
    c = d.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    return F(tm._indatom('eq', d))


def candidates(enc, body, va):
    """integer terms at which to instantiate: skolem variables present in the query and constants"""
    out = [ZERO]
    seen = set()
    scales = [c for c in scaled_args(body, va) if c != 1]
    for aid in list(enc.done):
        A = ATOMS[aid]
        if A.kind == 'var' and A.isint and not A.data[0].startswith('#'):
            out.append(atomT(A))
        if A.kind == 'app' and A.data[0] in fnames(body):
            for x in A.data[1]:
                if x.isint():
                    out.append(x)
                for c in scales:
                    if (x / c).const() is not None and (x / c).isint():      # f(v * c) in the body, f(x) in the query
                        out.append(x / c)
    res = []
    for x in out:
        if id(x) not in seen:
            seen.add(id(x))
            res.append(x)
    return res[:12]


def scaled_args(t, va):
    """constants c such that some f(c * v) occurs in t"""
    out = set()

    def rec(t):
        for m in t.p:
            for a, _ in m:
                A = ATOMS[a]
                if A.kind == 'app':
                    for x in A.data[1]:
                        if len(x.p) == 1:
                            (m2, c), = x.p.items()
                            if m2 == ((va, 1),):
                                out.add(c)
                for c in tm.atom_children(A):
                    rec(c)
    rec(t)
    return sorted(out)


def fnames(t):
    out = set()

    def rec(t):
        for m in t.p:
            for a, _ in m:
                A = ATOMS[a]
                if A.kind == 'app':
                    out.add(A.data[0])
                for c in tm.atom_children(A):
                    rec(c)
    rec(t)
    return out


def z3check(cons, timeout):
    s = z3.Solver()
    s.set('timeout', 60000)
    s.set('rlimit', timeout * 2000)
    s.set('random_seed', 1)
    for c in cons:
        s.add(c)
    t0 = time.time()
    r = s.check()
    STATS['z3_calls'] += 1
    STATS['z3_time'] += time.time() - t0
    return r, s


def conjuncts(f):
    """split a conjunction of literals"""
    if isinstance(f, RawF):
        return [f]
    t = f.t
    if len(t.p) == 1:
        (m, c), = t.p.items()
        if c == 1 and len(m) > 1 and all(ATOMS[a].kind == 'ind' for a, _ in m):
            return [F(atomT(ATOMS[a])) for a, _ in m]
    return [f]


def simp_hyps(t, hyps):
    """replace literals known from the hypotheses"""
    for h in hyps:
        if isinstance(h, RawF):
            continue
        for c in conjuncts(h):
            A = tm.single_atom(c.t)
            if A is not None and A.kind == 'ind':
                if A.data[0] == 'eq':
                    sol = tm.solvable(A.data[1])
                    if sol is not None and tm.occurs_T(sol[0], t):
                        t = tm.replace_atom(t, sol[0], sol[1])
                t = tm.replace_atom(t, A.id, ONE)
                continue
            n = fnot(c).t
            A = tm.single_atom(n)
            if A is not None and A.kind == 'ind':
                t = tm.replace_atom(t, A.id, ZERO)
    return t


_PCACHE = {}


def prove(goal, hyps=(), facts=None, depth=0, quick=False, timeout=None):
    """-> (bool, how).  Valid(hyps |= goal)"""
    facts = facts or Facts()
    goal = liftF(goal)
    if isinstance(goal, RawF):
        goal = fnot(lt(goal.b, goal.a))
    k = (id(goal.t), tuple((id(h.t), h.a.key, h.b.key) if isinstance(h, RawF) else id(h.t) for h in hyps), id(facts), quick)
    if k in _PCACHE:
        return _PCACHE[k]
    _LIVE.append((goal, list(hyps), facts))
    g = F(simp_hyps(goal.t, hyps))
    c = g.const()
    if c is True:
        r = (True, 'normal-form')
    else:
        r = None
        cs = conjuncts(g)
        if len(cs) > 1:
            ok = [prove(x, hyps, facts, depth, quick, timeout) for x in cs]
            r = (all(o[0] for o in ok), ok[-1][1] if all(o[0] for o in ok) else next(o[1] for o in ok if not o[0]))
        else:
            r = _prove_smt(g, hyps, facts, depth, quick, timeout)
            if not r[0] and not quick and depth == 0 and g.t is not goal.t:      # (equations of the path have been used in the goal only)
                r2 = _prove_smt(goal, hyps, facts, depth, quick, timeout)
                r = r2 if r2[0] else r
    _PCACHE[k] = r
    return r


def _prove_smt(g, hyps, facts, depth, quick, timeout):
    e = Enc(facts)
    cons = [e.form(h) for h in hyps]
    goal = e.form(g)
    e.saturate(depth)
    r, s = z3check(cons + e.cons + [z3.Not(goal)], timeout or (600 if quick else TIMEOUT))
    if r == z3.unsat:
        STATS['smt'] += 1
        return True, 'z3'
    if not quick:
        # try clearing denominators, then a pointwise proof for comparisons of sums
        iq = as_ineq(g)
        if iq is not None:
            strict, q = iq          # q > 0 or q >= 0
            if strict and q.isint():
                strict, q = False, q - 1
            num, dens = clear_den(q)
            if dens and depth < 3 and all(prove(lt(ZERO, x), hyps, facts, depth + 1)[0] for x in dens):
                ok, how = prove(lt(ZERO, num) if strict else fnot(lt(num, ZERO)), hyps, facts, depth + 1)
                if ok:
                    return True, 'positive denominators; ' + how
            if not strict and pointwise(q, hyps, facts, depth):
                return True, 'pointwise+z3'
    if r == z3.sat and not quick:
        return False, 'z3: counter-model of the abstraction:\n' + model_text(s.model())
    return False, 'z3: %s (%s)' % (r, s.reason_unknown() if r == z3.unknown else '')


def as_ineq(g):
    """g as (strict, q): q > 0 / q >= 0"""
    for neg in (0, 1):
        t = fnot(g).t if neg else g.t
        A = tm.single_atom(t)
        if A is not None and A.kind == 'ind' and A.data[0] == 'lt':
            q = A.data[1]
            return (False, q) if neg else (True, scale(q, -1))
        if len(t.p) == 2 and all(c == 1 and len(m) == 1 and ATOMS[m[0][0]].kind == 'ind' for m, c in t.p.items()):
            X = [ATOMS[m[0][0]] for m in t.p]
            if {x.data[0] for x in X} == {'lt', 'eq'} and X[0].data[1] is X[1].data[1]:
                q = X[0].data[1]       # q <= 0
                return (True, q) if neg else (False, scale(q, -1))
    return None


def pointwise_strict(q, hyps, facts, depth):
    """q < 0 via  -q = Sum body with body >= 0 and positive at range"""
    return False


def pointwise(q, hyps, facts, depth):
    """q >= 0 for q = c0 + sum_j c_j * Sum_{v<n} b_j  (same range): all pointwise combinations >= 0"""
    groups = {}
    rest = ZERO
    for m, c in q.p.items():
        sums = [a for a, e in m if ATOMS[a].kind == 'sum' and e == 1 and len(ATOMS[a].data[0]) == 1]
        if len(sums) == 1 and all(e > 0 or True for a, e in m):
            A = ATOMS[sums[0]]
            n = A.data[0][0][1]
            co = mkT({tuple((a, e) for a, e in m if a != sums[0]): c})
            groups.setdefault(n, []).append((A, co))
        else:
            rest = rest + mkT({m: c})
    if len(groups) != 1:
        return False
    (n, lst), = groups.items()
    v = fresh('p', True, 0, n - 1)
    body = ZERO
    for A, co in lst:
        (sv, _), = A.data[0]
        body = body + co * subst(A.data[1], {sv: v})
    hy = list(hyps) + [rawle(ZERO, v), rawle(v, n - 1)]
    if rest.p:
        if not prove(lt(ZERO, n), hyps, facts, depth + 1)[0]:
            return False
        body = body + rest / n
    ok, _ = prove(fnot(lt(body, ZERO)), hy, facts, depth + 1)
    return ok


def model_text(m):
    ls = sorted('%s = %s' % (d, m[d]) for d in m.decls())
    return '\n'.join(ls[:60])


def satisfiable(hyps, facts):
    """vacuity guard: the hypotheses have to be satisfiable"""
    e = Enc(facts)
    cons = [e.form(h) for h in hyps]
    e.saturate(0)
    r, s = z3check(cons + e.cons, 3000)
    return r != z3.unsat, str(r)


def clear_den(t):
    """multiply by all denominators; returns (numerator T, list of cleared denominators T)"""
    dens = []
    for _ in range(6):
        neg = {}
        for m in t.p:
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if not neg:
            return t, dens
        r = ZERO
        for m, c in t.p.items():
            d = dict(m)
            acc = const(c)
            keep = []
            for a in set(d) | set(neg):
                e = d.get(a, 0) - neg.get(a, 0)
                A = ATOMS[a]
                if A.kind == 'poly':
                    acc = mul(acc, A.data ** e)
                elif e:
                    keep.append((a, e))
            acc = mul(acc, mkT({tuple(sorted(keep)): Fraction(1)}) if keep else ONE)
            r = r + acc
        for a, e in neg.items():
            A = ATOMS[a]
            dens.append(A.data if A.kind == 'poly' else atomT(A))
        t = r
    return t, dens


def prove_eq(a, b, hyps=(), facts=None):
    facts = facts or Facts()
    a, b = lift(a), lift(b)
    if a is b:
        STATS['nf'] += 1
        return True, 'normal-form'
    d = simp_hyps(a - b, hyps)
    if not d.p:
        STATS['nf'] += 1
        return True, 'normal-form'
    n, dens = clear_den(d)
    # cleared denominators are non zero: that is an obligation of its own at the division in the code,
    # here it is required again (under the hypotheses) before using it
    if not n.p:
        bad = None
        for x in dens:
            ok, how = prove(fnot(eq(x, ZERO)), hyps, facts)
            if not ok:
                bad = (x, how)
                break
        if bad is None:
            STATS['nf'] += 1
            return True, 'normal-form'
    # decide remaining top level indicators with z3
    d2 = decide_inds(d, hyps, facts)
    if not d2.p:
        STATS['nf'] += 1
        return True, 'normal-form+z3'
    n2, dens2 = clear_den(d2)
    if not n2.p and all(prove(fnot(eq(x, ZERO)), hyps, facts)[0] for x in dens2):
        return True, 'normal-form+z3'
    d3 = peel(d2, hyps, facts)
    if d3 is None:
        d3 = inner_prefixes(d2)
        d3 = None if d3 is d2 or not (d3 - d2).p else d3
    if d3 is not None:
        if not d3.p:
            STATS['nf'] += 1
            return True, 'normal-form'
        r = prove_eq(d3, ZERO, hyps, facts)
        if r[0]:
            return r
    d3 = decide_in_sums(d2, hyps, facts)
    if d3 is not d2:
        if not d3.p:
            STATS['nf'] += 1
            return True, 'normal-form+z3'
        r = prove_eq(d3, ZERO, hyps, facts)
        if r[0]:
            return r
    # case split on the remaining indicators
    inds = top_inds(d2)
    if inds and len(inds) <= 7:
        inds.sort(key=lambda a: ATOMS[a].data[0] != "eq")
        A = ATOMS[inds[0]]
        lit = F(atomT(A))
        ok1, h1 = prove_eq(tm.replace_atom(d2, A.id, ONE), ZERO, list(hyps) + [lit], facts)
        if ok1:
            ok2, h2 = prove_eq(tm.replace_atom(d2, A.id, ZERO), ZERO, list(hyps) + [fnot(lit)], facts)
            if ok2:
                return True, 'case-split'
    r = prove_raw(eq_raw(d2, ZERO), hyps, facts)
    if r[0]:
        return r
    return False, 'difference not zero: %s\n%s' % (show(d2)[:3000], r[1])


def inner_prefixes(t, top=True):
    """inside of sums and functions: sum over j < m + c, c a positive number, as its first c terms and a sum over j < m"""
    res = ZERO
    changed = False
    for m, c in t.p.items():
        acc = const(c)
        for a, e in m:
            A = ATOMS[a]
            x = atomT(A)
            if A.kind == 'app':
                args = [inner_prefixes(y, False) for y in A.data[1]]
                if any(p is not q for p, q in zip(args, A.data[1])):
                    x = tm.rebuild_app(A, args)
                    changed = True
            elif A.kind == 'sum':
                vs, body = tm.open_sum(A)
                b = inner_prefixes(body, False)
                if b is not body:
                    x = b
                    for v, n in reversed(vs):
                        x = tm.mksum(v, n, x)
                    changed = True
                elif len(vs) == 1 and not top:
                    v, n = vs[0]
                    k = n.p.get((), 0)
                    if k > 0 and k <= 3 and len(n.p) > 1 and tm.nonneg(n - k) and int(k) == k:
                        k, v = int(k), tm.atom_of(v).id
                        x = tm.Sum(n - k, lambda i: tm.subst(body, {v: i + k}))
                        for i in range(k):
                            x = x + tm.subst(body, {v: const(i)})
                        changed = True
            for _ in range(e if isinstance(e, int) and e > 0 else 0):
                acc = acc * x
            if not (isinstance(e, int) and e > 0):
                acc = mul(acc, tm.powatom(x, e))
        res = res + acc
    return res if changed else t


def peel(t, hyps=(), facts=None):
    """sums over ranges differing by a constant: split the extra terms off the longer one"""
    S = [a for m in t.p for a, _ in m if ATOMS[a].kind == 'sum' and len(ATOMS[a].data[0]) == 1]
    S = list(dict.fromkeys(S))
    for a in S:
        A = ATOMS[a]
        (v, n), = A.data[0]
        body = A.data[1]
        for b in S:
            if a == b:
                continue
            c = (n - ATOMS[b].data[0][0][1]).const()
            if c is None or c <= 0 or c > 3 or c.denominator != 1:
                continue
            c = int(c)
            m = n - c
            if not tm.nonneg(m) and not prove(rawle(ZERO, m), hyps, facts, quick=True)[0]:
                continue
            B = atomT(ATOMS[b])
            at = lambda i: tm.subst(body, {v: lift(i)})
            for lo in (0, c):
                r = inner_prefixes(tm.Sum(m, lambda i: at(i + lo)))
                if any(x == b for mm in r.p for x, _ in mm):
                    for i in range(c):
                        r = r + (at(m + i) if lo == 0 else at(lift(i)))
                    return tm.replace_atom(t, a, r)
    return None


def prove_raw(g, hyps, facts):
    return _prove_smt(g, hyps, facts, 0, False, None)


def decide_in_sums(t, hyps, facts):
    """conditions inside a sum that the hypotheses decide for every index of its range"""
    for a in list(dict.fromkeys(a for m in t.p for a, _ in m)):
        A = ATOMS[a]
        if A.kind != 'sum':
            continue
        vs, body = tm.open_sum(A)
        hy = list(hyps)
        for v, n in vs:
            hy += [rawle(ZERO, v), rawle(v, n - 1)]
        b2 = decide_inds(body, hy, facts)
        if b2 is not body:
            for v, n in reversed(vs):
                b2 = tm.mksum(v, n, b2)
            t = tm.replace_atom(t, a, b2)
    return t


def top_inds(t):
    out = []
    for m in t.p:
        for a, _ in m:
            if ATOMS[a].kind == 'ind' and a not in out:
                out.append(a)
            if ATOMS[a].kind == 'poly':
                for x in top_inds(ATOMS[a].data):
                    if x not in out:
                        out.append(x)
    return out


def decide_inds(t, hyps, facts):
    for _ in range(3):
        ch = False
        for a in top_inds(t):
            lit = F(atomT(ATOMS[a]))
            if prove(lit, hyps, facts, quick=True)[0]:
                t = tm.replace_atom(t, a, ONE)
                ch = True
            elif prove(fnot(lit), hyps, facts, quick=True)[0]:
                t = tm.replace_atom(t, a, ZERO)
                ch = True
        if not ch:
            break
    return t
