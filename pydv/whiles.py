"""While loops by invariant.  The contract gives a recurrence  S_0, S_{k+1} = F(S_k)  (the ghost history of the loop);
the loop variables are matched to the recurrence by behaviour, not by name:

  counter   starts at 0 and is incremented by one
  state     equals S_k at the k-th test of the loop condition
  lagged    equals S_{k-1} at the k-th test, k >= 1 (any value at k = 0)

Matching is only a proposal; initialisation and preservation of each proposed invariant are obligations.
Variables of the body without a role are unreadable at the loop head and afterwards.
"""
import ast
from . import terms as tm
from . import smt
from .terms import *
from .arrays import *
from .interp import *


class Recurrence:
    """comps: name -> (dims, init fn, step fn(state accessors) ); values of S_k: uninterpreted function name!(k, idx...)"""

    def __init__(self, it, name, comps, step, cont, setup=None):
        self.it, self.name, self.comps, self.step, self.cont = it, name, comps, step, cont
        self.setup = setup
        self.exit = None
        self.used = 0

    def at(self, c, k):
        nm = '%s_%s!' % (self.name, c)
        return lambda *i: app(nm, (lift(k),) + tuple(lift(x) for x in i))

    def state(self, k): return {c: self.at(c, k) for c in self.comps}


def modified(body):
    names = []
    for st in body:
        for n in ast.walk(st):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
                tg = [n.target]
            elif isinstance(n, ast.NamedExpr):
                tg = [n.target]
            for t in tg:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and x.id not in names and (isinstance(x.ctx, ast.Store) or x is base(t)):
                        names.append(x.id)
    return names


def base(t):
    while isinstance(t, (ast.Subscript, ast.Attribute)):
        t = t.value
    return t


def same(it, v, dims, fn, oblige=None):
    """value v equals the array/number described by fn"""
    if not dims:
        if not is_num(v):
            return False if oblige is None else it.obligations.append((oblige, False, 'not a number', 'goal'))
        if oblige is not None:
            return it.oblige_eq(oblige, lift(v), fn())
        return smt.prove_eq(lift(v), fn(), it.pc, it.facts)[0]
    if not isinstance(v, Arr):
        return False
    if v.ndim != len(dims):
        return False
    us = [fresh('u', True, 0, d - 1) for d in dims]
    f = v.snap()
    for ax, d in zip(v.axes, dims):
        if not smt.prove_eq(axis_len(ax), d, it.pc, it.facts)[0]:
            return False
    x = lift(f(tuple((0, u) for u in us)))
    if oblige is not None:
        return it.oblige_eq(oblige, x, fn(*us))
    return smt.prove_eq(x, fn(*us), it.pc, it.facts)[0]


class Subst(ast.NodeTransformer):
    def __init__(self, name, new):
        self.name, self.new = name, new

    def visit_Name(self, n):
        return self.new if n.id == self.name and isinstance(n.ctx, ast.Load) else n


COUNT = 'number of iterations of the loop'


def breaking(b):
    return isinstance(b, ast.If) and not b.orelse and len(b.body) == 1 and isinstance(b.body[0], ast.Break)


def normal(st, fr):
    """the loop as  while TEST: BODY  without early exits:
         while T: if C: break; B        ->  while T and not C: B
         while T: B; if C: break        ->  while (count == 0 or not C) and T: B; count += 1
         for i in range(N): B           ->  while count < N: B[count/i]; count += 1
       (conditions are evaluated without side effects; C at the end of the body and the next test see the same state)"""
    import copy
    if st.orelse:
        raise Unsupported('loop with an else part under a recurrence invariant')
    body, lead, last = list(st.body), [], None
    parse = lambda t: ast.parse(t, mode='eval').body
    cnt = lambda d=0: ast.BinOp(ast.Name(COUNT, ast.Load()), ast.Sub(), ast.Constant(d)) if d else ast.Name(COUNT, ast.Load())
    while body and breaking(body[0]):
        lead.append(body.pop(0).test)
    if body and breaking(body[-1]):
        last = body.pop().test
    if any(isinstance(n, (ast.Break, ast.Return, ast.Continue)) for b in body for n in ast.walk(b)):
        raise Unsupported('loop with early exit under a recurrence invariant')
    if isinstance(st, ast.While):
        if not lead and last is None:
            return st.test, body
        test = st.test
    else:
        r = st.iter
        if not (isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == 'range' and len(r.args) == 1 and not r.keywords
                and isinstance(st.target, ast.Name)):
            raise Unsupported('loop over other than range(n) under a recurrence invariant')
        names = modified(body)
        if st.target.id in names or any(isinstance(n, (ast.Call, ast.Subscript)) or isinstance(n, ast.Name) and n.id in names for n in ast.walk(r.args[0])):
            raise Unsupported('loop over a changing range under a recurrence invariant')
        i = st.target.id
        body = [Subst(i, cnt()).visit(copy.deepcopy(b)) for b in body]
        lead = [Subst(i, cnt()).visit(copy.deepcopy(c)) for c in lead]
        last = last and Subst(i, cnt(1)).visit(copy.deepcopy(last))
        test = ast.Compare(cnt(), [ast.Lt()], [r.args[0]])
    no = lambda c: ast.UnaryOp(ast.Not(), c)
    parts = [test] + [no(c) for c in lead]
    if last is not None:
        parts = [ast.BoolOp(ast.Or(), [ast.Compare(cnt(), [ast.Eq()], [ast.Constant(0)]), no(last)])] + parts
    body = body + [ast.Assign([ast.Name(COUNT, ast.Store())], ast.BinOp(cnt(), ast.Add(), ast.Constant(1)))]
    fr.env[COUNT] = 0
    test = ast.BoolOp(ast.And(), parts) if len(parts) > 1 else parts[0]
    for x in [test] + body:
        ast.copy_location(x, st)
        ast.fix_missing_locations(x)
    if isinstance(st, ast.For):
        fr.env[st.target.id] = Poison('loop variable after the loop')
    return test, body


def run(it, st, fr, rec):
    test, body = normal(st, fr)
    st = ast.While(test, body, [])
    names = [n for n in modified(st.body)]
    entry = {n: fr.env.get(n) for n in names}
    if rec.setup:
        rec.setup()
    S0 = {c: rec.comps[c][1] for c in rec.comps}
    # first test
    c0 = it.truth(it.eval(st.test, fr))
    want0 = rec.cont(ZERO, S0, None)
    it.oblige_eq('loop condition at entry', tm.liftF(c0).t, tm.liftF(want0).t)
    if not it.branch(tm.liftF(want0)):
        rec.exit = ('entry', ZERO)
        return
    entry_snap = {n: (v.snap() if isinstance(v, Arr) else None) for n, v in entry.items()}
    # iteration 0
    it.block(st.body, fr)
    S1 = rec.step(S0)
    roles = {}
    for n in names:
        v = fr.env.get(n)
        e = entry[n]
        if is_num(e) and lift(e).const() == 0 and is_num(v) and lift(v).const() == 1 and not isinstance(e, bool):
            roles[n] = ('counter',)
            continue
        for c, (dims, init, _) in rec.comps.items():
            if e is not None and same_snap(it, e, entry_snap[n], dims, init) and same(it, v, dims, S1[c]):
                roles[n] = ('state', c)
                break
            if e is None and same(it, v, dims, S1[c]):
                roles[n] = ('state', c, 'from the first iteration on')
                break
            if same(it, v, dims, init):
                roles[n] = ('lagged', c)
                break
    if not all(any(r == ('state', c) for r in roles.values()) for c in rec.comps):
        # no variable plays the specified state: the loop computes something else, or keeps another state
        kinds = {r[0] for r in roles.values()}
        if {'counter', 'lagged'} <= kinds and len(roles) < len(names):
            for c, (dims, init, _) in rec.comps.items():
                for n in names:
                    if n not in roles and entry[n] is not None and same_snap(it, entry[n], entry_snap[n], dims, init):
                        from .loopinv import PathEnd
                        if same(it, fr.env.get(n), dims, S1[c], 'loop state %s: value after the first iteration' % c) is False:
                            raise PathEnd()
        raise Unsupported('no loop variable starts at the initial value and takes the specified value after one iteration')
    for c in rec.comps:
        it.obligations.append(('loop state %s: initialised, first iteration' % c, True, 'matched', 'goal'))
    # arbitrary later test
    k = fresh('k', True, 1)
    Sk, Sp = rec.state(k), rec.state(k - 1)

    def havoc(kk, Sk, Sp):
        for n in names:
            r = roles.get(n)
            if r is None:
                fr.env[n] = Poison('variable modified in a loop without an invariant for it')
            elif r[0] == 'counter':
                fr.env[n] = kk
            else:
                dims = rec.comps[r[1]][0]
                fn = (Sk if r[0] == 'state' else Sp)[r[1]]
                fr.env[n] = fn() if not dims else Arr([axis(d) for d in dims], lambda idx, fn=fn: fn(*[t for _, t in idx]), 'num')
    want = tm.liftF(rec.cont(k, Sk, Sp))
    npc = len(it.pc)
    first = dict(fr.env)
    havoc(k, Sk, Sp)
    try:
        ck = tm.liftF(it.truth(it.eval(st.test, fr)))
        it.oblige_eq('loop condition', ck.t, want.t)
    except Unsupported as e:
        if 'without an invariant' not in str(e):
            raise
        # the test reads what an iteration leaves behind: the second test after the first iteration as run above,
        # any later one after an iteration from an arbitrary state
        fr.env.clear()
        fr.env.update(first)
        it.oblige_eq('loop condition after the first iteration', tm.liftF(it.truth(it.eval(st.test, fr))).t, tm.liftF(rec.cont(ONE, S1, S0)).t)
        havoc(k, Sk, Sp)
        it.pc.append(want)
        it.block(st.body, fr)
        c2 = tm.liftF(it.truth(it.eval(st.test, fr)))
        it.oblige_eq('loop condition', c2.t, tm.liftF(rec.cont(k + 1, rec.step(Sk), Sk)).t)
        del it.pc[npc:]
        havoc(k, Sk, Sp)
    # preservation is checked on a copy of the environment under the condition, then dropped
    saved = dict(fr.env)
    it.pc.append(want)
    it.block(st.body, fr)
    Sn = rec.step(Sk)
    for n, r in roles.items():
        v = fr.env.get(n)
        if r[0] == 'counter':
            it.oblige_eq('loop counter preserved', lift(v), k + 1)
        else:
            dims = rec.comps[r[1]][0]
            fn = (Sn if r[0] == 'state' else Sk)[r[1]]
            if same(it, v, dims, fn, 'loop state %s: preserved' % r[1] if r[0] == 'state' else 'previous %s kept' % r[1]) is False and dims:
                it.obligations.append(('loop state %s: preserved' % r[1], False, 'shape', 'goal'))
    del it.pc[npc:]
    fr.env.clear()
    fr.env.update(saved)
    it.assume(fnot(want))
    rec.exit = ('exit', k)
    rec.used += 1


def same_snap(it, e, snap, dims, init):
    if isinstance(e, Arr):
        return same(it, Arr(e.axes, snap, e.kind), dims, init)
    return same(it, e, dims, init)
