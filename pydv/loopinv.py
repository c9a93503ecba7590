"""Loops by predicate invariant.  The contract gives roles (a ghost name and the value the variable has at loop entry),
claims(S, k): facts that hold before iteration k, and optionally facts(S, k): valid instances (lemmas) that may be used.

The loop variables are found by behaviour (value at entry), not by name.  Two paths are explored:
  preservation  state havocked, claims(k) assumed, the condition true: one arbitrary iteration, claims(k+1) are obligations;
                `break` leaves the loop and `return` the function with the state of this iteration
  exit          state havocked, claims assumed, the condition false: the code after the loop
A modified variable without a role cannot be read afterwards.  If the roles do not match or a claim is not provable the loop is
left to the other techniques / the contract is reported as outside of the subset: an invariant that no longer fits a rewritten
loop says nothing about the property."""
import ast
from . import terms as tm
from . import smt
from .terms import *
from .arrays import *
from .arrays import _cellno
from .interp import *
from .interp import Poison
from .whiles import modified, same


_n = [0]


def nid():
    _n[0] += 1
    return _n[0]


class PathEnd(Exception):
    pass


class LoopInv:
    def __init__(self, name, roles, claims, facts=None, make=None, final=None, when=None):
        # roles: dict ghost -> entry value: number / (dims, fn) / predicate
        self.name, self.roles, self.claims, self.facts, self.make = name, roles, claims, facts, make
        self.final = final
        self.when = when
        self.used = 0


def provably(it, a, b):
    try:
        return smt.prove_eq(lift(a), lift(b), it.pc, it.facts)[0]
    except EngineError:
        return False


def fits(it, v, want):
    if callable(want):
        try:
            return bool(want(v))
        except EngineError:
            return False
    if isinstance(want, tuple):
        return isinstance(v, Arr) and len(want[0]) == v.ndim and bool(same(it, v, tuple(lift(d) for d in want[0]), want[1]))
    return is_num(v) and not isinstance(v, bool) and provably(it, v, want)


def match(it, st, fr, li):
    names = [n for n in modified(st.body) if n in fr.env]
    found, used = {}, set()
    for g, want in li.roles.items():
        opt = isinstance(want, Optional_)
        if opt:
            want = want.v
        if isinstance(want, Unmodified):
            cand = [n for n in fr.env if n not in used and n not in names and not isinstance(fr.env[n], Poison) and fits(it, fr.env[n], want.v)]
        else:
            cand = [n for n in names if n not in used and not isinstance(fr.env[n], Poison) and fits(it, fr.env[n], want)]
        if not cand:
            if opt:
                continue
            return None
        # several variables with the entry value: all of them take the role of the first that works is undecidable here; prefer same name
        pick = g if g in cand else cand[0]
        found[g] = pick
        used.add(pick)
    return found


class Optional_:
    def __init__(self, v): self.v = v


class Unmodified:
    def __init__(self, v): self.v = v


class State(dict):
    __getattr__ = dict.__getitem__


def find(it, st, fr):
    if it.merging or not it.loopinvs or st.orelse:
        return None
    for li in it.loopinvs:
        if li.when is not None and not li.when(it, st, fr):
            continue
        m = match(it, st, fr, li)
        if m is not None:
            return li, m
    return None


def counters(it, st, fr):
    """while loops: variables with a final `c += 1`"""
    out = {}
    for s in st.body:
        n = None
        if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and s.value.value == 1:
            n = s.target.id
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) \
                and isinstance(s.value.left, ast.Name) and s.value.left.id == s.targets[0].id and isinstance(s.value.right, ast.Constant) and s.value.right.value == 1:
            n = s.targets[0].id
        if n and n in fr.env and is_num(fr.env[n]):
            out[n] = lift(fr.env[n])
    return out


def inplace(body, name):
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
                return False
    return True


def claim(it, what, c):
    nm, f = c
    it.oblige(what % nm, f, 'inv')


def reachable(fr):
    """containers and objects of the program reachable from the function"""
    seen, todo = {id(fr.module.env): fr.module.env}, []
    f = fr
    while f is not None:
        seen[id(f.env)] = f.env
        todo += list(f.env.values())
        f = f.closure
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        if isinstance(v, (list, tuple, set)):
            seen[id(v)] = v
            todo += list(v)
        elif isinstance(v, dict):
            seen[id(v)] = v
            todo += list(v.values())
        elif isinstance(v, SObj):
            seen[id(v)] = v
            seen[id(v.attrs)] = v.attrs
            todo += list(v.attrs.values())
    return seen


def frame(it, fr, old, floor, now, free, held):
    """the iteration changes nothing but the variables of the loop, the arrays of the invariant and what it made itself"""
    for kind, cont, key, _ in it.undo[now:]:
        if cont is fr.env:
            if key in free:
                continue
        elif id(cont) in held:
            continue
        else:
            no = it.envs.get(id(cont)) if kind == 'dict' else getattr(cont, 'no', None)
            if no is not None and no > floor or no is None and id(cont) not in old:
                continue
        raise Unsupported('a loop with an invariant changes more than its variables (%s)' % (key,))


def run(it, st, fr, seq, li, roles):
    li.used += 1
    li.last = None
    isfor = seq is not None
    names = modified(st.body)
    cnts = {} if isfor else {n: e for n, e in counters(it, st, fr).items() if n not in roles.values()}
    entry = State({g: fr.env[n] for g, n in roles.items()})
    entry0 = State({g: (Arr(v.axes, v.snap(), v.kind) if isinstance(v, Arr) else v) for g, v in entry.items()})
    for c in (li.facts(entry0, ZERO) if li.facts else []):
        it.assume(c)
    for c in li.claims(entry0, ZERO):
        claim(it, li.name + ': %s at loop entry', c)
    if isfor:
        n = lift(seq.n)

    def havoc(k):
        vals = li.make(entry0, k) if li.make else {}
        for x in names:
            fr.env[x] = Poison('variable modified in a loop without an invariant for it')
        for x, e in cnts.items():
            fr.env[x] = e + k
        S = State()
        for g, nm in roles.items():
            want = li.roles[g]
            if isinstance(want, Optional_):
                want = want.v
            if isinstance(want, Unmodified):
                S[g] = entry0[g]
                continue
            if g in vals:
                v = vals[g]
            elif isinstance(want, tuple) and len(want) == 2:
                h = 'inv_%s_%s!%d' % (li.name, g, nid())
                v = Arr([axis(lift(d)) for d in want[0]], lambda idx, h=h: app(h, [t for _, t in idx]), 'num')
            elif is_num(entry0[g]):
                e = entry0[g]
                v = fresh('inv_' + g, isinstance(e, int) and not isinstance(e, bool) or (isinstance(e, T) and e.isint()))
            else:
                raise Unsupported('no havoc value for %s' % g)
            old = entry[g]
            if isinstance(old, Arr) and isinstance(v, Arr) and inplace(st.body, nm):
                if old.fwd is not None:
                    raise Unsupported('view modified by a loop with an invariant')
                # an array modified in place keeps its identity
                it.setloc('attr', old.cell, 'fn', v.cell.fn if v.cell is not None else v.snap())
                v = old
            fr.env[nm] = v
            S[g] = Arr(v.axes, v.snap(), v.kind) if isinstance(v, Arr) else v
        return S

    li.last = None
    gate = F(bapp('which!%d' % nid(), ()).t)
    k = fresh('k', True, 0)
    S = li.last = havoc(k)
    preserve = it.branch(gate)
    if preserve:
        if isfor:
            it.pc.append(smt.rawle(k, n - 1))
            it.pc.append(smt.rawle(ZERO, k))
        for c in (li.facts(S, k) if li.facts else []):
            it.assume(c)
        for nm, f in li.claims(S, k):
            it.assume(f)
        if isfor:
            it.assign(st.target, seq.elem(k), fr)
        elif not it.branch(tm.liftF(it.truth(it.eval(st.test, fr)))):
            raise PathEnd()
        old, floor, now = reachable(fr), _cellno[0], len(it.undo)
        free = set(names) | {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        held = {id(fr.env[nm].cell) for nm in roles.values() if isinstance(fr.env.get(nm), Arr)}
        try:
            it.block(st.body, fr)
        except Cont:
            pass
        except Brk:
            frame(it, fr, old, floor, now, free, held)
            return
        except (EngineError, PathEnd, Infeasible):
            raise
        except Exception:           # return or an exception of the program: the state after an arbitrary iteration
            frame(it, fr, old, floor, now, free, held)
            raise
        frame(it, fr, old, floor, now, free, held)
        S2 = State()
        for g, nm in roles.items():
            v = fr.env.get(nm)
            if isinstance(v, Poison) or v is None and entry0[g] is not None:
                raise Unsupported('loop variable for %s lost' % g)
            S2[g] = Arr(v.axes, v.snap(), v.kind) if isinstance(v, Arr) else v
        for x, e in cnts.items():
            if not provably(it, fr.env[x], e + k + 1):
                raise Unsupported('loop counter')
        for c in (li.facts(S2, k + 1) if li.facts else []):
            it.assume(c)
        for c in li.claims(S2, k + 1):
            claim(it, li.name + ': %s preserved', c)
        raise PathEnd()
    if isfor:
        # the number of iterations: n if n >= 0
        it.assume(eq(k, maxv(n, ZERO)))
        tg = [x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)]
        for x in tg:
            fr.env[x] = Poison('loop target after the loop')
    for c in (li.facts(S, k) if li.facts else []):
        it.assume(c)
    for nm, f in li.claims(S, k):
        it.assume(f)
    if not isfor and it.branch(tm.liftF(it.truth(it.eval(st.test, fr)))):
        raise PathEnd()
