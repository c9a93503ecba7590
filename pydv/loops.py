"""Closed-form summarisation of loops over a symbolic range.

The loop body is executed once for a generic iteration k from a havocked state.
The post-value of every modified location is matched against patterns whose
inductive closed form is known (accumulation, injective writes, last value);
the matching side conditions are proved.  No pattern -> Unsupported."""
from . import terms as tm
from .terms import *
from .arrays import *
from . import smt
from .interp import *
from .interp import Unsupported, MergeFail, Poison


DEBUG = False


class Appended:
    def __init__(self, v, name): self.v, self.name = v, name


def appended_name(it, st, fr, cont):
    """the variable of a list that the loop does nothing with but `name.append(x)`, when nothing else holds the list"""
    import ast
    from .loopinv import reachable
    holders = 0
    for c in reachable(fr).values():
        holders += sum(1 for x in (c.values() if isinstance(c, dict) else c if isinstance(c, (list, tuple)) else ()) if x is cont)
    names = [x for x, v in fr.env.items() if v is cont]
    if len(names) != 1 or holders != 1:
        return None
    nm = names[0]
    f = fr
    for v in fr.env.values():
        if isinstance(v, Func) and any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(v.node)):
            return None
    ok = {id(x.func.value) for b in st.body for x in ast.walk(b) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append'}
    for b in st.body:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and x.id == nm and id(x) not in ok:
                return None
    return nm


def summarise(it, st, fr, seq, guard=None, peeled=False):
    n = lift(seq.n)
    k = fresh('k', True, 0, n - 1)
    kid = tm.atom_of(k).id
    rng = [smt.rawle(ZERO, k), smt.rawle(k, n - 1)]

    def run_body():
        npc = len(it.pc)
        it.merging += 1
        try:
            it.pc.extend(rng)
            if guard is not None:
                def body():
                    it.assign(st.target, seq.elem(k), fr)
                    it.block(st.body, fr)
                it.merge_if(guard(k), body, lambda: None)
                return
            it.assign(st.target, seq.elem(k), fr)
            try:
                it.block(st.body, fr)
            except Cont:
                pass
            except Brk:
                raise Unsupported('break in a symbolic loop')
        except MergeFail as e:
            raise Unsupported('loop body: %s' % e)
        finally:
            it.merging -= 1
            del it.pc[npc:]

    growing = keyed(it, st, fr, seq, n) if not peeled and guard is None and not it.merging else []
    nobl = len(it.obligations)
    # probe
    m = it.mark()
    saved_ghost = dict(it.ghost)
    chk, it.check_defined = it.check_defined, False
    try:
        run_body()
    finally:
        locs = it.rollback(m)
        it.check_defined = chk
        del it.obligations[nobl:]
    targets = target_names(st.target)
    if not peeled and guard is None and not it.merging and \
            any(kind == 'dict' and cont is fr.env and is_num(old) and isinstance(new, Arr) for kind, cont, key, old, new in locs.values()):
        # a number that becomes an array (0 + array) in the first iteration: the first iteration apart, then the others
        c = it.decide(lt(ZERO, n))
        if not (it.branch(lt(ZERO, n)) if c is None else c):
            return
        it.assign(st.target, seq.elem(ZERO), fr)
        try:
            it.block(st.body, fr)
        except Cont:
            pass
        except Brk:
            return
        return summarise(it, st, fr, SymIter(n - 1, lambda j: seq.elem(lift(j) + 1)), None, True)
    preset = {}     # integer counters with a known closed form
    for _ in range(6):
        hav, ids = havoc(it, locs, targets, fr)
        m = it.mark()
        del it.obligations[nobl:]
        for (kind, cont, key), v in hav:
            v = preset.get((id(cont), key), v)
            it.setloc(kind, cont, key, v)
        m2 = it.mark()
        try:
            run_body()
        finally:
            locs2 = it.rollback(m2)
            it.rollback(m)
        new = [x for x in locs2 if x not in locs]
        if not new:
            more = counters(locs, locs2, ids, preset, k, kid)
            if not more:
                break
            preset.update(more)
        for x in new:
            locs[x] = locs2[x]
    else:
        raise Unsupported('loop modifies too many locations')
    it.appended = {id(cont): appended_name(it, st, fr, cont) for kind, cont, key, old, new in locs.values() if kind == 'list' and not old and guard is None}
    try:
        finals = resolve(it, n, k, kid, locs, locs2, ids, targets, fr)
    except Unsupported:
        # what the arbitrary iteration was asked for says nothing without the state it starts from
        del it.obligations[nobl:]
        raise
    # an obligation about what is carried over, stated for any such value, says nothing if it fails: the contract is then not decided
    it.obligations[nobl:] = [(o[0], o[1], o[2], 'inv') if not o[1] and 'hv!' in str(o[2]) else o for o in it.obligations[nobl:]]
    for (kind, cont, key), v in finals:
        if isinstance(v, Appended):
            it.setloc('dict', fr.env, v.name, v.v)
        else:
            it.setloc(kind, cont, key, v)
    for m in growing:
        m.growing = False
    if st.orelse:
        it.block(st.orelse, fr)


def keyed(it, st, fr, seq, n):
    """an empty dict that every iteration fills at its own class label: a map over the labels, with no entry yet"""
    import ast
    from .loopinv import reachable
    out = []
    if any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for b in st.body for x in ast.walk(b)):
        return out
    for b in st.body:
        if not (isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Subscript) and isinstance(b.targets[0].slice, ast.Name)):
            continue
        key, base = b.targets[0].slice.id, b.targets[0].value
        if key not in target_names(st.target) or not (isinstance(base, ast.Name) or isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name)):
            continue
        if any(isinstance(x, ast.Name) and x.id == key and isinstance(x.ctx, ast.Store) for c in st.body for x in ast.walk(c)):
            continue
        if isinstance(base, ast.Name) and base.id not in fr.env or isinstance(base, ast.Attribute) and base.value.id not in fr.env:
            continue
        o = it.eval(base, fr)
        if type(o) is not dict or o:
            continue
        own = None if isinstance(base, ast.Name) else fr.env[base.value.id]
        if own is not None and not isinstance(own, SObj):
            continue
        holders = sum(1 for c in reachable(fr).values() for x in (c.values() if isinstance(c, dict) else c if isinstance(c, (list, tuple)) else ()) if x is o)
        if holders != 1:
            continue

        def keyfn(j):
            x, t = seq.elem(lift(j)), st.target
            while isinstance(t, (ast.Tuple, ast.List)):
                i = [q for q, y in enumerate(t.elts) if key in target_names(y)][0]
                x, t = x[i], t.elts[i]
            return x
        try:
            m = SMap(axis(n), keyfn, lambda t: Poison('entry not there yet'), 'dict')
            u = fresh('u', True, 0, n - 1)
            if it.smap_index(m, keyfn(u)) is not u:
                continue
        except (EngineError, TypeError):
            continue
        m.growing = True
        out.append(m)
        if own is None:
            it.setloc('dict', fr.env, base.id, m)
        else:
            it.setattr(own, base.attr, m)
    return out


def counters(locs, locs2, ids, preset, k, kid):
    """integers that grow by an amount that depends on nothing that is carried over: their value in iteration k"""
    out = {}
    names = {info[1] for info in ids.values() if info[1]}
    for lk, (kind, cont, key, old, new) in locs.items():
        info = ids.get(lk)
        if info is None or info[0] != 'scalar' or info[2] or lk not in locs2 or (id(cont), key) in preset:
            continue
        post = locs2[lk][4]
        if not is_num(post) or not lift(post).isint() or not lift(old).isint():
            continue
        d = lift(post) - app(info[1], (), True)
        if has_h(lift(post), {info[1]}) and not has_h(d, names) and d.p:
            j = fresh('j', True, 0, k - 1)
            out[(id(cont), key)] = lift(old) + mksum(j, k, subst(d, {kid: j}))
    return out


def target_names(t):
    import ast
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


_hc = [0]


def hname():
    _hc[0] += 1
    return 'hv!%d' % _hc[0]


def havoc(it, locs, targets, fr):
    """returns list of ((kind, cont, key), value) and bookkeeping id -> info"""
    hav = []
    ids = {}
    for lk, (kind, cont, key, old, new) in locs.items():
        if kind == 'attr' and isinstance(cont, Cell):
            if key == 'wlog':
                hav.append(((kind, cont, key), lambda c: FALSE))
                continue
            nm = hname()
            isbool = False
            try:
                probe = old(tuple((0, fresh('z', True, 0, a[0].n - 1)) for a in cont.axes))
                isbool = isinstance(probe, F)
                isint = isinstance(probe, T) and probe.isint()
            except EngineError:
                isint = False

            def fn(idx, nm=nm, isbool=isbool, isint=False):
                args = [x for s, t in idx for x in ((t,) if s == 0 else (t, const(1000 + s)))]
                return bapp(nm, args) if isbool else app(nm, args, isint)
            hav.append(((kind, cont, key), fn))
            ids[lk] = ('cell', nm, isbool)
            continue
        if kind == 'attr' and isinstance(cont, SMap):
            ids[lk] = ('map', None)
            hav.append(((kind, cont, key), lambda t: Poison('map entry carried between iterations')))
            continue
        if kind == 'dict':
            if key in targets and cont is fr.env:
                ids[lk] = ('target', None)
                continue
            if old is it.MISSING:
                ids[lk] = ('temp', None)
                hav.append(((kind, cont, key), Poison('loop temporary %s' % (key,))))
                continue
            if is_num(old):
                nm = hname()
                isint = (isinstance(old, int) or (isinstance(old, T) and old.isint())) and \
                    (isinstance(new, int) or (isinstance(new, T) and new.isint()) or not isinstance(new, (T, F)))
                v = F(bapp(nm, ()).t) if isinstance(old, (F, bool)) else app(nm, (), isint)
                ids[lk] = ('scalar', nm, isinstance(old, (F, bool)))
                hav.append(((kind, cont, key), v))
                continue
            if isinstance(old, Arr):
                nm = hname()
                axes = old.axes
                v = Arr(axes, (lambda nm: lambda idx: app(nm, [x for s, t in idx for x in ((t,) if s == 0 else (t, const(1000 + s)))]))(nm), old.kind)
                ids[lk] = ('arrvar', nm)
                hav.append(((kind, cont, key), v))
                continue
            ids[lk] = ('other', None)
            hav.append(((kind, cont, key), Poison('loop carried %s' % (key,))))
            continue
        if kind == 'list':
            ids[lk] = ('list', None)
            continue
        raise Unsupported('loop modifies %s' % kind)
    return hav, ids


def has_h(t, names):
    """havoc names occurring in term t"""
    out = set()
    seen = set()

    def rec(t):
        if id(t) in seen:
            return
        seen.add(id(t))
        for m in t.p:
            for a, _ in m:
                A = ATOMS[a]
                if A.kind == 'app' and A.data[0] in names:
                    out.add(A.data[0])
                if A.kind == 'ind' and A.data[0] == 'b' and A.data[1] in names:
                    out.add(A.data[1])
                for c in tm.atom_children(A):
                    rec(c)
    rec(t)
    return out


def find_h(t, name):
    """application atoms of havoc function name in t (not under binders of other sums unless explicit)"""
    out = []
    seen = set()

    def rec(t):
        if id(t) in seen:
            return
        seen.add(id(t))
        for m in t.p:
            for a, _ in m:
                A = ATOMS[a]
                if (A.kind == 'app' and A.data[0] == name) or (A.kind == 'ind' and A.data[0] == 'b' and A.data[1] == name):
                    if A not in out:
                        out.append(A)
                for c in tm.atom_children(A):
                    rec(c)
    rec(t)
    return out


def map_h(t, table):
    """replace applications of havoc functions by table[name](args)"""
    names = set(table)
    if not has_h(t, names):
        return t
    res = ZERO
    for m, c in t.p.items():
        acc = const(c)
        for a, e in m:
            acc = mul(acc, tm.powatom(map_atom(ATOMS[a], table, names), e))
        res = add(res, acc)
    return res


def map_atom(A, table, names):
    k = A.kind
    if k == 'var':
        return atomT(A)
    if k == 'app':
        args = [map_h(x, table) for x in A.data[1]]
        if A.data[0] in names:
            return lift(table[A.data[0]](args))
        return tm.rebuild_app(A, args)
    if k == 'ind':
        if A.data[0] == 'b':
            args = [map_h(x, table) for x in A.data[2]]
            if A.data[1] in names:
                return liftF(table[A.data[1]](args)).t
            return bapp(A.data[1], args).t
        q = map_h(A.data[1], table)
        return (eq(q, ZERO) if A.data[0] == 'eq' else lt(q, ZERO)).t
    if k == 'poly':
        return map_h(A.data, table)
    if k == 'sum':
        vs, body = tm.open_sum(A)
        b = map_h(body, table)
        for v, n in reversed(vs):
            b = mksum(v, map_h(n, table), b)
        return b
    if k == 'bind':
        op, v, n, body = tm.open_bind(A)
        return mkbind(op, v, map_h(n, table), map_h(body, table))
    raise EngineError(k)


def resolve(it, n, k, kid, locs, locs2, ids, targets, fr):
    names = {info[1] for info in ids.values() if info[1]}
    rng = [smt.rawle(ZERO, k), smt.rawle(k, n - 1)]
    nonempty = None

    def isnonempty():
        nonlocal nonempty
        if nonempty is None:
            nonempty = it.decide(lt(ZERO, n))
        return nonempty
    table = {}      # resolved havoc name -> fn(args) giving the value at the start of iteration k
    finals = []
    pending = []
    wlogs = []
    for lk, (kind, cont, key, old, new0) in locs.items():
        info = ids.get(lk)
        if info is None:
            if kind == 'attr' and key == 'wlog' and lk in locs2:
                wlogs.append((cont, key, old, locs2[lk][4]))
            continue
        post = locs2[lk][4] if lk in locs2 else None
        if lk not in locs2:
            # not modified in the havocked run: unchanged
            if info[0] in ('scalar', 'cell', 'arrvar'):
                nm = info[1]
                if info[0] == 'cell':
                    table[nm] = (lambda old: lambda args: old(split_args(args)))(old)
                elif info[0] == 'arrvar':
                    table[nm] = (lambda f: lambda args: f(split_args(args)))(old.snap())
                else:
                    table[nm] = (lambda old: lambda args: lift(old) if not isinstance(old, (F, bool)) else liftF(old))(old)
            continue
        pending.append((lk, kind, cont, key, old, post, info))
    progress = True
    post_cells = {}
    while pending and progress:
        progress = False
        for item in list(pending):
            lk, kind, cont, key, old, post, info = item
            r = try_resolve(it, n, k, kid, item, names, table, rng, isnonempty, locs2)
            if r is None:
                continue
            final, closed = r
            if info[1]:
                table[info[1]] = closed
            finals.append(((kind, cont, key), final))
            pending.remove(item)
            progress = True
    if pending:
        raise Unsupported('loop-carried dependence through %s' % ', '.join(str(p[3]) for p in pending))
    for cont, key, old, post in wlogs:
        wf = it.ghost.pop(('wfin', id(cont)), None)
        wl = written(old, post, n, kid, table, names) if wf is None else \
            memoize((lambda wf, old: lambda c: forr(wf(c), old(c)) if old is not None else wf(c))(wf, old))
        finals.append((('attr', cont, key), wl))
    return finals


def written(old, post, n, kid, table, names):
    """write log after the loop: written before or by some iteration"""
    def wl(c):
        w = map_h(post(c).t, table)
        if has_h(w, names - set(table)):
            raise Unsupported('write log of a loop')
        if kid in w.fv:
            j = fresh('j', True, 0, n - 1)
            b = fnot(F(subst(w, {kid: j}))).t
            some = fnot(F(mkbind('all', j, n, b))) if b.const() is None else fnot(F(b))
        else:
            some = F(w)
        return forr(some, old(c)) if old is not None else some
    return memoize(wl)


def split_args(args):
    out = []
    for a in args:
        c = a.const()
        if c is not None and c >= 1000:
            out[-1] = (int(c) - 1000, out[-1][1])
        else:
            out.append((0, a))
    return tuple(out)


def try_resolve(it, n, k, kid, item, names, table, rng, isnonempty, locs2):
    lk, kind, cont, key, old, post, info = item
    typ = info[0]
    if typ == 'target' or typ == 'temp' or typ == 'other':
        # value after the loop: last iteration when it does not depend on unresolved state
        if typ == 'other' and post is old:
            return old, None
        try:
            ne = isnonempty()
            if ne:
                v = last_value(post, kid, n, names, table)
            else:
                v = None
        except EngineError:
            v = None
        if v is None:
            v = Poison('loop temporary %s after the loop' % (key,))
        return v, None
    if typ == 'scalar':
        nm, isb = info[1], info[2]
        if isinstance(post, Poison) or not is_num(post):
            return Poison('loop variable %s' % key), (lambda args: (_ for _ in ()).throw(Unsupported('poisoned')))
        p = (liftF(post).t if isb else lift(post))
        p = map_h(p, table)
        rest = has_h(p, names - set(table))
        if rest - {nm}:
            return None
        h = (bapp(nm, ()).t if isb else single_scalar(p, nm))
        if not rest:
            # last value
            o = liftF(old).t if isb else lift(old)
            pk1 = subst(p, {kid: k - 1})
            closed = (lambda args: wrap(ite(eq(k, ZERO), o, pk1), isb))
            ne = isnonempty()
            last = subst(p, {kid: n - 1})
            fin = last if ne else (ite(lt(ZERO, n), last, o))
            return (F(fin) if isb else fin), closed
        if isb:
            # conjunction / disjunction accumulation
            c1 = tm.replace_atom(p, tm.single_atom(h).id, ONE)
            c0 = tm.replace_atom(p, tm.single_atom(h).id, ZERO)
            raise_unsup(key)
        if h is None:
            raise_unsup(key)
        d = p - h
        if has_h(d, {nm}):
            # multiplicative / max patterns are not needed by the code base
            raise_unsup(key)
        j = fresh('j', True, 0, n - 1)
        body = subst(d, {kid: j})

        def upto(m):
            j2 = fresh('j', True, 0, m - 1)
            return lift(old) + mksum(j2, m, subst(d, {kid: j2}))
        fin = lift(old) + mksum(j, n, body)
        return fin, (lambda args: upto(k))
    if typ in ('cell', 'arrvar'):
        nm = info[1]
        axes = cont.axes if typ == 'cell' else old.axes
        if typ == 'arrvar':
            if not isinstance(post, Arr):
                return Poison('loop variable %s' % key), (lambda args: (_ for _ in ()).throw(Unsupported('poisoned')))
            if not (post.ndim == old.ndim and all(axis_same(a, b) for a, b in zip(post.axes, old.axes))):
                raise_unsup(key)
            pf, of = post.snap(), old.snap()
            wf = None
        else:
            pf, of = post, old
            wk = ('attr', id(cont), 'wlog')
            wf = locs2[wk][4] if wk in locs2 else None
        isb = (typ == 'cell' and info[2])
        # evaluate at generic indices (per segment combination)
        def generic(idx):
            p = pf(idx)
            p = (liftF(p).t if isb else lift(p))
            return map_h(p, table)
        combos = it.skolem(axes)[0]
        # dependency check first
        gens = []
        for idx, h in [(tuple((si, fresh('u', True, 0, ax[si].n - 1)) for si, ax in zip(c, axes)), None) for c in seg_combos(axes)]:
            p = generic(idx)
            rest = has_h(p, names - set(table))
            if rest - {nm}:
                return None
            gens.append((idx, p, rest))
        plans = [array_plan(it, n, k, kid, idx, p, rest, nm, of, wf, isb, rng, key, isnonempty, table) for idx, p, rest in gens]

        def inst(which, idx, upto):
            c = tuple(s for s, _ in idx)
            for (gidx, p, rest), pl in zip(gens, plans):
                if tuple(s for s, _ in gidx) == c:
                    sub = {tm.atom_of(v).id: t for (_, v), (_, t) in zip(gidx, idx)}
                    r = pl(sub, idx, upto)
                    return F(r) if isb else r
            raise EngineError('segment')
        fin = memoize(lambda idx: inst(None, idx, n))
        if typ == 'cell' and all(hasattr(pl, 'wsum') for pl in plans):
            def wfin(idx):
                c = tuple(s for s, _ in idx)
                for (gidx, p, rest), pl in zip(gens, plans):
                    if tuple(s for s, _ in gidx) == c:
                        return F(pl.wsum({tm.atom_of(v).id: t for (_, v), (_, t) in zip(gidx, idx)}, idx, n))
            it.ghost[('wfin', id(cont))] = wfin
        closed = lambda args: inst(None, split_args(args), k)
        if typ == 'cell':
            return fin, closed
        return Arr(old.axes, fin, old.kind), closed
    if typ == 'map':
        ws = it_map_writes(it, cont, post, k)
        i, v = ws
        ni, ni0 = i, None
        # injective: key index is exactly k + const
        off = i - k
        if kid in off.fv:
            raise_unsup(key)
        oldfn = old

        def fn(t):
            t = lift(t)
            inr = fand(fnot(lt(t - off, ZERO)), lt(t - off, n))
            d = it.decide(inr)
            if d is True:
                v2 = subst_value(v, {kid: t - off})
                return map_value(v2, table)
            if d is False:
                return oldfn(t)
            raise Unsupported('map entry that may not be written')
        return fn, None
    if typ == 'list':
        # one element appended in every iteration: the list of these elements
        name = it.appended.get(id(cont))
        if name is None or len(post) != 1:
            raise Unsupported('list modified in a symbolic loop')
        x = post[0]
        if is_num(x):
            parts = [liftF(x).t if isinstance(x, (F, bool)) else lift(x)]
        elif isinstance(x, Arr):
            sn = x.snap()
            parts = [lift(sn(tuple((si, fresh('u', True, 0, ax[si].n - 1)) for si, ax in zip(c, x.axes)))) for c in seg_combos(x.axes)] if x.kind != 'bool' else None
        else:
            parts = None
        if parts is None:
            raise Unsupported('list modified in a symbolic loop')
        if any(has_h(map_h(q, table), names - set(table)) for q in parts):
            return None
        if is_num(x):
            v = F(map_h(parts[0], table)) if isinstance(x, (F, bool)) else map_h(parts[0], table)
        else:
            v = Arr(x.axes, lambda i: map_h(lift(sn(i)), table), x.kind)
        return Appended(it.param_list(n, kid, v), name), None
    return None


def map_value(v, table):
    return v


def it_map_writes(it, smap, post, k):
    # value at key k (the only pattern supported: one write per iteration at index k+c)
    ws = it.ghost.get(('mapw', id(smap)), [])
    kid = tm.atom_of(k).id
    ws = [w for w in ws if kid in w[0].fv]
    if not ws:
        raise Unsupported('map written at an unsupported key')
    i = ws[-1][0]
    if any(w[0] is not i for w in ws):
        raise Unsupported('map written at several keys in one iteration')
    v = post(i)
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    return i, v


def wrap(t, isb):
    return F(t) if isb else t


def raise_unsup(key):
    raise Unsupported('loop-carried variable %s' % (key,))


def single_scalar(p, nm):
    for A in find_h(p, nm):
        return atomT(A)
    return None


def last_value(post, kid, n, names, table):
    if is_num(post):
        p = post.t if isinstance(post, F) else lift(post)
        p = map_h(p, table)
        if has_h(p, names - set(table)):
            return None
        v = subst(p, {kid: n - 1})
        return F(v) if isinstance(post, F) else v
    return None


def seg_combos(axes):
    out = [()]
    for ax in axes:
        out = [c + (i,) for c in out for i in range(len(ax))]
    return out


def array_plan(it, n, k, kid, idx, p, rest, nm, of, wf, isb, rng, key, isnonempty, table):
    """-> fn(sub, idx, upto) giving the closed form after `upto` iterations"""
    args = [x for s, t in idx for x in ((t,) if s == 0 else (t, const(1000 + s)))]
    H = (bapp(nm, args).t if isb else app(nm, args))

    def A0(i):
        v = of(i)
        return liftF(v).t if isb else lift(v)
    if p is H:
        return lambda sub, i, upto: A0(i)
    HA = tm.single_atom(H)
    d = p - H
    if not has_h(d, {nm}) and not isb:
        # pure accumulation
        def acc(sub, i, upto):
            j = fresh('j', True, 0, upto - 1)
            return A0(i) + mksum(j, upto, subst(subst(d, {kid: j}) if True else d, sub))
        return acc_fix(acc, d, kid, A0)
    if not has_h(p, {nm}):
        # overwritten completely in every iteration: last value
        def lastv(sub, i, upto):
            v = subst(p, {**sub, kid: upto - 1})
            if upto is n and isnonempty():
                return v
            return ite(lt(ZERO, upto), v, A0(i))
        if wf is None or True:
            return lastv
    # written under condition w(u,k)
    if wf is None:
        raise_unsup(key)
    w = map_h(wf(idx).t, table)
    if has_h(w, {nm}):
        raise_unsup(key)
    if kid not in w.fv:
        raise_unsup(key)
    # injectivity: w(u,k) and w(u,k2), k2 < k impossible
    k2 = fresh('k2', True, 0, n - 1)
    w2 = subst(w, {kid: k2})
    hy = list(it.pc) + rng + [smt.rawle(ZERO, k2), smt.rawle(k2, k - 1)]
    ok = F(w * w2).const() is False or smt.prove(fnot(fand(F(w), F(w2))), hy, it.facts)[0]
    if not ok:
        raise_unsup('%s (writes of different iterations may overlap)' % (key,))
    # outside w the element keeps its value
    if not unchanged(p, H, w, list(it.pc) + rng, it.facts):
        if DEBUG: print('P', tm.show(p)[:3000], '\nH', tm.show(H), '\nW', tm.show(w)[:2000])
        raise_unsup('%s (element changed outside the recorded writes)' % (key,))
    # value written, under w
    v = simp_under(p, F(w))
    # replace reads of the array by its initial contents where no earlier iteration wrote there
    tab = {}
    for A in find_h(v, nm):
        pass

    def rd(args2):
        i2 = split_args(args2)
        if len(i2) != len(idx):
            raise_unsup(key)
        sub = {tm.atom_of(t).id: t2 for (_, t), (_, t2) in zip(idx, i2)}
        wr = subst(subst(w, {kid: k2}), sub)     # was it written by an earlier iteration k2 < k
        if F(wr * w).const() is False or smt.prove(fnot(fand(F(w), F(wr))), hy, it.facts)[0]:
            return A0(i2)
        raise_unsup('%s (reads entries written by earlier iterations)' % (key,))
    if has_h(v, {nm}):
        sc = scan_plan(it, k, kid, idx, w, v, nm, A0, rng)
        if sc is not None:
            return sc
        v = map_h(v, {nm: rd})
    body = w * v

    def plan(sub, i, upto):
        j = fresh('j', True, 0, upto - 1)
        wj = subst(subst(w, {kid: j}), sub)
        bj = subst(subst(body, {kid: j}), sub)
        S = mksum(j, upto, wj)
        return A0(i) * (ONE - S) + mksum(j, upto, bj)

    def wsum(sub, i, upto):      # at most one iteration writes the element
        j = fresh('j', True, 0, upto - 1)
        return mksum(j, upto, subst(subst(w, {kid: j}), sub))
    plan.wsum = wsum
    return plan


def scan_plan(it, k, kid, idx, w, v, nm, A0, rng):
    """running sum: iteration k writes entry k+c (along one axis) with  entry k+c-1 + g(k),  c >= 1,
    where g reads no entry written by earlier iterations.  Entry u after the loop: A0(c-1) + g(0) + ... + g(u-c)"""
    W = tm.single_atom(w)
    if W is None or W.kind != 'ind' or W.data[0] != 'eq':
        return None
    ax = c = None
    for i, (s, u) in enumerate(idx):
        for sg in (1, -1):
            d = (W.data[1] * sg + k - u).const()
            if d is not None and (W.data[1] * sg + k - u).const() is not None:
                ax, c = i, -d
                break
        if ax is not None:
            break
    if ax is None or c.denominator != 1 or c < 1:
        return None
    c = int(c)
    seg, u = idx[ax]
    v = subst(v, {tm.atom_of(u).id: k + c})
    prevs = []

    def rd(args):
        i2 = split_args(args)
        if len(i2) != len(idx):
            raise_unsup(nm)
        r = i2[ax][1]
        if i2[ax][0] != seg:
            return A0(i2)
        d = (r - k - c).const()
        if d is not None and d >= 0:        # written by this or a later iteration
            return A0(i2)
        if d == -1 and all(a[0] == b[0] and a[1] is b[1] for j, (a, b) in enumerate(zip(i2, idx)) if j != ax):
            return P
        if smt.prove(lt(r, const(c)), list(it.pc) + rng, it.facts)[0]:
            return A0(i2)
        raise Unsupported('array entries written by earlier iterations')
    P = tm.fresh('prev', False)
    pid = tm.atom_of(P).id
    v = map_h(v, {nm: rd})
    g = v - P
    if pid not in v.fv and not any(pid in ATOMS[a].fv or a == pid for m in v.p for a, _ in m):
        return None
    if any(a == pid or pid in ATOMS[a].fv for m in g.p for a, _ in m):
        raise Unsupported('recurrence over array entries')
    at = lambda i, r: tuple((seg, lift(r)) if j == ax else x for j, x in enumerate(i))
    plain = g is A0(at(idx, k + c)) and c == 1

    def plan(sub, i, upto):
        r = i[ax][1]
        j = fresh('j', True, 0, None)
        if plain:
            j = fresh('j', True, 0, r)
            S = mksum(j, r + 1, A0(at(i, j)))
            return ite(lt(r, upto + 1), S, A0(i))
        m = r - c
        j = fresh('j', True, 0, m)
        S = A0(at(i, c - 1)) + mksum(j, m + 1, subst(g, {**sub, kid: j}))
        return ite(fand(fnot(lt(m, ZERO)), lt(m, upto)), S, A0(i))

    def wsum(sub, i, upto):
        m = i[ax][1] - c
        return fand(fnot(lt(m, ZERO)), lt(m, upto)).t
    plan.wsum = wsum
    return plan


def unchanged(p, H, w, hy, facts, depth=0):
    """p = H wherever w is false; by cases over the indicators of w"""
    w, p = smt.simp_hyps(w, hy), smt.simp_hyps(p, hy)
    c = w.const()
    if c == 1:
        return True
    if c == 0 or depth > 6:
        return p is H or smt.prove_eq(p, H, hy + [fnot(F(w))], facts)[0]
    for m in w.p:
        for a, _ in m:
            A = ATOMS[a]
            if A.kind == 'ind':
                t = F(atomT(A))
                return all(unchanged(tm.replace_atom(p, a, v), H, tm.replace_atom(w, a, v), hy + [h], facts, depth + 1)
                           for v, h in ((ONE, t), (ZERO, fnot(t))))
    return smt.prove_eq(p, H, hy + [fnot(F(w))], facts)[0]


def acc_fix(acc, d, kid, A0):
    def f(sub, i, upto):
        j = fresh('j', True, 0, upto - 1)
        return A0(i) + mksum(j, upto, subst(d, {**sub, kid: j}))
    return f


def simp_under(p, w):
    """simplify p knowing that the condition w holds"""
    return smt.simp_hyps(p, smt.conjuncts(w))
