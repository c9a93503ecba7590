"""Symbolic numpy arrays: pull functions over (possibly filtered / concatenated) symbolic axes,
stored in mutable cells so that views alias and writes go through."""
from fractions import Fraction
from . import terms as tm
from .terms import *


class Seg:
    """a range [0,n) filtered by guard"""
    __slots__ = ('n', 'guard', 'gkey')

    def __init__(self, n, guard=None, gkey=None):
        self.n = lift(n)
        self.guard = guard
        self.gkey = gkey

    def same(self, o):
        return self.n is o.n and self.gkey == o.gkey

    def g(self, t):
        return TRUE if self.guard is None else self.guard(t)


def axis(n):
    return (Seg(n),)


def axis_same(a, b):
    return len(a) == len(b) and all(x.same(y) for x, y in zip(a, b))


def axis_len(a):
    r = ZERO
    for s in a:
        if s.guard is None:
            r = r + s.n
        else:
            r = r + Sum(s.n, lambda t: s.guard(t).t)
    return r


def is_plain(a):
    return len(a) == 1 and a[0].guard is None


def is_one(a):
    return is_plain(a) and a[0].n.const() == 1


_cellno = [0]


class Cell:
    __slots__ = ('fn', 'axes', 'name', 'no', 'memo', 'wlog', 'frozen', 'narrow')

    def __init__(self, axes, fn, name=None):
        self.axes = list(axes)
        self.fn = fn
        self.memo = {}
        self.name = name
        _cellno[0] += 1
        self.no = _cellno[0]
        self.wlog = None
        self.frozen = False
        self.narrow = None


def norm_idx(ax, i):
    if isinstance(i, tuple):
        return (i[0], lift(i[1]))
    return (0, lift(i))


def memoize(fn):
    memo = {}

    def g(idx):
        k = tuple((s, t.key) for s, t in idx)
        r = memo.get(k)
        if r is None:
            r = fn(idx)
            memo[k] = r
        return r
    return g


class Arr:
    """ndarray value.  kind in {'num','int','bool','lab','obj'}"""

    def __init__(self, axes, fn=None, kind='num', cell=None, fwd=None, inv=None, name=None, islist=False):
        self.axes = [tuple(a) for a in axes]
        self.kind = kind
        if cell is None:
            cell = Cell(self.axes, memoize(fn), name)
        self.cell = cell
        self.fwd = fwd
        self.inv = inv
        self.meta = {}
        self.islist = islist

    @property
    def ndim(self): return len(self.axes)

    def snap(self):
        f = self.cell.fn
        if self.fwd is None:
            return f
        fwd = self.fwd
        return lambda idx: f(fwd(idx))

    def at(self, *idx):
        return self.snap()(tuple(norm_idx(a, i) for a, i in zip(self.axes, idx)))

    # convenience for specifications: concrete-looking indexing
    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        if len(ks) != self.ndim:
            raise EngineError('specification indexing of a %d-d array with %d indices' % (self.ndim, len(ks)))
        out = []
        for a, x in zip(self.axes, ks):
            if isinstance(x, int) and x < 0:
                x = axis_len(a) + x
            out.append(x)
        return self.at(*out)

    def __len__(self):
        c = axis_len(self.axes[0]).const()
        if c is None:
            raise EngineError('symbolic length')
        return int(c)

    def __eq__(self, o): return self is o

    def __hash__(self): return id(self)

    def __repr__(self):
        return 'Arr(%s, %s)' % ('x'.join(show(axis_len(a)) for a in self.axes), self.kind)


def view(a, axes, fwd, inv, kind=None):
    """view of a; fwd: new idx -> a idx ; inv: a idx -> (F, new idx)"""
    of, oi = a.fwd, a.inv

    def nf(idx):
        j = fwd(idx)
        return of(j) if of else j

    def ni(cidx):
        if oi:
            c, j = oi(cidx)
        else:
            c, j = TRUE, cidx
        c2, k = inv(j)
        return fand(c, c2), k
    r = Arr(axes, kind=kind or a.kind, cell=a.cell, fwd=nf, inv=ni)
    r.islist = a.islist
    return r


def pure(axes, fn, kind='num', **kw):
    return Arr(axes, fn, kind, **kw)


def fresh_index(ax, name='u'):
    """list of (seg number, fresh variable, range/guard hypothesis) for the segments of an axis"""
    out = []
    for i, s in enumerate(ax):
        v = fresh(name, True, 0, s.n - 1)
        out.append((i, v, s.g(v)))
    return out


def reduce_sum(a, axs):
    """sum over a set of axes -> python function of remaining index tuple"""
    f = a.snap()
    keep = [i for i in range(a.ndim) if i not in axs]
    axes = a.axes

    def fn(idx):
        full = [None] * len(axes)
        for i, x in zip(keep, idx):
            full[i] = x

        def rec(j):
            if j == len(axs):
                return lift(f(tuple(full)))
            ax = axes[axs[j]]
            r = ZERO
            for si, s in enumerate(ax):
                cn = s.n.const()
                if cn is not None and cn <= 12:
                    for q in range(int(cn)):
                        full[axs[j]] = (si, const(q))
                        r = r + s.g(const(q)).t * rec(j + 1)
                    continue
                v = fresh('s', True, 0, s.n - 1)
                full[axs[j]] = (si, v)
                r = r + mksum(v, s.n, s.g(v).t * rec(j + 1))
            return r
        return rec(0)
    return [axes[i] for i in keep], fn


def reduce_bind(a, op, ax_i):
    """max/min/all/argmax over one axis"""
    f = a.snap()
    ax = a.axes[ax_i]
    rest = a.axes[:ax_i] + a.axes[ax_i + 1:]

    def fn(idx):
        if not (len(ax) == 1):
            raise EngineError('%s over a concatenated axis' % op)
        s = ax[0]
        cn = s.n.const()

        def el(q):
            return lift(f(idx[:ax_i] + ((0, q),) + idx[ax_i:]))
        if cn is not None and cn <= 12 and s.guard is None and op in ('max', 'min', 'all', 'any', 'argmax', 'argmin'):
            els = [el(const(q)) for q in range(int(cn))]
            if op == 'all':
                return fand(*[F(x) for x in els])
            if op == 'any':
                return forr(*[F(x) for x in els])
            if op in ('argmax', 'argmin'):
                bi, bv = ZERO, els[0]
                for q in range(1, len(els)):
                    c = lt(bv, els[q]) if op == 'argmax' else lt(els[q], bv)
                    bi, bv = ite(c, const(q), bi), ite(c, els[q], bv)
                return bi
            r = els[0]
            for x in els[1:]:
                r = maxv(r, x) if op == 'max' else minv(r, x)
            return r
        v = fresh('s', True, 0, s.n - 1)
        body = el(v)
        if op == 'all':
            b = fnot(fand(s.g(v), fnot(F(body)))).t
            if b.const() == 1:
                return TRUE
            return F(mkbind('all', v, s.n, b))
        if op == 'any':
            b = fnot(fand(s.g(v), F(body))).t
            if b.const() == 1:
                return FALSE
            return fnot(F(mkbind('all', v, s.n, b)))
        if s.guard is not None:
            # guarded max/min: carried as an extra argument through a pair encoding
            return app('%s_guarded' % op, (mkbind('pair', v, s.n, s.g(v).t), mkbind('pair', v, s.n, body)))
        if tm.atom_of(v).id not in body.fv and op in ('max', 'min'):
            return body
        return mkbind(op, v, s.n, body)
    return rest, fn


def subst_axis(ax, sub):
    out = []
    for s in ax:
        n = subst(s.n, sub)
        if s.guard is None:
            out.append(Seg(n))
        else:
            g = s.guard
            out.append(mkseg(n, (lambda g: lambda t: subst_guard(g, t, sub))(g)))
    return tuple(out)


def subst_guard(g, t, sub):
    # t itself must not be affected by the substitution: use a fresh variable
    v = fresh('g', True)
    b = tm.atom_of(t) if tm.single_atom(t) is not None and tm.single_atom(t).kind == 'var' else None
    if b is not None and b.id in tm.BOUNDS:
        tm.BOUNDS[tm.atom_of(v).id] = tm.BOUNDS[b.id]
    r = subst(g(v).t, sub)
    return F(subst(r, {tm.atom_of(v).id: t}))


_gv = {}


def mkseg(n, guard):
    n = lift(n)
    v = _gv.get(n)
    if v is None:
        v = _gv[n] = fresh('gk', True, 0, n - 1)
    return Seg(n, guard, guard(v).t.key)


def filt(ax, masks):
    """filter an axis with a mask function (seg, t) -> F"""
    out = []
    for i, s in enumerate(ax):
        def g(t, i=i, s=s):
            return fand(s.g(t), masks((i, t)))
        out.append(mkseg(s.n, g))
    return tuple(out)


def subst_arr(a, sub):
    f = a.snap()

    def fn(idx):
        # protect the index terms from the substitution
        ren, back, new = {}, {}, []
        for s, t in idx:
            if t.fv & sub.keys():
                v = fresh('q', True)
                A = tm.single_atom(t)
                if A is not None and A.id in tm.BOUNDS:
                    tm.BOUNDS[tm.atom_of(v).id] = tm.BOUNDS[A.id]
                back[tm.atom_of(v).id] = t
                new.append((s, v))
            else:
                new.append((s, t))
        r = f(tuple(new))
        if isinstance(r, F):
            return F(subst(subst(r.t, sub), back))
        if isinstance(r, T):
            return subst(subst(r, sub), back)
        from .interp import subst_value
        return subst_value(subst_value(r, sub), back)
    b = Arr([subst_axis(x, sub) for x in a.axes], fn, a.kind)
    b.meta = dict(a.meta)
    b.islist = a.islist
    return b
