"""Contract of numpy.random.RandomState: arbitrary draws that satisfy what each method documents.
The k-th draw is one function of the seed (or of the source given), k and the arguments of the call, so two sources with the
same seed give the same values and nothing else does.  Assumed, listed in the evidence."""
from . import terms as tm
from .terms import *
from .arrays import *
from .interp import *
from .interp import SExc, PyRaise, Unsupported, MergeFail

# label functions at drawn positions: (label function, draw) -> class
DRAWN = {}


def drawn_label(nm, args):
    """the class of an example drawn among the examples of one class"""
    x, = args
    A = tm.single_atom(x)
    if A is not None:
        return DRAWN.get((nm, A.data[0])) if A.kind == 'app' else None
    inds = [a for m in x.p for a, e in m if ATOMS[a].kind == 'ind']
    if not inds:
        return None
    i = inds[0]
    one, zero = tm.replace_atom(x, i, ONE), tm.replace_atom(x, i, ZERO)
    c = atomT(ATOMS[i])
    return c, one, zero


def _appsimp(nm):
    def f(args):
        if not DRAWN:
            return None
        r = drawn_label(nm, args)
        if isinstance(r, tuple):
            c, one, zero = r
            return c * tm.app(nm, (one,), True) + (1 - c) * tm.app(nm, (zero,), True)
        return None if r is None else const(r)
    return f


def _bappsimp(nm):
    def f(args):
        if not DRAWN:
            return None
        r = drawn_label(nm, args)
        if isinstance(r, tuple):
            c, one, zero = r
            return F(c * tm.bapp(nm, (one,)).t + (1 - c) * tm.bapp(nm, (zero,)).t)
        return None if r is None else F(const(r))
    return f


def labels(nm, two):
    """called when a label vector is created"""
    tm.APPSIMP.pop(nm, None)
    tm.BAPPSIMP.pop(nm, None)
    for k in [k for k in DRAWN if k[0] == nm]:
        del DRAWN[k]
    (tm.BAPPSIMP if two else tm.APPSIMP)[nm] = (_bappsimp if two else _appsimp)(nm)


def guard_label(g, v):
    """(label function, class) when the guard says that position v has one class"""
    p = tm.single_atom(g)
    neg = False
    if p is None:
        p = tm.single_atom(1 - g)
        neg = True
    if p is None or p.kind != 'ind':
        return None
    if p.data[0] == 'b' and len(p.data[2]) == 1 and p.data[2][0] is v:
        return p.data[1], 0 if neg else 1
    if p.data[0] == 'eq' and not neg:
        q = p.data[1]
        for m in q.p:
            if len(m) == 1 and m[0][1] == 1:
                A = ATOMS[m[0][0]]
                if A.kind == 'app' and len(A.data[1]) == 1 and A.data[1][0] is v:
                    s = q.p[m]
                    k = ((atomT(A) * s - q) * (1 / s)).const()
                    if k is not None:
                        return A.data[0], int(k)
    return None


class SymRng:
    """a random source; stream: what its draws are a function of"""
    count = 0

    def __init__(self, it, stream, step=0):
        self.it, self.stream, self.step = it, stream, step

    def sym_isinstance(self, c):
        return isinstance(c, Ext) and c.name in ('numpy.random.RandomState', 'numpy.random.mtrand.RandomState')

    def sym_copy(self, it): return SymRng(it, self.stream, self.step)

    def name(self, kind, *args):
        if self.it.merging:
            raise MergeFail('random draw in a merged region')
        self.it.assumed.add('numpy.random.RandomState.' + kind)
        made = self.it.__dict__.setdefault('draws', {}).setdefault((self.stream, self.step, kind), [])
        self.it.setloc('attr', self, 'step', self.step + 1)
        for other, nm in made:
            if len(other) == len(args) and all(self.equal(x, y) for x, y in zip(args, other)):
                return nm
        SymRng.count += 1
        nm = '%s!%d' % (kind, SymRng.count)
        made.append((args, nm))
        return nm

    def equal(self, x, y):
        if isinstance(x, T) and isinstance(y, T):
            return x is y or self.it.decide(eq(x, y)) is True
        return type(x) is type(y) and not isinstance(x, T) and x == y

    def sym_getattr(self, it, name):
        if name in ('randint', 'choice', 'dirichlet'):
            return getattr(self, 'd_' + name)
        raise Unsupported('RandomState.' + name)

    def size(self, size):
        if size is None:
            return None
        if isinstance(size, (tuple, list)):
            return [lift(self.it.as_int(s)) for s in size]
        return [lift(self.it.as_int(size))]

    def known(self, dims):
        """positions of an array of known size"""
        cs = [d.const() for d in dims]
        if any(c is None or c > 64 for c in cs):
            raise Unsupported('number of draws')
        out = [()]
        for c in cs:
            out = [o + (q,) for o in out for q in range(int(c))]
        return out

    def d_randint(self, low, high=None, size=None, dtype=None):
        it = self.it
        if high is None:
            low, high = 0, low
        low, high = lift(low), lift(high)
        if not (low.isint() and high.isint()):
            raise Unsupported('randint of non-integers')
        if not it.branch(lt(low, high)):
            raise PyRaise(SExc('ValueError', ('low >= high',)))
        dims = self.size(size)
        nm = self.name('randint', low, high, *(dims if dims is not None else ['one']))
        tm.APP_BOUNDS[nm] = lambda *a: (low, high - 1)
        for q in self.known(dims or []):
            v = app(nm, [const(x) for x in q], True)
            it.assume(tm.fnot(lt(v, low)))
            it.assume(lt(v, high))
        if dims is None:
            return app(nm, (), True)
        return Arr([axis(d) for d in dims], lambda i: app(nm, [t for _, t in i], True), 'int')

    def d_dirichlet(self, alpha, size=None):
        it = self.it
        if alpha is None or is_num(alpha):
            raise PyRaise(SExc('TypeError', ('alpha',)))
        alpha = it.np.arr(alpha)
        K = axis_len(alpha.axes[0])
        Kc = K.const()
        if alpha.ndim != 1 or Kc is None:
            raise Unsupported('dirichlet')
        f = alpha.snap()
        for k in range(int(Kc)):
            if not it.branch(lt(ZERO, lift(f(((0, const(k)),))))):
                raise PyRaise(SExc('ValueError', ('alpha <= 0',)))
        dims = self.size(size) or []
        from .npmodel import lam
        nm = self.name('dirichlet', lam(alpha), *dims)
        tm.APP_BOUNDS[nm] = lambda *a: (ZERO, ONE)
        n = int(Kc)
        for q in self.known(dims):
            it.assume(tm.fnot(lt(ONE, sum((app(nm, [const(x) for x in q + (k,)]) for k in range(n - 1)), ZERO))))

        def value(idx):
            ts = [t for _, t in idx]
            last = ONE - sum((app(nm, ts[:-1] + [const(k)]) for k in range(n - 1)), ZERO)
            k = ts[-1].const()
            if k is not None:
                return last if k == n - 1 else app(nm, ts)
            return tm.ite(eq(ts[-1], const(n - 1)), last, app(nm, ts))
        return Arr([axis(d) for d in dims] + [axis(n)], value, 'num')

    def d_choice(self, a, size=None, replace=True, p=None):
        it = self.it
        from .npmodel import lam
        dims = self.size(size)
        if replace is not True:
            raise Unsupported('choice without replacement')
        mask = None
        if isinstance(a, Arr):
            if a.ndim != 1 or len(a.axes[0]) != 1:
                raise Unsupported('choice')
            s = a.axes[0][0]
            v = fresh('v', True, 0, s.n - 1)
            if lift(a.snap()(((0, v),))) is not v:
                raise Unsupported('choice among values')
            n = s.n
            if s.guard is not None:
                mask = guard_label(s.g(v).t, v)
                if mask is None:
                    raise Unsupported('choice among positions of another form')
            count = axis_len(a.axes[0])
        elif isinstance(a, range):
            n = count = lift(len(a)) if a.start == 0 and a.step == 1 else None
        elif isinstance(a, SymIter):
            v = fresh('v', True, 0, lift(a.n) - 1)
            if lift(a.elem(v)) is not v:
                raise Unsupported('choice among values')
            n = count = lift(a.n)
        elif is_num(a):
            n = count = lift(a)
        else:
            raise Unsupported('choice')
        if n is None:
            raise Unsupported('choice')
        if not it.branch(lt(ZERO, count)):
            raise PyRaise(SExc('ValueError', ('empty',)))
        if p is not None:
            p = it.np.arr(p)
            if p.ndim != 1 or mask is not None:
                raise Unsupported('choice with probabilities')
            f = p.snap()
            it.np.same_axis(p.axes[0], axis(n))
            if it.decide(eq(it.np.m_sum(p), ONE)) is not True:
                raise Unsupported('probabilities that do not add up to one')
            j = fresh('j', True, 0, n - 1)
            if not tm.nonneg(lift(f(((0, j),)))) and it.decide(tm.fnot(lt(lift(f(((0, j),))), ZERO))) is not True:
                raise Unsupported('negative probabilities')
        nm = self.name('choice', n, str(mask), lam(a) if isinstance(a, Arr) and mask else 'all', lam(p) if p is not None else 'uniform', *(dims if dims is not None else ['one']))
        tm.APP_BOUNDS[nm] = lambda *a: (ZERO, n - 1)
        if mask is not None:
            DRAWN[(mask[0], nm)] = mask[1]
        if dims is None:
            return app(nm, (), True)
        return Arr([axis(d) for d in dims], lambda i: app(nm, [t for _, t in i], True), 'int')


def restart(it, st, fr, heads, rngs):
    """a loop that comes back to its head in a former state but for the random draws and variables that are not read:
    what follows has been covered by the paths from that state, for any draws (partial correctness: the end of the loop is not claimed)"""
    import ast
    if it.merging or it.floors:
        return False
    now = len(it.undo)
    for h in heads:
        drew = False
        ok = True
        for kind, cont, key, old in first_writes(it.undo[h:now]):
            if isinstance(cont, SymRng):
                drew = True
                continue
            if kind == 'dict' and cont is fr.env and dead(st, fr, key):
                continue
            cur = it.getloc(kind, cont, key)
            if cur is old or (isinstance(cur, (int, str, bool)) and type(cur) is type(old) and cur == old):
                continue
            ok = False
            break
        if ok and drew:
            return True
    heads.append(now)
    return False


def first_writes(log):
    seen = set()
    for e in log:
        k = (e[0], id(e[1]), e[2])
        if k not in seen:
            seen.add(k)
            yield e


def dead(st, fr, name):
    """assigned in each iteration before it is read, and not read after the loop"""
    import ast

    def loads(x):
        return any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Load) for y in ast.walk(x))

    def mentions(x):
        return any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x))
    if not isinstance(name, str) or fr.func is None or mentions(st.test):
        return False
    first = next((s for s in st.body if mentions(s)), None)
    if not (isinstance(first, ast.Assign) and len(first.targets) == 1 and isinstance(first.targets[0], ast.Name) and first.targets[0].id == name and not loads(first.value)):
        return False
    # (a jump before the assignment would only leave the loop or come back to its head)
    inside = {id(y) for y in ast.walk(st)}
    return not any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Load) and id(y) not in inside for y in ast.walk(fr.func.node))
