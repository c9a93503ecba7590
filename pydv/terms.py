"""Term language of the verifier.

Numeric terms (T) are polynomials with rational coefficients over interned
atoms.  Conditions are 0/1 valued terms: a condition F wraps the indicator
polynomial of a boolean formula, so `and` is a product and `not p` is 1-p.
Finite sums over symbolic ranges are atoms with canonical bound variables.

Everything is a *total* mathematical function over the reals: x**-1 at x == 0
is an unspecified real number; the symbolic executor emits a separate
obligation `denominator != 0` at every division of the code.
"""
from fractions import Fraction
from itertools import permutations, count

ATOMS = []            # id -> Atom
_INTERN = {}
_fresh = count()
BOUNDS = {}           # atom id -> (lo T or None, hi T or None)   inclusive, for integer variables
APP_BOUNDS = {}       # fname -> fn(args) -> (lo, hi)
STOCH = {}            # fname -> list of (axis position, n T) : sum over that argument is one
PAIRS = {}            # name of an inverse -> (name of the matrix function, argument position of its row index, size)
INJ = set()           # names of strictly increasing unary functions on integers
APPSIMP = {}          # fname -> fn(args) -> T or None


class EngineError(Exception):
    """The engine met something outside of its supported subset."""


class Atom:
    __slots__ = ('id', 'kind', 'data', 'isint', 'fv', 'lvl')

    def __repr__(self):
        return show_atom(self)


def mkatom(kind, data, isint, fv, lvl):
    key = (kind, data)
    a = _INTERN.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.data, a.isint, a.fv, a.lvl = kind, data, isint, fv, lvl
        ATOMS.append(a)
        _INTERN[key] = a
        if kind == 'var':
            a.fv = frozenset([a.id])
    return a


_TCACHE = {}


class T:
    """Polynomial: dict monomial -> Fraction; monomial = tuple of (atom id, exponent)."""
    __slots__ = ('p', 'key', 'fv', 'lvl', '__weakref__')

    def __add__(s, o): return add(s, lift(o))
    __radd__ = __add__

    def __sub__(s, o): return add(s, scale(lift(o), -1))

    def __rsub__(s, o): return add(lift(o), scale(s, -1))

    def __mul__(s, o):
        return mul(s, lift(o))
    __rmul__ = __mul__

    def __neg__(s): return scale(s, -1)

    def __pos__(s): return s

    def __truediv__(s, o): return mul(s, inv(lift(o)))

    def __rtruediv__(s, o): return mul(lift(o), inv(s))

    def __pow__(s, n):
        if isinstance(n, T):
            n = n.const()
        if n is None or Fraction(n).denominator != 1:
            if n is not None and Fraction(n) == Fraction(1, 2):
                return sqrt(s)
            raise EngineError('non integer power')
        n = int(n)
        r = ONE
        b = s if n >= 0 else inv(s)
        for _ in range(abs(n)):
            r = mul(r, b)
        return r

    def __abs__(s): return absv(s)

    def __lt__(s, o): return lt(s, lift(o))

    def __gt__(s, o): return lt(lift(o), s)

    def __le__(s, o): return fnot(lt(lift(o), s))

    def __ge__(s, o): return fnot(lt(s, lift(o)))

    def __eq__(s, o):
        if s is o:
            return TRUE
        try:
            o = lift(o)
        except EngineError:
            return FALSE
        return eq(s, o)

    def __ne__(s, o):
        return fnot(s.__eq__(o))

    def __hash__(s): return id(s)

    def __bool__(s):
        c = s.const()
        if c is not None:
            return c != 0
        raise EngineError('truth value of a symbolic number')

    def const(s):
        if not s.p:
            return Fraction(0)
        if len(s.p) == 1:
            (m, c), = s.p.items()
            if m == ():
                return c
        return None

    def isint(s):
        return all(c.denominator == 1 and all(e > 0 and ATOMS[a].isint for a, e in m) for m, c in s.p.items())

    def __repr__(s): return show(s)


def mkT(p):
    p = {m: c for m, c in p.items() if c}
    key = frozenset(p.items())
    t = _TCACHE.get(key)
    if t is None:
        t = T()
        t.p = p
        t.key = key
        fv = set()
        lvl = 0
        for m in p:
            for a, _ in m:
                A = ATOMS[a]
                fv |= A.fv
                if A.lvl > lvl:
                    lvl = A.lvl
        t.fv = frozenset(fv)
        t.lvl = lvl
        _TCACHE[key] = t
    return t


def const(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        if c != c or c in (float('inf'), float('-inf')):
            return PINF if c > 0 else (NINF if c < 0 else NAN)
        c = Fraction(repr(c))
    c = Fraction(c)
    return mkT({(): c})


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, F):
        return x.t
    if isinstance(x, (int, float, Fraction, bool)):
        return const(x)
    if hasattr(x, 'dtype') and hasattr(x, 'item') and getattr(x, 'shape', None) == ():
        return const(x.item())
    raise EngineError('cannot use %r as a number' % (type(x).__name__,))


def add(a, b):
    if len(a.p) < len(b.p):
        a, b = b, a
    if not b.p:
        return a
    p = dict(a.p)
    for m, c in b.p.items():
        p[m] = p.get(m, 0) + c
    return mkT(p)


def scale(a, c):
    c = Fraction(c)
    if c == 1:
        return a
    return mkT({m: v * c for m, v in a.p.items()})


def _mulmono(m1, m2):
    """product of two monomials -> monomial or None when it is zero"""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if ATOMS[a].kind == 'ind':
            e = 1
        out.append((a, e))
    out.sort()
    return tuple(out)


_MUL = {}


def mul(a, b):
    if not a.p or not b.p:
        return ZERO
    ca, cb = a.const(), b.const()
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    k = (a, b) if id(a) < id(b) else (b, a)
    r = _MUL.get((id(k[0]), id(k[1])))
    if r is not None:
        return r[0]
    # (c*p) * x*p^-1 -> cancel composite denominators
    for u, v in ((a, b), (b, a)):
        if len(u.p) > 1:
            q, c = _normpoly(u)
            pa = _INTERN.get(('poly', q))
            if pa is not None and v.p and all(any(x == pa.id and e < 0 for x, e in m) for m in v.p):
                out = {}
                for m, cc in v.p.items():
                    mm = tuple((x, e + 1) if x == pa.id else (x, e) for x, e in m)
                    mm = tuple((x, e) for x, e in mm if e != 0)
                    out[mm] = out.get(mm, 0) + cc * c
                r = mkT(out)
                _MUL[(id(k[0]), id(k[1]))] = (r, a, b)
                return r
    p = {}
    extra = []
    for m1, c1 in a.p.items():
        for m2, c2 in b.p.items():
            m = _mulmono(m1, m2)
            t = simp_mono(m)
            if t is None:
                p[m] = p.get(m, 0) + c1 * c2
            else:
                extra.append(scale(t, c1 * c2))
    r = mkT(p)
    for e in extra:
        r = add(r, e)
    _MUL[(id(k[0]), id(k[1]))] = (r, a, b)
    return r


_SIMP = {}


def simp_mono(m):
    """Simplify a monomial using the indicator literals in it. None: unchanged."""
    inds = [a for a, e in m if ATOMS[a].kind == 'ind']
    if not inds or len(m) < 2:
        return None
    if m in _SIMP:
        return _SIMP[m]
    _SIMP[m] = None
    r = _simp_mono(m, inds)
    _SIMP[m] = r
    return r


def _simp_mono(m, inds):
    # eq literals: substitute a solvable atom in the other factors
    for a in inds:
        k, q = ATOMS[a].data[0], ATOMS[a].data[1]
        if k != 'eq':
            continue
        sol = solvable(q)
        if sol is None:
            continue
        at, val = sol
        rest = [(x, e) for x, e in m if x != a]
        if any(occurs(at, ATOMS[x]) for x, e in rest):
            t = ONE
            for x, e in rest:
                t = mul(t, powatom(subst_atom_in(ATOMS[x], at, val), e))
            res = ZERO
            lit = mkT({((a, 1),): Fraction(1)})
            res = mul(t, lit)
            return res
    # lt literals on the same linear form: combine
    lts = [ATOMS[a].data[1] for a in inds if ATOMS[a].data[0] == 'lt']
    ids = [a for a in inds if ATOMS[a].data[0] == 'lt']
    for i in range(len(lts)):
        for j in range(len(lts)):
            if i == j:
                continue
            d = add(lts[i], scale(lts[j], -1)).const()
            if d is not None and (d > 0 or (d == 0 and i < j)):
                # lts[i] = lts[j] + d < 0  implies  lts[j] < 0
                rest = tuple((x, e) for x, e in m if x != ids[j])
                t = simp_mono(rest)
                return t if t is not None else mkT({rest: Fraction(1)})
    eqs = [(a, ATOMS[a].data[1]) for a in inds if ATOMS[a].data[0] == 'eq']
    for a, q in eqs:
        for b, l in zip(ids, lts):
            d = add(l, scale(q, -1)).const()
            if d is None:
                d2 = add(l, q).const()
                d = d2
            if d is not None:
                if d < 0:
                    rest = tuple((x, e) for x, e in m if x != b)
                    t = simp_mono(rest)
                    return t if t is not None else mkT({rest: Fraction(1)})
                return ZERO
    for i in range(len(eqs)):
        for j in range(i):
            d = add(eqs[i][1], scale(eqs[j][1], -1)).const()
            if d is not None and d != 0:
                return ZERO
    return None


def solvable(q):
    """eq literal q == 0: (atom id, value T) to substitute, canonical choice: newest atom
    (application before variable) occurring linearly with unit coefficient."""
    best = None
    for m, c in q.p.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            A = ATOMS[m[0][0]]
            if A.kind not in ('app', 'var'):
                continue
            # must not occur elsewhere
            rest = add(q, mkT({m: -c}))
            if occurs_T(A.id, rest):
                continue
            if A.kind == 'app' and any(A.id in fvapps(r) for r in ()):
                continue
            rank = (1 if A.kind == 'app' else 0, A.id)
            if best is None or rank > best[0]:
                best = (rank, A.id, scale(rest, -1 / c))
    if best is None:
        return None
    return best[1], best[2]


def fvapps(r):
    return ()


_OCC = {}


def occurs(aid, A):
    if A.id == aid:
        return True
    target = ATOMS[aid]
    if not target.fv <= A.fv and target.kind != 'app':
        return False
    k = (aid, A.id)
    r = _OCC.get(k)
    if r is None:
        r = any(occurs_T(aid, t) for t in atom_children(A))
        _OCC[k] = r
    return r


def occurs_T(aid, t):
    return any(occurs(aid, ATOMS[x]) for m in t.p for x, _ in m)


def atom_children(A):
    k = A.kind
    if k == 'app':
        return A.data[1]
    if k == 'ind':
        if A.data[0] == 'b':
            return A.data[2]
        return (A.data[1],)
    if k == 'poly':
        return (A.data,)
    if k == 'sum':
        return tuple(n for _, n in A.data[0]) + (A.data[1],)
    if k == 'bind':
        return (A.data[2], A.data[3])
    return ()


# ---------------------------------------------------------------- constructors

def var(name, isint=False):
    a = mkatom('var', (name, isint), isint, frozenset(), 0)
    return mkT({((a.id, 1),): Fraction(1)})


def fresh(base, isint=False, lo=None, hi=None):
    t = var('%s!%d' % (base, next(_fresh)), isint)
    if lo is not None or hi is not None:
        BOUNDS[atom_of(t).id] = (lift(lo) if lo is not None else None, lift(hi) if hi is not None else None)
    return t


def atom_of(t):
    (m, c), = t.p.items()
    assert len(m) == 1 and m[0][1] == 1 and c == 1
    return ATOMS[m[0][0]]


def single_atom(t):
    if len(t.p) == 1:
        (m, c), = t.p.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            return ATOMS[m[0][0]]
    return None


def atomT(A):
    return mkT({((A.id, 1),): Fraction(1)})


def app(name, args, isint=False):
    args = tuple(lift(x) for x in args)
    s = APPSIMP.get(name)
    if s is not None:
        r = s(args)
        if r is not None:
            return r
    fv = frozenset().union(*[x.fv for x in args]) if args else frozenset()
    lvl = max([x.lvl for x in args], default=0)
    return atomT(mkatom('app', (name, args, isint), isint, fv, lvl))


def _normpoly(u):
    """u = c * q with q normalised (leading coefficient one). returns q, c"""
    m = min((k for k in u.p if k != ()), default=())
    c = u.p[m]
    return scale(u, 1 / c), c


def inv(u):
    c = u.const()
    if c is not None:
        if c == 0:
            return app('inv0', ())
        return const(1 / c)
    if len(u.p) == 1:
        (m, c), = u.p.items()
        if any(ATOMS[a].kind == 'ind' for a, _ in m):
            # 1/(ind*x): keep as composite
            pass
        else:
            return mkT({tuple((a, -e) for a, e in m): 1 / c})
    # common monomial factor of all terms: pull it out (helps cancellation)
    q, c = _normpoly(u)
    common = None
    for m in q.p:
        d = {a: e for a, e in m if e < 0 or ATOMS[a].kind != 'ind'}
        if common is None:
            common = d
        else:
            nc = {}
            for a in set(common) | set(d):
                e1, e2 = common.get(a, 0), d.get(a, 0)
                e = min(e1, e2)
                if e != 0:
                    nc[a] = e
            common = nc
    if common and len(u.p) > 1:
        f = mkT({tuple(sorted(common.items())): Fraction(1)})
        fi = mkT({tuple(sorted((a, -e) for a, e in common.items())): Fraction(1)})
        rest = mul(q, fi)
        if len(rest.p) > 1:
            return scale(mul(inv(rest), fi), 1 / c)
    A = mkatom('poly', q, False, q.fv, q.lvl)
    return mkT({((A.id, -1),): 1 / c})


def powatom(t, e):
    if e >= 0:
        r = ONE
        for _ in range(e):
            r = mul(r, t)
        return r
    r = ONE
    ti = inv(t)
    for _ in range(-e):
        r = mul(r, ti)
    return r


class F:
    """Condition; .t is its 0/1 indicator term."""
    __slots__ = ('t',)

    def __init__(self, t): self.t = t

    def __and__(s, o): return fand(s, o)

    def __rand__(s, o): return fand(s, o)

    def __or__(s, o): return forr(s, o)

    def __ror__(s, o): return forr(s, o)

    def __invert__(s): return fnot(s)

    def __bool__(s):
        c = s.t.const()
        if c is None:
            raise EngineError('truth value of a symbolic condition: %s' % show(s.t))
        return c != 0

    def const(s):
        c = s.t.const()
        return None if c is None else c != 0

    def __mul__(s, o): return mul(s.t, lift(o))
    __rmul__ = __mul__

    def __add__(s, o): return add(s.t, lift(o))
    __radd__ = __add__

    def __sub__(s, o): return add(s.t, scale(lift(o), -1))

    def __rsub__(s, o): return add(lift(o), scale(s.t, -1))

    def __neg__(s): return scale(s.t, -1)

    def __truediv__(s, o): return s.t / lift(o)

    def __eq__(s, o):
        if isinstance(o, (F, bool)):
            o = liftF(o)
            return fnot(xor(s, o))
        return eq(s.t, lift(o))

    def __ne__(s, o): return fnot(s.__eq__(o))

    def __hash__(s): return hash(id(s.t))

    def __repr__(s): return '[' + show(s.t) + ']'


def xor(a, b):
    return F(a.t + b.t - mul(a.t, b.t) * 2)


def liftF(x):
    if isinstance(x, F):
        return x
    if isinstance(x, bool) or type(x).__name__ in ('bool_', 'bool'):
        return TRUE if x else FALSE
    if isinstance(x, T):
        return fnot(eq(x, ZERO))
    if isinstance(x, (int, float)):
        return TRUE if x else FALSE
    raise EngineError('cannot use %r as a condition' % (type(x).__name__,))


def fnot(f):
    f = liftF(f)
    return F(add(ONE, scale(f.t, -1)))


def fand(*fs):
    t = ONE
    for f in fs:
        t = mul(t, liftF(f).t)
    return F(t)


def forr(*fs):
    t = ONE
    for f in fs:
        t = mul(t, fnot(f).t)
    return fnot(F(t))


def implies(a, b):
    return fnot(fand(a, fnot(b)))


def ite(c, a, b):
    c = liftF(c)
    k = c.const()
    if k is not None:
        return a if k else b
    if isinstance(a, (F, bool)) and isinstance(b, (F, bool)):
        a, b = liftF(a), liftF(b)
        return F(mul(c.t, a.t) + mul(ONE - c.t, b.t))
    a, b = lift(a), lift(b)
    if a is b:
        return a
    return add(b, mul(c.t, add(a, scale(b, -1))))


def _indatom(kind, q):
    A = mkatom('ind', (kind, q), True, q.fv, q.lvl)
    return atomT(A)


BAPPSIMP = {}


def bapp(name, args):
    args = tuple(lift(x) for x in args)
    if name in BAPPSIMP:
        r = BAPPSIMP[name](args)
        if r is not None:
            return r
    fv = frozenset().union(*[x.fv for x in args]) if args else frozenset()
    lvl = max([x.lvl for x in args], default=0)
    return F(atomT(mkatom('ind', ('b', name, args), True, fv, lvl)))


_BND = {}


def bound(t, upper, depth=4):
    """a constant upper (lower) bound of the integer/real term t, or None"""
    r = _bound(t, upper, depth)
    return r


def _bound(t, upper, depth):
    c = t.const()
    if c is not None:
        return c
    if depth == 0:
        return None
    # choose an atom with a symbolic bound and substitute it
    best = None
    for m, c in t.p.items():
        if len(m) == 1 and m[0][1] == 1:
            A = ATOMS[m[0][0]]
            b = abounds(A)
            if b is None:
                continue
            w = b[1] if (c > 0) == upper else b[0]
            if w is None:
                continue
            rest = add(t, mkT({m: -c}))
            t2 = add(rest, scale(w, c))
            r = _bound(t2, upper, depth - 1)
            if r is not None and (best is None or (r < best if upper else r > best)):
                best = r
    if best is not None:
        return best
    # monomials of non-negative atoms / products
    tot = Fraction(0)
    for m, c in t.p.items():
        if m == ():
            tot += c
            continue
        nn = all(atom_nonneg(ATOMS[a]) or e % 2 == 0 for a, e in m)
        if nn:
            lo, hi = Fraction(0), None
            if all(e > 0 and ATOMS[a].kind == 'ind' for a, e in m):
                hi = Fraction(1)
            elif all(e > 0 and ATOMS[a].isint and const_lo(ATOMS[a]) is not None for a, e in m):
                lo = Fraction(1)
                for a, e in m:
                    lo *= const_lo(ATOMS[a]) ** e
        else:
            lo = hi = None
            if len(m) == 1 and m[0][1] == 1:
                lo, hi = const_lo(ATOMS[m[0][0]]), const_hi(ATOMS[m[0][0]])
        v = (hi if c > 0 else lo) if upper else (lo if c > 0 else hi)
        if v is None:
            return None
        tot += c * v
    return tot


def const_lo(A):
    b = abounds(A)
    if b is None or b[0] is None:
        return Fraction(0) if atom_nonneg(A) else None
    return b[0].const() if b[0].const() is not None else (Fraction(0) if atom_nonneg(A) else None)


def const_hi(A):
    if A.kind == 'ind':
        return Fraction(1)
    b = abounds(A)
    if b is None or b[1] is None:
        return None
    return b[1].const()


def abounds(A):
    if A.kind == 'var':
        return BOUNDS.get(A.id)
    if A.kind == 'app':
        f = APP_BOUNDS.get(A.data[0])
        if f is not None:
            return f(*A.data[1])
    if A.kind == 'bind' and A.data[0] in ('argmax', 'argmin'):
        return ZERO, A.data[2] - 1
    return None


NONNEG_APPS = {'abs', 'sqrt', 'exp'}


def atom_nonneg(A):
    if A.kind == 'ind':
        return True
    if A.kind == 'app' and A.data[0] in NONNEG_APPS:
        return True
    b = abounds(A)
    if b is not None and b[0] is not None:
        c = b[0].const()
        if c is not None:
            return c >= 0
        return False
    if A.kind == 'sum':
        return nonneg(A.data[1], 1)
    if A.kind == 'poly':
        return nonneg(A.data, 2)
    return False


def nonneg(t, depth=3):
    """cheap sufficient test for t >= 0 (used only for simplification and lemma guards)"""
    c = t.const()
    if c is not None:
        return c >= 0
    if all(c > 0 and all(e % 2 == 0 or atom_nonneg(ATOMS[a]) for a, e in m) for m, c in t.p.items()):
        return True
    b = bound(t, False)
    return b is not None and b >= 0


def eq(a, b):
    d = add(a, scale(b, -1))
    c = d.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    d, _ = _normpoly(d)
    # strictly increasing label functions
    r = _injdiff(d)
    if r is not None:
        return eq(r[0], r[1])
    up, lo = bound(d, True), bound(d, False)
    if (up is not None and up < 0) or (lo is not None and lo > 0):
        return FALSE
    if _isind(d):
        return fnot(F(d))
    r = _casesplit(d, eq)
    if r is not None:
        return r
    if d.isint() and not _intsolvable(d):
        return FALSE
    return F(_indatom('eq', d))


def _intsolvable(d):
    from math import gcd
    g = 0
    c0 = 0
    for m, c in d.p.items():
        if m == ():
            c0 = int(c)
        else:
            g = gcd(g, int(c))
    return g == 0 or c0 % g == 0


def _isind(d):
    """d is a single indicator atom (0/1 valued)"""
    A = single_atom(d)
    return A is not None and A.kind == 'ind'


def _injdiff(d):
    if len(d.p) != 2:
        return None
    its = list(d.p.items())
    ats = []
    for m, c in its:
        if len(m) != 1 or m[0][1] != 1:
            return None
        A = ATOMS[m[0][0]]
        if A.kind != 'app' or A.data[0] not in INJ:
            return None
        ats.append((A, c))
    (A, ca), (B, cb) = ats
    if A.data[0] != B.data[0] or ca != -cb:
        return None
    if ca > 0:
        return A.data[1][0], B.data[1][0]
    return B.data[1][0], A.data[1][0]


def _topinds(d):
    out = []
    for m in d.p:
        for a, e in m:
            if ATOMS[a].kind == 'ind' and a not in out:
                out.append(a)
                if len(out) > 3:
                    return []
    return out


def _setind(d, a, val):
    p = {}
    for m, c in d.p.items():
        if any(x == a for x, _ in m):
            if not val:
                continue
            m = tuple((x, e) for x, e in m if x != a)
        p[m] = p.get(m, 0) + c
    return mkT(p)


def _casesplit(d, fn):
    """compare a piecewise term piece by piece"""
    ids = _topinds(d)
    if not ids or len(d.p) < 2:
        return None
    a = ids[0]
    lit = F(mkT({((a, 1),): Fraction(1)}))
    x, y = fn(_setind(d, a, 1), ZERO), fn(_setind(d, a, 0), ZERO)
    return F(mul(lit.t, x.t) + mul(ONE - lit.t, y.t))


def lt(a, b):
    d = add(a, scale(b, -1))
    c = d.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    up, lo = bound(d, True), bound(d, False)
    if up is not None and up < 0:
        return TRUE
    if lo is not None and lo >= 0:
        return FALSE
    r = _casesplit(d, lt)
    if r is not None:
        return r
    if d.isint():
        if lo == -1:        # the only negative value
            return eq(d, const(-1))
        if up == 0:
            return fnot(eq(d, ZERO))
    q, c = _normpoly(d)
    r = _injdiff(q)
    if r is not None:
        return lt(r[0], r[1]) if c > 0 else lt(r[1], r[0])
    if c > 0:
        if d.isint():
            g = _content(d)
            if g > 1:
                # g*x + c0 < 0  <=> x < -c0/g  <=> x < ceil(-c0/g)
                c0 = d.p.get((), Fraction(0))
                x = scale(add(d, const(-c0)), Fraction(1, g))
                k = -((c0) // g)      # ceil(-c0/g)
                d = add(x, const(-k))
                return F(_indatom('lt', d))
            return F(_indatom('lt', d))
        return F(_indatom('lt', q))
    # d = -e with e leading positive:  -e < 0 <=> e > 0
    e = scale(d, -1)
    if d.isint():
        return fnot(lt(e, ONE))
    e, _ = _normpoly(e)
    return fnot(forr(F(_indatom('lt', e)), eq(e, ZERO)))


def _content(d):
    from math import gcd
    g = 0
    for m, c in d.p.items():
        if m != ():
            g = gcd(g, int(c))
    return g


def absv(t):
    c = t.const()
    if c is not None:
        return const(abs(c))
    if nonneg(t):
        return t
    if nonneg(scale(t, -1)):
        return scale(t, -1)
    q, c = _normpoly(t)
    if len(q.p) == 1:
        (m, k), = q.p.items()
        r = const(abs(c))
        for a, e in m:
            A = ATOMS[a]
            base = mkT({((a, e),): Fraction(1)})
            if e % 2 == 0 or atom_nonneg(A):
                r = r * base
            else:
                r = r * app('abs', (mkT({((a, abs(e)),): Fraction(1)}),)) ** (1 if e > 0 else -1)
        return r
    return scale(app('abs', (q,)), abs(c))


def sqrt(t):
    c = t.const()
    if c is not None:
        from math import isqrt
        if c >= 0:
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
    return app('sqrt', (t,))


def maxv(a, b):
    a, b = lift(a), lift(b)
    return ite(lt(a, b), b, a)


def minv(a, b):
    a, b = lift(a), lift(b)
    return ite(lt(b, a), b, a)


# ---------------------------------------------------------------- substitution

_SUB = {}


def subst(t, sub):
    """sub: dict var atom id -> T"""
    if not sub or not (t.fv & sub.keys()):
        return t
    k = (t, tuple(sorted((v, id(x)) for v, x in sub.items())))
    r = _SUB.get(k)
    if r is not None:
        return r[0]
    res = ZERO
    for m, c in t.p.items():
        acc = const(c)
        keep = []
        for a, e in m:
            A = ATOMS[a]
            if A.fv & sub.keys():
                acc = mul(acc, powatom(subst_atom(A, sub), e))
            else:
                keep.append((a, e))
        if keep:
            acc = mul(acc, mkT({tuple(keep): Fraction(1)}))
        res = add(res, acc)
    _SUB[k] = (res, tuple(sub.values()))
    return res


def subst_atom(A, sub):
    k = A.kind
    if k == 'var':
        return sub.get(A.id, None) if A.id in sub else atomT(A)
    if k == 'app':
        args = [subst(x, sub) for x in A.data[1]]
        return rebuild_app(A, args)
    if k == 'ind':
        if A.data[0] == 'b':
            return bapp(A.data[1], [subst(x, sub) for x in A.data[2]]).t
        q = subst(A.data[1], sub)
        return (eq(q, ZERO) if A.data[0] == 'eq' else lt(q, ZERO)).t
    if k == 'poly':
        return subst(A.data, sub)
    if k == 'sum':
        vs, body = open_sum(A)
        vs = [(v, subst(n, sub)) for v, n in vs]
        ren = {}
        nvs = []
        for v, n in vs:
            f = fresh('s', True, 0, n - 1)
            ren[atom_of(v).id] = f
            nvs.append((f, n))
        s2 = dict(sub)
        s2.update(ren)
        b = subst(body, s2)
        for f, n in reversed(nvs):
            b = mksum(f, subst(n, ren), b)
        return b
    if k == 'bind':
        op, v, n, body = A.data
        n2 = subst(n, sub)
        f = fresh('s', True, 0, n2 - 1)
        s2 = dict(sub)
        s2[v] = f
        return mkbind(op, f, n2, subst(body, s2))
    raise EngineError(k)


def rebuild_app(A, args):
    n = A.data[0]
    if n == 'abs':
        return absv(args[0])
    if n == 'sqrt':
        return sqrt(args[0])
    return app(n, args, A.data[2])


def subst_atom_in(A, aid, val):
    """replace atom aid (var or app) by val inside atom A"""
    if A.id == aid:
        return val
    if ATOMS[aid].kind == 'var':
        if aid in A.fv:
            return subst_atom(A, {aid: val})
        return atomT(A)
    if not occurs(aid, A):
        return atomT(A)
    k = A.kind
    if k == 'app':
        return rebuild_app(A, [replace_atom(x, aid, val) for x in A.data[1]])
    if k == 'ind':
        if A.data[0] == 'b':
            return bapp(A.data[1], [replace_atom(x, aid, val) for x in A.data[2]]).t
        q = replace_atom(A.data[1], aid, val)
        return (eq(q, ZERO) if A.data[0] == 'eq' else lt(q, ZERO)).t
    if k == 'poly':
        return replace_atom(A.data, aid, val)
    if k == 'sum':
        vs, body = open_sum(A)
        b = replace_atom(body, aid, val)
        for v, n in reversed(vs):
            b = mksum(v, replace_atom(n, aid, val), b)
        return b
    if k == 'bind':
        op, v, n, body = A.data
        f = fresh('s', True, 0, n - 1)
        b = subst(body, {v: f})
        return mkbind(op, f, replace_atom(n, aid, val), replace_atom(b, aid, val))
    raise EngineError(k)


def replace_atom(t, aid, val):
    if not occurs_T(aid, t):
        return t
    res = ZERO
    for m, c in t.p.items():
        acc = const(c)
        for a, e in m:
            acc = mul(acc, powatom(subst_atom_in(ATOMS[a], aid, val), e))
        res = add(res, acc)
    return res


def rewrite(t, fn):
    """bottom-up-free rewriting: fn(atom) -> T or None (pre-order, below binders with opened variables)"""
    t = lift(t)
    res = ZERO
    for m, c in t.p.items():
        acc = const(c)
        for a, e in m:
            acc = mul(acc, powatom(rewrite_atom(ATOMS[a], fn), e))
        res = add(res, acc)
    return res


def rewrite_atom(A, fn):
    r = fn(A)
    if r is not None:
        return r
    k = A.kind
    if k == 'var':
        return atomT(A)
    if k == 'app':
        return rebuild_app(A, [rewrite(x, fn) for x in A.data[1]])
    if k == 'ind':
        if A.data[0] == 'b':
            return bapp(A.data[1], [rewrite(x, fn) for x in A.data[2]]).t
        q = rewrite(A.data[1], fn)
        return (eq(q, ZERO) if A.data[0] == 'eq' else lt(q, ZERO)).t
    if k == 'poly':
        return rewrite(A.data, fn)
    if k == 'sum':
        vs, body = open_sum(A)
        b = rewrite(body, fn)
        for v, n in reversed(vs):
            b = mksum(v, rewrite(n, fn), b)
        return b
    if k == 'bind':
        op, v, n, body = A.data
        f = fresh('s', True, 0, n - 1)
        b = subst(body, {v: f})
        return mkbind(op, f, rewrite(n, fn), rewrite(b, fn))
    raise EngineError(k)


def apps_in(A, out=None, seen=None):
    """app atoms occurring in atom A (bound variables left as they are)"""
    out = [] if out is None else out
    ts = []
    if A.kind == 'app':
        out.append(A)
        ts = list(A.data[1])
    elif A.kind == 'ind':
        ts = list(A.data[2]) if A.data[0] == 'b' else [A.data[1]]
    elif A.kind == 'poly':
        ts = [A.data]
    elif A.kind == 'sum':
        vs, body = A.data
        ts = [body] + [n for _, n in vs]
    elif A.kind == 'bind':
        ts = [A.data[3], A.data[2]]
    for t in ts:
        for m in t.p:
            for a, _ in m:
                apps_in(ATOMS[a], out)
    return out


# ---------------------------------------------------------------- sums

def canvar(lvl, i):
    return mkatom('var', ('#%d.%d' % (lvl, i), True), True, frozenset(), 0)


def open_sum(A):
    """fresh copies of the bound variables (with their ranges registered as bounds)"""
    binders, body = A.data
    ren = {}
    out = []
    for v, n in binders:
        n2 = subst(n, ren)
        f = fresh('s', True, 0, n2 - 1)
        ren[v] = f
        out.append((f, n2))
    return out, subst(body, ren)


def mksum(v, n, body):
    """Sum_{v in [0,n)} body ; v a variable term with bounds registered"""
    n = lift(n)
    body = lift(body)
    va = atom_of(v).id
    if va not in BOUNDS:
        BOUNDS[va] = (ZERO, n - 1)
    cn = n.const()
    if va not in body.fv:
        if cn is None and not nonneg(n):
            return mul(body, app('posp', (n,))) if False else mul(body, n)
        return mul(body, n if cn is None else const(max(cn, 0)))
    if cn is not None:
        if cn <= 0:
            return ZERO
        if cn <= 8:
            r = ZERO
            for i in range(int(cn)):
                r = add(r, subst(body, {va: const(i)}))
            return r
    res = ZERO
    for m, c in body.p.items():
        res = add(res, scale(_sum_mono([(va, n)], list(m)), c))
    return res


def _sum_mono(binders, factors):
    """binders: list of (var atom id, n T); factors: list of (atom id, exp). -> T"""
    # flatten nested sums with positive exponent which depend on a binder
    bs = list(binders)
    fs = []
    changed = True
    work = list(factors)
    multi = []
    while work:
        a, e = work.pop()
        A = ATOMS[a]
        if A.kind == 'sum' and e > 0 and any(b in A.fv for b, _ in bs):
            for _ in range(e):
                vs, body = open_sum(A)
                for v, n in vs:
                    bs.append((atom_of(v).id, n))
                if len(body.p) == 1:
                    (m, c), = body.p.items()
                    assert c == 1
                    work.extend(m)
                else:
                    multi.append(body)
        else:
            fs.append((a, e))
    d = {}
    for a, e in fs:
        d[a] = d.get(a, 0) + e
    m = tuple(sorted((a, (1 if ATOMS[a].kind == 'ind' else e)) for a, e in d.items() if e != 0))
    t = simp_mono(m)
    if t is None:
        t = mkT({m: Fraction(1)})
    for b in multi:
        t = mul(t, b)
    res = ZERO
    for m, c in t.p.items():
        res = add(res, scale(_sum_flat(bs, m), c))
    return res


def _sum_flat(bs, m):
    bs = list(bs)
    # nested sums may have been reintroduced by simplification
    for a, e in m:
        if ATOMS[a].kind == 'sum' and e > 0 and any(b in ATOMS[a].fv for b, _ in bs):
            return _sum_mono(bs, list(m))
    # binder-free factors out
    bset = {b for b, _ in bs}
    free = tuple((a, e) for a, e in m if not (ATOMS[a].fv & bset))
    dep = [(a, e) for a, e in m if ATOMS[a].fv & bset]
    if free:
        return mul(mkT({free: Fraction(1)}), _sum_flat(bs, tuple(dep)))
    # unused binders
    used = frozenset().union(*[ATOMS[a].fv for a, _ in dep]) if dep else frozenset()
    used = used | frozenset().union(*[n.fv for _, n in bs]) if bs else used
    for i, (b, n) in enumerate(bs):
        if b not in used:
            rest = bs[:i] + bs[i + 1:]
            if n.fv & bset:
                t = mul(n, mkT({tuple(dep): Fraction(1)}))
                r = ZERO
                for mm, c in t.p.items():
                    r = add(r, scale(_sum_mono(rest, list(mm)), c))
                return r
            return mul(n, _sum_flat(rest, tuple(dep)) if rest else mkT({tuple(dep): Fraction(1)}))
    if not bs:
        return mkT({tuple(dep): Fraction(1)})
    # delta elimination
    for a, e in dep:
        A = ATOMS[a]
        if A.kind == 'ind' and A.data[0] == 'eq':
            q = A.data[1]
            for i, (b, n) in enumerate(bs):
                if b not in A.fv:
                    continue
                if any(b in nn.fv for _, nn in bs):
                    continue
                co = q.p.get(((b, 1),))
                if co is None or abs(co) != 1:
                    continue
                rest = add(q, mkT({((b, 1),): -co}))
                if b in rest.fv:
                    continue
                val = scale(rest, -1 / co)
                if not val.isint():
                    continue
                t = ONE
                for x, ee in dep:
                    if x != a:
                        t = mul(t, powatom(subst_atom(ATOMS[x], {b: val}) if b in ATOMS[x].fv else atomT(ATOMS[x]), ee))
                rng = fand(fnot(lt(val, ZERO)), lt(val, n))
                t = mul(t, rng.t)
                rb = bs[:i] + bs[i + 1:]
                if not rb:
                    return t
                r = ZERO
                for mm, c in t.p.items():
                    r = add(r, scale(_sum_mono(rb, list(mm)), c))
                return r
    # range literals  b - t < 0  with binder free t: shrink the range
    for a, e in dep:
        A = ATOMS[a]
        if A.kind == 'ind' and A.data[0] == 'lt':
            q = A.data[1]
            for i, (b, n) in enumerate(bs):
                co = q.p.get(((b, 1),))
                if co is None or abs(co) != 1:
                    continue
                rest = add(q, mkT({((b, 1),): -co}))
                if b in rest.fv or any(b in nn.fv for _, nn in bs):
                    continue
                if not rest.isint():
                    continue
                others = tuple((x, ee) for x, ee in dep if x != a)
                if co == 1:
                    lim = scale(rest, -1)       # b < lim
                    if rest.fv & bset and not all(True for _ in ()):
                        # keep dependent ranges explicit only when provably inside
                        pass
                    d1 = nonneg(add(n, scale(lim, -1)))
                    if d1 and nonneg(lim) and not (rest.fv & bset):
                        nb = list(bs)
                        f = fresh('s', True, 0, lim - 1)
                        t = ONE
                        for x, ee in others:
                            t = mul(t, powatom(subst_atom(ATOMS[x], {b: f}) if b in ATOMS[x].fv else atomT(ATOMS[x]), ee))
                        nb[i] = (atom_of(f).id, lim)
                        r = ZERO
                        for mm, c in t.p.items():
                            r = add(r, scale(_sum_mono(nb, list(mm)), c))
                        return r
    # cancellation of normalised rows:  B(k)/Sum_k B(k)
    for a, e in dep:
        A = ATOMS[a]
        if e < 0 and A.kind == 'sum' and len(A.data[0]) == 1:
            (sv, sn), = A.data[0]
            for i, (b, n) in enumerate(bs):
                if b in A.fv or sn is not n or any(b in nn.fv for _, nn in bs):
                    continue
                grp = tuple((x, ee) for x, ee in dep if b in ATOMS[x].fv)
                body = subst(A.data[1], {sv: atomT(ATOMS[b])})
                if mkT({grp: Fraction(1)}) is body:
                    oth = [(x, ee) for x, ee in dep if b not in ATOMS[x].fv]
                    oth = [(x, (ee + 1 if x == a else ee)) for x, ee in oth]
                    oth = [(x, ee) for x, ee in oth if ee != 0]
                    rb = bs[:i] + bs[i + 1:]
                    if rb:
                        return _sum_mono(rb, oth)
                    return mkT({tuple(sorted(oth)): Fraction(1)})
    # stochastic functions
    for i, (b, n) in enumerate(bs):
        grp = [(x, ee) for x, ee in dep if b in ATOMS[x].fv]
        if len(grp) == 1 and grp[0][1] == 1:
            A = ATOMS[grp[0][0]]
            if A.kind == 'app' and A.data[0] in STOCH:
                for pos, sn, val in STOCH[A.data[0]]:
                    args = A.data[1]
                    bt = atomT(ATOMS[b])
                    if args[pos] is bt and all(b not in x.fv for j, x in enumerate(args) if j != pos):
                        sn2 = sn(args) if callable(sn) else sn
                        if sn2 is n:
                            oth = [(x, ee) for x, ee in dep if b not in ATOMS[x].fv]
                            rb = bs[:i] + bs[i + 1:]
                            v = val(args) if callable(val) else ONE
                            t = mul(v, mkT({tuple(oth): Fraction(1)}))
                            r = ZERO
                            for mm, c in t.p.items():
                                r = add(r, scale(_sum_mono(rb, list(mm)) if rb else mkT({mm: Fraction(1)}), c))
                            return r
    # inverse matrices:  Sum_j V(k,j) M(j,i) = [k = i]
    if PAIRS:
        for i, (b, n) in enumerate(bs):
            grp = [(x, ee) for x, ee in dep if b in ATOMS[x].fv]
            if len(grp) != 2 or any(ee != 1 for _, ee in grp):
                continue
            for (x, _), (y, _) in (grp, grp[::-1]):
                X, Y = ATOMS[x], ATOMS[y]
                if X.kind != 'app' or Y.kind != 'app' or X.data[0] not in PAIRS:
                    continue
                mname, rowpos, sn = PAIRS[X.data[0]]
                if Y.data[0] != mname or len(Y.data[1]) != 2 or sn is not n:
                    continue
                bt = atomT(ATOMS[b])
                for vpos in (1, 0):
                    # contraction over V's column with M's row, or V's row with M's column
                    mpos = rowpos if vpos == 1 else 1 - rowpos
                    k, j = X.data[1][1 - vpos], Y.data[1][1 - mpos]
                    if X.data[1][vpos] is bt and Y.data[1][mpos] is bt and b not in k.fv and b not in j.fv:
                        oth = tuple((z, ee) for z, ee in dep if z not in (x, y))
                        t = mul(eq(k, j).t, mkT({oth: Fraction(1)}))
                        rb = bs[:i] + bs[i + 1:]
                        r = ZERO
                        for mm, c in t.p.items():
                            r = add(r, scale(_sum_mono(rb, list(mm)) if rb else mkT({mm: Fraction(1)}), c))
                        return r
    # Sum over [0, N*R) of a function of (b mod N) only
    for i, (b, n) in enumerate(bs):
        if any(b in nn.fv for _, nn in bs):
            continue
        mods = set()
        for x, _ in dep:
            if b in ATOMS[x].fv and not _only_mod(b, ATOMS[x], mods):
                mods = None
                break
        if mods and len(mods) == 1:
            (mid,) = mods
            N = ATOMS[mid].data[1][1]
            R = mul(n, inv(N))
            if b in N.fv or not all(e > 0 for mm in R.p for _, e in mm) or not R.isint():
                continue
            f = fresh('s', True, 0, N - 1)
            t = ONE
            for x, ee in dep:
                t = mul(t, powatom(subst_atom_in(ATOMS[x], mid, f) if b in ATOMS[x].fv else atomT(ATOMS[x]), ee))
            nb = bs[:i] + [(atom_of(f).id, N)] + bs[i + 1:]
            r = ZERO
            for mm, c in t.p.items():
                r = add(r, scale(_sum_mono(nb, list(mm)), c))
            return mul(R, r)
    # Sum over [0, N*q + r) of a function of (b div N, b mod N), 0 <= r <= N
    for i, (b, n) in enumerate(bs):
        if any(b in nn.fv for _, nn in bs):
            continue
        ids = set()
        for x, _ in dep:
            if b in ATOMS[x].fv and not _only_mod(b, ATOMS[x], ids, ('imod', 'idiv')):
                ids = None
                break
        if not ids or len({ATOMS[x].data[1][1] for x in ids}) != 1 or not any(ATOMS[x].data[0] == 'idiv' for x in ids):
            continue
        N = ATOMS[next(iter(ids))].data[1][1]
        if b in N.fv or N.const() is not None:
            continue
        q, r = _split_mult(n, N)
        if not q.p or not q.isint() or not nonneg(q):
            continue
        if r.p and not (nonneg(r) and bound(r - N, True) is not None and bound(r - N, True) <= 0):
            continue
        res = ZERO
        for qq, rr in ((None, N), (q, r)):
            if not rr.p:
                continue
            f = fresh('s', True, 0, rr - 1)
            extra = [(atom_of(f).id, rr)]
            if qq is None:
                qq = fresh('s', True, 0, q - 1)
                extra = [(atom_of(qq).id, q)] + extra
            t = ONE
            for x, ee in dep:
                X = atomT(ATOMS[x])
                for z in ids:
                    X = replace_atom(X, z, f if ATOMS[z].data[0] == 'imod' else qq)
                t = mul(t, X if ee == 1 else X ** ee)
            nb = bs[:i] + extra + bs[i + 1:]
            for mm, c in t.p.items():
                res = add(res, scale(_sum_mono(nb, list(mm)), c))
        return res
    # components
    comps = _components(bs, dep)
    if len(comps) > 1:
        r = ONE
        for cb, cf in comps:
            r = mul(r, _canon(cb, tuple(cf)))
        return r
    return _canon(bs, tuple(dep))


def _only_mod(b, A, out, names=('imod',)):
    if A.kind == 'app' and A.data[0] in names and single_atom(A.data[1][0]) is ATOMS[b]:
        out.add(A.id)
        return True
    if A.id == b:
        return False
    for t in atom_children(A):
        for m in t.p:
            for x, _ in m:
                if b in ATOMS[x].fv and not _only_mod(b, ATOMS[x], out, names):
                    return False
    return True


def _components(bs, dep):
    parent = {b: b for b, _ in bs}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x
    bset = set(parent)
    for a, _ in dep:
        vs = list(ATOMS[a].fv & bset)
        for v in vs[1:]:
            parent[find(v)] = find(vs[0])
    for b, n in bs:
        for v in n.fv & bset:
            parent[find(v)] = find(b)
    groups = {}
    for b, n in bs:
        groups.setdefault(find(b), ([], []))[0].append((b, n))
    for a, e in dep:
        v = next(iter(ATOMS[a].fv & bset))
        groups[find(v)][1].append((a, e))
    return list(groups.values())


def _canon(bs, m):
    lvl = 1 + max([ATOMS[a].lvl for a, _ in m] + [n.lvl for _, n in bs] + [0])
    body = mkT({tuple(sorted(m)): Fraction(1)})
    best = None
    k = len(bs)
    bset = {b for b, _ in bs}
    # group binders so that only those with equal ranges are permuted; order by range key
    indep = [x for x in bs if not (x[1].fv & bset)]
    depd = [x for x in bs if x[1].fv & bset]
    if depd:
        # dependent ranges: keep topological order
        order = []
        left = list(bs)
        seen = set()
        while left:
            for x in left:
                if not (x[1].fv & bset - seen):
                    order.append(x)
                    seen.add(x[0])
                    left.remove(x)
                    break
            else:
                raise EngineError('cyclic ranges')
        orders = [order]
    else:
        groups = {}
        for x in indep:
            groups.setdefault(id(x[1]), []).append(x)
        gl = [g for _, g in sorted(groups.items(), key=lambda kv: _tkey(kv[1][0][1]))]
        orders = [[]]
        for g in gl:
            if len(g) > 5:
                raise EngineError('too many binders')
            orders = [o + list(p) for o in orders for p in permutations(g)]
    for o in orders:
        ren = {b: atomT(canvar(lvl, i)) for i, (b, _) in enumerate(o)}
        body2 = subst(body, ren)
        rngs = tuple((canvar(lvl, i).id, subst(n, ren)) for i, (b, n) in enumerate(o))
        key = (_tkey(body2), tuple(_tkey(n) for _, n in rngs))
        if best is None or key < best[0]:
            best = (key, rngs, body2)
    _, rngs, body2 = best
    if not (len(body2.p) == 1 and all(c == 1 for c in body2.p.values())):
        # renaming changed the orientation of a comparison: distribute again
        res = ZERO
        for m2, c in body2.p.items():
            res = add(res, scale(_sum_mono(list(rngs), list(m2)), c))
        return res
    fv = set(body2.fv)
    for _, n in rngs:
        fv |= n.fv
    fv -= {v for v, _ in rngs}
    isint = body2.isint()
    A = mkatom('sum', (rngs, body2), isint, frozenset(fv), lvl)
    return atomT(A)


def _tkey(t):
    return tuple(sorted((m, c) for m, c in t.p.items()))


def mkbind(op, v, n, body):
    """other reductions (max, min, ...) over a symbolic range; op a string"""
    n = lift(n)
    va = atom_of(v).id
    body = lift(body)
    c = n.const()
    if op in ('max', 'min') and c is not None and 1 <= c <= 3 and c.denominator == 1:
        r = subst(body, {va: ZERO})
        for i in range(1, int(c)):
            x = subst(body, {va: const(i)})
            q = lt(r, x) if op == 'max' else lt(x, r)
            r = ite(q, x, r)
        return r
    lvl = 1 + max(body.lvl, n.lvl)
    cv = canvar(lvl, 0)
    b2 = subst(body, {va: atomT(cv)})
    fv = (b2.fv | n.fv) - {cv.id}
    isint = b2.isint() and op in ('max', 'min', 'argmax', 'argmin', 'all')
    if op in ('argmax', 'argmin'):
        isint = True
    return atomT(mkatom('bind', (op, cv.id, n, b2), isint, frozenset(fv), lvl))


def open_bind(A):
    op, v, n, body = A.data
    f = fresh('s', True, 0, n - 1)
    return op, f, n, subst(body, {v: f})


def Sum(n, fn, lo=0):
    n, lo = lift(n), lift(lo)
    m = n - lo
    v = fresh('s', True, 0, m - 1)
    return mksum(v, m, lift(fn(v + lo)))


# ---------------------------------------------------------------- div / mod on integers

def _idiv_simp(args):
    a, b = args
    if b.const() == 1:
        return a
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        return const(ca // cb)
    q, r = _split_mult(a, b)
    if q.p:
        if nonneg(r) and bound(r - b, True) is not None and bound(r - b, True) < 0:
            return q
        return add(q, app('idiv', (r, b), True)) if r is not a else None
    if nonneg(a) and bound(a - b, True) is not None and bound(a - b, True) < 0:
        return ZERO
    return None


def _imod_simp(args):
    a, b = args
    if b.const() == 1:
        return ZERO
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        return const(ca % cb)
    q, r = _split_mult(a, b)
    if q.p:
        return app('imod', (r, b), True)
    if nonneg(a) and bound(a - b, True) is not None and bound(a - b, True) < 0:
        return a
    return None


def _split_mult(a, b):
    """a = q*b + r collecting the monomials of a that are multiples of b (b a single monomial)"""
    if len(b.p) != 1:
        return ZERO, a
    (mb, cb), = b.p.items()
    q, r = ZERO, ZERO
    bi = mkT({tuple((x, -e) for x, e in mb): 1 / cb}) if mb else const(1 / cb)
    for m, c in a.p.items():
        t = mkT({m: c})
        d = dict(m)
        if mb and all(d.get(x, 0) >= e for x, e in mb):
            u = mul(t, bi)
            if u.isint():
                q = add(q, u)
                continue
        r = add(r, t)
    return q, r


APPSIMP['idiv'] = _idiv_simp
APPSIMP['imod'] = _imod_simp
APP_BOUNDS['imod'] = lambda a, b: (ZERO, b - 1)


def _idiv_bounds(a, b):
    lo = ZERO if nonneg(a) and nonneg(b) else None
    hi = None
    # a <= c*b - 1 syntactically known through the bound of its variables
    A = single_atom(a)
    if A is not None:
        bd = abounds(A)
        if bd is not None and bd[1] is not None:
            q, r = _split_mult(bd[1], b)
            if r.const() == -1:
                hi = q - 1
    return (lo, hi)


APP_BOUNDS['idiv'] = _idiv_bounds


def idiv(a, b): return app('idiv', (lift(a), lift(b)), True)


def imod(a, b): return app('imod', (lift(a), lift(b)), True)


# ---------------------------------------------------------------- printing

def show(t):
    if not t.p:
        return '0'
    out = []
    for m, c in sorted(t.p.items()):
        s = '*'.join(show_atom(ATOMS[a]) + ('' if e == 1 else '^%d' % e) for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')


def show_atom(A):
    k = A.kind
    if k == 'var':
        return A.data[0]
    if k == 'app':
        return '%s(%s)' % (A.data[0], ', '.join(show(x) for x in A.data[1]))
    if k == 'ind':
        if A.data[0] == 'b':
            return '[%s(%s)]' % (A.data[1], ', '.join(show(x) for x in A.data[2]))
        return '[%s %s 0]' % (show(A.data[1]), '==' if A.data[0] == 'eq' else '<')
    if k == 'poly':
        return '(%s)' % show(A.data)
    if k == 'sum':
        return 'SUM{%s}(%s)' % (', '.join('%s<%s' % (ATOMS[v].data[0], show(n)) for v, n in A.data[0]), show(A.data[1]))
    if k == 'bind':
        return '%s{%s<%s}(%s)' % (A.data[0].upper(), ATOMS[A.data[1]].data[0], show(A.data[2]), show(A.data[3]))
    return '?'


ZERO = mkT({})
ONE = mkT({(): Fraction(1)})
TRUE = F(ONE)
FALSE = F(ZERO)
PINF = var('+inf')
NINF = var('-inf')
NAN = var('nan')
