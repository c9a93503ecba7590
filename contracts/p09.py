"""P09: golden section and global search"""
from pydv.worlds import contract
from contracts.common import *

SE = B + 'search.'


@contract('P09', 'mixture of two distributions')
def mixture(w):
    n = w.int('n', 1, typ=10)
    p = w.real('p', 0, 1)
    a, b = w.vec('pos', n), w.vec('neg', n)
    r = w.fn(SE + 'mixture_of_pdfs')(prevalence=p, pos_distrib=a, neg_distrib=b)
    w.ensure_arr('p * positives + (1-p) * negatives', r, (n,), lambda i: a[i] * p + b[i] * (1 - p))


def unimodal(w, lo=0.0, hi=1.0):
    """a strictly unimodal function with its minimiser anywhere in [lo, hi], the ends and points next to them included"""
    r = w.rng
    k = r.randint(7)
    m = {0: lo, 1: hi, 2: lo + (hi - lo) * r.choice([.5, .005, .995, .99, .01, .98, .02, .003, .25])}.get(k, lo + (hi - lo) * r.rand())
    if k == 3:
        m = lo + (hi - lo) * r.randint(0, 101) / 100
    sl, sr = [float(np_choice(r, [1.0, .1, 10.0, r.rand() + .05, 1e-3, 200.0])) for _ in range(2)]
    e = float(np_choice(r, [1.0, 1.0, 2.0, .5]))
    off = float(np_choice(r, [0.0, 0.0, 1.0, -2.0])) if e <= 1 else 0.0     # no rounding noise around a flat minimum
    w.rec('loss', (round(m, 6), sl, sr, e, off))
    return m, lambda p: off + (sl * (m - p) ** e if p < m else sr * (p - m) ** e)


def np_choice(r, l): return l[r.randint(len(l))]


class Mix:
    """mixture and distance functions that record what they are called with"""

    def __init__(self, w, L, dims, column, arg):
        self.w, self.L, self.dims, self.column, self.arg = w, L, dims, column, arg
        self.probes, self.bad = [], None

    def mixture(self, prevalence=None, extra=None):
        np = self.w.np
        if extra != self.arg:
            self.bad = 'keyword arguments not passed on'
        v = np.array([prevalence, 1 - prevalence, .5][:self.dims], dtype=float)
        return v.reshape(-1, 1) if self.column else v

    def distance(self, mix, test):
        np = self.w.np
        if test is not self.test:
            self.bad = 'distance not taken to the test distribution'
        v = np.ravel(np.asarray(mix))
        if len(v) != self.dims or (self.dims > 1 and abs(v[0] + v[1] - 1) > 1e-9):
            self.bad = 'the loss was not evaluated on a mixture'
        self.probes.append((float(v[0]), self.L(float(v[0]))))
        return self.probes[-1][1]


def vector(w, p, lo, hi):
    np = w.np
    p = np.asarray(p, dtype=float)
    w.ensure('two-class vector', p.shape == (2,) and abs(p.sum() - 1) < 1e-9)
    w.ensure('positive entry in the interval', lo - 1e-9 <= p[1] <= hi + 1e-9)
    return p


class OneMinimum:
    """an arbitrary loss on [0, 1], strictly decreasing before m and strictly increasing after it, and a mixture function that
    keeps the prevalence; used through instances of its definition"""

    def __init__(self, w):
        self.w, self.m, self.test = w, w.real('m', 0, 1), w.vec('test', 1)

    def L(self, x):
        return self.w.tm.app('L', (self.w.tm.lift(x),))

    def instance(self, c, d):
        w, m, L = self.w, self.m, self.L
        return w.And(w.implies(w.And(w.lt(c, d), w.le(d, m)), w.lt(L(d), L(c))), w.implies(w.And(w.le(m, c), w.lt(c, d)), w.lt(L(c), L(d))))

    def mixture(self, prevalence=None, extra=None):
        from pydv.arrays import Arr, axis
        w = self.w
        tm = w.tm
        w.ensure('keyword arguments passed on', extra == 'x')
        p = tm.lift(prevalence)
        return Arr([axis(tm.lift(2))], lambda i: tm.ite(tm.eq(i[0][1], tm.ZERO), p, 1 - p), 'num')

    def distance(self, mix, t):
        w = self.w
        w.ensure('distance taken to the test distribution', t is self.test)
        p = w.at(mix, 0)
        w.ensure_eq('the loss is evaluated on a mixture', p + w.at(mix, 1), 1)
        w.ensure('probe in [0, 1]', w.And(w.le(0, p), w.le(p, 1)))
        return self.L(p)


def bracket(w, M, lo, hi, tol, a, h, loss, q):
    """what golden section search guarantees: a last bracket [a, a + h] of the minimiser over [lo, hi] with its two inner probes;
    the loss is the better one of theirs and the prevalence the middle of the part that holds the minimiser"""
    phi = (w.sqrt(5) - 1) / 2
    c, d, b = a + (1 - phi) * h, a + phi * h, a + h
    L = M.L
    mi = w.min(w.max(M.m, lo), hi)
    best = w.min(L(c), L(d))
    return [('last bracket', w.And(w.lt(0, h), w.le(lo, a), w.le(b, hi), w.le(a, mi), w.le(mi, b), w.le(phi * h, tol))),
            ('its loss', w.eq(loss, best)),
            ('its middle', w.ite(w.lt(L(c), L(d)), w.eq(q, (a + d) / 2), w.eq(q, (c + b) / 2))),
            ('the ends are no better', w.And(w.Or(w.eq(b, hi), w.le(best, L(b))), w.Or(w.eq(a, lo), w.le(best, L(a)))))], (c, d, b)


@contract('P09', 'any loss with one minimum', trials=30)
def proof(w):
    """Lemma used: phi**n * h0 <= tol when n >= log(tol / h0) / log(phi), 0 < phi < 1 (the logarithm is monotone)"""
    if not w.symbolic:
        m, tol = w.real('m', 0, 1), w.real('tol', 1e-5, .019)
        f = w.fn(SE + w.choose('function', ['golden_section_search', 'global_search']))
        a = (tol, 0, 1) if f.__name__.startswith('golden') else (tol, None, False)
        _, p = f(lambda a, b: abs(a[0] - m), lambda prevalence: w.np.array([prevalence]), None, *a)
        p = vector(w, p, 0, 1)
        w.ensure('within the tolerance of the minimiser', abs(p[1] - m) <= tol + 1e-9)
        return
    M = OneMinimum(w)
    m = M.m
    phi = (w.sqrt(5) - 1) / 2
    tm = w.tm
    tol = w.real('tol', 0)
    w.assume(w.And(w.lt(0, tol), w.lt(w.real_const(6) / 10, phi), w.lt(phi, w.real_const(62) / 100)))      # bounds of sqrt(5)
    if w.choose('function', ['golden', 'global']) == 'golden':
        golden_part(w, M, tol, phi)
    else:
        global_part(w, M, tol, phi)


def golden_part(w, M, tol, phi):
    L, m, tm = M.L, M.m, w.tm
    lo, hi = w.real('lo', 0, 1), w.real('hi', 0, 1)
    w.assume(w.lt(tol, hi - lo))
    mi = w.min(w.max(m, lo), hi)
    h0 = hi - lo
    x = w.log(tol / h0) / w.log(phi)
    P = lambda k: tm.app('phipow', (tm.lift(k),))
    w.assume(w.And(w.lt(w.log(phi), 0), w.lt(0, x), w.eq(P(0), 1)))

    def facts(S, k):
        k = tm.lift(k)
        return [w.lt(0, P(k)), w.eq(P(k + 1), phi * P(k)), M.instance(S.c, S.d), w.implies(w.le(x, k + 1), w.le(P(k + 1) * h0, tol))]

    def claims(S, k):
        best = w.min(S.fc, S.fd)
        return [('width', w.eq(S.h, P(k) * h0)), ('end', w.eq(S.b, S.a + S.h)), ('left probe', w.eq(S.c, S.a + (1 - phi) * S.h)),
                ('right probe', w.eq(S.d, S.a + phi * S.h)), ('left loss', w.eq(S.fc, L(S.c))), ('right loss', w.eq(S.fd, L(S.d))),
                ('the minimiser stays inside', w.And(w.le(S.a, mi), w.le(mi, S.b))), ('inside the interval', w.And(w.le(lo, S.a), w.le(S.b, hi))),
                ('right end no better', w.Or(w.eq(S.b, hi), w.le(best, L(S.b)))), ('left end no better', w.Or(w.eq(S.a, lo), w.le(best, L(S.a))))]
    inv = w.loopinv('golden section', {'a': lo, 'b': hi, 'h': h0, 'c': lo + (1 - phi) * h0, 'd': lo + phi * h0, 'fc': L(lo + (1 - phi) * h0),
                                       'fd': L(lo + phi * h0)}, claims, facts)
    r = w.fn(SE + 'golden_section_search')(M.distance, M.mixture, M.test, tol, lo, hi, extra='x')
    loss, p = w.tuple(r, 2)
    w.need(inv)
    q = w.at(p, 1)
    w.ensure_eq('two-class vector', w.at(p, 0) + q, 1)
    w.ensure('positive entry in the interval', w.And(w.le(lo, q), w.le(q, hi)))
    w.ensure('within the tolerance of the minimiser', w.And(w.le(q - mi, tol), w.le(mi - q, tol)))
    S = inv.last
    w.ensure('the loss is that of the better of the two last probes', w.eq(loss, w.min(L(S.c), L(S.d))))
    for nm, f in bracket(w, M, lo, hi, tol, S.a, S.h, loss, q)[0]:
        w.ensure_aux(nm, f)


def global_part(w, M, tol, phi):
    L, m, tm = M.L, M.m, w.tm
    w.assume(w.lt(tol, w.real_const(2) / 100))
    G = lambda i: L(tm.lift(i) / 100)
    spied = []

    def search(w, env):
        a, b = tm.lift(env['a']), tm.lift(env['b'])
        w.ensure('search: same loss, mixtures, bag and tolerance', env['distance_func'] == M.distance and env['mixture_func'] == M.mixture and env['test_distrib'] is M.test)
        w.ensure_eq('search: the tolerance', env['tol'], tol)
        w.ensure('search: keyword arguments', env['kwargs'] == {'extra': 'x'})
        w.ensure('search: an interval of [0, 1] wider than the tolerance', w.And(w.le(0, a), w.le(b, 1), w.lt(tol, b - a)))
        n = len(spied)
        for i in (a * 100 + 2, b * 100 - 2):                                          # the search around the best point of the grid
            w.assume(M.instance(i / 100, tm.lift(98) / 100))
        loss, q, A, h = [tm.fresh('%s%d' % (x, n)) for x in ('loss', 'q', 'A', 'h')]
        guar, (c, d, e) = bracket(w, M, a, b, tol, A, h, loss, q)
        for _, f in guar:
            w.assume(f)
        spied.append((a, b))
        pts = [A, c, d, e]
        for x, y in [(A, c), (c, d), (d, e), (A, d), (c, e)] + [pr for x in pts for pr in ((x, m + tol), (m + tol, x))]:
            w.assume(M.instance(x, y))
        return loss, w.pair(1 - q, q)
    w.spy(SE + 'golden_section_search', search)

    def good(S):
        q = w.at(S.p, 1)
        return w.And(w.eq(w.at(S.p, 0) + q, 1), w.le(0, q), w.le(q, 1), w.le(q - m, tol), w.le(m - q, tol), w.implies(w.le(m + tol, 1), w.le(S.loss, L(m + tol))))

    def claims(S, k):
        if w.is_one(S.loss, 'inf'):
            return [('nothing found', w.And(w.eq(S.n, 0), w.Or(w.eq(k, 0), w.lt((tm.lift(k) - 1) / 100, m))))]
        return [('found', w.And(w.lt(0, S.n), good(S)))]

    def facts(S, k):
        i = tm.lift(k)
        return [M.instance(i / 100, (i + 1) / 100), M.instance((i + 1) / 100, (i + 2) / 100)]

    def make(S, k):
        if w.fork('a minimum was found before'):
            q = tm.fresh('q')
            return {'loss': tm.fresh('loss'), 'p': w.pair(tm.fresh('q0'), q)}
        return {'loss': tm.PINF, 'p': 2, 'n': 0}
    inv = w.loopinv('grid', {'n': 0, 'loss': w.infinite, 'p': lambda v: v == 2}, claims, facts, make)
    w.assume(M.instance(0, tm.lift(1) / 100))
    mode = w.choose('mixtures', ['not kept', 'kept', 'given'])
    keep = mode != 'not kept'
    mix = None
    if mode == 'given':
        mix = w.build((101, 2), lambda i, j: w.ite(w.eq(j, 0), tm.lift(i) / 100, 1 - tm.lift(i) / 100))
    r = w.fn(SE + 'global_search')(M.distance, M.mixture, M.test, tol, mix, keep, extra='x')
    out, p = w.tuple(r, 2)
    w.need(inv)
    if keep:
        w.ensure_arr('mixtures over the grid', out, (101, 2), lambda i, j: w.ite(w.eq(j, 0), tm.lift(i) / 100, 1 - tm.lift(i) / 100))
    else:
        w.ensure('no mixtures when not asked for', out is None)
    q = w.at(p, 1)
    w.ensure_eq('two-class vector', w.at(p, 0) + q, 1)
    w.ensure('positive entry in [0, 1]', w.And(w.le(0, q), w.le(q, 1)))
    w.ensure('within the tolerance of the minimiser', w.And(w.le(q - m, tol), w.le(m - q, tol)))


@contract('P09', 'golden section search', trials=400, bounded='loss functions given by code: generated unimodal losses', seconds=20)
def golden(w):
    r = w.rng
    lo, hi = sorted([round(float(r.rand()), int(r.choice([1, 2, 3]))), round(float(r.rand()), 2)])
    if r.rand() < .5 or hi - lo < 1e-3:
        lo, hi = 0.0, 1.0
    tol = float(np_choice(r, [1e-1, 1e-2, 1e-3, 1e-4, 1e-6]))
    w.assume(tol < hi - lo)
    m, L = unimodal(w, lo, hi)
    M = Mix(w, L, int(r.randint(1, 4)), False, 'x')
    M.test = w.np.array([.5])
    w.rec('interval', (lo, hi, tol))
    loss, p = w.fn(SE + 'golden_section_search')(M.distance, M.mixture, M.test, tol, lo, hi, extra='x')
    p = vector(w, p, lo, hi)
    w.ensure(str(M.bad), M.bad is None)
    w.ensure('within the tolerance of the minimiser', abs(p[1] - m) <= tol + 1e-9)
    w.ensure('loss at one of the probe points', any(abs(l - loss) == 0 for _, l in M.probes))
    w.ensure('probe points inside the interval', all(lo - 1e-9 <= x <= hi + 1e-9 for x, _ in M.probes))
    near = [x for x, l in M.probes if l == loss]
    w.ensure('the loss returned belongs to a point near the one returned', min(abs(x - p[1]) for x in near) <= tol + 1e-9)


@contract('P09', 'global search', trials=300, bounded='loss functions given by code: generated unimodal losses', seconds=30)
def global_(w):
    r = w.rng
    tol = float(np_choice(r, [5e-3, 1e-3, 1e-4, 1e-6]))
    m, L = unimodal(w)
    M = Mix(w, L, int(r.randint(1, 4)), bool(r.rand() < .3), 'x')
    M.test = w.np.array([.5])
    f = w.fn(SE + 'global_search')
    mode = w.choose('mixtures', ['not kept', 'kept', 'kept from another call'])
    keep = mode != 'not kept'
    mix, p = f(M.distance, M.mixture, M.test, tol, None, keep, extra='x')
    p = vector(w, p, 0, 1)
    w.ensure('within the tolerance of the minimiser', abs(p[1] - m) <= tol + 1e-9)
    w.ensure('no mixtures when not asked for', (mix is not None) == keep)
    if mode == 'kept from another call':
        old = mix.copy()
        m2, M.L = unimodal(w)
        M.test = w.np.array([.7])
        mix2, p2 = f(M.distance, M.mixture, M.test, tol, mix, True, extra='x')
        _, p3 = f(M.distance, M.mixture, M.test, tol, None, True, extra='x')
        _, p4 = f(M.distance, M.mixture, M.test, tol, None, False, extra='x')
        vector(w, p2, 0, 1)
        w.ensure('kept mixtures: within the tolerance of the minimiser', abs(p2[1] - m2) <= tol + 1e-9)
        w.ensure('kept mixtures: same answer as computed again', w.np.allclose(p2, p3, atol=1e-12) and w.np.allclose(p2, p4, atol=1e-12))
        w.ensure('kept mixtures unchanged', w.np.array_equal(mix2, old) and w.np.array_equal(mix, old))
    w.ensure(str(M.bad), M.bad is None)


@contract('P09', 'flat loss', trials=20)
def flat(w):
    if w.symbolic:
        c, mix = w.real('c'), None
        keep = w.choose('mixtures', [False, True])
        pair = lambda prevalence: w.pair(prevalence, 1 - prevalence)
        w.ensure('flat loss rejected', w.raises(lambda: w.fn(SE + 'global_search')(lambda a, b: c, pair, w.vec('bag', 2), w.real('tol', 0, 1), None, keep), 'ValueError'))
        mix = w.mat('kept mixtures', 101, 2)
        w.ensure('flat loss rejected, mixtures given', w.raises(lambda: w.fn(SE + 'global_search')(lambda a, b: c, pair, w.vec('bag', 2), w.real('tol', 0, 1), mix, keep), 'ValueError'))
        return
    M = Mix(w, lambda p: w.vals['c'], int(w.rng.randint(1, 4)), False, None)
    w.real('c')
    M.test = None
    keep = w.choose('mixtures', [False, True])
    w.ensure('flat loss rejected', w.raises(lambda: w.fn(SE + 'global_search')(M.distance, M.mixture, None, 1e-4, None, keep)))
