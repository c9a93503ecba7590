"""P13: bag generators return bags whose declared prevalences are the drawn ones"""
from pydv.worlds import contract
from contracts.common import *

BG = B + 'bag_generator.'
PS, CS, PCS = BG + 'PriorShift_BagGenerator', BG + 'CovariateShift_BagGenerator', BG + 'PriorAndCovariateShift_BagGenerator'
GEN = 'generated training sets and parameters only'


def data(w, kmax=4):
    K = w.int('K', 2, typ=kmax)
    n = w.int('n', K, typ=15)
    cl = w.classes(K)
    return K, n, cl, w.mat('X', n, 2), w.labels('y', n, cl)


def sound(w, g, X, y, cl, n_bags, size, prev, idx):
    """valid positions, the requested shapes, declared prevalences = proportions of the examples drawn"""
    np, K = w.np, len(cl)
    n = len(y)
    prev, idx = np.asarray(prev), np.asarray(idx)
    w.ensure('one column of prevalences per bag', prev.shape == (K, n_bags))
    w.ensure('one column of positions per bag', idx.shape == (size, n_bags))
    w.ensure('valid positions', np.issubdtype(idx.dtype, np.integer) and idx.size == 0 or (idx.min() >= 0 and idx.max() < n))
    real = np.array([[np.mean(y[idx[:, b]] == c) for b in range(n_bags)] for c in cl]).reshape(K, n_bags)
    w.ensure('declared prevalences are those of the examples drawn', np.allclose(prev, real, atol=1e-12))


def draw(w, mk, X, y):
    """the bags, and the same bags again from the same parameters whatever was generated before or elsewhere"""
    np = w.np
    g = mk()
    prev, idx = g.generate_bags(X, y)
    prev, idx = np.array(prev), np.array(idx)
    np.random.rand(3)
    h = mk()
    p2, i2 = h.generate_bags(X, y)
    w.ensure('the same data and seed give the same bags', np.array_equal(prev, p2) and np.array_equal(idx, i2))
    return g, prev, idx


def params(w, method, K):
    r = w.rng
    kw = {'n_bags': int(r.randint(1, 7)), 'random_state': int(r.randint(0, 99)), 'bag_size': None if r.rand() < .3 else int(r.choice([1, 2, 5, 17, 40]))}
    return kw


# ------------------------------------------------------------------------------------------ any data, any draws
SCOPE = 'two bags of 2 classes or one bag of 3 (any number of examples, any labels, bag size, bounds and draws)'


def sym_data(w, given=False):
    K, bags = w.choose('problem', [(2, 2), (3, 1)])
    n = w.int('n', K)
    w.assume(w.le(n, 2**32))        # positions are 32-bit integers
    cl = w.classes(K)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    size = w.int('size', 1) if given or w.choose('bag size', ['given', 'omitted']) == 'given' else None
    return K, bags, n, cl, X, y, size


def sym_sound(w, B, K, bags, n, cl, y, prev, idx):
    """as `sound`; the examples of each class are drawn one class after the other"""
    prev, idx = w.it.np.m_asarray(prev), w.it.np.m_asarray(idx)
    w.ensure_arr('one column of prevalences per bag', prev, (K, bags), lambda c, b: prev.at(c, b))
    w.ensure_arr('one column of positions per bag', idx, (B, bags), lambda t, b: idx.at(t, b))
    for b in range(bags):
        count = [prev.at(c, b) * B for c in range(K)]
        for c in range(K):
            w.ensure('bag %d: whole number of examples of class %d' % (b, c), w.eq(w.it.np.m_floor(count[c]), count[c]))
            w.ensure('bag %d: class %d is not negative' % (b, c), w.le(0, count[c]))
        w.ensure_eq('bag %d: prevalences add up to one' % b, sum(count), B)
        cum = [sum(count[:c], w.tm.ZERO) for c in range(K + 1)]
        w.forall('bag %d: valid positions' % b, (B,), lambda t: w.And(w.le(0, idx.at(t, b)), w.lt(idx.at(t, b), n)))
        for c in range(K):
            w.forall('bag %d: the declared number of examples of class %d' % (b, c), (B,),
                     lambda t: w.implies(w.And(w.le(cum[c], t), w.lt(t, cum[c + 1])), w.eq(y.at(idx.at(t, b)), cl[c])))


def sym_counts(w, B, K, bags, n, cl, y, prev, idx):
    """declared prevalences = proportions of the examples drawn"""
    w.ensure_arr('declared prevalences are those of the examples drawn', prev, (K, bags), lambda c, b: w.sum(B, lambda t: w.ind(w.eq(y.at(idx.at(t, b)), cl[c]))) / B)
    w.ensure_arr('one column of positions per bag', idx, (B, bags), lambda t, b: idx.at(t, b))
    w.forall('valid positions', (B, bags), lambda t, b: w.And(w.le(0, idx.at(t, b)), w.lt(idx.at(t, b), n)))


def sym_same(w, what, a, b, dims):
    for x, y, d in zip(a, b, dims):
        w.ensure_arr(what, x, d, lambda i, j: y.at(i, j))


def rnd(w, x): return w.it.np.rnd(w.tm.lift(x))


def sym_uniform(w):
    kind = w.choose('bounds', ['none', 'one', 'per class', 'list'])
    K, bags, n, cl, X, y, size = sym_data(w, given=kind != 'none')
    B = n if size is None else size
    low = None
    mp = None
    if kind == 'one':
        mp = w.real('minimum', 0, 1)
        low = [rnd(w, mp * B)] * K
    elif kind != 'none':
        mp = w.vec('minima', K, 0, 1)
        low = [rnd(w, mp[c] * B) for c in range(K)]
        w.assume(w.le(sum((mp[c] for c in range(K)), w.tm.ZERO), 1))
        mp = [mp[c] for c in range(K)] if kind == 'list' else mp
    if low is not None:
        if kind == 'one':
            w.assume(w.le(mp * K, 1))
        w.assume(w.le(sum(low) + 2, B) if K == 2 else w.lt(sum(low), B))      # some freedom left
    seed = w.int('seed', 0)
    mk = lambda: w.new(PS, min_prevalence=mp, n_bags=bags, random_state=seed, bag_size=size)
    Xa = X if kind != 'none' or w.choose('X', ['given', 'omitted']) == 'given' else None
    prev, idx = w.call(mk(), 'generate_bags', Xa, y)
    sym_sound(w, B, K, bags, n, cl, y, prev, idx)
    if low is not None:
        for b in range(bags):
            for c in range(K):
                w.ensure('bag %d: minimum prevalence of class %d' % (b, c), w.le(low[c], prev.at(c, b) * B))
    p2, i2 = w.call(mk(), 'generate_bags', Xa, y)
    sym_same(w, 'the same data and seed give the same bags', (p2, i2), (prev, idx), ((K, bags), (B, bags)))


def sym_dirichlet(w):
    K, bags, n, cl, X, y, size = sym_data(w)
    B = n if size is None else size
    kind = w.choose('alphas', ['one', 'list', 'array'])
    if kind == 'one':
        al = w.real('alpha', 0)
        w.assume(w.lt(0, al))
    else:
        al = w.vec('alphas', K, 0)
        for c in range(K):
            w.assume(w.lt(0, al[c]))
        al = [al[c] for c in range(K)] if kind == 'list' else al
    seed = w.int('seed', 0)
    mk = lambda: w.new(PS, method='Dirichlet', alphas=al, n_bags=bags, random_state=seed, bag_size=size)
    prev, idx = w.call(mk(), 'generate_bags', X, y)
    sym_sound(w, B, K, bags, n, cl, y, prev, idx)
    p2, i2 = w.call(mk(), 'generate_bags', X, y)
    sym_same(w, 'the same data and seed give the same bags', (p2, i2), (prev, idx), ((K, bags), (B, bags)))


def sym_covariate(w):
    K, bags, n, cl, X, y, size = sym_data(w)
    B = n if size is None else size
    seed = w.int('seed', 0)
    mk = lambda: w.new(CS, n_bags=bags, random_state=seed, bag_size=size)
    prev, idx = w.call(mk(), 'generate_bags', X, y)
    sym_counts(w, B, K, bags, n, cl, y, prev, idx)
    p2, i2 = w.call(mk(), 'generate_bags', X, y)
    sym_same(w, 'the same data and seed give the same bags', (p2, i2), (prev, idx), ((K, bags), (B, bags)))


def sym_both(w):
    K, _, n, cl, X, y, size = sym_data(w)
    bags = w.choose('bags', [2, 3])
    half = bags // 2
    B = n if size is None else size
    seed = w.int('seed', 0)
    kw = dict(n_bags=bags, random_state=seed, bag_size=size)
    if w.choose('method', ['Uniform', 'Dirichlet']) == 'Dirichlet':
        kw.update(method='Dirichlet', alphas=1.0)
    prev, idx = w.call(w.new(PCS, **kw), 'generate_bags', X, y)
    w.ensure_arr('one column of prevalences per bag', prev, (K, bags), lambda c, b: prev.at(c, b))
    w.ensure_arr('one column of positions per bag', idx, (B, bags), lambda t, b: idx.at(t, b))
    part = lambda a, b: w.it.np.getitem(a, (slice(None), slice(b, b + 1)))
    for b in range(bags):       # drawn class by class or all together
        m = len(w.it.obligations)
        (sym_sound if b < half else sym_counts)(w, B, K, 1, n, cl, y, part(prev, b), part(idx, b))
        if not all(o[1] for o in w.it.obligations[m:]):
            first = w.it.obligations[m:]
            del w.it.obligations[m:]
            (sym_counts if b < half else sym_sound)(w, B, K, 1, n, cl, y, part(prev, b), part(idx, b))
            if not all(o[1] for o in w.it.obligations[m:]):
                w.it.obligations[m:] = first
    p2, i2 = w.call(w.new(PCS, **kw), 'generate_bags', X, y)
    sym_same(w, 'the same data and seed give the same bags', (p2, i2), (prev, idx), ((K, bags), (B, bags)))


def sym_other_data(w):
    n = w.int('n2', 2)
    w.assume(w.le(n, 2**32))
    cl = w.classes(2)
    return w.mat('X2', n, 2), w.labels('y2', n, cl)


def sym_params(w, which, size):
    kw = dict(n_bags=2 if which == PCS else 1, bag_size=size)
    if which != CS and w.choose('method', ['Uniform', 'Dirichlet']) == 'Dirichlet':
        kw.update(method='Dirichlet', alphas=1.0)
    return kw


def sym_used(w):
    which = w.choose('generator', [PS, CS, PCS])
    K = w.choose('classes', [2, 3]) if which == CS else 2
    n = w.int('n', K)
    w.assume(w.le(n, 2**32))
    cl = w.classes(K)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    size = w.choose('bag size', ['given', 'omitted'])
    size = w.int('size', 1) if size == 'given' else None
    B, kw = n if size is None else size, sym_params(w, which, size)
    seed = w.int('seed', 0)
    X2, y2 = sym_other_data(w)
    g = w.new(which, random_state=seed, **kw)
    w.call(g, 'generate_bags', X2, y2)
    prev, idx = w.call(g, 'generate_bags', X, y)
    p2, i2 = w.call(w.new(which, random_state=seed, **kw), 'generate_bags', X, y)
    sym_same(w, 'nothing is left of the bags of other data', (prev, idx), (p2, i2), ((K, kw['n_bags']), (B, kw['n_bags'])))


def sym_source(w):
    which = w.choose('generator', [PS, CS, PCS])
    K, _, n, cl, X, y, size = sym_data(w)
    B, kw = n if size is None else size, sym_params(w, which, size)
    a = w.call(w.new(which, random_state=w.random_source('given'), **kw), 'generate_bags', X, y)
    b = w.call(w.new(which, random_state=w.random_source('given'), **kw), 'generate_bags', X, y)
    sym_same(w, 'the random source given is the only one', b, a, ((K, kw['n_bags']), (B, kw['n_bags'])))


def sym_reject(w):
    K = w.choose('K', [2, 3])
    n, size = w.int('n', K), w.int('size', 1)
    w.assume(w.le(n, 2**32))
    cl = w.classes(K)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    kw = dict(n_bags=2, bag_size=size if w.choose('bag size', ['given', 'omitted']) == 'given' else None, random_state=w.int('seed', 0))
    bad = w.choose('defect', ['negative', 'above one', 'sum above one', 'negative one', 'no room', 'random', 'method', 'alphas'])
    g = PS
    if bad in ('negative', 'above one', 'no room'):
        kw['min_prevalence'] = mp = w.real('minimum')
        w.assume(w.lt(mp, 0) if bad == 'negative' else w.lt(1, mp) if bad == 'above one' else w.lt(1, mp * K))
    elif bad in ('sum above one', 'negative one'):
        mp = [w.real('minimum %d' % c) for c in range(K)]
        w.assume(w.lt(1, sum(mp)) if bad == 'sum above one' else w.lt(mp[w.choose('which', list(range(K)))], 0))
        kw['min_prevalence'] = mp if w.choose('given as', ['list', 'array']) == 'list' else w.vector(mp)
    elif bad == 'random':
        g = w.choose('generator', [PS, CS, PCS])
        kw['random_state'] = w.choose('source', ['seed', w.tm.const(w.fraction(3, 2)), None])
    elif bad == 'method':
        g = w.choose('generator', [PS, PCS])
        kw['method'] = 'uniform distribution'
    elif bad == 'alphas':
        kw.update(method='Dirichlet', alphas=[w.real('alpha %d' % c, 0) for c in range(w.choose('number', [K - 1, K + 1]))])
    w.ensure('ValueError', w.raises(lambda: w.call(w.new(g, **kw), 'generate_bags', X, y), 'ValueError'))


@contract('P13', 'prior shift, uniform', trials=150, scope=SCOPE)
def uniform(w):
    if w.symbolic:
        return sym_uniform(w)
    np = w.np
    K, n, cl, X, y = data(w)
    kw = params(w, 'Uniform', K)
    size = n if kw['bag_size'] is None else kw['bag_size']
    kind = w.choose('bounds', ['none', 'one', 'per class', 'list'])
    mp = None
    if kind == 'one':
        mp = float(w.rng.choice([0, .1, .3, .6, .9])) / K
    elif kind != 'none':
        mp = w.rng.dirichlet(np.ones(K)) * w.rng.choice([.3, .6, .8])
    low = np.zeros(K) if mp is None else np.round(np.ones(K) * mp * size)
    if kind == 'list':
        mp = [float(v) for v in mp]
    w.assume(low.sum() < size)                       # some freedom left
    w.rec('parameters', (kw, mp))
    try:
        g, prev, idx = draw(w, lambda: w.new(PS, min_prevalence=mp, **kw), X if w.choose('X', ['given', 'omitted']) == 'given' else None, y)
    except ValueError as e:
        w.ensure('bounds leaving freedom are accepted (%s)' % e, K == 2 and low.sum() + 2 > size)
        return
    sound(w, g, X, y, cl, kw['n_bags'], size, prev, idx)
    w.ensure('minimum prevalences respected', (np.round(prev * size) >= low[:, None] - (1e-9 if K > 2 or mp is None else .0)).all())
    w.ensure('smallest bag reported', prev.min() >= 0)


@contract('P13', 'prior shift, Dirichlet', trials=100, scope=SCOPE)
def dirichlet(w):
    if w.symbolic:
        return sym_dirichlet(w)
    np = w.np
    K, n, cl, X, y = data(w)
    kw = params(w, 'Dirichlet', K)
    size = n if kw['bag_size'] is None else kw['bag_size']
    al = w.choose('alphas', [1, .2, 'list', 'array'])
    if al in ('list', 'array'):
        al = w.rng.rand(K) * 3 + .1
        al = list(al) if w.rng.rand() < .5 else al
    w.rec('parameters', (kw, al))
    g, prev, idx = draw(w, lambda: w.new(PS, method='Dirichlet', alphas=al, **kw), X, y)
    sound(w, g, X, y, cl, kw['n_bags'], size, prev, idx)


@contract('P13', 'covariate shift', trials=80, scope=SCOPE)
def covariate(w):
    if w.symbolic:
        return sym_covariate(w)
    K, n, cl, X, y = data(w)
    kw = params(w, None, K)
    size = n if kw['bag_size'] is None else kw['bag_size']
    w.rec('parameters', kw)
    g, prev, idx = draw(w, lambda: w.new(CS, **kw), X, y)
    sound(w, g, X, y, cl, kw['n_bags'], size, prev, idx)


@contract('P13', 'prior and covariate shift', trials=80, scope=SCOPE)
def both(w):
    if w.symbolic:
        return sym_both(w)
    np = w.np
    K, n, cl, X, y = data(w)
    kw = params(w, None, K)
    size = n if kw['bag_size'] is None else kw['bag_size']
    kw['method'] = w.choose('method', ['Uniform', 'Dirichlet'])
    if kw['method'] == 'Dirichlet':
        kw['alphas'] = 1.0
    w.rec('parameters', kw)
    g, prev, idx = draw(w, lambda: w.new(PCS, **kw), X, y)
    sound(w, g, X, y, cl, kw['n_bags'], size, prev, idx)


@contract('P13', 'a used generator', trials=80, scope=SCOPE)
def used(w):
    if w.symbolic:
        return sym_used(w)
    """bags for other data: those a new generator with the same parameters returns"""
    np = w.np
    which = w.choose('generator', [PS, CS, PCS])
    K, n, cl, X, y = data(w)
    K2 = w.int('K2', 2, typ=4)
    n2 = w.int('n2', K2, typ=15)
    cl2 = w.classes(K2)
    X2, y2 = w.mat('X2', n2, 2), w.labels('y2', n2, cl2)
    kw = params(w, None, K)
    if which != CS and w.rng.rand() < .5:
        kw.update(method='Dirichlet', alphas=1.0)
    w.rec('parameters', kw)
    g = w.new(which, **kw)
    g.generate_bags(X2, y2)
    prev, idx = g.generate_bags(X, y)
    f = w.new(which, **kw)
    p2, i2 = f.generate_bags(X, y)
    w.ensure('nothing is left of the bags of other data', np.array_equal(prev, p2) and np.array_equal(idx, i2))
    size = n if kw['bag_size'] is None else kw['bag_size']
    sound(w, g, X, y, cl, kw['n_bags'], size, prev, idx)


@contract('P13', 'given random source', trials=40, scope=SCOPE)
def source(w):
    if w.symbolic:
        return sym_source(w)
    np = w.np
    which = w.choose('generator', [PS, CS, PCS])
    K, n, cl, X, y = data(w)
    kw = params(w, None, K)
    seed = kw.pop('random_state')
    if which != CS and w.rng.rand() < .5:
        kw.update(method='Dirichlet', alphas=1.0)
    a = w.new(which, random_state=np.random.RandomState(seed), **kw).generate_bags(X, y)
    np.random.rand(2)
    b = w.new(which, random_state=np.random.RandomState(seed), **kw).generate_bags(X, y)
    w.ensure('the random source given is the only one', np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]))


@contract('P13', 'rejections', trials=60, scope=SCOPE)
def reject(w):
    if w.symbolic:
        return sym_reject(w)
    np = w.np
    K, n, cl, X, y = data(w)
    kw = params(w, None, K)
    size = n if kw['bag_size'] is None else kw['bag_size']
    bad = w.choose('defect', ['negative', 'above one', 'sum above one', 'negative one', 'no room', 'random', 'method', 'alphas'])
    g = PS
    if bad == 'negative':
        kw['min_prevalence'] = -.1
    elif bad == 'above one':
        kw['min_prevalence'] = 1.2
    elif bad == 'sum above one':
        kw['min_prevalence'] = [1.1 / K] * K
    elif bad == 'negative one':
        kw['min_prevalence'] = [-.1] + [.2 / K] * (K - 1)
    elif bad == 'no room':
        kw['min_prevalence'] = float(w.rng.choice([1.2 / K, 1.5 / K]))
    elif bad == 'random':
        g = w.choose('generator', [PS, CS, PCS])
        kw['random_state'] = w.choose('source', ['seed', 1.5, None])
    elif bad == 'method':
        g = w.choose('generator', [PS, PCS])
        kw['method'] = 'uniform distribution'
    elif bad == 'alphas':
        kw.update(method='Dirichlet', alphas=[1.0] * (K + 1))
    w.rec('parameters', kw)
    w.ensure('ValueError', w.raises(lambda: limited(lambda: w.new(g, **kw).generate_bags(X, y)), 'ValueError'))


def limited(f, seconds=5):
    """f(), ended after some seconds"""
    import signal

    def stop(*a):
        raise TimeoutError('no result in %d s' % seconds)
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
