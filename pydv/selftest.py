"""Setup-time self test of the trusted normaliser: random expressions with nested finite sums, indicators, ite, abs, max,
integer division and reductions are built twice - through the term constructors (every rewriting rule) and as Python
closures over exact rationals - and the normalised terms are evaluated by an independent evaluator and compared.
Also checks that `prove` never accepts a false statement (refuted by sampling) among random ones."""
import os
import random
import sys
from fractions import Fraction as Q
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
from pydv import terms as tm, smt

NV = {}


class Undefined(Exception):
    pass


def ev(t, env):
    r = Q(0)
    for m, c in t.p.items():
        x = Q(c)
        # zero factors first: a term is a total function, 0*anything is 0
        vals = []
        for a, e in m:
            A = tm.ATOMS[a]
            if e > 0:
                v = evA(A, env)
                if v == 0:
                    x = Q(0)
                    break
                vals.append((v, e))
            else:
                vals.append((None, (A, e)))
        if x == 0:
            continue
        for v, e in vals:
            if v is None:
                A, k = e
                b = evA(A, env)
                if b == 0:
                    raise Undefined
                x *= b ** k
            else:
                x *= v ** e
        r += x
    return r


def evA(A, env):
    k = A.kind
    if k == 'var':
        if A.id in env:
            return env[A.id]
        return NV[A.data[0]]
    if k == 'app':
        f = A.data[0]
        a = [ev(x, env) for x in A.data[1]]
        if f == 'abs':
            return abs(a[0])
        if f == 'idiv':
            if a[1] == 0:
                raise Undefined
            return Q(a[0] // a[1])
        if f == 'imod':
            if a[1] == 0:
                raise Undefined
            return Q(a[0] % a[1])
        if f in FUN:
            return FUN[f](*a)
        raise Undefined
    if k == 'ind':
        if A.data[0] == 'b':
            return FUN[A.data[1]](*[ev(x, env) for x in A.data[2]])
        v = ev(A.data[1], env)
        return Q(int(v == 0 if A.data[0] == 'eq' else v < 0))
    if k == 'poly':
        return ev(A.data, env)
    if k == 'sum':
        bs, body = A.data

        def go(i, env):
            if i == len(bs):
                return ev(body, env)
            v, n = bs[i]
            r = Q(0)
            N = ev(n, env)
            for j in range(max(0, int(N))):
                e2 = dict(env)
                e2[v] = Q(j)
                r += go(i + 1, e2)
            return r
        return go(0, env)
    if k == 'bind':
        op, v, n, body = A.data
        vals = []
        for j in range(max(0, int(ev(n, env)))):
            e2 = dict(env)
            e2[v] = Q(j)
            vals.append(ev(body, e2))
        if not vals:
            raise Undefined
        return {'max': max, 'min': min, 'argmax': lambda s: Q(s.index(max(s))), 'argmin': lambda s: Q(s.index(min(s))), 'all': lambda s: Q(int(all(s)))}[op](vals)
    raise Undefined


def h(*a):
    return Q((hash(tuple(a)) % 13) - 3, 1 + hash(('d',) + tuple(a)) % 3)


FUN = {'f': lambda a: h('f', a, NV['seed']), 'g': lambda a, b: h('g', a, b, NV['seed']), 'w': lambda a: abs(h('w', a, NV['seed'])) + 1,
       'y': lambda a: Q(hash(('y', a, NV['seed'])) % int(NV['K'])), 'bb': lambda a: Q(hash(('b', a, NV['seed'])) % 2)}


class Gen:
    def __init__(s, rnd):
        s.r = rnd

    def index(s, bound):
        c = s.r.random()
        if bound and c < .85:
            v = s.r.choice(bound)
            return v
        j = s.r.choice([0, 1])
        return (tm.const(j), lambda e: Q(j), None)

    def num(s, d, bound):
        r = s.r
        c = r.random()
        if d <= 0 or c < .25:
            k = r.random()
            if k < .25:
                q = Q(r.randint(-3, 3), r.choice([1, 1, 2]))
                return tm.const(q), lambda e: q
            if k < .4:
                n = r.choice(['x', 'z'])
                return tm.var(n), lambda e: NV[n]
            if k < .55:
                t, f, _ = s.index(bound)
                return t, f
            if k < .7:
                i = s.index(bound)
                return tm.app('f', (i[0],)), lambda e: FUN['f'](i[1](e))
            if k < .8:
                i = s.index(bound)
                return tm.app('w', (i[0],)), lambda e: FUN['w'](i[1](e))
            i, j = s.index(bound), s.index(bound)
            return tm.app('g', (i[0], j[0])), lambda e: FUN['g'](i[1](e), j[1](e))
        if c < .45:
            a, b = s.num(d - 1, bound), s.num(d - 1, bound)
            if r.random() < .5:
                return a[0] + b[0], lambda e: a[1](e) + b[1](e)
            return a[0] - b[0], lambda e: a[1](e) - b[1](e)
        if c < .6:
            a, b = s.num(d - 1, bound), s.num(d - 1, bound)

            def mulf(e):
                x = a[1](e)
                return x * b[1](e)
            return a[0] * b[0], mulf
        if c < .66:
            p, a, b = s.cond(d - 1, bound), s.num(d - 1, bound), s.num(d - 1, bound)
            return tm.ite(p[0], a[0], b[0]), lambda e: a[1](e) if p[1](e) else b[1](e)
        if c < .7:
            a = s.num(d - 1, bound)
            return abs(a[0]), lambda e: abs(a[1](e))
        if c < .74:
            a, b = s.num(d - 1, bound), s.num(d - 1, bound)
            if r.random() < .5:
                return tm.maxv(a[0], b[0]), lambda e: max(a[1](e), b[1](e))
            return tm.minv(a[0], b[0]), lambda e: min(a[1](e), b[1](e))
        if c < .77:
            a = s.num(d - 1, bound)
            i = s.index(bound)
            return a[0] / tm.app('w', (i[0],)), lambda e: a[1](e) / FUN['w'](i[1](e))
        rng, rf = s.range(bound)
        v = tm.fresh('s', True, 0, rng - 1)
        key = tm.atom_of(v).id
        nb = bound + [(v, lambda e: e[key], rng)]
        if c < .96:
            b = s.num(d - 1, nb)

            def sumf(e):
                t = Q(0)
                for j in range(int(rf(e))):
                    e2 = dict(e)
                    e2[key] = Q(j)
                    t += b[1](e2)
                return t
            return tm.mksum(v, rng, b[0]), sumf
        op = r.choice(['max', 'argmax', 'argmin'])
        b = s.num(d - 1, nb)

        def bf(e):
            vals = []
            for j in range(int(rf(e))):
                e2 = dict(e)
                e2[key] = Q(j)
                vals.append(b[1](e2))
            return max(vals) if op == 'max' else Q(vals.index(max(vals) if op == 'argmax' else min(vals)))
        return tm.mkbind(op, v, rng, b[0]), bf

    def range(s, bound):
        c = s.r.random()
        K, N = tm.var('K', True), tm.var('N', True)
        if c < .4:
            return N, lambda e: NV['N']
        if c < .7:
            return K, lambda e: NV['K']
        if c < .8:
            return N * K, lambda e: NV['N'] * NV['K']
        if c < .9:
            return K + 1, lambda e: NV['K'] + 1
        return tm.const(3), lambda e: Q(3)

    def cond(s, d, bound):
        r = s.r
        c = r.random()
        if d <= 0 or c < .6:
            k = r.random()
            if k < .3:
                i, j = s.index(bound), s.index(bound)
                y = tm.app('y', (i[0],), True)
                return y == j[0], lambda e: FUN['y'](i[1](e)) == j[1](e)
            if k < .45:
                i, j = s.index(bound), s.index(bound)
                return i[0] == j[0], lambda e: i[1](e) == j[1](e)
            if k < .6:
                i, j = s.index(bound), s.index(bound)
                return i[0] < j[0], lambda e: i[1](e) < j[1](e)
            if k < .7:
                i = s.index(bound)
                return tm.bapp('bb', (i[0],)), lambda e: bool(FUN['bb'](i[1](e)))
            if k < .8 and bound:
                i, j = s.index(bound), s.index(bound)
                K = tm.var('K', True)
                return tm.imod(i[0], K) == j[0], lambda e: i[1](e) % NV['K'] == j[1](e)
            a, b = s.num(d - 1, bound), s.num(d - 1, bound)
            if k < .9:
                return a[0] <= b[0], lambda e: a[1](e) <= b[1](e)
            return a[0] == b[0], lambda e: a[1](e) == b[1](e)
        if c < .75:
            a = s.cond(d - 1, bound)
            return tm.fnot(a[0]), lambda e: not a[1](e)
        a, b = s.cond(d - 1, bound), s.cond(d - 1, bound)
        if c < .88:
            return tm.fand(a[0], b[0]), lambda e: a[1](e) and b[1](e)
        return tm.forr(a[0], b[0]), lambda e: a[1](e) or b[1](e)


def setup_terms():
    K, N = tm.var('K', True), tm.var('N', True)
    tm.BOUNDS[tm.atom_of(K).id] = (tm.const(2), None)
    tm.BOUNDS[tm.atom_of(N).id] = (tm.const(1), None)
    tm.APP_BOUNDS['y'] = lambda *a: (tm.ZERO, K - 1)
    tm.APP_BOUNDS['w'] = lambda *a: (tm.ONE, None)


def sample(rnd):
    NV.update(K=Q(rnd.randint(2, 4)), N=Q(rnd.randint(1, 4)), x=Q(rnd.randint(-4, 4), rnd.randint(1, 3)), z=Q(rnd.randint(-4, 4), rnd.randint(1, 3)), seed=rnd.randint(0, 10 ** 9))


def main(n=1500, seed=1, secs=60):
    import time
    rnd = random.Random(seed)
    setup_terms()
    t0 = time.time()
    bad = done = und = 0
    proved = refuted = 0
    for k in range(n):
        if time.time() - t0 > secs:
            break
        try:
            t, f = Gen(rnd).num(rnd.choice([2, 3, 3, 4]), [])
        except (tm.EngineError, ZeroDivisionError):
            und += 1
            continue
        for _ in range(4):
            sample(rnd)
            try:
                want = f({})
                got = ev(t, {})
            except (Undefined, ZeroDivisionError):
                und += 1
                continue
            done += 1
            if want != got:
                bad += 1
                print('MISMATCH', tm.show(t), dict(NV), want, got)
                break
    # soundness of prove on random statements
    for k in range(n // 8):
        if time.time() - t0 > 2 * secs:
            break
        try:
            c, f = Gen(rnd).cond(3, [])
            r = smt.prove(c, [], smt.Facts())
        except (tm.EngineError, ZeroDivisionError):
            continue
        ok = r[0] if isinstance(r, tuple) else r
        if not ok:
            continue
        proved += 1
        for _ in range(40):
            sample(rnd)
            try:
                v = f({})
            except (Undefined, ZeroDivisionError):
                continue
            if not v:
                refuted += 1
                print('UNSOUND', c, dict(NV))
                break
    print('selftest: %d evaluations compared, %d undefined, %d mismatches; %d random statements proved, %d refuted' % (done, und, bad, proved, refuted))
    return 1 if bad or refuted or done < 200 else 0


if __name__ == '__main__':
    sys.exit(main(*[int(a) for a in sys.argv[1:]]))
