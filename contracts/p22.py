"""P22: prevalence-weighted nearest neighbours"""
from pydv.worlds import contract
from contracts.common import *

PWK = B + 'estimators.weighted_knn.PWK'


def setup(w, kmax=3):
    K = w.int('K', 2, typ=4)
    n = w.int('n', K, typ=12)
    k = w.int('n_neighbors', 1, typ=4)
    if not w.symbolic:
        w.assume(k <= n)
    cl = w.classes(K, strings=True)
    X, y = w.mat('X', n, 2), w.labels('y', n, cl)
    q = w.new(PWK, n_neighbors=k, p=1)
    return K, n, k, cl, X, y, q


def weight(w, y, n, i):
    """1 minus the proportion of the class of training example i"""
    return 1 - w.sum(n, lambda t: w.ind(w.eq(w.li(y, t), w.li(y, i)))) / n


def neighbours(w, q, tr, Xt, k):
    """positions of the neighbours, as given by the (trusted) scikit-learn search"""
    if w.symbolic:
        ind = w.call(w.attr(q, 'knn_'), 'kneighbors', Xt)
        return ind[1]
    from sklearn.neighbors import KNeighborsClassifier
    return KNeighborsClassifier(n_neighbors=k, p=1).fit(*tr).kneighbors(Xt)[1]


@contract('P22', 'PWK.fit', trials=80)
def pwk_fit(w):
    K, n, k, cl, X, y, q = setup(w)
    r = w.call(q, 'fit', X, y)
    w.ensure('fit returns the object', r is q)
    w.ensure_arr('classes', w.attr(q, 'classes_'), (K,), lambda c: cl[c])
    w.ensure_arr('weight is 1 minus the proportion of the class', w.attr(q, 'weights_'), (n,), lambda i: weight(w, y, n, i))


@contract('P22', 'PWK.predict', trials=80)
def pwk_predict(w):
    K, n, k, cl, X, y, q = setup(w)
    m = w.int('m', 1, typ=6)
    Xt = w.mat('Xt', m, 2)
    w.call(q, 'fit', X, y)
    nb = neighbours(w, q, (X, y), Xt, k)
    tot = lambda i, c: w.sum(k, lambda j: w.ind(w.eq(w.li(y, nb[i, j]), c)) * weight(w, y, n, nb[i, j]))
    if w.choose('what', ['labels', 'probabilities']) == 'labels':
        r = w.call(q, 'predict', Xt)
        w.ensure_arr('class of largest total weight', r, (m,), lambda i: cl[w.argmaxof(K, lambda c: tot(i, c))])
    else:
        r = w.call(q, 'predict_proba', Xt)

        def share(i, c):
            w.nonneg_sum(k, lambda j: weight(w, y, n, nb[i, j]) - 1 / n)       # hence the total weight is at least k/n
            return tot(i, c) / w.sum(k, lambda j: weight(w, y, n, nb[i, j]))
        w.ensure_arr('total weight of the class over the total of all', r, (m, K), share)
