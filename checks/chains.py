"""Synthetic chains of many shapes for the post-processing checks."""
import numpy as np


def column(r, n, kind):
    if kind == 'iid':
        x = r.normal(size=n)
    elif kind == 'ar':
        phi = r.uniform(.2, .99)
        x = np.zeros(n)
        e = r.normal(size=n)
        for i in range(1, n):
            x[i] = phi * x[i - 1] + e[i]
    elif kind == 'anti':
        phi = -r.uniform(.2, .95)
        x = np.zeros(n)
        e = r.normal(size=n)
        for i in range(1, n):
            x[i] = phi * x[i - 1] + e[i]
    elif kind == 'walk':
        x = np.cumsum(r.normal(size=n))
    elif kind == 'trend':
        x = np.linspace(0, 5, n) + r.normal(size=n)
    elif kind == 'heavy':
        x = r.standard_t(2, size=n)
    elif kind == 'bimodal':
        x = r.normal(size=n) + 6 * (np.arange(n) // max(1, n // 7) % 2)
    else:
        raise ValueError(kind)
    return x


KINDS = ('iid', 'ar', 'anti', 'walk', 'trend', 'heavy', 'bimodal')


def chain(r, n, npar, kinds=KINDS, repeats=None, scaled=True):
    """(n, npar) chain; with repeats the rows move together and stay with that probability, as a sampler's chain does."""
    X = np.column_stack([column(r, n, str(r.choice(kinds))) for _ in range(npar)])
    if scaled:
        X = X * np.exp(r.uniform(-6, 6, npar)) + r.normal(size=npar) * np.exp(r.uniform(-3, 3, npar))
    if repeats:
        stay = r.random(n) < repeats
        stay[0] = False
        idx = np.maximum.accumulate(np.where(stay, 0, np.arange(n)))
        X = X[idx]
    return X


def layout(r, X):
    """The same values in another memory layout."""
    k = int(r.integers(0, 4))
    if k == 1:
        return np.asfortranarray(X)
    if k == 2:
        big = np.zeros((2 * X.shape[0], X.shape[1] + 2))
        big[::2, 1:-1] = X
        return big[::2, 1:-1]
    if k == 3:
        Y = X[::-1].copy()
        return Y[::-1]
    return X.copy()
