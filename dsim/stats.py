""" Statistical tests with thresholds far beyond any plausible fluctuation. """
import numpy as onp
from scipy import stats as st

P_MIN = 1e-10


def multinomial_ok(counts, probs):
    """ chi-square test, cells with small expectation are pooled """
    counts = onp.asarray(counts, dtype='float64')
    probs = onp.asarray(probs, dtype='float64')
    n = counts.sum()
    order = onp.argsort(probs)
    e, c, E, C = [], [], 0.0, 0.0
    for i in order:
        E += n * probs[i]
        C += counts[i]
        if E >= 10:
            e.append(E)
            c.append(C)
            E = C = 0.0
    if E > 0 and e:
        e[-1] += E
        c[-1] += C
    if len(e) < 2:
        return True, 1.0
    e, c = onp.array(e), onp.array(c)
    p = st.chi2.sf(((c - e) ** 2 / e).sum(), len(e) - 1)
    return p > P_MIN, p


def normal_ok(x):
    """ whether x is plausibly iid standard normal: mean, variance and kolmogorov-smirnov """
    x = onp.asarray(x, dtype='float64').ravel()
    n = x.size
    if n < 20:
        return True, 1.0
    p = min(
        2 * st.norm.sf(abs(x.mean()) * n ** 0.5),
        2 * min(st.chi2.sf((x ** 2).sum(), n), st.chi2.cdf((x ** 2).sum(), n)),
        st.kstest(x, 'norm').pvalue)
    return p > P_MIN, p
