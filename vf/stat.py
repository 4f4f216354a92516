"""Statistical oracles with a controlled false-alarm rate.

A test is run on a first sample; only when its p value is below P1 is it repeated on a fresh, larger sample, and
only a p value below P2 there is a violation.  A correct implementation fails with probability about P1*P2 = 1e-11
per test; a wrong one fails both.
"""
import numpy as np
from scipy import stats

P1, P2 = 1e-4, 1e-7


def confirmed(case, draw, test, n, what, factor=4, **detail):
    """draw(n) -> sample, test(sample) -> p value."""
    p = float(test(draw(n)))
    case.count("statistical_tests")
    case.count("draws_tested", n)
    if not (p < P1):
        if np.isnan(p):
            case.check(False, what + " (p value undefined)", **detail)
        case.check(True, what)
        return p
    q = float(test(draw(factor * n)))
    case.check(not (q < P2), what, p_first=p, p_confirm=q, n=n, **detail)
    return p


def chi2_p(observed, expected):
    """Chi-square goodness of fit; small expected cells are pooled; an observation in an impossible cell gives 0."""
    o, e = np.asarray(observed, float), np.asarray(expected, float)
    if np.any((e <= 0) & (o > 0)):
        return 0.0
    keep = e > 0
    o, e = o[keep], e[keep]
    order = np.argsort(e)
    o, e = o[order], e[order]
    oo, ee, a, b = [], [], 0., 0.
    for x, y in zip(o, e):
        a += x
        b += y
        if b >= 8:
            oo.append(a)
            ee.append(b)
            a = b = 0.
    if b > 0:
        if ee:
            oo[-1] += a
            ee[-1] += b
        else:
            return 1.0
    if len(ee) < 2:
        return 1.0
    oo, ee = np.array(oo), np.array(ee)
    ee = ee * oo.sum() / ee.sum()
    return stats.chi2.sf(((oo - ee) ** 2 / ee).sum(), len(ee) - 1)


def repeats_p(seq, probs, lag=1):
    """p value of how often an iid sequence with the given {value: probability} repeats itself at this lag."""
    n = len(seq) - lag
    if n < 100:
        return 1.0
    w = np.array(list(probs.values()), float)
    s2, s3 = (w ** 2).sum(), (w ** 3).sum()
    if n * s2 < 30 or n * (1 - s2) < 30:
        return 1.0
    same = sum(a == b for a, b in zip(seq, seq[lag:]))
    var = n * (s2 - s2 ** 2) + 2 * n * max(s3 - s2 ** 2, 0.)
    return float(2 * stats.norm.sf(abs(same - n * s2) / np.sqrt(var)))


def binom_p(k, n, p):
    if p <= 0:
        return 0.0 if k > 0 else 1.0
    if p >= 1:
        return 0.0 if k < n else 1.0
    return stats.binomtest(int(k), int(n), float(p)).pvalue


def poisson_p(k, mean):
    return float(min(1., 2 * min(stats.poisson.cdf(k, mean), stats.poisson.sf(k - 1, mean))))


def ks_p(x, cdf):
    return stats.kstest(x, cdf).pvalue


def normal_p(z):
    """Combined test that z is a sample of N(0,1): KS, mean, variance (Bonferroni)."""
    z = np.asarray(z, float)
    if not np.all(np.isfinite(z)):
        return 0.0
    n = len(z)
    ps = [stats.kstest(z, "norm").pvalue,
          2 * stats.norm.sf(abs(z.mean()) * np.sqrt(n)),
          chi2_two_sided((z ** 2).sum(), n)]
    return min(1.0, 3 * min(ps))


def chi2_two_sided(s, df):
    c = stats.chi2.cdf(s, df)
    return min(1.0, 2 * min(c, stats.chi2.sf(s, df)))


def lag_p(z, lag):
    """Two-sided p value of the lag autocorrelation of an iid N(0,1)-like sequence."""
    z = np.asarray(z, float)
    z = z - z.mean()
    n = len(z) - lag
    if n < 50:
        return 1.0
    r = (z[:-lag] * z[lag:]).sum() / (z * z).sum()
    return 2 * stats.norm.sf(abs(r) * np.sqrt(n))


def any_lag_p(z, overlap=2000):
    """p value of the largest autocorrelation of an iid N(0,1)-like sequence over all lags that leave `overlap` pairs."""
    z = np.asarray(z, float)
    z = z - z.mean()
    n = len(z)
    if n < 2 * overlap:
        return 1.0
    f = np.fft.rfft(z, 2 * n)
    a = np.fft.irfft(f * np.conj(f))[1:n - overlap + 1] / z.var()
    s = np.abs(a) / np.sqrt(n - np.arange(1, len(a) + 1))
    p = 2 * stats.norm.sf(s.max())
    return float(-np.expm1(len(a) * np.log1p(-min(p, 1 - 1e-16))))
