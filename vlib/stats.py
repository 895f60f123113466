"""Reference statistics, from their textbook definitions (no scipy)."""
import math


def moments(x):
    n = len(x)
    m = math.fsum(x) / n
    return n, m, [math.fsum((v - m) ** k for v in x) / n for k in range(5)]


def var(x):
    return moments(x)[2][2]


def degenerate(x):
    """spread at rounding level: skewness and kurtosis are noise"""
    n, m, mm = moments(x)
    big = max(abs(v) for v in x)
    return mm[2] <= (1e-7 * big) ** 2


def skew(x):
    n, m, mm = moments(x)
    return mm[3] / mm[2] ** 1.5


def kurt_pearson_unbiased(x):
    n, m, mm = moments(x)
    g2 = mm[4] / mm[2] ** 2 - 3
    if n > 3:
        return (n - 1) / ((n - 2) * (n - 3)) * ((n + 1) * g2 + 6) + 3
    return g2 + 3


def kurt_excess(x):
    n, m, mm = moments(x)
    return mm[4] / mm[2] ** 2 - 3


def log10abs(v):
    v = abs(v)
    return -math.inf if v == 0 else math.log10(v)


STATS = ["var", "min", "mean", "skew", "kurtosis", "abs", "square"]


def raw_stat(name, x):
    """the statistic itself, and the magnitude below which it is only rounding noise"""
    big = max(abs(v) for v in x)
    if name == "var":
        return var(x), 1e-13 * big * big
    if name == "min":
        return min(x), 0
    if name == "mean":
        return math.fsum(x) / len(x), 1e-14 * big
    if name == "skew":
        return skew(x), 1e-9
    if name == "kurtosis":
        return kurt_pearson_unbiased(x), 1e-9
    if name == "abs":
        return math.fsum(abs(v) for v in x), 0
    if name == "square":
        return math.fsum(v * v for v in x), 0
    raise KeyError(name)


def check_log_stat(got, name, x, what):
    """got should be log10|stat(x)|"""
    from vlib.core import Violation, need_close
    if name in ("skew", "kurtosis") and degenerate(x):
        return False
    v, noise = raw_stat(name, x)
    if abs(v) <= noise and not (v == 0 and noise == 0):
        if not (math.isnan(got) or math.isinf(got) or got <= math.log10(max(noise, 1e-300)) + 1):
            raise Violation(f"{what}: got {got!r}, expected a vanishing value")
        return False
    need_close(got, log10abs(v), what, 1e-6, 1e-6)
    return True
