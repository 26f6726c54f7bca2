"""Arguments of the mathematical functions."""
import math


def lu(rng, a, b):
    return math.exp(rng.uniform(math.log(a), math.log(b)))


def near(rng, c):
    return c * (1 + rng.choice([0, 0, 1, -1]) * 10 ** rng.uniform(-16, -3))


def op(f, *x):
    return {"op": "math", "f": f, "x": [repr(float(v)) for v in x]}


def positive(rng):
    k = rng.random()
    if k < 0.15:
        return near(rng, 1.0)
    if k < 0.3:
        return lu(rng, 1e-12, 1e-2)
    if k < 0.6:
        return rng.uniform(0.01, 1.2)
    if k < 0.9:
        return rng.uniform(0.9, 30)
    return lu(rng, 20, 600)


def call(rng):
    f = rng.choice(["E1", "E1", "En", "D", "D", "AS51", "AS56", "L0", "L0", "L0", "X", "X", "V", "erf", "erfc", "fwhm", "fwhm3", "isNumber", "isFinite"])
    if f == "E1":
        return op(f, rng.choice([positive(rng), positive(rng), -rng.uniform(1e-6, 2), -lu(rng, 0.5, 600), -lu(rng, 1, 50), 0.0]))
    if f == "En":
        n = rng.choice([0, -1, 1, 1, 2, 3, 4, 5])
        return op(f, n, rng.choice([0.0, rng.uniform(0.001, 1), near(rng, 1.0), rng.uniform(1, 4), lu(rng, 1e-6, 3)]))
    if f == "D":
        return op(f, rng.choice([positive(rng), positive(rng), -rng.uniform(1e-6, 2), -lu(rng, 0.5, 1e6), -lu(rng, 1, 60), 0.0, lu(rng, 1e3, 1e9)]))
    if f == "AS51":
        return op(f, rng.choice([rng.uniform(0, 1), near(rng, 1.0), 0.0, 1.5, lu(rng, 1e-9, 1)]))
    if f == "AS56":
        return op(f, rng.choice([lu(rng, 1, 500), near(rng, 1.0), 0.5]))
    if f == "L0":
        m = [lu(rng, 0.1, 1e3) for _ in range(3)]
        if rng.random() < 0.5:
            m = [m[0], m[0] * lu(rng, 0.05, 20), m[0] * lu(rng, 0.05, 20)]
        tot = rng.choice([lu(rng, 0.2, 9.9), lu(rng, 0.02, 20), near(rng, 10.0), near(rng, 0.01), lu(rng, 1e-4, 1e3)])
        rho = lu(rng, 0.01, 20)
        d = tot / (m[0] + m[1]) / rho
        if rng.random() < 0.12:
            m[rng.randrange(3)] = rng.choice([0.0, -1.0, math.inf, -math.inf, math.nan])
        return op(f, *m, rho, d)
    if f in ("X", "V"):
        a, b = lu(rng, 1, 300), lu(rng, 1, 300)
        p, q = lu(rng, 1, 300), lu(rng, 1, 300)
        d1, d2 = lu(rng, 0.05, 3) / max(a, q), lu(rng, 0.05, 3) / max(b, p)
        t = rng.choice([0.0, 0.0, lu(rng, 0.01, 3)])
        if abs(q / a - 1) < 0.02:
            q = a * 1.1
        # thick layers: the difference of large numbers keeps fewer figures
        while (q - a) * d1 > 4:
            d1 = d1 / 2
        if rng.random() < 0.3:
            d2 *= lu(rng, 1, 30)
        if f == "V":
            k = rng.random()
            if k < 0.2:
                d1 = 0.0
            if 0.1 < k < 0.3:
                d2 = 0.0
        return op(f, p, q, d1, d2, a, b, t)
    if f in ("erf", "erfc"):
        return op(f, rng.choice([rng.uniform(-3, 3), rng.uniform(-0.1, 0.1), 0.0, rng.uniform(-8, 8)]))
    if f == "fwhm":
        return op(f, rng.uniform(0, 100), rng.uniform(0, 0.3), rng.uniform(0, 0.3), rng.uniform(0.001, 0.01))
    if f == "fwhm3":
        return op(f, rng.uniform(0, 100), rng.uniform(0, 0.3), rng.uniform(0, 0.3))
    return op(f, rng.choice([0.0, 1.5, -2.0, math.inf, -math.inf, math.nan, 1.7e308, -1.7e308]))


def script_math(rng):
    return [call(rng) for _ in range(12)]
