#!/usr/bin/env python3-vt
"""Writes spec/SampleRef.tla: reference courses of the two sample problems, computed with scipy from the equations
(Radau at 1e-12 in logarithmic time for the chemistry; the mechanism reduced to its one degree of freedom)."""
import numpy as np, math
from scipy.integrate import solve_ivp
from scipy.optimize import brentq
import os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "SampleRef.tla")


def chem(u):
    a, b, c = u
    r = -.04 * a + 1e4 * b * c
    s = 3e7 * b * b
    return np.array([r, -r - s, s])


def chemj(u):
    a, b, c = u
    return np.array([[-.04, 1e4 * c, 1e4 * b], [.04, -1e4 * c - 6e7 * b, -1e4 * b], [0, 6e7 * b, 0]])


def roberts(rtol):
    # from 0 to 1e-6 in t, then in x = log t
    s = solve_ivp(lambda t, u: chem(u), (0, 1e-6), [1, 0, 0], method="Radau", jac=lambda t, u: chemj(u), rtol=rtol, atol=1e-22)
    return solve_ivp(lambda x, u: math.exp(x) * chem(u), (math.log(1e-6), math.log(4e10)), s.y[:, -1], method="Radau",
                     jac=lambda x, u: math.exp(x) * chemj(u), rtol=rtol, atol=1e-22, dense_output=True)


def crank():
    a, M = .5, np.array([1.0, 1.0, 2.0])

    def geo(q):
        p = -math.asin(a * math.sin(q))
        x = math.cos(p) + a * math.cos(q)
        dp = -a * math.cos(q) / math.cos(p)
        dx = -math.sin(p) * dp - a * math.sin(q)
        # second derivatives
        ddp = (a * math.sin(q) + math.sin(p) * dp * dp) / math.cos(p)
        ddx = -math.cos(p) * dp * dp - math.sin(p) * ddp - a * math.cos(q)
        return x, p, np.array([1, dx, dp]), np.array([0, ddx, ddp])

    def force(q, x, p, v):
        d = np.array([x - .5 * (math.cos(p) + a * math.cos(q)), -.5 * (math.sin(p) + a * math.sin(q))])
        G = np.array([[.5 * a * math.sin(q), 1, .5 * math.sin(p)], [-.5 * a * math.cos(q), 0, -.5 * math.cos(p)]])
        l = math.hypot(*d)
        f = (l - 1) + d @ (G @ v) / l
        Q = -f / l * (d @ G)
        return Q + np.array([0, 1, -math.sin(p)])

    def acc(q, w):
        x, p, J, K = geo(q)
        Q = force(q, x, p, J * w)
        return (J @ Q - (M * J) @ K * w * w) / ((M * J) @ J)
    s = solve_ivp(lambda t, u: [u[1], acc(*u)], (0, 12), [math.pi / 2, 0], method="DOP853", rtol=1e-13, atol=1e-14, dense_output=True)
    rows = []
    for i in range(0, 121):
        t = i / 10
        q, w = s.sol(t)
        x, p, J, K = geo(q)
        ac = J * acc(q, w) + K * w * w
        Q = force(q, x, p, J * w)
        l1 = Q[1] - M[1] * ac[1]
        # J2 pdd - Q3 + sin p l1 - cos p l2 = 0
        l2 = (M[2] * ac[2] - Q[2] + math.sin(p) * l1) / math.cos(p)
        assert abs(M[0] * ac[0] - Q[0] + a * math.sin(q) * l1 - a * math.cos(q) * l2) < 1e-9
        rows.append((t, [q, x, p, *(J * w), l1, l2, 0.0, 0.0], list(ac)))
    return rows


if __name__ == "__main__":
    a, b = roberts(1e-12), roberts(1e-10)
    times = [m * 10.0 ** e for e in range(-5, 11) for m in (1, 2, 4, 7) if m * 10.0 ** e <= 4e10]
    worst = max(np.max(abs(a.sol(math.log(t)) / b.sol(math.log(t)) - 1)) for t in times)
    print("two accuracies differ by", worst, "relative;", "at 4e10:", a.y[:, -1], "published 5.2083474251394888e-08 2.0833390772616859e-13 9.9999994791631752e-01")
    ev = [brentq(lambda x: a.sol(x)[i] - v, math.log(lo), math.log(hi), xtol=1e-15) for i, v, lo, hi in ((2, .01, .1, 1), (0, 1e-4, 1e7, 1e8))]
    f = lambda v: '"%.17e"' % v
    with open(OUT, "w") as o:
        o.write("----------------------------- MODULE SampleRef -----------------------------\n"
                "\\* Reference courses of the sample problems; written by tools/reference.py.\n"
                "\\* Robertson: << time, << y1, y2, y3 >>, << slopes >> >>\nRobertsRef == <<\n")
        o.write(",\n".join("<<%s, <<%s>>, <<%s>>>>" % (f(t), ", ".join(map(f, a.sol(math.log(t)))), ", ".join(map(f, chem(a.sol(math.log(t)))))) for t in times))
        o.write(">>\n\\* when y3 reaches 0.01 and when y1 falls to 1e-4\nRobertsEvents == <<%s, %s>>\n" % (f(math.exp(ev[0])), f(math.exp(ev[1]))))
        o.write("\\* slider-crank: << time, unknowns, accelerations >>\nCrankRef == <<\n")
        o.write(",\n".join("<<%s, <<%s>>, <<%s>>>>" % (f(t), ", ".join(map(f, y)), ", ".join(map(f, ac))) for t, y, ac in crank()))
        o.write(">>\n=============================================================================\n")
    print("events", [math.exp(x) for x in ev])
