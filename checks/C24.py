"""C24: low level harmonics of both backends against Legendre functions in extended precision."""
import numpy as np

from rt import gen, oracle
from rt.monitor import Violation

RULE = ("every (n, m) up to a bound and orders sampled for degrees up to 1700 (2600; low, middle and high |m|), in both "
        "backends and for array lengths n+1 and more: the Fourier series with the returned coefficients is compared "
        "with P_nm on a grid; starting values, FFT lengths and the direct evaluation on many grids. Distinct by "
        "(function, n, m, length or grid).")
ROUNDS = {"quick": 3}
MIN = {"series": 3000, "beyond": 3000, "start": 3000, "fft-length": 2000, "sph_harmonic_tp": 200}
CPU_LIMIT = 120


def cases(tier, r, variant):
    big = tier == "thorough"
    for m in range(0, 31 if not big else 91):
        yield {"what": "y", "nmax": 30 if not big else 90, "m": m, "step": 1, "seed": gen.seed_of(r)}
    hi = [(60, [0, 1, 7, 30, 59, 60]), (150, [0, 1, 2, 75, 149, 150]), (400, [0, 3, 200, 398]),
          (1000, [0, 1, 2, 500, 999, 1000]),
          (1100, [0, 1, 1099, 1100]), (1700, [0, 2, 850, 1024, 1700])]
    if big:
        hi += [(n, sorted(set(int(x) for x in r.randint(0, n + 1, size=14)))) for n in (200, 300, 600, 800, 1000, 1000,
                                                                                       1000, 1030, 1200, 1500, 2000)]
        hi += [(2600, [0, 1, 1300, 2600])]
    for n, ms in hi:
        for m in ms:
            yield {"what": "y", "nmax": n, "m": m, "step": max(1, n // (40 if not big else 200)),
                   "seed": gen.seed_of(r)}
    for m in range(0, 200 if not big else 500):            # every degree, with a random order
        yield {"what": "y", "nmax": m, "m": int(r.randint(0, m + 1)), "step": m + 1, "seed": gen.seed_of(r)}
    for a in range(0, 40 if not big else 400):
        yield {"what": "fft", "lo": a * 100 + 1, "hi": a * 100 + 101, "seed": 1}
    for top, count in ((1e5, 60), (1e6, 40), (1e8, 30), (2 ** 31 - 2 ** 27, 10)):
        for _ in range(count if not big else 10 * count):
            S = int(r.uniform(top / 50, top))
            yield {"what": "fft", "lo": S, "hi": S + 1, "seed": 1}
    for S in [2 ** k + d for k in range(14, 27) for d in (-1, 0, 1)]:
        yield {"what": "fft", "lo": S, "hi": S + 1, "seed": 1}
    for n in [400, 690, 1020, 1310, 1999, 2001] + ([500, 900, 1080, 1500, 2050, 2600] if big else []):
        yield {"what": "start", "n": n + int(r.randint(0, 9)), "count": 0 if n < 1400 or big else 150, "seed": gen.seed_of(r)}
    for _ in range(4 if not big else 40):
        yield {"what": "start", "n": int(r.randint(2010, 5000)), "count": 60, "seed": gen.seed_of(r)}
    for n in range(0, 13 if not big else 31):
        yield {"what": "tp", "n": n, "seed": gen.seed_of(r)}
    for n in (61, 90, 150, 300) + ((400, 600) if big else ()):
        yield {"what": "tp", "n": n + int(r.randint(0, 3)), "seed": gen.seed_of(r)}
    for n in list(range(13, 60)) + ([int(r.randint(10, 120)) for _ in range(200)] if big else []):
        yield {"what": "tp", "n": n, "seed": gen.seed_of(r)}


def run(case, mon):
    {"y": run_y, "start": run_start, "fft": run_fft, "tp": run_tp}[case["what"]](case, mon)


def run_y(case, mon):
    sp = mon.sp
    r = gen.rs(case["seed"])
    nmax, am, step = case["nmax"], case["m"], case["step"]
    npts = nmax + 2
    P = oracle.P_(nmax, am, "grid", npts)            # theta_j = j pi / (npts - 1)
    ns = sorted(set(list(range(am, nmax + 1, step)) + [am, min(am + 1, nmax), min(am + 2, nmax), nmax]))
    if am:
        ns = [int(r.randint(0, am)), am - 1] + ns
    jk = np.arange(npts)[None, :]
    for n in ns:
        ys = []
        for m in {am, -am}:
            for back in ("c", "py"):
                L = n + 1 + (0 if r.randint(2) else int(r.randint(0, 7)))
                if back == "c":
                    y = np.full(L, 7.5)
                    mon.call(sp.csphi.ynunm, n, m, y)
                    y0 = mon.call(sp.csphi.ynnm, n, m)
                else:
                    y = np.array(mon.call(sp.pysphi.ynunm, n, m, L), float)
                    y0 = mon.call(sp.pysphi.ynnm, n, m)
                what = "%s ynunm(%d, %d, length %d)" % (back, n, m, L)
                if y.shape != (L,) or not np.all(np.isfinite(y)):
                    raise Violation("values", "%s: shape %s, not finite at %s" %
                                    (what, y.shape, np.flatnonzero(~np.isfinite(y))[:5]))
                if am > n:
                    if y.any() or y0 != 0:
                        raise Violation("beyond", "%s is not zero for |m| > n" % what)
                    mon.ok("beyond", (back, n, m, L))
                    continue
                if y[n + 1:].any() or y[:n + 1][(n - np.arange(n + 1)) % 2 == 1].any():
                    raise Violation("beyond", "%s: nonzero beyond n or at the wrong parity" % what)
                mon.ok("beyond", (back, n, m, L))
                tiny = n > 900 and y0 < 1e-290          # the value itself is at the end of the number range
                if not (np.isfinite(y0) and (y0 > 0 or tiny) and abs(y0 - y[n]) <= 1e-13 * y0 + 1e-300 * tiny):
                    raise Violation("start", "%s: ynnm is %r, the last coefficient %r" % (what, y0, y[n]))
                mon.ok("start", (back, n, m))
                ys.append((what, back, m, y[:n + 1]))
        if am > n:
            continue
        # i^m sum_k (+-) y_k e^{ik theta} = P_nm
        k = np.arange(n + 1)[:, None]
        ang = (k * jk) % (2 * (npts - 1)) * (np.pi / (npts - 1))
        if am % 2:
            T, f = 2 * np.sin(ang), (-1) ** ((am + 1) // 2)
        else:
            T, f = 2 * np.cos(ang), (-1) ** (am // 2)
            T[0] = 1
        want = np.asarray(P[n], float)
        big = float(np.max(np.abs(want)))
        done = {}
        for what, back, m, y in ys:
            key = y.tobytes()
            if key not in done:
                done[key] = f * (y @ T)
            mon.close(done[key], want, 1e-12 * big * (1 + n / 50.0), "series", what + ": the series against P_nm",
                      (back, n, m))


def run_start(case, mon):
    """y_nnm alone, for every order of a high degree: log y = log a + sum of log-ratios (fsum)"""
    sp = mon.sp
    r = gen.rs(case["seed"])
    n = case["n"]
    wants = oracle.log_starts(n)
    ms = np.arange(n + 1) if not case["count"] else np.unique(np.concatenate([r.randint(0, n + 1, size=case["count"]),
                                                                            [0, 1, n - 1, n]]))
    for m in ms:
        m = int(m)
        want = float(wants[m])
        for back, fn in (("c", sp.csphi.ynnm), ("py", sp.pysphi.ynnm)):
            if back == "py" and m % 3 and n > 1000:
                continue
            for mm in {m, -m} if back == "c" else {int(gen.pick(r, [m, -m]))}:
                got = mon.call(fn, n, mm)
                what = "%s ynnm(%d, %d)" % (back, n, mm)
                if want < -690:                          # at the end of the number range
                    if not 0 <= got < 1e-290:
                        raise Violation("start", "%s is %r, not %r**10" % (what, got, float(np.exp(want / 10))))
                elif not (got > 0 and abs(np.log(got) - want) <= 1e-10):
                    raise Violation("start", "%s is %r, not %r" % (what, got, float(np.exp(want))))
                mon.ok("start", (back, n, mm))


def run_fft(case, mon):
    sp = mon.sp
    for S in range(case["lo"], case["hi"]):
        for name, fn, primes in (("FindQ", sp.csphi.FindQ, (2, 3, 5)),
                                 ("smallest_prime_factor", sp.pysphi.smallest_prime_factor, (2, 3, 5, 7))):
            if S > 200000 and name != "FindQ" and (S > 2e7 or S % 10):      # long gaps, in Python
                continue
            Q = mon.call(fn, S)
            q = int(Q)
            if q != Q or q < S:
                raise Violation("fft-length", "%s(%d) = %r" % (name, S, Q))
            for p in (2, 3, 5, 7):
                while q > 1 and q % p == 0:
                    q //= p
            if q != 1:
                raise Violation("fft-length", "%s(%d) = %r has a prime factor above 7" % (name, S, Q))
            mon.ok("fft-length", (name, S))


def run_tp(case, mon):
    sp = mon.sp
    r = gen.rs(case["seed"])
    n = case["n"]
    ms = range(-n, n + 1) if n <= 12 else sorted({0, n, -n, int(r.randint(-n, n + 1)), int(r.randint(-n, n + 1))})
    for m in ms:
        far = n > 60
        nr = int(gen.pick(r, [2, 3, 4, 7, 20 if far else 2 * n + 3, int(r.randint(2, 20 if far else 60))]))
        nc = int(gen.pick(r, [1, 2, 3, 6, 9 if far else 2 * n + 1, int(r.randint(1, 20 if far else 60)), 50, 130]))
        got = np.array(mon.call(sp.sph_harmonic_tp, nr, nc, n, m))
        P = np.asarray(oracle.P_(n, m, "grid", nr)[n], float)
        want = np.outer(P, np.exp(1j * m * 2 * np.pi * np.arange(nc) / nc))
        mon.close(got, want, 2e-13 * (n + 1) * (1 + n / 20.0), "sph_harmonic_tp",
                  "sph_harmonic_tp(%d, %d, %d, %d)" % (nr, nc, n, m), (n, m, nr, nc))
