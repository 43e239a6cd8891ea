"""C20: what the plotting routines hand to matplotlib, read back from the figures at the moment they are shown."""
import os
import subprocess
import sys

import numpy as np

from rt import gen, oracle
from rt.monitor import Violation, fill, read_sc

RULE = ("random patterns (scalar, vector, plain magnitude arrays, single harmonics) and coefficient sets of every small "
        "(nmax, mmax) and of random larger ones; the figure is inspected when plt.show is called: polygons of the "
        "surface, cells and colour limits of the image, points of the lines. Distinct by (routine, size, kind).")
MIN = {"surface": 120, "image": 50, "lines": 50, "argument": 300, "without-matplotlib": 1}
CPU_LIMIT = 300
ASSUMPTIONS = ["matplotlib draws the polygons, cells and lines it is given (the rendering itself is not inspected)",
               "finite values between 1e-30 and 1e30"]
KINDS = ["gauss", "real", "imag", "wide", "sparse", "ints", "const", "tiny", "huge", "zero", "near const"]


def cases(tier, r, variant):
    big = tier == "thorough"
    for nmax in range(0, 7 if not big else 13):
        for mmax in range(nmax + 1):
            for what in ("pcolor", "lines"):
                for _ in range(2 if not big else 4):
                    yield {"what": what, "nmax": nmax, "mmax": mmax, "kind": gen.pick(r, KINDS), "seed": gen.seed_of(r)}
    for _ in range(40 if not big else 300):
        nmax, mmax = gen.rand_size(r, 30 if not big else 60)
        yield {"what": gen.pick(r, ["pcolor", "lines"]), "nmax": nmax, "mmax": mmax, "kind": gen.pick(r, KINDS),
               "seed": gen.seed_of(r)}
    for nmax, mmax in gen.ladder_coefs(r, 7, 60, 30) if not big else gen.ladder_coefs(r, 13, 130, 60):
        yield {"what": gen.pick(r, ["pcolor", "lines"]), "nmax": nmax, "mmax": mmax, "kind": gen.pick(r, KINDS),
               "seed": gen.seed_of(r)}
    for k in range(150 if not big else 1500):
        hi = 10 if k % 10 else 30
        yield {"what": gen.pick(r, ["scalar", "vector", "array"]), "nr": int(r.randint(2, hi)),
               "nc": 2 * int(r.randint(1, hi)), "kind": gen.pick(r, KINDS), "seed": gen.seed_of(r)}
    for nr, nc in [(104, 110), (130, 4), (3, 130), (201, 2)] + ([(200, 180), (500, 40), (40, 520)] if big else []):
        for what in ("scalar", "vector", "array")[:1 if nr * nc > 10000 else 3]:
            yield {"what": what, "nr": nr + int(r.randint(0, 3)), "nc": nc, "kind": gen.pick(r, KINDS[:5]),
                   "seed": gen.seed_of(r)}
    for nmax, mmax in [(70, 70), (130, 3), (110, 60)]:
        for what in ("pcolor", "lines"):
            yield {"what": what, "nmax": nmax, "mmax": mmax, "kind": gen.pick(r, KINDS[:5]), "seed": gen.seed_of(r)}
    for k in range(8 if not big else 60):
        n = int(r.randint(0, 49)) if k else 48
        yield {"what": "simple", "n": n, "m": int(r.randint(-n, n + 1)) if k > 1 else (n, -n)[k], "seed": 0}


class Shown(list):
    """stands in for plt.show: keeps the figures open at that moment"""

    def __call__(self, *a, **k):
        import matplotlib.pyplot as plt
        self.append([plt.figure(i) for i in plt.get_fignums()])


def setup(mon):
    import matplotlib.pyplot as plt
    mon.shown = Shown()
    plt.show = mon.shown


def values(kind, shape, seed):
    if kind == "zero":
        return np.zeros(shape, complex)
    if kind == "near const":
        return 1 + 10.0 ** (-6 - seed % 7) * gen.values("gauss", shape, seed)
    return gen.values(kind, shape, seed)


def draw(mon, fn, *a):
    import matplotlib.pyplot as plt
    plt.close("all")
    del mon.shown[:]
    other = None
    if fn.__name__ in ("simple_plot", "plot_mag_on_sphere", "plot_sphere_mag") and mon.calls % 2:
        other = plt.figure()                 # another figure of the user's: the surfaces have figures of their own
        line, = other.add_subplot(111).plot([1, 2, 3], [4, 5, 7])
    with plt.rc_context():
        user = [("image.cmap", ["viridis", "gray", "plasma"]), ("lines.linewidth", [0.5, 2.0, 1.5]),
                ("lines.marker", ["None", "o"]), ("font.size", [8.0, 14.0]), ("figure.figsize", [[5.0, 4.0], [9.0, 3.0]]),
                ("figure.dpi", [60.0, 150.0]), ("axes.facecolor", ["white", "0.9"]), ("lines.linestyle", ["-", "--"]),
                ("axes.titlesize", ["large", "small"]), ("savefig.dpi", ["figure", 90.0])]
        for k, (name, vals) in enumerate(user):
            plt.rcParams[name] = vals[(mon.calls // (k + 1)) % len(vals)]
        (plt.ion if mon.calls % 3 == 0 else plt.ioff)()
        keep, inter = user_settings(plt), plt.isinteractive()
        mon.call(fn, *a)
        now = user_settings(plt)
        for k in keep:
            if keep[k] != now.get(k):
                raise Violation("settings", "%s changed matplotlib's setting %s from %s to %s" %
                                (fn.__name__, k, keep[k], now.get(k)))
        mon.check(plt.isinteractive() == inter, "settings", lambda: "%s turned the interactive mode %s" %
                  (fn.__name__, "off" if inter else "on"))
        plt.ioff()
    if len(mon.shown) != 1:
        raise Violation("not-shown", "%s: show was called %d times" % (fn.__name__, len(mon.shown)))
    figs = [f for f in mon.shown[0] if f is not other]
    if other is not None:
        if len(figs) != len(mon.shown[0]) - 1:
            raise Violation("other-figure", "%s closed a figure of the user's" % fn.__name__)
        if len(other.axes) != 1 or other.axes[0].lines[:] != [line] or other.axes[0].collections[:] \
                or not np.array_equal(line.get_xydata(), [[1, 4], [2, 5], [3, 7]]):
            raise Violation("other-figure", "%s changed a figure of the user's" % fn.__name__)
        mon.ok("other-figure")
    if len(figs) != 1:
        raise Violation("not-shown", "%s: %d figures are open when show is called" % (fn.__name__, len(figs)))
    return figs[0]


def user_settings(plt):
    return {k: repr(plt.rcParams[k]) for k in plt.rcParams if not k.startswith("backend")}


def match(a, b, tol, key, what):
    """the two point sets cover each other"""
    for x, y, t in ((a, b, "a point that should be there is missing"), (b, a, "a point is drawn where none belongs")):
        x, y = x[np.argsort(x[:, 2])], y[np.argsort(y[:, 2])]
        for i in range(0, len(x), 200):
            u = x[i:i + 200]
            near = y[np.searchsorted(y[:, 2], u[0, 2] - 2 * tol):np.searchsorted(y[:, 2], u[-1, 2] + 2 * tol, "right")]
            if not (len(near) and np.all(np.isfinite(u))):
                raise Violation(key, "%s: %s: %s" % (what, t, u[0]))
            d = np.min(np.sum((u[:, None, :] - near[None, :, :]) ** 2, axis=2), axis=1)
            j = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
            if not np.sqrt(d[j]) <= tol:
                raise Violation(key, "%s: %s: %s is %.3g or more away from the nearest" % (what, t, u[j], np.sqrt(d[j])))


def faces(fig, what):
    polys = [c for ax in fig.axes for c in ax.collections if hasattr(c, "_faces")]
    if len(polys) != 1:
        raise Violation("surface", "%s: %d surfaces drawn" % (what, len(polys)))
    f = np.asarray(polys[0]._faces, float)
    if f.ndim != 3 or f.shape[2] != 3:
        raise Violation("surface", "%s: faces of shape %s" % (what, f.shape))
    if not polys[0].get_visible() or polys[0].get_alpha() == 0:
        raise Violation("surface", "%s: invisible" % what)
    return f


def surface(mon, fig, T, what, st):
    nr, nc = T.shape
    f = faces(fig, what)
    th = np.pi * np.arange(nr)[:, None] / (nr - 1)
    ph = 2 * np.pi * np.arange(nc)[None, :] / nc
    p = np.stack([T * np.sin(th) * np.cos(ph), T * np.sin(th) * np.sin(ph), T * np.cos(th) + 0 * ph], axis=2)
    q = np.concatenate([p, p[:, :1]], axis=1)
    want = np.stack([q[:-1, :-1], q[:-1, 1:], q[1:, 1:], q[1:, :-1]], axis=2).reshape(-1, 4, 3)
    tol = 1e-12 * float(np.max(T))
    scale = float(np.max(T)) or 1.0
    if len(f) != len(want):
        raise Violation("surface", "%s: %d faces instead of %d" % (what, len(f), len(want)))
    match(p.reshape(-1, 3) / scale, f.reshape(-1, 3) / scale, tol / scale, "surface", what + ", points")
    mid = lambda x: (x.max(axis=1) + x.min(axis=1)) / 2 / scale                                    # noqa: E731
    match(mid(want), mid(f), 2 * tol / scale, "surface", what + ", faces")
    mon.ok("surface", st)


def run(case, mon):
    sp = mon.sp
    from spherepy import plot_sphere as ps
    what = case["what"]
    if what in ("pcolor", "lines"):
        nmax, mmax, kind = case["nmax"], case["mmax"], case["kind"]
        from rt.monitor import dense_mask
        A = values(kind, (nmax + 1, 2 * mmax + 1), case["seed"]) * dense_mask(nmax, mmax)
        c = fill(sp, A)
        name = "%s of nmax=%d mmax=%d, %s" % (what, nmax, mmax, kind)
        fig = draw(mon, ps.pcolor_coefs if what == "pcolor" else ps.plot_coefs, c)
        (image if what == "pcolor" else lines)(mon, fig, A, nmax, mmax, name, (what, nmax, mmax, kind))
        if not np.array_equal(read_sc(c), A):
            raise Violation("argument", name + ": the coefficients were changed")
        mon.ok("argument", (what, nmax, mmax))
        return
    if what == "simple":
        n, m = case["n"], case["m"]
        fig = draw(mon, ps.simple_plot, n, m)
        f = faces(fig, "simple_plot").reshape(-1, 3)
        rad = np.sqrt(np.sum(f ** 2, axis=1))
        if len(f) < 4 * 24 * 48 or not np.all(np.isfinite(f)):
            raise Violation("surface", "simple_plot(%d, %d): %d points" % (n, m, len(f)))
        keep = rad > 1e-13
        ct, s = f[keep, 2] / rad[keep], np.hypot(f[keep, 0], f[keep, 1]) / rad[keep]
        rows = oracle.plm(n, abs(m), ct, s)
        want = np.abs(np.array(rows, float)[n])
        bad = np.abs(want - rad[keep])
        if np.max(bad, initial=0) > 1e-10:
            k = int(np.argmax(bad))
            raise Violation("surface", "simple_plot(%d, %d): point at distance %r in a direction where |Y| = %r"
                            % (n, m, rad[keep][k], want[k]))
        th = np.linspace(0, np.pi, 400)
        if np.max(rad) < 0.9 * float(np.max(np.abs(oracle.plm(n, abs(m), np.cos(th), np.sin(th))[n]))):
            raise Violation("surface", "simple_plot(%d, %d): the largest values are missing" % (n, m))
        mon.ok("surface", ("simple", n, m))
        return
    nr, nc, kind = case["nr"], case["nc"], case["kind"]
    name = "%s %dx%d, %s" % (what, nr, nc, kind)
    a = values(kind, (nr, nc), case["seed"])
    if what == "array":
        T = np.abs(a)
        keep = T.copy()
        fig = draw(mon, ps.plot_mag_on_sphere, T)
        same = T.shape == keep.shape and np.array_equal(T, keep)
    elif what == "scalar":
        p = sp.ScalarPatternUniform(a)
        T = np.abs(np.array(p.array))
        keep = np.array(p.array)
        fig = draw(mon, ps.plot_sphere_mag, p)
        same = np.array_equal(np.array(p.array), keep)
    else:
        p = sp.TransversePatternUniform(a, values(kind, (nr, nc), case["seed"] + 1))
        keep = [np.array(p.theta), np.array(p.phi)]
        T = np.hypot(np.abs(keep[0]), np.abs(keep[1]))
        fig = draw(mon, ps.plot_sphere_mag, p)
        same = np.array_equal(np.array(p.theta), keep[0]) and np.array_equal(np.array(p.phi), keep[1])
    surface(mon, fig, T, name, (what, nr, nc, kind))
    if not same:
        raise Violation("argument", name + ": the argument was changed")
    mon.ok("argument", (what, nr, nc))


def image(mon, fig, A, nmax, mmax, what, st):
    mesh = [(ax, c) for ax in fig.axes for c in ax.collections if hasattr(c, "_coordinates")
            and (ax.get_xlabel(), ax.get_ylabel()) == ("m", "n")]
    if len(mesh) != 1:
        raise Violation("image", "%s: %d images drawn over m and n" % (what, len(mesh)))
    ax, q = mesh[0]
    xy = np.asarray(q._coordinates, float)
    z = np.ma.filled(np.ma.asarray(q.get_array(), float), 0.0).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
    x, y = xy[0, :, 0], xy[:, 0, 1]
    if np.any(xy[:, :, 0] != x[None, :]) or np.any(xy[:, :, 1] != y[:, None]):
        raise Violation("image", what + ": cells are not rectangles")
    seen = set()
    top = float(np.max(np.abs(A)))
    for i in range(z.shape[0]):
        for j in range(z.shape[1]):
            n, m = (y[i] + y[i + 1]) / 2, (x[j] + x[j + 1]) / 2
            w = 0.0
            if abs(n - round(n)) < 1e-9 and abs(m - round(m)) < 1e-9 and abs(y[i + 1] - y[i]) > 0.5:
                n, m = int(round(n)), int(round(m))
                if 0 <= n <= nmax and abs(m) <= mmax:
                    w = abs(A[n, m + mmax])
                    seen.add((n, m))
            if not abs(z[i, j] - w) <= 1e-13 * w:
                raise Violation("image", "%s: the cell centred at m=%s, n=%s shows %r instead of %r"
                                % (what, m, n, z[i, j], w))
    miss = [(n, m) for n in range(nmax + 1) for m in range(-min(n, mmax), min(n, mmax) + 1) if (n, m) not in seen]
    if miss:
        raise Violation("image", "%s: no cell is centred at (n, m) = %s" % (what, miss[0]))
    lo, hi = q.get_clim()
    if not (lo <= 0 and hi >= top * (1 - 1e-13) and (hi <= 4 * top or top == 0)):
        raise Violation("image", "%s: colours span %r to %r for values up to %r" % (what, lo, hi, top))
    (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    if x0 > -mmax - 0.5 + 1e-9 or x1 < mmax + 0.5 - 1e-9 or y0 > -0.5 + 1e-9 or y1 < nmax + 0.5 - 1e-9:
        raise Violation("image", "%s: the axes leave out cells" % what)
    mon.ok("image", st)


def lines(mon, fig, A, nmax, mmax, what, st):
    got = [ln for ax in fig.axes for ln in ax.lines]
    if any(ax.get_xlabel() == "m" for ax in fig.axes):
        raise Violation("lines", what + ": the axis of the degrees n is labelled m")
    if len(got) != 2 * mmax + 1:
        raise Violation("lines", "%s: %d lines instead of %d" % (what, len(got), 2 * mmax + 1))
    top = float(np.max(np.abs(A)))
    left = list(range(-mmax, mmax + 1))
    for k, ln in enumerate(got):
        x, y = np.asarray(ln.get_xdata(), float), np.ma.filled(np.ma.asarray(ln.get_ydata(), float), np.nan)
        pts = {}
        for u, v in zip(x, y):
            if np.isfinite(v):
                if u in pts or u != int(u):
                    raise Violation("lines", "%s: points %s" % (what, list(zip(x, y))))
                pts[int(u)] = v
        pts = {u: v for u, v in pts.items() if u <= nmax or v != 0}        # the line may run down to zero past nmax
        for m in left:
            if set(pts) == set(range(abs(m), nmax + 1)) and \
                    all(abs(pts[n] - abs(A[n, m + mmax])) <= 1e-13 * abs(A[n, m + mmax]) for n in pts):
                left.remove(m)
                break
        else:
            raise Violation("lines", "%s: line %d (points %s) is none of the orders left, %s"
                            % (what, k, sorted(pts.items())[:6], left))
    mon.ok("lines", st)


BARE = r"""
import sys
for m in ("matplotlib", "matplotlib.pyplot", "mpl_toolkits", "mpl_toolkits.mplot3d"):
    sys.modules[m] = None
sys.path[:0] = sys.argv[1:3]
from rt import boot
sp = boot.load(sys.argv[3])
import numpy as np
c = sp.random_coefs(4, 3)
d = sp.spht(sp.ispht(c, 8, 10), 4, 3)
assert np.max(np.abs(d._vec - c._vec)) < 1e-12
p = sp.random_patt_uniform(4, 6)
for f, a in (("simple_plot", (1, 0)), ("plot_mag_on_sphere", (np.ones((3, 4)),)), ("plot_sphere_mag", (p,)),
             ("pcolor_coefs", (c,)), ("plot_coefs", (c,))):
    from spherepy import plot_sphere
    try:
        getattr(plot_sphere, f)(*a)
    except ImportError as e:
        assert "matplotlib" in str(e), e
    else:
        raise AssertionError(f + " did not raise")
print("BARE-OK")
"""


def extra(run):
    from rt import build
    import run as driver
    ext = build.build("plain")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run([driver.PY, "-c", BARE, here, "/repo", ext],
                       cwd=run.work, env=driver.worker_env({"name": "bare"}), capture_output=True, text=True,
                       timeout=200)
    if "BARE-OK" in p.stdout:
        run.judged["without-matplotlib"] += 1
    else:
        run.violate("without-matplotlib", "the package without matplotlib: %s" % p.stderr[-1500:], {"variant": "bare"})
