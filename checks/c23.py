"""C23 plotters draw the trajectory and surfaces they are given."""
import builtins
import importlib.util
import os
import tempfile

import matplotlib

matplotlib.use("Agg")
import numpy as np
from astropy import units as u
from matplotlib import colors as mc, pyplot as plt
from matplotlib.animation import AbstractMovieWriter
from matplotlib.image import imread

from vf.core import Check, main

from einsteinpy.geodesic import Geodesic, Nulllike, Timelike
from einsteinpy.hypersurface import SchwarzschildEmbedding
from einsteinpy.plotting import (GeodesicPlotter, HypersurfacePlotter, InteractiveGeodesicPlotter, ShadowPlotter,
                                 StaticGeodesicPlotter, fractal)
from einsteinpy.plotting.geodesic import core as plot_core, interactive as plot_inter
from einsteinpy.rays import Shadow

CHECK = Check(
    "C23",
    "one case = one computed geodesic (or embedding, or shadow) drawn with random options on the headless backend; distinct = (plotter, "
    "method, metric, option combination)",
    ["artists are read back from matplotlib and plotly; InteractiveGeodesicPlotter.save opens a browser, so its export call is recorded instead",
     "surfaces are drawn at Boyer-Lindquist radii, as documented, two-dimensional ones as the meridional section"],
)


def geodesic(c, steps=(2, 30)):
    name = c.pick(["Schwarzschild", "Kerr", "KerrNewman"])
    a = 0.0 if name == "Schwarzschild" else c.pick([0.0, c.uni(-0.99, 0.99), c.uni(0.8, 0.999)])
    Q = c.uni(-0.95, 0.95) * np.sqrt(1 - a * a) if name == "KerrNewman" else 0.0
    params = {"Schwarzschild": c.pick([(0.0,), ()]), "Kerr": (a,), "KerrNewman": (a, Q)}[name]
    cls = c.pick([Timelike, Nulllike])
    cart = c.coin(0.8)
    th = np.pi / 2 if c.coin(0.2) else c.uni(0.4, 2.7)  # in the equatorial plane heights are rounding errors
    g = cls(metric=name, metric_params=params,
            position=[c.uni(6, 40), th, c.uni(-3, 3) if th != np.pi / 2 else c.pick([0.0, 0.0, np.pi, np.pi / 2])],
            momentum=[c.uni(-0.2, 0.2), c.uni(-2, 2) if th != np.pi / 2 else 0.0, c.uni(-4, 4)],
            steps=c.rint(*steps), delta=c.uni(0.1, 1), order=2, omega=1.0, return_cartesian=cart, suppress_warnings=True)
    c.note(metric=name, params=list(params), kind=cls.__name__, cartesian=cart)
    if c.coin(0.08):
        g = stretched(g, c.rint(800, 4000))
        c.note(points=len(g.trajectory[1]))
    return g, name, a, Q


def stretched(g, n):
    """the same geodesic with n points: its trajectory runs on (plotters only read the public attributes)"""
    lam, T = (np.array(v, float) for v in g.trajectory)
    k = np.arange(n)
    T = T[k % len(T)] * (1 + 0.3 * np.sin(k / 57.0))[:, None]
    lam = np.linspace(lam[0], 3 * lam[-1] + 1, n)
    g.__class__ = type(type(g).__name__, (type(g),), {"trajectory": property(lambda self: (lam, T))})
    return g


def snap(g):
    t = g.trajectory
    return np.array(t[0]), np.array(t[1]), tuple(g.metric_params), np.array(g.position), np.array(g.momentum), g.kind, g.coords


def unchanged(c, g, before):
    after = snap(g)
    c.ok(all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(before, after)), "plotting leaves the geodesic as it was")


def radii(a, Q, cos):
    return 1 + np.sqrt(1 - a * a - Q * Q), 1 + np.sqrt(1 - (a * cos) ** 2 - Q * Q)


def surface_points(c, P, a, Q, ergo, what):
    """P: (n, 3) points drawn; the surface goes all round the hole"""
    d = np.linalg.norm(P, axis=1)
    cos = P[:, 2] / d
    rh, re = radii(a, Q, cos)
    c.close(d, re if ergo else np.full_like(d, rh), 1e-9, 1e-12, f"{what} is drawn at its radius")
    c.ok(cos.max() > 0.999 and cos.min() < -0.999, f"{what} reaches both poles")
    ph = np.sort(np.arctan2(P[:, 1], P[:, 0])[np.hypot(P[:, 0], P[:, 1]) > 0.3])
    c.ok(np.diff(ph).max(initial=0) < 0.3 and ph[-1] - ph[0] > 6, f"{what} goes all the way round")


def section_points(c, x, y, a, Q, ergo, what):
    P = np.stack([np.asarray(x, float), np.asarray(y, float)], 1)
    d = np.linalg.norm(P, axis=1)
    rh, re = radii(a, Q, P[:, 1] / d)
    c.close(d, re if ergo else np.full_like(d, rh), 1e-9, 1e-12, f"{what} is drawn at its radius")
    ph = np.sort(np.arctan2(P[:, 1], P[:, 0]))
    c.ok(np.diff(ph).max() < 0.3 and ph[-1] - ph[0] > 6, f"{what} is a closed curve")


def same_line(c, got, want, what):
    got = [np.asarray(v, float) for v in got]
    c.ok(len(got) == len(want) and all(g.shape == w.shape and np.array_equal(g, w) for g, w in zip(got, want)),
         f"{what}: the drawn points are the trajectory, in order", None,
         drawn=[v[:3] for v in got], trajectory=[v[:3] for v in want])


def vertices(coll):
    """vertices of a Poly3DCollection (no public accessor)"""
    for name in ("_faces", "_vec"):
        v = getattr(coll, name, None)
        if v is not None:
            return np.asarray(v, float).reshape(-1, 3) if name == "_faces" else np.asarray(v, float)[:3].T
    raise RuntimeError("matplotlib keeps the vertices elsewhere")


def by_label(artists, word):
    return [x for x in artists if word.lower() in str(x.get_label()).lower()]


def color(c):
    return "#%06x" % c.rint(0, 0xFFFFFF)


@CHECK.clause(quick=110, thorough=3000, timeout=120)
def static3d(c):
    g, name, a, Q = geodesic(c)
    before = snap(g)
    ergo = c.coin(0.7)
    bh = ("#000000", "#000000") if c.coin(0.3) else (color(c), color(c))
    aspect = c.pick(["auto", "equal", "equalxy", "equalyz", "equalxz", None])
    fs = c.pick([None, (c.rint(3, 8), c.rint(3, 8))])
    col, title = c.pick([None, color(c)]), c.pick(["", "orbit", "Über r=3\\:M"])
    cls = c.pick([StaticGeodesicPlotter, GeodesicPlotter])
    p = cls(bh_colors=bh, draw_ergosphere=ergo)
    kw = {k: v for k, v in dict(aspect=aspect, figsize=fs, color=col, title=title).items() if v is not None}
    try:
        p.plot(g, **kw)
        ax = p.ax
        c.seen("static3d", name, ergo, aspect, fs is None, bool(title))
        T = g.trajectory[1]
        lines = by_label(ax.lines, "geodesic")
        if c.ok(len(lines) == 1 and len(ax.lines) == 1, "one geodesic is drawn"):
            same_line(c, lines[0].get_data_3d(), [T[:, 1], T[:, 2], T[:, 3]], "plot")
            c.ok(g.kind in lines[0].get_label(), "the line names the kind of geodesic")
            if col:
                c.ok(mc.to_rgb(lines[0].get_color()) == mc.to_rgb(col), "requested colour")
        H, E = by_label(ax.collections, "horizon"), by_label(ax.collections, "ergosphere")
        c.ok(len(H) == 1, "one event horizon")
        c.ok(len(E) == (1 if ergo else 0), "ergosphere drawn exactly when asked for")
        for coll, e, w in [(x, False, "horizon") for x in H] + [(x, True, "ergosphere") for x in E]:
            surface_points(c, vertices(coll), a, Q, e, w)
            fc = np.asarray(coll.get_facecolor())[:, :3]
            want = np.array(mc.to_rgb(bh[1 if e else 0]))
            # shading only darkens the colour
            k = fc.max(axis=1, keepdims=True)
            c.ok(np.all(np.abs(fc * want.max() - want * k) < 0.02), f"{w} has its colour")
        c.ok(ax.get_title() == title, "title")
        if aspect:
            c.ok(ax.get_aspect() == aspect, "aspect")
        if fs:
            c.ok(tuple(p.fig.get_size_inches()) == tuple(fs), "figure size")
        for lab, w in zip((ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()), "XYZ"):
            c.ok(w in lab, f"{w} axis is labelled")
        az, el = c.pick([c.uni(-180, 180), c.uni(-180, 180), 0, 90, c.uni(-720, 720)]), c.pick([c.uni(-80, 80), c.uni(-180, 180), 0, 90, c.uni(-720, 720)])
        az, el = c.pick([(az, el), (az, el), (az, 30), (-60, el), (-60, 30)])
        kw = {k: v for k, v, d in (("azim", az, -60), ("elev", el, 30)) if v != d}
        p.show(**kw)
        c.ok((ax.azim - az + 1e-7) % 360 < 2e-7 and (ax.elev - el + 1e-7) % 360 < 2e-7, f"view angles {ax.azim}, {ax.elev} for {az}, {el}")
        c.ok(ax.get_legend() is not None, "legend on the plot")
        unchanged(c, g, before)
        c.raises(ValueError, lambda: cls().plot(g, aspect=c.pick(["", "cube", "data", "Equal", None, "xy"])), "unknown aspect")
        p.clear()
        c.ok(p.fig.get_axes() == [], "clear empties the figure")
    finally:
        plt.close("all")


@CHECK.clause(quick=120, thorough=4000, timeout=60)
def static2d(c):
    g, name, a, Q = geodesic(c)
    before = snap(g)
    ergo, bh = c.coin(0.7), (color(c), color(c))
    ab = (c.rint(1, 3), c.rint(1, 3))
    col, title = color(c), c.pick(["", "orbit"])
    fs = (c.rint(3, 9), c.rint(3, 9))
    try:
        p = c.pick([StaticGeodesicPlotter, GeodesicPlotter])(bh_colors=bh, draw_ergosphere=ergo)
        p.plot2D(g, coordinates=ab, figsize=fs, color=col, title=title)
        ax = p.ax
        c.seen("static2d", name, ab, ergo)
        T = g.trajectory[1]
        c.ok(len(ax.lines) == 1, "one geodesic is drawn")
        same_line(c, ax.lines[0].get_data(), [T[:, ab[0]], T[:, ab[1]]], f"plot2D{ab}")
        c.ok(mc.to_rgb(ax.lines[0].get_color()) == mc.to_rgb(col), "requested colour")
        c.ok(g.kind in ax.lines[0].get_label(), "the line names the kind of geodesic")
        H, E = by_label(ax.patches, "horizon"), by_label(ax.patches, "ergosphere")
        c.ok(len(H) == 1 and len(E) == (1 if ergo else 0), "horizon, and ergosphere exactly when asked for")
        for pt, e, w in [(x, False, "horizon") for x in H] + [(x, True, "ergosphere") for x in E]:
            xy = pt.get_xy()
            section_points(c, xy[:, 0], xy[:, 1], a, Q, e, w)
            c.ok(mc.to_rgb(pt.get_facecolor()) == mc.to_rgb(bh[1 if e else 0]), f"{w} has its colour")
        c.ok(f"X{ab[0]}" in ax.get_xlabel() and f"X{ab[1]}" in ax.get_ylabel(), "axes name the coordinates drawn")
        c.ok(ax.get_title() == title, "title")
        c.ok(tuple(p.fig.get_size_inches()) == fs, "figure size")
        bad = c.pick([(0, 1), (1, 0), (4, 1), (1, 4), (2, 7), (-1, 2), (3, -1)])
        c.seen("bad", bad)
        c.raises(IndexError, lambda: p.plot2D(g, coordinates=bad), f"coordinates {bad}")
        unchanged(c, g, before)
    finally:
        plt.close("all")


@CHECK.clause(quick=60, thorough=2000, timeout=60)
def static_parametric(c):
    g, name, a, Q = geodesic(c)
    before = snap(g)
    cols = (color(c), color(c), color(c))
    title = c.pick(["", "q(lambda)"])
    try:
        p = StaticGeodesicPlotter()
        p.parametric_plot(g, colors=cols, title=title)
        lam, T = g.trajectory
        ax = p.ax
        c.seen("parametric", name, g.coords, bool(title))
        if c.ok(len(ax.lines) == 3, "three coordinates are drawn"):
            for k, ln in enumerate(ax.lines):
                same_line(c, ln.get_data(), [np.asarray(lam, float), T[:, k + 1]], f"parametric X{k + 1}")
                c.ok(mc.to_rgb(ln.get_color()) == mc.to_rgb(cols[k]), "requested colour")
                c.ok(f"X{k + 1}" in ln.get_label() and g.coords in ln.get_label(), "lines name coordinate and system")
        c.ok(ax.get_title() == title, "title")
        p.show()
        c.ok(ax.get_legend() is not None, "legend on the plot")
        unchanged(c, g, before)
    finally:
        plt.close("all")


class Recorder(AbstractMovieWriter):
    def __init__(self, ax):
        super().__init__()
        self.ax, self.frames = ax, []

    def setup(self, fig, outfile, dpi=None):
        pass

    def grab_frame(self, **kw):
        self.frames.append([np.array(v, float) for v in self.ax.lines[0].get_data_3d()])

    def finish(self):
        pass


@CHECK.clause(quick=16, thorough=250, timeout=200)
def animation(c):
    g, name, a, Q = geodesic(c, (2, 9))
    if c.index % 8 == 0 and len(g.trajectory[1]) < 500:
        g = stretched(g, c.rint(1000, 3000))
    before = snap(g)
    T = g.trajectory[1][:, 1:4]
    N = len(T)
    try:
        p = StaticGeodesicPlotter(draw_ergosphere=False)
        iv = c.rint(1, 500)
        p.animate(g, interval=iv)
        ax = p.ax
        lo = np.array([ax.get_xlim3d()[0], ax.get_ylim3d()[0], ax.get_zlim3d()[0]])
        hi = np.array([ax.get_xlim3d()[1], ax.get_ylim3d()[1], ax.get_zlim3d()[1]])
        c.ok(np.all(T.min(0) >= lo) and np.all(T.max(0) <= hi), "the axes hold the whole trajectory")
        rec = Recorder(ax)
        if N > 100:  # nothing looks at the pixels
            p.fig.canvas.draw_idle = lambda *a, **k: None
        with tempfile.TemporaryDirectory() as d:
            p.ani.save(os.path.join(d, "x.none"), writer=rec)
        F = rec.frames
        c.seen("animation", name, N)
        c.count("frames", len(F))
        c.ok(len(F) == N, f"one frame per step: {len(F)} frames for {N} steps")
        last = -1
        for f in F:
            n = len(f[0])
            c.ok(all(np.array_equal(f[k], T[:n, k]) for k in range(3)), "every frame shows the beginning of the trajectory")
            c.ok(last <= n <= last + 1 or last < 0, "frames grow by one step")
            last = n
        c.ok(last == N, f"the last frame shows the whole trajectory ({last} of {N} points)")
        unchanged(c, g, before)
    finally:
        plt.close("all")


@CHECK.clause(quick=40, thorough=800, timeout=60)
def saving(c):
    """a plotter saves its own figure, under the documented name, whatever was drawn in between"""
    g, name, a, Q = geodesic(c, (2, 5))
    old = os.getcwd()
    try:
        with tempfile.TemporaryDirectory() as d:
            os.chdir(d)
            sizes = [(3, 4), (5, 2), (4, 4)]
            kinds = [c.pick(["plot", "plot2D", "parametric_plot"]) for _ in sizes]
            if kinds.count("plot") > 1:
                kinds = ["plot", "plot2D", "parametric_plot"]
            ps = []
            for s, k in zip(sizes, kinds):
                p = StaticGeodesicPlotter()
                getattr(p, k)(g, figsize=s)
                ps.append(p)
            order = [int(i) for i in c.rng.permutation(3)]
            c.note(order=order, kinds=kinds)
            c.seen("saving", order, kinds)
            for i in order:
                if c.coin(0.5):
                    plt.figure()
                nm = c.pick([None, f"own{i}.png"])
                ps[i].save() if nm is None else ps[i].save(nm)
                nm = nm or ("Geodesic.png" if kinds[i] == "plot" else "Parametric.png")
                if not c.ok(os.path.exists(nm), f"{nm} is written"):
                    continue
                h, w = imread(nm).shape[:2]
                c.ok(abs(w / h - sizes[i][0] / sizes[i][1]) < 0.02, f"saved picture has the plot's shape: {w}x{h} for {sizes[i]}")
                os.remove(nm)
            i = c.rint(0, 2)
            plt.figure()
            ps[i].show()
            c.ok(ps[i].ax.get_legend() is not None, "show() puts the legend on the plotter's own axes")
    finally:
        os.chdir(old)
        plt.close("all")


def cscale(s):
    return {mc.to_hex(x[1]) for x in s.colorscale}


@CHECK.clause(quick=100, thorough=3000, timeout=60)
def interactive(c):
    g, name, a, Q = geodesic(c)
    before = snap(g)
    ergo, bh, col = c.coin(0.7), (color(c), color(c)), color(c)
    p = InteractiveGeodesicPlotter(bh_colors=bh, draw_ergosphere=ergo)
    how = c.pick(["plot", "plot2D", "parametric"])
    c.seen("interactive", how, name, ergo)
    lam, T = g.trajectory
    title = c.pick(["", "t1"])
    if how == "plot":
        aspect = c.pick(["auto", "data", "manual", "cube"])
        ratio = dict(x=c.rint(1, 3), y=c.rint(1, 3), z=1)
        p.plot(g, color=col, title=title, aspect=aspect, aspect_ratio=ratio)
        D = list(p.fig.data)
        L = [t for t in D if "geodesic" in t.name.lower()]
        if c.ok(len(L) == 1, "one geodesic is drawn"):
            same_line(c, (L[0].x, L[0].y, L[0].z), [T[:, 1], T[:, 2], T[:, 3]], "interactive plot")
            c.ok(L[0].line.color.lower() == col and g.kind in L[0].name, "colour and name")
        H = [t for t in D if "horizon" in t.name.lower()]
        E = [t for t in D if "ergosphere" in t.name.lower()]
        c.ok(len(H) == 1 and len(E) == (1 if ergo else 0) and len(D) == 2 + ergo, "horizon, and ergosphere exactly when asked for")
        for s, e, w in [(x, False, "horizon") for x in H] + [(x, True, "ergosphere") for x in E]:
            P = np.stack([np.asarray(s.x).ravel(), np.asarray(s.y).ravel(), np.asarray(s.z).ravel()], 1).astype(float)
            surface_points(c, P, a, Q, e, w)
            c.ok(cscale(s) == {mc.to_hex(bh[1 if e else 0])}, f"{w} has its colour")
        c.ok(p.fig.layout.title.text == title, "title")
        c.ok(p.fig.layout.scene.aspectmode == aspect, "aspect")
        r = p.fig.layout.scene.aspectratio
        c.ok((r.x, r.y, r.z) == (ratio["x"], ratio["y"], ratio["z"]), "aspect ratio")
        c.raises(ValueError, lambda: p.plot(g, aspect=c.pick(["", "equal", "Cube", None])), "unknown aspect")
    elif how == "plot2D":
        ab = (c.rint(1, 3), c.rint(1, 3))
        p.plot2D(g, coordinates=ab, color=col, title=title)
        D = list(p.fig.data)
        L = [t for t in D if "geodesic" in t.name.lower()]
        if c.ok(len(L) == 1, "one geodesic is drawn"):
            same_line(c, (L[0].x, L[0].y), [T[:, ab[0]], T[:, ab[1]]], f"interactive plot2D{ab}")
            c.ok(L[0].line.color.lower() == col and g.kind in L[0].name, "colour and name")
        H = [t for t in D if "horizon" in t.name.lower()]
        E = [t for t in D if "ergosphere" in t.name.lower()]
        c.ok(len(H) == 1 and len(E) == (1 if ergo else 0) and len(D) == 2 + ergo, "horizon, and ergosphere exactly when asked for")
        for s, e, w in [(x, False, "horizon") for x in H] + [(x, True, "ergosphere") for x in E]:
            section_points(c, s.x, s.y, a, Q, e, w)
            c.ok(s.fillcolor.lower() == bh[1 if e else 0], f"{w} has its colour")
        c.ok(f"X{ab[0]}" in p.fig.layout.xaxis.title.text and f"X{ab[1]}" in p.fig.layout.yaxis.title.text,
             "axes name the coordinates drawn")
        c.ok((p.fig.layout.title.text or "") == title, "title")
        bad = c.pick([(0, 1), (1, 0), (4, 1), (1, 4), (2, 7), (-1, 2), (3, -1)])
        c.raises(IndexError, lambda: p.plot2D(g, coordinates=bad), f"coordinates {bad}")
    else:
        cols = (color(c), color(c), color(c))
        p.parametric_plot(g, colors=cols, title=title)
        D = list(p.fig.data)
        if c.ok(len(D) == 3, "three coordinates are drawn"):
            for k, ln in enumerate(D):
                same_line(c, (ln.x, ln.y), [np.asarray(lam, float), T[:, k + 1]], f"interactive parametric X{k + 1}")
                c.ok(ln.line.color.lower() == cols[k], "requested colour")
                c.ok(f"X{k + 1}" in ln.name and g.coords in ln.name, "lines name coordinate and system")
        c.ok(p.fig.layout.title.text == title, "title")
    c.ok(p.show() is p.fig, "show() returns the figure")
    unchanged(c, g, before)
    n = len(p.fig.data)
    p.parametric_plot(g)
    c.ok(len(p.fig.data) == n + 3, "plots are added to the same figure")
    p.clear()
    c.ok(len(p.fig.data) == 0, "clear empties the figure")
    left = {k: v for k, v in p.fig.to_plotly_json()["layout"].items() if k != "template"}
    c.ok(left in ({}, {k: v for k, v in type(p)().fig.to_plotly_json()["layout"].items() if k != "template"}), "clear leaves nothing of the layout", left=str(left))


@CHECK.clause(quick=60, thorough=600, timeout=60)
def interactive_save(c):
    """save() asks plotly for this figure, under the name and in the format given (the exporter, which opens a browser, is recorded)"""
    g, name, a, Q = geodesic(c, (2, 3))
    p = InteractiveGeodesicPlotter()
    p.plot2D(g, coordinates=(1, 2)) if c.coin() else p.parametric_plot(g)
    base = c.pick(["Geodesic", "run.7", "a b", "plots/orbit", "./x.y/z.1", "Bahn_ü", "/tmp/abs/file"])
    ext = c.pick(["png", "svg", "jpeg", "webp", "png"])
    calls = []

    def rec(figure_or_data, *pos, **kw):
        calls.append((figure_or_data, pos, kw))
    old = plot_inter.saveplot
    plot_inter.saveplot = rec
    try:
        p.save() if (base, ext) == ("Geodesic", "png") and c.coin() else p.save(f"{base}.{ext}")
    finally:
        plot_inter.saveplot = old
    c.note(name=f"{base}.{ext}")
    c.seen("save", base, ext)
    if c.ok(len(calls) == 1, "one export"):
        f, pos, kw = calls[0]
        c.ok(f is p.fig or f == p.fig, "the plotter's own figure is saved")
        c.ok(not pos and kw.get("image") == ext, f"format {kw.get('image')} for {ext}")
        c.ok(kw.get("image_filename") == base, f"saved as {kw.get('image_filename')}, not {base}")


@CHECK.clause(quick=25, thorough=500, timeout=60)
def hypersurface(c):
    e = SchwarzschildEmbedding(c.logu(1e23, 1e30) * u.kg)
    alpha, kind = c.rint(2, 8), c.pick(["wireframe", "surface", None])
    if c.index % 8 == 3:
        alpha = c.pick([100, c.rint(60, 160), c.rint(101, 140)])
    if kind is None:
        p = HypersurfacePlotter(e, alpha=alpha)
    else:
        p = HypersurfacePlotter(e, plot_type=kind, alpha=alpha)
    c.note(alpha=alpha, kind=kind)
    c.seen("hypersurface", kind, alpha)
    X, Y, Z = e.get_values_surface(alpha)
    Z = np.asarray(Z).reshape(X.shape)
    try:
        p.plot()
        ax = plt.gca()
        colls = list(ax.collections)
        if not c.ok(len(colls) == 1, "one surface is drawn"):
            return
        if kind == "surface":
            V = vertices(colls[0])
        else:
            V = np.concatenate([np.asarray(s, float) for s in colls[0]._segments3d])
        s = np.abs(X).max()
        grid = np.stack([X.ravel(), Y.ravel(), Z.ravel()], 1) / s
        from scipy.spatial import cKDTree
        d, i = cKDTree(grid).query(np.asarray(V, float) / s)
        c.ok(d.max() < 1e-9, "every drawn vertex lies on the embedding surface", None, worst=float(d.max()))
        rho = np.hypot(V[:, 0], V[:, 1])
        c.ok(abs(rho.max() / s - 1) < 1e-9 and abs(rho.min() - np.hypot(X, Y).min()) < 1e-9 * s, "drawn from the throat to the edge")
        if kind == "surface":
            c.ok(len(set(i)) >= grid.shape[0] * 0.9, "no part of the surface is left out")
        p.show()
    finally:
        plt.close("all")


@CHECK.clause(quick=40, thorough=800, timeout=60)
def shadow(c):
    M = c.logu(0.1, 100)
    s = Shadow(mass=M * u.kg, n_rays=c.rint(8, 60), fov=3 * 3 ** 0.5 * M * c.uni(1.5, 10) * u.km)
    if c.coin():
        s.smoothen(points=c.rint(10, 100))
    b, b2, I = (np.array(v, float) for v in (s.fb1, s.fb2, s.intensity))
    line = c.coin()
    c.note(M=M, line=line, n=len(b))
    c.seen("shadow", line, len(b) // 8)
    try:
        p = ShadowPlotter(s, is_line_plot=line) if c.coin() or not line else ShadowPlotter(s)
        if line:
            p.plot()
            ax = plt.gca()
            if c.ok(len(ax.lines) == 2, "two halves are drawn"):
                halves = sorted(ax.lines, key=lambda l: -np.asarray(l.get_xdata(), float).mean())
                same_line(c, halves[0].get_data(), [b, I], "shadow, right half")
                same_line(c, halves[1].get_data(), [b2, I], "shadow, left half")
            p.show()
        else:
            p.plot()
            p.show()
            ax = plt.gca()
            if c.ok(len(ax.collections) == 1, "one image is drawn"):
                m = ax.collections[0]
                xy = np.asarray(m.get_coordinates(), float)
                A = np.asarray(m.get_array(), float).reshape(xy.shape[:2])
                r = np.hypot(xy[..., 0], xy[..., 1])
                k = np.argmin(np.abs(r[..., None] - b), axis=-1)
                c.ok(np.all(np.abs(r - b[k]) < 1e-9 * b.max()), "the image is made of circles of the sampled impact parameters")
                # the critical ray may be listed twice: accept either value
                near = np.abs(r[..., None] - b) < 1e-9 * b.max()
                hit = np.abs(A[..., None] - I) <= 1e-12 * np.abs(I).max()
                c.ok(np.all((near & hit).any(-1)), "every circle has the intensity of its ray")
                c.ok(set(k.ravel().tolist()) >= set(range(1, len(b))) - {len(b) // 2, len(b) // 2 - 1}, "every ray is drawn")
        c.ok(np.array_equal(b, np.asarray(s.fb1, float)) and np.array_equal(I, np.asarray(s.intensity, float)), "plotting leaves the shadow as it was")
    finally:
        plt.close("all")


@CHECK.clause(quick=6, thorough=40, timeout=120)
def julia(c):
    """fractal() shows, for every angle of its slider, the escape times of the Julia set of z^2 + 0.8 exp(i angle)"""
    import contextlib
    import io
    n = c.rint(1, 3)
    a0, a1 = sorted([c.uni(0, np.pi), c.uni(0, np.pi)])
    with contextlib.redirect_stdout(io.StringIO()):
        fig = fractal(start_angle=a0, end_angle=a1, divs=n, show=False)
    c.note(angles=[a0, a1], divs=n)
    c.seen("fractal", n)
    c.ok(len(fig.data) == n, "one picture per division")
    for t, ang in zip(fig.data, np.linspace(a0, a1, n)):
        Z = np.asarray(t.z, float)
        c.ok(Z.shape == (400, 400), "picture size")
        i, j = np.meshgrid(np.arange(400), np.arange(400), indexing="ij")
        z = (i / 400 * 3.2 - 1.6) + 1j * (j / 400 * 3.2 - 1.6)
        k = 0.8 * np.exp(1j * ang)
        it = np.zeros(z.shape, int)
        for _ in range(64):
            live = np.abs(z) < 20
            it[live] += 1
            z = np.where(live, z * z + k, z)
        want = (it / 64) ** 0.2
        bad = np.mean(np.abs(Z - want) > 1e-9)
        c.ok(bad < 0.005, f"{bad:.2%} of the pixels differ from the escape time")
    st = fig.layout.sliders[0].steps
    c.ok(len(st) == n and all(list(s.args[1]) == [q == k for q in range(n)] for k, s in enumerate(st)), "slider step k shows picture k")


@CHECK.clause(quick=6, thorough=12)
def backend_choice(c):
    """GeodesicPlotter is the interactive plotter in a notebook kernel and the static one elsewhere"""
    shell = ["ZMQInteractiveShell", "TerminalInteractiveShell", None, "Other", "ZMQInteractiveShell", None][c.index % 6]
    c.seen(shell)
    had = hasattr(builtins, "get_ipython")
    try:
        if shell:
            builtins.get_ipython = lambda: type(shell, (), {})()
        spec = importlib.util.spec_from_file_location("_core_copy", plot_core.__file__)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        want = InteractiveGeodesicPlotter if shell == "ZMQInteractiveShell" else StaticGeodesicPlotter
        c.ok(issubclass(m.GeodesicPlotter, want), f"{shell}: {m.GeodesicPlotter.__mro__}")
    finally:
        if not had and hasattr(builtins, "get_ipython"):
            del builtins.get_ipython


if __name__ == "__main__":
    main(CHECK)
