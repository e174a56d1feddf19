"""The plot builder of the Python library, drawing on a stand-in for matplotlib which records what is asked of it."""
import os, sys, types, math
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import h_reader as H
from h_reader import fail, B, st
import numpy as np

# ---- stand-in for matplotlib: every call is recorded, tick labels can be hidden -------------------
class Rec:
    def __init__(self, name=""): self._name, self._calls = name, []
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        def f(*a, **k): self._calls.append((n, a, k))
        return f
    def last(self, n):
        r = [c for c in self._calls if c[0] == n]
        return (r[-1][1], r[-1][2]) if r else None
class Label:
    def __init__(self): self.visible = True
    def set_visible(self, v): self.visible = bool(v)
class Axis:
    def __init__(self): self.labels = []
    def get_ticklabels(self, *a, **k): return self.labels
class Spines(dict):
    def __missing__(self, k): self[k] = Label(); return self[k]
class Axes(Rec):
    def __init__(self, *a, **k):
        Rec.__init__(self); self.made, self.kw, self.xaxis, self.yaxis, self.zaxis, self.spines, self.inverted, self.images = a, k, Axis(), Axis(), Axis(), Spines(), False, []
    def _ticks(self, ax, t): t = [float(x) for x in t]; getattr(self, ax + "axis").labels = [Label() for _ in t]; setattr(self, ax + "t", t)
    def _lab(self, ax, t):
        t = [float(x) for x in t]
        if len(t) != len(self.__dict__.get(ax + "t", [])): raise ValueError("The number of FixedLocator locations does not match the number of labels")
        setattr(self, ax + "l", t)
    def set_xticks(self, t, *a, **k): self._ticks("x", t)
    def set_yticks(self, t, *a, **k): self._ticks("y", t)
    def set_zticks(self, t, *a, **k): self._ticks("z", t)
    def set_xticklabels(self, t, *a, **k): self._lab("x", t)
    def set_yticklabels(self, t, *a, **k): self._lab("y", t)
    def set_zticklabels(self, t, *a, **k): self._lab("z", t)
    def invert_yaxis(self): self.inverted = not self.inverted
    def imshow(self, data, *a, **k): i = Image(data, a, k); self.images.append(i); return i
class Image(Rec):
    def __init__(self, data, a, k): Rec.__init__(self); self.data, self.kw, self.clim = np.array(data), k, None
    def set_clim(self, vmin=None, vmax=None): self.clim = tuple(vmin) if vmax is None else (vmin, vmax)
    def set_data(self, d): self.data = np.array(d)
class Bar(Rec):
    def __init__(self, image, k): Rec.__init__(self); self.image, self.kw, self.ax = image, k, Rec()
class Figure(Rec):
    def __init__(self, **k): Rec.__init__(self); self.kw, self.axes, self.bars, self.canvas = k, [], [], Rec()
    def add_subplot(self, *a, **k): x = Axes(*a, **k); self.axes.append(x); return x
    def colorbar(self, image, *a, **k): b = Bar(image, k); self.bars.append(b); return b
class Divider(Rec):
    def append_axes(self, *a, **k): return Rec()
def install():
    def mod(n, **k): m = types.ModuleType(n); m.__dict__.update(k); m.__path__ = []; sys.modules[n] = m; return m
    plt = mod("matplotlib.pyplot", figure=lambda *a, **k: Figure(**k))
    mod("matplotlib", pyplot=plt, rc=lambda *a, **k: None, rcParams={})
    mod("mpl_toolkits"); mod("mpl_toolkits.axes_grid1", make_axes_locatable=lambda ax: Divider()); mod("mpl_toolkits.mplot3d")
    mod("mpl_toolkits.mplot3d.axes3d", Axes3D=object, get_test_data=None)
    sys.path.insert(0, os.path.join(B.REPO, "lib", "python"))

class Env:
    def __init__(self, scratch, binary):
        install()
        from picopic.plot_builder import PlotBuilder
        self.PlotBuilder = PlotBuilder

num = lambda lo, hi: st.floats(lo, hi, allow_nan=False).map(lambda x: float("%.6g" % x))
def axis(): return st.one_of(st.none(), st.tuples(st.sampled_from([0., 0., .01, .25, -.5, 1e-5]), num(.002, 1), st.sampled_from([1., 1., 1e-3, 100., 1e-6]))
                             .map(lambda t: [t[0] * t[2], (t[0] + t[1]) * t[2]]))
def cases():
    sub = st.fixed_dictionaries({"d3": st.booleans(), "x": axis(), "y": axis(), "nx": st.one_of(st.none(), st.integers(1, 30)), "ny": st.one_of(st.none(), st.integers(1, 30)),
                                 "title": st.sampled_from([None, "E", "long title"]), "invert": st.sampled_from([None, True, False]), "clim": st.sampled_from([None, [0, 1e3], [-2., 5e-4]]),
                                 "cmap": st.sampled_from([None, "gray"]), "interp": st.sampled_from([None, "bicubic"]), "wrong": st.sampled_from([[0, 0]] * 3 + [[1, 0], [0, 1], [-1, 0], [0, -1]]),
                                 "bar": st.sampled_from([None, [-1, 1], [0, 1e3], [-2., 5e-4]]), "barl": st.sampled_from([None, [0, 1], [-3e4, 2e5]])})
    return st.fixed_dictionaries({"size": st.one_of(st.just([0, 0]), st.tuples(st.integers(1, 40), st.integers(1, 40)).map(list)), "zs": st.sampled_from([0, 0, 8]), "z": axis(), "x": axis(), "y": axis(),
                                  "nx": st.one_of(st.none(), st.integers(1, 30)), "ny": st.one_of(st.none(), st.integers(1, 30)), "guess": st.integers(2, 60), "invert": st.booleans(),
                                  "ncb": st.integers(2, 9), "clim": st.sampled_from([[-1, 1], [0., 2e5]]), "subs": st.lists(sub, min_size=1, max_size=4)})

def near(got, want, span, what):
    t = .0051 * 10 ** math.floor(math.log10(abs(want))) if want else 0
    if abs(got - want) > t + 1e-9 * span: fail("%s: %g instead of %g" % (what, got, want))
def ticks(a, ax, size, lab, n, what):
    t, l = a.__dict__.get(ax + "t"), a.__dict__.get(ax + "l")
    if size <= 0:
        if t is not None: fail("%s: ticks without a size" % what)
        return
    if t is None or l is None: fail("%s: no ticks" % what)
    if n is not None and len(t) != n + 1: fail("%s: %d ticks instead of %d" % (what, len(t), n + 1))
    for k, (p, v) in enumerate(zip(t, l)):
        if len(t) > 1 and abs(p - size * k / (len(t) - 1)) > 1e-9 * size: fail("%s: tick %d is at %g" % (what, k, p))
        near(v, lab[0] + p / size * (lab[1] - lab[0]), abs(lab[1] - lab[0]), "%s: label of tick %d at %g of %g" % (what, k, p, size))
        if getattr(a, ax + "axis").labels[k].visible != (k % 2 == 0): fail("%s: visibility of label %d" % (what, k))

def plots(env, c):
    X, Y = c["size"]; kw = {}
    for ax in "xyz":
        if c[ax]: kw[ax + "_ticklabel_start"], kw[ax + "_ticklabel_end"] = c[ax]
        if ax != "z" and c["n" + ax]: kw["number_%s_ticks" % ax] = c["n" + ax]
    pb = env.PlotBuilder(X, Y, c["zs"], guess_number_ticks=c["guess"], is_invert_y_axe=c["invert"], number_cbar_ticks=c["ncb"], image_clim=c["clim"], fig_width=7, fig_height=5, fig_dpi=80, fig_color="w", **kw)
    fig = pb.get_figure()
    if list(fig.kw.get("figsize")) != [7, 5] or fig.kw.get("dpi") != 80: fail("figure is made with %s" % fig.kw)
    size = {"x": X, "y": Y, "z": c["zs"]}; lab = {a: c[a] or [0, size[a]] for a in "xyz"}
    # the longest axis gets as many ticks as guessed, or up to twice as many; others get ticks as long as those
    auto = {}
    if X > 0 and Y > 0:
        ln = {a: lab[a][1] - lab[a][0] for a in "xyz"}; top = max(ln, key=ln.get); auto = {a: ln[a] / ln[top] for a in "xyz"}
    for i, s in enumerate(c["subs"]):
        name = "p%d" % i; kw = {k: v for k, v in (("title", s["title"]), ("is_invert_y_axe", s["invert"])) if v is not None}
        for ax in "xy":
            if s[ax]: kw[ax + "_ticklabel_start"], kw[ax + "_ticklabel_end"] = s[ax]
            if s["n" + ax]: kw["number_%s_ticks" % ax] = s["n" + ax]
        a = (pb.add_subplot_cartesian_3d if s["d3"] else pb.add_subplot_cartesian_2d)(name, 311 + i % 3, x_axe_label="along", y_axe_label="across", **kw)
        if pb.get_subplot(name) is not a or a is not fig.axes[-1] or len(fig.axes) != i + 1: fail("subplot %s is another one" % name)
        if a.made != (311 + i % 3,) or a.kw.get("projection") != ("3d" if s["d3"] else None): fail("subplot is made with %s %s" % (a.made, a.kw))
        if a.last("set_title")[0] != (s["title"] or name,): fail("title is %s" % (a.last("set_title")[0],))
        if a.last("set_xlabel")[0][0] != "along" or a.last("set_ylabel")[0][0] != "across": fail("labels of axes")
        if a.inverted != (c["invert"] if s["invert"] is None else s["invert"]): fail("direction of the second axis")
        for ax in "xyz" if s["d3"] else "xy":
            n = ax != "z" and (s["n" + ax] or c["n" + ax]) or None
            ticks(a, ax, size[ax], (ax != "z" and s[ax]) or lab[ax], n, "%s of %s" % (ax, name))
            if n is None and ax in auto and size[ax] > 0:
                k = len(getattr(a, ax + "t")) - 1; u = (c["guess"], 2 * c["guess"])
                if ax == top:
                    if not u[0] - .5 - 1e-6 <= k <= u[1] + .5 + 1e-6: fail("%s of %s: %d ticks for %d guessed" % (ax, name, k, c["guess"]))
                else:
                    if top + "t" in a.__dict__ and top in "xy" and not c["n" + top] and not s["n" + top]: t = len(getattr(a, top + "t")) - 1; u = (t - .5, t + .5)
                    if not u[0] * auto[ax] - .5 - 1e-6 <= k <= u[1] * auto[ax] + .5 + 1e-6: fail("%s of %s: %d ticks, %.3f .. %.3f fit" % (ax, name, k, u[0] * auto[ax], u[1] * auto[ax]))
        w, h = (X or 5) + s["wrong"][0], (Y or 4) + s["wrong"][1]; bad = s["wrong"] != [0, 0] and X > 0
        if w < 1 or h < 1: continue
        data = np.arange(w * h, dtype=float).reshape(h, w); opt = {k: v for k, v in (("cmap", s["cmap"]), ("clim", s["clim"]), ("interpolation", s["interp"])) if v}
        try: im = pb.add_image(name, data, **opt); refused = False
        except ValueError: refused = True
        if refused != bad: fail("image of %dx%d on %dx%d is %s" % (w, h, X, Y, "refused" if refused else "accepted"))
        if bad: continue
        if pb.get_image(name) is not im or a.images != [im]: fail("image of %s is another one" % name)
        if not np.array_equal(im.data, data) or im.kw.get("origin") != "lower": fail("the image shows other data")
        if im.clim != tuple(s["clim"] or c["clim"]): fail("limits of colours are %s" % (im.clim,))
        if im.kw.get("cmap") != (s["cmap"] or "terrain") or im.kw.get("interpolation") != (s["interp"] or "nearest"): fail("image is drawn with %s" % im.kw)
        if s["bar"]:
            pb.add_colorbar(name, ticks=s["bar"], ticklabels=s["barl"]); b = fig.bars[-1]; lim = s["barl"] or s["bar"]
            if b.image is not im: fail("colour bar of another image")
            t = [float(x) for x in b.last("set_ticks")[0][0]]; l = [float(x) for x in b.last("set_ticklabels")[0][0]]
            if len(t) != c["ncb"] or len(l) != len(t): fail("%d ticks and %d labels of the colour bar instead of %d" % (len(t), len(l), c["ncb"]))
            for k in range(len(t)):
                f = k / (len(t) - 1); v = s["bar"][0] + f * (s["bar"][1] - s["bar"][0]); u = lim[0] + f * (lim[1] - lim[0])
                if abs(t[k] - v) > 1e-9 * (abs(s["bar"][0]) + abs(s["bar"][1])): fail("tick %d of the colour bar is at %g" % (k, t[k]))
                if abs(l[k] - u) > .051 * 10 ** math.floor(math.log10(abs(u) or 1e-99)) + 1e-9 * (abs(lim[0]) + abs(lim[1])): fail("label %d of the colour bar is %g instead of %g" % (k, l[k], u))
            if b.last("set_label")[0][0] != name: fail("title of the colour bar")
        t = env.PlotBuilder.latex_float(s["clim"][1] * (i + 1.37)) if s["clim"] else None; v = s["clim"] and s["clim"][1] * (i + 1.37)
        if t is not None:
            r = [float(x) for x in t.replace("{", "").replace("}", "").split(r" \times 10^")]; r = r[0] * 10 ** (r[1] if len(r) > 1 else 0)
            if abs(r - v) > .051 * 10 ** math.floor(math.log10(abs(v))): fail("%g is %s in LaTeX" % (v, t))
    pb.save("a file"); pb.redraw(); pb.show()
    if fig.last("savefig")[0] != ("a file",) or not fig.last("show") or not fig.canvas.last("draw_idle"): fail("the figure is not saved, redrawn or shown")
    return True

if __name__ == "__main__":
    H.cases, H.Env = cases, Env
    H.PROPS = {"plots": (plots, "1..4 subplots with images and colour bars of a builder with and without sizes, own ranges and numbers of ticks; non-trivial: every case")}
    sys.exit(H.main(False))
