"""The Python library against data written by the program itself (through a stand-in for h5py)."""
import argparse, io, json, os, re, shutil, struct, subprocess, sys, time, types, warnings, math, random, multiprocessing
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
import build as B
import numpy as np
import hypothesis
from hypothesis import given, settings, seed as hseed, strategies as st, HealthCheck, Phase
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True

# ---- stand-in for h5py -------------------------------------------------------------------------
class DataSet:
    def __init__(self, owner, a): self.owner, self.a = owner, a
    def check(self):
        if self.owner.closed: raise ValueError("Not a dataset (file is closed)")
    @property
    def shape(self): self.check(); return self.a.shape
    @property
    def ndim(self): self.check(); return self.a.ndim
    @property
    def size(self): self.check(); return self.a.size
    @property
    def dtype(self): return self.a.dtype
    def __len__(self): self.check(); return len(self.a)
    def __iter__(self): self.check(); return iter(self.a)
    def __array__(self, *a, **k): self.check(); return np.array(self.a)
    def __getitem__(self, i): self.check(); r = self.a[i]; return r.copy() if isinstance(r, np.ndarray) else r
class Group:
    def __init__(self, f, path, attrs): self.f, self.path, self.attrs = f, path, attrs
    def keys(self):
        n = self.path.rstrip("/") + "/"
        return sorted(set(k[len(n):].split("/")[0] for k in self.f.sets if k.startswith(n)))
    def __len__(self): return len(self.keys())
    def __contains__(self, k): return k in self.keys()
    def __getitem__(self, k): return self.f[self.path.rstrip("/") + "/" + str(k)]
class File:
    opened = []
    def __init__(self, name, mode="r", **kw):
        self.closed = True
        b = open(name, "rb").read()
        self.name, self.mode, self.closed, self.sets, self.attrs = name, mode, False, {}, {}
        at = 0
        def num():
            nonlocal at
            v, = struct.unpack_from("q", b, at); at += 8; return v
        def text():
            nonlocal at
            n = num(); s = b[at:at + n].decode(); at += n; return s
        files = num(); assert files == 1
        text()
        for _ in range(num()): k = text(); self.attrs[k] = text()
        for _ in range(num()):
            k = text(); dims = [num() for _ in range(num())]; n = num()
            self.sets[k] = np.frombuffer(b, dtype=float, count=n, offset=at).reshape(dims); at += 8 * n
        File.opened.append(self)
    def __getitem__(self, path):
        if self.closed: raise ValueError("Invalid location identifier (file is closed)")
        p = "/" + str(path).strip("/")
        if p in self.sets: return DataSet(self, self.sets[p])
        if p == "/": return Group(self, "/", self.attrs)
        if any(k.startswith(p + "/") for k in self.sets): return Group(self, p, {})
        raise KeyError("Unable to open object (object '%s' doesn't exist)" % p)
    def __contains__(self, p):
        try: self[p]; return True
        except KeyError: return False
    def keys(self): return Group(self, "/", self.attrs).keys()
    def close(self): self.closed = True
    def __bool__(self): return not self.closed
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

class Fail(Exception): pass
def fail(s): raise Fail(s)

SPECIES = ["density", "temperature", "energy", "momentum/r", "momentum/phi", "momentum/z"]
FIELDS = ["E/r", "E/phi", "E/z", "H/r", "H/phi", "H/z", "J/r", "J/phi", "J/z"]

@st.composite
def cases(draw):
    d1, d2 = draw(st.integers(1, 2)), draw(st.sampled_from([1, 2, 4]))
    nr, nz = d1 * draw(st.integers(3, 6)), d2 * draw(st.integers(3, 6))
    size = draw(st.sampled_from([1e-3, 3e-3])) * nr, draw(st.sampled_from([1e-3, 2e-3])) * nz
    dt = 1e-13; steps = draw(st.integers(1, 8))
    probes, seen = [], set()
    for _ in range(draw(st.integers(1, 5))):
        c = draw(st.sampled_from(FIELDS + SPECIES)); sh = draw(st.sampled_from(["rec", "col", "row", "dot"]))
        p = {"component": c, "schedule": draw(st.integers(1, 3)), "shape": sh}
        if c in SPECIES: p["specie"] = draw(st.sampled_from(["electrons", "ions"]))
        r0, z0 = draw(st.integers(0, nr - 2)), draw(st.integers(0, nz - 2))
        if sh == "rec":
            p["start"] = {"r": r0, "z": z0}; p["end"] = {"r": draw(st.integers(r0 + 1, nr)), "z": draw(st.integers(z0 + 1, nz))}
        elif sh == "col": p["z"] = z0
        elif sh == "row": p["r"] = r0
        else: p["r"] = r0; p["z"] = z0
        k = json.dumps({a: b for a, b in p.items() if a != "schedule"}, sort_keys=True)
        if k not in seen: seen.add(k); probes.append(p)
    w = lambda lo, hi: draw(st.floats(lo, hi, allow_nan=False).map(lambda x: float("%.6g" % x)))
    beams = [{"name": "beam%d" % i, "charge": -1, "mass": 1, "velocity": w(1e7, 2.9e8), "start_time": w(0, 1e-12),
              "bunch": {"amount": draw(st.integers(1, 3)), "distance": size[1] / 5, "length": size[1] / 4, "radius": size[0] / 2, "density": w(1e12, 1e15),
                        "profile": {"radial": "rectangle", "longitudinal": "rectangle"}}} for i in range(draw(st.integers(0, 2)))]
    cfg = {"macro_amount": draw(st.integers(30, 120)), "beam_plasma_macro_size_ratio": 2, "log_file": "log", "comment": draw(st.text("abc xyz", max_size=8)),
           "geometry": {"size": {"radius": size[0], "longitude": size[1]}, "grid": {"radius": nr, "longitude": nz}, "domains_amount": {"radius": d1, "longitude": d2},
                        "pml": {"left_wall": w(0, .3), "right_wall": w(0, .3), "outer_wall": w(0, .3), "sigma_1": 1e-5, "sigma_2": w(.5, 2)}},
           "time": {"start": 0, "end": dt * (steps - .5), "step": dt}, "external_fields": {"electric": {"formfactor": "none", "params": []}, "magnetic": {"formfactor": "none", "params": []}},
           "particles": [{"name": "electrons", "charge": -1, "mass": 1, "density": w(1e12, 1e16), "temperature": w(.1, 10)}, {"name": "ions", "charge": 1, "mass": 1836, "density": w(1e12, 1e16), "temperature": w(.01, 10)}],
           "beams": beams,
           "data": {"data_root": draw(st.sampled_from(["./", "out", "out/deep"])), "compression": {"use": draw(st.booleans()), "level": draw(st.integers(1, 9))}, "probes": probes,
                    "plot": {"subplot": {"cmap": "terrain", "ticks": {"x_amount": draw(st.integers(1, 30)), "y_amount": draw(st.integers(1, 30)), "z_amount": draw(st.integers(1, 30)), "cbar_amount": draw(st.integers(1, 30))}},
                             "figure": {"color": "None", "width": w(1, 20), "height": w(1, 20), "dpi": draw(st.integers(50, 200)), "font": {"family": "sans-serif", "size": draw(st.integers(5, 20)), "name": "DejaVu Sans"}},
                             "video": {"codec": "mjpeg", "fps": draw(st.integers(1, 60)), "bitrate": draw(st.integers(1000, 64000))}}}}
    return {"cfg": cfg, "seed": draw(st.integers(1, 1 << 30)), "ranges": draw(st.tuples(st.floats(0, 1), st.floats(0, 1))), "points": draw(st.tuples(st.floats(0, .999), st.floats(0, .999))), "verbose": draw(st.booleans())}

class Env:
    """binary, library and scratch directory"""
    def __init__(self, scratch, binary):
        self.scratch, self.binary = scratch, binary
        m = types.ModuleType("h5py"); m.File = File; m.Dataset = DataSet; m.Group = Group; sys.modules["h5py"] = m
        sys.path.insert(0, os.path.join(B.REPO, "lib", "python"))
        from picopic.h5_reader import H5Reader
        from picopic.meta_reader import MetaReader
        from picopic.tinycache import TinyCache
        self.Reader, self.Meta, self.Cache = H5Reader, MetaReader, TinyCache
    def produce(self, case):
        d = os.path.join(self.scratch, "case-%d" % os.getpid())
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        json.dump(case["cfg"], open(os.path.join(d, "cfg.json"), "w"))
        p = subprocess.run([self.binary, "cfg.json", "data.h5", str(case["seed"])], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if p.returncode: fail("the program ended with %d: %s" % (p.returncode, p.stderr[-300:].decode(errors="replace")))
        return d

def eq(got, want, what):
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape and not (g.size == 1 and w.size == 1): fail("%s has shape %s instead of %s" % (what, g.shape, w.shape))
    if not np.array_equal(g.reshape(w.shape), w, equal_nan=True): fail("%s holds other values than written" % what)

def refused(f, *kinds):
    try: f()
    except kinds: return
    except Exception as e: fail("refused with %s: %s" % (type(e).__name__, e))
    fail("was not refused")

def check_meta(m, cfg):
    g = cfg["geometry"]; a, b = ["radius", "longitude"], ["left_wall", "right_wall", "outer_wall", "sigma_1", "sigma_2"]
    want = {"geometry_size": [g["size"][x] for x in a], "geometry_grid": [g["grid"][x] for x in a], "geometry_domains": [g["domains_amount"][x] for x in a], "geometry_pml": [g["pml"][x] for x in b],
            "time": [cfg["time"][x] for x in ("start", "end", "step")], "use_compression": cfg["data"]["compression"]["use"], "compression_level": cfg["data"]["compression"]["level"]}
    p = cfg["data"]["plot"]; t = p["subplot"]["ticks"]; f = p["figure"]
    want.update(plot_cmap=p["subplot"]["cmap"], plot_ticks_x=t["x_amount"], plot_ticks_y=t["y_amount"], plot_ticks_z=t["z_amount"], plot_cbar=t["cbar_amount"], figure_color=f["color"], figure_width=f["width"], figure_height=f["height"],
                figure_dpi=f["dpi"], figure_font_family=f["font"]["family"], figure_font_size=f["font"]["size"], figure_font_name=f["font"]["name"], video_codec=p["video"]["codec"], video_fps=p["video"]["fps"], video_bitrate=p["video"]["bitrate"])
    for k, v in want.items():
        if getattr(m, k) != v: fail("metadata: %s is %r instead of %r" % (k, getattr(m, k), v))
    if len(m.species) != len(cfg["particles"]) or len(m.beams) != len(cfg["beams"]) or len(m.probes) != len(cfg["data"]["probes"]): fail("metadata: number of species, beams or probes")
    for s, c in zip(m.species, cfg["particles"]):
        if (s.name, s.charge, s.mass, s.density, s.temperature) != (c["name"], c["charge"], c["mass"], [c["density"]] * 2, c["temperature"]): fail("metadata: specie " + c["name"])
    for s, c in zip(m.beams, cfg["beams"]):
        b = c["bunch"]
        if (s.name, s.charge, s.mass, s.velocity, s.start_time, s.bunch_density, s.bunch_amount, s.bunch_length, s.bunch_radius, s.bunches_distance) != (c["name"], c["charge"], c["mass"], c["velocity"], c["start_time"], b["density"], b["amount"], b["length"], b["radius"], b["distance"]): fail("metadata: beam " + c["name"])
    for s, c in zip(m.probes, cfg["data"]["probes"]):
        if (s.component, s.shape, s.schedule, s.specie) != (c["component"], c["shape"], c["schedule"], c.get("specie")): fail("metadata: probe " + c["component"])
        z = {"rec": lambda: [c["start"]["r"], c["start"]["z"], c["end"]["r"], c["end"]["z"]], "row": lambda: [c["r"]], "col": lambda: [c["z"]], "dot": lambda: [c["r"], c["z"]]}[c["shape"]]()
        got = {"rec": s.size, "row": s.size[:1], "col": s.size[1:2], "dot": s.size[:2]}[c["shape"]]
        if got != z: fail("metadata: place of probe %s is %s instead of %s" % (c["component"], got, z))

def reading(env, case):
    """every frame and range of every probe, metadata and conversions"""
    d = env.produce(case); cfg = case["cfg"]; raw = File(os.path.join(d, "data.h5"), "r"); File.opened.clear()
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        nr, nz = cfg["geometry"]["grid"]["radius"], cfg["geometry"]["grid"]["longitude"]
        with env.Reader(d if case["seed"] % 2 else os.path.join(d, "data.h5"), verbose=case["verbose"]) as r:
            check_meta(r.meta, cfg)
            steps = 0; t = 0.0
            while t <= cfg["time"]["end"]: steps += 1; t += cfg["time"]["step"]
            for p in cfg["data"]["probes"]:
                c = p["component"] + ("/" + p["specie"] if "specie" in p else ""); sh = p["shape"]; n = (steps - 1) // p["schedule"] + 1
                name = {"rec": lambda: "%d-%d_%d-%d" % (p["start"]["r"], p["end"]["r"], p["start"]["z"], p["end"]["z"]), "col": lambda: "%d" % p["z"], "row": lambda: "%d" % p["r"], "dot": lambda: "%d_%d" % (p["r"], p["z"])}[sh]()
                data = raw.sets["/%s/%s/%s" % (c, sh, name)]; what = "%s %s %s" % (c, sh, name)
                if len(data) != n: fail("%s: %d frames were written instead of %d" % (what, len(data), n))
                rec = [p["start"]["r"], p["start"]["z"], p["end"]["r"], p["end"]["z"]] if sh == "rec" else None
                get = {"rec": lambda i: r.rec(c, rec, i), "col": lambda i: r.col(c, p["z"], i), "row": lambda i: r.row(c, p["r"], i), "dot": lambda i: r.dot(c, p["r"], p["z"], i)}[sh]
                rng = {"rec": lambda *a: r.rec_range(c, rec, *a), "col": lambda *a: r.col_range(c, p["z"], *a), "row": lambda *a: r.row_range(c, p["r"], *a), "dot": lambda *a: r.dot_range(c, p["r"], p["z"], *a)}[sh]
                for i in range(n): eq(get(i), data[i], "%s frame %d" % (what, i))
                flat = data.reshape(len(data)) if sh == "dot" else data
                eq(rng(), flat, what + " whole range"); a, b = sorted(int(x * n) for x in case["ranges"]); eq(rng(a, b + 1 if b < n else n), flat[a:(b + 1 if b < n else n)], what + " range %d..%d" % (a, b + 1)); eq(rng(a), flat[a:], what + " range from %d" % a); eq(rng(a, a), flat[a:a], what + " empty range at %d" % a); eq(rng(0, 0), flat[:0], what + " empty range")
                if sh != "rec": refused(lambda: get(-1), IndexError)
                refused(lambda: get(n), IndexError, ValueError)
                if sh == "rec":
                    i, j = int(case["points"][0] * data.shape[1]), int(case["points"][1] * data.shape[2])
                    for k in range(n): eq(r.row_rec(c, i, rec, k), data[k, i], what + " row"); eq(r.col_rec(c, j, rec, k), data[k, :, j], what + " column"); eq(r.dot_rec(c, i, j, rec, k), data[k, i, j], what + " dot")
                    e = b + 1 if b < n else n
                    for q in ((), (a, e), (a,), (a, a), (0, 0)):
                        sl = data[slice(*q)] if len(q) > 1 else data[q[0] if q else 0:]
                        eq(r.row_rec_range(c, i, rec, *q), sl[:, i], what + " range of rows"); eq(r.col_rec_range(c, j, rec, *q), sl[:, :, j], what + " range of columns"); eq(r.dot_rec_range(c, i, j, rec, *q), sl[:, i, j], what + " range of dots")
                # moments of frames
                for k in range(n):
                    ts = r.meta.get_timestamp_by_frame_number(k, p["schedule"])
                    if abs(ts - k * p["schedule"] * cfg["time"]["step"]) > 1e-9 * cfg["time"]["step"] * (k + 1) or r.meta.get_frame_number_by_timestamp(ts, p["schedule"]) != k: fail("moment of frame %d is %g" % (k, ts))
            for k in range(nr):
                x = r.meta.get_radius_by_row(k)
                if abs(x - k * cfg["geometry"]["size"]["radius"] / nr) > 1e-12 or r.meta.get_row_by_radius(x) != k: fail("radius of row %d is %g" % (k, x))
            for k in range(nz):
                x = r.meta.get_longitude_by_col(k)
                if abs(x - k * cfg["geometry"]["size"]["longitude"] / nz) > 1e-12 or r.meta.get_col_by_longitude(x) != k: fail("longitude of column %d is %g" % (k, x))
        if not File.opened or not all(f.closed for f in File.opened): fail("the data file was left open")
        # interrupted use closes the file too
        File.opened.clear(); kept = env.Reader(d)
        try:
            with kept: raise KeyError("interrupted")
        except KeyError: pass
        else: fail("an error inside of the reader's block was swallowed")
        if not File.opened or not all(f.closed for f in File.opened): fail("the data file was left open after an error")
        refused(lambda: env.Reader(os.path.join(d, "nothing")), FileNotFoundError)
        # the configuration file gives the same
        check_meta(env.Meta(os.path.join(d, "cfg.json")), cfg)
        c = env.Cache(os.path.join(d, "cache")); v = next(iter(raw.sets.values())); c.update_cache("k", v)
        if "k" not in c or "x" in c: fail("cache does not know its keys")
        for x in (c, env.Cache(os.path.join(d, "cache"))): eq(np.ravel(x.get_cache("k")), np.ravel(v), "cached array")
    finally:
        sys.stdout = out
        shutil.rmtree(d, ignore_errors=True)
    return sum(1 for p in cfg["data"]["probes"]) > 0

def tool(env, case):
    """tools/parse_metadata.py: parts of metadata and physical values"""
    d = env.produce(case); cfg = case["cfg"]
    try:
        lib = os.path.join(env.scratch, "lib-%d" % os.getpid()); os.makedirs(lib, exist_ok=True)
        with open(os.path.join(lib, "h5py.py"), "w") as f: f.write("import sys\nsys.path.insert(0, %r)\nfrom h_reader import File, DataSet as Dataset, Group\n" % HERE)
        def run(*a):
            p = subprocess.run([sys.executable, "-B", os.path.join(B.REPO, "tools", "parse_metadata.py"), os.path.join(d, "data.h5") if case["seed"] % 2 else d] + list(a), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONPATH=lib, PYTHONDONTWRITEBYTECODE="1"))
            if p.returncode: fail("parse_metadata %s: %s" % (" ".join(a), p.stderr.decode()[-300:]))
            return p.stdout.decode()
        p = subprocess.run([sys.executable, "-B", os.path.join(B.REPO, "tools", "parse_metadata.py"), os.path.join(d, "nothing")] + (["--phys-info"] if case["seed"] % 3 == 0 else []), cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONPATH=lib))
        if not p.returncode or "nothing" not in p.stderr.decode().strip().split("\n")[-1]: fail("a missing data file is not told: " + p.stderr.decode()[-200:])
        k = case["seed"] % 5
        if k == 0:
            j = json.loads(run()); j.pop("base_path", None)
            j["data"]["probes"] = [{a: b for a, b in x.items() if b is not None} for x in j["data"]["probes"]]
            for x in ("geometry", "time", "particles", "beams", "data"):
                if j.get(x) != cfg[x]: fail("metadata: %s differs from the configuration" % x)
        elif k == 1:
            if json.loads(run("--subtree", "[geometry][size]")) != cfg["geometry"]["size"]: fail("subtree of metadata differs")
        elif k == 2:
            b = json.loads(run("--bo"))
            if b.get("particles_pusher") is None or b.get("current_deposition") is None: fail("build options are not shown")
        elif k == 3:
            if json.loads(run("-c")) != cfg["comment"]: fail("comment differs")
        t = run("--phys-info"); e, i = cfg["particles"]; wp = math.sqrt(e["density"] * 1.6e-19 ** 2 / (9.1e-31 * 8.85e-12))
        want = {"Expected plasma frequency": (wp / 2 / math.pi, .01), "Expected Debye length": (7433.944 / math.sqrt(e["density"] / e["temperature"] + i["density"] / i["temperature"]), .002),
                "Number of calculation steps is": ((cfg["time"]["end"] - cfg["time"]["start"]) / cfg["time"]["step"], .002)}
        if cfg["beams"]:
            b = cfg["beams"][0]; u = b["bunch"]; bl = u["length"] * u["amount"] + u["distance"] * (u["amount"] - 1)
            want.update({"Expected wake wavelength": (2 * math.pi * b["velocity"] / wp, .06),
                         "Estimated beam passage time": ((cfg["geometry"]["size"]["longitude"] + bl) / b["velocity"], .002),
                         "Initial beam velocity": (b["velocity"], .001),
                         "Whole beam duration": (bl / b["velocity"], .002),
                         "Number of particles in beam": (math.pi * u["radius"] ** 2 * u["length"] * u["density"] * u["amount"], .06)})
        for k, (v, tol) in want.items():
            m = re.search(re.escape(k) + r":?\s*([-+0-9.eE]+)", t)
            if not m: fail("%s is not shown" % k)
            if abs(float(m.group(1)) - v) > tol * abs(v): fail("%s is %s instead of %g" % (k, m.group(1), v))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return True

PROPS = {"reading": (reading, "generated configurations run by the program itself, all frames, ranges, parts of rectangles, metadata and conversions read back; non-trivial: every case"),
         "tool": (tool, "metadata tool on generated data files: subtrees, build options, comment, physical values; non-trivial: every case")}

def worker(fn, env_args, seed, seconds, limit, q):
    env = Env(*env_args); t0 = time.time(); stats = {"n": 0, "nt": 0, "seen": set(), "samples": []}; failure = None; batch = 0
    while failure is None and time.time() - t0 < seconds:
        last = {}
        @hseed(seed * 1000003 + batch)
        @settings(max_examples=limit, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])
        @given(cases())
        def search(case):
            if time.time() - t0 > seconds + 40: return
            if time.time() - t0 > seconds and not last: return
            stats["n"] += 1; s = json.dumps(case, sort_keys=True)
            try:
                fn(env, case)
            except Exception as e:
                last["case"], last["msg"] = case, ("%s" if isinstance(e, Fail) else type(e).__name__ + ": %s") % e; raise Fail(type(e).__name__) from None
            stats["nt"] += 1; stats["seen"].add(hash(s))
            if len(stats["samples"]) < 2: stats["samples"].append(s[:600])
        try: search()
        except BaseException as e:
            if last: failure = dict(last)
            elif not isinstance(e, Exception): raise
            else: failure = None; q.put(("error", repr(e))); return
        batch += 1
    q.put(("ok", stats["n"], stats["nt"], len(stats["seen"]), stats["samples"], failure))

def main(program=True):
    a = argparse.ArgumentParser(); a.add_argument("--prop"); a.add_argument("--seed", type=int, default=1); a.add_argument("--time", type=float, default=5); a.add_argument("--out"); a.add_argument("--save"); a.add_argument("--scratch"); a.add_argument("--replay"); a.add_argument("--workers", type=int, default=7)
    o = a.parse_args(); fn, rule = PROPS[o.prop]
    binary = os.path.join(o.scratch, "h_dump-main", "bin")
    if program and not os.path.exists(binary): binary = B.build(o.scratch, "h_dump-main", "h_dump.cpp", B.config(), with_main=True)
    if o.replay:
        case = json.loads([l for l in open(o.replay) if l.startswith("case: ")][0][6:])
        try: fn(Env(o.scratch, binary), case)
        except Exception as e: print("fails: %s" % e); return 1
        print("holds"); return 0
    q = multiprocessing.Queue(); ws = [multiprocessing.Process(target=worker, args=(fn, (o.scratch, binary), o.seed * 100 + i, o.time, 40, q)) for i in range(o.workers)]
    for w in ws: w.start()
    res = [q.get() for _ in ws]
    for w in ws: w.join()
    bad = [r for r in res if r[0] != "ok"]
    if bad: print(bad[0]); return 2
    fails = sorted((r[5] for r in res if r[5]), key=lambda f: len(json.dumps(f["case"]))); f = fails[0] if fails else None
    out = {"prop": o.prop, "rule": rule, "evaluations": sum(r[1] for r in res), "discarded": 0, "nontrivial": sum(r[2] for r in res), "distinct_nontrivial": sum(r[3] for r in res), "labels": {}, "verdict": 1 if f else 0, "message": f["msg"] if f else "", "case": json.dumps(f["case"]) if f else "", "samples": [s for r in res for s in r[4]][:6]}
    if f: open(o.save, "w").write("message: %s\ncase: %s\n" % (f["msg"].replace("\n", " "), json.dumps(f["case"])))
    json.dump(out, open(o.out, "w")); return out["verdict"]

if __name__ == "__main__":
    sys.exit(main())
