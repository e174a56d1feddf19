"""Which harness runs decide which property. Times are seconds of search per run (quick, thorough)."""
def R(harness, prop, quick, thorough, cfg=None, cfg_name=None, **kw):
    d = dict(harness=harness, prop=prop, quick=quick, thorough=thorough)
    if cfg: d["cfg"] = cfg
    if cfg_name: d["cfg_name"] = cfg_name
    d.update(kw)
    return d

PUSHERS = ["BORIS", "BORIS_RELATIVISTIC", "BORIS_ADAPTIVE", "VAY", "HC"]

# the thread tests link a stand-in for libgomp (harness/gomp_shim.cpp)
SHIM = dict(openmp=True, link_openmp=False, extra_sources=["gomp_shim.cpp"])
TSAN = {"TSAN_OPTIONS": "halt_on_error=1:die_after_fork=0:abort_on_error=1"}

# whole runs under address and undefined behaviour sanitizers
ASAN = dict(with_main=True, flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DNO_PERTURB"])
ASAN_ENV = {"ASAN_OPTIONS": "handle_segv=0:handle_abort=0:detect_leaks=0:exitcode=97"}
WHOLE = [("whole_zigzag", dict(ccs="ZIGZAG", pusher="BORIS", spatial="CENTERED", velocity="RECTANGULAR")),
         ("whole_ta77s", dict(collisions="TA77S", external=True, pusher="VAY", spatial="REGULAR", velocity="EIGEN")),
         ("whole_p12", dict(collisions="P12", pusher="HC", spatial="RANDOM")),
         ("whole_sk98", dict(collisions="SK98", pusher="BORIS_RELATIVISTIC", pml=False))]

CHECKS = {
    "C01": {"runs": [R("h_grid", "grid_model", 6, 120), R("h_grid", "stitch_pair", 5, 60),
                     R("h_grid", "stitch_current", 8, 180), R("h_grid", "stitch_fields", 8, 180)]},
    "C02": {"runs": [x for p in PUSHERS for x in (R("h_push", "push_step", 5, 90, cfg={"pusher": p}, cfg_name=p.lower()),
                                                  R("h_push", "push_many", 4, 60, cfg={"pusher": p}, cfg_name=p.lower()),
                                                  R("h_push", "area", 3, 60, cfg={"pusher": p}, cfg_name=p.lower()))]
                    + [R("h_push", "area", 3, 60, cfg={"pusher": p, "external": True}, cfg_name=p.lower() + "_ext") for p in ("BORIS_ADAPTIVE", "VAY", "HC")]},
    "C03": {"runs": [R("h_interp", "gather", 20, 300), dict(R("h_interp", "uniform", 1, 1), finding="uniform")]},
    "C04": {"runs": [R("h_interp", "density", 15, 240)]},
    "C05": {"runs": [R("h_interp", "vb_current", 20, 400), R("h_interp", "vb_far", 4, 40), R("h_interp", "zigzag_current", 12, 240)]},
    "C06": {"runs": [R("h_maxwell", "yee", 15, 300, cfg={"pml": True}, cfg_name="pml"), R("h_maxwell", "yee", 8, 120, cfg={"pml": False}, cfg_name="plain")]},
    "C07": {"runs": [R("h_smb", "decomposition", 20, 400, cfg={"pml": True}, cfg_name="pml"), R("h_smb", "decomposition", 8, 200, cfg={"pml": False}, cfg_name="plain"),
                     R("h_smb", "decomposition", 6, 120, cfg={"ccs": "ZIGZAG"}, cfg_name="zigzag"), R("h_smb", "beams", 12, 200, cfg={"pml": True}, cfg_name="pml")]},
    "C08": {"runs": [R("h_smb", "migration", 12, 240)]},
    "C09": {"runs": [R("h_smb", "free_flight", 20, 300)]},
    "C10": {"runs": [R("h_fill", "placement", 6, 120, cfg={"spatial": x}, cfg_name=x.lower()) for x in ("FLAT", "RANDOM", "CENTERED", "REGULAR")]},
    "C11": {"runs": [R("h_fill", "velocities", 8, 150, cfg={"velocity": x}, cfg_name=x.lower()) for x in ("THERMAL", "RECTANGULAR", "EIGEN")]
                    + [R("h_fill", "sampling", 8, 150)]},
    "C12": {"runs": [R("h_beam", "injection", 15, 300), R("h_beam", "beam_flight", 8, 150)]},
    "C13": {"runs": [R("h_cfg", "read", 8, 150),
                     R("h_cfg", "read", 5, 60, cfg=dict(pusher="VAY", ccs="ZIGZAG", external=True, spatial="REGULAR", velocity="EIGEN", pml=False), cfg_name="vay_zigzag"),
                     R("h_cfg", "read", 5, 60, cfg=dict(pusher="HC", spatial="RANDOM", velocity="RECTANGULAR"), cfg_name="hc_random"),
                     R("h_cfg", "read", 3, 30, cfg=dict(pusher="BORIS", spatial="CENTERED"), cfg_name="boris_centered"),
                     R("h_cfg", "read", 3, 30, cfg=dict(pusher="BORIS_RELATIVISTIC", collisions="P12"), cfg_name="relativistic_p12"),
                     R("h_cfg", "refuse", 6, 120), R("h_cfg", "limits", 6, 120)]},
    "C14": {"runs": [R("h_out", "frames", 15, 300), R("h_out", "far", 10, 150), R("h_out", "odd_probes", 6, 100)]},
    "C15": {"runs": [R("h_out", "maps", 20, 400)]},
    "C16": {"runs": [R("h_coll", q, t, 30 * t, cfg={"collisions": x}, cfg_name=x.lower()) for x in ("TA77S", "SK98", "P12")
                     for q, t in (("pair", 4), ("cells", 4), ("everyone", 3), ("steps", 3), ("placed", 3), ("partners", 3), ("deflection", 4))]},
    "C17": {"runs": [R("h_ext", "felt", 10, 200, cfg={"external": True}, cfg_name="adaptive"), R("h_ext", "names", 2, 20, cfg={"external": True}, cfg_name="adaptive")]
                    + [R("h_ext", "pushed", 5, 100, cfg={"external": True, "pusher": x}, cfg_name=n) for x, n in (("BORIS_ADAPTIVE", "adaptive"), ("VAY", "vay"), ("HC", "hc"))]
                    + [R("h_smb", "decomposition", 10, 200, cfg={"external": True}, cfg_name="external")]},
    "C18": {"runs": [R("h_math", q, t, 20 * t, cfg_name="math", build=dict(rand="real")) for q, t in (("relativity", 6), ("plasma", 4), ("vectors", 3), ("numbers", 8))]
                    + [R("h_math", "plasma", 2, 20, cfg_name="avx", build=dict(rand="real", opt="-O0", flags=["-mavx"]))]},
    "C19": {"runs": [R("h_math", "text", 5, 100, cfg_name="math", build=dict(rand="real")), R("h_math", "directories", 5, 100, cfg_name="math", build=dict(rand="real"))]},
    "C20": {"runs": [R("h_threads", "races", 20, 300, cfg_name="tsan", env=TSAN,
                       build=dict(SHIM, rand="real", flags=["-fsanitize=thread"])),
                     R("h_threads", "order", 15, 300, cfg_name="order", build=SHIM)]},
    "C21": {"runs": [R("h_smb", "gauss", 20, 400, cfg={"pml": False}, cfg_name="plain"), R("h_smb", "gauss", 8, 120, cfg={"pml": True}, cfg_name="pml")]},
    "C22": {"runs": [R("h_main", "signals", 12, 300, cfg_name="main", build=dict(with_main=True)), R("h_main", "command", 2, 10, cfg_name="main", build=dict(with_main=True)),
                     R("h_main", "signals", 8, 200, cfg_name="main_asan", build=ASAN, env=ASAN_ENV)]},
    "C23": {"runs": [R("h_main", "whole", 6, 200, cfg_name="main", build=dict(with_main=True)), R("h_main", "whole", 8, 200, cfg_name="main_asan", build=ASAN, env=ASAN_ENV)]
                    + [R("h_main", "faithful", 6, 200, cfg_name="main", build=dict(with_main=True))]
                    + [R("h_main", q, t, 20 * t, cfg=c, cfg_name=n, build=ASAN, env=ASAN_ENV) for n, c in WHOLE for q, t in (("whole", 6), ("faithful", 3))]},
    "C24": {"runs": [R("h_reader.py", "reading", 15, 300), R("h_reader.py", "tool", 15, 200)]},
    "C25": {"runs": [R("h_out", "progress", 15, 200)]},
    "C26": {"runs": [R("h_plot.py", "plots", 15, 200)]},
}
