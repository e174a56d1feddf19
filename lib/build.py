"""Builds PiCoPiC's sources from /repo's current working tree, outside /repo.

A configuration is a dict of macros that replaces include/defines.hpp (which ./configure would
generate); headers are mirrored to the scratch directory so that the generated header of the
working tree, if any, is not picked up; sources are compiled in place.
"""
import hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

BASE = {
    "CXXFLAGS": '"-verif"', "PACKAGE_NAME": '"PiCoPiC"', "PACKAGE_VERSION": '"verif"',
    "PACKAGE_DEPS": '"gcc@6+"', "PACKAGE_STRING": '"PiCoPiC verif"', "PACKAGE_TARNAME": '"picopic"',
    "PACKAGE_URL": '""', "PACKAGE_BUGREPORT": '""', "REL_LIMIT": "5e7",
    "ENABLE_HDF5": "true",
    "SWITCH_MAXWELL_SOLVER_YEE": "true",
}

def config(pusher="BORIS_ADAPTIVE", ccs="VB", spatial="FLAT", velocity="THERMAL", pml=True,
           external=False, collisions=None, extra=None):
    d = dict(BASE)
    d["SWITCH_PUSHER_" + pusher] = "true"
    d["SWITCH_CCS_" + ccs] = "true"
    d["SWITCH_PLASMA_SPATIAL_" + spatial] = "true"
    d["SWITCH_PLASMA_VELOCITY_" + velocity] = "true"
    if pml: d["ENABLE_PML"] = "true"
    if external: d["ENABLE_EXTERNAL_FIELDS"] = "true"
    if collisions:
        d["ENABLE_COULOMB_COLLISIONS"] = "true"
        d["SWITCH_COULOMB_COLLISIONS_" + collisions] = "true"
    d.update(extra or {})
    return d

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout.decode(errors="replace")

def sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx")):
                out.append(os.path.join(root, f))
    return sorted(out)

def mirror_headers(dst):
    src = os.path.join(REPO, "include")
    for root, _, files in os.walk(src):
        rel = os.path.relpath(root, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            if f.startswith("defines.hpp"):
                continue
            shutil.copyfile(os.path.join(root, f), os.path.join(dst, rel, f))

def write_defines(path, macros):
    with open(path, "w") as f:
        f.write("#ifndef VERIF_DEFINES_HPP\n#define VERIF_DEFINES_HPP\n")
        for k, v in macros.items():
            f.write("#define %s %s\n" % (k, v))
        f.write("#endif\n")

def build(scratch, name, harness, macros, flags=(), rand="seeded", with_main=False, cxx="g++",
          opt="-O1", openmp=False, extra_sources=(), link_openmp=True):
    """Compile /repo/src + a harness into scratch/name/bin; returns the binary's path."""
    d = os.path.join(scratch, name)
    inc = os.path.join(d, "include")
    os.makedirs(os.path.join(d, "obj"), exist_ok=True)
    mirror_headers(inc)
    write_defines(os.path.join(inc, "defines.hpp"), macros)
    base = [cxx, "-std=c++17", opt, "-g1", "-w", "-fno-access-control", "-ffp-contract=off",
            "-D_GLIBCXX_ASSERTIONS",
            "-I" + inc, "-I" + os.path.join(inc, "constant"),
            "-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "harness")]
    if openmp: base.append("-fopenmp")
    base += list(flags)
    srcs = []
    for s in sources():
        bn = os.path.relpath(s, os.path.join(REPO, "src"))
        if bn == "PiCoPiC.cpp" and not with_main:
            continue
        if bn == "math/rand.cpp" and rand == "seeded":
            continue
        srcs.append(s)
    if rand == "seeded":
        srcs.append(os.path.join(VERIF, "harness", "rand_seeded.cpp"))
    if harness:
        srcs.append(os.path.join(VERIF, "harness", harness))
    srcs += [os.path.join(VERIF, "harness", s) for s in extra_sources]
    jobs = []
    for i, s in enumerate(srcs):
        o = os.path.join(d, "obj", "%d_%s.o" % (i, os.path.basename(s)))
        own = ["-Dmain=picopic_main"] if s.endswith("/PiCoPiC.cpp") else []
        jobs.append((base + own + ["-c", s, "-o", o], o, s))
    def one(j):
        rc, out = run(j[0])
        return rc, out, j
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(one, jobs))
    for rc, out, j in res:
        if rc != 0:
            raise BuildError("compiling %s failed:\n%s" % (j[2], out[-4000:]))
    binp = os.path.join(d, "bin")
    rc, out = run([cxx] + (["-fopenmp"] if openmp and link_openmp else []) + list(flags) + [j[1] for j in jobs] + ["-o", binp, "-lpthread"])
    if rc != 0:
        raise BuildError("linking %s failed:\n%s" % (name, out[-4000:]))
    return binp
