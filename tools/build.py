#!/usr/bin/env python3
"""Build harness executables from /repo's current working tree.

Sources are mirrored by content into build/mirror (an object is rebuilt exactly
when the text of something it includes changed, whatever the file times are),
then ninja builds one static library per flavour and one executable per
harness/h_<name>.cc."""
import fcntl, glob, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
MIRROR = os.path.join(BUILD, "mirror")

COMMON = "-std=c++20 -g1 -fno-omit-frame-pointer -w -pthread"
FLAVOURS = {
    "plain": ("g++", "-O1"),
    "fast": ("g++", "-O3 -DNDEBUG"),
    "asan": ("g++", "-O1 -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all"),
    "tsan": ("g++", "-O1 -fsanitize=thread"),
}
WRAPS = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait"]


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return True


def sync():
    want = set()
    for root, base in ((REPO, "repo"), (VERIF, "verif")):
        dirs = ["src", "gcl", "meadowlark", "apps"] if base == "repo" else ["harness"]
        for d in dirs:
            for dp, dn, fn in os.walk(os.path.join(root, d)):
                for f in fn:
                    if f.endswith((".cc", ".h", ".hpp", ".inc", ".c", ".cpp")):
                        p = os.path.join(dp, f)
                        t = os.path.join(MIRROR, base, os.path.relpath(p, root))
                        want.add(t)
                        with open(p, "rb") as fh:
                            put(t, fh.read())
    for dp, dn, fn in os.walk(MIRROR):
        for f in fn:
            p = os.path.join(dp, f)
            if p not in want:
                os.unlink(p)


def gen():
    m = MIRROR
    lib = sorted(glob.glob(m + "/repo/src/*.cc") + glob.glob(m + "/repo/gcl/*.cc")
                 + glob.glob(m + "/repo/meadowlark/*.cc"))
    hs = sorted(glob.glob(m + "/verif/harness/h_*.cc"))
    sup = sorted(p for p in glob.glob(m + "/verif/harness/*.cc") if p not in hs)
    L = ["ninja_required_version = 1.5", "builddir = " + BUILD]
    for fl, (cxx, flags) in FLAVOURS.items():
        L += [f"rule cxx_{fl}",
              f"  command = {cxx} {COMMON} {flags} -I{m}/repo -I{m}/verif/harness -MD -MF $out.d -c $in -o $out",
              "  depfile = $out.d", "  deps = gcc", "  description = $out"]
        wrap = " ".join("-Wl,--wrap=" + w for w in WRAPS)
        L += [f"rule ld_{fl}",
              f"  command = {cxx} {COMMON} {flags} {wrap} -rdynamic $in -o $out -lz -lpthread",
              "  description = $out"]
        L += [f"rule ar_{fl}", "  command = rm -f $out && ar crs $out $in"]
        objs = []
        for p in lib:
            o = f"{BUILD}/{fl}/{os.path.relpath(p, m)}.o"
            L.append(f"build {o}: cxx_{fl} {p}")
            objs.append(o)
        a = f"{BUILD}/{fl}/libcottontail.a"
        L.append(f"build {a}: ar_{fl} " + " ".join(objs))
        so = []
        for p in sup:
            o = f"{BUILD}/{fl}/{os.path.relpath(p, m)}.o"
            L.append(f"build {o}: cxx_{fl} {p}")
            so.append(o)
        for p in hs:
            o = f"{BUILD}/{fl}/{os.path.relpath(p, m)}.o"
            L.append(f"build {o}: cxx_{fl} {p}")
            n = os.path.basename(p)[2:-3]
            L.append(f"build {BUILD}/{fl}/h_{n}: ld_{fl} {o} {' '.join(so)} {a}")
            L.append(f"build {fl}-{n}: phony {BUILD}/{fl}/h_{n}")
    put(os.path.join(BUILD, "build.ninja"), ("\n".join(L) + "\n").encode())


def build(targets, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sync()
        gen()
        r = subprocess.run(["ninja", "-C", BUILD, "-f", os.path.join(BUILD, "build.ninja")] + targets,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not quiet:
            sys.stderr.write(r.stdout[-6000:] if r.returncode else r.stdout[-300:])
        return r.returncode == 0


if __name__ == "__main__":
    t = sys.argv[1:]
    if t == ["all"]:
        sys.path.insert(0, os.path.join(VERIF, "tools"))
        from plan import PLAN
        t = sorted({"%s-%s" % (r["fl"], r["h"]) for p in PLAN.values() for r in p["runs"]})
    sys.exit(0 if build(t, quiet=False) else 2)
