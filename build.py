#!/usr/bin/env python3
"""Builds the checkers from /repo's working tree into /verif/.build (content addressed, safe to run concurrently)."""
import os, sys, subprocess, hashlib, glob, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VP_REPO", "/repo")
B = os.environ.get("VP_BUILD", os.path.join(V, ".build"))
# the instrumented library must not see the sanitizer runtime: the controlled runtime provides the hooks
SUT_FLAGS = "-std=gnu++17 -O1 -g -fsanitize=thread -fno-builtin -U_FORTIFY_SOURCE -fno-pie -fstack-protector-strong -pthread -w".split()
SIM_FLAGS = "-std=gnu++17 -O2 -g -fno-builtin -U_FORTIFY_SOURCE -fno-pie -pthread -Wall -Wno-misleading-indentation -Wno-unused-function".split()
SEQ_FLAGS = "-std=gnu++17 -O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment,nonnull-attribute -fno-sanitize-recover=undefined -pthread -w".split()

def sources():
    s = sorted(glob.glob(R + "/*.cpp") + glob.glob(R + "/values/*.cpp"))
    h = sorted(glob.glob(R + "/*.hpp") + glob.glob(R + "/values/*.hpp"))
    return s, h

def digest(*parts):
    m = hashlib.sha256()
    for p in parts:
        if isinstance(p, list):
            for f in p:
                m.update(f.encode()); m.update(open(f, "rb").read())
        else:
            m.update(str(p).encode())
    return m.hexdigest()[:20]

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), p.stdout[-6000:]))
        raise SystemExit(3)

def compile_all(jobs):
    """jobs: (src, flags, deps, post) -> object path"""
    out = []; todo = []
    for src, flags, deps, post in jobs:
        o = os.path.join(B, "obj", os.path.basename(src)[:-4] + "-" + digest(" ".join(flags), [src] + deps, post) + ".o")
        out.append(o)
        if not os.path.exists(o):
            todo.append((src, flags, o, post))
    def one(t):
        src, flags, o, post = t
        tmp = o + ".%d.tmp" % os.getpid()
        sh(["g++", *flags, "-I" + R, "-I" + V, "-c", src, "-o", tmp])
        if post:
            # static data goes to sections of its own, which the runtime monitors and puts back before every execution
            hd = subprocess.run(["objdump", "-h", "-w", tmp], capture_output=True, text=True, check=True).stdout
            ren = []
            for s in {l.split()[1] for l in hd.splitlines() if len(l.split()) > 6 and l.split()[0].isdigit()}:
                if s == ".data" or (s.startswith(".data.") and not s.startswith(".data.rel.ro")): ren += ["--rename-section", s + "=sutdata"]
                if s == ".bss" or s.startswith(".bss."): ren += ["--rename-section", s + "=sutbss,alloc,load,data,contents"]
            if ren: sh(["objcopy", *ren, tmp])
        os.replace(tmp, o)
    if todo:
        with ThreadPoolExecutor(int(os.environ.get("VP_JOBS", "8"))) as ex:
            list(ex.map(one, todo))
    return out

def build(which=("sim", "seq")):
    os.makedirs(B + "/obj", exist_ok=True)
    with open(B + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src, hdr = sources()
        res = {}
        if "sim" in which:
            mine = sorted(glob.glob(V + "/sim/*.cpp")); mh = sorted(glob.glob(V + "/sim/*.hpp") + glob.glob(V + "/common/*.hpp"))
            core = [m for m in mine if os.path.basename(m) in ("rt.cpp", "kern.cpp", "explore.cpp")]
            shim = [m for m in mine if os.path.basename(m) == "shim.cpp"]     # inline library code, instrumented like the library
            scen = [m for m in mine if m not in core + shim]
            jobs = [(s, SUT_FLAGS, hdr, "static data renamed") for s in src + shim] + [(s, SIM_FLAGS, mh, False) for s in core] + [(s, SIM_FLAGS, mh + hdr, False) for s in scen]
            objs = compile_all(jobs)
            wraps = ["-Wl,--wrap=" + w for w in open(V + "/sim/wraps.txt").read().split()]
            exe = os.path.join(B, "mc-" + digest(" ".join(objs), " ".join(wraps)))
            if not os.path.exists(exe):
                sh(["g++", "-no-pie", "-static-libstdc++", "-static-libgcc", "-pthread", "-o", exe + ".tmp", *objs, *wraps]); os.replace(exe + ".tmp", exe)
            res["sim"] = exe
        if "seq" in which:
            mine = sorted(glob.glob(V + "/seq/*.cpp")); mh = sorted(glob.glob(V + "/seq/*.hpp") + glob.glob(V + "/common/*.hpp"))
            lib = [s for s in src if os.path.basename(s) not in ("Client.cpp", "Server.cpp", "Connection.cpp")]
            objs = compile_all([(s, SEQ_FLAGS, hdr, False) for s in lib] + [(s, SEQ_FLAGS, mh + hdr, False) for s in mine])
            exe = os.path.join(B, "seq-" + digest(" ".join(objs)))
            if not os.path.exists(exe):
                sh(["g++", *SEQ_FLAGS, "-o", exe + ".tmp", *objs]); os.replace(exe + ".tmp", exe)
            res["seq"] = exe
        # keep the folder small
        for f in glob.glob(B + "/mc-*") + glob.glob(B + "/seq-*"):
            if f not in res.values() and os.path.getmtime(f) < __import__("time").time() - 3600: os.unlink(f)
        return res

if __name__ == "__main__":
    w = tuple(sys.argv[1:]) or ("sim", "seq")
    for k, v in build(w).items(): print(k, v)
