#!/usr/bin/env python3
"""Builds the simulator and the repository's code (from /repo's working tree) into /verif/build.

usage: build.py [target ...]   (targets: sim convert trader engine ind; default: all)
Exit 0 if all requested targets are built."""
import glob, os, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

CXX = "/usr/bin/g++"
REPO_FLAGS = ("-std=c++17 -O1 -g1 -w -fPIC -DHAVE_ZLIB -fsanitize=thread -U__SANITIZE_THREAD__ "
              f"-ftrivial-auto-var-init=pattern -I{REPO} -I{OUT}/gen")
SIM_FLAGS = f"-std=c++17 -O2 -g1 -Wall -Wno-unused-result -fPIC -I{VERIF}/src"
SKIP_DIRS = {"_build", ".git", "data"}


def repo_files(ext):
    out = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS and not x.startswith("bazel-"))
        for f in sorted(files):
            if f.endswith(ext):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return out


def main():
    targets = sys.argv[1:] or ["sim", "convert", "trader", "engine", "ind"]
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    protos = [p for p in repo_files(".proto")]
    lib = [s for s in repo_files(".cc")
           if not s.endswith("_test.cc") and not s.endswith("test_util.cc") and not s.endswith(".pb.cc")
           and s not in ("convert.cc", "trader.cc") and not s.startswith(("tests/", "test/", "examples/", "benchmarks/", "fuzz/"))]
    # Sources with a main of their own (tools) do not belong to the library.
    import re
    lib = [s for s in lib if not re.search(r"^\s*int\s+main\s*\(", open(os.path.join(REPO, s), errors="replace").read(), re.M)]
    absl = [os.path.basename(p)[3:-3] for p in sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so"))]
    libs = " ".join(["-Wl,--as-needed"] + [f"-l{a}" for a in absl] + ["-lprotobuf", "-lz", "-lpthread"])

    L = [f"builddir = {OUT}", "ninja_required_version = 1.3"]
    L.append(f"rule proto\n  command = protoc -I{REPO} --cpp_out={OUT}/gen $in\n  description = protoc $in")
    L.append(f"rule cxx\n  command = {CXX} $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = cxx $out")
    L.append(f"rule so\n  command = {CXX} -shared -Wl,-Bsymbolic -o $out $in {OUT}/librepo.a {libs}\n  description = so $out")
    L.append("rule ar\n  command = rm -f $out && ar qc $out $in\n  description = ar $out")
    L.append(f"rule exe\n  command = {CXX} -rdynamic -o $out $in -ldl -lpthread -lz\n  description = exe $out")
    gen_h = []
    lib_o = []
    os.makedirs(f"{OUT}/gen", exist_ok=True)
    for p in protos:
        b = p[:-6]
        L.append(f"build gen/{b}.pb.cc gen/{b}.pb.h: proto {REPO}/{p}".replace("build gen/", f"build {OUT}/gen/").replace(f" gen/{b}.pb.h", f" {OUT}/gen/{b}.pb.h"))
        gen_h.append(f"{OUT}/gen/{b}.pb.h")
        o = f"{OUT}/obj/gen/{b}.pb.o"
        L.append(f"build {o}: cxx {OUT}/gen/{b}.pb.cc || {{GEN}}\n  flags = {REPO_FLAGS}")
        lib_o.append(o)
    for s in lib:
        o = f"{OUT}/obj/{s[:-3]}.o"
        L.append(f"build {o}: cxx {REPO}/{s} || {{GEN}}\n  flags = {REPO_FLAGS}")
        lib_o.append(o)
    L.append(f"build {OUT}/librepo.a: ar {' '.join(lib_o)}")
    for m in ("convert", "trader"):
        o = f"{OUT}/obj/main_{m}.o"
        L.append(f"build {o}: cxx {REPO}/{m}.cc || {{GEN}}\n  flags = {REPO_FLAGS} -Dmain=sim_main")
        L.append(f"build {OUT}/{m}.so: so {o} | {OUT}/librepo.a")
    for a in ("engine", "ind"):
        o = f"{OUT}/obj/adapter_{a}.o"
        L.append(f"build {o}: cxx {VERIF}/adapters/{a}.cc || {{GEN}}\n  flags = {REPO_FLAGS} -I{VERIF}/src")
        L.append(f"build {OUT}/{a}.so: so {o} | {OUT}/librepo.a")
    sim_o = []
    for s in sorted(glob.glob(f"{VERIF}/src/*.cc")):
        o = f"{OUT}/obj/sim_{os.path.basename(s)[:-3]}.o"
        fl = SIM_FLAGS
        L.append(f"build {o}: cxx {s}\n  flags = {fl}")
        sim_o.append(o)
    L.append(f"build {OUT}/sim: exe {' '.join(sim_o)}")
    text = "\n".join(L).replace("{GEN}", " ".join(gen_h)) + "\n"
    path = f"{OUT}/build.ninja"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    want = [f"{OUT}/sim" if t == "sim" else f"{OUT}/{t}.so" for t in targets]
    r = subprocess.run(["ninja", "-C", OUT, "-j8"] + want, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
