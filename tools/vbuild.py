"""Builds the simulator with the library of the current /repo tree."""
import os, subprocess, sys, glob, hashlib, shutil, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIBFLAGS = ["-O1", "-g", "-std=gnu99", "-fsanitize=thread", "-fno-pie", "-fno-builtin", "-fno-common",
            "-fno-stack-protector", "-ftrivial-auto-var-init=pattern", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-w",
            "-D_FILE_OFFSET_BITS=64", "-D_GNU_SOURCE", "-include", VERIF + "/stub/fdset.h"]
SIMFLAGS = ["-std=c++17", "-O1", "-g", "-fno-pie", "-w", "-D_FILE_OFFSET_BITS=64", "-ftrivial-auto-var-init=zero"]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def harness_obj(src, cache):
    """object of a harness source, cached by content"""
    deps = sorted(glob.glob(VERIF + "/sim/*.h") + glob.glob(VERIF + "/scen/*.h"))
    if "/scen/" in src:
        deps += sorted(glob.glob(VERIF + "/probe/*.h")) + sorted(glob.glob(REPO + "/include/futils/*")) + sorted(glob.glob(REPO + "/src/*.h"))
    key = sha(read(src), *[read(d) for d in deps], " ".join(SIMFLAGS))
    out = os.path.join(cache, os.path.basename(src) + "-" + key + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        run(["g++"] + SIMFLAGS + ["-I", REPO + "/include", "-I", VERIF + "/sim", "-I", VERIF + "/scen", "-c", src, "-o", tmp])
        os.rename(tmp, out)
    return out


# Other builds of some sources that products use: their symbols get a prefix,
# scenarios refer to them weakly. A variant that does not compile is left out.
VARIANTS = [
    ("clock", "pu_", ["timetools.c", "systimetools.c"], ["-DBUILD_LIBPUTILS"]),
    ("random", "mu_", ["random.c"], ["-include", VERIF + "/stub/nothreadlocal.h"]),
]


def variant_objs(prefix, names, flags, work, symmap, warn):
    d = os.path.join(work, prefix)
    os.makedirs(d, exist_ok=True)
    objs, syms = [], set()
    try:
        for n in names:
            src, o = os.path.join(REPO, "src", n), os.path.join(d, n + ".o")
            run(["gcc"] + LIBFLAGS + flags + ["-I", REPO + "/include", "-I", VERIF + "/stub", "-c", src, "-o", o])
            objs.append(o)
        for l in run(["nm", "--defined-only", "--extern-only"] + objs).splitlines():
            p = l.split()
            if len(p) == 3:
                syms.add(p[2])
        m = os.path.join(d, "map.txt")
        with open(m, "w") as f:
            for l in open(symmap):
                if l.split()[0] not in syms:
                    f.write(l)
            for s in sorted(syms):
                f.write("%s %s%s\n" % (s, prefix, s))
        res = []
        for o in objs:
            o2 = o[:-2] + ".r.o"
            run(["objcopy", "--redefine-syms=" + m, "--set-section-flags", ".bss=alloc,load,data,contents",
                 "--rename-section", ".data=simdata", "--rename-section", ".bss=simbss", o, o2])
            res.append(o2)
        return res
    except (BuildError, OSError) as e:
        warn.append("%s: %s" % (prefix, str(e)[-300:]))
        return []


def lib_obj(src, work, symmap):
    o = os.path.join(work, os.path.basename(src) + ".o")
    run(["gcc"] + LIBFLAGS + ["-I", REPO + "/include", "-I", VERIF + "/stub", "-c", src, "-o", o])
    o2 = o[:-2] + ".r.o"
    run(["objcopy", "--redefine-syms=" + symmap,
         "--set-section-flags", ".bss=alloc,load,data,contents",
         "--rename-section", ".data=simdata", "--rename-section", ".bss=simbss", o, o2])
    return o2


CXXFLAGS = [f for f in LIBFLAGS if not f.startswith("-std")] + ["-std=gnu++17", "-include", VERIF + "/stub/cxxpre.h"]


def cxx_obj(srcs, work, symmap, keep):
    """the C++ sources as one object whose template instances are its own"""
    objs = []
    for src in srcs:
        o = os.path.join(work, os.path.basename(src) + ".o")
        run(["g++"] + CXXFLAGS + ["-I", REPO + "/include", "-I", VERIF + "/stub", "-c", src, "-o", o])
        objs.append(o)
    one, two = os.path.join(work, "cxx.o"), os.path.join(work, "cxx.r.o")
    run(["ld", "-r", "--force-group-allocation", "-o", one] + objs)
    args = []
    for k in keep:
        args += ["--keep-global-symbol=" + k]
    # one data section each: relocatable linking keeps the names apart
    secs = set(re.findall(r"\s(\.(?:data|bss)\S*)\s", run(["objdump", "-h", one])))
    for x in sorted(secs):
        if x.startswith(".data.rel.ro"):
            continue
        args += ["--set-section-flags", x + "=alloc,load,data,contents"] if x.startswith(".bss") else []
        args += ["--rename-section", "%s=%s" % (x, "simbss" if x.startswith(".bss") else "simdata")]
    run(["objcopy", "--redefine-syms=" + symmap] + args + [one, two])
    return two


def build(work, groups):
    """groups: scenario file stems. Returns path of the binary."""
    skipped = []
    cache = os.path.join(VERIF, "build", "cache")
    os.makedirs(cache, exist_ok=True)
    hs = [VERIF + "/sim/" + f for f in ("core.cpp", "sync.cpp", "io.cpp", "main.cpp")]
    hs += [VERIF + "/scen/%s.cpp" % g for g in groups]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: harness_obj(s, cache), hs))
        syms = set()
        for l in run(["nm", "--defined-only"] + objs[:3]).splitlines():
            m = re.match(r"\S+ [TW] sim_(\w+)$", l)
            if m:
                syms.add(m.group(1))
        symmap = os.path.join(work, "symmap.txt")
        with open(symmap, "w") as f:
            m = {s: "sim_" + s for s in syms}
            asm = ".text\n"
            for l in open(VERIF + "/sim/aliases.txt"):
                a, b = l.split()
                if a in m:
                    continue
                m[a] = "sim_" + a
                asm += ".globl sim_%s\nsim_%s: jmp %s\n" % (a, a, b)
            asm += '.section .note.GNU-stack,"",@progbits\n'
            for a in sorted(m):
                f.write("%s %s\n" % (a, m[a]))
        with open(work + "/aliases.s", "w") as f:
            f.write(asm)
        run(["gcc", "-c", work + "/aliases.s", "-o", work + "/aliases.o"])
        srcs = sorted(glob.glob(REPO + "/src/*.c"))
        if "queue" in groups:
            srcs.append(VERIF + "/probe/listprobe.c")
        if "text" in groups:
            srcs.append(VERIF + "/probe/macroprobe.c")
        if "random" in groups:
            srcs.append(VERIF + "/probe/randinl.c")
        lobjs = list(ex.map(lambda s: lib_obj(s, work, symmap), srcs))
        if "text" in groups:
            lobjs.append(cxx_obj(sorted(glob.glob(REPO + "/src/*.cpp")) + [VERIF + "/probe/textprobe.cpp"], work, symmap, ["textprobe"]))
        for g, prefix, names, flags in VARIANTS:
            if g in groups:
                lobjs += variant_objs(prefix, names, flags, work, symmap, skipped)
    und = set()
    for l in run(["nm", "--undefined-only"] + lobjs).splitlines():
        m = re.match(r"\s+[Uw] (\S+)", l)
        if m:
            und.add(m.group(1))
    exe = os.path.join(work, "dst")
    run(["g++", "-no-pie", "-o", exe] + objs + lobjs + [work + "/aliases.o"] + ["-lpthread"])
    real = sorted(u for u in und if not u.startswith(("sim_", "__tsan", "verif_")))
    defined = set()
    for l in run(["nm", "--defined-only"] + lobjs).splitlines():
        p = l.split()
        if len(p) == 3:
            defined.add(p[2])
    for x in skipped:
        print("note: build variant left out, " + x, file=sys.stderr)
    return exe, [r for r in real if r not in defined]
