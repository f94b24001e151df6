#!/usr/bin/env python3
"""Development aid, not a check: mutates /repo/src files in a scratch directory
and reports which mutants the property checks kill.
mutate.py OUT.json FILE[:PROP,PROP...] ... [--sample=N] [--scale=F] [--ops=static|struct] [--op=NAME,NAME] [--skip=REGEX]"""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vbuild
from plan import PLAN
PROPS = {"dynmbox": "C06 C07 C08 C22 C23", "mbox": "C09 C10 C22 C23", "fdutils": "C23 C22", "fs": "C16 C22", "hash": "C17 C22",
         "inotify": "C15 C22 C23", "random": "C11 C12 C13 C14 C22", "safew": "C01 C02 C03 C04 C22", "string": "C28 C22", "varint": "C25",
         "synctools": "C05 C22", "systimetools": "C18 C20 C27", "timetools": "C26 C19 C20 C21 C08 C10",
         "list.h": "C24", "futils.h": "C30", "fs.cpp": "C29", "string.cpp": "C29"}
args = [a for a in sys.argv[2:] if not a.startswith("--")]
opt = {a.split("=")[0]: a.split("=")[1] for a in sys.argv[2:] if a.startswith("--")}
scale = float(opt.get("--scale", "1"))
W = "/tmp/mut/work-%d" % os.getpid()
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
exe, _ = vbuild.build(W, sorted({g for p in PLAN.values() for g in p[0]}))
symmap = W + "/symmap.txt"
cache = vbuild.VERIF + "/build/cache"
hobjs = [vbuild.harness_obj(vbuild.VERIF + "/sim/" + f, cache) for f in ("core.cpp", "sync.cpp", "io.cpp", "main.cpp")]
hobjs += [vbuild.harness_obj(vbuild.VERIF + "/scen/%s.cpp" % g, cache) for g in sorted({g for p in PLAN.values() for g in p[0]})]

PROBE = {"list.h": "listprobe.c", "futils.h": "macroprobe.c"}
def objname(name):
    return "cxx.r.o" if name.endswith(".cpp") else PROBE[name] + ".r.o" if name in PROBE else name + ".c.r.o"

def static_locals(src):
    """every local variable kept in static storage: instances and threads share it"""
    lines = open(src).read().split("\n")
    res = []
    for i, l in enumerate(lines):
        m = re.match(r"(\t+)((?:const |unsigned |struct |signed |long )*[a-zA-Z_]\w*)( \**| )([\w\[\]*, +\d]+?)( __attr\w+\(.*\))?( = [^{]*)?;$", l)
        if not m or m.group(2).split()[0] in ("return", "static", "goto", "extern", "typedef", "else", "case", "break", "continue", "const"): continue
        ind, ty, sp, names, att, init = m.groups()
        if any(re.match(r"(struct|typedef|union)\b", x) for x in lines[max(0, i - 1):i]): continue
        if init and "," in names: continue
        n = re.sub(r"\[.*", "", names)
        for vol in (True, False):
            decl = "%sstatic %s%s%s%s%s;" % (ind, "volatile " if vol and "*" not in sp else "", ty, sp, ("volatile " if vol and "*" in sp else "") + names, att or "")
            nl = decl + (" %s%s;" % (n, init) if init else "")
            t = lines[:]
            t[i] = nl
            res.append((i + 1, l.strip(), nl.strip(), "static", "\n".join(t)))
            break
    return res

KEYW = set("if else while for do return switch case default break continue goto sizeof static const unsigned signed struct union enum int char long short void size_t ssize_t bool NULL true false errno inline volatile extern".split())

def structural(src):
    """statements exchanged or repeated, other variables, members, labels and
    arguments, narrower types, casts dropped, critical sections removed"""
    lines = open(src).read().split("\n")
    n = len(lines)
    # functions: from a line "{" in column 0 to "}" in column 0
    fn, start = [None] * n, None
    for i, l in enumerate(lines):
        if l.startswith("{") or (re.match(r"[a-zA-Z].*\)? ?\{$", l) and not re.match(r"(struct|enum|static const|union|typedef|const|namespace)\b", l)): start = i
        if start is not None: fn[i] = start
        if l.startswith("}"): start = None
    com, incom = [False] * n, False
    for i, l in enumerate(lines):
        t = l.strip()
        if t.startswith("/*"): incom = True
        com[i] = incom or t.startswith(("//", "#", "*")) or not t
        if "*/" in t: incom = False
    body = {}
    for i in range(n):
        if fn[i] is not None: body.setdefault(fn[i], []).append(i)
    res, seen = [], set()
    def emit(i, t, op, new):
        k = "\n".join(t)
        if k in seen: return
        seen.add(k)
        res.append((i + 1, lines[i].strip(), new, op, k))
    def put(i, new, op):
        t = lines[:]
        t[i] = new
        emit(i, t, op, new.strip())
    simple = lambda i: fn[i] is not None and not com[i] and lines[i].strip().endswith(";") and "ULOG" not in lines[i] and not lines[i].strip().startswith(("}", "return", "goto", "break", "continue")) and lines[i].count("(") == lines[i].count(")") and re.match(r"\t+[\w*(]", lines[i])
    ind = lambda i: len(lines[i]) - len(lines[i].lstrip("\t"))
    for f, L in body.items():
        labels = [m.group(1) for i in L for m in [re.match(r"(\w+):$", lines[i].strip())] if m and m.group(1) != "default"]
        text = "\n".join(re.sub(r'"(\\.|[^"])*"', '""', lines[i]) for i in L if not com[i])
        head = "\n".join(lines[max(0, L[0] - 6):L[0]])
        ids = set(re.findall(r"(?<![.>\w])([a-z_]\w*)(?!\w|\s*\()", text)) - KEYW
        decl = {x for x in ids if re.search(r"(^|[\t(, *])" + x + r"( = |;|,|\)|\[)", text + head) }
        members = {}
        for b, m in re.findall(r"(\w+(?:->|\.))(\w+)(?!\w|\s*\()", text): members.setdefault(b, set()).add(m)
        for i in L:
            l = lines[i]
            if com[i] or "ULOG" in l: continue
            code = re.sub(r'"(\\.|[^"])*"', lambda m: '"' + "_" * (len(m.group(0)) - 2) + '"', l)
            if simple(i):
                j = i + 1
                while j < n and com[j] and fn[j] == f: j += 1
                if j < n and fn[j] == f and simple(j) and ind(j) == ind(i):
                    t = lines[:]
                    t[i], t[j] = t[j], t[i]
                    emit(i, t, "swap", lines[j].strip() + " <-> " + l.strip())
                if not re.match(r"\t+[\w ]+ \**\w+( = .*)?;$", l) or "(" in l: put(i, l + " " + l.strip(), "repeat")
            m = re.match(r"(\s*goto )(\w+);", l)
            if m:
                for x in labels:
                    if x != m.group(2): put(i, m.group(1) + x + ";", "label")
            for m in re.finditer(r"(?<![.>\w])([a-z_]\w*)(?!\w|\s*\()", code):
                if m.group(1) not in decl or re.match(r"\t(?:const |unsigned |struct )*\w+ \**%s[ ;,=\[]" % m.group(1), l): continue
                for x in sorted(decl - {m.group(1)})[:8]: put(i, l[:m.start()] + x + l[m.end():], "var")
            for m in re.finditer(r"(\w+(?:->|\.))(\w+)(?!\w|\s*\()", code):
                for x in sorted(members[m.group(1)] - {m.group(2)}): put(i, l[:m.start(2)] + x + l[m.end(2):], "member")
            for m in re.finditer(r"\b(u?int64_t|u?int32_t|size_t|ssize_t|off_t|int|unsigned int|unsigned|time_t)\b", code):
                for x in {"uint64_t": ["uint32_t", "int64_t"], "int64_t": ["int32_t"], "uint32_t": ["uint16_t", "int32_t"], "int32_t": ["int16_t"], "size_t": ["uint16_t", "int"], "ssize_t": ["int16_t", "size_t"], "off_t": ["int"], "int": ["int8_t", "unsigned"], "unsigned": ["uint8_t"], "unsigned int": ["uint8_t"], "time_t": ["int32_t"]}.get(m.group(1), []):
                    put(i, l[:m.start()] + x + l[m.end():], "narrow")
            for m in re.finditer(r"\((?:const |unsigned |struct )?\w+ ?\**\)(?=[\w(*&])", code):
                if m.start() and not re.match(r"[\w)]", code[m.start() - 1]): put(i, l[:m.start()] + l[m.end():], "cast")
            for m in re.finditer(r"(?<=\w)\(([^()]*,[^()]*)\)", code):
                a = l[m.start(1):m.end(1)].split(",")
                if len(a) > 6 or '"' in m.group(1): continue
                for k in range(len(a) - 1):
                    b = a[:]
                    b[k], b[k + 1] = b[k + 1], b[k]
                    put(i, l[:m.start(1)] + ",".join(x if not q else " " + x.strip() for q, x in enumerate(b)) + l[m.end(1):], "args")
            m = re.search(r"pthread_\w+_lock\(|\.lock\(", l)
            if m:
                t = lines[:]
                for k in L:
                    if re.search(r"pthread_\w+_(un)?lock\(", lines[k]) and not re.search(r"cond", lines[k]): t[k] = re.sub(r"pthread_\w+_(un)?lock\([^;]*\)", "0", lines[k])
                emit(i, t, "nolock", "the locks of this function removed")
    return res

def mutants(src):
    if opt.get("--ops") == "static": return static_locals(src)
    if opt.get("--ops") == "struct": return structural(src)
    text = open(src).read()
    lines = text.split("\n")
    out = []
    incom = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): incom = True
        c = incom
        if "*/" in s: incom = False
        if c or s.startswith(("#", "*", "//", "ULOG", "__attribute__")) or not s: continue
        def add(pos, end, new, op): out.append((i, l[:pos] + new + l[end:], op))
        code = re.sub(r'"(\\.|[^"])*"', lambda m: '"' + "_" * (len(m.group(0)) - 2) + '"', l)
        for m in re.finditer(r"(<=|>=|==|!=|&&|\|\||<<|>>|->|\+\+|--|\+=|-=|\|=|&=|<|>|\+|-|\*|/|%|\||&|!|~)", code):
            t = m.group(1)
            R = {"<=": ["<"], ">=": [">"], "<": ["<="], ">": [">="], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "<<": [">>"], ">>": ["<<"],
                 "+": ["-"], "-": ["+"], "|": ["&"], "&": ["|"], "+=": ["-=", "="], "-=": ["+=", "="], "|=": ["="], "&=": ["="], "++": ["--"], "/": ["*"], "%": ["/"], "*": ["+"], "!": [""], "~": [""]}
            for r in R.get(t, []): add(m.start(), m.end(), r, t + "->" + r)
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])", code):
            v = int(m.group(1), 0)
            add(m.start(), m.end(), str(v + 1), "const+1")
            if v > 1: add(m.start(), m.end(), str(v - 1), "const-1")
        m = re.match(r"(\s*(?:\} else )?(?:if|while) \()(.*)(\) ?\{?)$", l)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            for r in ("0", "1"): out.append((i, m.group(1) + r + m.group(3), "cond=" + r))
        if s.endswith(";") and not re.match(r"(return|goto|break|continue|static|const|struct|u?int|size_t|ssize_t|char|FILE|void|unsigned|long|DIR|time_t|bool|double|float|iconv_t|wchar_t)\b", s):
            j = i
            if re.match(r"[\w>.\[\]()*-]+( =|\(| \+=| -=| \|=|\+\+|--|;)|free|\(void\)", s): out.append((i, "\t;", "delete"))
        m = re.match(r"(\s*return )(.+);$", l)
        if m and m.group(2) not in ("0",): out.append((i, m.group(1) + "0;", "return 0"))
        if re.match(r"\s*(break|continue);$", l): out.append((i, "\t;", "delete"))
    res = []
    for i, nl, op in out:
        t = lines[:]
        t[i] = nl
        res.append((i + 1, lines[i].strip(), nl.strip(), op, "\n".join(t)))
    return res

def compile_(srctext, name, d):
    os.makedirs(d, exist_ok=True)
    if name.endswith(".cpp"):
        f = os.path.join(d, name)
        open(f, "w").write(srctext)
        try: return vbuild.cxx_obj([f if os.path.basename(x) == name else x for x in sorted(glob.glob(vbuild.REPO + "/src/*.cpp")) + [vbuild.VERIF + "/probe/textprobe.cpp"]], d, symmap, ["textprobe"])
        except vbuild.BuildError: return None
    if name.endswith(".h"):
        os.makedirs(d + "/inc/futils", exist_ok=True)
        open(d + "/inc/futils/" + name, "w").write(srctext)
        probe = PROBE[name]
        o = os.path.join(d, probe + ".o")
        p = subprocess.run(["gcc"] + [x for x in vbuild.LIBFLAGS if x != "-g"] + ["-I", d + "/inc", "-I", vbuild.REPO + "/include", "-I", vbuild.VERIF + "/stub", "-c", vbuild.VERIF + "/probe/" + probe, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: return None
        subprocess.run(["objcopy", "--redefine-syms=" + symmap, "--set-section-flags", ".bss=alloc,load,data,contents", "--rename-section", ".data=simdata", "--rename-section", ".bss=simbss", o, o + "2"], check=True)
        return o + "2"
    f = os.path.join(d, name + ".c")
    open(f, "w").write(srctext)
    o = os.path.join(d, name + ".o")
    flags = [x for x in vbuild.LIBFLAGS if x != "-g"]
    p = subprocess.run(["gcc"] + flags + ["-Werror=implicit-function-declaration", "-Werror=int-conversion", "-Werror=incompatible-pointer-types", "-I", vbuild.REPO + "/src", "-I", vbuild.REPO + "/include", "-I", vbuild.VERIF + "/stub", "-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: return None
    subprocess.run(["objcopy", "--redefine-syms=" + symmap, "--set-section-flags", ".bss=alloc,load,data,contents", "--rename-section", ".data=simdata", "--rename-section", ".bss=simbss", o, o + "2"], check=True)
    return o + "2"
def digest(o):
    return hashlib.sha256(subprocess.run(["objdump", "-d", "-r", "-s", "-j", ".text", "-j", ".rodata", "-j", "simdata", o], stdout=subprocess.PIPE).stdout.split(b"\n", 3)[-1]).hexdigest()
jobs = []
rnd = random.Random(int(opt.get("--rseed", "5")))
for a in args:
    name, _, pr = a.partition(":")
    src = vbuild.REPO + ("/include/futils/" + name if name.endswith(".h") else "/src/" + name if name.endswith(".cpp") else "/src/%s.c" % name)
    base = digest(compile_(open(src).read(), name, W + "/base-" + name))
    ms = mutants(src)
    if "--skip" in opt: ms = [m for m in ms if not re.search(opt["--skip"], m[1])]
    if "--op" in opt: ms = [m for m in ms if m[3] in opt["--op"].split(",")]
    if "--sample" in opt: rnd.shuffle(ms); ms = ms[:int(opt["--sample"])]
    for k, m in enumerate(ms): jobs.append((name, pr.split(",") if pr else PROPS[name].split(), k, m, base))
print(len(jobs), "mutants")
seen = set()
results = []
def one(j):
    name, props, k, (ln, old, new, op, text), base = j
    d = W + "/%s-%d" % (name, k)
    try:
        o = compile_(text, name, d)
        if not o: return None
        g = digest(o)
        if g == base or (name, g) in seen: return None
        seen.add((name, g))
        lib = [o if os.path.basename(x) == objname(name) else x for x in sorted(glob.glob(W + "/*.r.o"))]
        ex = d + "/dst"
        p = subprocess.run(["g++", "-no-pie", "-o", ex] + hobjs + lib + [W + "/aliases.o", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: return None
        r = {"file": name, "line": ln, "old": old, "new": new, "op": op, "killed": None, "by": ""}
        for pr in props:
            os.mkdir(d + "/out")
            try: p = subprocess.run([ex, "batch", pr, "1", str(max(100, int(PLAN[pr][1] * scale))), "1", "120", d + "/out"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            except subprocess.TimeoutExpired: r["killed"] = pr + "(timeout)"; break
            vi = sorted(glob.glob(d + "/out/viol-*"))
            if p.returncode == 1 and vi:
                r["killed"] = pr
                for l in open(vi[0], errors="replace"):
                    if l.startswith("kind"): r["by"] = l[5:].strip()
                break
            if p.returncode not in (0,): r["killed"] = pr + "(rc %d)" % p.returncode; r["by"] = p.stdout.decode(errors="replace")[-300:]; break
            shutil.rmtree(d + "/out")
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(one, jobs):
        if r:
            results.append(r)
            if not r["killed"] or "(" in r["killed"]: print("%s:%d %s [%s]  =>  %s   %s %s" % (r["file"], r["line"], r["op"], r["old"], r["new"], r["killed"] or "SURVIVED", r["by"][:100]), flush=True)
            json.dump(results, open(sys.argv[1], "w"), indent=0)
print("mutants %d killed %d" % (len(results), sum(1 for r in results if r["killed"])))
