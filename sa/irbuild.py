"""Lower /repo's *current* sources to LLVM IR (clang -O0, then mem2reg) for analysis.

Nothing of the project is executed.  The IR is written to a private scratch
directory that is removed when the process ends.
"""
import os, sys, subprocess, tempfile, shutil, atexit, glob, re
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("FERRET_REPO", "/repo")

class AnalysisBroken(Exception):
    """The analysis itself cannot give an answer (exit code 2)."""

def tool(name):
    for p in ("/usr/bin/%s" % name, "/usr/lib/llvm-18/bin/%s" % name):
        if os.path.exists(p):
            return p
    p = shutil.which(name)
    if not p:
        raise AnalysisBroken("tool not found: " + name)
    return p

CFLAGS = ["-std=c99", "-g", "-O0", "-Xclang", "-disable-O0-optnone", "-Xclang", "-disable-llvm-passes", "-w",
          "-fno-discard-value-names",
          "-DBZ_NO_STDIO", "-D_FILE_OFFSET_BITS=64", "-DDEBUG",
          "-D_POSIX_C_SOURCE=2", "-DHAVE_GDB"]

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="ferret-sa-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch

def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))

def _lower(job):
    src, out, flags, cwd = job
    raw = out + ".raw.ll"
    _run([tool("clang")] + flags + ["-S", "-emit-llvm", src, "-o", raw], cwd=cwd)
    _run([tool("opt"), "-S", "-passes=mem2reg", raw, "-o", out])
    _raw[os.path.abspath(src)] = raw
    return src, out

def inline(ll):
    """the module with every static function that is only called directly inlined into its callers
    (helpers disappear, so what a rule sees does not depend on how code is split up)"""
    t = open(ll).read()
    t = re.sub(r'(attributes #\d+ = \{[^}]*?) noinline', r'\1', t)
    internal = set(re.findall(r'^define internal [^@\n]*@([\w.$]+)\(', t, re.M))
    taken = set()
    for line in t.split("\n"):
        if "@" not in line or line.startswith("define"): continue
        m0 = re.search(r'\bcall\b[^@(]*@([\w.$]+)\(', line)
        names = re.findall(r'@([\w.$]+)', line)
        if m0: names.remove(m0.group(1))
        taken.update(n for n in names if n in internal)
    t = re.sub(r'^(define internal [^@\n]*@([\w.$]+)\(.*\)) (#\d+)',
               lambda m: m.group(0) if m.group(2) in taken else m.group(1) + " alwaysinline " + m.group(3), t, flags=re.M)
    # addresses of first members are all-zero steps, which the inliner would fold away together with
    # the type: carry them through as marker calls
    allocas = {}
    out = []; cur = set(); used = set()
    for line in t.split("\n"):
        if line.startswith("define"): cur = set()
        m = re.match(r'\s+(%\S+) = alloca ', line)
        if m: cur.add(m.group(1))
        m = re.match(r'(\s+%\S+ = )getelementptr inbounds (%(?:struct|"struct)[^,]*), ptr (%[\w.$\-]+)((?:, i32 0)+)(, !dbg .*)?$', line)
        if m and m.group(3) not in cur:
            nm = "sa.f0.%d.%s" % (m.group(4).count("i32"), m.group(2)[1:].strip('"'))
            used.add(nm)
            line = '%scall ptr @"%s"(ptr %s)%s' % (m.group(1), nm, m.group(3), m.group(5) or "")
        out.append(line)
    t = "\n".join(out) + "\n" + "".join('declare ptr @"%s"(ptr) nounwind willreturn memory(none)\n' % n for n in sorted(used))
    a, b = ll + ".a.ll", ll + ".inl.ll"
    open(a, "w").write(t)
    _run([tool("opt"), "-S", "-passes=always-inline,function(mem2reg,sroa)", a, "-o", b])
    t = open(b).read()
    t = re.sub(r'(?:tail )?call ptr @"?sa\.f0\.(\d+)\.([\w.$]+)"?\(ptr (%[\w.$\-]+)\)(?: #\d+)?',
               lambda m: "getelementptr inbounds %%%s, ptr %s%s" % (m.group(2), m.group(3), ", i32 0" * int(m.group(1))), t)
    open(b, "w").write(t)
    os.remove(a)
    return b

_raw = {}
def build_raw(srcs):
    """the IR of the same compilation before promotion of locals to registers"""
    out = []
    for s in srcs:
        r = _raw.get(os.path.abspath(s))
        if r is None: r = next((v for k, v in _raw.items() if os.path.basename(k) == os.path.basename(s)), None)
        if r is None: raise AnalysisBroken("no unpromoted IR for " + s)
        out.append((s, r))
    return out

def core_sources():
    c = os.path.join(REPO, "c")
    return sorted(glob.glob(os.path.join(c, "src", "*.c")))

def build_core():
    c = os.path.join(REPO, "c")
    srcs = core_sources()
    if len(srcs) < 10:
        raise AnalysisBroken("no C sources under %s/src" % c)
    d = os.path.join(scratch(), "core"); os.makedirs(d, exist_ok=True)
    flags = CFLAGS + ["-Iinclude", "-Ilib/libstemmer_c/include", "-Ilib/bzlib"]
    jobs = [(s, os.path.join(d, os.path.basename(s) + ".ll"), flags, c) for s in srcs]
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(_lower, jobs))

def build_ruby():
    """ruby/ext/*.c, against ruby's headers, with the include layout its Rakefile makes."""
    e = os.path.join(REPO, "ruby", "ext")
    d = os.path.join(scratch(), "ruby"); os.makedirs(d, exist_ok=True)
    inc = os.path.join(d, "inc"); os.makedirs(inc, exist_ok=True)
    # the Rakefile links c/include, c/src, lib headers next to the extension's own files
    for pat in ("c/include/*.h", "c/lib/libstemmer_c/include/*.h", "c/lib/bzlib/*.h"):
        for f in glob.glob(os.path.join(REPO, pat)):
            shutil.copy(f, inc)
    for f in glob.glob(os.path.join(e, "*.h")):
        shutil.copy(f, inc)
    il = os.path.join(inc, "internal.h")
    txt = open(os.path.join(REPO, "c/include/internal.h")).read().splitlines(True)
    with open(il, "w") as f:
        for l in txt:
            if "ALLOC" in l and not re.search(r"ZERO|MP_", l):
                continue
            f.write(l)
    compat = os.path.join(d, "compat.h")
    with open(compat, "w") as f:
        f.write("#include <ruby.h>\n#undef bool\n")
    hdr = sorted(glob.glob("/usr/include/ruby-3*"))
    arch = sorted(glob.glob("/usr/include/*/ruby-3*"))
    if not hdr or not arch:
        raise AnalysisBroken("ruby headers not installed")
    flags = ["-g", "-O0", "-Xclang", "-disable-O0-optnone", "-Xclang", "-disable-llvm-passes", "-w", "-fno-discard-value-names",
             "-D_FILE_OFFSET_BITS=64", "-Wno-incompatible-function-pointer-types", "-Wno-int-conversion",
             "-Wno-implicit-function-declaration",
             "-D_XOPEN_SOURCE=500", "-include", compat, "-I" + inc, "-I" + arch[-1],
             "-I" + hdr[-1] + "/ruby/backward", "-I" + hdr[-1]]
    jobs = []
    for s in sorted(glob.glob(os.path.join(e, "*.c"))):
        # the extension's own copies of headers win because they sit in inc; compile a copy so
        # that quotes-includes resolve there and not in /repo
        cp = os.path.join(inc, os.path.basename(s)); shutil.copy(s, cp)
        jobs.append((cp, os.path.join(d, os.path.basename(s) + ".ll"), flags, inc))
    if len(jobs) < 4:
        raise AnalysisBroken("no ruby extension sources")
    with ThreadPoolExecutor(8) as ex:
        out = list(ex.map(_lower, jobs))
    return [(os.path.join(e, os.path.basename(s)), ll) for s, ll in out]

if __name__ == "__main__":
    import time
    t = time.time()
    a = build_core(); print(len(a), time.time() - t)
    b = build_ruby(); print(len(b), time.time() - t)
    print(sum(os.path.getsize(x[1]) for x in a + b))
