"""Builds harness binaries from /repo's working tree into /verif/_build with ninja.

Own build files: nothing of /opt/vp is used.  HEIR's tablegen outputs are taken from
the gentbl_cc_library rules of /repo's BUILD files.
"""
import builtins, fcntl, fnmatch, json, os, re, subprocess, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import overlay

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-20"
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "_build"))


class _Stub:
    def __getattr__(self, n): return _Stub()
    def __call__(self, *a, **k): return None


def load_build(path):
    pkg = os.path.dirname(path)
    out = []

    class Native:
        def __getattr__(self, k): return env[k]

    class Env(dict):
        def __missing__(self, k):
            if hasattr(builtins, k):
                return getattr(builtins, k)
            if k == "native":
                return Native()
            if re.match(r"[A-Z_]+$", k):
                raise KeyError(k)
            return lambda *a, **kw: out.append((pkg, k, kw))

    def glob(pats, exclude=(), **k):
        r = [f for f in os.listdir(os.path.join(REPO, pkg)) if any(fnmatch.fnmatch(f, p) for p in pats)]
        return sorted(f for f in r if not any(fnmatch.fnmatch(f, p) for p in exclude))

    env = Env(glob=glob, select=lambda d, **k: d.get("//conditions:default", []), Label=lambda x: x,
              package=lambda **k: None, exports_files=lambda *a, **k: None, licenses=lambda *a, **k: None,
              struct=_Stub(), fail=lambda *a: None)

    def load(label, *names, **kw):
        m = re.match(r"(?:@heir)?//([^:]*):(.*\.bzl)$", label)
        if m:
            exec(compile(open(os.path.join(REPO, m[1], m[2])).read(), label, "exec"), env)

    env["load"] = load
    exec(compile(open(os.path.join(REPO, path)).read(), path, "exec"), env)
    return out


def tblgen_outputs():
    res = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "lib"))):
        f = next((x for x in ("BUILD", "BUILD.bazel") if x in fs), None)
        if not f:
            continue
        for pkg, kind, kw in load_build(os.path.relpath(os.path.join(d, f), REPO)):
            if kind != "gentbl_cc_library":
                continue
            td = kw["td_file"]
            td = td.removeprefix("@heir").removeprefix("//").replace(":", "/") if "//" in td else pkg + "/" + td.lstrip(":")
            outs = kw["tbl_outs"]
            for opts, out in [(v, k) for k, v in outs.items()] if isinstance(outs, dict) else outs:
                if out.endswith(".inc"):
                    res.append((f"{pkg}/{out}", td, " ".join(opts), "heir-tblgen" in kw["tblgen"]))
    return sorted(set(res))


def shim():
    """HEIR includes LLVM as "llvm/include/llvm/...": map those paths to the installed tree."""
    for d, target in (("llvm/include", f"{LLVM}/include"), ("mlir/include", f"{LLVM}/include"),
                      ("include/isl", "/usr/include/isl")):
        p = os.path.join(BUILD, "shim", d)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.islink(p):
            os.symlink(target, p)


# Sources that need a dependency that is not installed (OR-tools, Yosys, OpenFHE's headers, newer MLIR dialects).
UNBUILDABLE = {"lib/Analysis/ILPBootstrapPlacementAnalysis/ILPBootstrapPlacementAnalysis.cpp",
               "lib/Analysis/OptimizeRelinearizationAnalysis/OptimizeRelinearizationAnalysis.cpp",
               "lib/Dialect/Openfhe/Conversions/OpenFHEToEmitC/OpenfheToEmitCDialectInterface.cpp",
               "lib/Dialect/Openfhe/Transforms/ConfigureCryptoContext.cpp", "lib/Dialect/CKKS/Transforms/DecomposeRelinearize.cpp"}
INCLUDE = re.compile(r'^\s*#include\s+"(lib/[^"]+)"', re.M)


def closure(roots, exclude=()):
    """Sources reachable from roots by taking X.cpp with every included X.h; and the generated files they include."""
    seen, srcs, incs, todo = set(), [], set(), list(roots)
    while todo:
        f = todo.pop()
        if f in seen or f in exclude or f in UNBUILDABLE:
            continue
        seen.add(f)
        if f.endswith(".inc"):
            incs.add(f)
        p = f if f.startswith("/") else os.path.join(REPO, f)
        if not os.path.exists(p):
            continue
        if f.endswith(".cpp"):
            srcs.append(f)
        for i in INCLUDE.findall(open(p).read()):
            todo.append(i)
            if i.endswith(".h") and os.path.exists(os.path.join(REPO, i[:-2] + ".cpp")):
                todo.append(i[:-2] + ".cpp")
    return sorted(srcs), incs


HEADER = """ninja_required_version = 1.8
builddir = {B}
repo = {R}
flags = -std=c++20 -w -D_GLIBCXX_ASSERTIONS -I{R} -I{B}/gen -I{V}/lib -isystem {B}/shim -isystem {L}/include -isystem /usr/include/eigen3
ovflags = -std=c++20 -w -D_GLIBCXX_ASSERTIONS -I{V}/compat -include prelude.h -I{R} -I{B}/ovgen -I{V}/lib -isystem {B}/ov -isystem {B}/ov/mlir/include -isystem {B}/shim -isystem {L}/include -isystem /usr/include/eigen3
rule ovcxx
  command = {L}/bin/clang++ $opt $pre $ovflags -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CXX $in
rule ovtblgen
  command = $tool $opts -I{B}/ov -I{R} -I$dir -I{L}/include $in -d $out.d -o $out
  depfile = $out.d
  deps = gcc
rule cxx
  command = {L}/bin/clang++ $opt $pre $flags -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CXX $in
rule link
  command = {L}/bin/clang++ $opt $in -fuse-ld=lld -L{L}/lib -Wl,-rpath,{L}/lib $libs -o $out
rule tblgen
  command = $tool $opts -I{R} -I$dir -I{L}/include $in -d $out.d -o $out
  depfile = $out.d
  deps = gcc
"""


def ninja_text(targets):
    """targets: {name: dict(harness=[...], srcs=[...], gens=[prefix...], libs=str, opt=str, pre=str)}"""
    out = [HEADER.format(B=BUILD, R=REPO, V=VERIF, L=LLVM)]
    tb = tblgen_outputs()
    need_tool = False
    groups = {}
    for o, td, opts, heir in tb:
        tool = f"{BUILD}/bin/heir-tblgen" if heir else f"{LLVM}/bin/mlir-tblgen"
        out.append(f"build {BUILD}/gen/{o}: tblgen {REPO}/{td} | {tool}\n  tool = {tool}\n  opts = {opts}\n  dir = {REPO}/{os.path.dirname(td)}")
        out.append(f"build {BUILD}/ovgen/{o}: ovtblgen {REPO}/{td} | {tool}\n  tool = {tool}\n  opts = {opts}\n  dir = {REPO}/{os.path.dirname(td)}")
        groups.setdefault(os.path.dirname(o), []).append(o)
    tsrc = ["lib/Tablegen/CompilationTargetEmitter.cpp", "lib/Tablegen/TablegenMain.cpp"]
    for s in tsrc:
        out.append(f"build {BUILD}/obj/tblgen/{s}.o: cxx {REPO}/{s}\n  opt = -O1")
    out.append(f"build {BUILD}/bin/heir-tblgen: link " + " ".join(f"{BUILD}/obj/tblgen/{s}.o" for s in tsrc) + "\n  libs = -lLLVMTableGen -lLLVM-20")
    done = set()
    allgen = {o for o, *_ in tb}
    for name, t in targets.items():
        if t.get("ov"):
            hs = [f"{VERIF}/{h}" for h in t["harness"]]
            srcs, incs = closure(list(t["roots"]) + hs + [f"{VERIF}/lib/{h}" for h in t.get("headers", [])], set(t.get("exclude", ())))
            gens = " ".join(f"{BUILD}/ovgen/{i}" for i in sorted(incs & allgen))
            objs = []
            for s in srcs + [h for h in hs if h not in srcs]:
                o = f"{BUILD}/obj/ov/{s.lstrip('/')}.o"
                objs.append(o)
                if o not in done:
                    done.add(o)
                    out.append(f"build {o}: ovcxx {s if s.startswith('/') else REPO + '/' + s} || {BUILD}/ov.stamp {gens}\n  opt = {'-O1' if s.startswith('/') or s.startswith('lib/Utils') else '-O0'}")
            out.append(f"build {BUILD}/bin/{name}: link " + " ".join(objs) + f"\n  opt = -O1\n  libs = {t.get('libs', '')}")
            continue
        gens = []
        for g in t.get("gens", []):
            for k, v in groups.items():
                if k == g or k.startswith(g + "/"):
                    gens += [f"{BUILD}/gen/{o}" for o in v if not any(o.endswith(x) for x in t.get("skipgens", []))]
        opt, pre = t.get("opt", "-O1"), t.get("pre", "")
        variant = t.get("variant", "d")
        objs = []
        for s in t.get("srcs", []) + t.get("harness", []):
            p = s if s.startswith("/") else (f"{VERIF}/{s}" if s in t.get("harness", []) else f"{REPO}/{s}")
            o = f"{BUILD}/obj/{name}/{s.lstrip('/')}.o"
            objs.append(o)
            if o in done:
                continue
            done.add(o)
            out.append(f"build {o}: cxx {p} || " + " ".join(gens) + f"\n  opt = {opt}\n  pre = {pre}")
        out.append(f"build {BUILD}/bin/{name}: link " + " ".join(objs) + f"\n  opt = {opt}\n  libs = {t.get('libs', '')}")
    return "\n".join(out) + "\n"


def build(targets, names, jobs=None):
    """Build the named targets.  Returns (ok, log)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        shim()
        overlay.write(os.path.join(BUILD, "ov"), LLVM + "/include")
        open(os.path.join(BUILD, "ov.stamp"), "a").close()
        text = ninja_text(targets)
        p = os.path.join(BUILD, "build.ninja")
        if not os.path.exists(p) or open(p).read() != text:
            open(p, "w").write(text)
        r = subprocess.run(["ninja", "-f", p] + (["-j", str(jobs)] if jobs else []) +
                           [f"{BUILD}/bin/{n}" for n in names], cwd=BUILD, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode == 0, r.stdout
