"""Building and loading the resolved program ("facts") of /repo's working tree."""
import hashlib, json, os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ARGOS_REPO", "/repo")
TOOL_DIR = os.path.join(VERIF, "build")
TOOL = os.path.join(TOOL_DIR, "argos_facts")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The checker cannot do its work (vanished anchor, unparsable source...)."""


def build_tool(force=False):
    src = os.path.join(VERIF, "extract", "argos_facts.cpp")
    stamp = os.path.join(TOOL_DIR, "stamp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if not force and os.path.exists(TOOL) and os.path.exists(stamp) \
            and open(stamp).read() == h:
        return TOOL
    os.makedirs(TOOL_DIR, exist_ok=True)
    lib = None
    for cand in (LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libclang-cpp.so",
                 "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18"):
        if os.path.exists(cand):
            lib = cand
            break
    if not lib:
        raise AnalysisBroken("libclang-cpp 18 not found")
    tmp = TOOL + ".%d.tmp" % os.getpid()
    cmd = ["/usr/bin/g++", "-std=c++17", "-O1", "-fno-rtti", "-D_GNU_SOURCE",
           "-I" + LLVM + "/include", src, "-o", tmp, lib,
           "-L" + LLVM + "/lib", "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisBroken("building the fact extractor failed:\n" + r.stdout[-3000:])
    os.replace(tmp, TOOL)
    with open(stamp, "w") as f:
        f.write(h)
    return TOOL


def _cmake_version(repo):
    txt = open(os.path.join(repo, "CMakeLists.txt")).read()
    m = re.search(r"project\s*\([^)]*VERSION\s+([0-9.]+)", txt, re.S | re.I)
    v = (m.group(1) if m else "0.0.0").split(".")
    return (v + ["0", "0", "0"])[:3]


def _version_header(repo, out):
    """ArgosVersion.hpp is generated by the build; regenerate it from its template."""
    src = os.path.join(repo, "src/Argos/ArgosVersion.hpp.in")
    if not os.path.exists(src):
        return
    t = open(src).read()
    v = _cmake_version(repo)
    for i, k in enumerate(("MAJOR", "MINOR", "PATCH")):
        t = re.sub(r"[@$]\{?[A-Za-z_]*VERSION_%s\}?@?" % k, v[i], t)
    t = re.sub(r"[@$]\{?[A-Za-z_]*VERSION\}?@?", ".".join(v), t)
    with open(os.path.join(out, "ArgosVersion.hpp"), "w") as f:
        f.write(t)


def _units(repo):
    d = os.path.join(repo, "src/Argos")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]


def load(program="src", repo=None):
    """program: 'src' (src/ + include/, what the library target builds) or
    'single' (single_src/, what users drop into their project)."""
    repo = repo or REPO
    tool = build_tool()
    work = tempfile.mkdtemp(prefix="argosfacts.")
    try:
        _version_header(repo, work)
        base = ["-std=c++20", "-DNDEBUG", "-w", "-resource-dir", LLVM + "/lib/clang/18"]
        if program == "src":
            units = _units(repo)
            flags = base + ["-I" + repo + "/include", "-I" + work]
        else:
            units = [os.path.join(repo, "single_src/Argos/Argos.cpp")]
            flags = base + ["-I" + repo + "/single_src"]
        if not units or not all(os.path.exists(u) for u in units):
            raise AnalysisBroken("no translation units for program " + program)

        def one(iu):
            i, u = iu
            out = os.path.join(work, "%d.json" % i)
            r = subprocess.run([tool, out, repo + "/", u, "--"] + flags,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               cwd=work)
            if r.returncode or not os.path.exists(out):
                raise AnalysisBroken("cannot analyse %s:\n%s" % (u, r.stdout[-2000:]))
            with open(out) as f:
                return json.load(f)
        with ThreadPoolExecutor(8) as ex:
            tus = list(ex.map(one, enumerate(units)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return Program(program, repo, units, tus)


class Program:
    def __init__(self, name, repo, units, tus):
        self.name, self.repo, self.units = name, repo, units
        self.fns, self.classes, self.enums, self.globals = {}, {}, {}, {}
        for tu in tus:
            for f in tu["functions"]:
                if f["id"] not in self.fns:
                    f["nodes"] = {int(k): v for k, v in f.get("nodes", {}).items()}
                    f["file"] = self.rel(f["file"])
                    self.fns[f["id"]] = f
            for c in tu["classes"]:
                c["file"] = self.rel(c["file"])
                self.classes.setdefault(c["q"], c)
            for e in tu["enums"]:
                self.enums.setdefault(e["q"], [(c["n"], int(c["v"])) for c in e["c"]])
            for g in tu["globals"]:
                self.globals.setdefault(g["q"], g)
        self.by_q = {}
        for f in self.fns.values():
            self.by_q.setdefault(f["q"], []).append(f)
        self.node_count = sum(len(f["nodes"]) for f in self.fns.values())

    def rel(self, p):
        return os.path.relpath(p, self.repo) if p.startswith("/") else p

    def find(self, q, nparams=None, ptypes=None, const=None, required=True):
        """The function(s) named q; ptypes = list of substrings per parameter."""
        r = []
        for f in self.by_q.get(q, []):
            if nparams is not None and len(f["params"]) != nparams:
                continue
            if ptypes is not None:
                if len(f["params"]) != len(ptypes) or not all(
                        s in p["t"] for s, p in zip(ptypes, f["params"])):
                    continue
            if const is not None and bool(f.get("const")) != const:
                continue
            r.append(f)
        if not r and required:
            raise AnalysisBroken("anchor function %s%s not found in program '%s'"
                                 % (q, ptypes or "", self.name))
        return r

    def one(self, q, **kw):
        r = self.find(q, **kw)
        if len(r) != 1:
            raise AnalysisBroken("anchor function %s is ambiguous (%d)" % (q, len(r)))
        return r[0]

    def cls(self, q):
        if q not in self.classes:
            raise AnalysisBroken("anchor class %s not found in '%s'" % (q, self.name))
        return self.classes[q]

    def enum(self, q):
        if q not in self.enums:
            raise AnalysisBroken("anchor enum %s not found" % q)
        return self.enums[q]
