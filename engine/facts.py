"""Builds the program facts from /repo's current working tree.

Every .cc file under src/ is compiled (never run) to LLVM bitcode with the
repository's own language level, linked into one module, promoted to SSA and
exported by irx as JSON."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

class AnalysisError(Exception):
    pass

def tool(*names):
    for n in names:
        p = shutil.which(n) or (os.path.join("/usr/lib/llvm-18/bin", n) if os.path.exists(os.path.join("/usr/lib/llvm-18/bin", n)) else None)
        if p: return p
    raise AnalysisError("tool not found: %s" % (names,))

def irx_path():
    p = os.path.join(HERE, "..", "build", "irx")
    if not os.path.exists(p):
        subprocess.check_call([os.path.join(HERE, "..", "setup.sh")], stdout=subprocess.DEVNULL)
    return p

def std_level(repo):
    """-std= as the repository's build sets it (CMAKE_CXX_STANDARD)."""
    lv = "11"
    for f in [os.path.join(repo, "CMakeLists.txt")] + glob.glob(repo + "/build/cmake/**/CMakeLists.txt", recursive=True):
        try: t = open(f, errors="replace").read()
        except OSError: continue
        m = re.search(r"CMAKE_CXX_STANDARD\s+(\d+)", t)
        if m: lv = m.group(1)
    return "c++" + lv

def merge(mods):
    """One program from the per-translation-unit facts. Struct types stay per
    unit name (linking the bitcode would unify isomorphic classes)."""
    out = {"enums": {}, "classes": {}, "structs": {}, "globals": [], "functions": []}
    fn = {}; gl = {}
    for mi, m in enumerate(mods):
        ren = {}
        for f in m["functions"]:
            if f["internal"] and not f["decl"]: ren[f["name"]] = f["name"] + "@%d" % mi
        for g in m["globals"]:
            if g.get("internal"): ren[g["name"]] = g["name"] + "@%d" % mi
        def fix(o):
            if isinstance(o, list):
                if len(o) == 2 and o[0] == "g" and o[1] in ren: o[1] = ren[o[1]]
                else:
                    for x in o: fix(x)
        for f in m["functions"]:
            f["name"] = ren.get(f["name"], f["name"]); f["unit"] = mi
            for b in f.get("blocks", ()):
                for x in b:
                    if x["op"] == "call" and isinstance(x["f"], str): x["f"] = ren.get(x["f"], x["f"])
                    if ren:
                        for o in x.get("o", ()): fix(o)
            old = fn.get(f["name"])
            if old is None or ("blocks" in f and "blocks" not in old): fn[f["name"]] = f
        for g in m["globals"]:
            g["name"] = ren.get(g["name"], g["name"]); g["unit"] = mi
            old = gl.get(g["name"])
            if old is None or (old["decl"] and not g["decl"]): gl[g["name"]] = g
        for k in ("enums", "structs"): 
            for n, v in m[k].items(): out[k].setdefault(n, v)
        for n, v in m["classes"].items():
            o = out["classes"].get(n)
            if o is None or len(v["methods"]) > len(o["methods"]): out["classes"][n] = v
    out["functions"] = list(fn.values()); out["globals"] = list(gl.values())
    return out

def unit(repo, s, o, std):
    cxx = tool("clang++-18", "clang++")
    r = subprocess.run([cxx, "-std=" + std, "-O0", "-g", "-fstandalone-debug", "-Xclang", "-disable-O0-optnone",
                        "-fno-discard-value-names", "-ffp-contract=off", "-w", "-I" + repo + "/include",
                        "-emit-llvm", "-c", s, "-o", o], capture_output=True, text=True)
    if r.returncode: raise AnalysisError("cannot compile %s:\n%s" % (s, r.stderr[-2000:]))
    m = o + ".m"
    subprocess.check_call([tool("opt-18", "opt"), "-passes=sroa,mem2reg", o, "-o", m])
    r = subprocess.run([irx_path(), m, repo + "/"], capture_output=True)
    if r.returncode: raise AnalysisError("irx failed on %s: %s" % (s, r.stderr[-500:]))
    return json.loads(r.stdout)

def probe(repo, text):
    """facts of a small synthetic translation unit that uses the library's headers"""
    tmp = tempfile.mkdtemp(prefix="verif-ir-")
    try:
        s = os.path.join(tmp, "probe.cc")
        with open(s, "w") as f: f.write(text)
        d = merge([unit(repo, s, os.path.join(tmp, "probe.bc"), std_level(repo))])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    d["repo_root"] = repo
    return d

def build(repo=None):
    repo = os.path.abspath(repo or REPO)
    srcs = sorted(glob.glob(repo + "/src/**/*.cc", recursive=True))
    if len(srcs) < 30:
        raise AnalysisError("only %d sources under %s/src" % (len(srcs), repo))
    tmp = tempfile.mkdtemp(prefix="verif-ir-")
    try:
        std = std_level(repo)
        def comp(iv):
            i, s = iv
            return unit(repo, s, os.path.join(tmp, "%03d.bc" % i), std)
        irx_path()
        with ThreadPoolExecutor(8) as ex: mods = list(ex.map(comp, enumerate(srcs)))
        d = merge(mods)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    d["repo_root"] = repo; d["sources"] = [os.path.relpath(s, repo) for s in srcs]; d["std"] = std
    return d
