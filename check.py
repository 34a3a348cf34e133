#!/usr/bin/env python3
"""Driver of the static checks:  check.py <PROPERTY> [--tier quick|thorough]   |  check.py --setup  |  check.py --all

Builds the analyser (tool/) and the LLVM IR of the library from /repo's current working tree, applies the property's rule and
writes evidence/<PROPERTY>.json.  Nothing of the library is executed.
Exit 0: every obligation decided is fulfilled (or listed in known-findings.txt); 1: violation; 2: the analysis itself failed.
"""
import fcntl, hashlib, json, os, shlex, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CZI_REPO", "/repo")
BUILD = os.environ.get("CZI_BUILD", os.path.join(HERE, "build"))
CFG_OPTS = ["-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
            "-DCMAKE_C_FLAGS=-Wno-error", "-DCMAKE_CXX_FLAGS=-Wno-error",
            "-Dzstd_DIR=/opt/vp/cmake/zstd", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
            "-DLIBCZI_BUILD_UNITTESTS=OFF", "-DLIBCZI_BUILD_LIBCZIAPI=ON", "-DLIBCZI_BUILD_DYNLIB=OFF", "-DLIBCZI_BUILD_CZICMD=OFF",
            "-DLIBCZI_BUILD_AZURESDK_BASED_STREAM=OFF", "-DLIBCZI_BUILD_CURL_BASED_STREAM=ON",
            "-DLIBCZI_BUILD_PREFER_EXTERNALPACKAGE_LIBCURL=ON", "-DLIBCZI_BUILD_PREFER_EXTERNALPACKAGE_EIGEN3=ON",
            "-DLIBCZI_BUILD_PREFER_EXTERNALPACKAGE_ZSTD=ON", "-DLIBCZI_BUILD_PREFER_EXTERNALPACKAGE_RAPIDJSON=ON",
            "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"]


class AnalysisError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise AnalysisError("%s\n%s\n%s" % (" ".join(cmd) if isinstance(cmd, list) else cmd, r.stdout[-2000:], r.stderr[-4000:]))
    return r


def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            h.update(base.encode()); h.update(open(base, "rb").read()); continue
        for d, dn, fn in os.walk(base):
            dn[:] = sorted(x for x in dn if x not in (".git", "_build", "build"))
            for f in sorted(fn):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p): continue
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def build_tool():
    src = os.path.join(HERE, "tool"); key = tree_hash([src]); out = os.path.join(BUILD, "tool"); stamp = os.path.join(out, "stamp")
    exe = os.path.join(out, "czilint")
    if not (os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(exe)):
        sh(["bash", os.path.join(src, "build.sh"), out]); open(stamp, "w").write(key)
    return exe


def compile_db():
    cfg = os.path.join(BUILD, "cfg"); db = os.path.join(cfg, "compile_commands.json")
    shutil.rmtree(cfg, ignore_errors=True); os.makedirs(cfg)
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    opts = list(CFG_OPTS)
    hook = "/opt/vp/cmake/libczi_hook.cmake"
    if os.path.exists(hook): opts.append("-DCMAKE_PROJECT_libCZI_INCLUDE=" + hook)
    sh(["cmake", "-S", REPO, "-B", cfg] + opts, env=env)
    seen = {}
    for e in json.load(open(db)):
        seen.setdefault(e["file"], e)
    return list(seen.values())


def clang_args(e):
    a = shlex.split(e["command"]); out = []; i = 1
    while i < len(a):
        if a[i] in ("-o", "-c"): i += 2; continue
        if a[i].startswith("-O") or a[i] == "-g": i += 1; continue
        out.append(a[i]); i += 1
    return out


def function_shim():
    """A copy of the standard library's std::function whose targets are always stored inside the object instead of on the heap.
    It only changes where a callable is kept, so calls through locally built function objects can be resolved statically."""
    d = os.path.join(BUILD, "shim"); p = os.path.join(d, "bits", "std_function.h")
    inc = subprocess.run(["clang++-18", "-E", "-x", "c++", "-H", "-"], input="#include <functional>\n", capture_output=True, text=True).stderr
    src = next((l.split()[-1] for l in inc.splitlines() if l.endswith("/bits/std_function.h")), None)
    if not src: return []
    s = open(src).read()
    a = s.replace("void (_Undefined_class::*_M_member_pointer)();\n  };", "void (_Undefined_class::*_M_member_pointer)();\n    void* _M_room[8];\n  };", 1)
    b = a.replace(": is_trivially_copyable<_Tp>::type", ": true_type", 1)
    if a == s or b == a: return []
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not (os.path.exists(p) and open(p).read() == b): open(p, "w").write(b)
    return ["-I" + d]


SHIM = []


def emit_bc(e, o):
    src = e["file"]; cxx = not src.endswith(".c")
    extra = ["-flto=full", "-fwhole-program-vtables", "-fvisibility=hidden"] + SHIM if cxx else []
    sh(["clang++-18" if cxx else "clang-18"] + clang_args(e) + ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fstandalone-debug",
        "-fno-discard-value-names", "-w"] + extra + ["-emit-llvm", "-c", src, "-o", o], cwd=e["directory"])


def witness_bc(bc):
    return bc.replace("all.bc", "wit.bc")


def uses_witnesses(prop):
    wdir = os.path.join(HERE, "witness")
    return any("W_%s_" % prop in open(os.path.join(wdir, f)).read() for f in os.listdir(wdir) if f.endswith(".cpp"))


def build_ir():
    """-> (path of the linked bitcode, [translation units])"""
    key = tree_hash([os.path.join(REPO, "Src"), os.path.join(REPO, "CMakeLists.txt"), os.path.join(REPO, "cmake"), os.path.join(REPO, "modules"),
                     os.path.join(HERE, "witness"), os.path.abspath(__file__)])
    ir = os.path.join(BUILD, "ir"); stamp = os.path.join(ir, "stamp"); allbc = os.path.join(ir, "all.bc"); info = os.path.join(ir, "units.json")
    if os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(allbc):
        return allbc, json.load(open(info))
    shutil.rmtree(ir, ignore_errors=True); os.makedirs(ir)
    db = compile_db()
    SHIM[:] = function_shim()
    units = [(e, os.path.join(ir, "%03d.bc" % i)) for i, e in enumerate(db)]
    # witness units: small sources of ours which only state obligations over the library's types and functions
    wdir = os.path.join(HERE, "witness")
    base = next((e for e in db if e["file"].endswith("/libCZI_Site.cpp")), None) or next(e for e in db if "/Src/libCZI/" in e["file"])
    if os.path.isdir(wdir):
        for f in sorted(os.listdir(wdir)):
            if f.endswith(".cpp"):
                e = dict(base); e["file"] = os.path.join(wdir, f)
                e["command"] = base["command"].replace(" -c " + base["file"], " -I" + os.path.join(REPO, "Src", "libCZI") + " -I" + os.path.join(REPO, "Src") + " -c " + e["file"])
                units.append((e, os.path.join(ir, "w_%s.bc" % f[:-4])))
    def one(u):
        try: emit_bc(*u); return True
        except AnalysisError as x:
            if u[0]["file"].startswith(wdir):   # a witness that does not compile only disables its own obligations
                sys.stderr.write("witness %s does not compile:\n%s\n" % (u[0]["file"], x)); return False
            raise
    with ThreadPoolExecutor(8) as ex:
        good = list(ex.map(one, units))
    units = [u for u, g in zip(units, good) if g]
    lib = [o for e, o in units if not e["file"].startswith(wdir)]
    with ThreadPoolExecutor(2) as ex:   # the library alone, and with the witness units (and their models of C/C++ runtime functions)
        a = ex.submit(sh, ["llvm-link-18"] + lib + ["-o", allbc]); b = ex.submit(sh, ["llvm-link-18"] + [o for _, o in units] + ["-o", witness_bc(allbc)])
        a.result(); b.result()
    for _, o in units: os.unlink(o)
    names = [os.path.relpath(e["file"], REPO) if e["file"].startswith(REPO) else e["file"] for e, _ in units]
    json.dump(names, open(info, "w")); open(stamp, "w").write(key)
    return allbc, names


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                assert rest.startswith("key=")
                key, _, what = rest[4:].partition(" :: ")
                out[key.strip()] = what.strip()
    return out


def run(prop, tier):
    t0 = time.time()
    props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()}
    man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(2) as ex:
            ft = ex.submit(build_tool); fi = ex.submit(build_ir)
            exe = ft.result(); bc, units = fi.result()
    out = os.path.join(BUILD, "out_%s_%d.json" % (prop, os.getpid()))
    sh([exe, "--bc", witness_bc(bc) if uses_witnesses(prop) else bc, "--rule", prop, "--repo", REPO, "--opt", "tier=" + tier, "--out", out])
    res = json.load(open(out))[prop]; os.unlink(out)
    items = res["items"]; known = known_findings(prop)
    bad = [i for i in items if i["status"] == "violation"]
    listed = [i for i in bad if i["key"] in known]; fresh = [i for i in bad if i["key"] not in known]
    oks = [i for i in items if i["status"] == "ok"]; und = [i for i in items if i["status"] == "undecided"]
    broken = list(res["errors"])
    if not oks and not bad: print("note: the rule decided no obligation of this tree")
    level = man[prop]["level"] if prop in man else "other"
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
          "coverage": {"explanation": "static analysis of the type-checked program (LLVM IR of %d translation units, generated from /repo's working tree with the build's own flags); rule: %s" % (len(units), man.get(prop, {}).get("technique", prop)),
                       "translation_units": len(units), "obligations": len(items), "discharged": len(oks), "undecided": len(und), "known_findings": len(listed), "new_violations": len(fresh),
                       "rule_counts": {k: v for k, v in res["counts"].items() if k not in ("ok", "violation", "undecided")},
                       "checker_cmd": "python3 check.py %s --tier %s" % (prop, tier),
                       "trusted_base": ["clang 18 front end and llvm-link", "LLVM's simplification passes (SROA, EarlyCSE, GVN, SimplifyCFG)", "tool/*.cpp of this directory"],
                       "rule": man.get(prop, {}).get("technique", ""),
                       "notes": res["notes"], "undecided_items": [{"key": i["key"], "where": i["where"], "detail": i["detail"]} for i in und][:200],
                       "samples": [{"key": i["key"], "where": i["where"], "detail": i["detail"]} for i in oks][:400]},
          "violations": len(fresh), "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s (%s): %d obligations, %d fulfilled, %d undecided, %d known, %d new violations; %s; %.1f s" % (
        prop, props[prop]["title"] if prop in props else "?", len(items), len(oks), len(und), len(listed), len(fresh),
        ", ".join("%s=%s" % kv for kv in ev["coverage"]["rule_counts"].items()), time.time() - t0))
    for i in und: print("  undecided: %s at %s: %s" % (i["key"], i["where"], i["detail"]))
    for k in sorted({i["key"] for i in listed}): print("KNOWN-FINDING: property=%s %s :: %s" % (prop, k, known[k]))
    if fresh:
        rp = os.path.join(HERE, "evidence", prop + ".violations.json")
        json.dump({"property": prop, "command": "cd /verif && python3 check.py " + prop, "violations": fresh}, open(rp, "w"), indent=1)
        for i in fresh: print("  %s: [%s] %s" % (i["where"], i["key"], i["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if broken:
        for b in broken: print("ANALYSIS ERROR: " + b)
        return 2
    return 0


def main():
    os.makedirs(BUILD, exist_ok=True)
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    try:
        if a == ["--setup"]:
            with ThreadPoolExecutor(2) as ex:
                f = [ex.submit(build_tool), ex.submit(build_ir)]; [x.result() for x in f]
            return 0
        if a == ["--all"]:
            rc = 0
            for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]: rc = max(rc, run(c["property"], tier))
            return rc
        return run(a[0], tier)
    except AnalysisError as e:
        print("ANALYSIS ERROR: %s" % e); return 2


if __name__ == "__main__":
    sys.exit(main())
