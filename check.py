#!/usr/bin/env python3
"""check.py <PROPERTY> : decides one property on /repo's current working tree.

Rebuilds the library from /repo's sources in a scratch directory (several flavours), compiles the harness(es) of the
property against it, explores every execution in the stated bounds, rewrites evidence/<PROPERTY>.json.
Exit 0: held on everything explored.  Exit 1 + 'VIOLATION property=<id> replay=<path>': broken.  2: error of the check.
   check.py P --tier thorough | --replay FILE | --keep DIR
"""
import sys, os, json, subprocess, shutil, tempfile, glob, time, argparse, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, VERIF)
from registry import CHECKS, FLAVOURS

def run(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout

def pkg(*mods, what=("--cflags",)):
    return subprocess.run(["pkg-config", *what, *mods], capture_output=True, text=True, check=True).stdout.split()

def prepare_sources(work):
    """A private copy of the sources with freshly generated headers (ignored files of /repo are not relied on)."""
    src = os.path.join(work, "src")
    os.makedirs(src)
    for pat in ("*.c", "*.h", "generate.py", "brushsettings.json"):
        for f in glob.glob(os.path.join(REPO, pat)):
            shutil.copy(f, src)
    for d in ("glib", "gegl", "fastapprox"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(src, d))
    for g in ("config.h", "mypaint-brush-settings-gen.h", "brushsettings-gen.h"):
        if os.path.exists(os.path.join(src, g)):
            os.remove(os.path.join(src, g))
    if os.path.exists(os.path.join(REPO, "po", "POTFILES.in")):   # generate.py may read/write next to itself
        os.makedirs(os.path.join(src, "po"), exist_ok=True)
    run([sys.executable, "generate.py", "mypaint-brush-settings-gen.h", "brushsettings-gen.h"], cwd=src)
    with open(os.path.join(src, "config.h"), "w") as f:
        f.write('#ifndef MC_CONFIG_H\n#define MC_CONFIG_H\n#define GETTEXT_PACKAGE "libmypaint"\n#define HAVE_GETTEXT 1\n'
                '#define MYPAINT_CONFIG_USE_GLIB 1\n#endif\n')
    defs = json.load(open(os.path.join(src, "brushsettings.json")))
    with open(os.path.join(src, "mc_names.h"), "w") as f:   # enumerator names with the name and position they must have
        for kind, pre, names in (("SETTING", "MYPAINT_BRUSH_SETTING_", [x["internal_name"] for x in defs["settings"]]), ("INPUT", "MYPAINT_BRUSH_INPUT_", [x["id"] for x in defs["inputs"]]),
                                 ("STATE", "MYPAINT_BRUSH_STATE_", defs["states"])):
            f.write("#define MC_%sS(X) %s\n" % (kind, " ".join('X(%s%s, "%s")' % (pre, n.upper(), n) for n in names)))
    return src

ALLOC_SYMS = ["malloc", "calloc", "realloc", "free", "strdup"]

def build_flavour(work, src, name):
    fl = FLAVOURS[name]
    d = os.path.join(work, "lib-" + name)
    os.makedirs(d)
    cflags = ["-DHAVE_CONFIG_H", "-I" + src, "-I" + os.path.join(src, "glib"), "-fexceptions", "-w"] + pkg("json-c", "glib-2.0", "gobject-2.0") + fl["cflags"]
    files = sorted(glob.glob(os.path.join(src, "*.c")))
    if fl.get("gegl"):
        files += sorted(glob.glob(os.path.join(src, "gegl", "*.c"))) + sorted(glob.glob(os.path.join(src, "glib", "*gegl*.c")))
        cflags += ["-I" + os.path.join(src, "gegl")] + pkg("gegl-0.4")
    cc = fl.get("cc", "gcc")
    objs = []
    def one(f):
        o = os.path.join(d, os.path.basename(os.path.dirname(f)) + "_" + os.path.basename(f)[:-2] + ".o")
        run([cc, "-std=gnu11", "-c", f, "-o", o] + cflags)
        if fl.get("alloc", True):
            args = []
            for s in ALLOC_SYMS:
                args += ["--redefine-sym", "%s=mc_%s" % (s, s)]
            for s in fl.get("rename", []):
                args += ["--redefine-sym", "%s=mc_%s" % (s, s)]
            args += ["--redefine-sym", "rand=mc_rand"]
            run(["objcopy"] + args + [o])
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, files))
    return objs

def build_harness(work, src, flavour, harness, objs):
    fl = FLAVOURS[flavour]
    exe = os.path.join(work, "%s-%s" % (harness, flavour))
    inc = ["-I" + src, "-I" + os.path.join(VERIF, "mc"), "-I" + os.path.join(VERIF, "harness")] + pkg("json-c", "glib-2.0", "gobject-2.0")
    libs = pkg("json-c", "gobject-2.0", what=("--libs",))
    if fl.get("gegl"):
        inc += ["-I" + os.path.join(src, "gegl")] + pkg("gegl-0.4")
        libs += pkg("gegl-0.4", what=("--libs",))
    extra = [os.path.join(VERIF, "mc", x) for x in fl.get("extra", [])]
    cpp = os.path.join(VERIF, "harness", harness + ".cpp")
    ho = exe + ".o"
    run(["g++", "-std=gnu++17", "-c", cpp, "-o", ho, "-w"] + fl.get("hflags", ["-O1", "-g"]) + inc)
    eo = []
    for x in extra:
        o = os.path.join(work, os.path.basename(x) + "." + flavour + "." + harness + ".o")
        run(["g++", "-std=gnu++17", "-c", x, "-o", o, "-w", "-O2", "-g"] + inc)
        eo.append(o)
    run(["g++", "-o", exe, ho] + eo + objs + fl.get("ldflags", []) + libs + ["-lm", "-lpthread"])
    return exe

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:handle_segv=1:symbolize=1",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=99", LC_ALL="C", G_DEBUG="fatal-criticals", GSETTINGS_BACKEND="memory", GEGL_USE_OPENCL="no")

def known_findings(prop):
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                r.append(l)
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep")
    ap.add_argument("--workers", default=str(min(8, os.cpu_count() or 8)))
    ap.add_argument("--only", default="")
    ap.add_argument("--budget", type=float, default=0, help="seconds for each harness run (default: set by the tier)")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    chk = CHECKS[prop]
    t0 = time.time()
    work = a.keep or tempfile.mkdtemp(prefix="mcv-" + prop + "-")
    if a.keep:
        shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    rc = 2
    try:
        src = prepare_sources(work)
        exes = {}
        flav = sorted({r["flavour"] for r in chk["runs"]})
        objs = {f: build_flavour(work, src, f) for f in flav}
        for r in chk["runs"]:
            k = (r["harness"], r["flavour"])
            if k not in exes:
                exes[k] = build_harness(work, src, r["flavour"], r["harness"], objs[r["flavour"]])
        tb = time.time() - t0
        env = dict(ENV, MC_WORK=work, MC_SRC=src, MC_REPO=REPO, MC_VERIF=VERIF)
        if a.replay:
            rp = json.load(open(a.replay))
            exe = exes[(rp["harness"], rp["flavour"])]
            p = subprocess.run([exe, "--prop", prop, "--tier", rp["tier"], "--replay", rp["space"], json.dumps(rp["choices"])], env=env)
            return p.returncode
        results, viol, err = [], None, None
        for i, r in enumerate(chk["runs"]):
            exe = exes[(r["harness"], r["flavour"])]
            out = os.path.join(work, "out%d.json" % i)
            budget = a.budget or r.get("budget", {}).get(tier, 200 if tier == "quick" else 3000)
            cmd = [exe, "--prop", prop, "--tier", tier, "--budget", str(budget), "--out", out, "--workers", a.workers] + r.get("args", [])
            if a.only:
                cmd += ["--only", a.only]
            p = subprocess.run(cmd, env=env)
            if not os.path.exists(out):
                err = "harness %s produced no result (exit %d)" % (r["harness"], p.returncode)
                break
            res = json.load(open(out))
            res["harness"], res["flavour"] = r["harness"], r["flavour"]
            results.append(res)
            if res["rc"] == 1:
                viol = res
                break
            if res["rc"] != 0 or p.returncode != 0:
                err = "harness %s: %s" % (r["harness"], res["violation"]["message"] or "exit %d" % p.returncode)
                break
        wall = time.time() - t0
        spaces = [dict(s, harness=x["harness"], flavour=x["flavour"]) for x in results for s in x["spaces"]]
        ex = sum(x["executions"] for x in results)
        cov = {
            "states": sum(x["distinct"] for x in results),
            "transitions": sum(x["transitions"] for x in results),
            "traces_validated_against_impl": ex,
            "evaluations": sum(x["checks"] for x in results),
            "rule": chk["rule"],
            "samples": [s for x in results for s in x["samples"]][:8] or ["(no execution sampled)"],
            "spaces": spaces,
            "exhaustive": bool(results) and not any(x["capped"] for x in results) and not viol and not err,
            "capped_by_time_budget": any(x["capped"] for x in results),
            "note": "states = distinct observable outcomes (hash of everything the oracle reads: pixels, emitted dabs, reported rectangles, returned values, brush states); "
                    "transitions = API operations / scheduling steps executed on the real code; traces_validated_against_impl = complete choice sequences executed on the real "
                    "library and compared step by step with the oracle or reference model; evaluations = individual oracle comparisons.",
        }
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": chk["level"], "coverage": cov,
              "assumptions": chk.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if viol else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if viol:
            rd = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s.json" % (prop, tier))
            v = viol["violation"]
            with open(path, "w") as f:
                json.dump({"property": prop, "harness": viol["harness"], "flavour": viol["flavour"], "tier": tier, "space": v["space"], "choices": v["choices"],
                           "message": v["message"], "execution": v["execution"],
                           "how": "python3 /verif/check.py %s --replay %s" % (prop, path)}, f, indent=1)
            print("violated: [%s] %s\n  execution: %s" % (v["space"], v["message"], v["execution"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            rc = 1
        elif err:
            print("ERROR property=%s %s" % (prop, err))
            rc = 2
        else:
            for l in known_findings(prop):
                print("KNOWN-FINDING: property=%s %s" % (prop, l.split(" ", 2)[2]))
            print("HELD property=%s executions=%d states=%d transitions=%d %s build=%.1fs total=%.1fs" % (
                prop, ex, cov["states"], cov["transitions"], "CAPPED" if cov["capped_by_time_budget"] else "exhaustive within bounds", tb, wall))
            rc = 0
    except Exception as e:
        print("ERROR property=%s %s" % (prop, e))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    return rc

sys.exit(main())
