#!/usr/bin/env python3
"""Decide one property by symbolic execution of the code in /repo.

  run_check.py <ID> [--tier quick|thorough] [--keep] [--only HARNESS]

Compiles harness/<ID>*.cpp together with /repo's current sources to LLVM IR,
executes every harness symbolically (engine/), replays every candidate
counterexample natively against the real code and reports only what reproduces.
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
PKG = REPO + "/ndt_gslam"
BUILD = VERIF + "/build"
CLANG = "/usr/bin/clang++-18"
INC = ["-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/suitesparse"]
COMMON = ["-std=c++17", "-ffp-contract=off"]
SYM = COMMON + ["-O1", "-g", "-Xclang", "-disable-llvm-passes", "-fno-math-errno", "-DSX_SYMBOLIC",
                "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DEIGEN_DONT_VECTORIZE", "-fno-vectorize", "-w",
                "-include", "algorithm", "-include", "memory", "-include", "iostream", "-ferror-limit=0"]
NAT = COMMON + ["-O1", "-g", "-mfpmath=sse", "-msse3", "-w", "-D_GLIBCXX_ASSERTIONS",
                "-include", "algorithm", "-include", "memory", "-include", "iostream"]
SAN = ["-fsanitize=address,bounds,null,float-cast-overflow,signed-integer-overflow,integer-divide-by-zero,shift,unreachable,return",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
PASSES = "function(sroa,early-cse,instsimplify,simplifycfg,dce)"


def sh(cmd, timeout=900, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


class Broken(Exception):
    pass


def ensure_engine():
    srcs = glob.glob(VERIF + "/engine/*") + glob.glob(VERIF + "/rt/*")
    exe = BUILD + "/symex"
    if os.path.exists(exe) and all(os.path.getmtime(s) <= os.path.getmtime(exe) for s in srcs if s.endswith((".cpp", ".h"))):
        return exe
    r, o, e = sh(["bash", VERIF + "/engine/build.sh", BUILD])
    if r:
        raise Broken("engine build failed: " + e[-2000:])
    return exe


def parse_tags(path):
    t = {"harness": [], "src": [], "rt": [], "cxx": [], "lib": [], "bound": [], "assume": [], "natcxx": []}
    for line in open(path):
        m = re.match(r"//@\s*(\w+):\s*(.*?)\s*$", line)
        if not m:
            continue
        k, v = m.groups()
        if k == "harness":
            p = v.split()
            t["harness"].append((p[0], dict(x.split("=", 1) for x in p[1:])))
        elif k in ("src", "rt", "lib", "cxx", "natcxx"):
            t[k] += v.split()
        else:
            t.setdefault(k, []).append(v)
    return t


def strip_default(text_lines, line, col):
    """Remove ' = default' of the template parameter at line:col (clang's location)."""
    l = text_lines[line - 1]
    # position at the parameter name (or keyword); find '=' after it at depth 0
    i, depth = col - 1, 0
    while i < len(l) and not (l[i] == "=" and depth == 0):
        if l[i] in ",>" and depth == 0:
            # clang points at the default argument itself: search backwards for '='
            i = l.rfind("=", 0, col)
            break
        i += 1
    if i < 0 or i >= len(l) or l[i] != "=":
        i = l.rfind("=", 0, col)
    if i < 0:
        return False
    j, depth = i + 1, 0
    while j < len(l):
        if l[j] in "<(":
            depth += 1
        elif l[j] in ">)":
            if depth == 0:
                break
            depth -= 1
        elif l[j] == "," and depth == 0:
            break
        j += 1
    k = i
    while k > 0 and l[k - 1] == " ":
        k -= 1
    text_lines[line - 1] = l[:k] + l[j:]
    return True


def overlay(work):
    """Copy of the package; clang-only rejections (repeated default template
    arguments, accepted by g++) are stripped at the places clang reports."""
    dst = work + "/ov/ndt_gslam"
    shutil.copytree(PKG + "/include", dst + "/include")
    shutil.copytree(PKG + "/src", dst + "/src")
    return dst


def compile_sym(src, out, ov, flags):
    cmd = [CLANG] + SYM + flags + ["-I", ov + "/include", "-I", VERIF + "/harness", "-I", VERIF + "/shims"] + INC + ["-c", "-emit-llvm", src, "-o", out]
    for _ in range(15):
        r, o, e = sh(cmd)
        if r == 0:
            return
        fixes = re.findall(r"^(\S+?):(\d+):(\d+): error: template parameter redefines default argument", e, re.M)
        done = False
        edits = {}
        for f, l, c in fixes:
            f = os.path.realpath(f)
            if f.startswith(os.path.realpath(ov)):
                edits.setdefault(f, set()).add((int(l), int(c)))
        for f, locs in edits.items():
            lines = open(f).read().split("\n")
            for l, c in sorted(locs, reverse=True):
                done |= strip_default(lines, l, c)
            open(f, "w").write("\n".join(lines))
        if not done:
            raise Broken("clang cannot compile %s:\n%s" % (src, "\n".join(x for x in e.split("\n") if "error" in x)[:3000]))
    raise Broken("clang cannot compile " + src)


def build_part(path, work, tags, thorough, ov):
    name = os.path.basename(path)[:-4]
    th = ["-DSX_THOROUGH=%d" % thorough] + tags["cxx"]
    bcs = []
    out = "%s/%s.bc" % (work, name)
    compile_sym(path, out, ov, th)
    bcs.append(out)
    for s in tags["src"]:
        o = "%s/%s.%s.bc" % (work, name, s.replace("/", "_"))
        compile_sym(ov + "/" + s, o, ov, th)
        bcs.append(o)
    for s in ["rt.cpp"] + tags["rt"]:
        o = "%s/%s.rt.%s.bc" % (work, name, s)
        compile_sym(VERIF + "/rt/" + s, o, ov, th)
        bcs.append(o)
    lb = "%s/%s.linked.bc" % (work, name)
    r, o, e = sh(["/usr/bin/llvm-link-18"] + bcs + ["-o", lb])
    if r:
        raise Broken("llvm-link: " + e[-2000:])
    r, o, e = sh(["/usr/bin/opt-18", "-passes=" + PASSES, lb, "-o", lb])
    if r:
        raise Broken("opt: " + e[-2000:])
    return lb


def build_native(path, work, tags, thorough, san=True):
    name = os.path.basename(path)[:-4]
    exe = "%s/%s.%s" % (work, name, "san" if san else "plain")
    flags = list(NAT) + (SAN if san else [])
    if not san:
        flags[flags.index("-O1")] = "-O0"
    srcs = [path, VERIF + "/harness/sx_native.cpp"] + [PKG + "/" + s for s in tags["src"]]
    objs, jobs = [], []
    for i, s in enumerate(srcs):
        o = "%s.%d.o" % (exe, i)
        objs.append(o)
        jobs.append(subprocess.Popen(["g++-11"] + flags + ["-DSX_THOROUGH=%d" % thorough] + tags["cxx"] + tags["natcxx"] + ["-I", PKG + "/include", "-I", VERIF + "/harness", "-I", VERIF + "/shims"] + INC + ["-c", s, "-o", o],
                                     stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
    err = ""
    for j in jobs:
        _, e = j.communicate()
        if j.returncode:
            err += e
    if err:
        raise Broken("native build of %s failed: %s" % (name, "\n".join(x for x in err.split("\n") if "error" in x)[:3000]))
    r, o, e = sh(["g++-11"] + flags + objs + tags["lib"] + ["-o", exe])
    if r:
        raise Broken("native link failed: " + e[-2000:])
    return exe


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0", OMP_NUM_THREADS="1")


def native_run(exe, harness, inputs, work, tag, trace=False, timeout=20, valgrind=False):
    inp = "%s/in.%s" % (work, tag)
    with open(inp, "w") as f:
        for n, v in inputs:
            f.write("%s %s\n" % (n, v))
    cmd = [exe, harness, inp]
    tr = "%s/tr.%s" % (work, tag)
    if trace:
        cmd.append(tr)
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=11", "--leak-check=no"] + cmd
        timeout = 120
    r, o, e = sh(cmd, timeout=timeout, env=ENV)
    t, obs = [], []
    if trace and os.path.exists(tr):
        for l in open(tr, errors="replace"):
            p = l.split(None, 1)
            if p[0] == "T":
                t.append(p[1].strip())
            elif p[0] == "O":
                a = p[1].rsplit(None, 1)
                obs.append((a[0], float(a[1])))
    return r, o, e, t, obs


def classify(r, o, e):
    """What the native run of the real code showed."""
    if "SX-ASSUME-FAILED" in o or "SX-INPUT-" in o or "SX-NO-HARNESS" in o:
        return None
    m = re.search(r"SX-VIOLATION .*", o)
    if m:
        return m.group(0)
    m = re.search(r"SX-TERMINATE .*", o)
    if m:
        return "uncaught exception: " + m.group(0)
    if r == -999:
        return "does not terminate (20 s)"
    m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: \S+.*|Assertion .* failed.*)", e)
    if m:
        return m.group(1)[:300]
    if r not in (0,):
        return "abnormal exit status %d" % r
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    thorough = 1 if a.tier == "thorough" else 0
    parts = sorted(p for p in glob.glob("%s/harness/%s*.cpp" % (VERIF, a.id)) if re.match(re.escape(a.id) + r"(_\w+)?\.cpp$", os.path.basename(p)))
    if not parts:
        print("no harness for", a.id)
        return 2
    os.makedirs(BUILD, exist_ok=True)
    work = "%s/work/%s.%d" % (BUILD, a.id, os.getpid())
    os.makedirs(work)
    try:
        return run(a, parts, work, thorough, t0)
    except Broken as e:
        print("ERROR:", e)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def run(a, parts, work, thorough, t0):
    exe = ensure_engine()
    hard = 840 if not thorough else 7200
    res, natives, errors = [], {}, []
    tags = {p: parse_tags(p) for p in parts}
    pool = ThreadPoolExecutor(8)
    ovs = {}
    for p in parts:
        w = work + "/" + os.path.basename(p)[:-4]
        os.makedirs(w)
        ovs[p] = (w, overlay(w))
    fs = {p: pool.submit(build_part, p, ovs[p][0], tags[p], thorough, ovs[p][1]) for p in parts}
    fn = {p: pool.submit(build_native, p, ovs[p][0], tags[p], thorough) for p in parts}
    bc = {p: fs[p].result() for p in parts}
    jobs = []

    def merge(js):
        j = js[0]
        for k in js[1:]:
            for f in ("stats", "checks", "reach"):
                for n, x in k[f].items():
                    j[f][n] = max(j[f].get(n, 0), x) if n.startswith("max") else j[f].get(n, 0) + x
            for f in ("violations", "inconclusive", "witnesses"):
                j[f] = j[f] + k[f]
            j["functions"] = sorted(set(j["functions"]) | set(k["functions"]))
            j["stubs"] = sorted(set(j["stubs"]) | set(k["stubs"]))
            j["wall_s"] = max(j.get("wall_s", 0), k.get("wall_s", 0))
        j["inconclusive"] = sorted(set(j["inconclusive"]))
        # witnesses: interleave the workers' lists
        ws = [k["_w"] for k in js]
        j["witnesses"] = [w[i] for i in range(max(map(len, ws)) if ws else 0) for w in ws if i < len(w)]
        seen = {}
        for v in j["violations"]:
            seen.setdefault((v["label"], v["kind"]), []).append(v)
        j["violations"] = [v for l in seen.values() for v in l[: 16 if l[0]["kind"] == "guess" else 4]]
        return j

    def one(p, h, opt, shard=None):
        out = "%s/%s.%s.json" % (ovs[p][0], h, shard[0] if shard else 0)
        b = float(opt.get("tbudget" if thorough else "budget", opt.get("budget", 120)))
        if thorough and "tbudget" not in opt:
            b *= 8
        b = min(b, hard - (time.time() - t0))
        cmd = [exe, bc[p], "h_" + h, out, "mode", opt.get("mode", "real"), "budget", str(b), "steps", opt.get("steps", "4000000"), "cto", opt.get("cto", "20000" if not thorough else "120000"), "fto", opt.get("fto", "3000")]
        if shard:
            cmd += ["shardk", str(shard[0]), "shardn", str(shard[1]), "sharde", opt.get("depth", "5")]
        r, o, e = sh(["bash", "-c", 'ulimit -v 12000000; exec "$@"', "x"] + cmd, timeout=b + 60)
        if r or not os.path.exists(out):
            return {"harness": "h_" + h, "stats": {}, "checks": {}, "reach": {}, "violations": [], "witnesses": [], "_w": [], "functions": [], "stubs": [], "inconclusive": ["engine ended with %s %s" % (r, e[-300:])], "part": p, "opt": opt}
        j = json.load(open(out))
        j["part"] = p
        j["opt"] = opt
        j["_w"] = j["witnesses"]
        return j

    for p in parts:
        for h, opt in tags[p]["harness"]:
            if a.only and a.only != h:
                continue
            if opt.get("tier") == "thorough" and not thorough:
                continue
            n = int(opt.get("shards", 8 if thorough else 1))
            jobs.append([pool.submit(one, p, h, opt, (k, n) if n > 1 else None) for k in range(n)])
    res = [merge([j.result() for j in js]) for js in jobs]
    for p in parts:
        natives[p] = fn[p].result()

    # ---- replay candidate counterexamples against the real code
    confirmed, unconfirmed, plain = [], [], {}
    for j in res:
        for i, v in enumerate(j["violations"]):
            tag = "%s.v%d" % (j["harness"], i)
            w = ovs[j["part"]][0]
            r, o, e, _, _ = native_run(natives[j["part"]], j["harness"], v["inputs"], w, tag)
            c = classify(r, o, e)
            if c is None and v["kind"] == "uninit":
                if j["part"] not in plain:
                    plain[j["part"]] = build_native(j["part"], w, tags[j["part"]], thorough, san=False)
                r, o, e, _, _ = native_run(plain[j["part"]], j["harness"], v["inputs"], w, tag, valgrind=True)
                c = classify(r, o, e)
                if r == 11:
                    c = "valgrind: use of uninitialised value"
            v["native"] = c
            (confirmed if c else unconfirmed).append((j, v))
            if c and len(confirmed) >= 6:
                break
    # ---- validate the executor: witnesses of explored paths run natively
    val = {"run": 0, "agree": 0, "diverged": []}
    if not confirmed:
        tasks = []
        for j in res:
            for i, wv in enumerate(j["witnesses"][: 6 if not thorough else 40]):
                tasks.append((j, i, wv))

        def vrun(t):
            j, i, wv = t
            r, o, e, tr, obs = native_run(natives[j["part"]], j["harness"], wv["inputs"], ovs[j["part"]][0], "%s.w%d" % (j["harness"], i), trace=True)
            want = [x for x in wv["trace"].split(";") if x]
            ok = r == 0 and "SX-OK" in o and tr == want
            why = ""
            if ok:
                for (n1, x), (n2, y) in zip(wv["obs"], obs):
                    if x is None:
                        continue
                    if abs(x - y) > 1e-5 * max(1, abs(x), abs(y)):
                        ok, why = False, "%s: executor %r native %r" % (n1, x, y)
                        break
            else:
                why = (classify(r, o, e) or ("assume" if "ASSUME" in o else "trace differs"))
            return ok, j["harness"], why, wv["inputs"]

        for ok, h, why, ins in pool.map(vrun, tasks):
            val["run"] += 1
            val["agree"] += ok
            if not ok:
                val["diverged"].append({"harness": h, "why": why, "inputs": ins})
    # ---- verdict
    vac, incon = [], []
    for j in res:
        want = [x for x in j["opt"].get("expect", "").split(",") if x]
        if not j["stats"].get("paths_ok") and not j["violations"]:
            vac.append(j["harness"] + ": no feasible path reaches the end")
        for w in want:
            if not j["checks"].get(w) and not j["reach"].get(w):
                vac.append("%s: '%s' never reached" % (j["harness"], w))
        for x in j["inconclusive"]:
            incon.append(j["harness"] + ": " + x)
        for x in j["violations"]:
            if not x.get("native") and (j, x) in unconfirmed and x["kind"] != "guess":
                incon.append("%s: candidate %s (%s) did not reproduce natively" % (j["harness"], x["label"], x["msg"][:160]))
    known = load_known(a.id)
    new, kn = [], []
    for j, v in confirmed:
        k = [f for f in known if f.get("harness") == j["harness"] and f.get("label") == v["label"]]
        (kn if k else new).append((j, v, k))
    write_evidence(a, res, tags, parts, val, vac, incon, confirmed, t0)
    tot = lambda k: sum(j["stats"].get(k, 0) for j in res)
    print("%s %s: %d harnesses, %d paths, %d obligations (%d discharged), %d solver queries in %.1f s, %d/%d witnesses agree natively, %.1f s" %
          (a.id, a.tier, len(res), tot("paths"), tot("obligations"), tot("discharged"), tot("queries"), tot("solver_s"), val["agree"], val["run"], time.time() - t0))
    for x in vac:
        print("VACUOUS:", x)
    for x in incon:
        print("INCONCLUSIVE:", x)
    if a.v:
        for j in res:
            print(j["harness"], "wall %.1f" % j.get("wall_s", 0), json.dumps(j["stats"]), json.dumps(j["checks"]), json.dumps(j["reach"]))
        for d in val["diverged"][:8]:
            print("DIVERGED", d)
        for j, v in unconfirmed:
            print("UNCONFIRMED", j["harness"], v)
    for j, v, k in kn:
        print("KNOWN-FINDING: property=%s %s" % (a.id, k[0]["what"]))
    if new:
        os.makedirs(BUILD + "/replay", exist_ok=True)
        j, v, _ = new[0]
        rp = "%s/replay/%s.json" % (BUILD, a.id)
        json.dump([{"property": a.id, "harness": jj["harness"], "source": os.path.relpath(jj["part"], VERIF), "label": vv["label"], "kind": vv["kind"], "detail": vv["msg"], "inputs": vv["inputs"], "native": vv["native"]} for jj, vv, _ in new], open(rp, "w"), indent=1)
        for jj, vv, _ in new:
            print("  %s %s: %s | native: %s | inputs %s" % (jj["harness"], vv["label"], vv["msg"][:300], vv["native"], " ".join("%s=%s" % (n, x) for n, x in vv["inputs"])[:400]))
        print("VIOLATION property=%s replay=%s" % (a.id, rp))
        return 1
    return 0


def load_known(pid):
    p = VERIF + "/known_findings.json"
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f.get("property") == pid]


def write_evidence(a, res, tags, parts, val, vac, incon, confirmed, t0):
    tot = lambda k: sum(j["stats"].get(k, 0) for j in res)
    fns = sorted({f for j in res for f in j["functions"]})
    samples = []
    for j in res:
        for w in j["witnesses"][:2]:
            samples.append({"harness": j["harness"], "inputs": dict_list(w["inputs"]), "trace": w["trace"][:300]})
    cov = {
        "states": tot("paths"), "transitions": tot("instrs"), "traces_validated_against_impl": val["agree"],
        "samples": samples[:12],
        "method": "symbolic execution of LLVM IR regenerated from /repo in this run; z3 decides every branch and assertion",
        "feasible_paths": tot("paths_ok"), "symbolic_decisions": tot("decisions"),
        "obligations": tot("obligations"), "discharged": tot("discharged"), "discharged_by_solver": tot("by_solver"),
        "discharged_by_normal_form": tot("by_normal_form"), "discharged_on_path_by_folding": tot("by_constant_folding"),
        "solver_queries": tot("queries"), "solver_sat": tot("sat"), "solver_unsat": tot("unsat"), "solver_unknown": tot("unknown"),
        "solver_seconds": round(tot("solver_s"), 2), "max_query_seconds": max([j["stats"].get("max_query_s", 0) for j in res] or [0]),
        "real_ops_exact_in_ieee": tot("real_ops_exact_in_ieee"), "real_ops_inexact": tot("real_ops_inexact"),
        "functions_encoded": fns, "models_used": sorted({s for j in res for s in j["stubs"]}),
        "bounds": [b for p in parts for b in tags[p]["bound"]],
        "harnesses": [{"name": j["harness"], "paths": j["stats"].get("paths", 0), "queries": j["stats"].get("queries", 0), "solver_s": j["stats"].get("solver_s", 0), "wall_s": j.get("wall_s", 0), "checks": j["checks"], "reach": j["reach"], "exhausted": not j["inconclusive"]} for j in res],
        "witness_runs": val["run"], "witness_divergences": val["diverged"][:5],
        "vacuity": vac, "inconclusive": incon[:40], "exhaustive": not incon and not vac,
    }
    ev = {"property": a.id, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
          "assumptions": [x for p in parts for x in tags[p]["assume"]], "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, a.id), "w"), indent=1)


def dict_list(l):
    return ["%s=%s" % (n, v) for n, v in l]


if __name__ == "__main__":
    sys.exit(main())
