#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--job NAME] [--keep] [-v]

Decides one property: every job of the property compiles a harness together
with /repo's current sources (goto-cc), hands it to CBMC, and turns any failed
assertion into an ordinary program run on the real code (gcc + ASan) before it
is reported."""
import sys, os, re, json, time, subprocess, tempfile, shutil, threading, resource
import concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VH_REPO", "/repo")
SRC = os.path.join(REPO, "src")
from jobs import PROPS, Job   # noqa: E402

DEFS = ["-DHAVE_CONFIG_H"]
INCS = ["-I/usr/include/tirpc", "-I/usr/include/libxml2"]
NATIVE_LIBS = ["-lxml2", "-lyaml", "-ltirpc", "-ldl", "-lm"]
BUDGET = {"quick": 780, "thorough": 6 * 3600}
printlock = threading.Lock()


def say(*a):
    with printlock:
        print(*a, flush=True)


def sh(cmd, timeout=None, mem_gb=None, cwd=None, env=None):
    def lim():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         cwd=cwd, env=env, preexec_fn=lim)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "", "timeout"


def generate(gen):
    """Headers and parsers, regenerated from /repo's current tree."""
    os.makedirs(gen, exist_ok=True)
    for f in ("mr_config.h", "mr_export.h"):
        shutil.copy(os.path.join(HERE, "gen_static", f), gen)
    rc, o, e = sh(["bash", os.path.join(SRC, "mr_pp.sh"), "256"], timeout=60)
    with open(os.path.join(gen, "mr_pp.h"), "w") as f:
        f.write(o)
    os.makedirs(os.path.join(gen, "cbmc"), exist_ok=True)
    shutil.copy(os.path.join(HERE, "cbmc", "mr_protos.h"), os.path.join(gen, "cbmc"))
    for n in ("cinit_load", "json_load", "scm_load", "xml1_load"):
        sh(["bison", "-d", "-o", f"{gen}/{n}.tab.c", f"{SRC}/{n}.y"], timeout=60)
        sh(["flex", "-o", f"{gen}/{n}.lex.c", f"--header-file={gen}/{n}.lex.h", f"{SRC}/{n}.l"], timeout=60)


def incs(gen):
    return DEFS + INCS + [f"-I{gen}", f"-I{HERE}/lib", f"-I{HERE}/harness", f"-I{SRC}",
                          f"-DVH_REAL_PROTOS=\"{SRC}/mr_protos.h\""]


def src_functions():
    """GNU style: a definition starts with its name in column 0."""
    names = {}
    for f in os.listdir(SRC):
        if f.endswith((".c", ".y", ".l", ".h")):
            try:
                txt = open(os.path.join(SRC, f), errors="replace").read()
            except OSError:
                continue
            for m in re.finditer(r"^([a-z_][A-Za-z0-9_]*) \(", txt, re.M):
                names.setdefault(m.group(1), f)
    return names


class Result:
    pass


SYMFLAGS = ["-O1", "-fno-pic", "-fno-pie", "-fno-inline", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-gline-tables-only", "-w",
            "-emit-llvm", "-c", "-D__NO_CTYPE", "-DVH_SYM", "-D_GNU_SOURCE"]
symstate = {}


def engine(gen):
    """The symbolic executor: built by setup.sh, or here when that has not happened."""
    with liblock:
        if "exe" not in symstate:
            exe = os.path.join(HERE, "build", "vsym")
            src = [os.path.join(HERE, "engine", f) for f in ("vsym.cpp", "interp.h", "builtins.h")]
            if not os.path.exists(exe) or os.path.getmtime(exe) < max(os.path.getmtime(f) for f in src):
                exe = os.path.join(gen, "vsym")
                rc, o, e = sh(["bash", os.path.join(HERE, "engine", "build.sh"), exe], timeout=600)
                if rc != 0:
                    raise RuntimeError("cannot build vsym: " + e[-500:])
            symstate["exe"] = exe
        return symstate["exe"]


def sym_lib(gen):
    """LLVM code of the whole library, the parsers and the C library models."""
    with liblock:
        if "lib" in symstate:
            return symstate["lib"]
        d = os.path.join(gen, "bc")
        os.makedirs(d, exist_ok=True)
        srcs = [os.path.join(SRC, f) for f in sorted(os.listdir(SRC)) if f.endswith(".c") and f != "mr_dwarf.c"]
        srcs += [os.path.join(gen, f) for f in sorted(os.listdir(gen)) if f.endswith((".tab.c", ".lex.c"))]
        models = [os.path.join(HERE, "engine", f) for f in sorted(os.listdir(os.path.join(HERE, "engine"))) if
                  f.endswith(".c")]

        def one(s):
            o = os.path.join(d, os.path.basename(s)[:-2] + ".bc")
            fl = [f for f in SYMFLAGS if f != "-D_GNU_SOURCE"] + ["-fno-builtin"] if s in models else SYMFLAGS
            rc, _, e = sh(["clang"] + fl + incs(gen) + ["-o", o, s], timeout=300)
            if rc != 0:
                raise RuntimeError(f"{s}: {e[:1500]}")
            return o
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, srcs + models))
        lib = os.path.join(d, "all.bc")
        rc, o, e = sh(["llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"] + objs + ["-o", lib], timeout=120)
        if rc != 0:
            raise RuntimeError("llvm-link: " + e[-800:])
        symstate["lib"] = lib
        return lib


def run_sym(job, gen, tmp, deadline, verbose, res):
    lib = sym_lib(gen)
    exe = engine(gen)
    hb = os.path.join(tmp, job.name + ".h.bc")
    xb = os.path.join(tmp, job.name + ".bc")
    rc, o, e = sh(["clang"] + SYMFLAGS + incs(gen) + job.defs + ["-o", hb, os.path.join(HERE, "harness", job.file)], timeout=300)
    if rc == 0:
        rc, o, e = sh(["llvm-link", lib, "--override=" + hb, "-o", xb], timeout=120)
    if rc != 0:
        res["status"] = "uncompilable"
        res["notes"].append((o + e)[-3000:])
        return res
    left = min(deadline - time.time(), job.timeout)
    if left < 5:
        res["status"] = "inconclusive"
        res["notes"].append("out of time budget")
        return res
    out = xb + ".json"
    cmd = [exe, xb, "-t", str(int(left)), "-j", str(job.procs), "-i", str(job.max_instr), "-o", out]
    res["cmd"] = " ".join(cmd).replace(tmp, "$TMP")
    rc, o, e = sh(cmd, timeout=left + 60, cwd=tmp)
    try:
        d = json.load(open(out))
    except Exception as ex:
        res["status"] = "inconclusive"
        res["notes"].append(f"vsym failed rc={rc} {e[-500:]} {ex}")
        return res
    os.unlink(xb)
    res["functions"] = sorted(set(d["functions"]) & set(SRCFN))
    res["paths"] = d["paths"]
    res["queries"] = d["queries"] + d["checks"]
    res["discharged"] = d["discharged"]
    res["checks"] = d["checks"]
    res["solver_s"] = d["solver_s"]
    res["wall_s"] = d["wall_s"]
    res["sym"] = {k: d[k] for k in ("paths", "assumed_out", "incomplete", "forks", "queries", "sat", "unsat", "unknown",
                                    "instructions", "checks", "discharged")}
    if d["witness"] is not None:
        res["witness_inputs"] = d["witness"][:40]
    seen = {}
    unconfirmed = 0
    for v in d["violations"]:
        key = (v["description"], v["where"].split(" < ")[0])
        if seen.get(key, 0) >= 4:
            continue
        seen[key] = seen.get(key, 0) + 1
        if sum(seen.values()) > 24:
            break
        hit, ro = replay(job, gen, tmp, v["inputs"], f"{sum(seen.values())}", hang="runs away" in v["description"] or "unbounded" in v["description"])
        ent = {"property": v["kind"], "description": v["description"], "inputs": v["inputs"], "where": v["where"],
               "replay_output": ro, "reproduced": hit}
        if verbose:
            say("  cex", job.name, json.dumps(ent)[:700], ro[-400:])
        if hit:
            seen[key] = 100
            res["violations"].append(ent)
        else:
            unconfirmed += 1
            res["notes"].append(f"solver counterexample NOT reproduced on the real code: {v['description']} "
                                f"at {v['where']} inputs={v['inputs']} {ro[-300:]}")
    for r in d["reasons"]:
        res["notes"].append("incomplete: " + r)
    if res["violations"]:
        res["status"] = "violated"
    elif unconfirmed:
        res["status"] = "unconfirmed"
    elif d["incomplete"]:
        res["status"] = "inconclusive"
    elif job.witness and d["witness"] is None:
        res["status"] = "vacuous"
        res["notes"].append("end of harness unreachable")
    else:
        res["status"] = "holds"
    return res


def compile_goto(job, gen, out):
    cmd = ["goto-cc", "-c", "-DVH_CBMC", "-D__NO_CTYPE", f"-I{gen}/cbmc"] + incs(gen) + job.defs + [
        "-o", out, os.path.join(HERE, "harness", job.file)]
    rc, o, e = sh(cmd, timeout=300)
    if rc != 0:
        return False, (o + e)[-3000:]
    return True, ""


def cbmc(job, gb, unwind, timeout):
    cmd = ["cbmc", gb, "--function", "harness", "--unwind", str(unwind), "--unwinding-assertions",
           "--json-ui", "--verbosity", "8", "--trace", "--drop-unused-functions", "--object-bits", str(job.object_bits)]
    if not job.may_fail:
        cmd.append("--no-malloc-may-fail")
    if job.std_checks:
        cmd += ["--no-undefined-shift-check", "--no-signed-overflow-check"]
        cmd += job.extra_checks
    else:
        cmd += ["--no-standard-checks"] + job.extra_checks
    for k in job.unwindset:
        cmd += ["--unwindset", k]
    cmd += job.flags
    t = time.time()
    rc, o, e = sh(cmd, timeout=timeout, mem_gb=job.mem)
    r = Result()
    r.cmd = " ".join(cmd)
    r.wall = time.time() - t
    r.rc = rc
    r.props = []
    r.solver = 0.0
    r.vccs = 0
    r.err = ""
    r.missing = []
    if rc is None:
        r.err = "timeout"
        return r
    try:
        data = json.loads(o)
    except Exception as ex:
        r.err = f"no json (rc={rc}): {o[-300:]} {e[-500:]}"
        return r
    for el in data:
        if "result" in el:
            r.props = el["result"]
        m = el.get("messageText", "")
        if el.get("messageType") == "ERROR":
            r.err += m + "\n"
        mm = re.match(r"Runtime (Solver|decision procedure): ([0-9.e+-]+)s", m)
        if mm and mm.group(1) == "Solver":
            r.solver += float(mm.group(2))
        mm = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
        if mm:
            r.vccs += int(mm.group(1))
        mm = re.search(r"no body for (?:function|callee) '?([A-Za-z0-9_]+)'?", m)
        if mm:
            r.missing.append(mm.group(1))
    if not r.props and not r.err:
        r.err = f"no result (rc={rc}) {e[-500:]}"
    return r


def trace_inputs(trace):
    vals = []
    for st in trace:
        if st.get("stepType") != "assignment" or st.get("hidden"):
            continue
        if st.get("lhs") == "vh_ndv":
            v = st.get("value", {})
            if "binary" in v:
                vals.append(int(v["binary"], 2))
            elif "data" in v:
                vals.append(int(re.sub(r"[uUlL]+$", "", v["data"])))
    return vals


SAN = {True: ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], False: ["-O2"]}
libs = {}
liblock = threading.Lock()


def native_lib(gen, san):
    """The whole library as an archive: supplies whatever a harness does not include itself."""
    with liblock:
        if san in libs:
            return libs[san]
        d = os.path.join(gen, "san" if san else "opt")
        os.makedirs(d, exist_ok=True)
        srcs = [os.path.join(SRC, f) for f in sorted(os.listdir(SRC)) if f.endswith(".c") and f != "mr_dwarf.c"]
        srcs += [os.path.join(gen, f) for f in os.listdir(gen) if f.endswith((".tab.c", ".lex.c"))]

        def one(s):
            o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            rc, _, e = sh(["gcc", "-w", "-g", "-c", "-DVH_WITH_DESC"] + SAN[san] + incs(gen) + ["-o", o, s], timeout=300)
            return o if rc == 0 else None
        with cf.ThreadPoolExecutor(8) as ex:
            objs = [o for o in ex.map(one, srcs) if o]
        a = os.path.join(d, "libmr.a")
        sh(["ar", "rcs", a] + objs)
        libs[san] = a
        return a


def native_build(job, gen, exe, san):
    lib = native_lib(gen, san)
    cmd = ["gcc", "-w", "-g", "-gdwarf-4", "-Wl,--allow-multiple-definition"] + SAN[san]
    cmd += incs(gen) + job.defs + job.native_defs + ["-o", exe, os.path.join(HERE, "harness", job.file)] + \
        job.native_flags + [lib] + NATIVE_LIBS
    rc, o, e = sh(cmd, timeout=300)
    return rc == 0, e[-600:]


def replay(job, gen, tmp, vals, tag, hang=False):
    """Run the counterexample on the real code: True if it misbehaves there too."""
    inp = os.path.join(tmp, f"{job.name}.{tag}.in")
    with open(inp, "w") as f:
        f.write("\n".join(str(v) for v in vals) + "\n")
    out = ""
    for san in (True, False):
        exe = os.path.join(tmp, f"{job.name}.{'san' if san else 'opt'}")
        if not os.path.exists(exe):
            ok, e = native_build(job, gen, exe, san)
            if not ok:
                out += "native build failed: " + e
                continue
        env = dict(os.environ, VH_INPUT=inp, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99")
        rc, o, e = sh([exe], timeout=30, env=env, cwd=tmp)
        out += f"[{'asan' if san else 'O2'}] rc={rc} {e[-700:]}\n"
        if rc is None and (hang or job.hang_is_violation):
            return True, out
        if rc == 3 and "VH_CHECK_FAILED" in e:
            return True, out
        if rc == 99 and "AddressSanitizer" in e:
            return True, out
        if rc is not None and rc < 0 and rc in (-11, -6, -8, -7):
            return True, out
    return False, out


def known_findings():
    path = os.path.join(HERE, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                res.append(json.loads(line[7:]))
    return res


def run_job(job, gen, tmp, deadline, verbose):
    res = {"job": job.name, "status": "?", "unwind": job.unwind, "queries": 0, "discharged": 0,
           "solver_s": 0.0, "wall_s": 0.0, "functions": [], "notes": [], "violations": [], "missing": []}
    if job.engine == "sym":
        try:
            return run_sym(job, gen, tmp, deadline, verbose, res)
        except RuntimeError as ex:
            res["status"] = "uncompilable"
            res["notes"].append(str(ex))
            return res
    gb = os.path.join(tmp, job.name + ".gb")
    ok, e = compile_goto(job, gen, gb)
    if not ok:
        res["status"] = "uncompilable"
        res["notes"].append(e)
        return res
    rc, o, e = sh(["goto-instrument", "--reachable-call-graph", gb], timeout=60)
    fns = set(re.findall(r"[A-Za-z_][A-Za-z0-9_]*", o)) & set(SRCFN)
    res["functions"] = sorted(fns)
    unwind = job.unwind
    for attempt in range(3):
        left = deadline - time.time()
        if left < 5:
            res["status"] = "inconclusive"
            res["notes"].append("out of time budget")
            return res
        r = cbmc(job, gb, unwind, min(left, job.timeout))
        res["wall_s"] += r.wall
        res["solver_s"] += r.solver
        res["unwind"] = unwind
        res["cmd"] = r.cmd.replace(tmp, "$TMP")
        if r.err and not r.props:
            res["status"] = "inconclusive"
            res["notes"].append(r.err[:600])
            return res
        witness = [p for p in r.props if p.get("description") == "VH_WITNESS"]
        unw = [p for p in r.props if p["status"] == "FAILURE" and
               ("unwinding assertion" in p.get("description", "") or ".recursion" in p["property"] or
                ".unwind." in p["property"])]
        unwset = {p["property"] for p in unw}
        nobody = [p for p in r.props if ".no-body." in p["property"]]
        res["missing"] = sorted({p["property"].split(".no-body.")[1] for p in nobody})
        allp = [p for p in r.props if p.get("description") != "VH_WITNESS" and p["property"] not in unwset and
                p not in nobody]
        bad = [p for p in allp if p["status"] == "FAILURE"]
        res["queries"] = len(allp) + len(unw)
        res["discharged"] = len([p for p in allp if p["status"] == "SUCCESS"])
        res["vccs"] = r.vccs
        for p in bad:
            vals = trace_inputs(p.get("trace", []))
            loc = p.get("sourceLocation") or (p.get("trace") or [{}])[-1].get("sourceLocation", {})
            hit, out = replay(job, gen, tmp, vals, p["property"].replace("/", "_"))
            ent = {"property": p["property"], "description": p["description"], "inputs": vals,
                   "where": f"{loc.get('file', '')}:{loc.get('line', '')} {loc.get('function', '')}",
                   "replay_output": out, "reproduced": hit}
            if verbose:
                say("  cex", job.name, json.dumps(ent)[:600], out[-400:])
            if hit:
                res["violations"].append(ent)
            else:
                res["notes"].append(f"solver counterexample NOT reproduced on the real code: {p['description']} "
                                    f"at {ent['where']} inputs={vals} {out[-300:]}")
                res.setdefault("unconfirmed", []).append(ent)
        if res["violations"]:
            res["status"] = "violated"
            return res
        if unw:
            res["notes"].append(f"unwind {unwind} too small: " + ", ".join(p["property"] for p in unw[:4]))
            if attempt == 2 or unwind * 2 > job.max_unwind:
                # does the real code run away on this input?
                for p in unw[:2]:
                    vals = trace_inputs(p.get("trace", []))
                    hit, out = replay(job, gen, tmp, vals, "unwind", hang=True)
                    if hit:
                        res["violations"].append({"property": p["property"], "description": "VH: loop terminates",
                                                  "inputs": vals, "where": "", "replay_output": out, "reproduced": True})
                        res["status"] = "violated"
                        return res
                break
            unwind = unwind * 2
            continue
        if any(p["status"] not in ("SUCCESS", "FAILURE") for p in allp):
            res["status"] = "inconclusive"
            res["notes"].append("some properties undecided")
            return res
        if job.witness and not any(p["status"] == "FAILURE" for p in witness):
            res["status"] = "vacuous"
            res["notes"].append("end of harness unreachable")
            return res
        w = [p for p in witness if p["status"] == "FAILURE"]
        if w:
            res["witness_inputs"] = trace_inputs(w[0].get("trace", []))[:40]
        res["status"] = "unconfirmed" if bad else "holds"
        return res
    res["status"] = "inconclusive"
    return res


def main():
    args = sys.argv[1:]
    verbose = "-v" in args
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    only = args[args.index("--job") + 1] if "--job" in args else None
    pid = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = PROPS[pid]
    t0 = time.time()
    deadline = t0 + BUDGET[tier]
    tmp = tempfile.mkdtemp(prefix=f"vh-{pid}-")
    gen = os.path.join(tmp, "gen")
    rc = 0
    try:
        generate(gen)
        global SRCFN
        SRCFN = src_functions()
        jobs = [j for j in prop.jobs if (tier == "thorough" or not j.thorough_only) and
                not (tier == "thorough" and j.quick_only)]
        if only:
            jobs = [j for j in jobs if re.search(only, j.name)]
        jobs = sorted(jobs, key=lambda j: -j.cost)
        results = []
        with cf.ThreadPoolExecutor(max_workers=prop.workers) as ex:
            futs = {ex.submit(run_job, j, gen, tmp, deadline, verbose): j for j in jobs}
            for f in cf.as_completed(futs):
                r = f.result()
                results.append(r)
                say(f"{pid} {r['job']}: {r['status']} queries={r['queries']} unwind={r['unwind']} "
                    f"solver={r['solver_s']:.1f}s wall={r['wall_s']:.1f}s" + (f" paths={r['paths']}" if "paths" in r else "") +
                    (f" nobody={','.join(r['missing'])}" if r["missing"] and verbose else ""))
                for n in r["notes"]:
                    say("   note:", n[:1500 if verbose else 400])
        results.sort(key=lambda r: r["job"])
        known = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "known"]
        viol = []
        for r in results:
            for v in r["violations"]:
                hit = None
                for k in known:
                    if k["job"] == r["job"] and re.search(k["match"], v["description"]):
                        hit = k
                if hit:
                    hit["seen"] = True
                else:
                    viol.append((r, v))
        for k in known:
            if k.get("seen"):
                say(f"KNOWN-FINDING: property={pid} {k['what']}")
        if viol:
            rc = 1
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            path = os.path.join(HERE, "evidence", f"replay-{pid}.json")
            with open(path, "w") as f:
                json.dump([{"job": r["job"], "cmd": r.get("cmd"), **v} for r, v in viol], f, indent=1)
            for r, v in viol[:5]:
                say(f"  violated: {v['description']} ({v['where']}) job={r['job']} inputs={v['inputs'][:20]}")
            say(f"VIOLATION property={pid} replay={path}")
        decided = [r for r in results if r["status"] in ("holds", "violated")]
        undecided = [r for r in results if r["status"] not in ("holds", "violated")]
        for r in undecided:
            say(f"UNDECIDED {pid} {r['job']}: {r['status']}")
        if not viol and not decided:
            rc = 2
        byname = {j.name: j for j in jobs}
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": "Bounded symbolic execution of the real code. Jobs with engine vsym: the LLVM code of the whole "
                               "library is executed on symbolic inputs, Z3 decides every branch, address and assertion, all "
                               "feasible paths are explored. Jobs with engine cbmc: bounded model checking of the real C "
                               "functions, unwinding assertions on. Every job is decided for all symbolic inputs within its bounds.",
                "obligations": sum(r["queries"] for r in results),
                "discharged": sum(r["discharged"] for r in results),
                "solver_s": round(sum(r["solver_s"] for r in results), 2),
                "functions_encoded": sorted({f for r in results for f in r["functions"]}),
                "checker_cmd": results[0].get("cmd", "") if results else "",
                "jobs": [{"job": r["job"], "status": r["status"], "bounds": byname[r["job"]].bounds,
                          "engine": byname[r["job"]].engine, "unwind": r["unwind"], "obligations": r["queries"], "discharged": r["discharged"],
                          "vccs": r.get("vccs", 0), **({"paths": r["sym"]} if "sym" in r else {}), "solver_s": round(r["solver_s"], 2),
                          "wall_s": round(r["wall_s"], 2), "functions": r["functions"],
                          "bodiless": r["missing"], "notes": [n[:500] for n in r["notes"]]} for r in results],
                "samples": [{"job": r["job"], "witness_inputs": r.get("witness_inputs", [])} for r in results][:8],
                "undecided_jobs": [r["job"] for r in undecided],
            },
            "assumptions": prop.assumptions,
            "wall_s": round(time.time() - t0, 2),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    finally:
        if "--keep" in args:
            say("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    say(f"{pid}: {'VIOLATED' if rc == 1 else 'ok' if rc == 0 else 'undecided'} in {time.time()-t0:.1f}s")
    return rc


if __name__ == "__main__":
    sys.exit(main())
