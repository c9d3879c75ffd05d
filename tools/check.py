#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property: compiles /repo's current sources to LLVM IR, links the property's harnesses, lets the symbolic machine
(engine/, Z3 as decision procedure) explore all paths, replays every counterexample natively (ASan/UBSan build of the same
sources) and writes evidence/<id>.json.  Exit 0: held on everything explored; exit 1: VIOLATION line(s).

Jobs are declared in the harness files (harness/<id in lower case>_*.cpp):
  // @bounds free text                      -> evidence
  // @assume free text                      -> evidence
  // @job [quick|thorough] key=value...     -> options of the next HARNESS(): shards, time, alloc, switches, steps, defs, threads=1, off
"""
import sys, os, re, json, time, glob, subprocess, signal, resource, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import symlib
from concurrent.futures import ThreadPoolExecutor
V = symlib.VERIF
ASSUME = ["signed integer arithmetic wraps (code compiled with -fwrapv)", "allocations above the allocation cap of a job fail; smaller ones succeed",
          "x86-64, little endian, SSE floating point; floating-point special functions on symbolic arguments are not encoded",
          "iostream/locale/regex/random of libstdc++ are replaced by small functional models (shadow/), containers, strings, smart pointers and algorithms are the real libstdc++ code"]

class Job: pass
def parse(src, tier):
    jobs = []; opts = {}; bounds = []; assume = []
    for line in open(src):
        m = re.match(r"\s*// @(bounds|assume|job)\s*(.*)", line)
        if m:
            if m.group(1) == "bounds": bounds.append(m.group(2).strip())
            elif m.group(1) == "assume": assume.append(m.group(2).strip())
            else:
                o = {}; t = None
                for w in m.group(2).split():
                    if w in ("quick", "thorough"): t = w
                    elif "=" in w: k, v = w.split("=", 1); o[k] = v
                    else: o[w] = "1"
                if t is None or t == tier: opts.update(o); opts.pop("off_other_tier", None); opts["seen"] = "1"
                elif "seen" not in opts: opts["off_other_tier"] = "1"
            continue
        m = re.match(r"HARNESS\((\w+)\)", line)
        if m:
            j = Job(); j.src = src; j.entry = m.group(1); j.o = opts; opts = {}; jobs.append(j)
    return [j for j in jobs if "off" not in j.o and "off_other_tier" not in j.o], bounds, assume

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run_job(j, shard, nsh, eng, mod, deadline, outdir, stop):
    r = {"entry": j.entry, "shard": shard, "job": j}
    left = deadline - time.time()
    if left < 3 or stop.is_set(): r["incomplete"] = {"not-started": 1}; return r
    if mod is None: r["incomplete"] = {"harness-does-not-build": 1}; return r
    mt = min(float(j.o.get("time", 240)), left - 2)
    out = "%s/%s.%d.json" % (outdir, j.entry, shard)
    if os.path.exists(out): os.unlink(out)
    cmd = [eng, mod, "--entry", j.entry, "--out", out, "--max-time", str(mt)]
    if nsh > 1: cmd += ["--shard", "%d/%d" % (shard, nsh)]
    for k, f in (("alloc", "--alloc-cap"), ("switches", "--max-switches"), ("steps", "--max-steps"), ("qt", "--query-timeout"), ("fpt", "--fp-timeout"), ("paths", "--max-paths")):
        if k in j.o: cmd += [f, j.o[k]]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".log", "w"), preexec_fn=limits, start_new_session=True)
    end = t + mt + 25
    while p.poll() is None:
        time.sleep(0.05)
        if stop.is_set() or time.time() > end: p.kill(); p.wait(); break
    try: r.update(json.load(open(out)))
    except Exception: r["incomplete"] = {"stopped" if stop.is_set() else "engine-ended-early(rc=%s)" % p.returncode: 1}; r["log"] = open(out + ".log", errors="replace").read()[-400:]
    return r

def merge_reached(results):
    m = {}
    for r in results:
        for k, v in (r.get("reached") or {}).items(): d = m.setdefault(r["entry"], {}); d[k] = d.get(k, 0) + v
    return m

def write_replay(path, vals):
    with open(path, "w") as f:
        for n, v in vals:
            if n.startswith("undef#"): continue
            f.write("%s %s\n" % (n.replace(" ", "_"), v))

def native_run(exe, rep, cap, tmo, env_extra=()):
    env = dict(os.environ, SYM_REPLAY=rep, SYM_ALLOC_CAP=str(cap), ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=268435456:malloc_fill_byte=190:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:detect_container_overflow=0:alloc_dealloc_mismatch=1:detect_odr_violation=0", UBSAN_OPTIONS="print_stacktrace=1", TSAN_OPTIONS="halt_on_error=1:exitcode=66")
    for k, v in env_extra: env[k] = v
    try:
        p = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace")

def replay(j, err, rep):
    """does the counterexample reproduce on the real code? -> (bool, description)"""
    cap = j.o.get("alloc", 256 * 1024); threads = "threads" in j.o or err["kind"] in ("race", "deadlock")
    last = ""; probes = []
    kinds = ["nattsan", "natpat"] if threads else ["natpat", "natzero"]
    for kind in kinds:
        try: exe = symlib.native(j.src, j.entry, kind)
        except Exception as e: last = "native build failed: " + str(e)[-300:]; continue
        for rep_i in range(40 if kind == "nattsan" else 1):
            rc, out = native_run(exe, rep, cap, 30)
            if rc == "timeout":
                if err["kind"] in ("nontermination", "deadlock"): return True, kind + ": does not terminate (30 s)"
                last = kind + ": timeout"; break
            probes.append([l for l in out.splitlines() if l.startswith("UNDEF-PROBE")])
            if rc in (0, 76, 77, 78): last = "%s: rc=%s %s" % (kind, rc, out.strip().splitlines()[-1:]); continue
            line = [l for l in out.splitlines() if "REPLAY-" in l or "ERROR: AddressSanitizer" in l or "runtime error" in l or "WARNING: ThreadSanitizer" in l or "DEADLYSIGNAL" in l or "terminate called" in l]
            return True, "%s: rc=%s %s" % (kind, rc, line[:1] or out.strip()[-200:])
    if "uninitialised" in err.get("msg", "") + str(err) and len(probes) == 2 and probes[0] != probes[1]: return True, "reported values depend on the content of uninitialised memory (%s vs %s)" % next((x, y) for x, y in zip(probes[0], probes[1]) if x != y) if len(probes[0]) == len(probes[1]) else "different course"
    if threads: return True, "schedule found by the symbolic machine over the real code (native run of the same inputs under TSan did not hit the interleaving: %s)" % last
    return False, last

def known():
    r = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) entry=(\w+) match=\[(.*?)\] (.*)", l.strip())
            if m: r.append(m.groups())
    return r

def main():
    a = sys.argv[1:]; pid = a[0]; tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time(); budget = 640 if tier == "quick" else 3300
    if "--budget" in a: budget = float(a[a.index("--budget") + 1])
    deadline = t0 + budget
    only = a[a.index("--only") + 1].split(",") if "--only" in a else None
    srcs = sorted(glob.glob(V + "/harness/%s_*.cpp" % pid.lower()))
    if not srcs: print("no harness for", pid); return 2
    outdir = os.path.join(symlib.BUILD, "out", pid); os.makedirs(outdir, exist_ok=True); rdir = os.path.join(symlib.BUILD, "replay"); os.makedirs(rdir, exist_ok=True)
    jobs, bounds, assume = [], [], list(ASSUME)
    for s in srcs:
        j, b, u = parse(s, tier); jobs += j; bounds += b; assume += u
    if only: jobs = [j for j in jobs if j.entry in only]
    # build
    with ThreadPoolExecutor(3) as ex:
        fe = ex.submit(symlib.engine); fl = ex.submit(symlib.libbc); fr = ex.submit(symlib.runtime_bc); eng = fe.result(); fl.result(); fr.result()
    mods = {}; dfs = {}
    need = sorted({(j.src, j.o.get("defs", "")) for j in jobs})
    with ThreadPoolExecutor(8) as ex:
        def mk(k):
            try: return symlib.module(k[0], tuple(k[1].split(",")) if k[1] else ())
            except Exception as e: print("note: harness %s does not build against this tree (its entries are not explored): %s" % (os.path.basename(k[0]), str(e)[-600:])); return None
        for k, m in zip(need, ex.map(mk, need)): mods[k] = m
    tb = time.time() - t0
    # explore
    work = []
    for j in jobs:
        n = int(j.o.get("shards", 1))
        for s in range(n): work.append((j, s, n))
    work.sort(key=lambda w: -float(w[0].o.get("prio", w[0].o.get("time", 60))))
    stop = threading.Event(); results = []; viol = []; kf = []; unconf = []; lock = threading.Lock(); seen = set(); kn = known(); nrep = [0]
    def handle(r):
        for e in r.get("errors", []):
            key = r["entry"] + "|" + e["kind"] + "|" + (e["msg"] if e["kind"] == "assert" else e["loc"])
            with lock:
                if key in seen: continue
                rep = "%s/%s_%s_%d.txt" % (rdir, pid, r["entry"], len(os.listdir(rdir)))
                write_replay(rep, e["vals"]); nrep[0] += 1
            ok, how = replay(r["job"], e, rep)
            with lock:
                if not ok: unconf.append({"entry": r["entry"], "kind": e["kind"], "msg": e["msg"], "loc": e["loc"], "replay": how}); continue
                if key in seen: continue
                seen.add(key)
                text = "%s: %s: %s at %s" % (r["entry"], e["kind"], e["msg"], e["loc"])
                fk = [k for k in kn if k[0] == pid and k[1] == r["entry"] and k[2] in text]
                if fk: kf.append(fk[0]); continue
                viol.append((rep, text, how, e)); 
                if "--all" not in a: stop.set()
    def one(w):
        j, s, n = w
        r = run_job(j, s, n, eng, mods[(j.src, j.o.get("defs", ""))], deadline, outdir, stop)
        with lock: results.append(r)
        if r.get("errors"): handle(r)
        return r
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, work))
    for k in {k[3] for k in kf}: print("KNOWN-FINDING: property=%s %s" % (pid, k))
    # validation of explored paths against the real build
    validated = 0; vfail = []
    if tier == "thorough" and not viol:
        todo = {}
        for r in results:
            if "threads" in r["job"].o or "novalidate" in r["job"].o: continue
            for sm in r.get("samples", [])[:10]: todo.setdefault(r["entry"], (r["job"], []))[1].append(sm)
        def val(x):
            e, (j, sms) = x; ok = 0; bad = []
            try: exe = symlib.native(j.src, j.entry, "natpat")
            except Exception as ex_: return 0, [{"entry": e, "build": str(ex_)[-200:]}]
            for i, sm in enumerate(sms[:24]):
                rp = "%s/val_%s_%d.txt" % (rdir, e, i); write_replay(rp, sm); rc, o = native_run(exe, rp, j.o.get("alloc", 262144), 30)
                if rc == 0: ok += 1
                else: bad.append({"entry": e, "rc": rc, "out": o[-200:], "replay": rp})
            return ok, bad
        if todo:
            symlib.compile_many(symlib.lib_sources(), "natpat")
            with ThreadPoolExecutor(8) as ex:
                for ok, bad in ex.map(val, todo.items()): validated += ok; vfail += bad
    # evidence
    fn = {}
    for r in results:
        for f in r.get("functions", []):
            if "/Src/" in f[1] or f[1].startswith("Src"):
                o = fn.setdefault(f[0], [f[1].split("/repo/")[-1], 0, 0, f[4]]); o[1] += f[2]; o[2] = max(o[2], f[3])
    inc = {}
    for r in results:
        for k, v in r.get("incomplete", {}).items():
            if not k.startswith("context-switch-bound"): inc[r["entry"] + ": " + k] = inc.get(r["entry"] + ": " + k, 0) + v
    tot = lambda k: sum(r.get(k, 0) for r in results)
    samples = []
    for r in results:
        for sm in r.get("samples", [])[:2]:
            if len(samples) < 12: samples.append({"entry": r["entry"], "inputs": [[n, v] for n, v in sm[:40]]})
    cov = {"states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": validated + nrep[0], "samples": samples,
           "exhaustive": not inc, "entries": sorted({r["entry"] for r in results}), "paths_completed": tot("paths"), "paths_pruned_by_assumptions_or_errors": tot("paths_pruned"),
           "queries": tot("queries"), "queries_answered_from_cache": tot("cache_hits"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "fp_queries": tot("fp_queries"), "assertions_checked": tot("asserts"),
           "solver_s": round(tot("solver_s"), 2), "solver": "Z3 5.3.2 (QF_BV incremental / QF_FPBV)", "bounds": bounds, "incomplete": inc, "build_s": round(tb, 1),
           "functions_encoded": len(fn), "functions": [[k] + v for k, v in sorted(fn.items(), key=lambda x: -x[1][1])[:60]],
           "reached": merge_reached(results), "unconfirmed_counterexamples": unconf, "validation_failures": vfail[:10], "real_headers_fallback": symlib.FALLBACK,
           "per_entry": sorted([[r["entry"], r["shard"], r.get("complete", False), r.get("paths", 0), r.get("queries", 0), round(r.get("solver_s", 0), 2), round(r.get("wall_s", 0), 2)] for r in results])}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assume, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(V + "/evidence", exist_ok=True); json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    for rep, text, how, e in viol:
        print("VIOLATION property=%s replay=%s" % (pid, rep)); print("  " + text); print("  replayed on the real code: " + how)
        for n, v in e["vals"][:40]: print("    %s = %s" % (n, v))
        for l in e["trace"][:8]: print("    at " + l)
    for u in unconf: print("note: counterexample of the symbolic machine did not reproduce natively (not reported): %s %s %s [%s]" % (u["entry"], u["kind"], u["msg"], u["replay"]))
    for k, v in inc.items(): print("note: not fully explored: %s x%d" % (k, v))
    print("%s %s: %d entries, %d paths, %d queries (%.1fs solver), build %.1fs, wall %.1fs, %s" % (pid, tier, len(cov["entries"]), cov["states"], cov["queries"], cov["solver_s"], tb, time.time() - t0, "VIOLATED" if viol else "held" + ("" if not inc else " (partially explored)")))
    return 1 if viol else 0
if __name__ == "__main__":
    rc = main(); sys.stdout.flush(); os._exit(rc)
