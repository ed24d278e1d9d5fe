#!/usr/bin/env python3
"""Builds the simulator around /repo's current sources and runs one property's seeded search.

  check.py <property> [quick|thorough]     decide a property
  check.py --setup                         build everything once
  check.py --replay FILE                   run one recorded failure again (exit 1: it fails the same way)
"""
import array, concurrent.futures as cf, hashlib, json, os, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 4

# variant -> (engine, compiler, flags for the library and its wrappers)
SANCOV = "-fsanitize-coverage=edge,trace-pc,trace-loads,trace-stores"
ATOMICS = ["-include", os.path.join(SIM, "atomics.h")]
VARIANTS = {
    "probe":     (1, "clang++", ["-O2", SANCOV + ",trace-cmp", *ATOMICS]),
    "probe-p":   (1, "clang++", ["-O2", SANCOV, *ATOMICS, "-include", os.path.join(SIM, "portable.h")]),
    "probe-O0":  (1, "clang++", ["-O0", SANCOV, *ATOMICS]),
    "insn":      (2, "g++", ["-O2"]),
    "insn-p":    (2, "g++", ["-O2", "-include", os.path.join(SIM, "portable.h")]),
    "insn-O3n":  (2, "g++", ["-O3", "-DNDEBUG"]),
}
PARTS = [(f, lo) for f in ("double", "float") for lo in (0, 3, 6, 9, 12)]
REDEF = ["__cxa_atexit=simx_cxa_atexit", "atexit=simx_atexit", "__cxa_thread_atexit=simx_cxa_thread_atexit", "getenv=simx_getenv", "secure_getenv=simx_secure_getenv",
         "time=simx_time", "gettimeofday=simx_gettimeofday", "clock=simx_clock",
         "pthread_key_create=simx_key_create", "pthread_key_delete=simx_key_delete", "pthread_setspecific=simx_setspecific", "pthread_getspecific=simx_getspecific",
         "tss_create=simx_tss_create", "tss_delete=simx_tss_delete", "tss_set=simx_tss_set", "tss_get=simx_tss_get",
         "rand=simx_rand", "srand=simx_srand", "random=simx_random_", "srandom=simx_srandom", "drand48=simx_drand48", "lrand48=simx_lrand48", "mrand48=simx_mrand48", "srand48=simx_srand48",
         "setenv=simx_setenv", "unsetenv=simx_unsetenv", "putenv=simx_putenv", "clearenv=simx_clearenv", "strtok=simx_strtok", "setlocale=simx_setlocale", "_ZNSt6locale6globalERKS_=simx_locale_global",
         "_ZSt13set_terminatePFvvE=simx_set_terminate", "_ZSt15set_new_handlerPFvvE=simx_set_new_handler", "_ZNSt8ios_base15sync_with_stdioEb=simx_sync_with_stdio",
         "uselocale=simx_uselocale", "pthread_setcancelstate=simx_setcancelstate", "pthread_setcanceltype=simx_setcanceltype", "pthread_atfork=simx_pthread_atfork", "on_exit=simx_on_exit", "at_quick_exit=simx_at_quick_exit",
         "seed48=simx_seed48", "lcong48=simx_lcong48", "initstate=simx_initstate", "setstate=simx_setstate", "sched_getcpu=simx_sched_getcpu", "getcpu=simx_getcpu", "_ZNSt13random_device9_M_getvalEv=simx_random",
         "ecvt=simx_ecvt", "fcvt=simx_fcvt", "qecvt=simx_qecvt", "qfcvt=simx_qfcvt", "gmtime=simx_gmtime", "localtime=simx_localtime", "asctime=simx_asctime", "ctime=simx_ctime", "l64a=simx_l64a", "tmpnam=simx_tmpnam", "lgamma=simx_lgamma", "lgammaf=simx_lgammaf", "lgammal=simx_lgammal", "getopt=simx_getopt", "hcreate=simx_hcreate", "hsearch=simx_hsearch", "mallopt=simx_mallopt", "getauxval=simx_getauxval",
         "program_invocation_name=simx_progname", "program_invocation_short_name=simx_progname3", "__progname=simx_progname1", "__progname_full=simx_progname2"]

REDEF_PROBE = ["memcpy=simx_memcpy", "memmove=simx_memmove", "memset=simx_memset"]   # block operations become instrumented accesses
NOBUILTIN = ["-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def sources():
    src = []
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = sorted(d for d in dirs if not d.startswith(".") and (rel != "." or d not in ("tests", "benchmark", "benchmarks", "build", "subproject", "other_files")))
        src += [os.path.join(root, f) for f in sorted(files) if f.endswith((".h", ".hpp", ".hh", ".inl", ".ipp", ".cpp", ".cc", ".cxx", ".c"))]
    return src

def lib_cpps():
    return [s for s in sources() if s.endswith((".cpp", ".cc", ".cxx")) and os.path.basename(os.path.dirname(s)) == "fp_to_chars"]

def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def build(variants, log=sys.stderr):
    """Returns {variant: executable}; a variant whose library code does not compile is left out."""
    os.makedirs(BUILD, exist_ok=True)
    simsrc = [os.path.join(SIM, f) for f in sorted(os.listdir(SIM))]
    key = digest(sources() + simsrc + [os.path.abspath(__file__)], REPO)
    for d in os.listdir(BUILD):          # keep the disk small
        if d.startswith("b-") and d != "b-" + key:
            p = os.path.join(BUILD, d)
            if time.time() - os.path.getmtime(p) > 3600: shutil.rmtree(p, ignore_errors=True)
    out = os.path.join(BUILD, "b-" + key)
    os.makedirs(out, exist_ok=True)
    todo = [v for v in variants if not os.path.exists(os.path.join(out, "sim-" + v))]
    if todo:
        tmp = os.path.join(out, "tmp-%d" % os.getpid()); os.makedirs(tmp)
        jobs = {}
        for f in ("kernel", "driver", "sut_tables"):
            o = os.path.join(tmp, f + ".o")
            jobs[o] = ["g++", "-std=c++17", "-O2", "-fno-stack-protector", "-fno-pie", "-fcf-protection=none", "-I" + SIM, "-c", os.path.join(SIM, f + ".cpp"), "-o", o]
        objs = {v: [] for v in todo}
        for v in todo:
            eng, cc, fl = VARIANTS[v]
            base = [cc, "-std=c++17", "-fno-pie", "-I" + REPO, "-I" + SIM, "-w"] + fl + (NOBUILTIN if eng == 1 else [])
            for f, lo in PARTS:
                o = os.path.join(tmp, "%s-%s%d.o" % (v, f, lo)); objs[v].append(o)
                jobs[o] = base + ["-DSIM_FLOAT=" + f, "-DSIM_LO=%d" % lo, "-c", os.path.join(SIM, "sut_part.cpp"), "-o", o]
            for i, c in enumerate(lib_cpps()):
                o = os.path.join(tmp, "%s-lib%d.o" % (v, i)); objs[v].append(o)
                jobs[o] = base + ["-c", c, "-o", o]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = dict(zip(jobs, ex.map(lambda o: sh(jobs[o]), jobs)))
        for f in ("kernel", "driver", "sut_tables"):
            r = res[os.path.join(tmp, f + ".o")]
            if r.returncode: raise SystemExit("the simulator does not compile:\n" + r.stdout[-3000:])
        def link(v):
            bad = [o for o in objs[v] if res[o].returncode]
            if bad: return v, res[bad[0]].stdout[-800:]
            m, k, kt = (os.path.join(tmp, v + s) for s in (".m.o", ".k.o", ".keep"))
            with open(kt, "w") as f: f.write("".join("sut_rows_%s_%d\n" % p for p in PARTS))
            vc = os.path.join(tmp, v + ".var.cpp")
            with open(vc, "w") as f: f.write('extern "C" { extern const int sut_engine = %d; extern const char sut_variant[] = "%s"; }\n' % (VARIANTS[v][0], v))
            exe = os.path.join(out, "sim-" + v)
            cmds = [["ld", "-r", "--force-group-allocation", "-T", os.path.join(SIM, "sut.ld"), "-o", m] + objs[v],
                    ["objcopy", "--keep-global-symbols=" + kt] + [x for r in REDEF + (REDEF_PROBE if VARIANTS[v][0] == 1 else []) for x in ("--redefine-sym", r)] + [m, k],
                    ["g++", "-fno-pie", "-c", vc, "-o", vc + ".o"],
                    ["g++", "-static", "-no-pie", "-Wl,-z,norelro"] + [os.path.join(tmp, x + ".o") for x in ("kernel", "driver", "sut_tables")] + [k, vc + ".o", "-o", exe + ".tmp", "-lpthread"]]
            for c in cmds:
                r = sh(c)
                if r.returncode: return v, " ".join(c[:2]) + ": " + r.stdout[-800:]
            os.replace(exe + ".tmp", exe)
            return v, None
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for v, err in ex.map(link, todo):
                if err: print("variant %s not built: %s" % (v, err.strip().replace("\n", " | ")), file=log)
        shutil.rmtree(tmp, ignore_errors=True)
    loc = os.path.join(BUILD, "locale")
    if not os.path.exists(os.path.join(loc, "de_DE.UTF-8")) and shutil.which("localedef"):
        os.makedirs(loc, exist_ok=True)
        sh(["localedef", "--no-archive", "-i", "de_DE", "-f", "UTF-8", os.path.join(loc, "de_DE.UTF-8")])
    return {v: os.path.join(out, "sim-" + v) for v in variants if os.path.exists(os.path.join(out, "sim-" + v))}

def env():
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LOCPATH": os.path.join(BUILD, "locale")}
    return e

# property -> workload description used in the evidence, and per-tier settings
PROPS = {
    "C01": "2-4 caller threads x 1-5 calls, arbitrary interleavings at load/store/branch (probe) or instruction (insn) granularity",
    "C02": "signal handlers calling the library on top of an interrupted call, up to 5 deep, on 1-4 threads",
    "C03": "calls abandoned (longjmp/async cancel), caller threads killed, process forked at arbitrary instants; later calls go on",
    "C04": "callers suspended forever inside calls; the others must finish on their own, then the suspended ones",
    "C05": "packed and guard-page destinations, neighbouring bytes rewritten by their owners mid-call; every store checked",
    "C06": "random prior contents of the destination; destination overwritten from outside mid-call",
    "C07": "random rounding control, DAZ/FTZ, x87 precision per call, and flips of both mid-call",
    "C08": "random MXCSR/x87/errno/unmasked exceptions/occupied x87 stack on entry; compared on return",
    "C09": "allocator and system calls failing (always, or toggled mid-call), 8 KiB stacks",
    "C10": "calls before, between, during and after the library's static initialisers and destructors and of its thread-exit destructors",
    "C11": "process locale (C and C++), wall clock, TSC and environment variables changing before and during calls",
    "C12": "histories of calls on 1-2 threads and bulk histories of up to 2^18 calls, reordered, against the call made alone",
    "C26": "destinations at any alignment, across page boundaries and at the edge of mappings; callers' stacks and threads anywhere",
    "C27": "the same plan of calls, signals, exceptions and failing allocations gone through again and again, by the same or by new threads; what is in use compared",
    "C28": "calls under signals, exceptions, failing resources, kills, other locales and clocks; every system call and every use of application-wide state inspected",
    "C29": "the same calls made again and again, up to millions of times, by the same or by new threads, some of them cut off; the steps they take compared",
    "C13": "case handlers and policies that yield (and continue on another thread), throw, re-enter the library or abandon the call",
}
LONG = {"C09", "C12", "C28"}      # properties that speak of arbitrarily many calls: (seconds of full-speed history per variant)
TIER = {"quick": dict(secs=45, long={"insn": 16, "insn-O3n": 12}, bulk_n=20000, scout_rounds=60, scout_n=30000, plan=[("probe", 5), ("probe-p", 1), ("insn", 1), ("insn-O3n", 1)]),
        "thorough": dict(secs=480, scout_secs=150, long={"insn": 460, "insn-O3n": 240}, bulk_n=200000, scout_rounds=300, scout_n=100000,
                         plan=[("probe", 3), ("probe-p", 1), ("probe-O0", 1), ("insn", 1), ("insn-p", 1), ("insn-O3n", 1)])}

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def finish_replay(exe, path):
    r = sh([exe, "replay", path], env=env())
    return r.returncode, r.stdout.strip()

def decide(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = dict(TIER[tier]); num = int(prop[1:])
    if os.environ.get("SIM_SECS"): cfg["secs"] = float(os.environ["SIM_SECS"])
    exes = build([v for v, _ in cfg["plan"]])
    if not any(v in exes for v in ("probe", "insn")):
        raise SystemExit("no variant could be built")
    tbuild = time.time() - t0
    work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid())); os.makedirs(work)
    repdir = os.path.join(VERIF, "replays"); os.makedirs(repdir, exist_ok=True)
    try:
        # 1. scout: which calls touch shared mutable state at all? (steers the search, judges nothing)
        hot = os.path.join(work, "hot"); scouted = 0; pool = []
        if "probe" in exes:
            ps = [subprocess.Popen([exes["probe"], "scout", "secs=%d" % cfg.get("scout_secs", 60), "seed=%d" % seed, "k0=%d" % i, "rounds=%d" % cfg["scout_rounds"], "bulk_n=%d" % cfg["scout_n"], "out=%s.%d" % (hot, i)],
                                   stdout=subprocess.PIPE, text=True, env=env()) for i in range(8)]
            for i, p in enumerate(ps):
                try: o, _ = p.communicate(timeout=cfg.get("scout_secs", 60) + 60)
                except subprocess.TimeoutExpired: p.kill(); o, _ = p.communicate()
                if o.split(): scouted += int(o.split()[0])
                if os.path.exists("%s.%d" % (hot, i)): pool += open("%s.%d" % (hot, i)).read().splitlines()
        lines = sorted(set(pool)); pool = [l for l in lines if l[0] == "H"][:400]; rare = [l for l in lines if l[0] == "R"]; konst = [l for l in lines if l[0] == "K"]
        with open(hot, "w") as f: f.write("".join(l + "\n" for l in pool + rare + konst))
        # 2. the search
        ws = []; idx = 0
        plan = [(v, n) for v, n in cfg["plan"] if v in exes]
        spare = sum(n for _, n in cfg["plan"]) - sum(n for _, n in plan)
        if spare: plan[0] = (plan[0][0], plan[0][1] + spare)
        for v, n in plan:
            for i in range(n):
                o = os.path.join(work, "w%d.json" % idx); rp = os.path.join(repdir, "%s-%s-%d.replay" % (prop, v, i))
                if os.path.exists(rp): os.remove(rp)
                a = [exes[v], "work", "prop=%d" % num, "seed=%d" % seed, "k0=%d" % i, "step=%d" % n, "count=%d" % (1 << 40), "secs=%g" % cfg["secs"],
                     "hot=" + hot, "out=" + o, "replay=" + rp, "bulk_n=%d" % cfg["bulk_n"]]
                if prop in LONG and v in cfg["long"]: a.append("long=%d" % max(1, min(cfg["long"][v], int(cfg["secs"]) - 5)))
                ws.append(dict(v=v, out=o, rp=rp, p=subprocess.Popen(a, stdout=open(o + ".out", "w"), stderr=open(o + ".err", "w"), env=env(), start_new_session=True)))
                idx += 1
        deadline = time.time() + cfg["secs"] + 200
        found = None; known = []; errors = []; kf = [k for k in known_findings() if k["property"] == prop and not k.get("fixed")]
        live = list(ws)
        while live and found is None:
            time.sleep(0.05)
            for w in list(live):
                rc = w["p"].poll()
                if rc is None:
                    if time.time() > deadline: w["p"].kill(); errors.append("%s worker timed out" % w["v"]); live.remove(w)
                    continue
                live.remove(w); w["rc"] = rc
                text = open(w["out"] + ".out").read(); err = open(w["out"] + ".err").read()
                if rc == 1:
                    msg = [l[6:] for l in text.splitlines() if l.startswith("FOUND ")]
                    rrc, rout = finish_replay(exes[w["v"]], w["rp"])     # a fresh process must reproduce it
                    if rrc == 1:
                        hit = [k for k in kf if k["match"] in msg[0]]
                        if hit: known.append(hit[0])
                        else: found = (w, msg[0] if msg else "?"); break
                    else: errors.append("replay of %s gave %d: %s" % (w["rp"], rrc, rout[-300:]))
                elif rc != 0: errors.append("%s worker exit %d: %s" % (w["v"], rc, err[-600:]))
                if err and rc in (0, 1): sys.stderr.write(err[-2000:])
        for w in live:
            try: os.killpg(w["p"].pid, signal.SIGKILL)
            except ProcessLookupError: pass
            w["p"].wait()
        # 3. evidence
        stats = []; il = set()
        for w in ws:
            if os.path.exists(w["out"]):
                stats.append(json.load(open(w["out"])))
                a = array.array("Q")
                with open(w["out"] + ".il", "rb") as f: a.frombytes(f.read())
                il.update((w["v"], x) for x in a)
        wall = time.time() - t0
        write_evidence(prop, tier, seed, cfg, stats, il, wall, tbuild, found, known, scouted, pool, len(rare), len(konst), errors, exes)
        for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k["match"]))
        if found:
            w, msg = found
            print(msg); sys.stdout.write("".join(l for l in open(w["rp"]) if l.startswith("#"))[:6000])
            print("VIOLATION property=%s replay=%s" % (prop, w["rp"]))
            return 1
        if errors:
            print("\n".join(errors), file=sys.stderr); return 3
        tot = sum(s["runs"] + s["bulk"] for s in stats)
        if tot == 0: print("nothing was explored", file=sys.stderr); return 3
        print("%s: held on %d simulated runs (%d bulk histories), %d calls compared, %d distinct interleavings, %.0f s" % (
            prop, tot, sum(s["bulk"] for s in stats), sum(s["compared"] + s["bulkcalls"] + s["longcalls"] for s in stats), len(il), wall))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def write_evidence(prop, tier, seed, cfg, stats, il, wall, tbuild, found, known, scouted, pool, nrare, nkonst, errors, exes):
    S = lambda k: sum(s[k] for s in stats)
    fired = {}
    for s in stats:
        for k, v in s["fired"].items(): fired[k] = fired.get(k, 0) + v
    runs = S("runs") + S("bulk"); swall = max([s["wall"] for s in stats] or [1]) or 1
    faults = {k: v for k, v in fired.items() if k not in ("run", "run_op")}
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(il) + S("bulk"),
        "rule": "one evaluation = one simulated execution, a pure function of (VERIF_SEED, property, variant, run number); two executions are distinct if the "
                "sequence of (caller, nesting depth, program counter) at their scheduling points differs; bulk histories count one each. Workload: " + PROPS[prop],
        "samples": [{"variant": s["variant"], "first_runs": "run numbers 0..%d of this worker's residue class" % max(0, s["tried"] - 1),
                     "runs": s["runs"], "bulk_histories": s["bulk"], "calls_completed": s["completed"]} for s in stats][:8],
        "runs_per_hour": int(runs * 3600 / swall), "seeds_per_hour": int(runs * 3600 / swall),
        "simulated_steps": S("steps"), "simulated_clock_ns": S("clock_ns"), "scheduling_points": S("slices"),
        "simulated_time_note": "the library has no timers; simulated time is counted in executed steps (instrumented accesses/branches or instructions)",
        "context_starts": S("switches"), "calls_completed": S("completed"), "calls_abandoned_by_faults": S("abandoned"),
        "calls_compared_with_alone": S("compared"), "bulk_calls": S("bulkcalls"), "calls_in_long_histories": S("longcalls"),
        "faults_injected": faults, "faults_landing_inside_a_call": S("faults_in_flight"), "fault_requests_not_applicable_when_due": S("skipped"),
        "allocations_seen": S("allocs"), "allocations_failed": S("allocfails"), "system_calls_trapped": S("syscalls"), "tsc_reads_trapped": S("tsc"),
        "accesses_to_shared_mutable_state": S("hot"), "scouted_calls": scouted, "scouted_calls_touching_shared_state": len(pool), "scouted_calls_on_rare_paths": nrare, "comparison_constants_in_dictionary": nkonst,
        "stores_delayed_in_store_buffers": S("sbdelays"), "runs_with_nesting": S("nested_runs"), "runs_with_several_threads": S("multi_runs"), "calls_excluded_because_they_fail_alone": S("excluded") + S("bulk_alone_crash"),
        "determinism_rechecks": S("recheck"), "distinct_interleavings": len(il), "distinct_code_locations_max": max([s["cov"] for s in stats] or [0]),
        "static_initialisers_in_library": max([s["ninit"] for s in stats] or [0]), "static_destructors_in_library": max([s["nfini"] for s in stats] or [0]),
        "comma_locale_available": bool(max([s["have_locale"] for s in stats] or [0])),
        "by_variant": {v: sum(s["runs"] + s["bulk"] for s in stats if s["variant"] == v) for v in sorted({s["variant"] for s in stats})},
        "variants_not_built": [v for v, _ in cfg["plan"] if v not in exes],
        "real_components": ["grisu_exact.h", "fp_to_chars.h", "fp_to_chars/fp_to_chars.cpp (compiled from the working tree)", "glibc and libstdc++ string/locale/unwinder code they call"],
        "stubbed_components": ["thread scheduler", "signal delivery", "allocator (malloc family)", "system calls (trapped and emulated)", "clocks, TSC, getenv", "user callbacks", "process start-up/shutdown order"],
        "build_s": round(tbuild, 1), "errors": errors, "known_findings_seen": [k["match"] for k in known],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 1), "violations": 1 if found else 0,
          "assumptions": ["sampling, not enumeration: schedules, faults and inputs not drawn from the seed were not explored",
                          "memory is sequentially consistent in the probe variants and x86-TSO for static data in the insn variants; weaker reorderings are not simulated",
                          "the reference is the same code executing the same call alone in a pristine process image"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1); f.write("\n")

def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        b = build(list(VARIANTS)); print("built:", ", ".join(sorted(b))); return 0 if b else 2
    if a[:1] == ["--replay"]:
        v = [l.split()[1] for l in open(a[1]) if l.startswith("variant ")][0]
        rc, out = finish_replay(build([v])[v], a[1]); print(out); return rc
    if not a or a[0] not in PROPS: print(__doc__); return 2
    return decide(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))

if __name__ == "__main__": sys.exit(main())
