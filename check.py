#!/usr/bin/env python3
"""check.py <property> quick|thorough  - decide one property by symbolic execution of the real code.

Builds the executor (symex/) and the harness (harness/) against /repo's working tree, runs the
property's entries, replays every counterexample against a normal native build of the same code,
validates a sample of explored paths natively, and writes evidence/<property>.json.
Exit 0: held within the stated bounds. Exit 1 with a VIOLATION line: broken. Else: no answer.
"""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, BIN_FEATURES  # noqa: E402

BUILD = os.path.join(HERE, "build")
REPO = "/repo"
T0 = time.time()
LLVM = None
CPUS = min(8, os.cpu_count() or 8)


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["TZ"] = "UTC"
    e.pop("RUSTC_WRAPPER", None)
    return e


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class Inconclusive(Exception):
    pass


def run(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise Inconclusive("%s failed (%d):\n%s" % (what, p.returncode, p.stdout[-6000:]))
    return p.stdout


def llvm():
    global LLVM
    if not LLVM:
        root = run(["rustc", "--print", "sysroot"], "rustc", env=env()).strip()
        LLVM = os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    return LLVM


def build_symex():
    run(["cargo", "build", "--release", "--offline", "--target-dir", BUILD + "/symex"], "building the executor",
        cwd=HERE + "/symex", env=env())
    return BUILD + "/symex/release/symex"


def entries_of(binname):
    src = open("%s/harness/src/bin/%s.rs" % (HERE, binname)).read()
    return re.findall(r'extern "C" fn (h_\w+)', src)


def harness_cmd(binname, profile, td):
    c = ["cargo", "rustc", "--offline", "--bin", binname, "--target-dir", td]
    if profile == "symex":
        c += ["--profile", "symex"]
    elif profile == "release":
        c += ["--release"]
    f = BIN_FEATURES.get(binname)
    if f:
        c += ["--features", f]
    return c


def build_ir(binname):
    td = BUILD + "/ir"
    deps = td + "/symex/deps"
    pat = re.compile(r"^%s-[0-9a-f]+\..*\.rcgu\.bc$" % binname)
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith(binname + "-"):
                os.unlink(deps + "/" + f)
    e = env()
    e["RUSTFLAGS"] = "--cfg rustix_use_libc"
    ents = entries_of(binname)
    cmd = harness_cmd(binname, "symex", td) + ["--", "-C", "save-temps", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp",
        "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all", "-C", "link-arg=-Wl,-e," + ents[0], "-C", "link-arg=-nostartfiles"]
    # cargo's fingerprint does not see deleted temporaries: force the last step
    os.utime("%s/harness/src/bin/%s.rs" % (HERE, binname))
    run(cmd, "building the harness IR", cwd=HERE + "/harness", env=e)
    bc = [f for f in os.listdir(deps) if pat.match(f) and ".no-opt." not in f and "metadata" not in f and "allocator" not in f]
    if len(bc) != 1:
        raise Inconclusive("expected one bitcode module for %s, found %s" % (binname, bc))
    ll = "%s/%s.ll" % (BUILD, binname)
    run([llvm() + "/opt", "-strip-debug", "-passes=scalarizer", "-S", deps + "/" + bc[0], "-o", ll], "opt")
    if binname == "cli":
        link_program(ll)
    return ll


def link_program(ll):
    """Add the IR of the real `fyi` program to the module, its `main` as se_target_main."""
    td = BUILD + "/prog"
    deps = td + "/release/deps"
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith("fyi-"):
                os.unlink(deps + "/" + f)
    e = env()
    e["RUSTFLAGS"] = "--cfg rustix_use_libc"
    for k, v in (("LTO", "fat"), ("CODEGEN_UNITS", "1"), ("OPT_LEVEL", "1"), ("OVERFLOW_CHECKS", "true"), ("DEBUG_ASSERTIONS", "true"),
                 ("PANIC", "abort"), ("DEBUG", "0"), ("STRIP", "none")):
        e["CARGO_PROFILE_RELEASE_" + k] = v
    fp = td + "/release/.fingerprint"
    if os.path.isdir(fp):
        for f in os.listdir(fp):
            if re.match(r"^fyi-[0-9a-f]+$", f):
                shutil.rmtree(fp + "/" + f)
    run(["cargo", "rustc", "--offline", "--manifest-path", REPO + "/fyi/Cargo.toml", "--bin", "fyi", "--release", "--target-dir", td, "--",
         "-C", "save-temps", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], "building the program's IR", env=e)
    bc = [f for f in os.listdir(deps) if re.match(r"^fyi-[0-9a-f]+\..*\.rcgu\.bc$", f) and ".no-opt." not in f and "metadata" not in f and "allocator" not in f]
    if len(bc) != 1:
        raise Inconclusive("expected one bitcode module for fyi, found %s" % bc)
    prog = td + "/fyi.ll"
    run([llvm() + "/opt", "-strip-debug", "-passes=function(scalarizer),internalize,globaldce", "-internalize-public-api-list=main", "-S", deps + "/" + bc[0], "-o", prog], "opt")
    s = open(prog).read().replace("@main(", "@se_target_main(")
    # definitions that have to stay visible would clash with the harness's own copy of std
    for g in set(re.findall(r"^(@[\w.$]+) = (?!internal|private|external|appending)", s, re.M)) | set(re.findall(r"^define (?!internal)[^@\n]*(@[\w.$]+)\(", s, re.M)):
        if g != "@se_target_main":
            s = re.sub(re.escape(g) + r"(?![\w.$])", g + ".prog", s)
    open(prog, "w").write(s)
    run([llvm() + "/llvm-link", "-S", ll, prog, "-o", ll + ".tmp"], "llvm-link")
    os.replace(ll + ".tmp", ll)


NATIVE_LOCK = threading.Lock()
NATIVE = {}


def shim_objects(binname):
    d = BUILD + "/shim"
    os.makedirs(d, exist_ok=True)
    ents = entries_of(binname)
    tab = "%s/%s-table.c" % (d, binname)
    with open(tab, "w") as f:
        f.write("#include <string.h>\n")
        for x in ents:
            f.write("extern void %s(void);\n" % x)
        f.write("int se_main_index(const char *n) {\n")
        for i, x in enumerate(ents):
            f.write('\tif (!strcmp(n, "%s")) return %d;\n' % (x, i))
        f.write("\treturn -1;\n}\nvoid se_run(int i) {\n\tswitch (i) {\n")
        for i, x in enumerate(ents):
            f.write("\tcase %d: %s(); break;\n" % (i, x))
        f.write("\t}\n}\n")
    run(["gcc", "-O1", "-c", HERE + "/harness/shim.c", "-o", "%s/shim-%s.o" % (d, binname)], "gcc")
    run(["gcc", "-O1", "-c", tab, "-o", "%s/%s-table.o" % (d, binname)], "gcc")
    return ["%s/shim-%s.o" % (d, binname), "%s/%s-table.o" % (d, binname)]


ATOMIC = re.compile(r"^\s+(%\S+ = )?(load atomic|store atomic|atomicrmw|cmpxchg)\b")
PAUSE = re.compile(r"call void @llvm\.x86\.sse2\.pause\(\)")


def build_ir_native(binname):
    """The very IR the executor runs, compiled: with a scheduling point before each visible operation."""
    with NATIVE_LOCK:
        k = (binname, "ir")
        if k in NATIVE:
            return NATIVE[k]
        objs = shim_objects(binname)
        d = BUILD + "/shim"
        src, dst = "%s/%s.ll" % (BUILD, binname), "%s/%s-ir" % (d, binname)
        with open(src) as f, open(dst + ".ll", "w") as g:
            for l in f:
                if ATOMIC.match(l):
                    g.write("  call void @se_yield()\n")
                g.write(PAUSE.sub("call void @se_spin()", l))
            g.write("declare void @se_yield()\ndeclare void @se_spin()\n")
        run([llvm() + "/llc", "-O1", "-filetype=obj", "-relocation-model=pic", dst + ".ll", "-o", dst + ".o"], "llc")
        run(["gcc", "-o", dst] + objs + [dst + ".o", "-lpthread", "-ldl", "-lgcc_s", "-lm"], "linking the native replay")
        os.unlink(dst + ".ll")
        NATIVE[k] = dst
        return dst


def build_native(binname, profile):
    with NATIVE_LOCK:
        k = (binname, profile)
        if k in NATIVE:
            return NATIVE[k]
        objs = shim_objects(binname)
        d = BUILD + "/shim"
        e = env()
        e["RUSTFLAGS"] = "--cfg rustix_use_libc"
        td = BUILD + "/native"
        cmd = harness_cmd(binname, profile, td) + ["--"] + [x for o in objs for x in ("-C", "link-arg=" + o)]
        run(cmd, "building the native replay", cwd=HERE + "/harness", env=e)
        src = "%s/%s/%s" % (td, "debug" if profile == "dev" else profile, binname)
        dst = "%s/%s-%s" % (d, binname, profile)
        shutil.copy2(src, dst)
        NATIVE[k] = dst
        return dst


def fyi_bin():
    with NATIVE_LOCK:
        if "fyi" not in NATIVE:
            td = BUILD + "/fyi"
            run(["cargo", "build", "--offline", "--manifest-path", REPO + "/fyi/Cargo.toml", "--target-dir", td], "building fyi", env=env())
            NATIVE["fyi"] = td + "/debug/fyi"
        return NATIVE["fyi"]


def native(binname, profile, entry, inputs, params, sched=(), timeout=60):
    exe = build_ir_native(binname) if profile == "ir" else build_native(binname, profile)
    e = env()
    if binname == "cli":
        e["SE_FYI"] = fyi_bin()
    try:
        p = subprocess.run([exe, entry, ",".join(inputs), ",".join(str(x) for x in params), ",".join(str(x) for x in sched) or "-"], stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return "timeout", (x.stdout or b"").decode("utf-8", "replace")


def run_entry(symex, ll, ent, tier, jobs, limit):
    params = ent[tier]
    opts = ent.get("opts", {})
    d = "%s/run/%s-%d" % (BUILD, ent["entry"], os.getpid())
    os.makedirs(d, exist_ok=True)
    out = d + "/out.json"
    cmd = [symex, ll, "-e", ent["entry"], "-d", d, "-o", out, "-j", str(jobs), "-l", str(int(limit)),
           "-t", str(opts.get("solver_ms", 60000)), "-s", str(opts.get("steps", 50000000)), "-p", ",".join(str(x) for x in params)]
    p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    log(p.stderr.strip()[-1500:])
    if p.returncode or not os.path.exists(out):
        raise Inconclusive("executor failed on %s: %s" % (ent["entry"], p.stderr[-2000:]))
    r = json.load(open(out))[0]
    shutil.rmtree(d, ignore_errors=True)
    return r


def replay_path(prop, entry, n):
    d = "%s/evidence/replay" % HERE
    os.makedirs(d, exist_ok=True)
    return "%s/%s-%s-%d.json" % (d, prop, entry, n)


def load_known(prop):
    known = []
    p = HERE + "/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^known: property=(\S+) entry=(\S+) match=/(.*)/ (.*)$", l.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return known


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    only = sys.argv[3:]
    conf = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    budget = conf.get("budget", {"quick": 600, "thorough": 6 * 3600})[tier]
    symex = build_symex()
    bins = sorted(set(e["bin"] for e in conf["entries"]))
    ll = {b: build_ir(b) for b in bins}
    log("built", ",".join(bins))
    results, viol, notes = [], [], []
    inconclusive = []
    try:
        for ent in conf["entries"]:
            if tier not in ent or (only and ent["entry"] not in only):
                continue
            left = budget - (time.time() - T0)
            r = run_entry(symex, ll[ent["bin"]], ent, tier, CPUS, max(20, left))
            r["bin"], r["params"], r["bound"] = ent["bin"], ent[tier], ent["bound"](*ent[tier])
            results.append((ent, r))
            for v in r["violations"]:
                viol.append((ent, r, v))
            for x in r["errors"]:
                inconclusive.append("%s: %s" % (ent["entry"], x))
            if r["truncated"]:
                inconclusive.append("%s: %d paths truncated" % (ent["entry"], r["truncated"]))
            if viol:
                break
    finally:
        pass
    # ---- counterexamples: replay natively before reporting
    known = load_known(prop)
    confirmed, known_hit, unconfirmed = [], [], []
    for n, (ent, r, v) in enumerate(viol):
        if len(confirmed) > 1:
            break
        ins = [x[0] for x in v["inputs"]]
        rep = []
        # a schedule is replayed at the recorded points, which only the compiled IR has
        for prof in (("ir",) if v["sched"] else ("ir", "dev", "release")):
            rc, out = native(ent["bin"], prof, ent["entry"], ins, ent[tier], v["sched"], timeout=30)
            hit = rc in (3, 4) or (rc == "timeout") or (isinstance(rc, int) and rc < 0)
            rep.append({"profile": prof, "exit": rc, "output": out[-3000:], "reproduces": hit})
            if rc == "timeout":
                break
        path = replay_path(prop, ent["entry"], n)
        rec = {"property": prop, "entry": ent["entry"], "bin": ent["bin"], "message": v["msg"], "inputs": ins, "schedule": v["sched"],
               "params": ent[tier], "native": rep, "how": "%s/check.py replays: shim binary <entry> <inputs> <params> <schedule>" % HERE}
        json.dump(rec, open(path, "w"), indent=1)
        if any(x["reproduces"] for x in rep):
            desc = v["msg"] + " | " + " | ".join(x["output"] for x in rep)
            k = [kf for kf in known if kf[0] == ent["entry"] and kf[1].search(desc)]
            (known_hit if k else confirmed).append((k[0][2] if k else v["msg"], path))
        else:
            unconfirmed.append((v["msg"], path, [x["output"][-300:] for x in rep]))
    # ---- translation validation: explored paths, run natively
    checked = mismatches = 0
    jobs = []
    for ent, r in results:
        want = 40 if tier == "quick" else 120
        for s in r["samples"][:want]:
            jobs.append((ent, s))
    if jobs and not confirmed:
        for b in sorted(set(e["bin"] for e, _ in jobs)):
            build_ir_native(b)
        if any(e["bin"] == "cli" for e, _ in jobs):
            fyi_bin()

        def one(j):
            ent, s = j
            f = s.split("\t")
            ins = [x.split(":")[0] for x in f[0].split(",") if x]
            rc, out = native(ent["bin"], "ir", ent["entry"], ins, ent[tier], [x for x in f[1].split(",") if x], timeout=60)
            obs = [l[7:].strip() for l in out.splitlines() if l.startswith("SE-OBS")]
            rea = set(int(l.split()[1]) for l in out.splitlines() if l.startswith("SE-REACH"))
            wrea = set(int(x) for x in f[3].split(",") if x)
            ok = rc == 0 and "SE-OK" in out and ",".join(obs) == f[2] and rea == wrea
            return ok, (ent["entry"], s[:600], rc, out[-600:])
        with ThreadPoolExecutor(CPUS) as ex:
            for ok, info in ex.map(one, jobs):
                checked += 1
                if not ok:
                    mismatches += 1
                    if mismatches <= 3:
                        notes.append("native run differs: %r" % (info,))
    # ---- vacuity: every witness must be reached
    missing = []
    for ent, r in results:
        if r["violations"]:
            continue
        for w in ent.get("reach", [1]):
            if not r["reached"].get(str(w)):
                missing.append("%s: witness %d not reached" % (ent["entry"], w))
    # ---- evidence
    fns = sorted(set(f for _, r in results for f in r["functions"]))
    own = [f for f in fns if f.startswith(("fyi", "<fyi", "AnsiColor", "Msg", "Prog"))]
    wall = time.time() - T0
    tot = lambda k: sum(r[k] for _, r in results)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "wall_s": round(wall, 1),
        "coverage": {
            "states": max(1, tot("paths")), "transitions": max(1, tot("steps")), "traces_validated_against_impl": checked,
            "samples": [{"entry": e["entry"], "trace": s[:400]} for e, r in results for s in r["samples"][:2]][:12],
            "technique": "path-exhaustive symbolic execution of the LLVM IR rustc produces from /repo, z3 deciding branches and assertions",
            "entries": [{"entry": e["entry"], "what": e.get("what", ""), "bound": r["bound"], "params": e[tier], "wall_s": r["wall_s"], "paths": r["paths"], "dropped_by_assumptions": r["killed"],
                         "assertions": r["asserts"], "steps": r["steps"], "queries": r["queries"], "sat": r["sat"], "unsat": r["unsat"], "unknown": r["unknown"],
                         "truth_table_decisions": r["small_domain"], "cache_hits": r["cache_hits"], "solver_s": r["solver_s"], "solver_max_s": r["solver_max_s"],
                         "schedule_points": r["sched_points"], "context_switches": r["switches"], "witnesses": r["reached"]} for e, r in results],
            "solver_queries": tot("queries"), "solver_s": round(tot("solver_s"), 2), "functions_encoded": len(fns), "functions_of_the_repository": own,
            "assumptions": conf.get("assumes", []), "outside": conf.get("outside", ""),
            "native_mismatches": mismatches,
        },
        "result": "violation" if confirmed else "held",
        "known_findings": [k for k, _ in known_hit],
    }
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, prop), "w"), indent=1)
    for k, p in known_hit:
        pass
    for d in sorted(set(k for k, _ in known_hit)):
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    if confirmed:
        for m, p in confirmed[:3]:
            print("  " + m)
        print("VIOLATION property=%s replay=%s" % (prop, confirmed[0][1]))
        return 1
    bad = inconclusive + ["not reproduced natively: %r" % (u,) for u in unconfirmed] + missing + notes
    if bad:
        for b in bad[:12]:
            print("INCONCLUSIVE: " + b)
        return 2
    print("OK property=%s %s: %d paths, %d assertions, %d solver queries (%.1fs), %d native validations, %.0fs" %
          (prop, tier, tot("paths"), tot("asserts"), tot("queries"), tot("solver_s"), checked, wall))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Inconclusive as e:
        print("INCONCLUSIVE: %s" % e)
        rc = 2
    sys.exit(rc)
