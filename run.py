#!/usr/bin/env python3
"""Runs one property's check: build the harness against /repo's working tree under sanitizers,
execute it, judge what the monitors reported, write the evidence file.

usage: run.py CXX [--tier quick|thorough] [--seed N] [--variant NAME] [--only SECTION] [--keep]
exit 0: held on everything explored   exit 1: VIOLATION line printed   exit 2: the check itself failed
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RPP_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS, VARIANTS, WRAP_SETS

CXX = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
BASE = ["-std=c++20", "-g", "-fno-exceptions", "-fno-rtti", "-DRPP_RELWITHDEBINFO_BUILD",
        "-I" + REPO, "-I" + os.path.join(VERIF, "harness"), "-w", "-pthread"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_all(jobs):
    """jobs: list of (cmd, out). Returns None or the failing output."""
    with cf.ThreadPoolExecutor(8) as ex:
        for (cmd, out), r in zip(jobs, ex.map(lambda j: sh(j[0]), jobs)):
            if r.returncode != 0:
                return " ".join(cmd) + "\n" + r.stdout
    return None


def build(check, variants, work, seed=1, tier="quick"):
    jobs, links = [], []
    if check.get("gen"):
        g = [sys.executable, f"{VERIF}/harness/{check['gen']}", str(seed), tier, work]
        p = sh(g)
        if p.returncode: return " ".join(g) + "\n" + p.stdout
    for v in variants:
        vd = VARIANTS[v]
        flags = BASE + ["-I" + work] + vd["flags"]
        d = os.path.join(work, v)
        os.makedirs(d, exist_ok=True)
        objs = []
        for name, src in (("impl", REPO + "/rpp/impl/unify.cpp"), ("pos", REPO + "/rpp/pos/unify.cpp")):
            o = f"{d}/{name}.o"
            jobs.append(([CXX, *flags, *check.get("defs", []), "-c", src, "-o", o], o)); objs.append(o)
        for i, src in enumerate(check["src"] if isinstance(check["src"], list) else [check["src"]]):
            o = f"{d}/h{i}.o"
            jobs.append(([CXX, *flags, *check.get("defs", []), "-c", f"{VERIF}/harness/{src}", "-o", o], o)); objs.append(o)
        if vd.get("chaos"):
            o = f"{d}/chaos.o"
            jobs.append(([CXX, "-std=c++20", "-O2", "-g", "-c", f"{VERIF}/harness/chaos.cpp", "-o", o], o)); objs.append(o)
        wraps = []
        for ws in check.get("wrap", []):
            wraps += [f"-Wl,--wrap={s}" for s in WRAP_SETS[ws]]
        links.append(([CXX, *flags, *objs, *wraps, "-o", f"{d}/harness", "-lpthread"], d))
    err = compile_all(jobs)
    if err: return err
    return compile_all(links)


SAN_RE = re.compile(r"(AddressSanitizer|ThreadSanitizer|UndefinedBehaviorSanitizer|LeakSanitizer|MemorySanitizer)")


def one_run(work, v, check, seed, tier, shard, only, timeout):
    vd = VARIANTS[v]
    d = os.path.join(work, v, f"run{shard}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    outj, log = os.path.join(d, "out.json"), os.path.join(d, "log.txt")
    env = dict(os.environ)
    supp = os.path.join(VERIF, "harness", "tsan.supp")
    env["ASAN_OPTIONS"] = "detect_leaks=%d:abort_on_error=0:exitcode=55:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=1:malloc_context_size=12:strict_string_checks=1:" % (1 if check.get("leaks", True) else 0) + check.get("asan_options", "")
    env["LSAN_OPTIONS"] = "exitcode=56:report_objects=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=57"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:detect_deadlocks=1:" + check.get("tsan_options", "")
    env["MON_SEED"] = str(seed)
    if vd.get("chaos"): env["MON_CHAOS"] = str(check.get("chaos", 400))
    env.update(check.get("env", {}))
    scale = vd.get("scale", 1.0) * check.get("scale", {}).get(v, 1.0)
    cmd = [os.path.join(work, v, "harness"), "--seed", str(seed), "--tier", tier, "--out", outj, "--scale", str(scale)]
    if only: cmd += ["--only", only]
    t0 = time.time()
    timed_out = False
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, cwd=d, stdout=lf, stderr=subprocess.STDOUT, env=env, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            try:
                os.kill(p.pid, signal.SIGABRT); p.wait(timeout=10)
            except subprocess.TimeoutExpired:
                pass
        finally:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait()
    size = os.path.getsize(log)
    with open(log, "rb") as f:
        head = f.read(400000)
        if size > 800000:
            f.seek(size - 400000)
        text = (head + b"\n" + f.read()).decode("utf-8", "replace")
    res = dict(variant=v, seed=seed, shard=shard, cmd=cmd, wall=time.time() - t0, rc=p.returncode, timed_out=timed_out,
               viol=[], data=None, text=text)
    if os.path.exists(outj):
        try: res["data"] = json.load(open(outj))
        except Exception: pass
    for m in re.finditer(r"@@VIOL (\S+) \| (.*)", text):
        res["viol"].append((m.group(1), m.group(2)))
    if timed_out:
        res["hang"] = True
    elif not res["viol"]:
        done = "@@DONE ok" in text
        san = SAN_RE.search(text) or "runtime error:" in text
        if p.returncode == 0 and done and not (san and not check.get("san_text_ok")):
            pass
        elif san or "@@DIED" in text or p.returncode < 0 or p.returncode in (97, 55, 56, 57, 66):
            summ = re.search(r"SUMMARY: (.*)", text)
            rt = re.search(r"(\S+:\d+:\d+: runtime error: .*)", text)
            what = (rt.group(1) if rt else summ.group(1) if summ else "process died (rc %d)" % p.returncode)
            kind = "ubsan" if rt else "sanitizer" if summ else "died"
            loc = re.sub(r"[^A-Za-z0-9_.:-]+", "_", re.sub(r"/\S*/", "", re.sub(r":\d+:\d+", "", what)))[:80]
            ctx = re.findall(r"@@CTX (.*)", text)
            fatal = re.findall(r"^.*\[?fatal\]?.*$", text, re.M)
            res["viol"].append((f"{kind}.{loc}", what + (" | ctx: " + ctx[-1] if ctx else "") + (" | " + fatal[-1] if fatal else "")))
        else:
            res["error"] = f"harness ended with rc={p.returncode} and no verdict"
    return res


def load_known(prop):
    known = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+)\s*(.*)", line)
            if m and m.group(1) == prop: known.append((m.group(2), m.group(3).strip()))
    except FileNotFoundError:
        pass
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--variant"); ap.add_argument("--only"); ap.add_argument("--keep", action="store_true")
    ap.add_argument("--shards", type=int)
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    check = CHECKS[prop]
    variants = [a.variant] if a.variant else check["variants"]
    root = os.path.join(VERIF, "build"); os.makedirs(root, exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=root)
    try:
        rc = run(prop, tier, check, variants, work, a, t0)
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
        else: print("kept", work)
    sys.exit(rc)


def run(prop, tier, check, variants, work, a, t0):
    err = build(check, variants, work, a.seed, tier)
    if err:
        print("BUILD-ERROR\n" + err[-6000:]); return 2
    tb = time.time() - t0
    timeout = check.get("timeout", 200) * (4 if tier == "thorough" else 1)
    shards = a.shards or check.get("shards", {}).get(tier) or (2 if tier == "quick" else 8)
    tasks = []
    for vi, v in enumerate(variants):
        for s in range(shards):
            tasks.append((v, a.seed * 1000 + vi * 100 + s, s))
    results = []
    par = check.get("parallel", 8)
    with cf.ThreadPoolExecutor(par) as ex:
        futs = [ex.submit(one_run, work, v, check, seed, tier, s, a.only, timeout) for v, seed, s in tasks]
        for f in futs: results.append(f.result())
    # A time-out is confirmed by running the same case again on its own before it counts.
    for i, r in enumerate(results):
        if r.get("hang") and not r["viol"]:
            again = one_run(work, r["variant"], check, r["seed"], tier, r["shard"], a.only, timeout)
            if again.get("hang") or again["viol"]:
                ctx = re.findall(r"@@CTX (.*)", again["text"] or r["text"])
                if not again["viol"]:
                    again["viol"].append(("hang", f"no progress within {timeout} s, twice; " + (ctx[-1] if ctx else "")))
            results[i] = again
            break
    known = load_known(prop)
    seen_known, fresh, errors = set(), [], []
    for r in results:
        if r.get("error"): errors.append(r)
        for k, msg in r["viol"]:
            hit = [kk for kk, _ in known if kk == k]
            if hit: seen_known.add(hit[0])
            else: fresh.append((k, msg, r))
    ev, dn, counters, samples, rule = 0, {}, {}, [], ""
    for r in results:
        d = r["data"]
        if not d: continue
        ev += d["evaluations"]; dn.setdefault(r["variant"], 0); dn[r["variant"]] = max(dn[r["variant"]], d["distinct"])
        for k, n in d["counters"].items():
            kk = f"{r['variant']}.{k}"
            counters[kk] = max(counters.get(kk, 0), n) if k.startswith("max_") else counters.get(kk, 0) + n
        samples += [s for s in d["samples"] if s not in samples][:6]
        rule = d["rule"]
    evid = dict(property=prop, tier=tier, seed=a.seed, level=check.get("level", "exploration"),
                coverage=dict(evaluations=ev, distinct_nontrivial=max(dn.values()) if dn else 0, rule=rule,
                              samples=samples[:12] or ["(no sample)"], observed=counters,
                              runs=[dict(variant=r["variant"], seed=r["seed"], wall_s=round(r["wall"], 2), rc=r["rc"]) for r in results],
                              build_s=round(tb, 1)),
                assumptions=check.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.only and not a.variant:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(evid, f, indent=1)
    for k, desc in known:
        if k in seen_known: print(f"KNOWN-FINDING: property={prop} key={k} {desc}")
    print(f"{prop} {tier} seed={a.seed}: {ev} evaluations, distinct {dn}, build {tb:.1f}s, total {time.time()-t0:.1f}s")
    if fresh:
        rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
        done = set()
        for k, msg, r in fresh:
            if k in done or len(done) >= 6: continue
            done.add(k)
            path = os.path.join(rdir, f"{prop}-{len(done)}.txt")
            with open(path, "w") as f:
                f.write(f"property {prop}\nkey {k}\nmessage {msg}\nvariant {r['variant']} seed {r['seed']}\n"
                        f"replay: cd /verif && python3 run.py {prop} --tier {tier} --seed {a.seed} --variant {r['variant']}\n"
                        f"harness: {' '.join(r['cmd'])}\n\n--- log ---\n{r['text'][-30000:]}\n")
            print(f"  {k}: {msg[:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for r in errors[:3]: print("HARNESS-ERROR", r["variant"], r["error"], "\n", r["text"][-3000:])
        return 2
    if ev == 0 or (dn and max(dn.values()) == 0):
        print("HARNESS-ERROR: nothing was evaluated"); return 2
    return 0


if __name__ == "__main__":
    main()
