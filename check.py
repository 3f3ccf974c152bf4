#!/usr/bin/env python3
"""Decide one property by running the real code under monitors and sanitizers.

usage: check.py <PID> [--tier quick|thorough] [--seed N] [--replay FILE] [--keep]

Builds the property's harness(es) from /repo's working tree in a scratch
directory, runs them in parallel shards, collects what the monitors observed,
and maps every violation (oracle mismatch, sanitizer report, abort, confirmed
hang) to a stable key that is matched against known_findings.txt.

exit 0 held, 1 violated (VIOLATION line printed), 2 the check itself failed.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

REPO = os.environ.get("VH_REPO", "/repo")
CXX = os.environ.get("VH_CXX", "/usr/bin/clang++")
NPROC = int(os.environ.get("VH_JOBS", str(os.cpu_count() or 8)))

COMMON = ["-std=c++20", "-gline-tables-only", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-w",
          "-isystem", f"{HERE}/shim", "-I", f"{HERE}/lib", "-I", f"{REPO}/include", "-DFITORIA_HAS_FMT"]
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             f"-fsanitize-ignorelist={HERE}/lib/ubsan_ignore.txt"],
    "tsan": ["-fsanitize=thread"],
    "none": [],
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:exitcode=98:detect_stack_use_after_return=1:hard_rss_limit_mb=3500:"
                    "allocator_may_return_null=0:malloc_context_size=20",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1:history_size=4",
    "LSAN_OPTIONS": "exitcode=98",
}


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build_one(spec, tmp):
    src = spec["src"]
    san = spec.get("san", "asan")
    name = spec["name"]
    out = os.path.join(tmp, name)
    head = [spec.get("cxx", CXX)] + COMMON + SAN[san] + spec.get("flags", ["-O1"])
    libs = spec.get("libs", ["-lfmt"])
    # further translation units: (source, extra flags), compiled in parallel
    parts = spec.get("parts", [])
    if parts:
        objs = [f"{out}.{i}.o" for i in range(len(parts) + 1)]
        cmds = [head + f + ["-c", os.path.join(HERE, "harness", s), "-o", o]
                for (s, f), o in zip([(src, [])] + parts, objs)]
        final = head + objs + ["-o", out] + libs
    else:
        cmds, final = [], head + [os.path.join(HERE, "harness", src), "-o", out] + libs
    t0 = time.time()

    def run(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           cwd=tmp, timeout=800)
        if p.returncode != 0:
            raise CheckError(f"build of {src} failed:\n{p.stdout[-6000:]}")

    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(run, cmds))
    run(final)
    return name, out, time.time() - t0


def run_shard(binp, spec, tier, seed, shard, nshards, tmp, extra=(), limit=None, env_extra=None, timeout=None):
    tag = f"{spec['name']}.{shard}.{abs(hash(tuple(extra))) % 99999}"
    rep = os.path.join(tmp, tag + ".json")
    stat = os.path.join(tmp, tag + ".status")
    errp = os.path.join(tmp, tag + ".err")
    wd = os.path.join(tmp, tag + ".wd")
    os.makedirs(wd, exist_ok=True)
    cmd = [binp, "--seed", str(seed), "--shard", str(shard), "--nshards", str(nshards), "--out", rep, "--status", stat]
    if tier == "thorough":
        cmd.append("--thorough")
    scale = os.environ.get("VH_SCALE") or (str(spec["scale"]) if "scale" in spec and tier != "thorough" else None)
    if scale:
        cmd += ["--scale", scale]
    cmd += ["--limit", str(limit or spec.get("case_limit", 40))]
    cmd += list(extra)
    env = dict(os.environ)
    env.update(ENV)
    env.update(spec.get("env", {}))
    env["TZ"] = spec.get("tz", "UTC")
    env["TMPDIR"] = wd
    if env_extra:
        env.update(env_extra)
    timeout = timeout or (700 if tier == "quick" else 7200)
    timed_out = False
    with open(errp, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, cwd=wd, env=env, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            os.killpg(p.pid, signal.SIGKILL)
            rc = p.wait()
    with open(errp, "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(0)
        err = f.read(200000).decode("utf-8", "replace")
        if n > 400000:
            f.seek(n - 200000)
            err += "\n...\n" + f.read().decode("utf-8", "replace")
        elif n > 200000:
            err += f.read().decode("utf-8", "replace")
    report = None
    if os.path.exists(rep):
        try:
            report = json.load(open(rep))
            report["distinct"] = open(rep + ".distinct", "rb").read()
        except Exception:
            report = None
    early = []
    if not report and os.path.exists(rep + ".viol"):
        for line in open(rep + ".viol", errors="replace"):
            try:
                early.append(json.loads(line))
            except ValueError:
                pass
    status = ""
    if os.path.exists(stat):
        status = open(stat, "rb").read().decode("utf-8", "replace").strip()
    shutil.rmtree(wd, ignore_errors=True)
    return dict(rc=rc, err=err, report=report, status=status, timed_out=timed_out, shard=shard, spec=spec, early=early)


def parse_status(status):
    m = re.match(r"suite=(\S+) case=(\d+)", status or "")
    return (m.group(1), int(m.group(2))) if m else ("?", -1)


def frames(err):
    """first stack frames inside the library (or harness), by function name"""
    out = []
    for m in re.finditer(r"^\s*#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?):(\d+)", err, re.M):
        fn, path = m.group(1), m.group(2)
        if "/include/fitoria/" in path:
            out.append(os.path.basename(path))
            break
    return out


def classify(err, rc, suite):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    fr = frames(err)
    loc = f"@{fr[0]}" if fr else ""
    if m:
        return f"asan:{m.group(1)}{loc}:{suite}"
    if "hard rss limit exhausted" in err or "hard_rss_limit" in err:
        return f"memory-limit:{suite}"
    m = re.search(r"WARNING: ThreadSanitizer: ([^\(\n]+)", err)
    if m:
        return f"tsan:{m.group(1).strip().replace(' ', '-')}{loc}:{suite}"
    m = re.search(r"ERROR: LeakSanitizer: detected memory leaks", err)
    if m:
        return f"leak{loc}:{suite}"
    m = re.search(r"(\S+?):\d+:\d+: runtime error: (.{0,60})", err)
    if m:
        what = re.sub(r"[0-9a-fx]{4,}|\d+", "N", m.group(2))
        return f"ubsan:{os.path.basename(m.group(1))}:{what.strip()}:{suite}"
    m = re.search(r"Assertion '([^']{0,80})", err)
    if m:
        return f"libstdcxx-assert:{m.group(1)}:{suite}"
    m = re.search(r"terminate called[^\n]*\n?(?:.*what\(\):\s*([^\n]*))?", err)
    if m:
        return f"terminate:{suite}"
    m = re.search(r"[Aa]ssertion[^\n]{0,80}", err)
    if m:
        return f"assert:{suite}"
    if rc < 0:
        return f"signal-{-rc}:{suite}"
    return f"exit-{rc}:{suite}"


def load_known():
    known, path = {}, os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only", help="run only the binary with this name")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    pid = a.pid
    chk = CHECKS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"vchk-{pid}-")
    code = 2
    try:
        code = run(pid, chk, a, tmp, t0)
    except CheckError as e:
        log(f"check {pid}: ERROR: {e}")
        print(f"CHECK-ERROR property={pid}")
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            log("kept", tmp)
    sys.exit(code)


def run(pid, chk, a, tmp, t0):
    specs = [dict(s) for s in chk["bins"]]
    for i, s in enumerate(specs):
        s.setdefault("name", os.path.splitext(os.path.basename(s["src"]))[0] + "-" + s.get("san", "asan"))
    if a.only:
        specs = [s for s in specs if s["name"] == a.only]
    replay = None
    if a.replay:
        replay = json.load(open(a.replay))
        specs = [s for s in specs if s["name"] == replay["bin"]]
        a.seed, a.tier = replay["seed"], replay["tier"]
    bins = {}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for name, out, secs in ex.map(lambda s: build_one(s, tmp), specs):
            bins[name] = out
            log(f"built {name} in {secs:.1f}s")
    jobs = []
    for s in specs:
        n = 1 if replay else s.get("shards", NPROC)
        extra = ()
        if replay and replay.get("suite") and replay.get("case", -1) >= 0:
            extra = ("--suite", replay["suite"], "--case", str(replay["case"]))
        for sh in range(n):
            jobs.append((s, sh, n, extra))
    width = NPROC
    results = []

    def go(j):
        s, sh, n, extra = j
        return run_shard(bins[s["name"]], s, a.tier, a.seed, sh, n, tmp, extra)

    # bins marked exclusive (timing-sensitive) run after the others, fewer at a time
    excl = [j for j in jobs if j[0].get("width")]
    rest = [j for j in jobs if not j[0].get("width")]
    with cf.ThreadPoolExecutor(width) as ex:
        results += list(ex.map(go, rest))
    if excl:
        with cf.ThreadPoolExecutor(min(j[0]["width"] for j in excl)) as ex:
            results += list(ex.map(go, excl))

    viol, notes = [], []
    counters, required, samples = {}, {}, []
    evaluations = 0
    distinct = set()
    harness_err = []
    for r in results:
        s = r["spec"]
        rep = r["report"]
        if r["rc"] != 0 and "LeakSanitizer has encountered a fatal error" in r["err"]:
            notes.append("LeakSanitizer unavailable; leak detection skipped")
            r = run_shard(bins[s["name"]], s, a.tier, a.seed, r["shard"], s.get("shards", NPROC), tmp,
                          env_extra={"ASAN_OPTIONS": ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")})
            rep = r["report"]
        if rep:
            evaluations += rep["evaluations"]
            for k, v in rep["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in rep["required"].items():
                required[k] = max(required.get(k, 0), v)
            samples += rep["samples"]
            d = rep["distinct"]
            for i in range(0, len(d), 8):
                distinct.add(d[i:i + 8])
            for v in rep["violations"]:
                viol.append(dict(v, bin=s["name"]))
        for v in r["early"]:
            viol.append(dict(v, bin=s["name"]))
        if r["rc"] in (0, 3) and rep:
            continue
        suite, case = parse_status(r["status"])
        if r["timed_out"]:
            harness_err.append(f"{s['name']} shard {r['shard']} exceeded its total time at {r['status']}")
            continue
        if r["rc"] == 97:
            # a single case exceeded its limit: confirm alone, with a doubled limit
            lim = 2 * s.get("case_limit", 40)
            r2 = run_shard(bins[s["name"]], s, a.tier, a.seed, 0, 1, tmp,
                           ("--suite", suite, "--case", str(case)), limit=lim)
            if r2["rc"] == 97:
                viol.append(dict(key=f"hang:{suite}", detail=f"case did not finish within {lim}s (twice)",
                                 suite=suite, case=case, bin=s["name"]))
            elif r2["rc"] in (0, 3):
                notes.append(f"slow case {suite}#{case} finished when re-run; inconclusive, not reported")
                if r2["report"]:
                    for v in r2["report"]["violations"]:
                        viol.append(dict(v, bin=s["name"]))
            else:
                viol.append(dict(key=classify(r2["err"], r2["rc"], suite), detail=r2["err"][-3500:], suite=suite,
                                 case=case, bin=s["name"]))
            continue
        if r["rc"] == 2 or r["rc"] == 64:
            harness_err.append(f"{s['name']} shard {r['shard']}: exit {r['rc']}: {r['err'][-1500:]}")
            continue
        if r["rc"] == -9 or r["rc"] == -15:
            harness_err.append(f"{s['name']} shard {r['shard']}: killed at {r['status']}")
            continue
        m = re.search(r"==\d+==\s*ERROR|WARNING: ThreadSanitizer|runtime error|terminate called|Assertion", r["err"])
        detail = r["err"][max(0, m.start() - 200):m.start() + 3500] if m else r["err"][-3500:]
        viol.append(dict(key=classify(r["err"], r["rc"], suite), detail=detail, suite=suite, case=case, bin=s["name"]))

    known = load_known().get(pid, {})
    fresh, hit = {}, {}
    for v in viol:
        (hit if v["key"] in known else fresh).setdefault(v["key"], v)

    if not replay and not fresh:
        for k, mn in required.items():
            if counters.get(k, 0) < mn:
                harness_err.append(f"monitor observed too little: {k}={counters.get(k, 0)} < {mn}")
        if evaluations == 0:
            harness_err.append("no oracle evaluation happened")

    if not replay:
        ev = dict(property=pid, tier=a.tier, seed=a.seed, level=chk.get("level", "exploration"),
                  coverage=dict(evaluations=evaluations, distinct_nontrivial=len(distinct), rule=chk["rule"],
                                samples=samples[:12] or ["(none)"], events=dict(sorted(counters.items())),
                                notes=notes, sanitizers=sorted({s.get("san", "asan") for s in specs})),
                  assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 1),
                  violations=len(fresh))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k, d in known.items():
        print(f"KNOWN-FINDING: property={pid} {d}" + ("" if k in hit else " (not triggered by this run)"))
    for n in notes:
        log("note:", n)
    if fresh:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        for i, (k, v) in enumerate(fresh.items()):
            path = os.path.join(rd, f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, bin=v["bin"], suite=v["suite"], case=v["case"], seed=a.seed, tier=a.tier,
                               key=k, detail=v["detail"],
                               how=f"python3 {HERE}/check.py {pid} --replay {path}"), f, indent=1)
            log(f"--- {k} [{v['bin']} {v['suite']}#{v['case']}]\n{v['detail'][:1800]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if harness_err:
        raise CheckError("; ".join(harness_err))
    print(f"OK property={pid} tier={a.tier} evaluations={evaluations} distinct={len(distinct)} "
          f"wall={time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    main()
