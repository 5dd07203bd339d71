#!/usr/bin/env python3
"""Build and run the explorers of one property against /repo's working tree.

usage: check.py ID [--tier quick|thorough]     run the check (exit 0 / 1 + VIOLATION line)
       check.py --build-all                     compile everything (setup)
       check.py --replay FILE                   replay one recorded violation
"""
import array, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
DEPS = "/opt/vp/deps/tomlplusplus/include"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402


def cpu_has(*names):
    for line in open("/proc/cpuinfo"):
        if line.startswith("flags"):
            have = set(line.split())
            return all(n in have for n in names)
    return False


AVX512 = cpu_has("avx512f", "avx512bw", "avx512cd", "avx512dq", "avx512vl", "avx512_vnni")
MARCH = {
    "v3": ["-march=x86-64-v3"],
    "v4": ["-march=x86-64-v4", "-mavx512vnni"],
    # AVX-512 without VNNI: the code has a separate path for it.
    "v4novnni": ["-march=x86-64-v4", "-mno-avx512vnni"],
    # baseline: no AVX at all, so the generic paths are compiled.
    "v2": ["-march=x86-64-v2"],
}


def repo_version():
    text = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"^ +VERSION (\d+)\.(\d+)\.(\d+)", text, re.M)
    return m.groups() if m else ("0", "0", "4")


def base_flags(variant):
    maj, mnr, pat = repo_version()
    return (
        ["-std=c++20", "-pthread", "-w", "-fconcepts-diagnostics-depth=2"]
        + MARCH[variant]
        + [
            f"-I{REPO}/include", f"-I{REPO}", f"-I{VERIF}/mc", f"-I{VERIF}/harness", "-isystem", DEPS,
            f"-DSVS_VERSION_MAJOR={maj}", f"-DSVS_VERSION_MINOR={mnr}",
            f"-DSVS_VERSION_PATCH={pat}", "-DSVS_HAVE_MKL=0", "-DSVS_ENABLE_NUMA=0",
            "-DSVS_CHECK_BOUNDS=1", "-DSVS_INITIALIZE_LOGGER=0", "-DVERIF_MC=1",
        ]
    )


_tree = None


def tree_hash():
    """Content hash of everything of /repo a harness can include."""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for top in ("include", "utils", "benchmark"):
            for root, dirs, files in os.walk(os.path.join(REPO, top)):
                dirs.sort()
                for f in sorted(files):
                    if f.endswith((".h", ".hpp", ".cpp", ".inl")):
                        p = os.path.join(root, f)
                        h.update(p.encode())
                        h.update(open(p, "rb").read())
        h.update(repr(repo_version()).encode())
        _tree = h.hexdigest()
    return _tree


def own_hash():
    h = hashlib.sha256()
    for top in ("mc", "harness"):
        d = os.path.join(VERIF, top)
        for root, dirs, files in os.walk(d):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".hpp")):
                    h.update(open(os.path.join(root, f), "rb").read())
    return h.hexdigest()


def unit_name(unit, variant):
    n = os.path.splitext(unit["src"])[0]
    if unit.get("tag"):
        n += "-" + unit["tag"]
    return n + "-" + variant


def compile_cmds(unit, variant, out):
    src = os.path.join(VERIF, "harness", unit["src"])
    cxx = unit.get("cxx", "g++")
    flags = base_flags(variant) + unit.get("flags", ["-O1"])
    libs = ["-lfmt", "-lspdlog"] + unit.get("libs", [])
    cmds = []
    objs = []
    for i, extra in enumerate(unit.get("extra", [])):
        o = f"{out}.x{i}.o"
        cmds.append([cxx] + base_flags(variant) + extra["flags"] + ["-c", os.path.join(VERIF, extra["src"]), "-o", o])
        objs.append(o)
    for i, part in enumerate(unit.get("parts", [])):
        o = f"{out}.p{i}.o"
        cmds.append([cxx] + flags + ["-c", os.path.join(VERIF, "harness", part), "-o", o])
        objs.append(o)
    o = f"{out}.m.o"
    cmds.append([cxx] + flags + ["-c", src, "-o", o])
    link = [cxx] + unit.get("linkflags", [f for f in flags if f.startswith("-fsanitize")]) + ["-pthread", o] + objs + ["-o", out] + libs
    return cmds, link, [o] + objs


def build(unit, variant):
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    h = hashlib.sha256()
    srcs = [unit["src"]] + unit.get("parts", [])
    for s in srcs:
        h.update(open(os.path.join(VERIF, "harness", s), "rb").read())
    for e in unit.get("extra", []):
        h.update(open(os.path.join(VERIF, e["src"]), "rb").read())
    h.update(own_hash().encode())
    h.update(tree_hash().encode())
    h.update(json.dumps([unit, MARCH[variant]], sort_keys=True).encode())
    name = unit_name(unit, variant)
    path = os.path.join(BUILD, "bin", f"{name}-{h.hexdigest()[:20]}")
    if os.path.exists(path):
        return path, None
    for old in os.listdir(os.path.join(BUILD, "bin")):
        if re.fullmatch(re.escape(name) + r"-[0-9a-f]{20}", old):
            try:
                os.unlink(os.path.join(BUILD, "bin", old))
            except OSError:
                pass
    tmp = f"{path}.{os.getpid()}"
    cmds, link, objs = compile_cmds(unit, variant, tmp)
    err = None
    with ThreadPoolExecutor(4) as ex:
        for c, r in zip(cmds, ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), cmds)):
            if r.returncode:
                err = " ".join(c) + "\n" + r.stderr[-6000:]
    if err is None:
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            err = " ".join(link) + "\n" + r.stderr[-6000:]
    for o in objs:
        if os.path.exists(o):
            os.unlink(o)
    if err is None:
        os.rename(tmp, path)
    return path, err


ENV = dict(
    os.environ,
    ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
    UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99",
    SVS_LOG_LEVEL="off",
)


def run_shard(binary, args, workdir, tag, limit):
    out = os.path.join(workdir, tag + ".json")
    journal = os.path.join(workdir, tag + ".journal")
    log = os.path.join(workdir, tag + ".log")
    for p in (out, journal):
        if os.path.exists(p):
            os.unlink(p)
    cmd = [binary, "--out", out, "--journal", journal, "--scratch", workdir] + args
    with open(log, "wb") as f:
        try:
            r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=ENV, timeout=limit, cwd=workdir)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    res = None
    if rc in (0, 1) and os.path.exists(out):
        res = json.load(open(out))
    case = ""
    if os.path.exists(journal):
        case = open(journal, "rb").read().split(b"\0", 1)[0].decode(errors="replace")
    with open(log, "rb") as f:
        f.seek(max(0, os.path.getsize(log) - 200000))
        text = f.read().decode(errors="replace")
    return dict(rc=rc, res=res, case=case, log=text, out=out)


def describe(rc):
    if rc == "timeout":
        return "did not finish within its time limit"
    if rc == 97:
        return "hang: the case did not finish"
    if rc == 99:
        return "sanitizer report"
    if isinstance(rc, int) and rc < 0:
        return f"killed by signal {-rc}"
    return f"ended with status {rc}"


def log_summary(text):
    for pat in (r"SUMMARY: .*", r"runtime error: .*", r"Assertion .*", r"terminate called.*\n.*", r"what\(\).*"):
        m = re.search(pat, text)
        if m:
            return m.group(0)[:400]
    return text.strip()[-300:]


def load_known():
    known = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known.append(m.groups())
    return known


def union(files):
    s = set()
    total = 0
    for f in files:
        if not os.path.exists(f):
            continue
        a = array.array("Q")
        data = open(f, "rb").read()
        a.frombytes(data)
        total += len(a)
        if total > 12_000_000:
            return None
        s.update(a)
    return len(s)


def check(pid, tier):
    t0 = time.time()
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = [(k, w) for p, k, w in load_known() if p == pid]
    jobs = []
    for unit in spec["units"]:
        for variant in unit.get("variants", ["v3"]):
            if variant.startswith("v4") and not AVX512:
                continue
            if tier == "quick" and variant in unit.get("thorough_variants", []):
                continue
            jobs.append((unit, variant))
    with ThreadPoolExecutor(8) as ex:
        built = list(ex.map(lambda j: build(*j), jobs))
    for (unit, variant), (path, err) in zip(jobs, built):
        if err:
            print(f"BUILD-ERROR property={pid} unit={unit['src']} variant={variant}\n{err}")
            return 2
    t_build = time.time() - t0
    workdir = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    budget = spec.get("budget", {}).get(tier, 330 if tier == "quick" else 3000)
    tasks = []
    for ui, ((unit, variant), (path, _)) in enumerate(zip(jobs, built)):
        n = unit.get("shards", 8)
        for s in range(n):
            args = ["--tier", tier, "--shard", str(s), "--nshards", str(n), "--budget", str(budget)]
            args += ["--case-limit", str(unit.get("case_limit", 120))]
            for k, _ in known:
                args += ["--known", k]
            args += unit.get("args", [])
            tasks.append((unit, variant, path, args, f"u{ui}s{s}"))
    try:
        with ThreadPoolExecutor(spec.get("jobs", 8)) as ex:
            results = list(ex.map(lambda t: run_shard(t[2], t[3], workdir, t[4], budget + 150), tasks))
        return conclude(pid, tier, seed, spec, known, tasks, results, workdir, t0, t_build)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def conclude(pid, tier, seed, spec, known, tasks, results, workdir, t0, t_build):
    tot = dict(cases=0, enumerated=0, transitions=0, traces=0, evaluations=0, skipped=0, states=0, outcomes=0)
    counters, known_hits, samples, notes = {}, {}, [], []
    violations, errors, capped = [], [], False
    per_unit = {}
    for (unit, variant, path, args, tag), r in zip(tasks, results):
        res = r["res"]
        name = unit_name(unit, variant)
        if res is None:
            # The process died: the case in the journal is the suspect. Replay it alone first.
            case = r["case"]
            what = describe(r["rc"]) + ": " + log_summary(r["log"])
            if any(v[2] == "crash" for v in violations):
                # One confirmed crash decides; replaying every shard that hung takes too long.
                notes.append(f"{name}/{tag}: {what} (case {case!r}), not replayed")
                continue
            left = max(30, (860 if tier == "quick" else 20000) - (time.time() - t0))
            confirmed = None
            if case:
                rf = os.path.join(workdir, tag + ".case")
                open(rf, "w").write(case)
                rr = run_shard(path, ["--tier", tier, "--replay-file", rf, "--case-limit", str(int(min(200, left)))] + unit.get("args", []), workdir, tag + "r", left)
                if rr["res"] is None or rr["res"]["violations"]:
                    confirmed = "case"
            if not confirmed and r["rc"] != "timeout":
                rr = run_shard(path, args, workdir, tag + "r", min(600, left))
                if rr["res"] is None or rr["res"]["violations"]:
                    confirmed = "shard"
            if confirmed:
                violations.append((unit, variant, "crash", case, what, args if confirmed == "shard" else None))
            else:
                errors.append(f"{name}/{tag}: {what} (case {case!r}) did not reproduce")
            continue
        for k in tot:
            tot[k] += res.get(k, 0)
        u = per_unit.setdefault(name, dict(cases=0, transitions=0, states_files=[], outcome_files=[]))
        u["cases"] += res["cases"]
        u["transitions"] += res["transitions"]
        u["states_files"].append(r["out"] + ".states")
        u["outcome_files"].append(r["out"] + ".outcomes")
        capped = capped or res["capped"]
        for k, v in res["counters"].items():
            if k.startswith("max_"):
                counters[k] = max(counters.get(k, 0), v)
            else:
                counters[k] = counters.get(k, 0) + v
        for k, v in res["known"].items():
            known_hits.setdefault(k, v)
        samples += [f"{name}: {s}" for s in res["samples"]]
        for v in res["violations"]:
            violations.append((unit, variant, v["key"], v["case"], v["msg"], None))
    # One number per unit for distinct states: union over its shards.
    states = outcomes = 0
    for name, u in per_unit.items():
        n = union(u["states_files"])
        states += n if n is not None else 0
        o = union(u["outcome_files"])
        outcomes += o if o is not None else 0
    # Replay every reported case in a fresh process before trusting it.
    reported = []
    seen_keys = set()
    for unit, variant, key, case, msg, shard_args in violations:
        sig = (unit_name(unit, variant), key)
        if sig in seen_keys and len(reported) >= 2:
            continue
        seen_keys.add(sig)
        ok = key == "crash"
        if not ok:
            path, _ = build(unit, variant)
            rf = os.path.join(workdir, "replay.case")
            open(rf, "w").write(case)
            for attempt in range(unit.get("replay_attempts", 2)):
                rr = run_shard(path, ["--tier", tier, "--replay-file", rf, "--case-limit", "300"] + unit.get("args", []), workdir, "rp", 900)
                if rr["res"] is None or rr["res"]["violations"]:
                    ok = True
                    break
        if not ok:
            # The case alone is clean: does the whole shard fail again (history-dependent)?
            for (u2, v2, p2, a2, tg), r in zip(tasks, results):
                if u2 is unit and v2 == variant and r["res"] and any(v["case"] == case for v in r["res"]["violations"]):
                    rr = run_shard(p2, a2, workdir, tg + "r", 900)
                    if rr["res"] is None or rr["res"]["violations"]:
                        ok, shard_args = True, a2
                    break
        if ok:
            reported.append((unit, variant, key, case, msg, shard_args))
        else:
            errors.append(f"{unit_name(unit, variant)}: [{key}] {case}: {msg} (did not reproduce)")
    level = spec.get("level", "model_checking")
    cov = dict(
        states=states, transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
        cases_enumerated=tot["cases"], oracle_evaluations=tot["evaluations"], distinct_outcomes=outcomes,
        samples=samples[:12], exhaustive=bool(not capped and not tot["skipped"] and not errors),
        bounds=spec.get("bounds", {}).get(tier, spec.get("bounds", {}).get("quick", "")),
        counters=counters, per_unit={k: dict(cases=v["cases"], transitions=v["transitions"]) for k, v in per_unit.items()},
        build_s=round(t_build, 1),
    )
    if level in ("exploration", "fault_enumeration"):
        cov["evaluations"] = tot["evaluations"]
        cov["distinct_nontrivial"] = states
        cov["rule"] = spec.get("rule", "")
    if capped:
        cov["cap"] = f"time budget reached: {tot['skipped']} case(s) of the enumeration not executed"
    if errors:
        cov["unreproduced"] = errors
    ev = dict(
        property=pid, tier=tier, seed=seed, level=level, coverage=cov,
        assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(reported),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    for k, w in known:
        if k in known_hits:
            print(f"KNOWN-FINDING: property={pid} {w} [{known_hits[k][:300]}]")
    for e in errors:
        print(f"note: {e}")
    if not tot["cases"] and not reported:
        print(f"NO-ANSWER property={pid}: nothing was executed")
        return 2
    if reported:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, (unit, variant, key, case, msg, shard_args) in enumerate(reported[:5]):
            rp = os.path.join(VERIF, "replays", f"{pid}-{i}.json")
            json.dump(dict(property=pid, unit=unit, variant=variant, key=key, case=case, msg=msg, tier=tier, shard_args=shard_args), open(rp, "w"), indent=1)
            print(f"  [{key}] {unit_name(unit, variant)} case: {case[:600]}\n    {msg[:800]}")
            print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(
        f"OK property={pid} tier={tier} states={states} transitions={tot['transitions']} "
        f"traces={tot['traces']} cases={tot['cases']} outcomes={outcomes} exhaustive={cov['exhaustive']} "
        f"build={t_build:.0f}s wall={time.time() - t0:.0f}s"
    )
    return 0


def replay(path):
    r = json.load(open(path))
    binary, err = build(r["unit"], r["variant"])
    if err:
        print(err)
        return 2
    workdir = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        rf = os.path.join(workdir, "case")
        open(rf, "w").write(r["case"])
        args = r.get("shard_args") or ["--tier", r["tier"], "--replay-file", rf] + r["unit"].get("args", [])
        cmd = [binary, "--scratch", workdir] + args
        print(" ".join(cmd))
        return subprocess.run(cmd, env=ENV, cwd=workdir).returncode
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build-all":
        jobs, seen = [], set()
        for pid in sorted(CHECKS):
            for unit in CHECKS[pid]["units"]:
                for variant in unit.get("variants", ["v3"]):
                    if variant.startswith("v4") and not AVX512:
                        continue
                    if unit_name(unit, variant) not in seen:
                        seen.add(unit_name(unit, variant))
                        jobs.append((unit, variant))
        bad = 0
        with ThreadPoolExecutor(6) as ex:
            for (u, v), (p, err) in zip(jobs, ex.map(lambda j: build(*j), jobs)):
                if err:
                    bad += 1
                    print(f"BUILD-ERROR {u['src']} {v}\n{err}")
        print(f"built {len(jobs) - bad}/{len(jobs)} explorers")
        return 1 if bad else 0
    if a and a[0] == "--replay":
        return replay(a[1])
    pid = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    return check(pid, tier)


if __name__ == "__main__":
    sys.exit(main())
