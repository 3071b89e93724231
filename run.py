#!/usr/bin/env python3
"""Builds and runs one check:  run.py <property id> [--tier quick|thorough] [--replay FILE] [--only UNIT[:SUITE]]

exit 0: the property held on everything explored; exit 1 with a VIOLATION line: it is broken; 2: no answer."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, GROUPS  # noqa: E402

NCPU = int(os.environ.get("VERIF_JOBS", "8"))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
BASE = ["-std=c++17", "-march=haswell", "-mno-avx512f", "-maes", "-mrdseed", "-DNDEBUG", "-w", "-pthread",
        "-include", HERE + "/shim/prelude.h"]


def log(*a):
    print(*a, flush=True)


class BuildError(Exception):
    pass


def compile_one(src, flags, objdir):
    h = hashlib.sha1((src + "\0" + "\0".join(flags)).encode()).hexdigest()[:12]
    obj = os.path.join(objdir, os.path.basename(src).replace(".cpp", "") + "-" + h + ".o")
    cmd = ["g++"] + flags + ["-c", src, "-o", obj]
    env = dict(os.environ)
    if shutil.which("ccache"):
        cmd = ["ccache"] + cmd
        env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
        env["CCACHE_MAXSIZE"] = "4G"
        env.pop("CCACHE_DISABLE", None)
    r = subprocess.run(cmd, capture_output=True, text=True, env=env)
    if r.returncode != 0:
        raise BuildError(f"{src}\n{r.stderr[-6000:]}")
    return obj


def sources(group):
    out = []
    for pat in GROUPS[group]["sources"]:
        hits = sorted(glob.glob(os.path.join(REPO, pat), recursive=True))
        out += [f for f in hits if not re.search(r"/test(s)?/", f[len(REPO):]) and f not in out]
    excl = GROUPS[group].get("exclude", [])
    return [f for f in out if not any(f.endswith(e) for e in excl)]


def build_units(units, objdir):
    """-> {unit name: binary or BuildError}"""
    jobs = {}
    plan = {}
    with cf.ThreadPoolExecutor(NCPU) as pool:
        for u in units:
            opt = u.get("opt", ["-O1"])
            inc = ["-I" + os.path.join(HERE, d) for d in u.get("inc", ["shim"])] + ["-I" + HERE, "-I" + REPO]
            flags = BASE + opt + u.get("flags", []) + inc
            srcs = []
            tsan = "-fsanitize=thread" in opt
            for g in u.get("groups", []):
                srcs += sources(g)
            srcs += [os.path.join(HERE, s) if not os.path.isabs(s) else s for s in u["harness"]]
            srcs += [os.path.join(REPO, s) for s in u.get("repo_sources", [])]
            mc = os.path.join(HERE, "mc/mc.cpp")
            srcs = srcs + [mc] if tsan else [mc] + srcs
            objs = []
            for s in dict.fromkeys(srcs):
                f = flags + u.get("file_flags", {}).get(os.path.basename(s), [])
                if tsan:  # the explorer announces threads and synchronisation to the race detector and is not watched itself
                    f = f + ["-DMC_TSAN"]
                    if s == mc:
                        f = [x for x in f if x != "-fsanitize=thread"]
                key = (s, tuple(f))
                if key not in jobs:
                    jobs[key] = pool.submit(compile_one, s, f, objdir)
                objs.append(jobs[key])
            plan[u["name"]] = (u, objs, opt + u.get("flags", []))
        res = {}
        for name, (u, objs, opt) in plan.items():
            try:
                files = [o.result() for o in objs]
                exe = os.path.join(objdir, "unit-" + name)
                cmd = ["g++", "-rdynamic", "-pthread"] + [o for o in opt if o.startswith("-f") or o.startswith("-O")] + \
                    files + ["-o", exe] + u.get("libs", ["-lcrypto", "-lssl", "-lre2", "-ldl"])
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode != 0:
                    raise BuildError("link: " + r.stderr[-6000:])
                res[name] = exe
            except BuildError as e:
                res[name] = e
    return res


def read_case(path):
    try:
        with open(path, "rb") as f:
            suite = f.read(128).split(b"\0")[0].decode()
            n, status = struct.unpack("II", f.read(8))
            note = f.read(2048).split(b"\0")[0].decode(errors="replace")
            ch = struct.unpack(f"{n}i", f.read(4 * n)) if n <= 65536 else ()
        return suite, list(ch), status, note
    except Exception:
        return None


def run_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_segv=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:abort_on_error=1"
    env["TSAN_OPTIONS"] = ("halt_on_error=0:exitcode=0:report_signal_unsafe=0:report_thread_leaks=0:report_mutex_bugs=0:detect_deadlocks=0:"
                           "suppress_equal_stacks=0:suppress_equal_addresses=0:handle_segv=0:handle_abort=0:die_after_fork=0:history_size=7")
    return env


def replay_exec(exe, suite, choices, tier, tmp, known, limit):
    rf = os.path.join(tmp, f"replay-{os.getpid()}-{time.time_ns()}.txt")
    with open(rf, "w") as f:
        f.write(suite + "\n" + " ".join(map(str, choices)) + "\n")
    outf = rf + ".out"
    p = subprocess.Popen([exe, "--replay", rf, "--tier", tier, "--out", outf, "--known", known, "--limit", str(limit)],
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", env=run_env(),
                         cwd=tmp, start_new_session=True)
    try:
        _, err = p.communicate(timeout=limit + 30)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        rc, err = 77, ""
    line = ""
    if os.path.exists(outf):
        line = open(outf, errors="replace").read()
    return rc, line, err


def run_shard(unit, exe, shard, n, tier, tmp, known, deadline, only_suite):
    casef = os.path.join(tmp, f"{unit['name']}.{shard}.case")
    outf = os.path.join(tmp, f"{unit['name']}.{shard}.out")
    errf = os.path.join(tmp, f"{unit['name']}.{shard}.err")
    cmd = [exe, "--shard", f"{shard}/{n}", "--tier", tier, "--out", outf, "--case", casef, "--known", known,
           "--deadline", str(deadline), "--seed", os.environ.get("VERIF_SEED", "1"), "--limit", str(unit.get("limit", 60))]
    if only_suite:
        cmd += ["--suite", only_suite]
    with open(errf, "w") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, env=run_env(), cwd=tmp, start_new_session=True)
        try:
            rc = p.wait(timeout=deadline + 150)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 77
    lines = []
    if os.path.exists(outf):
        for l in open(outf, errors="replace"):
            try:
                lines.append(json.loads(l))
            except ValueError:
                pass
    err = open(errf, errors="replace").read()[-3000:]
    return {"unit": unit, "shard": shard, "rc": rc, "lines": lines, "case": read_case(casef), "err": err}


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only_unit = only_suite = replay = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--replay":
            replay = a.pop(0)
        elif x == "--only":
            only_unit, _, only_suite = a.pop(0).partition(":")
    if pid == "--setup":
        setup()
        return 0
    spec = CHECKS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    units = [u for u in spec["units"] if (not only_unit or u["name"] == only_unit) and (tier == "thorough" or not u.get("thorough_only"))]
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return run_check(pid, spec, units, tier, tmp, t0, only_suite, replay)
    finally:
        os.environ.get("KEEP") or shutil.rmtree(tmp, ignore_errors=True)


def known_keys(pid):
    keys = {}
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "open":
                    keys[d["key"]] = d["what"]
    return keys


def run_check(pid, spec, units, tier, tmp, t0, only_suite, replay):
    bins = build_units(units, tmp)
    tb = time.time() - t0
    not_explored, violations, errors = [], [], []
    known = known_keys(pid)
    kf = os.path.join(tmp, "known.txt")
    with open(kf, "w") as f:
        f.write("\n".join(known) + "\n")
    for n, b in list(bins.items()):
        if isinstance(b, BuildError):
            key = next(u for u in units if u["name"] == n).get("uncompilable")
            if key in known and "error:" in str(b):
                log(f"KNOWN-FINDING: property={pid} {key}: {known[key]}")
                continue
            log(f"NOT-EXPLORED: property={pid} unit={n} does not build against this tree:\n{str(b)[-3000:]}")
            not_explored.append(n)
    units = [u for u in units if not isinstance(bins[u["name"]], BuildError)]
    if not units:
        log(f"ERROR: nothing of {pid} could be built")
        return 2

    if replay:
        d = json.load(open(replay))
        u = next(u for u in units if u["name"] == d["unit"])
        rc, line, err = replay_exec(bins[u["name"]], d["suite"], d["choices"], d.get("tier", tier), tmp, kf, 300)
        log(f"replay rc={rc}\n{line}{err[-2000:]}")
        return 1 if rc != 0 else 0

    budget = {"quick": 420, "thorough": 5400}[tier]
    give_up = {"quick": 640, "thorough": 1e9}[tier]
    unconfirmed = []
    stats, hashes, samples, known_hits = {}, {}, [], {}

    def report(unit, suite, choices, key, detail, note):
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        hid = hashlib.sha1(f"{unit}{suite}{choices}{key}".encode()).hexdigest()[:10]
        path = os.path.join(HERE, "replays", f"{pid}-{hid}.json")
        json.dump({"property": pid, "unit": unit, "suite": suite, "choices": choices, "key": key, "detail": detail, "note": note, "tier": tier,
                   "how": f"python3 /verif/run.py {pid} --replay {path}"}, open(path, "w"), indent=1)
        violations.append((path, unit, suite, key, detail, note))

    with cf.ThreadPoolExecutor(NCPU) as pool:
        futs = []
        for u in units:
            n = u.get("shards", NCPU)
            for s in range(n):
                futs.append(pool.submit(lambda u=u, s=s, n=n: ("mc", u, run_shard(u, bins[u["name"]], s, n, tier, tmp, kf, budget, only_suite))))
        for f in cf.as_completed(futs):
            kind, u, r = f.result()
            for l in r["lines"]:
                if l.get("stats"):
                    k = (u["name"], l["suite"])
                    st = stats.setdefault(k, {"execs": 0, "skips": 0, "states": 0, "transitions": 0, "evals": 0, "maxdepth": 0, "bound": l["bound"],
                                              "complete": True, "wall": 0.0, "cap": ""})
                    for f2 in ("execs", "skips", "transitions", "evals"):
                        st[f2] += l[f2]
                    st["states"] += l["states"]
                    st["maxdepth"] = max(st["maxdepth"], l["maxdepth"])
                    st["wall"] = max(st["wall"], l["wall"])
                    if not l["complete"]:
                        st["complete"] = False
                        st["cap"] = l["cap"]
                    if not l["deterministic"]:
                        errors.append(f"{k}: not deterministic")
                    samples += [f"{u['name']}/{l['suite']}: {x}" for x in l["samples"]]
                    for kn in l["known"]:
                        known_hits.setdefault(kn["key"], kn["detail"])
                elif l.get("hashes"):
                    hashes.setdefault((u["name"], l["suite"]), []).append(l["h"])
                elif l.get("violation"):
                    ch = [int(x) for x in l["choices"].split()]
                    if len(violations) >= 6 or time.time() - t0 > give_up:
                        if l["reproduced"] or violations:
                            report(u["name"], l["suite"], ch, l["key"], l["detail"], l["note"])
                            continue
                    rc, line, err = replay_exec(bins[u["name"]], l["suite"], ch, tier, tmp, kf, 150)
                    if rc == 0 and not l["reproduced"]:
                        errors.append(f"{u['name']}/{l['suite']}: '{l['key']}' did not reproduce on replay")
                    else:
                        report(u["name"], l["suite"], ch, l["key"], l["detail"], l["note"])
            if r["rc"] < 0 or r["rc"] in (77, 134, 139):
                c = r["case"]
                if not c:
                    errors.append(f"{u['name']}: shard {r['shard']} ended with {r['rc']}: {r['err']}")
                    continue
                suite, ch, status, note = c
                what = "hang" if r["rc"] == 77 else f"crash (signal {-r['rc'] if r['rc'] < 0 else r['rc'] - 128})"
                if violations:
                    # one violation of this run is confirmed: what the other shards ended with adds nothing
                    unconfirmed.append(f"{u['name']}/{suite}: {what}")
                    continue
                rc, line, err = replay_exec(bins[u["name"]], suite, ch, tier, tmp, kf, 150)
                if rc != 0:
                    report(u["name"], suite, ch, what, (r["err"] + err)[-2500:], note)
                else:
                    # state carried over from earlier executions: confirm by running the shard again
                    again = budget if tier == "thorough" else max(30, min(budget, give_up - (time.time() - t0)))
                    r2 = run_shard(u, bins[u["name"]], r["shard"], u.get("shards", NCPU), tier, tmp, kf, again, only_suite)
                    if r2["rc"] < 0 or r2["rc"] == 77:
                        report(u["name"], suite, ch, what + " (needs the preceding executions of the shard)", r2["err"][-2500:], note)
                    else:
                        errors.append(f"{u['name']}: shard {r['shard']} {what} did not recur: {r['err'][-1500:]}")
            elif r["rc"] not in (0, 1):
                errors.append(f"{u['name']}: shard {r['shard']} exit {r['rc']}: {r['err'][-1500:]}")

    # distinct states: union over shards where the hash lists are complete
    for k, hl in hashes.items():
        s = set()
        for h in hl:
            s.update(h)
        unit = next(x for x in units if x["name"] == k[0])
        if len(hl) == unit.get("shards", NCPU):
            stats[k]["states"] = len(s)
    tot = {f: sum(s[f] for s in stats.values()) for f in ("execs", "states", "transitions", "evals")}
    complete = all(s["complete"] for s in stats.values()) and not not_explored
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["execs"],
            "evaluations": tot["evals"] or tot["execs"],
            "samples": sorted(set(samples))[:12] or ["(no per-execution notes)"],
            "rule": spec.get("rule", "every choice sequence of each suite within its bound is executed on the real code; states are distinct observed outcomes"),
            "exhaustive": complete,
            "suites": [{"unit": k[0], "suite": k[1], **{x: (round(y, 2) if isinstance(y, float) else y) for x, y in s.items()}} for k, s in sorted(stats.items())],
            "not_explored": not_explored,
        },
        "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    if not only_suite:
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for k, s in sorted(stats.items()):
        log(f"  {k[0]}/{k[1]}: executions={s['execs']} states={s['states']} transitions={s['transitions']} checks={s['evals']} depth={s['maxdepth']} bound={s['bound']} complete={s['complete']}{' (' + s['cap'] + ')' if s['cap'] else ''} {s['wall']:.1f}s")
    log(f"{pid} {tier}: executions={tot['execs']} states={tot['states']} transitions={tot['transitions']} build={tb:.1f}s wall={time.time() - t0:.1f}s")
    for k, d in known_hits.items():
        log(f"KNOWN-FINDING: property={pid} {k}: {known.get(k, '')} [{d[:200]}]")
    if violations:
        for path, unit, suite, key, detail, note in violations[:4]:
            log(f"  {unit}/{suite}: {key}: {detail[:500]} | {note[:300]}")
            log(f"VIOLATION property={pid} replay={path}")
        for x in unconfirmed[:8]:
            log(f"  (also: {x}, not replayed)")
        return 1
    if errors:
        for e in errors:
            log("ERROR:", e)
        return 2
    if not stats:
        log("ERROR: nothing explored")
        return 2
    return 0


def setup():
    os.makedirs(BUILD, exist_ok=True)
    bad = 0
    for pid, spec in CHECKS.items():
        tmp = tempfile.mkdtemp(prefix=f"verif-setup-{pid}-")
        try:
            for n, b in build_units(spec["units"], tmp).items():
                if isinstance(b, BuildError):
                    log(f"{pid}/{n}: {b}")
                    bad = 1
        finally:
            os.environ.get("KEEP") or shutil.rmtree(tmp, ignore_errors=True)
    return bad


if __name__ == "__main__":
    sys.exit(main())
