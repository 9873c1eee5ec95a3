#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--list]

Decides one property of /repo's current working tree by static analysis: dumps the monomorphised MIR of the
client programs in probes/ together with the crate's code, analyses them abstractly (absint/) and reports the
obligations of the property which cannot be discharged.

exit 0: every obligation found on the analysed paths is discharged (known findings are printed)
exit 1: "VIOLATION property=<id> replay=<file>"
"""
import collections
import json
import multiprocessing as mp
import multiprocessing.pool
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ORX_DEV_REPO", "/repo")  # the variable is only set while developing the checks
sys.path.insert(0, os.path.join(HERE, "absint"))
sys.path.insert(0, HERE)

import plan  # noqa: E402

MODES = {
    # name: (flags of rustc, runtime checks of the standard library and of arithmetic are on)
    "debug": ("-Coverflow-checks=on -Cdebug-assertions=on", True),
    "release": ("-Coverflow-checks=off -Cdebug-assertions=off", False),
}


class BuildError(Exception):
    pass


def toolchain_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC", "RUSTUP_TOOLCHAIN", "RUSTDOC"))}
    env.setdefault("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    if os.environ.get("CARGO_HOME"):
        env["CARGO_HOME"] = os.environ["CARGO_HOME"]
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    return env


def run(cmd, env, cwd, timeout=600):
    return subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def driver(tmp):
    """the compiled MIR dumper; setup.sh may have built it already"""
    src = os.path.join(HERE, "driver", "driver.rs")
    pre = os.path.join(HERE, "build", "mirdump")
    env = toolchain_env()
    import hashlib

    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    try:
        if open(pre + ".sha").read().strip() == h and os.access(pre, os.X_OK):
            return pre
    except OSError:
        pass
    out = os.path.join(tmp, "mirdump")
    r = run(["rustc", "--edition", "2021", "-O", src, "-o", out], env, HERE)
    if r.returncode != 0:
        raise RuntimeError("the MIR dumper does not build:\n" + r.stdout[-3000:])
    return out


def sysroot():
    return run(["rustc", "--print", "sysroot"], toolchain_env(), HERE).stdout.strip()


def dump(tmp, drv, mode):
    out = os.path.join(tmp, mode + ".json")
    env = toolchain_env()
    env["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings " + MODES[mode][0]
    env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    env["MIRDUMP_OUT"] = out
    env["MIRDUMP_STOP"] = os.path.join(HERE, "stops.txt")
    env["RUSTC_WORKSPACE_WRAPPER"] = drv
    env["CARGO_TARGET_DIR"] = os.path.join(tmp, "target-" + mode)
    # the probes are compiled from a copy, so that nothing is written next to the committed files
    src = os.path.join(tmp, "probes-" + mode)
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(HERE, "probes"), src, ignore=shutil.ignore_patterns("target"))
        if REPO != "/repo":
            t = os.path.join(src, "Cargo.toml")
            text = open(t).read().replace('"/repo"', json.dumps(REPO))
            open(t, "w").write(text)
    r = run(["cargo", "check", "--offline", "--manifest-path", os.path.join(src, "Cargo.toml")], env, src)
    if r.returncode != 0 or not os.path.exists(out):
        raise BuildError(r.stdout[-4000:])
    return out


# ---------------------------------------------------------------------- analysis
_P = {}


def analyse(job):
    mode, name, panics, limit = job
    from interp import Interp
    from prims import Prims
    from monitor import Monitor

    P = _P[mode]
    m = Monitor(name, panics=panics)
    on = MODES[mode][1]
    I = Interp(P, Prims(), m, {"steps": 3000000, "ub_checks": on, "overflow_checks": on})
    t = time.time()
    err = None

    def al(*a):
        raise TimeoutError("the analysis of this probe takes longer than %d s" % limit)

    signal.signal(signal.SIGALRM, al)
    signal.alarm(limit)
    try:
        I.run(P.probes[name], None)
    except TimeoutError as e:
        err = str(e)
    except RecursionError:
        err = "recursion limit"
    except MemoryError:
        err = "memory limit"
    except BaseException:
        err = traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
    fns = sorted({P.fns[i].short for i in I.visited_fns if P.fns[i].crate == "orx_concurrent_iter"})
    reps = [(list(r.props), r.msg, r.fn, r.unsupported, [list(map(str, x)) for x in r.path]) for r in m.reports.values()]
    return {
        "mode": mode, "probe": name.replace("probes::", "").replace("::probe_", "."), "panics": panics, "wall": time.time() - t,
        "stats": I.stats, "events": dict(m.events), "finished": m.finished_paths, "unwound": m.unwound_paths, "reports": reps,
        "error": err, "checks": m.checks, "fns": fns,
    }


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % prop):
                    key, _, what = line[len("finding: property=%s " % prop):].partition(" :: ")
                    out.append((key.strip(), what.strip()))
    except OSError:
        pass
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args = [a for a in args if a != tier]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="orxcheck-")
    try:
        code = check(prop, tier, seed, tmp, t0)
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def analyse_all(files, jobs, problems):
    from mir import Program

    for m in files:
        _P[m] = Program(files[m])
    todo = []
    results = []
    for (mode, pat, panics, limit) in jobs:
        names = [n for n in _P[mode].probes if plan.matches(n, pat)]
        if not names:
            problems.append(("anchor:" + pat, "no client program matches " + pat))
        todo += [(mode, n, panics, limit) for n in names]
    todo = list(dict.fromkeys(todo))
    todo.sort(key=lambda j: plan.cost(j))
    with mp.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=8) as pool:
        for r in pool.imap_unordered(analyse, todo, chunksize=1):
            results.append(r)
    results.sort(key=lambda r: (r["mode"], r["panics"], r["probe"]))
    return results


def judge(prop, results, problems, undecided):
    """selects what the analysis of the client programs says about the property"""
    checks = collections.Counter()
    for r in results:
        where = "%s/%s%s" % (r["mode"], r["probe"], "/unwinding" if r["panics"] else "")
        if r["error"]:
            undecided.append("%s: %s" % (where, r["error"]))
        bad = 0
        for props, msg, fn, unsup, path in r["reports"]:
            if unsup:
                undecided.append("%s: %s in %s" % (where, msg, fn))
                bad += 1
            elif prop in props:
                bad += 1
                problems.append(("%s @ %s" % (msg.split(":")[0], fn), "%s\n    in %s\n    client program %s\n%s" % (
                    msg, fn, where, "\n".join("      %s  %s" % (f, sp) for f, sp, _ in path))))
        r["bad"] = bad
        checks.update(r["checks"])
        if not r["error"] and not bad and not r["reports"]:
            for miss in plan.vacuous(prop, r):
                problems.append(("vacuous:%s:%s" % (r["probe"], miss), "%s: %s" % (where, miss)))
    if prop == "C17":
        # the same obligations hold in both builds
        by = {}
        for r in results:
            if not r["error"] and not any(x[3] for x in r["reports"]):
                by.setdefault((r["probe"], r["panics"]), {})[r["mode"]] = r
        for (probe, pan), d in sorted(by.items()):
            if len(d) == 2:
                keys = {m: {(x[1].split(":")[0], x[2]) for x in d[m]["reports"]} for m in d}
                checks[prop] += 1
                for a, b in (("debug", "release"), ("release", "debug")):
                    for k in sorted(keys[a] - keys[b]):
                        problems.append(("differs:%s @ %s" % k, "only in the %s build: %s\n    in %s\n    client program %s" % (a, k[0], k[1], probe)))
    return checks


def check(prop, tier, seed, tmp, t0):
    evdir = os.environ.get("ORX_DEV_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    jobs, witnesses = plan.jobs(prop, tier)
    problems = []  # (key, text)
    undecided = []  # text
    results = []
    modes = sorted({j[0] for j in jobs})
    wres = None
    if jobs:
        drv = driver(tmp)
        try:
            with mp.pool.ThreadPool(2) as tp:
                files = dict(zip(modes, tp.map(lambda m: dump(tmp, drv, m), modes)))
        except BuildError as e:
            files = None
            problems.append(("build", "the client programs of the analysis do not compile against the crate:\n" + str(e)))
        if files is not None:
            results = analyse_all(files, jobs, problems)
    if witnesses:
        import witness

        wres = witness.run(prop, tier, tmp, toolchain_env(), REPO)
        problems += wres["problems"]
        undecided += wres["undecided"]
    checks = judge(prop, results, problems, undecided)
    nob = checks.get(prop, 0) + (wres["obligations"] if wres else 0)
    decided = [r for r in results if not r["error"] and not any(x[3] for x in r["reports"])]
    if not problems and (nob == 0 or (results and len(decided) * 2 < len(results))):
        problems.append(("nothing decided", "the analysis decides too little of this tree: %d obligations, %d of %d client programs analysed to the end\n%s" % (
            nob, len(decided), len(results), "\n".join("    " + u for u in undecided[:20]))))
    # known findings
    known = known_findings(prop)
    viol = collections.OrderedDict()
    hit = set()
    for key, text in problems:
        k = next((k for k, _ in known if k == key), None)
        if k is not None:
            hit.add(k)
            continue
        viol.setdefault(key, []).append(text)
    for k, what in known:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, what, "" if k in hit else " (not observed on this tree)"))
    # report
    fns = sorted({f for r in results for f in r["fns"]})
    stats = collections.Counter()
    for r in results:
        stats.update(r["stats"])
    print("property %s: %d client programs analysed (%s), %d obligations, %d functions of the crate, %d paths, %d joins, %.1f s" % (
        prop, len(results), ", ".join(modes) or "compiler verdicts", nob, len(fns), stats["paths"], stats["joins"], time.time() - t0))
    for u in undecided:
        print("UNDECIDED " + u.replace("\n", "\n    "))
    cov = {
        "explanation": plan.EXPLAIN + " " + plan.RULES.get(prop, ""),
        "obligations": nob + sum(len(v) for v in viol.values()) + len(hit),
        "discharged": nob,
        "undecided": undecided,
        "client_programs": [
            {"build": r["mode"], "program": r["probe"], "unwinding": r["panics"], "paths": r["stats"]["paths"], "joins": r["stats"]["joins"],
             "finished": r["finished"], "unwound": r["unwound"], "obligations_of_property": r["checks"].get(prop, 0),
             "events": r["events"], "wall_s": round(r["wall"], 2), "reports": len(r["reports"])} for r in results],
        "functions": fns,
        "paths": stats["paths"],
        "loop_joins": stats["joins"],
        "calls_inlined": stats["calls"],
    }
    if wres:
        cov["witnesses"] = wres["coverage"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": plan.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": sum(len(v) for v in viol.values()),
    }
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if viol:
        rep = os.path.join(evdir, prop + ".violation.txt")
        with open(rep, "w") as f:
            for k, texts in viol.items():
                f.write("== %s\n" % k)
                for t in texts[:4]:
                    f.write("  " + t + "\n")
                f.write("\n")
        for k, texts in list(viol.items())[:12]:
            print("-- " + texts[0])
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return 0


if __name__ == "__main__":
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    main()
