#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property id> [quick|thorough]: decide one property on /repo's current working tree."""
import fcntl
import glob
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SPECS = ["fp", "fp2", "scalar", "curve", "point", "group", "codec", "maps", "rational", "instances",
         "sharing", "printing"]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class BuildError(Exception):
    pass


def dump():
    """rebuild the crate through the MIR extractor; returns the path of the dump"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tool = os.path.join(HERE, "mirdump/target/release/mirdump")
        if not os.path.exists(tool):
            r = sh("cargo +nightly build --release --offline", cwd=os.path.join(HERE, "mirdump"))
            if r.returncode:
                raise BuildError("mirdump: " + r.stdout[-2000:])
        tgt = os.path.join(BUILD, "mir")
        for pat in ("debug/.fingerprint/redox*ecc-*", "debug/build/redox-ecc", "debug/build/redox_ecc*",
                    "debug/incremental/redox_ecc*"):
            for d in glob.glob(os.path.join(tgt, pat)):
                shutil.rmtree(d, ignore_errors=True)
        out = os.path.join(BUILD, "mir.json")
        if os.path.exists(out):
            os.remove(out)
        env = dict(os.environ)
        root = sh("rustc +nightly --print sysroot").stdout.strip()
        env.update(MIRDUMP_CRATE="redox_ecc", MIRDUMP_OUT=out, CARGO_TARGET_DIR=tgt, LD_LIBRARY_PATH=root + "/lib",
                   RUSTC_WORKSPACE_WRAPPER=tool)
        r = sh("cargo +nightly check --lib --offline", cwd=REPO, env=env)
        if r.returncode or not os.path.exists(out):
            raise BuildError("cargo: " + r.stdout[-2000:])
        mine = os.path.join(BUILD, f"mir.{os.getpid()}.json")
        shutil.copy(out, mine)
        return mine


def load_specs():
    for s in SPECS:
        if os.path.exists(os.path.join(HERE, "vc/specs", s + ".py")):
            importlib.import_module("vc.specs." + s)


PROG = None
DISABLED = ()


def work(task):
    from vc import engine
    from vc.names import parse
    kind, ident, name, idx, tlimit = task

    def out_of_time(*a):
        raise engine.Budget("time limit inside one path")
    signal.signal(signal.SIGALRM, out_of_time)
    signal.alarm(tlimit + 30)
    try:
        if kind == "fn":
            c = next(c for c in engine.CONTRACTS if c.ident == ident)
            label, b = c.cases(parse(name))[idx]
            r = engine.verify_case(PROG, c, name, label, b, DISABLED, tlimit)
        else:
            l = next(l for l in engine.LEMMAS if l.ident == ident)
            label, b = l.cases[idx]
            r = engine.verify_lemma(PROG, l, label, b, DISABLED, tlimit)
    except Exception as e:     # specification code that cannot be evaluated on this source
        r = engine.Result(f"{name} [{idx}]")
        r.status, r.obligation, r.detail = "unknown", "internal", f"{type(e).__name__}: {e}"
    signal.alarm(0)
    r.ident, r.name, r.kind = ident, name, kind
    return r


def tasks_of(engine, parse, c, tlimit):
    out = []
    try:
        for n in engine.targets(PROG, c):
            for i in range(len(c.cases(parse(n)))):
                out.append(("fn", c.ident, n, i, tlimit))
    except Exception as e:
        return [("fn", c.ident, c.ident, 0, tlimit)]
    return out


def out_of_budget(task, engine):
    kind, ident, name, idx, _ = task
    r = engine.Result(f"{name} [{idx}]")
    r.status, r.obligation, r.detail = "unknown", "budget", "the overall time limit of the proof was reached"
    r.ident, r.name, r.kind = ident, name, kind
    return r


GRACE = 60      # seconds left to the other tasks once the verdict is settled


def settled(results, pending, own, by_id, table, pid):
    """has an obligation of the property failed for good?  In a function that is not a helper (the contract of a helper may
    still be replaced by its body), relying on the contracts of established helpers only"""
    open_ = {t[2] for t, _ in pending} | {r.name for r in results if r.status != "proved"}
    for r in results:
        if r.status != "failed" or r.ident not in own or not (r.props is None or pid in r.props) or pid == "C30" or \
           r.kind == "fn" and by_id[r.ident].private:
            continue
        done = {q.name for q in results}
        if all(not f[0].private or n in done and n not in open_ for n, f in ((n, table.find(n)) for n in r.used) if f):
            return True
    return False


def run_all(pid, tlimit, jobs, log, total):
    """verify the contracts and lemmas of the property and everything they rely on"""
    global PROG, DISABLED
    from vc import engine
    from vc.names import parse
    by_id = {c.ident: c for c in engine.CONTRACTS}
    from vc.ctx import Ctx
    Ctx.threads = pid == "C30"
    disabled = set()
    kept = {}           # task -> result of an earlier attempt, still valid
    end = time.time() + total
    for attempt in range(6):
        DISABLED = tuple(sorted(disabled))
        table = engine.Table()
        own = [c for c in engine.CONTRACTS if pid in c.props]
        todo = []
        seen = set()
        lost = []
        own_set = {c.ident for c in own} | {l.ident for l in engine.LEMMAS if pid in l.props}
        for c in own:
            seen.add(c.ident)
            ts = tasks_of(engine, parse, c, tlimit)
            if not ts:
                lost.append(c.ident)
            todo += [t for t in ts if t[2] not in disabled]
        for l in engine.LEMMAS:
            if pid in l.props:
                todo += [("lemma", l.ident, l.ident, i, tlimit) for i in range(len(l.cases))]
        results = []

        def wanted_by(r):
            out = []
            for n in r.used:
                f = table.find(n)
                if f and f[0].ident not in seen:
                    seen.add(f[0].ident)
                    out += [t for t in tasks_of(engine, parse, f[0], tlimit) if t[2] not in disabled]
            return out
        dropped, seen_results = set(), 0
        with mp.Pool(jobs, maxtasksperchild=1) as pool:      # a fresh process each: reproducible
            pending = []
            queue = list(todo)
            while queue or pending:
                while queue:
                    t = queue.pop(0)
                    if t[:4] in kept:
                        results.append(kept[t[:4]])
                        queue += wanted_by(kept[t[:4]])
                    else:
                        pending.append((t, pool.apply_async(work, (t,))))
                nxt = []
                for t, a in pending:
                    if t[2] in dropped:
                        results.append(out_of_budget(t, engine))
                    elif a.ready():
                        r = a.get()
                        results.append(r)
                        if r.status != "proved" and r.kind == "fn" and by_id[r.ident].private:
                            dropped.add(r.name)         # its body is used instead: the other cases do not matter
                        kept[t[:4]] = r
                        queue += wanted_by(r)
                    elif time.time() > end:
                        results.append(out_of_budget(t, engine))
                    else:
                        nxt.append((t, a))
                pending = nxt
                if len(results) > seen_results and not queue:
                    seen_results = len(results)
                    if settled(results, pending, own_set, by_id, table, pid):
                        end = min(end, time.time() + GRACE)
                if pending and not queue:
                    pending[0][1].wait(0.05)
            if time.time() > end:
                pool.terminate()
        bad = {r.name for r in results if r.status != "proved" and r.kind == "fn" and by_id[r.ident].private}
        if not bad - disabled or time.time() > end:
            break
        log.append(f"helper contracts not established, bodies inlined instead: {sorted(bad)}")
        disabled |= bad
        kept = {t: r for t, r in kept.items() if not bad & (set(r.used) | {r.name})}
    own_ids = {c.ident for c in own} | {l.ident for l in engine.LEMMAS if pid in l.props}
    return results, own_ids, lost, sorted(disabled)


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f"finding: property={pid} "):
                out.append(l[len("finding: "):])
    return out


def main():
    global PROG
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    jobs = min(8, os.cpu_count() or 1)
    log = []
    path = dump()
    load_specs()
    from vc import mathlib
    from vc.exec import Program
    maths = mathlib.start(pid)
    try:
        PROG = Program(path)
    finally:
        os.remove(path)
    results, own_ids, lost, disabled = run_all(pid, 180 if tier == "quick" else 1500, jobs, log,
                                           360 if tier == "quick" else 5400)
    t_proof = time.time() - t0
    own = lambda r: r.ident in own_ids and (r.props is None or pid in r.props) and \
        (pid != "C30" or r.kind == "lemma" or "thread" in r.detail or "square-root cache" in r.obligation)
    own_bad = [r for r in results if r.status == "failed" and own(r)]
    dep_bad = [r for r in results if r.status == "failed" and not own(r)]
    unknown = [r for r in results if r.status == "unknown"]
    replay = {"ran": False}
    found = []
    if own_bad or dep_bad or unknown or lost or tier != "quick":
        from replay import driver
        budget = 240 if tier == "quick" else 600
        focus = sorted({r.name for r in own_bad + dep_bad + unknown})
        try:
            replay = driver.run(pid, seed, budget, focus, tier)
            found = replay.pop("found")
        except Exception as e:
            replay = {"ran": False, "error": f"{type(e).__name__}: {e}"}
    known = known_findings(pid)
    for k in known:
        print("KNOWN-FINDING: " + k)
    found = [f for f in found if not any(f["key"] in k for k in known)]
    lines = []
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, f"{pid}.json")
    if os.path.exists(rp):
        os.remove(rp)
    failed = [{"obligation": r.obligation, "where": r.task, "detail": r.detail[:2000], "path": r.trace[-20:],
               "contract": r.ident} for r in own_bad + dep_bad]
    if found:
        json.dump({"property": pid, "failed_obligations": failed, "failing_inputs": found[:20]}, open(rp, "w"),
                  indent=1)
        lines.append(f"VIOLATION property={pid} replay={rp}")
    elif own_bad:
        json.dump({"property": pid, "failed_obligations": failed, "failing_inputs": [],
                   "note": "the verifier gives no concrete input for these obligations and the search found none"},
                  open(rp, "w"), indent=1)
        lines.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
    write_evidence(pid, tier, seed, results, own_ids, lost, disabled, log, replay, len(lines), t_proof,
                   time.time() - t0, mathlib.finish(maths))
    for r in own_bad[:8]:
        print(f"FAILED {r.task}: {r.obligation}: {r.detail[:300]}")
    for r in dep_bad[:4]:
        print(f"dependency not established: {r.task}: {r.obligation}: {r.detail[:200]}")
    for r in unknown[:8]:
        print(f"undecided {r.task}: {r.obligation}: {r.detail[:300]}")
    for l in lost:
        print(f"no function under contract {l}")
    for f in found[:5]:
        print("failing input: " + f["text"][:600])
    for l in lines:
        print(l)
    n = sum(1 for r in results if r.status == "proved")
    print(f"{pid}: {n}/{len(results)} verification tasks proved in {time.time()-t0:.1f} s"
          + (f"; replay {replay.get('evaluations')} evaluations" if replay.get("ran") else ""))
    sys.exit(1 if lines else 0)


def write_evidence(pid, tier, seed, results, own_ids, lost, disabled, log, replay, nviol, t_proof, wall, lemmas):
    ob = sum(max(r.obligations, 1) if r.status == "proved" else r.obligations + 1 for r in results)
    dis = sum(max(r.obligations, 1) if r.status == "proved" else r.obligations for r in results)
    fns = sorted({r.name for r in results if r.kind == "fn"})
    trusted = sorted({t for r in results for t in r.trusted})
    inlined = sorted({t for r in results for t in r.inlined if "{closure" not in t})
    from vc import assumptions
    cov = {
        "obligations": ob, "discharged": dis,
        "checker_cmd": f"python3-vt /verif/check.py {pid} {tier}",
        "trusted_base": assumptions.TRUSTED + ["model of external function " + t for t in trusted],
        "functions_under_contract": fns,
        "own_contracts": sorted(own_ids),
        "functions_executed_inline": inlined,
        "verification_tasks": len(results),
        "tasks_proved": sum(1 for r in results if r.status == "proved"),
        "undecided": [f"{r.task}: {r.obligation}: {r.detail[:300]}" for r in results if r.status == "unknown"],
        "not_established": [f"{r.task}: {r.obligation}" for r in results if r.status == "failed"],
        "lost_anchors": lost,
        "helper_contracts_disabled": disabled,
        "paths": sum(r.paths for r in results),
        "back_ends": {
            "z3 (integers, lengths, bit sizes)": {"queries": sum(r.stats["z3"] for r in results),
                                                  "seconds": round(sum(r.stats["z3_time"] for r in results), 2)},
            "polynomial identities over Z and facts modulo p (vc/field.py, sympy factorization)":
                {"decisions": sum(r.stats["field"] for r in results)},
        },
        "verification_seconds": round(sum(r.time for r in results), 1),
        "mathematics": lemmas,
        "bounded_stand_in": replay,
        "log": log,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": assumptions.per(pid, lemmas), "wall_s": round(wall, 1),
          "violations": nviol}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"      # set orders, hence proof searches, are the same on every run
        os.execv(sys.executable, [sys.executable] + sys.argv)
    try:
        main()
    except BuildError as e:
        print("cannot build /repo: " + str(e))
        sys.exit(2)
