"""Bounded exhaustive exploration harness shared by every check.

A check module defines

    PROPERTY   = "C01"
    RULE       = "..."            what is enumerated, against what oracle
    def tasks(tier): yield desc   every point of the bounded space (JSON-able)
    def run(desc, ctx): ...       drive the real code, compare with the oracle

`run` reports through `ctx`:

    ctx.state(key)      a distinct state of the explored space was reached
    ctx.step(n)         n operations of the real code were executed
    ctx.agree(n)        n complete traces were compared with the reference
    ctx.outcome(key)    a distinct observable outcome (anti-vacuity)
    ctx.fail(msg, sig)  the property is broken on this point

The explorer enumerates *every* task (never samples); a wall clock cap, if it
is ever hit, is reported as such and makes the run non exhaustive.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Skip(Exception):
    """The point lies outside the precondition of the property."""


def h(key):
    if not isinstance(key, (bytes, str)):
        key = json.dumps(key, sort_keys=True, default=repr)
    if isinstance(key, str):
        key = key.encode()
    return int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), "big")


class Ctx:
    def __init__(self, desc):
        self.desc = desc
        self.states = set()
        self.outcomes = {}
        self.steps = 0
        self.agrees = 0
        self.skips = 0
        self.fails = []
        self.sample = None

    def state(self, key):
        k = h(key)
        new = k not in self.states
        self.states.add(k)
        return new

    def step(self, n=1):
        self.steps += n

    def agree(self, n=1):
        self.agrees += n

    def outcome(self, key):
        key = key if isinstance(key, str) else json.dumps(key, default=repr)
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def fail(self, msg, sig=None):
        """sig: short stable signature naming the failing input/history."""
        self.fails.append((str(msg), sig))

    def check(self, cond, msg, sig=None):
        if not cond:
            self.fail(msg if isinstance(msg, str) else msg(), sig)
        return bool(cond)


_MOD = None


def _exec(desc):
    """Run one point; every exception while driving the code is a failure."""
    ctx = Ctx(desc)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _MOD.run(desc, ctx)
    except Skip:
        ctx.skips += 1
    except Exception as e:  # noqa
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = [f for f in tb if "/optbinning/" in f.filename] or list(tb)
        last = where[-1]
        ctx.fail("raised {}: {} at {}:{} in {}".format(
            type(e).__name__, e, os.path.basename(last.filename), last.lineno,
            last.name), "raise:{}:{}".format(type(e).__name__, last.name))
    return ctx


def _worker(batch):
    agg = dict(states=set(), outcomes={}, steps=0, agrees=0, skips=0,
               fails=[], n=0)
    for desc in batch:
        ctx = _exec(desc)
        agg["n"] += 1
        agg["states"] |= ctx.states
        agg["steps"] += ctx.steps
        agg["agrees"] += ctx.agrees
        agg["skips"] += ctx.skips
        for k, v in ctx.outcomes.items():
            if k in agg["outcomes"] or len(agg["outcomes"]) < 400:
                agg["outcomes"][k] = agg["outcomes"].get(k, 0) + v
        if len(agg["fails"]) < 50:
            for m, s in ctx.fails[:20]:
                agg["fails"].append((desc, m, s))
    return agg


def _loop(conn, slot):
    _init()
    # joblib never parallelises inside a daemonic process
    mp.current_process()._config["daemon"] = False
    try:  # one core per worker: the solvers size their thread pools from it
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[slot % len(cpus)]})
    except (AttributeError, OSError):
        pass
    while True:
        batch = conn.recv()
        if batch is None:
            os._exit(0)
        conn.send(_worker(batch))


def _init():
    # the code under test prints and warns; keep the protocol stream clean
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)


def load_known(prop):
    """known_findings.txt: 'known: property=C01 key=<sig> :: <what fails>'"""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            head, _, what = line[len("known:"):].partition("::")
            kv = dict(p.split("=", 1) for p in head.split())
            if kv.get("property") == prop:
                known[kv["key"]] = what.strip()
    return known


def finding_key(desc, sig):
    return "%016x" % h(json.dumps([desc, sig], sort_keys=True, default=repr))


def _batches(it, size):
    batch = []
    for d in it:
        batch.append(d)
        if len(batch) >= size:
            yield batch
            batch = []
    if batch:
        yield batch


def main(modname):
    global _MOD
    t0 = time.time()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    nproc = int(os.environ.get("VERIF_JOBS", "8"))

    saved_err = os.dup(2)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    try:
        _MOD = importlib.import_module("checks." + modname)
    except Exception:
        # the code under test cannot even be imported
        os.dup2(saved_err, 2)
        traceback.print_exc()
        prop = modname.split("_")[0].upper()
        path = _replay_path(prop, "import")
        json.dump({"module": modname, "desc": None,
                   "message": traceback.format_exc()}, open(path, "w"))
        print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    prop = _MOD.PROPERTY

    if "--replay" in args:
        os.dup2(saved_err, 2)
        rec = json.load(open(args[args.index("--replay") + 1]))
        ctx = _exec(rec["desc"])
        for m, s in ctx.fails:
            print("FAIL", m)
        print("replay:", "violated" if ctx.fails else "held")
        return 1 if ctx.fails else 0

    cap = float(os.environ.get(
        "VERIF_CAP", getattr(_MOD, "CAP", {}).get(
            tier, 600 if tier == "quick" else 840)))
    size = getattr(_MOD, "BATCH", 16)
    tot = dict(states=set(), outcomes={}, steps=0, agrees=0, skips=0,
               fails=[], n=0)
    samples = []
    capped = False

    def gen():
        for d in _MOD.tasks(tier):
            yield d

    sys.stdout.flush()
    ctx = mp.get_context("fork")
    # Task list is materialised in the parent: its length is the bound.
    all_tasks = list(gen())
    batches = list(_batches(all_tasks, size))
    # interleave so that expensive regions spread over workers
    deadline = t0 + cap
    hang = float(getattr(_MOD, "BATCH_TIMEOUT", 90))
    queue = list(reversed(batches))
    hard = 0
    workers = {}

    def spawn():
        parent, child = ctx.Pipe()
        used = {w["slot"] for w in workers.values()}
        slot = min(set(range(nproc + 1)) - used)
        p = ctx.Process(target=_loop, args=(child, slot), daemon=True)
        p.start()
        child.close()
        w = {"p": p, "c": parent, "batch": None, "t": 0.0, "slot": slot}
        workers[parent] = w
        feed(w)

    def feed(w):
        if queue:
            w["batch"] = queue.pop()
            w["t"] = time.time()
            w["c"].send(w["batch"])
        else:
            w["batch"] = None
            try:
                w["c"].send(None)
            except OSError:
                pass

    def drop(w):
        workers.pop(w["c"], None)
        w["p"].kill()
        w["p"].join()
        w["c"].close()

    for _ in range(min(nproc, len(batches))):
        spawn()
    try:
        while any(w["batch"] is not None for w in workers.values()):
            now = time.time()
            if now > deadline:
                capped = True
                break
            ready = mp.connection.wait(list(workers), timeout=5)
            for c in ready:
                w = workers.get(c)
                if w is None:
                    continue
                try:
                    agg = c.recv()
                except (EOFError, OSError):
                    batch = w["batch"]
                    drop(w)
                    if batch is not None:
                        if len(batch) > 1:   # isolate the culprit
                            queue.extend([d] for d in batch)
                        else:
                            tot["n"] += 1
                            tot["fails"].append(
                                (batch[0], "the process died", "died"))
                            hard += 1
                        spawn()
                    continue
                tot["n"] += agg["n"]
                tot["states"] |= agg["states"]
                tot["steps"] += agg["steps"]
                tot["agrees"] += agg["agrees"]
                tot["skips"] += agg["skips"]
                for k, v in agg["outcomes"].items():
                    tot["outcomes"][k] = tot["outcomes"].get(k, 0) + v
                if len(tot["fails"]) < 2000:
                    tot["fails"].extend(agg["fails"])
                if len(tot["fails"]) >= 200 and "--all" not in args:
                    capped = True
                feed(w)
            for w in list(workers.values()):
                if w["batch"] is not None and time.time() - w["t"] > hang:
                    batch = w["batch"]
                    drop(w)
                    if len(batch) > 1:
                        queue.extend([d] for d in batch)
                    else:
                        tot["n"] += 1
                        tot["fails"].append(
                            (batch[0], "no answer in time", "hang"))
                        hard += 1
                    spawn()
            if hard >= 3:
                capped = True
            if capped:
                break
    finally:
        for w in list(workers.values()):
            drop(w)

    if all_tasks:
        for i in sorted({0, len(all_tasks) // 2, len(all_tasks) - 1}):
            samples.append(all_tasks[i])

    known = load_known(prop)
    seen_known = {}
    violations = []
    for desc, msg, sig in tot["fails"]:
        key = finding_key(desc, sig)
        if key in known:
            seen_known[key] = known[key]
        else:
            violations.append((desc, msg, sig, key))

    os.dup2(saved_err, 2)
    print("property={} tier={} points={} states={} transitions={} "
          "traces_agreeing={} outside_precondition={} distinct_outcomes={} "
          "exhaustive={} wall={:.1f}s".format(
              prop, tier, tot["n"], len(tot["states"]), tot["steps"],
              tot["agrees"], tot["skips"], len(tot["outcomes"]),
              not capped, time.time() - t0))
    if "-v" in args:
        for k, v in sorted(tot["outcomes"].items(), key=lambda e: -e[1])[:40]:
            print("   outcome", v, k)
    for key, what in sorted(seen_known.items()):
        print("KNOWN-FINDING: property={} key={} {}".format(prop, key, what))

    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": getattr(_MOD, "LEVEL", "model_checking"),
        "coverage": {
            "states": len(tot["states"]),
            "transitions": tot["steps"],
            "traces_validated_against_impl": tot["agrees"],
            "points_enumerated": tot["n"],
            "points_in_space": len(all_tasks),
            "outside_precondition": tot["skips"],
            "distinct_outcomes": len(tot["outcomes"]),
            "outcome_histogram": dict(sorted(
                tot["outcomes"].items(), key=lambda e: -e[1])[:25]),
            "rule": _MOD.RULE,
            "samples": samples,
            "exhaustive": (not capped) and tot["n"] == len(all_tasks),
        },
        "assumptions": getattr(_MOD, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if capped:
        ev["coverage"]["cap"] = (
            "stopped after {} of {} points ({})".format(
                tot["n"], len(all_tasks),
                "violations found" if tot["fails"] else "time cap"))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)

    if violations:
        # shortest description first: simplest counterexample
        violations.sort(key=lambda v: len(json.dumps(v[0], default=repr)))
        shown = set()
        if "-v" in args:
            sigs = {}
            for desc, msg, sig, key in violations:
                sigs.setdefault(sig, []).append((desc, msg))
            for s, v in sorted(sigs.items(), key=lambda e: -len(e[1])):
                print("   sig", len(v), s, json.dumps(
                    v[0][0], default=repr)[:300], "::", v[0][1][:400])
        for desc, msg, sig, key in violations:
            if (sig, msg[:60]) in shown or len(shown) >= 8:
                continue
            shown.add((sig, msg[:60]))
            path = _replay_path(prop, key)
            with open(path, "w") as f:
                json.dump({"module": modname, "property": prop, "desc": desc,
                           "message": msg, "sig": sig, "key": key,
                           "replay_cmd": "bash /verif/check.sh {} --replay {}"
                           .format(modname, path)}, f, indent=1, default=repr)
            print("  counterexample [{}] key={} {} :: {}".format(
                sig, key, json.dumps(desc, default=repr)[:400], msg[:600]))
            print("VIOLATION property={} replay={}".format(prop, path))
        print("{} violating reports".format(len(violations)))
        return 1
    if tot["n"] and not tot["agrees"]:
        print("vacuous exploration: nothing was compared")
        path = _replay_path(prop, "vacuous")
        json.dump({"module": modname, "desc": None}, open(path, "w"))
        print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    return 0


def _replay_path(prop, key):
    d = os.path.join(VERIF, "replays", prop)
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, key + ".json")


def entry():
    name = sys.argv.pop(1)
    err = os.dup(2)
    try:
        rc = main(name)
    except Exception:
        os.dup2(err, 2)
        traceback.print_exc()
        sys.stderr.flush()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
