"""Runs a check: the supervisor starts worker processes, each of which executes the cases of one shard.

A check is a module checks/cXX.py with
    LEVEL, RULE, ASSUMPTIONS
    plan(tier) -> list of shards. A shard is a dict: kind, n (number of cases), budget (s), min (cases needed),
                  mode ("plain" or "sched"), stall (s without a case ending: a hang), and what the check wants.
    need(tier) -> {counter: minimum}  counters which must be reached or else the run is inconclusive
    setup(ctx) (optional), teardown(ctx) (optional)
    case(ctx, rng, i) -> executes the case i of ctx.shard and raises Violation when the property is broken

Every random choice of a case comes from its rng, which only depends on (VERIF_SEED, property, shard, i).
"""
import faulthandler
import hashlib
import importlib
import json
import os
import random
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


class Violation(Exception):
    """the oracle of a check has seen the property broken"""

    def __init__(self, message, timing=False, **witness):
        Exception.__init__(self, message)
        self.witness = witness
        # timing: the verdict depends on a wall-clock watchdog: it must be reproduced before it is reported
        self.timing = timing


class Inconclusive(Exception):
    """the case could not be judged (the environment, not the code under test)"""


def jsonable(obj, depth=0):
    """something that can be written in JSON"""
    if depth > 8:
        return repr(obj)[:200]
    if isinstance(obj, (bytes, bytearray)):
        return "hex:" + bytes(obj).hex()
    if isinstance(obj, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(obj.items())[:400]}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(obj)[:400]]
    if obj is None or isinstance(obj, (bool, int, float, str)):
        return obj
    return repr(obj)[:400]


class Ctx(object):
    """what a case uses to talk to the framework"""

    def __init__(self, prop, tier, seed, shard):
        self.prop, self.tier, self.seed, self.shard = prop, tier, seed, shard
        self.kind = shard["kind"]
        self.counters = {}
        self.keys = set()
        self.states = {}
        self.samples = []
        self.findings = []
        self.i = None
        self.lib = None
        self.known = load_known().get(prop, {})
        self.store = {}
        self.deadline = None

    def thorough(self):
        return self.tier == "thorough"

    def rng(self, i):
        return random.Random("%s/%s/%s/%s" % (self.seed, self.prop, self.shard["name"], i))

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def key(self, *parts):
        """declare the case (or a part of it) as non trivial: distinct keys are counted"""
        if len(self.keys) < 200000:
            self.keys.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest())

    def state(self, name, *parts):
        """a named set of distinct things observed"""
        bucket = self.states.setdefault(name, set())
        if len(bucket) < 50000:
            bucket.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest())

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def fail(self, message, timing=False, **witness):
        raise Violation(message, timing=timing, **witness)

    def check(self, cond, message, **witness):
        if not cond:
            raise Violation(message, **witness)

    def excess(self, name, seconds, limit=1.5, n=6, **witness):
        """a duration over what was told: one may come from a loaded machine, not n of the last 2 n"""
        last = self.store.setdefault("excess", {}).setdefault(name, [])
        last.append(seconds)
        del last[:-2 * n]
        bad = [x for x in last if x > limit]
        if len(bad) >= n:
            raise Violation("%s: out of the last %d, some last %s s too long" % (
                name, len(last), ", ".join("%.1f" % x for x in bad)),
                            timing=True, **witness)

    def finding(self, key, what):
        """a deviation: a listed finding is only printed, anything else is a violation"""
        if key in self.known:
            if key not in [f[0] for f in self.findings]:
                self.findings.append((key, self.known[key]))
        else:
            raise Violation(what, key=key)


def load_known():
    """KNOWN_FINDINGS.txt: lines 'finding: property=<id> key=<key> <what>' (the 'fixed:' lines suppress nothing)"""
    out = {}
    try:
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as fil:
            for line in fil:
                line = line.strip()
                if line.startswith("finding:"):
                    words = line[len("finding:"):].split()
                    prop = words[0].split("=", 1)[1]
                    key = words[1].split("=", 1)[1]
                    out.setdefault(prop, {})[key] = " ".join(words[2:])
    except IOError:
        pass
    return out


def load_check(prop):
    return importlib.import_module("checks." + prop.lower())


# --------------------------------------------------------------------------------------------------- worker

def judge(exc, ctx):
    """turns what a case raised into a verdict"""
    from vp import boot
    text = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
    if isinstance(exc, Violation):
        return {"verdict": "violation", "message": str(exc), "timing": exc.timing,
                "witness": jsonable(exc.witness), "trace": text[-4000:]}
    if isinstance(exc, Inconclusive):
        return {"verdict": "inconclusive", "message": str(exc), "trace": text[-4000:]}
    frames = boot.lib_frames(exc.__traceback__)
    if frames:
        return {"verdict": "violation", "message": "unexpected exception %s: %s at %s" % (
            type(exc).__name__, exc, frames[-1]), "timing": False, "witness": {"frames": frames},
            "trace": text[-4000:]}
    if isinstance(exc, (TypeError, ValueError, LookupError, AttributeError, struct.error, AssertionError)) and ctx.i is not None:
        # what the library gave is not even something the oracle can look at. It must come back to be believed
        return {"verdict": "violation", "message": "a result of the library can not be interpreted: %s: %s" % (
            type(exc).__name__, exc), "timing": True, "witness": {}, "trace": text[-4000:]}
    if isinstance(exc, (ConnectionError, TimeoutError)) and ctx.i is not None:
        # the other side is the library
        return {"verdict": "violation", "message": "the connection with the library is lost: %s: %s" % (
            type(exc).__name__, exc), "timing": True, "witness": {}, "trace": text[-4000:]}
    return {"verdict": "error", "message": "%s: %s" % (type(exc).__name__, exc), "trace": text[-4000:]}


def worker(spec_path):
    with open(spec_path) as fil:
        spec = json.load(fil)
    faulthandler.register(signal.SIGUSR1, file=open(spec["stacks"], "w"), all_threads=True)
    from vp import boot
    shard = spec["shard"]
    ctx = Ctx(spec["prop"], spec["tier"], spec["seed"], shard)
    result = {"verdict": "held", "cases": 0, "shard": shard["name"]}
    hb = open(spec["heartbeat"], "w")

    def beat(i):
        hb.seek(0)
        hb.write("%d %d\n" % (i, result["cases"]))
        hb.flush()

    thread_errors = []

    def excepthook(args):
        thread_errors.append((args.exc_type, args.exc_value, args.exc_traceback, args.thread))
    threading.excepthook = excepthook
    ctx.thread_errors = thread_errors

    t_start = time.monotonic()
    i = None
    check = None
    try:
        beat(-1)
        if not shard.get("opcodes", True):
            from vp import sched
            sched.OPCODES = False
        ctx.lib = boot.load(shard.get("mode", "plain"), shard.get("simulator", False))
        check = load_check(spec["prop"])
        if hasattr(check, "setup"):
            check.setup(ctx)
        indexes = spec["indexes"] if spec.get("indexes") is not None else range(shard["n"])
        budget = shard.get("budget", 60)
        ctx.deadline = time.monotonic() + budget
        for i in indexes:
            if time.monotonic() > ctx.deadline and spec.get("indexes") is None:
                break
            ctx.i = i
            beat(i)
            check.case(ctx, ctx.rng(i), i)
            if thread_errors:
                # an exception which escaped from a thread of the library
                (etype, evalue, tback, thread) = thread_errors[0]
                frames = boot.lib_frames(tback)
                if frames and getattr(check, "THREAD_ERRORS_ARE_VIOLATIONS", True):
                    text = "".join(traceback.format_exception(etype, evalue, tback))
                    raise Violation("exception %s: %s escaped from a thread of the library at %s" % (
                        etype.__name__, evalue, frames[-1]), trace=text[-3000:])
                del thread_errors[:]
            result["cases"] += 1
    except BaseException as exc:  # noqa
        if isinstance(exc, KeyboardInterrupt):
            raise
        result.update(judge(exc, ctx))
        result["case"] = i
    try:
        if check is not None and hasattr(check, "teardown") and result["verdict"] == "held":
            check.teardown(ctx)
    except BaseException as exc:  # noqa
        result.update(judge(exc, ctx))
        result["case"] = i
    result.update(counters=ctx.counters, keys=sorted(ctx.keys), samples=ctx.samples, findings=ctx.findings,
                  states={k: sorted(v) for k, v in ctx.states.items()}, wall=time.monotonic() - t_start)
    with open(spec["out"] + ".tmp", "w") as fil:
        json.dump(result, fil)
    os.rename(spec["out"] + ".tmp", spec["out"])
    sys.stdout.flush()
    os._exit(0)


# ----------------------------------------------------------------------------------------------- supervisor

class Job(object):
    """one worker process"""

    def __init__(self, prop, tier, seed, shard, workdir, tag, indexes=None, stall=None):
        self.shard, self.tag = shard, tag
        self.prop, self.tier, self.seed = prop, tier, seed
        base = os.path.join(workdir, tag)
        self.paths = {k: base + "." + k for k in ("spec", "out", "heartbeat", "stacks", "log")}
        self.spec = dict(prop=prop, tier=tier, seed=seed, shard=shard, indexes=indexes,
                         out=self.paths["out"], heartbeat=self.paths["heartbeat"], stacks=self.paths["stacks"])
        self.stall = stall or shard.get("stall", 60)
        self.proc = None
        self.last, self.last_t = None, None
        self.hang = None

    def start(self):
        with open(self.paths["spec"], "w") as fil:
            json.dump(self.spec, fil)
        self.log = open(self.paths["log"], "w")
        self.proc = subprocess.Popen(
            [PY, "-B", os.path.join(VERIF, "run.py"), "--worker", self.paths["spec"]],
            cwd=VERIF, stdout=self.log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        self.last_t = time.monotonic()

    def beat(self):
        try:
            with open(self.paths["heartbeat"]) as fil:
                return fil.read()
        except IOError:
            return None

    def poll(self):
        """True when the job is over"""
        if self.proc.poll() is not None:
            self.cleanup()
            return True
        now = time.monotonic()
        beat = self.beat()
        if beat != self.last:
            self.last, self.last_t = beat, now
        if now - self.last_t > self.stall:
            self.hang = int((self.last or "-1 0").split()[0] or -1)
            try:
                self.proc.send_signal(signal.SIGUSR1)
                time.sleep(1.0)
            except OSError:
                pass
            self.kill()
            self.cleanup()
            return True
        return False

    def crashed(self):
        return self.hang is None and self.proc.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS)

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.proc.wait(10)
        except subprocess.TimeoutExpired:
            pass

    def cleanup(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)   # children left behind by the worker
        except OSError:
            pass
        self.log.close()

    def result(self):
        if self.hang is None and os.path.exists(self.paths["out"]):
            with open(self.paths["out"]) as fil:
                return json.load(fil)
        res = {"verdict": "error", "shard": self.shard["name"], "cases": 0, "counters": {}, "keys": [],
               "samples": [], "findings": [], "states": {}, "wall": 0}
        with open(self.paths["log"], errors="replace") as fil:
            log = fil.read()[-3000:]
        if self.hang is not None:
            with open(self.paths["stacks"], errors="replace") as fil:
                stacks = fil.read()
            res.update(verdict="hang", case=self.hang, stacks=stacks[-8000:],
                       message="no progress for %d s in case %d" % (self.stall, self.hang))
        else:
            res.update(message="the worker died with status %s" % self.proc.returncode, trace=log)
        return res


def run_jobs(jobs, width, deadline):
    pending, running, results = list(jobs), [], []
    stop = False
    while pending or running:
        while pending and len(running) < width and not stop:
            job = pending.pop(0)
            job.start()
            running.append(job)
        for job in list(running):
            if job.poll():
                running.remove(job)
                res = job.result()
                if job.crashed() and job.shard.get("mode") == "sched" and job.shard.get("opcodes", True):
                    # the interpreter may crash when the instructions of several threads are traced
                    job.shard = job.spec["shard"] = dict(job.shard, opcodes=False)
                    pending.insert(0, job)
                    continue
                results.append((job, res))
                if res["verdict"] in ("violation", "hang"):
                    stop = True
        if stop:
            # one violation is enough
            for job in running:
                job.kill()
                job.cleanup()
            break
        if time.monotonic() > deadline:
            for job in running:
                job.kill()
                job.cleanup()
                res = {"verdict": "error", "message": "over the time limit of the check", "shard": job.shard["name"],
                       "cases": 0, "counters": {}, "keys": [], "samples": [], "findings": [], "states": {}, "wall": 0}
                results.append((job, res))
            break
        time.sleep(0.02)
    return results


def rerun(job, prop, tier, seed, workdir, case, n, stall):
    """run again one case: returns the results"""
    out = []
    for k in range(n):
        again = Job(prop, tier, seed, job.shard, workdir, "%s.again%d" % (job.tag, k), indexes=[case], stall=stall)
        out += [res for _, res in run_jobs([again], 1, time.monotonic() + 3 * stall + 120)]
    return out


def main(argv):
    if argv and argv[0] == "--worker":
        return worker(argv[1])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    only = None
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as fil:
            replay = json.load(fil)
        tier, seed = replay["tier"], replay["seed"]
    if "--shard" in argv:
        only = argv[argv.index("--shard") + 1]
    check = load_check(prop)
    t_start = time.monotonic()
    workdir = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    try:
        return supervise(prop, check, tier, seed, replay, only, t_start, workdir)
    finally:
        import shutil
        shutil.rmtree(workdir, ignore_errors=True)


def supervise(prop, check, tier, seed, replay, only, t_start, workdir):
    shards = check.plan(tier)
    names = set()
    for k, shard in enumerate(shards):
        shard.setdefault("name", "%s-%d" % (shard["kind"], k))
        assert shard["name"] not in names
        names.add(shard["name"])
    if only:
        shards = [s for s in shards if s["name"] == only or s["kind"] == only]
    width = min(8, max(2, os.cpu_count() or 2))
    if replay:
        shards = [s for s in shards if s["name"] == replay["shard"]]
        jobs = [Job(prop, tier, seed, s, workdir, "replay", indexes=[replay["case"]]) for s in shards]
    else:
        jobs = [Job(prop, tier, seed, s, workdir, "job%d" % k) for k, s in enumerate(shards)]
    limit = 840 if tier == "quick" else 6 * 3600
    results = run_jobs(jobs, width, time.monotonic() + limit)

    violation, notes, status = None, [], 0
    todo, results = list(results), []
    second = set()
    while todo:
        job, res = todo.pop(0)
        verdict = res["verdict"]
        if verdict == "violation" and not res.get("timing"):
            violation = violation or (job, res)
        elif verdict in ("violation", "hang"):
            # a wall-clock verdict is only believed when it comes back
            again = [res]
            if res["case"] is not None and res["case"] >= 0:
                again = rerun(job, prop, tier, seed, workdir, res["case"], 2, job.stall * 2)
            bad = [r for r in again if r["verdict"] in ("violation", "hang")]
            seen = "modbus_tk" in res.get("stacks", "") or any("modbus_tk" in r.get("stacks", "") for r in again)
            if bad or job.tag in second:
                if verdict == "violation" or seen:
                    if verdict == "hang":
                        res["message"] = "the library does not make progress: " + res["message"]
                    violation = violation or (job, res)
                else:
                    status = status or 2
                    notes.append("hang outside of the library: %s\n%s" % (res["message"], res.get("stacks", "")))
            elif violation is None:
                notes.append("not reproduced, the shard is run again: %s\n%s" % (
                    res["message"], res.get("stacks", "")))
                tag = job.tag + ".second"
                second.add(tag)
                done = set(id(j) for j, _ in results) | set(id(j) for j, _ in todo) | set([id(job)])
                todo += run_jobs([Job(prop, tier, seed, job.shard, workdir, tag)] + [
                    Job(prop, tier, seed, j.shard, workdir, j.tag + ".rest") for j in jobs if id(j) not in done],
                    width, time.monotonic() + limit)
                continue
        elif verdict == "inconclusive":
            status = status or 3
            notes.append("inconclusive: %s %s\n%s" % (res["shard"], res["message"], res.get("trace", "")))
        elif verdict == "error":
            status = status or 2
            notes.append("error: %s case %s: %s\n%s" % (
                res["shard"], res.get("case"), res["message"], res.get("trace", "")))
        results.append((job, res))

    counters, keys, states, samples, findings, cases = {}, set(), {}, [], {}, 0
    for job, res in results:
        for name, val in res["counters"].items():
            counters[name] = counters.get(name, 0) + val
        keys.update(res["keys"])
        for name, vals in res["states"].items():
            states.setdefault(name, set()).update(vals)
        samples += [dict(shard=res["shard"], case=s) for s in res["samples"]]
        for key, what in res["findings"]:
            findings[key] = what
        cases += res["cases"]

    for key in sorted(findings):
        print("KNOWN-FINDING: property=%s key=%s %s" % (prop, key, findings[key]))

    if violation is None and status == 0 and not replay and not only:
        for job, res in results:
            need = job.shard.get("min", 1)
            if res["cases"] < need:
                status = 3
                notes.append("inconclusive: shard %s executed only %d cases (%d needed)" % (
                    res["shard"], res["cases"], need))
        needs = check.need(tier) if hasattr(check, "need") else {}
        for name, val in needs.items():
            got = counters.get(name, 0)
            if got < val:
                status = 3
                notes.append("inconclusive: %s is %d (%d needed)" % (name, got, val))
        for key, what in load_known().get(prop, {}).items():
            if key not in findings:
                notes.append("note: the listed finding %s was not met" % key)

    wall = time.monotonic() - t_start
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": check.LEVEL,
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(keys),
            "rule": check.RULE,
            "samples": samples[:8] or ["none"],
            "observed": counters,
            "distinct_observed": {k: len(v) for k, v in states.items()},
            "shards": [dict(name=r["shard"], cases=r["cases"], verdict=r["verdict"], wall_s=round(r["wall"], 2))
                       for _, r in results],
        },
        "assumptions": list(getattr(check, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    if not replay and not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", prop + ".json")
        with open(path + ".tmp", "w") as fil:
            json.dump(evidence, fil, indent=1)
        os.rename(path + ".tmp", path)

    for note in notes:
        print(note)
    if violation:
        job, res = violation
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%s-%s.json" % (prop, tier, seed, res["shard"]))
        with open(path, "w") as fil:
            json.dump({"property": prop, "tier": tier, "seed": seed, "shard": res["shard"], "case": res.get("case"),
                       "message": res["message"], "witness": res.get("witness"), "trace": res.get("trace"),
                       "stacks": res.get("stacks"),
                       "replay_cmd": "bash check.sh %s --replay %s" % (prop, path)}, fil, indent=1)
        print("%s: shard %s case %s: %s" % (prop, res["shard"], res.get("case"), res["message"][:2000]))
        print("witness: " + json.dumps(res.get("witness"))[:1500])
        if res.get("stacks"):
            print(res["stacks"][-2500:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if status:
        print("%s: no verdict (%d cases, %.1f s)" % (prop, cases, wall))
        return status
    print("%s: held on %d cases, %d distinct, %s (%.1f s)" % (
        prop, cases, len(keys), ", ".join("%s=%d" % kv for kv in sorted(counters.items()))[:600], wall))
    return 0
