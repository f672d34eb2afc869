"""Runner: enumerates the cases of a property on all cores, counts what was covered, reports violations."""
import json
import mmap
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT_S = 150  # a single case that takes longer than this never answers (in the quick tier they take a few seconds at most)
SOFT_DEADLINE_S = {"quick": 420, "thorough": 6 * 3600}


class Violation(Exception):
    def __init__(self, message, **detail):
        super().__init__(message)
        self.detail = detail


class CaseTimeout(BaseException):
    pass


class Ctx:
    def __init__(self, known):
        self.known = known  # ids of the known findings of this property
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.findings = {}
        self.samples = []
        self.counters = {}

    def state(self, *key):
        self.states.add(hash(key) & 0xFFFFFFFFFFFFFFFF)

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(key) & 0xFFFFFFFFFFFFFFFF)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def finding(self, fid, text):
        """A mismatch that is exactly the recorded known finding `fid`. Returns False if it is not listed."""
        if fid not in self.known:
            return False
        if fid not in self.findings or len(text) < len(self.findings[fid]):
            self.findings[fid] = text
        self.count("cases matching " + fid)
        return True

    def sample(self, obj, every=997):
        n = self.counters.get("_s", 0)
        self.counters["_s"] = n + 1
        if n % every == 0 and len(self.samples) < 3:
            self.samples.append(obj)


def known_findings(prop):
    """Lines 'known: property=<id> finding=<fid> <what fails>' of known-findings.txt."""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            parts = line.split()
            if len(parts) > 2 and parts[0] == "known:" and parts[1] == "property=" + prop:
                out[parts[2].split("=", 1)[1]] = line.split(None, 3)[3].strip()
    return out


def _run_case(mod, case, ctx):
    def on_alarm(_signum, _frame):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    try:
        mod.check(case, ctx)
    except Violation:
        raise
    except CaseTimeout:
        raise Violation("no answer within %d s" % CASE_LIMIT_S)
    except RecursionError as e:
        raise Violation("recursion without end: %s" % e)
    except Exception as e:  # the code under test raised where the property says it answers
        raise Violation("unexpected %s: %s" % (type(e).__name__, e), trace=traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(mod, tier, index, workers, chunk, known, deadline, current, out_fd):
    ctx = Ctx(known)
    violation = None
    capped = False
    done = 0
    total = 0
    try:
        for i, case in enumerate(mod.cases(tier)):
            total = i + 1
            if (i // chunk) % workers != index:
                continue
            struct.pack_into("q", current, index * 8, i)
            if current[workers * 8]:
                capped = True
                break
            if done % 16 == 0 and time.time() > deadline:
                capped = True
                break
            try:
                _run_case(mod, case, ctx)
            except Violation as v:
                violation = {"index": i, "case": case, "message": str(v), "detail": v.detail}
                current[workers * 8] = 1
                break
            done += 1
    except BaseException:
        os.write(2, traceback.format_exc().encode())
        os._exit(3)
    payload = pickle.dumps(
        (ctx.states, ctx.transitions, ctx.traces, ctx.outcomes, ctx.findings, ctx.samples, ctx.counters, violation,
         capped, done, total)
    )
    data = struct.pack("q", len(payload)) + payload
    while data:
        n = os.write(out_fd, data[:1 << 16])
        data = data[n:]
    os._exit(0)


def run(mod, tier, seed, workers=None):
    started = time.time()
    prop = mod.ID
    known = known_findings(prop)
    if hasattr(mod, "setup"):
        mod.setup(tier)
    workers = workers or getattr(mod, "WORKERS", None) or max(1, min(8, os.cpu_count() or 1))
    chunk = getattr(mod, "CHUNK", 4)
    deadline = started + SOFT_DEADLINE_S[tier]
    if tier == "thorough":
        global CASE_LIMIT_S
        CASE_LIMIT_S = 900
    current = mmap.mmap(-1, workers * 8 + 8)
    for w in range(workers):
        struct.pack_into("q", current, w * 8, -1)
    sys.stdout.flush()
    kids = {}
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                _worker(mod, tier, w, workers, chunk, known, deadline, current, wr)
            finally:
                os._exit(3)
        os.close(wr)
        kids[r] = [pid, w, b""]
    results, dead = [], []
    while kids:
        ready, _, _ = select.select(list(kids), [], [])
        for fd in ready:
            data = os.read(fd, 1 << 20)
            if data:
                kids[fd][2] += data
                continue
            pid, w, blob = kids.pop(fd)
            os.close(fd)
            _, status = os.waitpid(pid, 0)
            if len(blob) >= 8 and len(blob) - 8 == struct.unpack("q", blob[:8])[0]:
                results.append(pickle.loads(blob[8:]))
            else:
                dead.append((w, struct.unpack_from("q", current, w * 8)[0], status))
    merged = Ctx(known)
    violations, capped, done, total = [], False, 0, 0
    for states, tr, traces, outcomes, findings, samples, counters, violation, cap, d, t in results:
        merged.states |= states
        merged.transitions += tr
        merged.traces += traces
        merged.outcomes |= outcomes
        for k, v in findings.items():
            if k not in merged.findings or (len(v), v) < (len(merged.findings[k]), merged.findings[k]):
                merged.findings[k] = v
        merged.samples.extend(samples)
        for k, v in counters.items():
            merged.count(k, v)
        if violation:
            violations.append(violation)
        capped = capped or cap
        done += d
        total = max(total, t)
    harness_error = None
    for w, index, status in dead:
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 3:
            harness_error = "worker %d failed in the harness at case %d" % (w, index)
            continue
        case = None
        for i, c in enumerate(mod.cases(tier)):
            if i == index:
                case = c
                break
        violations.append({"index": index, "case": case, "message": "the process died (status %d) on this case" % status,
                           "detail": {}})
    violations.sort(key=lambda v: v["index"])
    merged.counters.pop("_s", None)
    coverage = {
        "states": len(merged.states),
        "transitions": merged.transitions,
        "traces_validated_against_impl": merged.traces,
        "cases": done,
        "distinct_observed_outcomes": len(merged.outcomes),
        "exhaustive": not capped and not violations and not harness_error,
        "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
        "samples": merged.samples[:6] or ["(none)"],
        "counters": merged.counters,
        "known_findings": merged.findings,
    }
    if capped:
        coverage["capped"] = "stopped at the time limit or a violation after %d cases" % done
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - started, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d.tmp" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s %s: %d cases, %d states, %d transitions, %d traces, %d outcomes, %.1f s%s" % (
        prop, tier, done, len(merged.states), merged.transitions, merged.traces, len(merged.outcomes),
        time.time() - started, " (capped)" if capped else ""))
    for fid in sorted(merged.findings):
        print("KNOWN-FINDING: property=%s %s: %s [seen here as: %s]" % (prop, fid, known[fid], merged.findings[fid]))
    if violations:
        v = violations[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, v["index"]))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "case": v["case"], "message": v["message"], "detail": v["detail"],
                       "how": "/opt/venv/bin/python /verif/run.py %s --replay %s" % (prop, path)},
                      f, indent=1, default=str)
        print("  " + v["message"][:2000].replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if harness_error:
        print(harness_error)
        return 2
    return 0


def tuples(x):
    return tuple(tuples(i) for i in x) if isinstance(x, list) else x


def replay(mod, path):
    with open(path) as f:
        rec = json.load(f)
    ctx = Ctx(known_findings(mod.ID))
    if hasattr(mod, "setup"):
        mod.setup(rec.get("tier", "quick"))
    global CASE_LIMIT_S
    if rec.get("tier") == "thorough":
        CASE_LIMIT_S = 900
    try:
        _run_case(mod, tuples(rec["case"]), ctx)
    except Violation as v:
        print("  " + str(v))
        for k, d in v.detail.items():
            print("  %s: %s" % (k, d))
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        return 1
    print("the case passes")
    return 0
