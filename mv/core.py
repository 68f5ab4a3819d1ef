"""Monitor core: cases, traces, verdicts, evidence.

A *case* is one execution of real modepy code under a workload (group name +
JSON-able parameters).  While it runs, a :class:`Trace` records every
observation an oracle decided on.  The runner fans the cases out over worker
processes, merges the traces, and turns them into a three-valued verdict:

* violated: some oracle refuted an observation (or valid input made the code
  raise); exit status 1, with a replay file holding the exact case,
* held on everything observed: exit status 0,
* inconclusive: the deciding oracle was never reached; exit status 3.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"


class Timeout(BaseException):
    pass


class HarnessError(BaseException):
    """Something is wrong with the machinery itself, not with modepy."""


class Trace:
    """Observations made by the oracles during one case."""

    def __init__(self):
        self.nchecks = 0
        self.kinds = {}          # check name -> [count, worst err/tol, worst err]
        self.failures = []
        self.states = set()
        self.sample = None
        self.notes = {}

    # {{{ recording

    def _rec(self, name, ratio=0.0, err=0.0):
        self.nchecks += 1
        k = self.kinds.setdefault(name, [0, 0.0, 0.0])
        k[0] += 1
        k[1] = max(k[1], float(ratio))
        k[2] = max(k[2], float(err))

    def fail(self, name, detail):
        self._rec(name)
        if len(self.failures) < 20:
            self.failures.append((name, str(detail)[:600]))

    def true(self, name, cond, detail=""):
        self._rec(name)
        if not bool(cond):
            if callable(detail):
                detail = detail()
            if len(self.failures) < 20:
                self.failures.append((name, str(detail)[:600] or "false"))
            return False
        return True

    def close(self, name, got, ref, tol, detail=""):
        """max |got - ref| <= tol (tol scalar or broadcastable array);
        shapes must agree; NaN and Inf never agree with a finite reference."""
        import numpy as np
        g = np.asarray(got)
        r = np.asarray(ref)
        if g.dtype == object:
            try:
                g = g.astype(np.float64)
            except Exception:
                self.fail(name, f"result is not numeric: {g.dtype} {detail}")
                return False
        if g.shape != r.shape:
            self.fail(name, f"shape {g.shape}, expected {r.shape} {detail}")
            return False
        if g.size == 0:
            return True
        if g.dtype == bool:
            g = g.astype(int)
        if r.dtype == bool:
            r = r.astype(int)
        with np.errstate(all="ignore"):
            diff = np.abs(g - r)
            tolb = np.broadcast_to(np.asarray(tol), diff.shape)
            ok = diff <= tolb
            bad = ~ok
            ratio = np.max(np.where(np.isfinite(diff), diff/np.maximum(tolb, 1e-300),
                                    np.inf))
            err = float(np.max(np.where(np.isfinite(diff), diff, np.inf)))
        self._rec(name, min(float(ratio), 1e300), min(err, 1e300))
        if bad.any():
            i = np.unravel_index(int(np.argmax(bad)), bad.shape)
            if len(self.failures) < 20:
                self.failures.append((name,
                    f"at {tuple(int(j) for j in i)}: got {g[i]!r}, expected {r[i]!r}, "
                    f"tol {float(tolb[i]):.3g}; max err {err:.3g}; "
                    f"{int(bad.sum())}/{bad.size} entries off {detail}"))
            return False
        return True

    def le(self, name, got, bound, detail=""):
        import numpy as np
        g = float(np.max(np.asarray(got))) if np.size(got) else -np.inf
        ok = g <= bound     # False for NaN
        b = float(bound)
        self._rec(name, min(g/b, 1e300) if b > 0 and 0 <= g < np.inf else 0.0)
        if not ok:
            if len(self.failures) < 20:
                self.failures.append((name, f"{g!r} not <= {bound!r} {detail}"))
        return ok

    def raises(self, name, exc, fn, detail=""):
        """*fn* must raise one of *exc*."""
        try:
            res = fn()
        except exc as e:
            self._rec(name)
            return e
        except Exception as e:
            self.fail(name, f"raised {type(e).__name__}: {e}, expected {exc} {detail}")
            return None
        self.fail(name, f"returned {type(res).__name__} instead of raising {exc} {detail}")
        return None

    def state(self, *key):
        if len(self.states) < 400:
            self.states.add(repr(key))

    def note(self, **kw):
        for k, v in kw.items():
            self.notes[k] = self.notes.get(k, 0) + v

    def show(self, **kw):
        if self.sample is None:
            self.sample = {k: _jsonable(v) for k, v in kw.items()}

    # }}}


def _jsonable(v):
    try:
        json.dumps(v)
        return v
    except TypeError:
        try:
            return v.tolist()
        except AttributeError:
            return repr(v)


# {{{ running one case

def case_key(group, params):
    return group + " " + json.dumps(params, sort_keys=True)


def _own_frames_only(tb):
    """True if the exception was raised by harness code itself with no modepy
    (or numpy called on modepy results) frame below it being to blame."""
    frames = traceback.extract_tb(tb)
    return frames and not any("/repo/" in f.filename for f in frames)


def run_case(mod, group, params, limit):
    t = Trace()
    fn = mod.GROUPS[group]

    def on_alarm(signum, frame):
        raise Timeout

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(limit))
    t0 = time.monotonic()
    timed_out = False
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(t, **params)
    except Timeout:
        timed_out = True
    except HarnessError:
        raise
    except Exception as e:
        tb = traceback.format_exc()
        where = "harness-side consumer of the result" if _own_frames_only(
            e.__traceback__) else "modepy"
        t.fail("no-exception-on-valid-input",
               f"{type(e).__name__}: {e} (raised in {where})\n"
               + "\n".join(tb.strip().splitlines()[-6:]))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return {
        "key": case_key(group, params), "group": group, "params": params,
        "nchecks": t.nchecks, "kinds": t.kinds, "failures": t.failures,
        "states": t.states, "sample": t.sample, "notes": t.notes,
        "wall": time.monotonic() - t0, "timed_out": timed_out,
    }

# }}}


# {{{ reach: which modepy code the workload executed (sys.monitoring)

_reach = set()
_reach_lines = set()


def start_reach():
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    try:
        mon.use_tool_id(tool, "mv")
    except ValueError:
        return

    def on_start(code, offset):
        if code.co_filename.startswith(REPO + "/modepy/"):
            _reach.add((code.co_filename[len(REPO)+1:], code.co_qualname))
            if code.co_name != "<module>":
                # only now: instrumenting the modules of tables takes seconds
                mon.set_local_events(tool, code, mon.events.LINE)
        return mon.DISABLE

    def on_line(code, line):
        if code.co_filename.startswith(REPO + "/modepy/"):
            _reach_lines.add((code.co_filename[len(REPO)+1:], line))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.PY_START)


def take_reach():
    r, ll = set(_reach), set(_reach_lines)
    _reach.clear()
    _reach_lines.clear()
    return r, ll

# }}}


# {{{ workers

_mod = None
_limit = None


def _init_worker(modname, limit):
    global _mod, _limit
    _mod = importlib.import_module(modname)
    _limit = limit


def _work(chunk):
    out = []
    for group, params in chunk:
        out.append(run_case(_mod, group, params, _limit))
    r, ll = take_reach()
    return out, r, ll

# }}}


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e["property"] == pid]


def match_known(known, rec, failure):
    for e in known:
        if e["group"] == rec["group"] and e["params"] == rec["params"] \
                and e["check"] == failure[0]:
            return e
    return None


def setup_imports():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import modepy
    f = os.path.abspath(modepy.__file__)
    if not f.startswith(REPO + "/modepy/"):
        raise HarnessError(f"modepy imported from {f}, not from {REPO}")


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--group")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MV_JOBS", "8")))
    ap.add_argument("--verbose", "-v", action="store_true")
    args = ap.parse_args(argv)

    # --tier on the command line (thorough_cmd) wins over the environment
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = args.seed if args.seed is not None else int(
        os.environ.get("VERIF_SEED") or "1")

    try:
        return run(args.pid, tier, seed, args)
    except HarnessError as e:
        print(f"HARNESS ERROR: {e}")
        return 4


def run(pid, tier, seed, args):
    t_start = time.monotonic()
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("MPLBACKEND", "Agg")
    start_reach()
    setup_imports()

    import random
    modname = f"mv.props.{pid.lower()}"
    mod = importlib.import_module(modname)
    import_reach = take_reach()

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        cases = [(rep["group"], rep["params"])]
    else:
        rng = random.Random(f"{pid}-{tier}-{seed}")
        seen = set()
        cases = []
        for group, params in mod.cases(tier, rng):
            # normalise through JSON, so a replay runs exactly the same thing
            params = json.loads(json.dumps(params))
            k = case_key(group, params)
            if k not in seen:
                seen.add(k)
                cases.append((group, params))
        if args.group:
            cases = [c for c in cases if c[0] == args.group]

    if tier == "quick":
        limit, total = 120, 420
    else:
        limit, total = 600, 3000

    records = []
    reach_f, reach_l = set(), set()
    truncated = 0

    # the quick tier then spends a fixed time on a sample of the thorough tier's
    # cases, taken from its workload groups in turn
    extra = []
    jobs = 1 if len(cases) < 4 or args.jobs <= 1 else args.jobs
    if (tier == "quick" and not args.replay and not args.group and jobs > 1
            and getattr(mod, "SAMPLE_THOROUGH", True)):
        pools = {}
        rng = random.Random(f"{pid}-thorough-{seed}")
        for group, params in mod.cases("thorough", rng):
            params = json.loads(json.dumps(params))
            k = case_key(group, params)
            if k not in seen:
                seen.add(k)
                pools.setdefault(group, []).append((group, params))
        rng = random.Random(f"{pid}-sample-{seed}")
        for v in pools.values():
            rng.shuffle(v)
        while pools:
            for g in list(pools):
                extra.append(pools[g].pop())
                if not pools[g]:
                    del pools[g]
    extra_done = 0

    if jobs == 1:
        _init_worker(modname, limit)
        for c in cases:
            recs, r, ll = _work([c])
            records += recs
            reach_f |= r
            reach_l |= ll
    else:
        # heavy cases first would need costs; interleave instead
        nchunk = max(1, min(16, len(cases) // (jobs*6) or 1))
        k = -(-len(cases) // nchunk)
        chunks = [cases[i::k] for i in range(k)]
        ctx = mp.get_context("fork")
        with ctx.Pool(jobs, initializer=_init_worker,
                      initargs=(modname, limit)) as pool:
            it = pool.imap_unordered(_work, chunks)
            done = 0
            while done < len(chunks):
                left = total - (time.monotonic() - t_start)
                try:
                    recs, r, ll = it.next(timeout=max(1.0, left))
                except mp.TimeoutError:
                    truncated = len(chunks) - done
                    pool.terminate()
                    break
                done += 1
                records += recs
                reach_f |= r
                reach_l |= ll

            known = load_known(pid)
            if extra and not truncated and not any(
                    r["timed_out"]
                    or any(match_known(known, r, f) is None for f in r["failures"])
                    for r in records):
                t_stop = time.monotonic() + float(os.environ.get("MV_SAMPLE_S", "20"))
                # small groups of cases, so that little is lost at the end
                it = pool.imap_unordered(
                    _work, [extra[i:i+2] for i in range(0, len(extra), 2)])
                while True:
                    left = t_stop - time.monotonic()
                    try:
                        recs, r, ll = it.next(timeout=max(0.01, left))
                    except (StopIteration, mp.TimeoutError):
                        break
                    if any(rec["timed_out"] for rec in recs):
                        # slow, not stuck: the thorough tier waits for these
                        recs = [rec for rec in recs if not rec["timed_out"]]
                    records += recs
                    extra_done += len(recs)
                    reach_f |= r
                    reach_l |= ll
                    if left <= 0:
                        break
                pool.terminate()
    cases = cases + extra

    order = {case_key(g, p): i for i, (g, p) in enumerate(cases)}
    records.sort(key=lambda r: order[r["key"]])

    # cases that hit the watchdog: run once more, alone, before judging
    for i, rec in enumerate(records):
        if rec["timed_out"]:
            again = run_case(mod, rec["group"], rec["params"], limit)
            if again["timed_out"]:
                again["failures"] = again["failures"] + [(
                    "bounded-progress",
                    f"no result within {limit} s, twice (such cases take "
                    "seconds at most when the code terminates)")]
            records[i] = again
            if again["timed_out"]:
                break

    known = load_known(pid)
    violations = []
    findings = {}
    for rec in records:
        for failure in rec["failures"]:
            e = match_known(known, rec, failure)
            if e is not None:
                findings[e["id"]] = e
            else:
                violations.append((rec, failure))

    kinds = {}
    notes = {}
    states = set()
    groups = {}
    for rec in records:
        g = groups.setdefault(rec["group"], [0, 0, 0.0])
        g[0] += 1
        g[1] += rec["nchecks"]
        g[2] += rec["wall"]
        states |= rec["states"]
        for k, v in rec["notes"].items():
            notes[k] = notes.get(k, 0) + v
        for k, (n, ratio, err) in rec["kinds"].items():
            kk = kinds.setdefault(k, [0, 0.0, 0.0])
            kk[0] += n
            kk[1] = max(kk[1], ratio)
            kk[2] = max(kk[2], err)

    nchecks = sum(r["nchecks"] for r in records)
    nontrivial = sum(1 for r in records if r["nchecks"] > 0)
    wall = time.monotonic() - t_start

    import_f, import_l = import_reach
    samples = []
    per_group_sampled = {}
    for rec in records:
        n = per_group_sampled.get(rec["group"], 0)
        if rec["sample"] is not None and n < 2:
            per_group_sampled[rec["group"]] = n + 1
            samples.append({"case": rec["key"], **rec["sample"]})
    if not samples:
        samples = [{"case": r["key"], "oracle_checks": r["nchecks"]}
                   for r in records[:5]]

    by_file = {}
    for f, _l in reach_l:
        by_file[f] = by_file.get(f, 0) + 1

    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(records),
            "distinct_nontrivial": nontrivial,
            "rule": mod.RULE,
            "samples": samples[:24],
            "oracle_decisions": nchecks,
            "distinct_states_observed": len(states),
            "cases_by_workload": {g: v[0] for g, v in sorted(groups.items())},
            "decisions_by_workload": {g: v[1] for g, v in sorted(groups.items())},
            "decisions_by_monitor": {
                k: {"count": n, "worst_error_over_tolerance": ratio,
                    "worst_error": err}
                for k, (n, ratio, err) in sorted(kinds.items())},
            "events": notes,
            "modepy_functions_executed": len(reach_f),
            "modepy_lines_executed_by_file": dict(sorted(by_file.items())),
            "chunks_not_run_for_lack_of_time": truncated,
            "cases_sampled_from_the_thorough_tier": extra_done,
            "known_findings_seen": sorted(findings),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 3),
        "violations": len(violations),
    }
    if not args.replay and not args.group:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=repr)
            f.write("\n")

    if args.verbose:
        for k, (n, ratio, err) in sorted(kinds.items()):
            print(f"   {k:52s} n={n:8d} worst err/tol={ratio:9.3g} err={err:9.3g}")
        for g, v in sorted(groups.items()):
            print(f"   [{g}] cases={v[0]} decisions={v[1]} cpu={v[2]:.1f}s")
        slow = sorted(records, key=lambda r: -r["wall"])[:4]
        for r in slow:
            print(f"   slow: {r['wall']:.1f}s {r['key']}")
        print("   notes", notes, "reach", len(reach_f), by_file)

    for e in findings.values():
        print(f"KNOWN-FINDING: property={pid} {e['what']}")

    print(f"{pid} {tier} seed={seed}: {len(records)} cases, {nontrivial} non-trivial, "
          f"{nchecks} oracle decisions, {len(states)} distinct states, "
          f"{len(reach_f)} modepy functions executed, {len(violations)} violations, "
          f"{wall:.1f} s")

    if violations:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for rec, failure in violations:
            if rec["key"] in shown:
                continue
            shown.add(rec["key"])
            if len(shown) > 12:
                break
            h = hashlib.sha1(rec["key"].encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{pid}-{h}.json")
            with open(path, "w") as f:
                json.dump({
                    "property": pid, "group": rec["group"], "params": rec["params"],
                    "tier": tier, "seed": seed,
                    "failures": rec["failures"],
                    "replay_cmd": f"/verif/check {pid} --replay {path}",
                }, f, indent=1)
            print(f"  {rec['key']}: [{failure[0]}] {failure[1]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1

    if nchecks == 0 or nontrivial == 0:
        print(f"INCONCLUSIVE property={pid}: no oracle decision was made")
        return 3
    need = getattr(mod, "REQUIRED", ())
    missing = [k for k in need if k not in kinds]
    if missing and not args.replay and not args.group:
        print(f"INCONCLUSIVE property={pid}: monitors never reached: {missing}")
        return 3
    return 0
