"""Engine: runs the laws of one property over generated cases, shrinks, writes replays and evidence.

A *law* is a Hypothesis strategy producing a plain-data (JSON) case, and a function ``check(case)`` that drives the real
code on it and compares what is observed with an explicit oracle, raising ``Violation`` on disagreement. As a case is
plain data, a failing one is replayed without Hypothesis.
"""
import errno
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

from .boot import VERIF, REPO


class Violation(Exception):
    """The property does not hold on the case."""


class HarnessError(Exception):
    """The machinery could not decide."""


class CaseTimeout(BaseException):
    pass


class Law:
    def __init__(self, name, strategy, check, quick=400, thorough=None, examples=(), rule=""):
        self.name = name
        self.strategy = strategy  # callable(tier) -> SearchStrategy
        self.check = check  # callable(case) -> iterable of labels; the label "nt" marks a non-trivial case
        self.quick = quick  # number of cases over all shards
        self.thorough = thorough if thorough is not None else quick * 15
        self.examples = list(examples)
        self.rule = rule


SCRATCH = {"dir": None}
_OWN = {}
CASE_SECONDS = 120


def scratch() -> str:
    return SCRATCH["dir"]


def reset_globals():
    """Every switch of the library is global state: each case starts from the defaults."""
    from pathlib import Path
    import ruleskit
    from ruleskit import Activation, Rule, RegressionRule, ClassificationRule, RuleSet, HyperrectangleCondition

    Activation.DTYPE = str
    Activation.FORCE_STAT = False
    Activation.WILL_COMPARE = False
    Activation.STORE_RAW = False
    Activation.NCPUS = 1
    Activation.DEFAULT_TEMPDIR = Path(SCRATCH["dir"]) / "act"
    for attr, value in (("LOCAL_ACTIVATION", True), ("THRESHOLDS", None), ("COMPUTE_SUBATTRIBUTES", False)):
        for cls in (Rule, RegressionRule, ClassificationRule):
            # A switch that a class inherits must go on being inherited
            if _OWN.setdefault((cls, attr), attr in cls.__dict__):
                setattr(cls, attr, value)
            elif attr in cls.__dict__:
                delattr(cls, attr)
    RuleSet.STACKED_FIT = False
    RuleSet.CHECK_DUPLICATED = False
    RuleSet.all_features_indexes = {}
    RuleSet.NLINES = 5
    HyperrectangleCondition.SORT_ACCORDING_TO = "index"


def _clean_case_dir():
    d = SCRATCH["dir"]
    for name in ("act", "files"):
        p = os.path.join(d, name)
        if os.path.isdir(p) and not os.listdir(p):
            continue
        shutil.rmtree(p, ignore_errors=True)
        os.makedirs(p, exist_ok=True)


def _alarm(*_):
    raise CaseTimeout()


def run_case(law, case):
    """Runs one case. Returns its labels; raises Violation or HarnessError."""
    import numpy as np

    _clean_case_dir()
    reset_globals()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                labels = law.check(case)
        return list(labels or [])
    except Violation:
        raise
    except CaseTimeout:
        raise Violation(f"the code did not answer within {CASE_SECONDS} s")
    except (HarnessError, MemoryError):
        raise
    except OSError as e:
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.EDQUOT, errno.EROFS):
            raise HarnessError(f"environment: {e}")
        raise Violation("unexpected exception\n" + traceback.format_exc())
    except Exception:
        # The oracle and the domain are made so that nothing is raised on code where the property holds
        raise Violation("unexpected exception\n" + traceback.format_exc())
    finally:
        signal.alarm(0)
        reset_globals()


def case_key(case) -> str:
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_hash(law_name, case) -> bytes:
    return hashlib.blake2b((law_name + "|" + case_key(case)).encode(), digest_size=8).digest()


def load_property(pid):
    mod = importlib.import_module(f"vf.props.{pid.lower()}")
    return mod


def _worker(pid, shard, nshards, tier, seed, scale, budget, conn):
    """Runs its share of every law. Sends a dict through conn."""
    out = {
        "shard": shard, "evaluations": 0, "nontrivial": set(), "labels": Counter(), "samples": {}, "violation": None,
        "error": None, "per_law": {}, "truncated": [],
    }
    root = tempfile.mkdtemp(prefix=f"vf_{pid}_{shard}_")
    SCRATCH["dir"] = root
    os.environ["TMPDIR"] = root
    tempfile.tempdir = root
    try:
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase, Verbosity, seed as hseed

        mod = load_property(pid)
        start = time.time()
        laws = mod.LAWS
        total = sum(l.quick if tier == "quick" else l.thorough for l in laws) or 1
        for ilaw, law in enumerate(laws):
            n = law.quick if tier == "quick" else law.thorough
            share = max(1, int(round(n * scale / nshards)))
            law_budget = budget * max(0.04, n / total) * 1.5
            law_start = time.time()
            stat = {"cases": 0, "nontrivial": 0}
            out["per_law"][law.name] = stat
            fail = {"case": None, "msg": None, "first": None, "size": None}

            def execute(case):
                out["evaluations"] += 1
                stat["cases"] += 1
                h = case_hash(law.name, case)
                labels = run_case(law, case)
                for l in labels:
                    out["labels"][f"{law.name}:{l}"] += 1
                if "nt" in labels:
                    stat["nontrivial"] += 1
                    if h not in out["nontrivial"]:
                        out["nontrivial"].add(h)
                        s = out["samples"].setdefault(law.name, [])
                        if len(s) < 3:
                            s.append(case)

            def record(case, e):
                size = len(case_key(case))
                if fail["case"] is None:
                    fail["first"] = time.time()
                if fail["case"] is None or size <= fail["size"]:
                    fail.update(case=case, msg=str(e), size=size)

            if shard == ilaw % nshards:
                for case in law.examples:
                    try:
                        execute(case)
                    except Violation as e:
                        record(case, e)
                        break
            if fail["case"] is None and time.time() - start < budget * 1.2:
                stop = {"now": False}

                @hseed(int.from_bytes(
                    hashlib.blake2b(f"{seed}|{pid}|{law.name}|{shard}".encode(), digest_size=6).digest(), "big"))
                @settings(
                    max_examples=share, database=None, deadline=None, derandomize=False, print_blob=False,
                    report_multiple_bugs=False, verbosity=Verbosity.quiet,
                    suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate] + ([] if os.environ.get("VF_NO_SHRINK") else [Phase.shrink]),
                )
                @given(law.strategy(tier))
                def test(case):
                    if stop["now"]:
                        return
                    if fail["first"] is not None and time.time() - fail["first"] > 45:
                        return  # enough shrinking: keep the best case so far
                    if fail["first"] is None and time.time() - law_start > law_budget:
                        stop["now"] = True
                        out["truncated"].append(law.name)
                        return
                    try:
                        execute(case)
                    except Violation as e:
                        record(case, e)
                        raise

                try:
                    test()
                except (HarnessError, MemoryError):
                    raise
                except BaseException as e:
                    if isinstance(e, KeyboardInterrupt):
                        raise
                    if fail["case"] is None:
                        raise
            if fail["case"] is not None:
                out["violation"] = {"law": law.name, "case": fail["case"], "msg": fail["msg"]}
                break
    except BaseException:
        out["error"] = traceback.format_exc()
    finally:
        shutil.rmtree(root, ignore_errors=True)
    try:
        conn.send(out)
    finally:
        conn.close()


def write_replay(pid, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(case_key(v["case"]).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, f"{pid}-{v['law']}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "law": v["law"], "case": v["case"], "message": v["msg"]}, f, indent=1)
    return path


def known_findings(pid):
    """Open findings of a property: [{"property","law","case","what"}]. Matched on the exact case."""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.isfile(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("open", []) if k["property"] == pid]


def replay(path):
    SCRATCH["dir"] = tempfile.mkdtemp(prefix="vf_replay_")
    try:
        with open(path) as f:
            data = json.load(f)
        mod = load_property(data["property"])
        law = [l for l in mod.LAWS if l.name == data["law"]][0]
        try:
            run_case(law, data["case"])
        except Violation as e:
            print(str(e))
            print(f"VIOLATION property={data['property']} replay={os.path.abspath(path)}")
            return 1
        print("replay: property holds on this case")
        return 0
    finally:
        shutil.rmtree(SCRATCH["dir"], ignore_errors=True)


def check_property(pid, tier, seed, jobs=8, scale=1.0, budget=None):
    t0 = time.time()
    if budget is None:
        budget = 150.0 if tier == "quick" else 840.0
    # import the code under test once, before forking
    import numpy, pandas  # noqa
    import ruleskit  # noqa

    if not os.path.abspath(ruleskit.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print(f"ERROR ruleskit imported from {ruleskit.__file__}, not from {REPO}")
        return 2
    mod = load_property(pid)
    ctx = mp.get_context("fork")
    procs = []
    for s in range(jobs):
        r, w = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(pid, s, jobs, tier, seed, scale, budget, w))
        p.start()
        w.close()
        procs.append((p, r))
    results, errors = [], []
    for p, r in procs:
        try:
            results.append(r.recv())
        except EOFError:
            errors.append(f"worker died (exit code {p.exitcode})")
        p.join()
    errors += [r["error"] for r in results if r["error"]]
    viols = [dict(r["violation"], shard=r["shard"]) for r in results if r["violation"]]

    nontrivial = set()
    labels, per_law, samples = Counter(), {}, {}
    evaluations = 0
    truncated = set()
    for r in results:
        nontrivial |= r["nontrivial"]
        labels.update(r["labels"])
        evaluations += r["evaluations"]
        truncated |= set(r["truncated"])
        for k, v in r["per_law"].items():
            d = per_law.setdefault(k, {"cases": 0, "nontrivial": 0})
            d["cases"] += v["cases"]
            d["nontrivial"] += v["nontrivial"]
        for k, v in r["samples"].items():
            samples.setdefault(k, []).extend(v[: max(0, 3 - len(samples.get(k, [])))])

    known = known_findings(pid)
    new = []
    for v in viols:
        if not any(k["law"] == v["law"] and case_key(k["case"]) == case_key(v["case"]) for k in known):
            new.append(v)
    # Open findings are exercised on their own, so that they are reported only as long as they are real
    SCRATCH["dir"] = tempfile.mkdtemp(prefix=f"vf_{pid}_k_")
    try:
        for k in known:
            law = [l for l in mod.LAWS if l.name == k["law"]][0]
            try:
                run_case(law, k["case"])
            except Violation:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
    finally:
        shutil.rmtree(SCRATCH["dir"], ignore_errors=True)

    rules = "; ".join(f"{l.name}: {l.rule}" for l in mod.LAWS if l.rule)
    flat = []
    for k in per_law:
        flat += [{"law": k, "case": c} for c in samples.get(k, [])[:2]]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(nontrivial),
            "rule": "cases drawn by Hypothesis strategies, non-trivial when: " + rules,
            "samples": _shorten(flat),
            "per_law": per_law,
            "labels": {k: v for k, v in sorted(labels.items()) if not k.endswith(":nt")},
            "laws_cut_by_time_budget": sorted(truncated),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} tier={tier} seed={seed} cases={evaluations} distinct_nontrivial={len(nontrivial)} "
          f"wall={ev['wall_s']}s " + " ".join(f"{k}={v['cases']}/{v['nontrivial']}" for k, v in per_law.items())
          + (f" CUT={sorted(truncated)}" if truncated else ""))
    if new:
        new.sort(key=lambda v: len(case_key(v["case"])))
        seen = set()
        for v in new:
            if v["law"] in seen:
                continue
            seen.add(v["law"])
            path = write_replay(pid, v)
            print(f"-- law {v['law']}: {v['msg'][:1500]}\n   case: {case_key(v['case'])[:2000]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print("ERROR: the check could not decide")
        for e in errors:
            print(e)
        return 2
    return 0


def _shorten(samples, limit=1500):
    out = []
    for s in samples:
        t = json.dumps(s)
        out.append(s if len(t) <= limit else {"law": s["law"], "case_json_truncated": t[:limit]})
    return out
