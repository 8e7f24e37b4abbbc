#!/usr/bin/env python3
"""Decide one property on the current tree of /repo.

PROVE  the contracts are discharged by the verifiers: Kani on the compiled functions (loop-free,
       symbolic inputs over the whole domain) and Verus on the functions extracted from the source.
SEARCH the same contracts are evaluated natively on the compiled functions, for concrete inputs: it
       replays what a verifier finds, finds inputs where a verifier gives none, and stands in, with
       its stated bound, where a proof is out of the verifier's reach on the tree at hand.
"""

import json
import os
import re
import resource
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import kani  # noqa: E402
import proc  # noqa: E402
import state  # noqa: E402
import verus  # noqa: E402
import words  # noqa: E402

WORK = os.path.join(ROOT, "work")
EVIDENCE = os.path.join(ROOT, "evidence")
DEFAULT_FEATURES = {"C08", "C10", "C11", "C12", "C13", "C14"}


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


class Native:
    """The search binary, built from /repo's working tree."""

    def __init__(self, prop):
        self.prop = prop
        self.full = prop not in DEFAULT_FEATURES
        self.target = os.path.join(WORK, "native-full" if self.full else "native")
        self.bin = os.path.join(self.target, "debug", "search")
        self.error = None

    def build(self):
        cmd = ["cargo", "build", "--offline", "--target-dir", self.target]
        if self.full:
            cmd += ["--features", "full"]
        r = sh(cmd, cwd=os.path.join(ROOT, "rust"), env=env())
        if r.returncode != 0:
            self.error = r.stderr[-6000:]
        return r.returncode == 0

    def _json(self, args, timeout, stop_at=None, more=None):
        e = dict(os.environ, **words.environment(), QV_STATE=str(int(bool(state.scan(self.prop)))))
        e.update(more or {})
        if stop_at:
            e["QV_STOP_AT"] = stop_at
        try:
            r = sh([self.bin] + args, timeout=timeout, env=e, preexec_fn=limit_memory)
        except subprocess.TimeoutExpired:
            return None, "timed out"
        if r.returncode == 97 and not stop_at:
            # an evaluation that does not return: ask for its input
            m = re.search(r"QV_CRASH_AT (\d+ .*)", r.stderr)
            return self._json(args, timeout, m.group(1)) if m else (None, "exit 97")
        if r.returncode != 0:
            return None, f"exit {r.returncode}: {r.stderr[-500:]}"
        return json.loads(r.stdout.strip().split("\n")[-1]), ""

    def search(self, prop, tier, seed, timeout=240):
        return self._json(["run", prop, tier, str(seed)], timeout)

    def replay(self, prop, text):
        return self._json(["replay", prop, text], 120)

    def again(self, prop, h):
        """Run the history that ends with a failure again."""
        return self._json(["run", prop, h["tier"], str(h["seed"])], 600, more=dict(h["env"], QV_UNTIL=str(h["evaluation"])))

    def confirm(self, prop, fail, tier, seed):
        """A failure that the input alone does not show is one of the history that led to it."""
        r, _ = self.replay(prop, fail["input"])
        if r is None or r["fails"]:
            return fail
        h = {"tier": tier, "seed": seed, "evaluation": fail["at"], "env": dict(words.environment(), QV_STATE=str(int(bool(state.scan(prop)))))}
        return dict(fail, history=h, message=fail["message"] + f" (after the {fail['at'] - 1} evaluations before it in the {tier} search with seed {seed}; not on its own)")

    def deep(self, prop, seed, timeout):
        """The thorough search from eight seeds at once: (evaluations, distinct, failures)."""
        with ThreadPoolExecutor(8) as ex:
            out = list(ex.map(lambda k: self.search(prop, "thorough", seed + k, timeout)[0], range(8)))
        for k, r in enumerate(out):
            for f in r["fails"] if r else []:
                f["seed"] = seed + k
        out = [r for r in out if r]
        return dict(
            evaluations=sum(r["evaluations"] for r in out),
            distinct_nontrivial=sum(r["distinct_nontrivial"] for r in out),
            fails=[f for r in out for f in r["fails"]],
        )


def known_findings():
    """{(property, key): text} of the listed, unrepaired findings."""
    out = {}
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(C\d+) key=(\S+) (.*)", line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def violation(prop, record, suffix=""):
    d = os.path.join(EVIDENCE, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}.json")
    record = dict(record, property=prop)
    with open(path, "w") as f:
        json.dump(record, f, indent=1)
    print(f"VIOLATION property={prop} replay={path}{suffix}")
    return path


def replay_file(path):
    rec = json.load(open(path))
    prop = rec["property"]
    if not rec.get("input"):
        print(rec.get("obligation", ""))
        print(rec.get("verifier_output", ""))
        print("no failing input was found for this obligation; run the check again to redo the proof")
        return 0
    n = Native(prop)
    if not n.build():
        print(n.error)
        return 2
    r, err = n.again(prop, rec["history"]) if rec.get("history") else n.replay(prop, rec["input"])
    if r is None:
        print(err)
        return 2
    for f in r["fails"]:
        print(f"input: {f['input']}\n{f['message']}")
    for f in r["known"]:
        print(f"known finding {f['key']}: {f['input']}\n{f['message']}")
    if not r["fails"]:
        print("the contract holds on this input")
    return 1 if r["fails"] else 0


def main():
    if sys.argv[1] == "--replay":
        sys.exit(replay_file(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    native = Native(prop)
    known = known_findings()
    found = {}

    def searcher():
        if native.build():
            found["quick"] = res, _ = native.search(prop, tier, seed)
            if res and (res["fails"] or any((prop, k["key"]) not in known for k in res["known"])):
                proc.found()

    th = threading.Thread(target=searcher)
    th.start()
    proofs = []
    if prop in kani.PLAN:
        proofs.append(kani.prove(prop, tier, ROOT, WORK, env()))
    if prop in verus.PLAN:
        proofs.append(verus.prove(prop, tier, ROOT, WORK))
    th.join()
    if native.error:
        print(native.error)
        print(f"{prop}: /repo does not build with the harness crate")
        return 2
    res, err = found["quick"]
    if res is None:
        print(f"{prop}: the native search gave no answer: {err}")
        return 2

    fails = list(res["fails"])
    for k in res["known"]:
        if (prop, k["key"]) in known:
            print(f"KNOWN-FINDING: property={prop} {k['key']}: {known[(prop, k['key'])]} (for example {k['message']})")
        else:
            fails.append({"input": k["input"], "message": k["message"]})

    # counterexamples of the verifiers, replayed on the compiled code
    failed = [o for p in proofs for o in p["failed"]]
    undecided = [o for p in proofs for o in p["undecided"]]
    n_assumed, bad_assumed, why_assumed = res["assumed"]
    kept = state.scan(prop)
    if kept:
        undecided.append({"name": "state", "why": "the contracts speak of arguments only, and the code keeps state: " + ", ".join(kept[:4]), "output": ""})
    if bad_assumed:
        undecided.append({"name": "contracts of dependencies", "why": f"{bad_assumed} of {n_assumed} evaluations fail: {why_assumed}", "output": ""})
    for o in failed:
        for text in o.get("inputs", []):
            r, _ = native.replay(prop, text)
            if r and r["fails"]:
                o["replayed"] = True
                fails.insert(0, dict(r["fails"][0], obligation=o["name"], verifier_output=o["output"][-4000:]))
    deep = None
    definite = [o for o in failed if o.get("definite")]
    if not fails and (failed or undecided):
        # the proof is gone: look harder for an input
        left = (780 if tier == "quick" else 3000) - (time.time() - t0)
        deep = native.deep(prop, seed + 1, max(30, min(left, 240)))
        fails += deep["fails"]

    obligations = sum(p["obligations"] for p in proofs)
    discharged = sum(p["discharged"] for p in proofs)
    proved = bool(proofs) and not failed and not undecided and obligations > 0 and obligations == discharged
    n_eval = res["evaluations"] + (deep["evaluations"] if deep else 0)
    n_distinct = res["distinct_nontrivial"] + (deep["distinct_nontrivial"] if deep else 0)
    coverage = {
        "evaluations": n_eval,
        "distinct_nontrivial": n_distinct,
        "rule": "native evaluation of the contract on the compiled functions: " + RULES[prop],
        "samples": res["samples"][:4],
        "search_undecided": res["undecided"],
        "dependency_contracts_evaluated": n_assumed,
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "; ".join(p["cmd"] for p in proofs),
        "trusted_base": [t for p in proofs for t in p["trusted"]],
        "functions_under_contract": [f for p in proofs for f in p["functions"]],
        "back_ends": [{"back_end": p["tool"], "obligations": p["obligations"], "discharged": p["discharged"], "solver_s": round(p["solver_s"], 2)} for p in proofs],
        "units": [u for p in proofs for u in p["units"]],
        "bounded": [o["name"] + ": " + o["why"] for o in failed + undecided] + [b for p in proofs for b in p.get("bounded", [])],
        "state_scan": kept or "no mutable statics, interior mutability, unsafe code, clock or environment in the sources",
        "known_findings": [k["key"] for k in res["known"]],
    }
    assumptions = sorted({t for p in proofs for t in p["trusted"]})
    rc = 0
    if fails:
        f = fails[0]
        if "at" in f and not f.get("obligation"):
            f = native.confirm(prop, f, "thorough" if "seed" in f else tier, f.get("seed", seed))
        violation(prop, f)
        print(f"  input: {f['input']}\n  {f['message']}")
        print(f"  replay: ./check.sh --replay {os.path.join(EVIDENCE, 'replay', prop + '.json')}")
        rc = 1
    elif definite:
        o = definite[0]
        violation(prop, {"obligation": o["name"], "why": o["why"], "verifier_output": o["output"][-8000:]}, " no-failing-input-found")
        print(f"  failed obligation: {o['name']}: {o['why']}")
        rc = 1
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "proof" if proved else "exploration",
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails) if fails else (1 if rc else 0),
    }
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        if proved:
            print(f"{prop}: holds; {discharged} of {obligations} obligations discharged, {n_eval} native evaluations, {ev['wall_s']} s")
        else:
            print(f"{prop}: no violation found; NOT PROVED on this tree, the bounded native search of {n_eval} evaluations stands in:")
            for o in failed + undecided:
                print(f"  undecided: {o['name']}: {o['why']}")
    return rc


RULES = {
    "C01": "every month 0..13 and day 0..32 of the years 1890-2210, of the ends of the range and of random years; random pairs for the order; non-trivial: a valid date",
    "C02": "random dates biased to the ends of the range, random and boundary day counts; non-trivial: a count above 0, two different dates",
    "C03": "random dates biased to month ends and the ends of the range, random and boundary month and year counts; non-trivial: a count other than 0",
    "C04": "every day of 1901-2199, the first and the last 900 supported days, random days",
    "C05": "random dates and periods, calendars closed by hash and by a closed interval around the shifted date; non-trivial: an adjusting convention",
    "C06": "random pairs of dates, near and far, in an exact prime field and in f64; non-trivial: different dates",
    "C07": "random pairs of dates, near and far, in an exact prime field and in f64; non-trivial: different dates",
    "C08": "every year of 1901-2199, both churches",
    "C09": "every day of 1901-2199 for every calendar and market; random joint calendars",
    "C10": "random intervals in 1901-2199, all inclusion options, all calendars and hashed ones; non-trivial: different ends",
    "C11": "every day of 1901-2199 for one calendar, a day of every month for all others, hashed calendars",
    "C12": "every day of 1901-2199 for every European calendar and market; non-trivial: a weekday",
    "C13": "every day of 1901-2199 for each of these calendars and markets; non-trivial: a weekday",
    "C14": "every day of 1901-2199 for each of these calendars; non-trivial: a weekday",
    "C15": "random knots (0 to 7), queries at, near and between knots, special floating-point values",
    "C16": "random knots, every knot queried, exact prime field and f64",
    "C17": "random knots and queries, exact prime field and f64; non-trivial: between knots",
    "C18": "random knots, slopes and queries, exact prime field and f64; non-trivial: between knots",
    "C19": "random knots; derivatives of the segment cubics in an exact prime field and f64",
    "C20": "random knots and queries, exact prime field and f64; non-trivial: between knots",
    "C21": "random knots, increasing and disturbed in one place; non-trivial: more than two points",
    "C22": "random dates, maturities and yields, four day counts (one of a user, coarse and with errors), a recording interpolator; non-trivial: at least one maturity",
    "C23": "random settlement and dates, four day counts (one of a user, coarse and with errors), affine yield curves from a minimal to a maximal time; non-trivial: settlement <= d1 < d2",
    "C24": "random bonds; settlement around each due date at a flat 50%; the ends of the range; non-trivial: first coupon not after the penultimate",
    "C25": "random bonds; undiscounted sums after each due date, exact prime field and f64; non-trivial: first coupon not after the penultimate",
    "C26": "random bonds, curves and settlement dates, day counts and yields as in C23; non-trivial: first coupon not after the penultimate",
}

if __name__ == "__main__":
    sys.exit(main())
