"""PROVE, first half: Kani harnesses (rust/src/proofs) on the compiled functions of /repo."""

import os
import re
import time

import proc

TRUST = [
    "Kani 0.68.0, CBMC 6.11.0 and its SAT solver (translation of the compiled code and the answers)",
    "termination is not proved by Kani (the harnesses unwind completely, with unwinding assertions)",
]
STUBS = (
    "for Kani, chrono's day arithmetic (adding and subtracting days, neighbours, differences, num_days_from_ce) is its "
    "contract in terms of the serial number (rust/src/proofs/chrono_model.rs), which Verus discharges on the source of "
    "the vendored crate (contracts/chrono_src.rs)"
)
TEXT = "the text of error messages is replaced by the empty string"

# property -> harness filters, features, trusted extras, functions
PLAN = {
    "C01": dict(h=["proofs::time::C01::"], full=True, n=4, trust=[STUBS], f=["Date::from_ymd", "Date::year/month/day", "Date::leap_year", "Date::serial_date", "Date::succ_opt", "Date::pred_opt", "Ord/PartialOrd/PartialEq for Date", "From<NaiveDate> for Date"]),
    "C02": dict(h=["proofs::time::C02::"], full=True, n=3, trust=[STUBS], f=["Date::checked_add_days", "Date::checked_sub_days", "Period for Days", "Sub for Date"]),
    "C03": dict(h=["proofs::time::C03::"], full=True, n=4, trust=[], f=["Date::checked_add_months", "Date::checked_sub_months", "Date::checked_add_years", "Period for Months", "Period for Years"]),
    "C04": dict(h=["proofs::time::C04::"], full=True, n=1, trust=[STUBS], f=["Date::weekend_roll"]),
    "C06": dict(h=["proofs::time::C06::"], full=True, n=2, trust=[STUBS], f=["Act360::calculate_day_count_fraction", "Act365::calculate_day_count_fraction"]),
    "C07": dict(h=["proofs::time::C07::"], full=True, n=1, trust=[TEXT], f=["Thirty360::date_diff", "Thirty360::calculate_day_count_fraction"]),
    "C08": dict(h=["proofs::calendars::C08::"], full=False, n=2, trust=[], f=["Calendar::easter_monday", "Calendar::orthodox_easter_monday"]),
    "C09": dict(h=["proofs::calendars::C09::", "proofs::time::C09::"], full=True, n=73, trust=[], f=["is_business_day, is_holiday, is_weekend of every calendar and market", "JointCalendar", "blanket Calendar for qlab_time"]),
    "C11": dict(h=["proofs::calendars::C11::"], full=False, n=1, trust=[], f=["Calendar::last_day_of_month"]),
    "C12": dict(h=["C12::rule"], full=False, n=35, trust=[], f=["is_business_day of every European calendar and market"]),
    "C13": dict(h=["C13::rule"], full=False, n=24, trust=[], f=["is_business_day of every calendar and market of the Americas, Africa, Oceania and Japan"]),
    "C14": dict(h=["C14::rule"], full=False, n=10, trust=[], f=["is_business_day of every calendar with tables"]),
}

I32, U32, U64, U8, BOOL = "i32", "u32", "u64", "u8", "bool"
YMD = [I32, U32, U32]


def ymd(v, i=0):
    return f"{v[i]}:{v[i + 1]}:{v[i + 2]}"


# harness -> (types of its first symbolic values in order, their encoding as a replay input)
DECODE = {
    "time::C01::construct": (YMD, lambda v: f"ymd={ymd(v)}"),
    "time::C01::neighbours": (YMD, lambda v: f"ymd={ymd(v)}"),
    "time::C01::serial_contract": (YMD, lambda v: f"ymd={ymd(v)}"),
    "time::C01::order": (YMD * 2, lambda v: f"a={ymd(v)} b={ymd(v, 3)}"),
    "time::C02::add": (YMD + [U64], lambda v: f"date={ymd(v)} days={v[3]}"),
    "time::C02::sub": (YMD + [U64], lambda v: f"date={ymd(v)} days={v[3]}"),
    "time::C02::difference": (YMD * 2, lambda v: f"a={ymd(v)} b={ymd(v, 3)}"),
    "time::C03::add_months": (YMD + [U32], lambda v: f"date={ymd(v)} months={v[3]}"),
    "time::C03::sub_months": (YMD + [U32], lambda v: f"date={ymd(v)} months={v[3]}"),
    "time::C03::months_period": (YMD + [U32], lambda v: f"date={ymd(v)} months={v[3]}"),
    "time::C03::add_years": (YMD + [I32], lambda v: f"date={ymd(v)} years={v[3]}"),
    "time::C04::weekend_roll": (YMD, lambda v: f"date={ymd(v)}"),
    "time::C06::act_360": (YMD * 2, lambda v: f"basis=360 a={ymd(v)} b={ymd(v, 3)}"),
    "time::C06::act_365": (YMD * 2, lambda v: f"basis=365 a={ymd(v)} b={ymd(v, 3)}"),
    "time::C07::thirty_360": (YMD * 2, lambda v: f"a={ymd(v)} b={ymd(v, 3)}"),
    "calendars::C08::western": ([I32], lambda v: f"year={v[0]} orthodox=0"),
    "calendars::C08::orthodox": ([I32], lambda v: f"year={v[0]} orthodox=1"),
    "calendars::C11::last_day": (YMD, lambda v: f"cal=weekends_only date={ymd(v)}"),
}


def decoder(name):
    short = name.replace("proofs::", "", 1)
    if short in DECODE:
        return DECODE[short]
    m = re.match(r"calendars::(\w+)::C1\d::rule$", short)
    if m:
        return YMD, lambda v: f"cal={m.group(1)} date={ymd(v)}"
    m = re.match(r"calendars::C09::(\w+)$", short)
    if m and m.group(1) != "joint":
        return YMD, lambda v: f"cal={m.group(1)} date={ymd(v)}"
    return None


def decode(types, blobs):
    size = {I32: 4, U32: 4, U64: 8, U8: 1, BOOL: 1}
    out = []
    for t, b in zip(types, blobs):
        if len(b) != size[t]:
            return None
        out.append(int.from_bytes(bytes(b), "little", signed=(t == I32)))
    return out if len(out) == len(types) else None


def base_cmd(work, plan):
    cmd = ["cargo", "kani"]
    cmd += ["--target-dir", os.path.join(work, "kani-full" if plan["full"] else "kani"), "--lib", "-Z", "stubbing", "-Z", "unstable-options", "--output-format", "terse"]
    if plan["full"]:
        cmd += ["--features", "full"]
    return cmd


def run(cmd, cwd, e, timeout):
    """Its output, also when it is ended, with all its children, at the time limit."""
    out, _, why = proc.run(cmd, timeout, cwd, e, merged=True)
    return out + (f"\nkani {why}" if why else "")


def counterexamples(root, work, plan, e, name):
    d = decoder(name)
    if d is None:
        return []
    cmd = base_cmd(work, plan) + ["-Z", "concrete-playback", "--concrete-playback=print", "--harness-timeout", "120s", "--exact", "--harness", name]
    out = run(cmd, os.path.join(root, "rust"), e, 150)
    inputs = []
    for block in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        blobs = [[int(x) for x in b.split(",") if x.strip()] for b in re.findall(r"vec!\[([\d, ]*)\]", block)]
        v = decode(d[0], blobs)
        if v is not None:
            inputs.append(d[1](v))
    return inputs


def prove(prop, tier, root, work, e):
    plan = PLAN[prop]
    t0 = time.time()
    limit = 600 if tier == "thorough" else 240
    cmd = base_cmd(work, plan) + ["-j", "8", "--harness-timeout", f"{limit}s"]
    for h in plan["h"]:
        cmd += ["--harness", h]
    out = run(cmd, os.path.join(root, "rust"), e, 450 if tier == "quick" else limit + 300)
    with open(os.path.join(work, f"kani-{prop}.log"), "w") as f:
        f.write(out)
    units, failed, undecided = [], [], []
    obligations = discharged = 0
    solver = 0.0
    # results carry the thread that announced the harness
    current = {}
    chunks = re.split(r"(?m)^Thread (\d+): ", out)
    for t, body in zip(chunks[1::2], chunks[2::2]):
        m = re.match(r"Checking harness (\S+)\.\.\.", body)
        if m:
            current[t] = m.group(1)
            continue
        if "VERIFICATION" not in body:
            continue
        name = current.get(t, "?")
        m = re.search(r"\*\* (\d+) of (\d+) failed", body)
        n_fail, n = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", body)
        covers = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r"Verification Time: ([\d.]+)s", body)
        secs = float(m.group(1)) if m else 0.0
        solver += secs
        ok = "VERIFICATION:- SUCCESSFUL" in body
        units.append({"unit": name, "checks": n, "failed": n_fail, "covers": f"{covers[0]}/{covers[1]}", "s": round(secs, 2), "ok": ok})
        obligations += max(n, 1)
        if ok and n > 0 and covers[0] == covers[1]:
            discharged += n
            continue
        checks = re.findall(r"Failed Checks: (.*)", body)
        why = "; ".join(dict.fromkeys(checks)) or "no answer"
        o = {"name": name, "why": why[:500], "output": body}
        if ok:
            o["why"] = f"vacuous: {covers[0]} of {covers[1]} reachability covers hold, {n} checks"
            undecided.append(o)
        elif not checks or any(
            s in why for s in ("exact field", "not currently supported", "unwinding assertion", "too many dates", "timed out", "unsupported")
        ):
            discharged += max(n - n_fail, 0) if n else 0
            undecided.append(o)
        else:
            discharged += n - n_fail
            # the native search has these inputs too, most often
            o["inputs"] = counterexamples(root, work, plan, e, name) if len(failed) < 2 and not proc.is_found() else []
            if not o["inputs"]:
                o["why"] += " (no counterexample that maps to an input)"
            failed.append(o)
    if len(units) != plan["n"]:
        tail = "\n".join(l for l in out.split("\n") if "error" in l.lower() or "timed out" in l or l.startswith("kani stopped"))[:800]
        undecided.append({"name": f"kani {prop}", "why": f"{len(units)} of {plan['n']} harnesses answered. {tail}", "output": out[-3000:]})
        obligations += 1
    return dict(
        tool="kani 0.68.0 (cbmc 6.11.0, cadical)",
        cmd=" ".join(cmd).replace(root, "/verif"),
        obligations=obligations,
        discharged=discharged,
        solver_s=solver,
        wall_s=time.time() - t0,
        units=units,
        failed=failed,
        undecided=undecided,
        trusted=TRUST + plan["trust"],
        functions=plan["f"],
    )
