"""PROVE, second half: Verus on the functions extracted from /repo's source on every run.

`extract` (a syn program, /verif/extract) prints the items of the source files with markers; this
module puts the contracts of /verif/contracts/<unit>.rs at the markers and runs Verus. Nothing of a
function body is written here: what changes in /repo changes in the text that is verified.
"""

import glob
import json
import os
import re
import shlex
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

import proc

REPO = os.environ.get("QV_REPO", "/repo")

TRUST = [
    "Verus 0.2026.09.13 and Z3 (encoding of the extracted functions and the answers), vstd's specifications of the standard library",
    "the extraction: the changes listed in extract/src/main.rs, and the scalar type parameter read as the type R of contracts/scalar.rs",
]
REALS = "machine arithmetic is treated as that of the reals (comparisons are IEEE 754 exact, not-a-number included)"

INTERP = ["linear", "hermite", "catmull_rom", "cubic"]
FIND = ["find_index_at_left_boundary"]
FITS = ["Linear::try_fit", "Hermite::try_fit", "CatmullRom::try_fit", "NaturalCubic::try_fit"]
TRI = ["TridiagonalMatrix::try_new", "TridiagonalMatrix::solve", "TridiagonalMatrix::mul", "solve_with_thomas_algorithm_unchecked"]
# property -> units; definite: the functions whose contract is nothing but the property, with the clauses that
# count (a clause that fails there, in code of the recorded shape, is reported although no input was found);
# trust; functions
CLAUSES = r"error: (postcondition|invariant) not satisfied"
SCHEDULE = CLAUSES + r"(?s:(?!\n\n).)*?\b(qv_scheduled|qv_regulars_of|qv_months_after|qv_plus)\("
FITTED = CLAUSES + r"(?s:(?!\n\n).)*?\bqv_fitted\("
ANY = r"error: "
FIELDS = ["Date::from_ymd", "Date::year", "Date::month", "Date::day", "Date::leap_year", "Date::serial_date"]
STEPS = ["Date::checked_add_days", "Date::checked_sub_days", "Date::succ_opt", "Date::pred_opt", "Sub for Date"]
CHRONO = ["chrono: NaiveDate::add_days, checked_add/sub_days, checked_add/sub_signed, succ_opt, pred_opt, signed_duration_since, checked_add/sub_months, weekday, from_ymd_opt, with_year, with_day, year, month, day, leap_year, num_days_from_ce and the tables and functions below them"]
PLAN = {
    "C15": dict(units=INTERP, definite=dict.fromkeys(FIND, ANY), trust=[], f=["find_index_at_left_boundary", "Linear::try_value", "Hermite::try_value", "CatmullRom::try_value", "NaturalCubic::try_value"]),
    "C16": dict(units=INTERP, definite={}, trust=[], f=["find_index_at_left_boundary", "try_fit and try_value of Linear, Hermite, CatmullRom, NaturalCubic", *TRI]),
    "C17": dict(units=["linear"], definite={}, trust=[], f=["find_index_at_left_boundary", "Linear::try_fit", "Linear::try_value"]),
    "C18": dict(units=["hermite"], definite={}, trust=[], f=["find_index_at_left_boundary", "Hermite::try_fit", "Hermite::try_value"]),
    "C19": dict(units=["cubic"], definite={}, trust=[], f=["find_index_at_left_boundary", "NaturalCubic::try_fit", "NaturalCubic::try_value", *TRI]),
    "C20": dict(units=["catmull_rom"], definite={}, trust=[], f=["find_index_at_left_boundary", "CatmullRom::try_fit", "CatmullRom::try_value"]),
    "C21": dict(units=INTERP, definite=dict.fromkeys(FITS, FITTED), trust=[], f=[*FITS, *TRI]),
    "C01": dict(units=["date_src", "chrono_src"], definite={}, trust=[], f=[*FIELDS, *CHRONO]),
    "C02": dict(units=["date_src", "chrono_src"], definite={}, trust=[], f=[*STEPS, "Period for Days::checked_add", *CHRONO]),
    "C03": dict(units=["date_src", "chrono_src"], definite={}, trust=[], f=["Date::checked_add_months", "Date::checked_sub_months", "Date::checked_add_years", "Date::days_in_month", "Period for Months::checked_add", "Period for Years::checked_add", *CHRONO]),
    "C04": dict(units=["date_src", "chrono_src"], definite={}, trust=[], f=["Date::weekend_roll", "Date::checked_add_days", *CHRONO]),
    "C06": dict(units=["day_count", "date_src", "chrono_src"], definite={}, trust=[], f=["DayCount for Act360", "DayCount for Act365", "Sub for Date", *CHRONO]),
    "C07": dict(units=["day_count", "date_src"], definite={}, trust=[], f=["Thirty360::date_diff", "DayCount for Thirty360", *FIELDS]),
    "C05": dict(units=["time", "date_src"], definite=dict.fromkeys(["Date::checked_roll", "Date::checked_add"], CLAUSES), trust=[], f=["Date::checked_roll", "Date::checked_add", *STEPS]),
    "C09": dict(units=["calendar"], definite=dict.fromkeys(["JointCalendar::is_business_day", "Calendar::is_holiday"], CLAUSES), trust=[], f=["Calendar::is_holiday", "JointCalendar::is_business_day"]),
    "C10": dict(units=["calendar", "chrono_src"], definite={"Calendar::business_days_between": CLAUSES}, trust=[], f=["Calendar::business_days_between", *CHRONO]),
    "C11": dict(units=["calendar", "chrono_src"], definite=dict.fromkeys(["Calendar::last_day_of_month", "Calendar::end_of_month"], CLAUSES), trust=[], f=["Calendar::last_day_of_month", "Calendar::end_of_month", *CHRONO]),
    "C22": dict(units=["curve", "day_count"], definite={"YieldCurve::new": CLAUSES}, trust=[], f=["YieldCurve::new"]),
    "C23": dict(units=["curve", "day_count"], definite={}, trust=[], f=["YieldCurve::discount_factor", "YieldCurve::yield_curve"]),
    "C24": dict(units=["bond", "date_src"], definite={"Bond::new": SCHEDULE}, trust=[], f=["Bond::new", "Bond::first_cash_flow", "Bond::final_cash_flow"]),
    "C25": dict(units=["bond", "date_src"], definite={}, trust=[], f=["Bond::new", "Bond::first_cash_flow", "Bond::final_cash_flow"]),
    "C26": dict(units=["bond", "date_src"], definite={"Bond::discounted_value": CLAUSES}, trust=[], f=["Bond::discounted_value"]),
}
DAYS = "a date is told by its day number and ordered by it (contracts/date.rs): the derived comparisons of Date and NaiveDate"
ITER = "copied and collect into a Result are assumed contracts (contracts/std_iter.rs)"
NALGEBRA = "nalgebra's vectors and matrices are assumed contracts (contracts/nalgebra.rs), with real entries (every run evaluates the contracts on the compiled crate with indeterminates for entries)"
RLIMIT = {"chrono_src": 60}
UNIT_TRUST = {
    "linear": [REALS],
    "hermite": [REALS, NALGEBRA],
    "catmull_rom": [REALS, NALGEBRA],
    "time": [DAYS, "a period and a calendar are functions of the date (any such functions)"],
    "calendar": ["chrono's day arithmetic has the contracts of contracts/chrono.rs, which Verus discharges on the source of the vendored crate (contracts/chrono_src.rs)", "Result::unwrap_or and i64::from(bool) (contracts/std_result.rs) are assumed contracts", "a calendar is a function of the day for the days of 1901-2199 (C09)"],
    "chrono_src": ["NonZeroI32 is a structure with that number (new_unchecked, get), and chrono's derived order of NaiveDate is that of the number", "rust/src/proofs/chrono_model.rs, which Kani uses, says of chrono's day arithmetic what contracts/chrono_src.rs discharges: compared by hand; the native search evaluates it on the compiled crate too"],
    "date_src": ["Option::map_or_else is an assumed contract; a conversion with into is From's", "a NaiveDate is one that chrono made: chrono's constructors keep its invariant (contracts/chrono_src.rs)"],
    "day_count": [REALS, DAYS],
    "curve": [REALS, DAYS, ITER, "exp(0) = 1 and exp(a + b) = exp(a) exp(b)", "the day count and the interpolator of a curve are functions of their arguments, the day count zero between equal dates (discharged for the day counts of qlab_time in contracts/day_count.rs)"],
    "bond": [REALS, DAYS, "discount_factor is a function of the two dates (C23)"],
    "cubic": [REALS, "nalgebra's DVector (from, as_slice, +) is an assumed contract (contracts/cubic.rs; every run evaluates it on the compiled crate, up to length 40, with indeterminates for entries)"],
}


class Bad(Exception):
    """The source is outside what the extraction knows: no proof, no alarm."""


def parse_contracts(path):
    """{(kind, args...): text} and the list of source lines."""
    out, sources = {}, []
    key, buf = None, []

    def flush():
        if key is not None:
            out.setdefault(key, "")
            out[key] += "\n".join(buf).rstrip() + "\n"

    for line in open(path):
        line = line.rstrip("\n")
        if line.startswith("//@ "):
            flush()
            parts = line[4:].split()
            buf = []
            key = None
            if parts[0] == "source":
                sources.append(shlex.split(line[4:])[1:])
            elif parts[0] == "use":
                more, src = parse_contracts(os.path.join(os.path.dirname(path), parts[1] + ".rs"))
                sources += src
                for k, v in more.items():
                    out[k] = v + out.get(k, "")
            else:
                key = tuple(parts)
        elif key is not None:
            buf.append(line)
    flush()
    return out, sources


def match_close(s, i):
    """Index after the bracket that closes the one at s[i]; strings are skipped."""
    depth = 0
    while i < len(s):
        c = s[i]
        if c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
            if depth == 0:
                return i + 1
        elif c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        i += 1
    raise Bad("unbalanced brackets")


def split_args(s):
    args, depth, cur, i = [], 0, "", 0
    while i < len(s):
        c = s[i]
        if c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        if c == "," and depth == 0:
            args.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        args.append(cur.strip())
    return args


def build_tool(root, work):
    r = subprocess.run(
        ["cargo", "build", "--offline", "--release", "--target-dir", os.path.join(work, "extract")],
        cwd=os.path.join(root, "extract"), capture_output=True, text=True, env=dict(os.environ, CARGO_NET_OFFLINE="true"),
    )
    if r.returncode != 0:
        raise Bad("extract does not build: " + r.stderr[-800:])
    return os.path.join(work, "extract", "release", "extract")


def where(path):
    """`@name/..` is the source of the dependency that /repo's Cargo.lock names."""
    if not path.startswith("@"):
        return os.path.join(REPO, path)
    name, rest = path[1:].split("/", 1)
    m = re.search(rf'(?m)^name = "{name}"\nversion = "([^"]+)"', open(os.path.join(REPO, "Cargo.lock")).read())
    home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
    found = sorted(glob.glob(os.path.join(home, "registry/src/*", f"{name}-{m.group(1)}", rest))) if m else []
    if not found:
        raise Bad(f"no source of {name} in the cargo registry")
    return found[0]


def extract(tool, sources):
    text, shapes = "", {}
    for args in sources:
        cmd = [tool] + [where(a) if a.endswith(".rs") else a for a in args]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise Bad("extraction: " + (r.stderr or "failed")[-800:])
        body = []
        for line in r.stdout.split("\n"):
            m = re.match(r"//SHAPE (\S+) \| (.*?) \| (\d+) \| ?(.*)", line)
            if m:
                calls = dict(c.rsplit(":", 1) for c in m.group(4).split())
                shapes[m.group(1)] = {"loops": m.group(2), "closures": int(m.group(3)), "calls": calls}
            else:
                body.append(line)
        text += "\n".join(body)
    r = subprocess.run(["rustfmt", "--edition", "2021", "--config", "max_width=160"], input=text, capture_output=True, text=True)
    if r.returncode != 0:
        raise Bad("rustfmt: " + r.stderr[-800:])
    return r.stdout, shapes


def weave(text, con, points=None):
    """Put the contracts at the markers; with `points` (a list), also a claim that nothing implies at the
    start and at the end of every function and loop body: where it holds, the assumptions contradict each other."""
    used = set()

    def get(*key):
        used.add(key)
        return con.get(key, "")

    def probe(where):
        if points is None:
            return ""
        points.append(where)
        return f"proof {{ assert(qv_probe({len(points) - 1})); }}\n"

    # impls and traits
    def open_item(m):
        head = re.sub(r"<.*?>", "", m.group(1)).split()
        name = " ".join(h for h in head if h != "pub")
        name = name.split(":")[0] if name.startswith("trait") else name
        return m.group(0) + "\n" + get("item", *name.split())

    text = re.sub(r"(?m)^((?:pub )?(?:impl|trait)\b[^{;]*)\{", open_item, text)
    # constants
    def constant(m):
        spec = get("const", m.group(1))
        if not spec:
            return m.group(2) + " = " + m.group(3) + ";"
        return get("attr", m.group(1)) + "exec " + m.group(2) + "\n" + spec + "{\n" + get("conststart", m.group(1)) + m.group(3) + "\n}"

    text = re.sub(r'#\[qv_const\("([^"]+)"\)\]\s*(const [^=]*?) =\s*([^;]*?(?:\[[^\]]*\])?);\n', constant, text)
    # closures
    while True:
        i = text.find("qv_clo(")
        if i < 0:
            break
        j = match_close(text, i + 6)
        args = split_args(text[i + 7 : j - 1])
        name, k, pats, body = args[0].strip('"'), args[1], args[2], ", ".join(args[3:])
        head = get("clo", name, k)
        pats = split_args(pats.strip()[1:-1])
        if head:
            head = head.strip()
            for n, p in enumerate(pats, 1):
                head = head.replace(f"${n}", p)
        else:
            head = "|" + ", ".join(pats) + "|"
        text = text[:i] + head + " { " + get("clostart", name, k) + body + " }" + text[j:]
    # iterators of for loops
    while True:
        i = text.find("qv_it(")
        if i < 0:
            break
        j = match_close(text, i + 5)
        args = split_args(text[i + 6 : j - 1])
        name, k, expr = args[0].strip('"'), args[1], ", ".join(args[2:])
        it = f"it{k}: " if get("loop", name, k) else ""
        text = text[:i] + it + expr + text[j:]
    # loops
    for m in reversed(list(re.finditer(r'qv_loop!\(\s*"([^"]+)",\s*(\d+)\s*\);', text))):
        inv = get("loop", m.group(1), m.group(2))
        start = get("loopstart", m.group(1), m.group(2))
        b = text.rfind("{", 0, m.start())
        start += probe(f"loop {m.group(2)} of {m.group(1)}")
        text = text[:b].rstrip() + "\n" + inv + "{\n" + start + text[m.end() :]
    for kind, key in (("qv_loop_end", "loopend"), ("qv_before", "before"), ("qv_after", "after")):
        text = re.sub(kind + r'!\(\s*"([^"]+)",\s*(\d+)\s*\);', lambda m: get(key, m.group(1), m.group(2)) + (probe(f"end of loop {m.group(2)} of {m.group(1)}") if key == "loopend" else ""), text)
    text = re.sub(r'qv_tail!\(\s*"([^"]+)"\s*\);', lambda m: get("tail", m.group(1)) + probe("end of " + m.group(1)), text)
    # functions without a body
    while True:
        m = re.search(r'[ \t]*#\[qv_decl\("([^"]+)"\)\]\s*', text)
        if not m:
            break
        end = text.index(";", m.end())
        text = text[: m.start()] + "    " + text[m.end() : end] + "\n" + get("fn", m.group(1)) + ";" + text[end + 1 :]
    # functions
    for m in reversed(list(re.finditer(r'qv_fn!\(\s*"([^"]+)"\s*\);', text))):
        name = m.group(1)
        spec, start, attr = get("fn", name), get("start", name), get("attr", name)
        b = text.rfind("{", 0, m.start())
        f = list(re.finditer(r"\bfn\b", text[:b]))[-1].start()
        f = text.rfind("\n", 0, f) + 1
        start += probe(name)
        text = text[:f] + attr + text[f:b].rstrip() + "\n" + spec + "{\n" + start + text[m.end() :]
    # named results
    out, i = "", 0
    while True:
        j = text.find("QvRet<", i)
        if j < 0:
            out += text[i:]
            break
        k, depth = j + 6, 1
        while depth:
            c = text[k]
            if c == "<":
                depth += 1
            elif c == ">" and text[k - 1] != "-":
                depth -= 1
            k += 1
        ty = text[j + 6 : k - 1].strip().rstrip(",")
        out += text[i:j] + f"(res: {ty})"
        i = k
    missing = [k for k in con if k[0] == "fn" and k not in used]
    if missing:
        raise Bad("contracts without a function in the source: " + ", ".join(" ".join(k) for k in missing))
    return out


def apart(con):
    """The ghost functions under names that the source cannot have."""
    names = set()
    for v in con.values():
        names |= set(re.findall(r"(?m)^(?:pub )?(?:open |closed |uninterp |broadcast )*(?:spec|proof|axiom) fn (\w+)", v))
    some = "|".join(sorted(names, key=len, reverse=True))
    call = re.compile(rf"(?<![.\w])({some})(?=\(|::<|<)")
    use = re.compile(r"(?m)^\s*broadcast use .*$")
    out = {}
    for k, v in con.items():
        v = use.sub(lambda m: re.sub(rf"\b({some})\b", r"qv_\1", m.group(0)), v)
        code = re.compile(r"(?<!spec )(?<!proof )(?<!axiom )\bfn $")
        out[k] = call.sub(lambda m: m.group(1) if code.search(v, max(0, m.start() - 12), m.start()) else "qv_" + m.group(1), v)
    return out


def mirror(name, text):
    """Callers that discharge each contract of a file that other units assume, on the functions extracted here.

    contracts/chrono.rs calls chrono's NaiveDate a Date. Of chrono's values, those that keep the type's invariant.
    """
    text = re.sub(r"(?m)^\s*//.*$|^include .*$", "", text)
    chrono = "NaiveDate" in text
    if chrono:
        text = text.replace("chrono::", "")
    if re.search(r"pub type NaiveDate = Date;", text):
        text = re.sub(r"\bDuration\b", "TimeDelta", re.sub(r"\bDate\b", "NaiveDate", text))
    own = ("NaiveDate", "TimeDelta") if chrono else ("Date",)
    kept = ("NaiveDate", "TimeDelta") if chrono else ()
    stem = name.removesuffix(".rs")
    reqs = {}  # (trait, operand): the precondition
    for trait, rhs, body in re.findall(r"(?s)impl vstd::std_specs::ops::(\w+)SpecImpl(?:<(\w+)>)? for (?:Naive)?Date \{(.*?)\n\}", text):
        reqs[trait, rhs] = re.search(r"_req\([^)]*\) -> bool \{(.*)\}", body).group(1).strip()
    out, n = [], 0
    sign = {"Add": "+", "Sub": "-", "AddAssign": "+=", "SubAssign": "-="}
    for name, args, spec in re.findall(r"(?m)^pub axiom fn (\w+)\(([^)]*)\) (.*);$", text):
        kinds = {a.split(":")[0].strip(): a.split(":")[1].strip() for a in args.split(",")}
        req, ens = re.fullmatch(r"(?:requires (.*) )?ensures (.*)", spec).groups()
        pres = ([req] if req else []) + [f"{a}.ok()" for a, k in kinds.items() if k in kept]
        out.append(f"proof fn qv_mirror_{name}({args})" + (" requires " + ", ".join(pres) if pres else "") + f" ensures {ens} {{ {name}_src({', '.join(kinds)}); }}")
    for head, body in re.findall(r"(?s)\nimpl ([^{]*?) \{\n(.*?)\n\}", text):
        op = re.fullmatch(r"core::ops::(\w+)(?:<(\w+)>)? for (?:Naive)?Date", head)
        if not op and head not in own:
            continue
        for name, args, ret, spec in re.findall(r"(?s)\bfn (\w+)\(([^)]*)\)(?: -> \(r: ([^{]*?)\))?\s*((?:requires|ensures)\b.*?)\{ unimplemented!\(\) \}", body):
            names = [a.split(":")[0].strip() for a in args.split(",")]
            kinds = {a.split(":")[0].strip(): a.split(":")[1].strip() for a in args.split(",") if ":" in a}
            req, ens = re.fullmatch(r"(?s)(?:requires(.*?))?ensures(.*)", spec).groups()
            if name == "iter_days":
                continue  # collected in chrono_src.rs
            call = f"qv_s.{name}({', '.join(names[1:])})" if "self" in names[0] else f"{head}::{name}({', '.join(names)})"
            pres = [req.strip().rstrip(",")] if req else []
            me = "old(self)" if "&mut" in args else "self"
            if names[0].lstrip("&").removeprefix("mut ") == "self" and chrono:
                pres.append(f"{me}.ok()")
            pres += [f"{a}.ok()" for a, k in kinds.items() if k in kept]
            if op:
                pres.append(reqs[op.group(1), op.group(2) or ""].replace("self", "old(self)" if "Assign" in op.group(1) else "self"))
                call = f"*qv_s {sign[op.group(1)]} o;" if "Assign" in op.group(1) else f"qv_s {sign[op.group(1)]} o"
            posts = ["r.ok()"] if ret in kept else ["final(self).ok()"] if me == "old(self)" else ["r is Some ==> r->0.ok()"] if ret == "Option<NaiveDate>" else []
            n += 1
            # `self` is an ordinary argument here
            params = re.sub(r"^&mut self", "qv_s: &mut NaiveDate", re.sub(r"^&?self", "qv_s: " + ("&" if args.startswith("&self") else "") + (head if not op else own[0]), args))
            text_ = f"fn qv_mirror_{stem}_{n}_{name}({params})" + (f" -> (r: {ret})" if ret else "")
            text_ += (" requires " + ", ".join(pres) if pres else "") + " ensures " + ", ".join(posts + [ens.strip().rstrip(",")])
            dates = [f"bounded(*{me});" if "&" in args.split(",")[0] and me == "self" else f"bounded(*old(qv_s));" if me != "self" else "bounded(self);"] if chrono and "self" in names[0] and (op or head == "NaiveDate") else []
            dates += ["within(self);"] if not chrono and args.split(",")[0] == "self" else []
            dates += [f"fields(*self); naive_fields_src(*self); ends(*self);"] if dates and args.startswith("&self") else []
            out.append(re.sub(r"\bself\b", "qv_s", text_) + "\n{ proof { " + re.sub(r"\bself\b", "qv_s", " ".join(dates)) + " } " + call + " }")
    if not out:
        raise Bad("no contract to mirror")
    return "\n".join(out) + "\n"


def outline(shapes):
    """The functions with their loops, closures and recursion: what the loop and closure contracts are numbered by."""
    return {f: (s["loops"], s["closures"], f.split("::")[-1] in s["calls"]) for f, s in shapes.items()}


def generate(unit, root, work, tool, points=None):
    path = os.path.join(root, "contracts", unit + ".rs")
    con, sources = parse_contracts(path)
    text, shapes = extract(tool, sources)
    pre = con.get(("prelude",), "")
    while m := re.search(r"(?m)^include (\S+)$", pre):
        pre = pre[: m.start()] + open(os.path.join(root, "contracts", m.group(1))).read() + pre[m.end() :]
    lem = con.get(("lemmas",), "")
    while m := re.search(r"(?m)^(include|mirror) (\S+)$", lem):
        more = open(os.path.join(root, "contracts", m.group(2))).read()
        lem = lem[: m.start()] + (mirror(m.group(2), more) if m.group(1) == "mirror" else more) + lem[m.end() :]
    con[("lemmas",)] = lem
    con = apart({**con, ("prelude",): pre})
    pre = con[("prelude",)]
    woven = weave(text, con, points)
    if points is not None:
        pre += "uninterp spec fn qv_probe(k: int) -> bool;\n"
    full = (
        "#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unused_parens, unused_braces)]\n"
        "use vstd::prelude::*;\nuse core::cmp::Ordering;\nverus! {\n" + pre + "\n// ---- extracted from " + REPO + "\n" + woven + "\n// ---- lemmas\n" + con.get(("lemmas",), "") + "\nfn main() {}\n}\n"
    )
    os.makedirs(os.path.join(work, "verus"), exist_ok=True)
    out = os.path.join(work, "verus", unit + ("_probe.rs" if points is not None else ".rs"))
    with open(out, "w") as f:
        f.write(full)
    return out, con, shapes


def functions_at(text):
    """[(first line, function)] of the generated file, names as Type::fn."""
    out, owner = [], ""
    for n, line in enumerate(text.split("\n"), 1):
        m = re.match(r"(?:pub )?(?:impl|trait)\b(.*)", line)
        if m:
            head = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", m.group(1))).split("{")[0]
            head = head.split(" for ")[-1].split(":")[0].strip()
            owner = head.split()[0] if head else ""
        elif line.startswith("}"):
            owner = ""
        m = re.search(r"\bfn (\w+)", line)
        if m:
            out.append((n, f"{owner}::{m.group(1)}" if owner and line.startswith(" ") else m.group(1)))
    return out


def run_unit(unit, tier, root, work, tool, probe=False):
    """dict(unit, functions {name: ok}, failed [{name, why, output, definite}], undecided, ...)"""
    u = dict(unit=unit, functions={}, failed=[], undecided=[], s=0.0, smt_s=0.0, shapes_ok=True, queries=0)
    t0 = time.time()
    try:
        path, con, shapes = generate(unit, root, work, tool)
    except (Bad, OSError, IndexError, ValueError) as x:
        u["undecided"].append({"name": f"verus {unit}", "why": f"the source is outside what the extraction reads: {x}"[:600], "output": ""})
        return u
    text = open(path).read()
    recorded = os.path.join(root, "contracts", "shapes", unit + ".json")
    u["shapes_ok"] = os.path.exists(recorded) and outline(json.load(open(recorded))) == outline(shapes)
    cmd = ["verus", path, "--multiple-errors", "5", "--triggers-mode", "silent", "--output-json", "--time-expanded", "--rlimit", str(RLIMIT.get(unit, 20) * (3 if tier == "thorough" else 1)), "--num-threads", "4"]
    try:
        out, err, ended = proc.run(cmd, 900 if tier == "thorough" else 240, work)
        d = json.loads(out)
    except ValueError:
        u["undecided"].append({"name": f"verus {unit}", "why": "Verus gave no answer: " + (ended or err[-600:]), "output": err[-4000:]})
        return u
    u["s"] = round(time.time() - t0, 2)
    with open(os.path.join(work, "verus", unit + ".log"), "w") as f:
        f.write(err)
    res = d["verification-results"]
    if res.get("encountered-vir-error") or "verified" not in res or (res["verified"] == 0):
        m = re.search(r"(?m)^error.*(?:\n.*){0,4}", err)
        u["undecided"].append({"name": f"verus {unit}", "why": "the extracted text is not accepted: " + (m.group(0) if m else "")[:400], "output": err[-4000:]})
        return u
    for m in d["times-ms"]["smt"]["smt-run-module-times"]:
        for f in m["function-breakdown"]:
            name = f["function"].split("::", 1)[1]
            if name == "main" or name.endswith("::clone"):
                continue
            u["functions"][name] = u["functions"].get(name, True) and f["success"]
            u["smt_s"] += f.get("time", 0) / 1000.0
    u["queries"] = res["verified"] + res["errors"]
    # the errors, by function
    starts = functions_at(text)
    errors = {}
    for chunk in re.split(r"(?m)^(?=error|warning|note: )", err):
        m = re.search(r"-->\s*\S*?" + re.escape(unit) + r"\.rs:(\d+)", chunk)
        if not m or not chunk.startswith(("error", "note: ")):
            continue
        at = [n for l, n in starts if l <= int(m.group(1))]
        errors.setdefault(at[-1] if at else "?", []).append(chunk)
    for name, ok in u["functions"].items():
        if ok:
            continue
        text_ = "\n".join(errors.get(name, []))
        kinds = re.findall(r"(?m)^error: (.*)", text_)
        why = "; ".join(dict.fromkeys(kinds)) or "not accepted"
        o = {"name": f"{unit}: {name}", "why": why[:400], "output": text_ or err[-4000:], "fn": name}
        out_of_reach = "resource limit" in text_ or "rlimit" in text_ or not kinds
        (u["undecided"] if out_of_reach else u["failed"]).append(o)
    if res["errors"] and not u["failed"] and not u["undecided"]:
        u["undecided"].append({"name": f"verus {unit}", "why": f"{res['errors']} errors", "output": err[-4000:]})
    return u


def vacuous(unit, root, work, tool):
    """(number of points, those at which anything can be proved, why there is no answer)"""
    points = []
    try:
        path, _, _ = generate(unit, root, work, tool, points)
        cmd = ["verus", path, "--multiple-errors", "100", "--triggers-mode", "silent", "--output-json", "--rlimit", str(3 * RLIMIT.get(unit, 20)), "--num-threads", "4"]
        out, err, _ = proc.run(cmd, 900, work)
        json.loads(out)
    except (Bad, OSError, IndexError, ValueError) as x:
        return len(points), [], f"no answer: {x}"[:300]
    failed = {int(k) for k in re.findall(r"qv_probe\((\d+)\)", err)}
    if "esource limit" in err:
        return len(points), [], "no answer: resource limit"
    return len(points), [p for k, p in enumerate(points) if k not in failed], "" if failed else "no answer: " + err[-300:]


def prove(prop, tier, root, work):
    plan = PLAN[prop]
    t0 = time.time()
    failed, undecided, units, trusted = [], [], [], list(TRUST)
    obligations = discharged = 0
    solver = 0.0
    try:
        tool = build_tool(root, work)
        with ThreadPoolExecutor(4) as ex:
            results = list(ex.map(lambda n: run_unit(n, tier, root, work, tool), plan["units"]))
            probes = list(ex.map(lambda n: vacuous(n, root, work, tool), plan["units"] if tier == "thorough" else []))
    except Bad as x:
        results, probes = [], []
        undecided.append({"name": "extract", "why": str(x), "output": ""})
        obligations = 1
    probes = dict(zip(plan["units"], probes))
    for u in results:
        ok = sum(u["functions"].values())
        obligations += max(len(u["functions"]), 1)
        discharged += ok
        solver += u["smt_s"]
        units.append({"unit": "verus " + u["unit"], "functions": sorted(u["functions"]), "discharged": ok, "s": u["s"], "smt_s": round(u["smt_s"], 2)})
        if u["unit"] in probes:
            n, held, why = probes[u["unit"]]
            units[-1]["vacuity"] = why or f"{n - len(held)} of {n} points (start and end of functions and loops) do not prove a claim that nothing implies"
            if held and not why:
                undecided.append({"name": f"{u['unit']}: assumptions", "why": "they contradict each other, or the code is unreachable, at: " + ", ".join(held[:5]), "output": ""})
        for t in UNIT_TRUST[u["unit"]]:
            if t not in trusted:
                trusted.append(t)
        undecided += u["undecided"]
        for o in u["failed"]:
            clause = plan["definite"].get(o["fn"])
            o["definite"] = bool(u["shapes_ok"] and clause and re.search(clause, o["output"]))
            failed.append(o)
    return dict(
        tool="verus 0.2026.09.13 (z3)",
        cmd="; ".join(f"verus work/verus/{n}.rs" for n in plan["units"]),
        obligations=obligations,
        discharged=discharged,
        solver_s=solver,
        wall_s=time.time() - t0,
        units=units,
        failed=failed,
        undecided=undecided,
        trusted=trusted + plan["trust"],
        functions=plan["f"],
    )


def main():
    """verus.py <unit> [verus arguments]: generate and verify one unit; verus.py --record: the shapes."""
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    work = os.path.join(root, "work")
    tool = build_tool(root, work)
    if sys.argv[1] == "--record":
        os.makedirs(os.path.join(root, "contracts", "shapes"), exist_ok=True)
        for unit in UNIT_TRUST:
            shapes = generate(unit, root, work, tool)[2]
            with open(os.path.join(root, "contracts", "shapes", unit + ".json"), "w") as f:
                json.dump(shapes, f, indent=1, sort_keys=True)
        return
    if sys.argv[1] == "--vacuity":
        for unit in sys.argv[2:] or UNIT_TRUST:
            print(unit, *vacuous(unit, root, work, tool), flush=True)
        return
    out, con, shapes = generate(sys.argv[1], root, work, tool)
    sys.exit(subprocess.run(["verus", out, "--multiple-errors", "20", "--triggers-mode", "silent"] + sys.argv[2:]).returncode)


if __name__ == "__main__":
    main()
