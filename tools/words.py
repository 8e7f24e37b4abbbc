"""The numbers that /repo's code mentions and the reviewed code did not (contracts/words.json): the
native search draws its inputs more often near them. On the reviewed tree there are none."""

import glob
import json
import math
import os
import re
import sys
from collections import Counter

from state import code

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QV_REPO", "/repo")
BASE = os.path.join(ROOT, "contracts", "words.json")
SUFFIX = r"(?:_?(?:[iu](?:8|16|32|64|128|size)|f32|f64))?"
NUMBER = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?)" + SUFFIX + r"(?![\w])")


# what stands for a threshold without being a number: (integers, exponents of two)
NAMES = {
    "i8": ([127], []),
    "u8": ([255], []),
    "i16": ([32767], []),
    "u16": ([65535], []),
    "i32": ([2**31 - 1], []),
    "u32": ([2**32 - 1], []),
    "f32": ([2**24 + 1], [-126, -23, 24]),
    "EPSILON": ([], [-52, -23]),
    "epsilon": ([], [-52, -23]),
    "MIN_POSITIVE": ([], [-126]),
    "min_positive_value": ([], [-126]),
    "is_normal": ([], [-126]),
}
NAME = re.compile(r"\b(" + "|".join(NAMES) + r")\b")


def numbers(text):
    """The numbers of a source text, products and shifts of neighbours included, and the names above."""
    text = code(text)
    out, last = [], None
    for m in NUMBER.finditer(text):
        s = m.group(1).replace("_", "")
        v = int(s, 16) if s.startswith("0x") else float(s) if re.search(r"[.eE]", s) else int(s)
        out.append(v)
        if last is not None:
            between = text[last[1] : m.start()].strip()
            if between == "*":
                out.append(last[0] * v)
            elif between == "<<" and v < 63:
                out.append(last[0] << v if isinstance(last[0], int) else v)
        last = (v, m.end())
    return Counter(str(v) for v in out) + Counter(NAME.findall(text))


def current():
    files = glob.glob(os.path.join(REPO, "crates/*/src/**/*.rs"), recursive=True)
    files += glob.glob(os.path.join(REPO, "third-parties/calendar/src/**/*.rs"), recursive=True)
    out = {}
    for f in sorted(files):
        out[os.path.relpath(f, REPO)] = numbers(open(f, errors="replace").read())
    return out


def fresh():
    """(integers, exponents of two) of the numbers that are new, at most 60."""
    try:
        base = json.load(open(BASE))
        new = [v for f, c in current().items() for v in (c - Counter(base.get(f, {})))]
        numbers = [float(v) for v in new if v not in NAMES]
    except (OSError, ValueError, OverflowError):
        return [], []
    ints, exps = set(), set()
    for v in numbers:
        if not math.isfinite(v) or abs(v) >= 2**62:
            continue
        ints.add(int(v))
        if v and not 1 / 4 < abs(v) < 4:
            e = math.log2(abs(v))
            exps |= {math.floor(e), math.ceil(e)}
    for v in set(new) & set(NAMES):
        ints |= set(NAMES[v][0])
        exps |= set(NAMES[v][1])
    return sorted(ints)[:60], sorted(exps)[:60]


def environment():
    ints, exps = fresh()
    return {"QV_WORDS": ",".join(map(str, ints)), "QV_EXPONENTS": ",".join(map(str, exps))}


if __name__ == "__main__":
    if sys.argv[1:] == ["--record"]:
        json.dump({f: dict(sorted(c.items())) for f, c in current().items() if c}, open(BASE, "w"), indent=0, sort_keys=True)
    else:
        print(environment())
