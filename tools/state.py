"""Whether /repo's functions can depend on anything but their arguments: mutable statics, interior
mutability, unsafe code, the clock or the environment. The contracts speak of arguments alone, and Kani
starts every harness from the initial state, so that a proof says nothing where one of these occurs."""

import glob
import os
import re

REPO = os.environ.get("QV_REPO", "/repo")
SOURCES = {
    "calendar": ["third-parties/calendar/src"],
    "time": ["crates/qlab-time/src"],
    "math": ["crates/qlab-math/src"],
    "all": ["crates/*/src", "third-parties/calendar/src"],
}
WHERE = {"C05": "time", "C08": "calendar", "C09": "calendar time", "C10": "calendar", "C11": "calendar", "C12": "calendar", "C13": "calendar", "C14": "calendar"}
WHERE |= {f"C{i:02}": "time" for i in (1, 2, 3, 4, 6, 7)} | {f"C{i}": "math" for i in range(15, 22)} | {f"C{i}": "all" for i in range(22, 27)}

STATE = re.compile(
    r"\b(static\s+mut|thread_local|lazy_static|once_cell|unsafe|\w*Cell|OnceLock|Lazy\w*|Mutex|RwLock|Atomic\w+|"
    r"RandomState|SystemTime|Instant|transmute)\b|\b(?:std|core)::(env|fs|process|io|net|thread|time|sync|arch|ptr)\b|\*(?:const|mut)\s"
)
STATIC = re.compile(r"(?<!')\bstatic\s+(?!mut\b)\w+\s*:\s*([^=]*)=")
PLAIN = re.compile(r"'?\b(static|str|bool|char|[iu](?:8|16|32|64|128|size)|f32|f64|[A-Z][A-Z0-9_]*|\d\w*)\b")


def code(text):
    """A source text without comments, the contents of strings, and test modules."""
    text = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), text, flags=re.S)
    text = re.sub(r"//[^\n]*", "", text)
    text = re.sub(r'"(?:[^"\\]|\\.)*"', '""', text)
    while m := re.search(r"#\[cfg\(test\)\]\s*(?:pub\s+)?mod\s+\w+\s*\{", text):
        depth, end = 1, m.end()
        while depth and end < len(text):
            depth += {"{": 1, "}": -1}.get(text[end], 0)
            end += 1
        text = text[: m.start()] + re.sub(r"[^\n]", " ", text[m.start() : end]) + text[end:]
    return text


def scan(prop):
    """["file:line: what"] of the state that the property's functions may use."""
    out = []
    for part in WHERE[prop].split():
        for d in SOURCES[part]:
            for f in sorted(glob.glob(os.path.join(REPO, d, "**/*.rs"), recursive=True)):
                text = code(open(f, errors="replace").read())
                hits = [(m.start(), m.group(0).strip()) for m in STATE.finditer(text)]
                hits += [(m.start(), m.group(0).strip()) for m in STATIC.finditer(text) if re.search(r"\w", PLAIN.sub("", m.group(1)))]
                for at, what in sorted(hits):
                    out.append(f"{os.path.relpath(f, REPO)}:{text.count(chr(10), 0, at) + 1}: {what}")
    return out


if __name__ == "__main__":
    for p in sorted(WHERE):
        print(p, scan(p))
