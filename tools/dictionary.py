"""Numbers and names that occur in the code under test, for the generators (the dictionary of a fuzzer).

The generators draw some of their sizes, values and names from here, so that a limit or a special case
in the code is reached on purpose. Nothing is judged by it.
"""
import os
import re

TOKEN = re.compile(
    r"""(?P<comment>//[^\n]*|/\*.*?\*/)
    |(?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
    |(?P<str>b?"(?:\\.|[^"\\])*")
    |(?P<char>b?'(?:\\x[0-9a-fA-F]{2}|\\u\{[^}]*\}|\\.|[^'\\])')
    |(?P<num>(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*(?:\.[0-9][0-9_]*|\.(?![.\w]))?(?:[eE][+-]?[0-9_]+)?)(?:_?(?:[iu](?:8|16|32|64|128|size)|f32|f64))?)
    |(?P<id>[A-Za-z_][A-Za-z0-9_]*)
    |(?P<op><<|::|[\[\]*.])
    |(?P<rest>\S)""",
    re.S | re.X,
)
NAMED = {
    "u8::MAX": 255, "i8::MAX": 127, "u16::MAX": 65535, "i16::MAX": 32767, "u32::MAX": 2**32 - 1,
    "i32::MAX": 2**31 - 1, "i32::MIN": -(2**31), "u64::MAX": 2.0**64, "i64::MAX": 2.0**63,
    "i64::MIN": -(2.0**63), "usize::MAX": 2.0**64, "isize::MAX": 2.0**63, "f64::EPSILON": 2.0**-52,
    "f64::MIN_POSITIVE": 2.0**-1022, "f64::MAX": 1.7976931348623157e308, "f32::EPSILON": 2.0**-23,
    "f32::MAX": 3.4028234663852886e38, "f32::MIN_POSITIVE": 2.0**-126, "f64::DIGITS": 15,
    "f64::MANTISSA_DIGITS": 53, "f64::MAX_EXP": 1024, "usize::BITS": 64, "u64::BITS": 64, "u32::BITS": 32,
}
# longer lists of numbers are tables
TABLE = 16


def number(text):
    t = re.sub(r"_?(?:[iu](?:8|16|32|64|128|size)|f32|f64)$", "", text) if not text.startswith("0x") else text
    t = t.replace("_", "")
    try:
        if t[:2] in ("0x", "0b", "0o"):
            return int(re.sub(r"[iu](?:8|16|32|64|128|size)$", "", t), 0)
        return int(t) if t.isdigit() else float(t)
    except ValueError:
        return None


def scan(text):
    nums, words = [], []
    stack = [nums]
    toks = [m for m in TOKEN.finditer(text) if not m.group("comment")]
    i = 0
    while i < len(toks):
        m = toks[i]
        at = lambda k: toks[i + k].group(0) if i + k < len(toks) else ""
        if m.group("num"):
            v = number(m.group(0))
            # products and shifts of literals
            while v is not None and at(1) in ("<<", "*") and i + 2 < len(toks) and toks[i + 2].group("num"):
                w = number(at(2))
                if isinstance(v, int) and isinstance(w, int):
                    stack[-1].append(v)
                    v = v << min(w, 64) if at(1) == "<<" else v * w
                i += 2
            if v is not None:
                stack[-1].append(v)
        elif m.group("id") and at(1) == "::" and m.group(0) + "::" + at(2) in NAMED:
            stack[-1].append(NAMED[m.group(0) + "::" + at(2)])
            i += 2
        elif m.group("str") or m.group("raw"):
            s = re.sub(r'^b?r?#*"|"#*$', "", m.group(0))
            if re.fullmatch(r"[A-Za-z0-9_']{1,40}", s) and s not in ("a", "s"):
                words.append(s)
        elif m.group("char") and re.fullmatch(r"b?'[A-Za-z]'", m.group(0)):
            words.append(m.group(0)[-2])
        elif m.group(0) == "[":
            stack.append([])
        elif m.group(0) == "]" and len(stack) > 1:
            inner = stack.pop()
            if len(inner) <= TABLE:
                stack[-1] += inner
        i += 1
    for rest in stack[1:]:
        nums += rest
    return nums, words


def dictionary(src):
    """`numbers;names`, each separated by commas."""
    nums, words = set(), set()
    for d, dirs, files in os.walk(src):
        dirs[:] = sorted(x for x in dirs if x != "tests")
        for f in sorted(files):
            if f.endswith(".rs"):
                with open(os.path.join(d, f), errors="replace") as h:
                    n, w = scan(h.read())
                nums.update(float(v) for v in n if abs(v) < 1e309)
                words.update(w)
    nums = sorted(v for v in nums if v not in (0.0, 1.0))[:400]
    return ",".join(repr(v) for v in nums) + ";" + ",".join(sorted(words)[:300])


if __name__ == "__main__":
    print(dictionary("/repo/src"))
