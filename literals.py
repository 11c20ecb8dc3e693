"""Numbers and strings that occur in the library's source: a word list for the input generators.

It only biases which inputs are tried.  What is not in base_literals.json (the word list of the
tree this was developed on) is tried more often."""
import json, os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))


def of_text(t):
    t = re.split(r"#\[cfg\(test\)\]\s*(?:pub(?:\([a-z]+\))?\s+)?mod\s", t)[0]
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    ints, strs = set(), set()

    def string(m):
        s = m.group(1)
        if s and "\\" not in s and ("{" not in s or re.fullmatch(r"[\W_]{1,2}\w{1,12}[\W_]{1,2}", s)) and len(s) <= 24 and not re.fullmatch(r"[01]{3,}|[NW]+", s):
            strs.add(s)
        return '""'

    # line by line, so that quotes in comments do no harm
    lines = []
    for l in t.split("\n"):
        l = re.sub(r"'\\?\"'", "' '", l)
        l = re.sub(r'"((?:[^"\\]|\\.)*)"', string, l)
        lines.append(l.split("//")[0])
    t = "\n".join(lines)
    for m in re.finditer(r"[\[(]((?:\s*(?:b?'[^'\\]'|(?:\w+\s*@\s*)?\.\.|_)\s*,)+\s*(?:b?'[^'\\]'|(?:\w+\s*@\s*)?\.\.|_)\s*,?\s*)[\])]", t):
        for x in re.split(r"\.\.|_", m.group(1)):
            s = "".join(re.findall(r"'([^'\\])'", x))
            if 1 < len(s) <= 12:
                strs.add(s)
    strs.update(re.findall(r"(?<![\w'])b?'([^'\\])'", t))
    for m in re.finditer(r"[\[(]((?:\s*\d\s*(?:u8|usize|u32)?\s*,)+\s*\d\s*,?\s*)[\])]", t):
        s = "".join(re.findall(r"\d(?!\d*[a-z0-9])", re.sub(r"(?:u8|usize|u32)", "", m.group(1))))
        if len(s) <= 13 and not re.fullmatch(r"[01]*", s):
            strs.add(s)
    for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?(?![\w.]*\d*\.\d)", t):
        x = m.group(1).replace("_", "")
        n = int(x, 16) if x.startswith("0x") else int(x)
        if 2 <= n < 1 << 63:
            ints.add(n)
    return ints, strs


def of_tree(root):
    ints, strs = set(), set()
    for d, _, fs in sorted(os.walk(os.path.join(root, "src"))):
        for f in sorted(fs):
            if f.endswith(".rs"):
                with open(os.path.join(d, f), encoding="utf-8", errors="replace") as x:
                    a, b = of_text(x.read())
                ints |= a
                strs |= b
    return ints, strs


def words(root):
    ints, strs = of_tree(root)
    with open(os.path.join(HERE, "base_literals.json")) as f:
        base = json.load(f)
    return {"ints": sorted(ints), "strs": sorted(strs), "new_ints": sorted(ints - set(base["ints"])), "new_strs": sorted(strs - set(base["strs"]))}


if __name__ == "__main__":
    ints, strs = of_tree(sys.argv[1] if len(sys.argv) > 1 else "/repo")
    json.dump({"ints": sorted(ints), "strs": sorted(strs)}, sys.stdout, indent=0, ensure_ascii=False)
