"""Words and numbers that the sources mention, as material for the generators (what a fuzzer would learn from the comparisons it sees)."""
import os, re

SKIP = ("bison_parser.cpp", "bison_parser.h", "flex_lexer.cpp", "flex_lexer.h")
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "v": "\v", "f": "\f", "a": "\a", "b": "\b"}


def unescape(s):
    def sub(m):
        x = m.group(1)
        if x[0] == "x":
            return chr(int(x[1:], 16) & 255)
        if x[0] in "01234567":
            return chr(int(x, 8) & 255)
        return ESC.get(x, x)

    return re.sub(r"\\(x[0-9a-fA-F]+|[0-7]{1,3}|.)", sub, s, flags=re.S)


def mine(src):
    words, nums = set(), set()
    for root, dirs, names in sorted(os.walk(src)):
        for n in sorted(names):
            if n in SKIP or not n.endswith((".cpp", ".h", ".y", ".l", ".hpp", ".cc", ".c", ".inc")):
                continue
            text = open(os.path.join(root, n), "rb").read().decode("latin-1")
            text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
            text = re.sub(r"^\s*#\s*include.*$", " ", text, flags=re.M)
            code = []

            def literal(m):
                s = unescape(m.group(2))
                if 0 < len(s) <= 40:
                    words.add(s)
                    t = s.strip(" :=,\n\t")
                    if t:
                        words.add(t)
                return " "

            text = re.sub(r"//[^\n\"']*$", " ", text, flags=re.M)
            text = re.sub(r"(\"|')((?:\\.|(?!\1)[^\\\n])*)\1", literal, text)
            for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|\d[\d']*)[uUlL]*(?![\w.])", text):
                nums.add(int(m.group(1).replace("'", ""), 16 if m.group(1)[:2].lower() == "0x" else 10))
            for m in re.finditer(r"(\d+)[uUlL]*\s*<<\s*(\d+)", text):
                if int(m.group(2)) < 63:
                    nums.add(int(m.group(1)) << int(m.group(2)))
            for m in re.finditer(r"(\d+)[uUlL]*\s*\*\s*(\d+)", text):
                nums.add(int(m.group(1)) * int(m.group(2)))
    words = sorted(w for w in words if "\0" not in w)[:1500]
    nums = sorted(n for n in nums if n < 2**63)[:500]
    return words, nums


def write(src, path):
    words, nums = mine(src)
    with open(path + ".tmp", "w") as f:
        for w in words:
            f.write("w " + w.encode("latin-1").hex() + "\n")
        for n in nums:
            f.write("n %d\n" % n)
    os.rename(path + ".tmp", path)


if __name__ == "__main__":
    import sys
    w, n = mine(sys.argv[1])
    print(len(w), w)
    print(len(n), n)
