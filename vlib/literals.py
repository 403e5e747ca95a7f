"""An automatic dictionary: the literal values in the sources under test, without long tables."""
import os, re

TOK = re.compile(rb'0x[0-9a-fA-F_]+(?:[ui](?:8|16|32|64|128|size))?|\b\d[\d_]*(?:[ui](?:8|16|32|64|128|size))?\b|b"(?:[^"\\]|\\.)*"')


def strip(text):
    text = re.sub(rb'//[^\n]*', b'', text)
    return re.sub(rb'/\*.*?\*/', b'', text, flags=re.S)


def number(t):
    t = t.decode().replace("_", "")
    m = re.match(r'(0x[0-9a-fA-F]+?|\d+)(?:([ui])(8|16|32|64|128|size))?$', t)
    if not m:
        return None
    v = int(m.group(1), 0) if m.group(1).startswith("0x") else int(m.group(1))
    n = max(1, (v.bit_length() + 7) // 8)
    if m.group(1).startswith("0x"):
        n = max(n, (len(m.group(1)) - 1) // 2)
    n = 1 << (n - 1).bit_length()
    return v, n


def bytestr(t):
    try:
        return eval(t.decode("ascii"))
    except Exception:
        return b""


def dictionary(root, limit=300):
    out = {}

    def add(b):
        if 1 <= len(b) <= 64 and any(b):
            out.setdefault(bytes(b), None)

    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith(".rs") or "test" in f:
                continue
            text = strip(open(os.path.join(d, f), "rb").read())
            # lists of literals: short ones as a whole, long ones (tables) not at all
            def lists(m):
                toks = TOK.findall(m.group(0))
                if len(toks) < 3:
                    return m.group(0)
                if len(toks) <= 64:
                    nums = [number(t) for t in toks if not t.startswith(b'b"')]
                    nums = [x for x in nums if x]
                    if nums:
                        w = max(n for _, n in nums)
                        add(b"".join(v.to_bytes(w, "little") for v, n in nums))
                        add(b"".join(v.to_bytes(w, "big") for v, n in nums))
                        return m.group(0)
                return b" "
            text = re.sub(rb'\[[^\[\]]*\]', lists, text)
            for t in TOK.findall(text):
                if t.startswith(b'b"'):
                    add(bytestr(t))
                    continue
                x = number(t)
                if x and x[0] > 9 and x[1] <= 16:
                    v, n = x
                    add(v.to_bytes(n, "big"))
                    add(v.to_bytes(n, "little"))
    longest = sorted(out, key=lambda b: (-len(b), b))
    return [b.hex() for b in longest[:limit]]


if __name__ == "__main__":
    import sys
    for x in dictionary(sys.argv[1]):
        print(x)
