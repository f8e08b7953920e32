"""Seeded generation of mangled names for the code-to-specification direction.

Nothing here knows what a name means: whatever is generated is executed on the implementation and the
recorded outcome is judged by the specification (Conform.tla)."""
import json
import os
import random

UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UNI = ["é", "ß", "λ", "Ж", "あ", "漢", "😀", "𠀀", "¿", "€", "𝒳", "²"]
_CHARS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "chars.json")))
# every character the specification knows, except those that end a name or change its kind
ANY = [_CHARS["astral"].get(r[0], r[0]) for r in _CHARS["rows"] if r[0] not in "@?$"]


def encode(v):
    """A number as the format writes it."""
    if 1 <= v <= 10:
        return str(v - 1)
    t = ""
    while v:
        t, v = UP[v & 15] + t, v >> 4
    return (t or "A") + "@"


class Gen:
    """Random names of the grammar: mostly well formed, with back-references that may dangle."""

    def __init__(self, rng, refs=0.15, uni=0.0, size=4, flaws=0.0, tpl=0.15, local=0.06, ops=0.25, wide=0.0):
        self.r, self.refs, self.uni, self.size = rng, refs, uni, size
        self.flaws, self.tpl, self.local, self.ops, self.wide = flaws, tpl, local, ops, wide
        self.budget = 0
        self.names, self.long = set(), 0

    def p(self, x):
        return self.r.random() < x

    def c(self, *xs):
        return self.r.choice(xs)

    def count(self, *xs):
        """How many of something: usually few, in wide names at times many."""
        if self.wide and self.p(self.wide):
            if self.p(0.04):
                return self.c(127, 128, 129, 255, 256, 257, 300)
            return self.c(self.r.randrange(4, 16), self.r.randrange(8, 48), self.c(8, 9, 10, 11, 16, 17, 32, 33))
        return self.c(*xs)

    def spend(self):
        self.budget -= 1
        return self.budget > 0

    # ---- names
    def word(self):
        n = self.c(1, 1, 1, 2, 3, 5)
        t = "".join(self.c(*"abcdefgxyzABC_09") for _ in range(n))
        if self.p(0.1):
            t = self.c("_", "__", "_0", "_A", "$", "~", "-") + t + self.c("", "", "_", "$", "2")
        if t[0] in "0123456789":
            t = "i" + t
        if self.uni and self.p(self.uni):
            odd = ANY if self.p(0.4) else UNI
            t = "".join(self.c(*odd, *"aZ9_") for _ in range(self.c(1, 2, 3, 6)))
            if t[0] in "0123456789":
                t = "é" + t
        if self.p(0.01 + self.wide / 8):
            t = t * self.r.randrange(20, 90)
            if self.p(self.wide):
                t = (t * 80)[:self.c(63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2500, 4096, 5000)]
        return t

    def simple(self):
        x = self.r.random()
        if x < 0.07 and self.names:
            t = self.akin(self.c(*sorted(self.names)))
        else:
            t = (self.c("a", "b", "c", "foo") if x < 0.5 else self.word()) + "@"
        self.names.add(t)
        return t

    def digit(self):
        return str(self.r.choice([0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9]))

    def akin(self, t):
        """A name that differs a little from one that has been written."""
        t = t.rstrip("@")
        if not t or t[0] in "?$":
            return "b@"
        return self.c(t.swapcase(), t + self.c(*"a_1Z"), t[:-1] or "q", t[:-1] + self.c(*"b_2Y"), "z" + t, "z" + t[1:], t[::-1] if t[-1] not in "0123456789" else t + "x") + "@"

    def ref(self, known):
        """A back-reference, most times to something that has been written."""
        return str(self.r.randrange(min(10, known))) if known and self.p(0.93) else self.digit()

    def ident(self):
        if self.p(self.refs) and (self.names or self.p(0.2)):
            return self.ref(len(self.names))
        if self.p(self.tpl) and self.spend():
            return self.template()
        return self.simple()

    def template(self):
        outer, self.names, self.long = (self.names, self.long), set(), 0
        head = self.simple() if self.p(0.9) else self.c("?H", "?0", "?1", "?B", "?__Kx@", "?_U", "0")
        t = "?$" + head + "".join(self.arg() for _ in range(self.count(0, 1, 1, 1, 2, 2, 3))) + "@"
        self.names, self.long = outer
        self.names.add(t)
        return t

    def scope(self):
        x = self.r.random()
        if x < self.local and self.spend():
            n = self.c("1", "2", "0", "9", "@", "BA@", "CEA@", "L@") if self.p(0.8) else encode(self.r.getrandbits(self.r.randrange(2, 65)))
            return "?" + n + "?" + self.symbol()
        if x < self.local * 1.5 + 0.07:
            return "?A" + self.c("B", "PA", "CEA", "A", "P", "9", "AAAA", "0x1", "0x2", "", "x", "0x5b2f1a07", "0x5b2f1a08", "0x1111222233334444", "0x1111222233334445") + "@"
        return self.ident()

    def chain(self):
        return "".join(self.scope() for _ in range(self.count(0, 0, 0, 1, 1, 2, 3))) + "@"

    def typename(self):
        return self.ident() + self.chain()

    def symname(self):
        if self.p(self.ops):
            return self.op() + self.c("a@", "b@a@", "?$t@H@", "0", "") + self.chain()
        return (self.ident() if self.p(0.8) else self.template()) + self.chain()

    def op(self):
        x = self.r.random()
        if x < 0.5:
            return "?" + self.c(*"0123456789", *UP)
        if x < 0.75:
            return "?_" + self.c(*"0123456DEFGHIJKLMNOTUVX")
        if x < 0.9:
            return "?__" + self.c(*"ABCDGHILMN")
        return "?__K" + self.c("", "", "_", "__", "_0", "1", "_9_") + self.word() + "@"

    # ---- numbers
    def num(self, signed=True):
        s = "?" if signed and self.p(0.2) else ""
        if self.p(0.6):
            return s + self.digit()
        if self.p(0.08):
            return s + self.c("BAAAA", "BAAAAAAAA", "CAAAAAAAA", "BAAAAAAAAAAAAAAA", "IAAAAAAA", "PPPPPPPP", "HPPPPPPP", "BAAAAAAAB", "BAA", "IAAAAAAAAAAAAAAA") + "@"
        n = self.c(0, 1, 1, 2, 2, 3, 7, 8, 15, 16, 17)
        return s + "".join(self.c(*"ABCDEFGHIJKLMNOP") for _ in range(n)) + "@"

    # ---- types
    def type(self):
        if not self.spend():
            return self.c("H", "D", "_N", "X", "Va@@")
        x = self.r.random()
        if x < 0.3:
            return self.c(*"CDEFGHIJKMNO", "_N", "_J", "_K", "_W", "_Q", "_S", "_U", "_P", "_T", "$$T", "X")
        if x < 0.55:
            return self.c("V", "U", "T", "W4") + self.typename()
        if x < 0.85:
            return self.pointer()
        if x < 0.92:
            return self.array()
        if x < 0.96:
            return self.c("$$A6" + self.fn(False), "$$A8@@" + self.fn(True))
        return "?" + self.ident() + "@"

    def ext(self):
        return self.c("", "", "E", "E", "I", "F", "EI", "EF", "EIF")

    def pointer(self):
        l = self.c("P", "P", "P", "Q", "R", "S", "A", "$$Q")
        if self.wide and self.p(self.wide / 2):
            l = "".join(self.c(*"PPQRSA") + self.ext() + self.c(*"AABCD") for _ in range(self.count(3, 5))) + l
        x = self.r.random()
        if x < 0.6:
            return l + self.ext() + self.c(*"AABCD") + self.type()
        if x < 0.8:
            return l + "6" + self.fn(False)
        if x < 0.9:
            return l + self.ext() + self.c(*"QRST") + self.typename() + self.type()
        return l + "8" + self.typename() + self.fn(True)

    def array(self):
        n = self.count(1, 1, 2, 3)
        return "Y" + encode(n) + "".join(self.num(False) for _ in range(n)) + \
            self.c("", "", "$$C" + self.c(*("QRST" if self.p(0.06) else "ABCD"))) + self.type()

    def result(self):
        if self.p(0.08):
            return "@"
        return self.c("", "", "?" + self.c(*"ABCD")) + self.type()

    def params(self):
        if self.p(0.2):
            return "X"
        ps = ""
        for _ in range(self.count(1, 1, 2, 2, 3, 4)):
            t = self.ref(self.long) if self.p(self.refs) and (self.long or self.p(0.2)) else self.type()
            self.long += len(t) > 1
            ps += t
        return ps + self.c("@", "@", "@", "Z")

    def this(self):
        return self.ext() + self.c("", "", "", "G", "H") + self.c(*"AABCD")

    def fn(self, this):
        return (self.this() if this else "") + (self.c(*"AAAAECGIMOQSWZ") if self.p(0.7) else self.c(*"ABCDEFGHIJKLMNOPQRSTUVWXYZ", *"BDFHJNPSW")) + self.result() + self.params() + \
            self.c("Z", "Z", "Z", "Z", "_E")

    # ---- template arguments
    def arg(self):
        x = self.r.random()
        if x < 0.55 or not self.spend():
            return self.type()
        if x < 0.7:
            return "$0" + self.num()
        if x < 0.75:
            return self.c("$S", "$$V", "$$Z", "$$$V")
        if x < 0.8:
            return "$" + self.c("1", "E") + self.symbol()
        if x < 0.84:
            k = self.c(1, 2, 3)
            return "$" + " HIJ"[k] + self.c(self.symbol, lambda: "")() + "".join(self.num() for _ in range(k))
        if x < 0.88:
            k = self.c(2, 3)
            return "$" + "  FG"[k] + "".join(self.num() for _ in range(k))
        if x < 0.92:
            return "$$B" + self.type()
        if x < 0.95:
            return "$$C" + self.c(*("QRST" if self.p(0.1) else "ABCD")) + self.type()
        if x < 0.97:
            return "$$Y" + self.typename()
        head = "$M" + self.type()
        x = self.r.random()
        if x < 0.25:
            return head + "0" + self.num()
        if x < 0.65:
            k = self.c(0, 1, 2, 3)
            return head + "1HIJ"[k] + (self.symbol() if self.p(0.6) else "") + "".join(self.num() for _ in range(k))
        if x < 0.75:
            k = self.c(2, 3)
            return head + "  FG"[k] + "".join(self.num() for _ in range(k))
        return head + (self.type() if x < 0.85 else self.arg())

    # ---- symbols
    def function(self):
        x = self.r.random()
        pre = "$$J0" if self.p(0.04) else ""
        if x < 0.35:
            return pre + self.c("Y", "Y", "Y", "Z", "C", "K", "S", "T") + self.fn(False)
        if x < 0.8:
            return pre + self.c(*"ABEFIJMNQQQQRUV") + self.fn(True)
        if x < 0.85:
            return pre + "9"
        if x < 0.9:
            return pre + self.c(*"GHOPWX") + self.num() + self.fn(True)
        if x < 0.95:
            return pre + "$" + self.c(*"012345") + self.num() + self.num() + self.fn(True)
        return pre + "$R" + self.c(*"012345") + "".join(self.num() for _ in range(4)) + self.fn(True)

    def variable(self):
        if self.p(0.4):
            p = self.pointer()
            tail = self.typename() if self.p(0.15) else ""
            return self.c(*"01233334") + p + self.ext() + self.c(*"AAABCD") + tail
        return self.c(*"01233334") + self.type() + self.c(*"AAABCD")

    def special(self):
        x = self.r.randrange(12)
        n = lambda: self.ident() + self.chain()  # noqa: E731
        if x == 0:
            return "??_" + self.c("7", "8", "S", "R4") + n() + self.c("6", "7") + self.c(*"ABCD") + \
                self.c("@", "@", self.typename())
        if x == 1:
            return "??_R0" + self.c("", "?" + self.c(*"ABCD")) + self.type() + "@8"
        if x == 2:
            return "??_R1" + "".join(self.num(i == 1) for i in range(4)) + n() + "8"
        if x == 3:
            return "??_R" + self.c("2", "3") + n() + "8"
        if x == 4:
            return self.c("??_B", "??__J") + n() + self.c("5", "4IA") + self.c("", self.num(False))
        if x == 5:
            return "??_9" + n() + "$B" + self.num(False) + "A" + self.c(*"AEG")
        if x == 6:
            return "??__" + self.c("E", "F") + self.symname() + self.function()
        if x == 7:
            return "??__" + self.c("E", "F") + "?" + self.symname() + self.variable() + "@@" + self.function()
        if x == 8:
            return "??__" + self.c("E", "F") + self.symname() + self.variable() + "@" + self.function()
        if x == 9:
            return "." + self.c("", "?" + self.c(*"ABCD")) + self.type()
        if x == 10:
            return "??@" + "".join(self.c(*"0123456789abcdef") for _ in range(self.c(0, 5, 32))) + "@" + \
                self.c("", "", "??_R4@", "x")
        return self.string()

    def string(self):
        n = self.c(0, 1, 2, 3, 4, 8, 15, 16, 31, 32)
        kind = self.c("n", "u", "U", "L")
        w = {"n": 1, "u": 2, "U": 4, "L": 2}[kind]
        out = []
        for i in range(n + 1):
            v = 0 if i == n and self.p(0.85) else self.c(65, 97, 48, 10, 0, 200, 0x3042, 0x10FFFF, self.r.randrange(70000))
            b = [(v >> (8 * k)) & 255 for k in range(w)]
            if kind == "L":
                b.reverse()
            out += b
        ln = self.c(len(out), len(out), len(out), len(out) + 1, self.r.randrange(140))

        def enc(b):
            ch = chr(b)
            if ch.isascii() and (ch.isalnum() or ch == "_") and not self.p(0.1):
                return ch
            if self.p(0.2) and b not in (63, 64) and b >= 32:
                return ch
            if b in (44, 47, 92, 58, 46, 32, 10, 9, 39, 45) and self.p(0.8):
                return "?" + str((44, 47, 92, 58, 46, 32, 10, 9, 39, 45).index(b))
            if (193 <= b <= 218 or 225 <= b <= 250) and self.p(0.8):
                return "?" + chr(b - 128)
            return "?$" + UP[b >> 4] + UP[b & 15]

        def num(v):
            if 1 <= v <= 10:
                return str(v - 1)
            t = ""
            while v:
                t, v = UP[v & 15] + t, v >> 4
            return (t or "A") + "@"
        return "??_C@_" + ("1" if kind == "L" else "0") + num(ln) + self.c("PKCB@", "@", "x@") + \
            "".join(enc(b) for b in out) + "@"

    def symbol(self):
        x = self.r.random()
        if x < 0.5:
            return "?" + self.symname() + self.function()
        if x < 0.85:
            return "?" + self.symname() + self.variable()
        return self.special()

    def name(self, kind=None):
        self.budget = self.r.choice([3, 6, 10, 16, 24]) * self.size // 4 * (2 if self.wide else 1)
        self.names, self.long = set(), 0
        if kind in ("function", "variable", "declared"):
            s = "?" + self.symname() + (self.function() if kind == "function" or kind == "declared" and self.p(0.5) else self.variable())
        else:
            s = getattr(self, kind or "symbol")()
        if self.flaws and self.p(self.flaws):
            s = mutate(self.r, s)
        return s


SOUP = "?@$_0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabz.QQEA@@??$$"


def mutate(rng, t, other=None, alphabet=SOUP):
    t = list(t)
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        r = rng.random()
        i = rng.randrange(len(t) + 1)
        if r < .25:
            t.insert(i, rng.choice(alphabet))
        elif r < .45 and t:
            del t[min(i, len(t) - 1)]
        elif r < .65 and t:
            t[min(i, len(t) - 1)] = rng.choice(alphabet)
        elif r < .75:
            t = t[:i]
        elif r < .86 and other:
            a = rng.randrange(len(other) + 1)
            t[i:i] = list(other[a:min(len(other), a + rng.randrange(1, 25))])
        else:
            a = rng.randrange(len(t) + 1)
            t[i:i] = t[a:min(len(t), a + rng.randrange(1, 12))]
    return "".join(t)


def flags(rng):
    """Flag combinations: none, one, few, many."""
    x = rng.random()
    if x < 0.3:
        return 0
    if x < 0.6:
        return 1 << rng.randrange(10)
    if x < 0.8:
        return (1 << rng.randrange(10)) | (1 << rng.randrange(10))
    # also with bits that mean nothing
    return rng.randrange(1024) | (rng.choice([1 << 10, 1 << 12, 1 << 15, 0xFC00]) if rng.random() < 0.15 else 0)


def pump(rng, t, n):
    """Repeats some part of t."""
    a = rng.randrange(len(t))
    b = min(len(t), a + rng.choice([1, 1, 2, 2, 3, 4, 6, 10]))
    return t[:a] + t[a:b] * n + t[b:]
