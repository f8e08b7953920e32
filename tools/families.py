"""Families of executions that are recorded on the implementation and judged by the specification."""
import json, os, random, subprocess, sys

import gen
import vlib
from vlib import SEED, hexs, unhexs

HERE = os.path.dirname(os.path.abspath(__file__))
LITS = [l for l in json.load(open(os.path.join(HERE, "lits.json"), encoding="utf-8"))
        if all(c in vlib.ALPHABET for c in vlib.to_spec(l))]
UNI = gen.UNI


def fuzz(kind, quick, thorough, flagged=0.4, **kw):
    def family(run, q):
        rng = random.Random(f"{SEED}-{run.pid}-{kind}-{kw}")
        g = gen.Gen(rng, **kw)
        items = []
        for _ in range(quick if q else thorough):
            n = g.name(None if kind == "any" else kind)
            items.append((n, 0 if rng.random() >= flagged else gen.flags(rng)))
        run.conform(f"grammar:{kind}{kw or ''}", items)
    return family


def wide(kind, quick, thorough, **kw):
    """Names with long lists, deep nesting and long identifiers."""
    return fuzz(kind, quick, thorough, **{**dict(wide=0.3, size=6, refs=0.02, local=0.03), **kw})


def flagged(quick, thorough):
    def family(run, q):
        rng = random.Random(f"{SEED}-{run.pid}-flagged")
        g = gen.Gen(rng, size=6)
        items = []
        for _ in range((quick if q else thorough) // 4):
            n = g.name() if rng.random() < 0.8 else rng.choice(LITS)
            items += [(n, 0)] + [(n, gen.flags(rng) or rng.randrange(1024)) for _ in range(3)]
        run.conform("flags on random symbols", items)
    return family


FLAG_NAMES = ["NO_CALLING_CONVENTION", "NO_ALLOCATION_LANGUAGE", "NO_TAG_SPECIFIER", "NO_ECSU", "NO_ACCESS_SPECIFIER",
              "NO_ACCESS_SPECIFIERS", "NO_MEMBER_TYPE", "NO_RETURN_TYPE", "NO_FUNCTION_RETURNS", "NO_VARIABLE_TYPE",
              "NO_THISTYPE", "NO_LEADING_UNDERSCORES", "NO_MS_KEYWORDS", "NAME_ONLY"]
SHOWY = ["?f@A@@SAPEIFAVt@@AEIFAUu@@P6GHTv@@@Z@Z", "?f@A@@EEIFGBAHP8B@@EAA?AW4e@@XZ@Z", "?x@A@@1PEIQc@@HEIQ1@", "?f@@$$J0YGXXZ",
         "?x@?1??g@A@@UEBAHUs@@@Z@4PEIFBW4e@@EIFB"]


def named_flags(run, q):
    """The flags by their public names, synonyms included, alone and in pairs."""
    items = [(n, a) for n in SHOWY for a in FLAG_NAMES]
    items += [(n, f"{a},{b}") for n in SHOWY for a in FLAG_NAMES for b in FLAG_NAMES]
    run.conform("flags by name", items)


def mutants(quick, thorough):
    def family(run, q):
        rng = random.Random(f"{SEED}-{run.pid}-mutants")
        items = [(gen.mutate(rng, rng.choice(LITS), rng.choice(LITS)), gen.flags(rng))
                 for _ in range(quick if q else thorough)]
        run.conform("mutated names", items)
    return family


def truncated(quick, thorough):
    def family(run, q):
        rng = random.Random(f"{SEED}-{run.pid}-truncated")
        g = gen.Gen(rng, size=6, refs=0.1)
        items = []
        for _ in range((quick if q else thorough) // 3):
            n = g.name() if rng.random() < 0.6 else rng.choice(LITS)
            items.append((n, 0))
            items.append((n[:rng.randrange(len(n))], 0))
            items.append((n + rng.choice(["@", "Z", "0", "?a@@3HA", "A", "é", "@@", " "]), 0))
        run.conform("truncated and extended names", items)
    return family


def short(run, q):
    """Every short continuation of some beginnings."""
    alphabet = "?@$_.0169" + "ABCDEGHIJKLMOPQRSTUVWXYZ" + "aZ"
    items = []
    for p in ["", "?", "??", "??_", "??__", "??_R", "?a@@", "?a@@Y", "?a@@3", "?a@@3P", ".", "?x@@3V?$t@$"]:
        tails = [""] + list(alphabet) + ([a + b for a in alphabet for b in alphabet] if p in ("", "??", "??_", "?a@@") or not q else [])
        for t in tails:
            for end in (["", "A@@YAXXZ"] if q else ["", "A@@YAXXZ", "A@@6B@", "XXZ", "A@@3HA", "HA", "0", "@@A"]):
                items.append((p + t + end, 0))
    run.conform("short names", items)


CONTEXTS = ["?x@@3PAY{}4HA", "?x@@3PAY{}{}{}HA", "?f@@YAXV?$t@$$BY{}{}H@@@Z", "?f@@YAXP6AXAAY{}HH@Z@Z", "?x@@3PAY0{}HA", "?x@@3PAY2{}{}{}HA", "?x@@3V?$t@$0{}@@A", "?x@@3V?$t@$0{}$0{}@@A", "?x@@3V?$t@$F{}{}@@A", "?x@@3V?$t@$G{}{}{}@@A",
            "?x@@3V?$t@$H?y@@3HA{}@@A", "?x@@3V?$t@$I?y@@3HA{}{}@@A", "?x@@3V?$t@$J?y@@3HA{}{}{}@@A", "?x@@3V?$t@$J{}{}{}@@A", "?f@A@@W{}EAAXXZ", "?f@A@@G{}AEXXZ",
            "?f@A@@$4{}{}EAAXXZ", "?f@A@@$R0{}{}{}{}EAAXXZ", "??_9A@@$B{}AA", "??_R1{}{}{}{}A@@8", "??_BA@@5{}", "??__JA@@5{}", "??_BA@@51{}",
            "?x@?{}???f@@YAXXZ@3HA", "?x@?{}??f@@YAXXZ@4HA", "??_C@_0{}ABCD@abc?$AA@", "??_C@_1{}ABCD@?$AAa?$AA?$AA@", "?x@@3V?$t@$MH0{}@@A", "?x@@3V?$t@$MP8A@@AEXXZH?f@A@@QAEXXZ{}@@A"]


ARRAYS = [c for c in CONTEXTS if "Y" in c.split("{}")[0]]
THUNKS = [c for c in CONTEXTS if c.startswith("?f@A")] + ["?f@A@@I{}AEXXZ", "?f@A@@Q{}AEXXZ", "?f@A@@O{}AEXXZ", "?f@A@@$0{}{}EAAXXZ", "?f@A@@$3{}{}AEXXZ", "?f@A@@$R4{}{}{}{}AEXXZ", "?f@A@@$R2{}{}{}{}AEXXZ"]
TABLES = [c for c in CONTEXTS if c.startswith("??_") and not c.startswith("??_C")]
SCOPES = [c for c in CONTEXTS if "?{}" in c]


def some_number(rng):
    if rng.random() < 0.1:
        return rng.choice(["", "?"]) + rng.choice(["P" * 16, "P" * 15, "H" + "P" * 15, "I" + "A" * 15, "B" + "A" * 15, "B" + "A" * 16, "PPPPPPPP", "HPPPPPPP", "IAAAAAAA", "BAAAAAAAA",
                                                   "A" * 20, "A" * 30 + "C", "BAAAAAAAA", "CAAAAAAAA", "BAAAAAAAB", "BAAAAAAAAA", "BAA", "BAAAA", "PPPP"]) + "@"
    x = rng.random()
    s = "?" if rng.random() < 0.2 else ""
    if x < 0.35:
        return s + str(rng.randrange(10))
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 7, 8, 8, 9, 14, 15, 16, 16, 17, 20])
    t = "".join(rng.choice("ABCDEFGHIJKLMNOP" if rng.random() < .8 else "APHI") for _ in range(n))
    if rng.random() < 0.3 and n:
        t = rng.choice(["P" * n, "I" + "A" * (n - 1), "H" + "P" * (n - 1), "B" + "A" * (n - 1)])
    if rng.random() < 0.06:             # not a number
        i = rng.randrange(len(t) + 1)
        t = t[:i] + rng.choice("QQRZap09_$?é") + t[i + rng.randrange(2):]
    return s + t + ("@" if rng.random() < 0.97 else rng.choice(["", "Q", "0", "a"]))


def numbered(rng, contexts=CONTEXTS):
    """A name with numbers of every kind in one of the contexts that take them."""
    parts = rng.choice(contexts).split("{}")
    return "".join(p + (some_number(rng) if i < len(parts) - 1 else "") for i, p in enumerate(parts))


def numbers(quick, thorough, contexts=CONTEXTS):
    def family(run, q):
        rng = random.Random(f"{SEED}-{run.pid}-numbers")
        run.conform("numbers in every field", [(numbered(rng, contexts), 0 if rng.random() < .8 else gen.flags(rng)) for _ in range(quick if q else thorough)])
    return family


# ------------------------------------------------------------------ resources
def near_limit(run, q):
    """Outputs of just below, exactly and just above one mebibyte, reached in different ways."""
    lim = 1 << 20
    items = []
    for d in (-2, -1, 0, 1) if q else (-40, -3, -2, -1, 0, 1, 2, 40):
        k = lim - len("int ") + d
        items.append(("?" + "a" * k + "@@3HA", 0))
        w = 100000
        # void __cdecl f(class X, class X, ...): ten times the name and a last one
        used = len("void __cdecl f()") + 10 * (len("class ") + w) + 10 * 2
        items.append(("?f@@YAXV" + "b" * w + "@@" + "0" * 9 + "V" + "c" * (lim - used - len("class ") + d) + "@@@Z", 0))
        items.append(("?" + "é" * ((lim - 6) // 2) + "a" * (2 + d + ((lim - 6) % 2)) + "@@3HA", 0))
        # a memorised template name is rendered on its own
        items.append(("?x@@3V?$t@V" + "d" * (lim - len("t<class >") + d - 1) + "@@@@A", 512))
    run.conform_long("outputs around the limit", items)


def stacked(w, k, kind, c="n"):
    """A name of w characters below k levels, each of which renders all that is below it again."""
    x = c * w
    if kind == "scopes":
        return "?x@" + "?1??f@" * k + x + "@@3HA" + "@3HA" * k
    if kind == "symbols":
        return "?x@@3V?$t@" + "$1?v@@3V?$t@" * k + "V" + x + "@@" + "@@A" * k + "@@A"
    return "?x@@3" + "V?$a@" * k + "V" + x + "@@" + "@@" * k + "A"


def expanding(levels, k, tail=1):
    """A short name: a type that expands exponentially, below k levels of templates."""
    body, n = "P6AXPEAHPEAD@Z", 2
    for _ in range(levels):
        body += "P6AX" + str(n) * 10 + "@Z"
        n += 1
    return "?x@@3" + "V?$a@" * k + "P6AX" + body + str(n) * tail + "@Z" + "@@" * k + "A"


def rendered(run, q):
    """Levels of names that render what is below them again and again: little, much, and far too much text."""
    items = []
    for kind in ("templates", "scopes", "symbols"):
        for w, k in ((130000, 14), (2000, 150), (20000, 90), (900000, 2), (900000, 30), (400000, 60)) if q else \
                ((130000, 14), (2000, 150), (20000, 90), (900000, 2), (900000, 30), (400000, 60), (1000, 160), (10000, 160),
                 (26000, 70), (1040000, 1), (100000, 160), (1040000, 50)):
            items += [(stacked(w, k if kind == "templates" else k // 2, kind), f) for f in ((0,) if q and w * k < 10 ** 7 else (0, 512 + 2))]
    run.conform_long("stacked renderings", items)


def memory(quick, thorough):
    """What calls leave allocated and how much they allocate: names of every kind, refused ones, large and expanding ones."""
    def family(run, q):
        rng = random.Random(f"{SEED}-{run.pid}-memory")
        g = gen.Gen(rng, size=12, refs=0.3, flaws=0.04, tpl=0.3, local=0.1)
        items = [(n, f) for n in LITS for f in ((0,) if q else (0, 1023, gen.flags(rng)))]
        for _ in range(quick if q else thorough):
            n = g.name() if rng.random() < 0.8 else rng.choice(LITS)
            x = rng.random()
            if x < 0.15:
                n = gen.mutate(rng, n, rng.choice(LITS))
            elif x < 0.25:
                n = n[:rng.randrange(len(n) + 1)]
            elif x < 0.3:
                n = gen.pump(rng, n, rng.choice([10, 30, 100]))[:3000]
            items.append((n, gen.flags(rng) if rng.random() < 0.5 else 0))
        run.remember("names of every kind", items)
        items = []
        for pre, op, mid, cl, end in DEEP:
            for k in (20, 150, 3000):
                items += [(pre + op * k + mid + cl * k + end, 0), (pre + op * k + mid + cl * k + end, 2), (pre + op * k + "9", 0)]
        for w in (100, 5000, 200000, (1 << 20) - 30, (1 << 20) + 30):
            for f in (0, 2):
                items += [("?" + "n" * w + "@@3HA", f), ("?x@@3V?$t@V" + "n" * w + "@@@@A", f), ("." + "?AV" + "n" * w + "@@", f)]
        for w, k in ((1000, 150), (10000, 100), (130000, 14), (600000, 60)):
            items += [(stacked(w, k if x == "templates" else k // 2, x), f) for f in (0, 2) for x in ("templates", "scopes", "symbols")]
        run.remember("deep and large names", items)
        run.remember("expanding names", [(expanding(l, k, t), f) for l in range(2, 7) for k in (1, 20, 150) for t in (1, 3) for f in (0, 2)], heavy=True)
    return family


def survive(run, q):
    """Anything at all is answered, in time: large, deep, repetitive, random names, on both builds."""
    rng = random.Random(f"{SEED}-{run.pid}-survive")
    g = gen.Gen(rng, uni=0.15, refs=0.3, tpl=0.3, local=0.15, size=8)
    scale = 1 if q else 12
    items = []
    soup = gen.SOUP + "".join(UNI) + "\0\n\t '\"\\<>"
    for _ in range(30000 * scale):
        x = rng.random()
        n = rng.choice(LITS) if rng.random() < 0.5 else g.name()
        if x < 0.6:
            n = gen.mutate(rng, n, rng.choice(LITS), soup if rng.random() < 0.5 else gen.SOUP)
        elif x < 0.7:
            n = n[:rng.randrange(len(n) + 1)]
        elif x < 0.8:
            i = rng.randrange(len(n) + 1)
            n = n[:i] + rng.choice(rng.choice([UNI, gen.ANY])) + n[i:]
        elif x < 0.86:
            n = "".join(chr(rng.choice([rng.randrange(128), rng.randrange(0x800), rng.randrange(0xd800), rng.randrange(0xe000, 0x110000)]))
                        for _ in range(rng.randrange(40)))
            n = rng.choice(["", "?", "??", "?$", ".", "??_C@_0", "?x@@3V?$"]) + n
        items.append((n, gen.flags(rng)))
    pumped = []
    for _ in range(600 * scale):
        n = rng.choice(LITS) if rng.random() < 0.5 else g.name()
        n = gen.pump(rng, n, rng.choice([30, 300, 400, 1000, 3000]))
        if rng.random() < 0.4:
            n = gen.pump(rng, n, rng.choice([2, 10, 200]))
        pumped.append((n[:60000], gen.flags(rng)))
    units = ["PA", "PEA", "QEB", "AEA", "P6A", "P6AX", "P8a@@AE", "PEQa@@", "Y0", "PAY01", "?$t@", "V?$t@", "?$t@V", "?$t@$1?x@@3V", "$1?x@@3V?$t@", "$$Y?$t@", "$$B", "$$CB",
             "?1??", "?1??f@", "??$f@$1", "?$t@$H?f@@YAXV", "??__E", "??__E?", "?A@", "a@", "0", "H", "?0", "?B", "?$?H", "?$?$", "??$", "$MH", "$MPA", "??_R0", "??@",
             "U?$a@U?$b@", "P6AXP6A", "$$A6A", "?AV?$t@", "$S", "$$V", "$0A@", "$0?0", "?$AA", "?", "@", "_", "W4?$e@", "T?$u@", "$$QEA", "?foo@", "é", "𠀀"]
    heads = ["", "?", "??", "?x@@3", "?f@@YAX", "?x@@3V", "?x@", "??_R0", "??_C@_0A@", "??$f@", ".", "??_7", "?f@@YA", "?x@@3V?$t@", "?f@a@@QAE"]
    for u in units:
        for h in heads:
            for n in (300, 385, 2200, 12000 if q else 30000):
                pumped.append((h + u * n + rng.choice(["", "H", "H@Z", "@@3HA", "A@@A", "@", "X"]), 0 if rng.random() < .6 else gen.flags(rng)))
    # expanding back-references
    for _ in range(200 * scale):
        n = "?f@@YAX" + rng.choice(["PEAH", "PEAHPEAD"])
        for i in range(rng.randrange(3, 11)):
            n += "P6AX" + "".join(str(rng.randrange(i + 1)) if rng.random() < .9 else "H" for _ in range(rng.choice([2, 5, 10, 30, 200]))) + "@Z"
        n += "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 5, 100, 1500]))) + "@Z"
        pumped.append((n, gen.flags(rng)))
        n = "?x@@3V"
        d = rng.randrange(2, 9)
        n += "".join(f"?$t{i}@V" for i in range(d)) + "z@@" + "".join("".join(f"V{rng.randrange(3)}@" for _ in range(rng.randrange(1, 12))) + "@@" for _ in range(d)) + "A"
        pumped.append((n, gen.flags(rng)))
    # long identifiers behind many references
    for k, r in ((1000, 900), (20000, 60), (50, 1800)):
        pumped.append(("?f@@YAXV" + "n" * k + "@@" + "V1@" * r + "@Z", 0))
        pumped.append(("?x@@3V" + "?$a@V" + "n" * k + "@@" + "V1@" * r + "@@A", 512))
    # and below many levels
    pumped += [(expanding(l, k, t), f) for l in range(2, 7) for k in (1, 60, 150) for t in (1, 2, 5) for f in (0, 2, 1023)]
    for kind in ("templates", "scopes", "symbols"):
        pumped += [(stacked(w, k, kind), f) for w, k in ((500, 150), (50000, 70), (600000, 60)) for f in (0, 2)]
    # numbers of every size wherever there is one
    items += [(numbered(rng), 0) for _ in range(6000 * scale)]
    rng.shuffle(items)
    run.rng = rng
    for binary, limit in ((run.binary, 1.5), (run.debug, 12.0)):
        todo = items + pumped
        if binary == run.debug:
            todo = todo[:12000 * scale] + pumped
        res = vlib.demangle_all(binary, todo, chunk=500, per_item_s=30.0, jobs=4)
        run.executed += len(todo)
        run.slowest = max([getattr(run, "slowest", 0)] + [us for o, t, us in res])
        print("slowest", sorted((us, len(it[0]), it[0][:40]) for it, (o, t, us) in zip(todo, res))[-3:], file=sys.stderr) if os.environ.get("SLOW") else 0
        for it, (o, t, us) in zip(todo, res):
            if o == "S":
                continue
            if o not in "OE":
                run.violation("survival", it[0], it[1], f"{o} {t} {'(debug build)' if binary == run.debug else ''} after {us} us",
                              "a result or an error", dict(length=len(it[0])))
            elif us > limit * 1e6:
                again = min(vlib.demangle_all(binary, [it] * 3, per_item_s=60.0, jobs=1), key=lambda r: r[2] or 1e12)
                if again[2] > limit * 1e6 or again[0] not in "OE":
                    run.violation("time", it[0], it[1], f"{again[0]} after {again[2]} us", f"an answer within {limit} s", dict(length=len(it[0])))
            elif o == "O" and len(t.encode()) >= 1 << 20:
                run.violation("size", it[0], it[1], f"{len(t)} characters", "less than one mebibyte")
    run.families.append(dict(family="survival", calls=len(items) + len(pumped)))
    # a sample of the short ones is judged in full
    some = [i for i in items if len(i[0]) < 200][:2500 * scale] + [i for i in pumped if len(i[0]) < 1500][:150 * scale]
    run.conform("survival, judged", some)


# ------------------------------------------------------------------ histories
BIG = "n" * 3000
GIANT = "?f@@YAXPEAV" + BIG + "@@" + "0" * 400 + "@Z"            # its output is too long


def pool(run, n):
    """Calls of every kind: [(name, flags)], with their kind."""
    rng = random.Random(f"{SEED}-{run.pid}-pool")
    g = gen.Gen(rng, uni=0.1, size=6)
    items = [(GIANT, 0), (GIANT, 1), ("?x@@3V?$t@$0" + "A" * 3 + "B@@@A", 0), ("", 0), ("?", 0), ("?x@@3HA", 0), ("?x@@3HA", 32), ("?x@@3HA", 512),
             ("???@@YAXXZ", 512), ("?" + "n" * 3000 + "@@3HA", 0), ("?" + "漢" * 700 + "@@3HA", 0)]
    items += [(GIANT.replace("f@", w + "@").replace("PEA", p), f) for w, p, f in (("g", "AEB", 0), ("é", "PEAPEA", 2))]
    while len(items) < n:
        x = rng.random()
        m = rng.choice(LITS) if rng.random() < 0.5 else g.name()
        if x < 0.3:
            m = gen.mutate(rng, m, rng.choice(LITS))
        items.append((m, gen.flags(rng)))
    # the same name under other flags, and names that share a beginning
    items += [(m, gen.flags(rng)) for m, _ in rng.sample(items[14:], n // 6)]
    items += [(m + "X", f) for m, f in rng.sample(items[14:], n // 12)]
    items = list(dict.fromkeys((m, f) for m, f in items if all(c in vlib.ALPHABET for c in vlib.to_spec(m))))
    res = vlib.demangle_all(run.binary, items)
    keep = [(it, r) for it, r in zip(items, res) if len(r[1]) < 40000]
    return [k[0] for k in keep], ["broken" if r[0] != "O" and BIG not in it[0] else "overflow" if r[0] != "O" else
                                  "empty" if r[1] == "" else "small" if len(r[1]) < 40 else "large" for it, r in keep]


class Recording:
    def __init__(self, calls):
        self.calls, self.texts, self.ids, self.events, self.lines = calls, [], {}, [], []

    def text(self, t):
        if len(t) > 100000:             # the calls of histories have short outputs, so this is wrong in any case
            t = f"{t[:300]} {len(t)}"
        if t not in self.ids:
            self.texts.append(t)
            self.ids[t] = len(self.texts)
        return self.ids[t]

    def new(self, b, cap, t):
        self.lines.append(f"B {b} {cap} {hexs(t)}")
        self.events.append(dict(w="new", b=b, t=t))

    def call(self, b, i):
        self.lines.append(f"I {b} {self.calls[i][1]} {hexs(self.calls[i][0])}")
        self.events.append(dict(w="call", b=b, i=i + 1))

    def use(self, b, t):
        self.lines.append(f"X {b} {hexs(t)}")
        self.events.append(dict(w="use", b=b, t=t))

    def fresh(self, i):
        self.lines.append(f"D {self.calls[i][1]} {hexs(self.calls[i][0])}")
        self.events.append(dict(w="fresh", i=i + 1))

    def execute(self, binary):
        out, end = vlib.run_lines(binary, self.lines, 300)
        for e, l in zip(self.events, out):
            w = l.split(" ")
            if e["w"] == "new":
                e["x"], e["c1"] = self.text(e.pop("t")), int(w[1])
            elif e["w"] == "call":
                e.update(r=w[0], c0=int(w[1]), c1=int(w[2]))
                try:
                    t = bytes.fromhex("" if w[3] == "-" else w[3]).decode()
                except UnicodeDecodeError:
                    t, e["r"] = "(not text)", "U"
                e["x"] = self.text(t)
            elif e["w"] == "use":
                t = unhexs(w[2])
                e["y"], e["x"] = self.text(e.pop("t")), self.text(t)
                e["c1"] = int(w[1])
            else:
                e.update(r=w[0], x=self.text(unhexs(w[2])))
        self.done = len(out)
        return end

    def judge(self, run, who):
        ev = self.events[:self.done]
        for e in ev:
            e.setdefault("b", "-")
        for t in self.texts:
            if any(c not in vlib.ALPHABET for c in vlib.to_spec(t)):
                run.violation(who, "(history)", 0, t[:300], "only characters of names and of the syntax")
                return
        path = os.path.join(vlib._tmp(), f"hist-{who.replace(' ', '-')}.json")
        with open(path, "w") as f:
            json.dump(dict(names=[dict(s=vlib.to_spec(n), k=k) for n, k in self.calls],
                           texts=[vlib.to_spec(t) for t in self.texts], events=ev), f)
        rc, out, err = vlib.tlc("ApiTrace.tla", "ApiTrace.cfg", {"TRACE": path}, workers=1)
        walked = vlib.printed(out, "WALKED")
        bad = vlib.printed(out, "MISMATCH")
        if rc != 0 or len(walked) != 1 or int(walked[0]) + len(bad) != len(ev):
            raise vlib.ToolError(f"ApiTrace gave no verdict: exit {rc} {walked} {len(bad)} of {len(ev)}\n" + out[-2000:])
        for l in bad:
            i, js = l.split(" ", 1)
            e, want = ev[int(i) - 1], json.loads(js)
            n, k = self.calls[e["i"] - 1] if "i" in e else ("(buffer)", 0)
            run.violation(who, n, k, dict(outcome=e.get("r"), holds=self.texts[e["x"] - 1][:300], capacity=[e.get("c0"), e.get("c1")]),
                          f"{'O' if want['ok'] else 'E'} {vlib.from_spec(want['t'])[:300]}, capacity not below the one before",
                          dict(step=int(i), history=[self.describe(x) for x in ev[max(0, int(i) - 6):int(i)]]))
        run.validated += len(ev)
        run.states += len(ev) + 1
        run.transitions += len(ev)
        run.families.append(dict(family=who, events=len(ev), calls=len(self.calls)))
        run.samples += [self.describe(e) for e in ev[:3]]

    def describe(self, e):
        return dict(step=e["w"], buffer=e["b"], call=self.calls[e["i"] - 1] if "i" in e else None, outcome=e.get("r"),
                    holds=self.texts[e["x"] - 1][:200], capacity=e.get("c1"))


def finish(run, rec, who, end):
    if end != "ok":
        e = rec.events[rec.done] if rec.done < len(rec.events) else {}
        n, k = rec.calls[e["i"] - 1] if "i" in e else ("(buffer)", 0)
        run.violation(who, n, k, end, "a result or an error")
    run.executed += rec.done
    rec.judge(run, who)


def histories(run, q):
    """Every short history of Api (ApiModel, breadth first), executed with calls of the right kinds."""
    cfg = os.path.join(vlib._tmp(), "ApiModel.cfg")
    with open(cfg, "w") as f:
        f.write(f"""SPECIFICATION MSpec
CONSTANTS MaxCalls = {3 if q else 4} Emit = TRUE Buffers <- Two Texts <- Held0 Rooms <- Rooms0 Calls <- Kinds Result <- Outcome Prefixes <- Pieces
INVARIANTS Exact RoomEnough Forgetful Emitted
PROPERTIES NeverShrinks HandedBack Apart
CHECK_DEADLOCK FALSE
""")
    rc, out, err = vlib.tlc("ApiModel.tla", cfg)
    if rc != 0:
        raise vlib.ToolError("ApiModel: " + out[-3000:])
    past = sorted(set(vlib.printed(out, "HIST")))
    a, b = vlib.stats(out)
    run.states += b
    run.transitions += a
    run.benches.append(dict(module="ApiModel", mode="breadth first", states=b, histories=len(past)))
    calls, kinds = pool(run, 120)
    by = {}
    for i, k in enumerate(kinds):
        by.setdefault(k, []).append(i)
    rng = random.Random(f"{SEED}-histories")
    if set(by) != {"broken", "overflow", "empty", "small", "large"}:
        # a kind may be missing on a changed tree; whatever there is, is exercised
        for k in ("broken", "overflow", "empty", "small", "large"):
            by.setdefault(k, list(range(len(calls))))
    rec = Recording(calls)
    for h, js in enumerate(past):
        for b in ("b1", "b2"):
            cap = rng.choice([0, 1, 7, 16, 64, 5000])
            rec.new(f"{h}{b}", cap, rng.choice(["", "", "old", "old contents of the buffer " * 3, "ä漢"]))
        for x in json.loads(js):
            if x["w"] == "call":
                rec.call(f"{h}{x['b']}", rng.choice(by[x["x"]]))
            else:
                rec.use(f"{h}{x['b']}", rng.choice([x["x"], "é", "中文"]))
    finish(run, rec, "short histories", rec.execute(run.binary))


def long_histories(run, q):
    calls, kinds = pool(run, 250 if q else 1500)
    rng = random.Random(f"{SEED}-long")
    rec = Recording(calls)
    names = [f"b{i}" for i in range(12)]
    made = set()
    for _ in range(9000 if q else 60000):
        b = rng.choice(names)
        x = rng.random()
        if b not in made:
            made.add(b)
            rec.new(b, rng.choice([0, 3, 100, 4000]), rng.choice(["", "x", "stale text"]))
        elif x < 0.6:
            rec.call(b, rng.randrange(len(calls)))
        elif x < 0.66:
            rec.call(b, 0)              # the output overflows
            rec.call(b, rng.randrange(len(calls)))
        elif x < 0.75:
            rec.use(b, rng.choice(["tail", "文", " "]))
        else:
            rec.fresh(rng.randrange(len(calls)))
    # immediately repeated, and sweeping through all of them
    for i in range(len(calls)):
        rec.fresh(i)
        rec.fresh(i)
    for i in reversed(range(len(calls))):
        rec.call(names[i % 12], i) if names[i % 12] in made else rec.fresh(i)
    finish(run, rec, "long history", rec.execute(run.binary))


def relatives(rng, g, n, m):
    """Names with others that are easily confused with them: [[(name, flags), ...], ...]."""
    out = []
    letters = "abcxyzABHDMXJ0123@$_?"
    while len(out) < n:
        name = g.name() if rng.random() < 0.4 else rng.choice(LITS)
        if rng.random() < 0.5:                       # a longer identifier keeps the beginnings of the relatives equal
            name = name.replace("@", rng.choice(["_or_something_longer_than_that@", "é" * 20 + "@", "x" * 70 + "@"]), 1)
        f = gen.flags(rng)
        group = [(name, f), (name, f ^ 1 << rng.randrange(10)), (name, 0), (name + rng.choice("@Z0Hx"), f), (name[:-1], f)]
        for _ in range(m):
            i = len(name) - 1 - min(int(rng.expovariate(0.2)), len(name) - 1) if rng.random() < 0.6 else rng.randrange(len(name))
            group.append((name[:i] + rng.choice(letters) + name[i + 1:], f))
            i, j = rng.randrange(len(name)), rng.randrange(len(name))
            l = list(name)
            l[i], l[j] = l[j], l[i]
            group.append(("".join(l), f))
        out.append(group)
    return out


def neighbours(run, q):
    """Calls that are easily confused with each other, right after each other and again later."""
    rng = random.Random(f"{SEED}-neighbours")
    groups = relatives(rng, gen.Gen(rng, uni=0.1, size=6), 160 if q else 1200, 4)
    calls = list(dict.fromkeys(c for g in groups for c in g if all(x in vlib.ALPHABET for x in vlib.to_spec(c[0]))))
    res = vlib.demangle_all(run.binary, calls)
    calls = [c for c, r in zip(calls, res) if len(r[1]) < 40000]
    at = {c: i for i, c in enumerate(calls)}
    rec = Recording(calls)
    rec.new("b", 10, "old")
    step = lambda i: rec.fresh(i) if rng.random() < 0.6 else rec.call("b", i)
    for g in groups:
        idx = [at[c] for c in g if c in at]
        for k in idx:
            step(k)
            step(idx[0])
        for _ in range(len(idx)):
            step(rng.choice(idx))
    for _ in range(500):
        step(rng.randrange(len(calls)))
    finish(run, rec, "neighbours", rec.execute(run.binary))


def concurrent(run, q):
    calls, kinds = pool(run, 250 if q else 1500)
    rng = random.Random(f"{SEED}-concurrent")
    for g in relatives(rng, gen.Gen(rng, size=6), 30 if q else 200, 2):
        calls += [c for c in g if c not in calls and all(x in vlib.ALPHABET for x in vlib.to_spec(c[0]))]
    res = vlib.demangle_all(run.binary, calls)
    calls = [c for c, r in zip(calls, res) if len(r[1]) < 40000]
    rec = Recording(calls)
    n, rounds = 8, 300 if q else 3000
    out, end = vlib.run_lines(run.binary, [f"D {k} {hexs(m)}" for m, k in calls], 600, args=("--threads", str(n), "--rounds", str(rounds)))
    if end != "ok":
        # which call it was is not known; the process as a whole did not survive
        run.violation("threads", "(concurrent calls)", 0, end, "every thread gets its outcomes")
    for l in out:
        w = l.split(" ")
        rec.events.append(dict(w="fresh", i=int(w[1]) + 1, r=w[2], x=rec.text(unhexs(w[3]))))
        run.executed += int(w[4])
    rec.done = len(rec.events)
    rec.judge(run, "threads")


# ------------------------------------------------------------------ every code in every place
PLACES = """?x@@3HA ?x@a@@2PEBHEB ?x@@3PAHA ?x@@3PEIFAHEIFA ?x@@3AAY112HA ?x@@3P6AHD@ZA ?x@@3P8a@@EBAHXZEQ1@ ?x@@3PQa@@HQ1@ ?x@@3Va@b@@A
?x@@3W4e@@A ?x@@3$$QEAHEA ?x@@3$$A6AXXZA ?x@@3P6AXPAY01H$$T@ZA ?x@@3V?$t@HVa@@@@A ?x@@3PA_WA ?f@@YAX_N_J_K_S_U_W@Z ??$f@$$BY01H$$A6AXXZ@@YAXXZ ?x@@3U?$t@$$V$$$V$$ZH@@A
?f@@YAXXZ ?f@@YAXHHZZ ?f@@YA?AVa@@PAH@Z ?f@a@@QEBAXPAH0@Z ?f@a@@SAXX_E ?f@a@@UEHAAXXZ ?f@a@@$4PPPPPPPM@3EAAXXZ ?f@a@@$R0A@7B@CA@EAAXXZ ?f@a@@W3AEXXZ
?f@a@@QEGAAXXZ ?f@@YAXP6AHPAD@Z_N1@Z ?f@@9 ?f@@YAXQEAH0@Z ?f@@$$J0YAXXZ ?f@@YGXPBDZZ ?f@a@@EAAXXZ
??0a@@QAE@XZ ??1a@@UAE@XZ ??Ba@@QEAAHXZ ??2@YAPAXI@Z ??_Ea@@UAEPAXI@Z ??_Fa@@QAEXXZ ??__La@@YAXXZ ??__K_x@@YAHK@Z ??__M@YAXXZ ??4a@@QAEAAV0@ABV0@@Z
??_7a@@6B@ ??_7a@@6Bb@c@@@ ??_8a@@7B@ ??_Sa@@6B0@@ ??_R4a@@6B@ ??_7?$t@H@@6Bb@@@ ??_R0?AVa@@@8 ??_R0PEAVa@@@8 ??_R17A@3EA@a@@8 ??_R2a@@8 ??_R3a@@8
??_9a@@$B7AA ??_9a@@$BM@AE ??_Ba@@51 ??__J?1??f@@YAXXZ@51 ??_B?1??f@@YAXXZ@4IA ??_C@_03ABCD@a?3b?$AA@ ??_C@_13JBC@?$AAa?$AA?$AA@ ??_9?$t@H@@$BBA@AA ??_Da@@QEAAXXZ
??__E?x@@0HA@@YAXXZ ??__Ex@@YAXXZ ??__F?x@a@@2V?$t@H@@A@@YAXXZ ??__Fx@a@@YAXXZ ??@0123456789abcdef0123456789abcdef@ ??@0123456789abcdef0123456789abcdef@??_R4@ .?AVa@@ .PEAH .?AW4e@b@@
??$f@H@@YAXH@Z ??$f@$0A@$1?g@@YAXXZ@@YAXXZ ??$f@$MH0A@@@YAXXZ ??$f@$E?x@@3HA@@YAXXZ ??$f@$HA@$IA@B@$JA@B@C@@@YAXXZ ??$f@$M_N00@@YAXXZ ??$f@$FA@1$G012@@YAXXZ
??_R1A@?0A@EA@a@@8 ?x@@3$$QBHB ??$f@$S$$VH@@YAXXZ ??$f@$$CBH$$Yt@@@@YAXXZ ??$f@$1?x@a@@2HA$H?g@a@@QAEXXZA@@@YAXXZ ??$f@V?$t@$0?B@@@_S@@YAXXZ ??$f@$MP6AXXZ1?g@@YAXXZ@@YAXXZ ??$f@$MP8a@@AEXXZH?g@a@@QAEXXZA@@@YAXXZ
?x@?1??f@@YAXXZ@4HA ?x@?CB@??f@a@@QAEXXZ@4HA ?x@?A0x1@@3HA ?x@?$t@H@a@@2HA ?x@?1???1a@@QEAA@XZ@4HA ?x@?Qi@@2HA ?f@?A@@YAXXZ ??R<lambda_1>@@QBE@XZ ?f@?b@@YAXXZ ?A@?B1@@YAXXZ""".split()


def places(quick, thorough):
    """Well-formed names of every production; at every position every character that is a code somewhere."""
    def family(run, q):
        rng = random.Random(f"{SEED}-{run.pid}-places")
        put, more, twice = [], [], []
        for n in PLACES:
            for i in range(len(n) + 1):
                if i < len(n):
                    put += [(n[:i] + ch + n[i + 1:], 0) for ch in CODES]
                    more.append((n[:i] + n[i + 1:], 0))
                more += [(n[:i] + ch + n[i:], 0) for ch in CODES]
                for k in (2, 3, 4, 5, 6):
                    if i + k <= len(n):                # a segment twice, missing, or swapped with its neighbour
                        twice.append((n[:i + k] + n[i:], 0))
                        twice.append((n[:i] + n[i + k:], 0))
                        twice.append((n[:i] + n[i + k:i + 2 * k] + n[i:i + k] + n[i + 2 * k:], 0))
        put = list(dict.fromkeys(put))
        more = list(dict.fromkeys(more))
        k = quick if q else thorough
        twice = list(dict.fromkeys(twice))
        run.conform("every code in every place", put)
        run.conform("segments twice, missing and swapped", twice)
        print(len(put), len(more), len(twice), file=sys.stderr) if os.environ.get("SLOW") else 0
        run.conform("additional and missing codes", more if len(more) <= k else rng.sample(more, k))
    return family


CODES = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789?@$_"


# ------------------------------------------------------------------ levels that are entered have to be left
UNITS = """H PEAH V?$u@H@@ Va@@ W4e@@ $0A@ $1?x@@3HA $1?f@@YAXXZ $H?f@@YAXXZA@ $FA@A@ $$BY01H $$CBH $$Yt@@ P6AXXZ P8a@@AEXXZ PEQa@@H $$A6AXXZ $$A8@@BAXXZ
AEAH $$QEAH ?foo@@ V0@ $MH0A@ $S $$V $E??@a@ $1??@a@ $E??_7a@@6B@ $E??_R2a@@8 $E??_R4a@@6B@ $E??_9a@@$BA@AE $E??__Ex@@YAXXZ $E??__E?x@@3HA@@YAXXZ
$E??__F?x@@3HA@@YAXXZ $E??_B?1??f@@YAXXZ@51 $E??_C@_01A@?$AA@ $E??_C@_13A@?$AA?$AA?$AA?$AA@ Vx@?1??f@@YAXXZ@ Vx@?A0x1@@ V?$u@$$V@@ $E??0a@@QAE@XZ $E??Ba@@QAEHXZ $E??__K_x@@YAXXZ $1??$f@H@@YAXXZ
$E?f@a@@$4PPPPPPPM@A@EAAXXZ $E?f@@9 V?$?RH@a@@ T?$u@V0@@@ P6AXPEAH0@Z P6AX_W0ZZ $1?x@?1??0a@@QAE@XZ@3HA PEAY112H""".split()


def levels(run, q):
    """Many siblings of every kind, then something deep: both well below the limits."""
    items = []
    for u in UNITS:
        for k, d in ((60, 340), (100, 330), (200, 200)) if q else ((60, 340), (100, 330), (150, 300), (200, 200), (300, 100), (340, 60)):
            items.append(("?x@@3V?$t@" + u * k + "PEA" * d + "H@@A", 0))
            items.append(("?x@@3V?$t@" + u * k + "V?$t@" * (d // 2) + "H" + "@@" * (d // 2) + "@@A", 0))
            if "$" not in u[:1]:
                items.append(("?f@@YAX" + u * k + "PEA" * d + "H@Z", 0))
    run.conform("siblings and then depth", items)


# ------------------------------------------------------------------ why a name is refused
DEEP = [("?x@@3", "PEA", "H", "", "A"), ("?x@@3V", "?$t@V", "a@@", "@@", "A"), ("?f@@YAX", "P6AX", "H", "@Z", "@Z"),
        ("?f@@YAX", "V?$t@H@@", "", "", "@Z"), ("?f@@YAX", "PEAH", "", "", "@Z"), ("?x@@3V?$t@", "$0A@", "", "", "@@A"),
        ("?x@", "?1??f@", "a@@3HA", "@YAXXZ", "@3HA"), ("?x@", "?$t@H@", "", "", "@3HA"), ("??__E", "?", "v@@3HA", "", "@YAXXZ"),
        ("?x@@3V?$t@", "$1?v@@3V?$t@", "H", "@@A", "@@A"), (".", "PEA", "H", "", ""), ("??_R0", "PEA", "H", "", "@8")]
AMISS = ["", "9", "V9@", "?", "_", "$", "\u00e9", "@@@@", "V?$u@9@@", "P6A9@Z", "V5@", "$0ABCDEFGHIJKLMNOPQ@"]


def refused(quick, thorough):
    """Names that are malformed, refer to nothing, or grow beyond a limit, in any order."""
    def family(run, q):
        rng = random.Random(f"{SEED}-{run.pid}-refused")
        g = gen.Gen(rng, size=6, refs=0.3, flaws=0.15)
        items = []
        for _ in range(quick if q else thorough):
            n = g.name() if rng.random() < 0.7 else rng.choice(LITS)
            x = rng.random()
            if x < 0.3:                 # a reference instead of something, often beyond the table
                i = rng.randrange(len(n) + 1)
                n = n[:i] + str(rng.randrange(10)) + n[i + rng.randrange(3):]
            elif x < 0.5:
                n = n[:rng.randrange(len(n) + 1)]
            elif x < 0.6:
                n = gen.mutate(rng, n, rng.choice(LITS))
            items.append((n, gen.flags(rng) if rng.random() < 0.3 else 0))
        run.conform("references to nothing, truncated and mutated names", items)
        items = []
        for pre, op, mid, cl, end in DEEP:
            for k in (40, 640, 2600) if q else (3, 40, 300, 640, 1200, 2600):
                for a in rng.sample(AMISS, 4) if q else AMISS:
                    items += [(pre + op * k + a + mid + cl * k + end, 0), (pre + op * k + mid + cl * k + a, 0),
                              (pre + op * k + mid + a + cl * k + end, 0)]
                items.append((pre + op * k + mid + cl * (k // 2), 0))
                items.append((pre + op * (k // 2) + "9" + op * (k - k // 2) + mid + cl * k + end, 0))
        for k in (2048, 4097, 9000):
            for a in AMISS:
                items.append((f"?f@@YAXPAH" + "0" * k + a, 0))
        # outputs too long, and something amiss before and after what makes them so
        wide = "V" + "n" * 8000 + "@@" + "0" * 150
        for a in AMISS:
            items += [(f"?f@@YAX{wide}{a}@Z", 0), (f"?f@@YAX{a}{wide}@Z", 0), (f"?f@@YAX{wide}@Z{a}", 0),
                      (f"?x@@3V?$t@P6AX{wide}@Z@{a}@A", 0), (f"?x@@3V?$t@P6AX{wide}@Z@@A{a}", 0),
                      (f"?x@?1??f@@YAX{wide}{a}@Z@3HA", 0), (f"?x@?1??f@@YAX{wide}@Z@{a}3HA", 0),
                      (f"??$f@P6AX{wide}@Z@@YAXXZ{a}", 0), (f"??$f@P6AX{wide}@Z@{a}YAXXZ", 512),
                      (f"?x@@3HA?f@@YAX{wide}{a}@Z", 0), (f"?f@@YAX{wide}@Z{a}", 512),
                      (f".P6AX{wide}@Z{a}", 0), (f"??__E?x@@3P6AX{wide}@ZA{a}@@YAXXZ", 0),
                      (f"??_R0P6AX{wide}@Z{a}@8", 0)]
        run.conform("limits and flaws together", list(dict.fromkeys(items)))
    return family
