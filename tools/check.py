#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's current tree with the TLA+ specification in spec/.

Two directions bind the specification and the implementation:
 - specification to code: TLC explores a workbench (breadth first, exhaustively within the stated bounds,
   or by simulation), checks the laws on the specification in every state, and prints each symbol with the
   outcome it has to have; every one is executed on the implementation and compared;
 - code to specification: executions of the implementation on generated, mutated and pumped names are
   recorded, and TLC decides (Conform, ApiTrace) whether the specification allows them.

Exit 0: held.  Exit 1: VIOLATION.  Exit 2: the machinery gave no verdict."""
import json, os, random, sys, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
import vlib
from vlib import ToolError, SEED, TIER
from plan import PLAN

QUICK = TIER != "thorough"
KNOWN = os.path.join(vlib.ROOT, "known-findings.txt")


class Run:
    def __init__(self, pid):
        self.pid, self.t0 = pid, time.time()
        self.states = self.transitions = self.validated = self.executed = 0
        self.samples, self.bad, self.benches, self.families = [], [], [], []
        self.lock = threading.Lock()
        self.binary = None
        self.debug = None
        self.reasons = PLAN[pid].get("reasons", False)      # whether the reasons of errors are judged, too

    def violation(self, what, name, flags, got, want, more=None):
        with self.lock:
            self.bad.append(dict(property=self.pid, what=what, name=name, flags=flags, got=got, want=want,
                                 **(more or {})))

    # ------------------------------------------------------------------ specification to code
    def bench(self, b, workers):
        """Runs TLC on one workbench; returns the vectors it printed."""
        mode = b.get("simulate")
        consts = dict(b["consts"], Emit=True, Lazy=not mode)
        cfg = os.path.join(vlib._tmp(), f"{b['module']}-{id(b)}.cfg")
        with open(cfg, "w") as f:
            f.write("INIT Init\nNEXT Next\nINVARIANT Lawful\nCHECK_DEADLOCK FALSE\nCONSTANTS\n")
            for k, v in consts.items():
                f.write(f"  {k} {tla(v)}\n")
        sim = ("-simulate", f"num={mode[0]}", "-depth", str(mode[1] + 1), "-seed", str(SEED * 7919 + mode[2])) \
            if mode else None
        # TLC simulates num behaviours per worker
        rc, out, err = vlib.tlc(b["module"] + ".tla", cfg, timeout=b.get("timeout", 800 if QUICK else 7200), workers=workers,
                                xmx=b.get("xmx", "4g"), simulate=sim)
        broken = vlib.printed(out, "BROKEN")
        if rc != 0 or broken:
            raise ToolError(f"{b['module']}: TLC exit {rc}; laws broken on the specification: {broken[:5]}\n"
                            + "\n".join(l for l in out.split("\n") if not l.startswith('"'))[-2500:] + err[-800:])
        gen_, dist = vlib.stats(out)
        if mode:
            import re
            m = re.findall(r"([\d,]+) states checked", out)
            gen_ = dist = int(m[-1].replace(",", "")) if m else 0
        vecs = [json.loads(x) for x in vlib.printed(out, "VEC")]
        longs = [json.loads(x) for x in vlib.printed(out, "LONG")]
        with self.lock:
            self.states += dist
            self.transitions += gen_
            self.benches.append(dict(module=b["module"], consts={k: str(v) for k, v in b["consts"].items()},
                                     mode="simulation" if mode else "breadth first", states=dist,
                                     vectors=len(vecs) + len(longs)))
        return b, vecs, longs

    def replay(self, b, vecs, longs):
        """Executes what a workbench printed on the implementation."""
        want = {}
        for v in vecs:
            for m in v["m"]:
                for f, x in zip(v["f"], v["x"]):
                    want[(vlib.from_spec(m), f)] = (x["r"], vlib.from_spec(x["t"]), x["w"])
        items = list(want)
        self.compare(b["module"], items, want)
        for v in longs:
            n, f = vlib.from_spec(v["m"]), v["f"]
            (o, t, _), = vlib.demangle_all(self.binary, [(n, f)])
            self.executed += 1
            if not (o == "O" and len(t) == v["n"]) and not (o == "E" and v["r"] == "F"):
                self.violation(b["module"], n, f, f"{o} of {len(t)} characters", f"{v['r']} of {v['n']} characters")
        if items:
            r = random.Random(SEED)
            for i in r.sample(range(len(items)), min(2, len(items))):
                self.samples.append(dict(name=items[i][0], flags=items[i][1], expected=want[items[i]], by=b["module"]))

    def compare(self, who, items, want):
        request = "K" if self.reasons else "D"
        for binary in (self.binary, self.debug):
            if binary is None:
                continue
            res = vlib.demangle_all(binary, items, request=request)
            for it, (o, t, us) in zip(items, res):
                if o == "S":
                    continue
                r, x, why = want[it]
                if self.reasons and o == "E" and r in "EF":
                    if t not in why:
                        self.violation(who, it[0], it[1], f"{o} {t}", f"{r} {' or '.join(why)}")
                    continue
                ok = (o == "E") if r == "E" else ((o == "O" and t == x) or (r == "F" and o == "E"))
                if not ok:
                    self.violation(who, it[0], it[1], f"{o} {t}"[:3000], f"{r} {x}"[:3000])
            self.executed += len(items)
        self.validated += len(items)

    # ------------------------------------------------------------------ code to specification
    def conform(self, who, items):
        """Executes the items and has TLC judge the recorded executions."""
        items = list(dict.fromkeys((n, f) for n, f in items if all(c in vlib.ALPHABET for c in vlib.to_spec(n))))
        res = vlib.demangle_all(self.binary, items, request="K" if self.reasons else "D")
        self.executed += len(items)
        calls, idx = [], []
        for i, (it, (o, t, us)) in enumerate(zip(items, res)):
            if o == "S":
                continue
            if o not in "OE":
                self.violation(who, it[0], it[1], f"{o} {t} after {us} us", "an outcome")
                continue
            if len(t) > 40000:
                continue                # too long for TLC's strings; lengths are judged by WbLimits
            if any(c not in vlib.ALPHABET for c in vlib.to_spec(t)):
                self.violation(who, it[0], it[1], f"{o} {t}"[:3000], "only characters of the name and the syntax")
                continue
            calls.append((it[0], it[1], o, t))
            idx.append(i)
        for j, r, t in vlib.conform(calls):
            n, f, o, got = calls[j]
            self.violation(who, n, f, f"{o} {got}"[:3000], f"{r} {t}"[:3000])
        with self.lock:
            self.validated += len(calls)
            self.states += len(calls)
            self.transitions += len(calls)
            self.families.append(dict(family=who, calls=len(calls), accepted=sum(c[2] == "O" for c in calls)))
            for c in calls[:2]:
                self.samples.append(dict(name=c[0], flags=c[1], outcome=c[2], text=c[3][:300], by=who))

    def conform_long(self, who, items):
        """As conform, for a few very long outputs."""
        res = vlib.demangle_all(self.binary, items, request="K" if self.reasons else "D")
        self.executed += len(items)
        calls = [(n, f, o, t) for (n, f), (o, t, _) in zip(items, res) if o != "S"]
        for j, r, t in vlib.conform(calls):
            n, f, o, got = calls[j]
            if o == "E":
                self.violation(who, n, f, f"{o} {got}"[:3000], f"{r} {t}"[:3000])
                continue
            self.violation(who, n, f, f"{o} of {len(got)} characters", f"{r} of {len(t)} characters")
        with self.lock:
            self.validated += len(calls)
            self.states += len(calls)
            self.transitions += len(calls)
            self.families.append(dict(family=who, calls=len(calls), accepted=sum(c[2] == "O" for c in calls)))

    # ------------------------------------------------------------------ memory
    def remember(self, who, items, heavy=False):
        """Measures the memory of the calls and has TLC judge it."""
        items = list(dict.fromkeys((n, f) for n, f in items if all(c in vlib.ALPHABET for c in vlib.to_spec(n))))
        calls = []
        for (n, f), (o, t, us) in zip(items, vlib.demangle_all(self.binary, items, request="M", per_item_s=60.0)):
            if o == "S":
                continue
            if o not in "OE":
                self.violation(who, n, f, f"{o} {t} after {us} us", "an outcome")
                continue
            kept, peak, _ = map(int, t.split())
            calls.append((n, f, o, kept, peak, heavy))
        for j, allowed in vlib.memory(calls):
            n, f, o, kept, peak, _ = calls[j]
            self.violation(who, n, f, f"{kept} bytes kept, {peak} bytes at most", f"0 bytes kept, {allowed} KiB at most", dict(length=len(n)))
        with self.lock:
            self.executed += 5 * len(items)
            self.validated += len(calls)
            self.states += len(calls)
            self.transitions += len(calls)
            self.families.append(dict(family=who, calls=len(calls), accepted=sum(c[2] == "O" for c in calls),
                                      most=max(c[4] for c in calls)))
            for c in calls[:2]:
                self.samples.append(dict(name=c[0][:300], flags=c[1], outcome=c[2], kept=c[3], peak=c[4], by=who))

    # ------------------------------------------------------------------ everything
    def run(self):
        p = PLAN[self.pid]
        tier = "quick" if QUICK else "thorough"
        self.binary = vlib.build("release")
        if p.get("debug"):
            self.debug = vlib.build("dev")
        errs = []
        # the workbenches share the processors; recorded executions are judged meanwhile
        benches = list(p.get(tier, p["quick"])(SEED))
        par = 2 if len(benches) > 1 else 1
        queue = list(enumerate(benches))

        def work():
            while True:
                with self.lock:
                    if not queue or errs:
                        return
                    _, b = queue.pop(0)
                try:
                    self.replay(*self.bench(b, b.get("workers", 8 // par)))
                except Exception as e:  # noqa: BLE001
                    errs.append(e)
                    return
        ts = [threading.Thread(target=work) for _ in range(par)]
        [t.start() for t in ts]
        for fam in p.get("families", []):
            if errs:
                break
            try:
                fam(self, QUICK)
            except Exception as e:  # noqa: BLE001
                errs.append(e)
        [t.join() for t in ts]
        if errs:
            if not self.bad:
                raise errs[0]
            print(f"note: {errs[0]}"[:500], file=sys.stderr)
        return self.report(tier)

    def report(self, tier):
        known = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN, encoding="utf-8"):
                l = l.strip()
                if l.startswith("finding: "):
                    known.append(json.loads(l[9:]))
        real, seen = [], set()
        for v in self.bad:
            k = next((k for k in known if k["property"] == self.pid and k["name"] == v["name"]
                      and k.get("flags") in (None, v["flags"]) and k.get("got") in (None, v["got"])), None)
            if k is None:
                real.append(v)
        for k in known:
            if k["property"] == self.pid and json.dumps(k) not in seen:
                seen.add(json.dumps(k))
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        os.makedirs(os.path.join(vlib.ROOT, "evidence"), exist_ok=True)
        ev = dict(property=self.pid, tier=tier, seed=SEED, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.validated, executions=self.executed,
                                workbenches=self.benches, recorded=self.families,
                                samples=self.samples[:12] or [dict(note="none")]),
                  assumptions=PLAN[self.pid].get("assumes", []),
                  wall_s=round(time.time() - self.t0, 2), violations=len(real))
        with open(os.path.join(vlib.ROOT, "evidence", self.pid + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        if real:
            # the smallest counterexample first
            real.sort(key=lambda v: (len(str(v["name"])), bin(v["flags"] or 0).count("1") if isinstance(v["flags"], int) else 10))
            d = os.path.join(vlib.BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}-{os.getpid()}.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump(dict(violations=real[:200], total=len(real)), f, ensure_ascii=False, indent=1)
            for v in real[:5]:
                print(f"  {v['what']}: {str(v['name'])[:300]!r} flags {v['flags']}\n    got      {str(v['got'])[:300]}\n"
                      f"    expected {str(v['want'])[:300]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"{self.pid}: held; {self.states} states, {self.validated} executions validated, "
              f"{self.executed} executed, {time.time() - self.t0:.1f} s")
        return 0


def tla(v):
    """A constant's value as TLC's configuration files write it."""
    if isinstance(v, bool):
        return "= TRUE" if v else "= FALSE"
    if isinstance(v, int):
        return f"= {v}"
    if isinstance(v, (set, frozenset, list)):
        return "= {" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in sorted(v)) + "}"
    if v.startswith("<-"):
        return v
    return f'= "{v}"'


if __name__ == "__main__":
    try:
        sys.exit(Run(sys.argv[1]).run())
    except ToolError as e:
        print(f"no verdict: {e}", file=sys.stderr)
        sys.exit(2)
