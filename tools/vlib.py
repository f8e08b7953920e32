"""Shared machinery of the checks: the harness, TLC, text encoding, verdicts and evidence."""
import json, os, re, subprocess, sys, time, shutil, tempfile, hashlib, threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")

CHARS = json.load(open(os.path.join(SPEC, "chars.json")))
TO_STANDIN = {v: k for k, v in CHARS["astral"].items()}
FROM_STANDIN = CHARS["astral"]
ALPHABET = {r[0] for r in CHARS["rows"]}


def to_spec(t):
    return "".join(TO_STANDIN.get(c, c) for c in t)


def from_spec(t):
    return "".join(FROM_STANDIN.get(c, c) for c in t)


class ToolError(Exception):
    """The machinery failed: no verdict."""


def build(profile="release"):
    """Builds the harness against the current tree of /repo; returns the path of the binary."""
    target = os.path.join(BUILD, "target")
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable",
               RUSTC_WRAPPER="", CARGO_TARGET_DIR=target)
    env.setdefault("HOME", "/root")
    cmd = ["cargo", "build", "--offline", "--locked", "-q"] + (["--release"] if profile == "release" else [])
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("cargo build failed:\n" + p.stderr[-4000:])
    return os.path.join(target, "release" if profile == "release" else "debug", "undname-harness")


def hexs(t):
    return t.encode("utf-8").hex() or "-"


def unhexs(h):
    return "" if h == "-" else bytes.fromhex(h).decode("utf-8", "replace")


class Crash(Exception):
    pass


def run_lines(binary, lines, timeout, args=()):
    """Runs requests through one harness process; returns the replies and how the process ended
    ("ok", "died <signal>" or "timeout"): when not ok, the request after the last reply is to blame."""
    data = "".join(l + "\n" for l in lines).encode()
    p = subprocess.Popen([binary, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    end = "ok"
    try:
        out, _ = p.communicate(data, timeout=timeout)
        if p.returncode != 0:
            end = f"died {p.returncode}"
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        end = "timeout"
    return out.decode().splitlines(), end


def demangle_all(binary, items, chunk=4000, per_item_s=10.0, jobs=6, request="D"):
    """items: [(name, flags)].  Returns [(outcome, text, microseconds)]; outcome O, E, P (panic),
    K (the process died), T (no answer in time), or S (skipped after too many of these).  With request "K" the text of an error is its
    reason."""
    res = [None] * len(items)
    broken = []         # calls that hung or killed the process: after a few the rest is skipped (S)
    work = [list(range(i, min(i + chunk, len(items)))) for i in range(0, len(items), chunk)]
    lock = threading.Lock()

    def one(idx):
        while idx:
            if sum(10 if k == "T" else 1 for k in broken) > 60:
                for i in idx:
                    res[i] = ("S", "", 0)
                return
            lines = [f"{request} {items[i][1]} {hexs(items[i][0])}" for i in idx]
            out, end = run_lines(binary, lines, timeout=30 + per_item_s)
            for i, l in zip(idx, out):
                o, us, h = l.split(" ")
                res[i] = (o, unhexs(h), int(us))
            rest = idx[len(out):]
            if not rest:
                return
            if end == "timeout":
                # distinguish a slow batch from a hanging call
                out, end = run_lines(binary, [f"{request} {items[rest[0]][1]} {hexs(items[rest[0]][0])}"], per_item_s)
                if out:
                    o, us, h = out[0].split(" ")
                    res[rest[0]] = (o, unhexs(h), int(us))
                else:
                    res[rest[0]] = ("T", "", int(per_item_s * 1e6))
                    broken.append("T")
            elif end == "ok":
                raise ToolError("harness stopped early")
            else:
                res[rest[0]] = ("K", end, 0)
                broken.append("K")
            idx = rest[1:]

    def worker():
        while True:
            with lock:
                if not work:
                    return
                idx = work.pop()
            one(idx)

    errs = []

    def guarded():
        try:
            worker()
        except Exception as e:  # noqa: BLE001
            errs.append(e)

    ts = [threading.Thread(target=guarded) for _ in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise ToolError(f"harness: {errs[0]!r}")
    return res


def tlc(module, cfg, env=None, extra=(), timeout=800, workers=8, xmx="12g", xss="64m", simulate=None):
    """Runs TLC; returns its standard output."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=_tmp())
    cmd = ["java", f"-Xmx{xmx}", f"-Xss{xss}", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8",
           "-Dstdout.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg]
    if simulate:
        cmd += list(simulate)
    cmd += list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise ToolError(f"TLC {module} {cfg} timed out") from e
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


_TMP = None


def _tmp():
    global _TMP
    if _TMP is None:
        os.makedirs(BUILD, exist_ok=True)
        _TMP = tempfile.mkdtemp(prefix="run-", dir=BUILD)
        import atexit
        atexit.register(lambda: shutil.rmtree(_TMP, ignore_errors=True))
    return _TMP


def tla_unescape(t):
    """The inverse of how TLC prints a string."""
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(m[1], m[1]), t)


def printed(out, tag):
    """The payloads of the lines TLC printed as a string that starts with tag."""
    pre = '"' + tag + " "
    return [tla_unescape(l[len(pre):-1]) for l in out.split("\n") if l.startswith(pre) and l.endswith('"')]


def stats(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out):
        pass
    return (int(m[1].replace(",", "")), int(m[2].replace(",", ""))) if m else (0, 0)


def flags_to_spec(k):
    """Flags are a mask, or a text of names separated by commas."""
    return {"k": k, "n": []} if isinstance(k, int) else {"k": 0, "n": k.split(",")}


def memory(calls, lanes=64, timeout=800):
    """calls: [(name, flags, outcome, kept bytes, peak bytes, heavy)].  Has TLC decide which of them stay within what the
    specification allows; returns the others [(index, allowed peak in KiB)]."""
    path = os.path.join(_tmp(), f"trace-{time.time_ns()}.json")
    with open(path, "w") as f:
        json.dump([{"s": to_spec(n), **flags_to_spec(k), "r": r, "kept": kept, "peak": -(-peak // 1024), "heavy": heavy}
                   for n, k, r, kept, peak, heavy in calls], f)
    try:
        rc, out, err = tlc("Memory.tla", "Memory.cfg", {"TRACE": path}, timeout=timeout)
    finally:
        os.unlink(path)
    heaps = {}
    for l in printed(out, "LANE"):
        a, b = l.split()
        heaps[int(a)] = int(b)
    bad = []
    for l in printed(out, "MISMATCH"):
        i, js = l.split(" ", 1)
        bad.append((int(i) - 1, json.loads(js)["peak"]))
    if rc != 0 or len(heaps) != lanes or (any(heaps.values()) and not bad):
        raise ToolError(f"TLC gave no verdict on the memory of the calls (exit {rc}, lanes {len(heaps)})\n"
                        + out[-3000:] + err[-1000:])
    bad.sort()
    return bad


def conform(calls, lanes=64, timeout=800):
    """calls: [(name, flags, outcome, text)]; the text of an error is its reason, if it was asked for.  Has TLC decide which of them the specification allows;
    returns the mismatches [(index, expected outcome, expected text or reason)]."""
    if not calls:
        return []
    path = os.path.join(_tmp(), f"trace-{time.time_ns()}.json")
    with open(path, "w") as f:
        json.dump([{"s": to_spec(n), **flags_to_spec(k), "r": r, "t": to_spec(t)} for n, k, r, t in calls], f)
    try:
        rc, out, err = tlc("Conform.tla", "Conform.cfg", {"TRACE": path}, timeout=timeout)
    finally:
        os.unlink(path)
    lanes_seen = {}
    for l in printed(out, "LANE"):
        a, b = l.split()
        lanes_seen[int(a)] = int(b)
    bad = []
    for l in printed(out, "MISMATCH"):
        i, js = l.split(" ", 1)
        e = json.loads(js)
        bad.append((int(i) - 1, e["r"], from_spec(e["t"])))
    if rc != 0 or len(lanes_seen) != lanes or sum(lanes_seen.values()) + len(bad) != len(calls):
        raise ToolError(f"TLC gave no verdict on the recorded calls (exit {rc}, lanes {len(lanes_seen)}, "
                        f"good {sum(lanes_seen.values())}, bad {len(bad)}, calls {len(calls)})\n"
                        + out[-3000:] + err[-1000:])
    bad.sort()
    return bad
