#!/usr/bin/env python3
"""Decides one property of /repo by deterministic simulation.

  check.py C01 [--tier quick|thorough]     run the check (VERIF_SEED, VERIF_TIER from the environment)
  check.py --replay out/C01-....trace      rebuild and replay a violation
  check.py --setup                         warm the build

Exit 0: held on everything explored.  Exit 1: a line "VIOLATION property=.. replay=..".  Exit 2: the check could not run.
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, FIRST_COMPLETED, wait

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
TARGET = os.path.join(SIM, "target")
OUT = os.path.join(HERE, "out")
EVID = os.path.join(HERE, "evidence")
CORES = max(2, min(8, os.cpu_count() or 8))
T0 = time.time()
CLAIMED = "C01 C02 C03 C04 C06 C07 C08 C09 C10 C11 C12 C13 C17 C19".split()
TRIPLE = "x86_64-unknown-linux-gnu"

# ------------------------------------------------------------------ configurations

class Cfg:
    def __init__(s, name, profile, feats=(), mode="plain"):
        s.name, s.profile, s.feats, s.mode, s.hook, s.bin = name, profile, tuple(feats), mode, True, None
    def kinds(s, common=False):
        return "0,1,2,3,5,6" if common else "0,0,0,1,2,3,3,5,6" + (",4,4" if "32_components" in s.feats else "")
    def desc(s):
        return {"profile": {"dbg": "debug assertions and overflow checks on", "release": "release"}[s.profile], "features": list(s.feats) or ["default"],
                "mode": {"plain": "simulated allocator", "asan": "AddressSanitizer, moving realloc", "miri": "Miri", "w32": "simulated allocator, 32-bit address space (wasm32 in node)"}[s.mode], "preset hook": s.hook}

F = {"e": "events", "3": "32_components", "w": "wrapping_version"}
def cfg(name):
    """dbg|rel|asan|miri|w32 followed by -e3w feature letters."""
    base, _, f = name.partition("-")
    return Cfg(name, "release" if base == "rel" else "dbg", [F[c] for c in f], base if base in ("asan", "miri", "w32") else "plain")
ALL16 = [p + ("-" + f if f else "") for p in ("dbg", "rel") for f in ("", "e", "3", "w", "e3", "ew", "3w", "e3w")]

QUICK_CFG = {"C03": ["dbg", "rel", "dbg-e3", "asan"], "C04": ["dbg", "rel", "dbg-e3", "asan"], "C10": ["dbg", "rel", "dbg-e", "asan", "w32"], "C12": ["dbg", "rel", "dbg-e3", "w32"],
             "C08": ["dbg", "rel", "dbg-ew"], "C17": ["dbg-e", "rel-e", "dbg-e3w"], "C19": ALL16}
QUICK_DEFAULT = ["dbg", "rel", "dbg-e3"]
THOROUGH = ALL16 + ["asan", "asan-e3", "miri", "w32", "w32-e3w"]

# (configuration, scenario, how many seeds)
SCEN = {
    "C01": [("rel", "deep", 3), ("dbg", "big", 6), ("rel", "big", 16), ("rel", "age", 8), ("dbg", "age", 4), ("rel", "limit", 1)],
    "C02": [("rel", "deep", 6), ("dbg", "deep", 2), ("dbg", "big", 8), ("rel", "big", 16)],
    "C03": [("dbg", "big", 4), ("rel", "big", 8), ("rel", "age", 4), ("asan", "big", 2), ("rel", "limit", 1)],
    "C04": [("dbg", "big", 4), ("rel", "big", 8), ("asan", "big", 2)],
    "C06": [("rel", "deep", 4), ("dbg", "deep", 1), ("dbg", "big", 8), ("rel", "big", 16), ("rel", "limit", 1), ("dbg", "limit", 1)],
    "C07": [("rel", "deep", 4), ("dbg", "deep", 1), ("dbg", "big", 8), ("rel", "big", 16), ("rel", "limit", 1)],
    "C08": [("rel", "deep", 3), ("dbg", "big", 6), ("rel", "big", 16), ("rel", "age", 10), ("rel", "limit", 1)],
    "C09": [("rel", "deep", 3), ("dbg", "big", 8), ("rel", "big", 16), ("rel", "age", 8), ("dbg", "age", 4), ("rel", "limit", 1)],
    "C10": [("w32", "layout", 6), ("rel", "deep", 2), ("rel", "limit", 1), ("rel", "big", 4)],
    "C11": [],
    "C12": [("w32", "layout", 6), ("rel", "deep", 3), ("rel", "limit", 3), ("dbg", "limit", 1), ("dbg", "big", 8), ("rel", "big", 16)],
    "C13": [("rel", "deep", 4), ("dbg", "deep", 1), ("dbg", "big", 8), ("rel", "big", 12), ("rel", "limit", 1)],
    "C17": [("rel-e", "age", 4), ("dbg-e", "age", 2), ("rel-e", "big", 12), ("dbg-e", "big", 6)],
    "C19": [],
}
QUICK_SEEDS = int(os.environ.get("SIM_SEEDS", "0")) or 9000       # per plain configuration
QUICK_SECS = float(os.environ.get("SIM_SECS", "0")) or 45         # cap on the search itself
CHUNK = 150

def env_for(c, hook):
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "RUSTDOCFLAGS"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu" if c.mode == "plain" else "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, c.name)
    f = (["--cfg gecs_verif"] if hook else []) + ["-Awarnings"]
    if c.mode == "asan": f += ["--cfg sim_move", "-Zsanitizer=address"]
    if c.mode == "miri": f += ["--cfg sim_plain"]
    if c.mode == "w32": f += ["-Cpanic=unwind", "-Ctarget-feature=+exception-handling", "-Clink-arg=-zstack-size=33554432", "-Clink-arg=--max-memory=4294967296"]
    e["RUSTFLAGS"] = " ".join(f)
    # Memory validity only: which references may coexist is judged by the simulator at the API level.
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows"
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"
    return e

VENDOR_LOCK = threading.Lock()
def vendor(e):
    """wasm32 comes without a prebuilt std here: it is built from rust-src, whose own dependencies are vendored there."""
    d = os.path.join(TARGET, "vendor")
    with VENDOR_LOCK:
        if not os.path.exists(os.path.join(d, "complete")):
            shutil.rmtree(d, ignore_errors=True)
            subprocess.run(["cargo", "vendor", "--offline", "--locked", d], cwd=SIM, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            root = subprocess.run(["rustc", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, text=True).stdout.strip()
            v = os.path.join(root, "lib/rustlib/src/rust/library/vendor")
            for x in os.listdir(v): os.symlink(os.path.join(v, x), os.path.join(d, "std-" + x))
            open(os.path.join(d, "complete"), "w").close()
    return ["--config", "source.crates-io.replace-with='v'", "--config", "source.v.directory='%s'" % d]

def build(c):
    """Builds the simulator against /repo's working tree; without the hook if the hook itself no longer builds."""
    last = ""
    for hook in (True, False):
        e = env_for(c, hook)
        feats = (["--features", ",".join(c.feats)] if c.feats else [])
        if c.mode == "miri":
            cmd = ["cargo", "miri", "run", "--offline"] + feats + ["--", "info"]
        else:
            cmd = ["cargo", "build", "--offline", "--profile", c.profile] + feats + (["--target", TRIPLE] if c.mode == "asan" else [])
            if c.mode == "w32":
                try: cmd += ["--target", "wasm32-unknown-unknown", "-Zbuild-std=std,panic_unwind"] + vendor(e)
                except OSError as x: return str(x)
        p = subprocess.run(cmd, cwd=SIM, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            c.hook = hook
            c.env = e
            if c.mode == "miri": c.bin = ["cargo", "miri", "run", "-q", "--offline"] + feats + ["--"]
            elif c.mode == "asan": c.bin = [os.path.join(TARGET, c.name, TRIPLE, c.profile, "sim")]
            elif c.mode == "w32": c.bin = ["node", "--no-warnings", os.path.join(SIM, "w32.js"), os.path.join(TARGET, c.name, "wasm32-unknown-unknown", c.profile, "sim.wasm")]
            else: c.bin = [os.path.join(TARGET, c.name, c.profile, "sim")]
            return None
        last = p.stdout
    return last

def build_all(names):
    cs = [cfg(n) for n in names]
    with ThreadPoolExecutor(CORES) as ex:
        errs = list(ex.map(build, cs))
    return cs, errs

def sim(c, args, stdin=None, timeout=None):
    try:
        return subprocess.run(c.bin + args, cwd=SIM, env=c.env, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(e.cmd, -14, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "")

def jlines(s):
    r = []
    for l in s.splitlines():
        if l.startswith("{"):
            try: r.append(json.loads(l))
            except ValueError: pass
    return r

# ------------------------------------------------------------------ known findings

def known_findings():
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=\"([^\"]*)\" (.*)", l.strip())
            if m: r.append(m.groups())
    return r

# ------------------------------------------------------------------ search

class Agg:
    def __init__(s):
        s.lock = threading.Lock()
        s.n = s.nontrivial = s.steps = s.oracle = 0
        s.tot, s.ops, s.fired, s.known, s.percfg = {}, {}, {}, {}, {}
        s.sched, s.hist, s.samples, s.states = set(), set(), [], bytearray(1 << 21)
        s.max_len = 0
    def add(s, prop, c, d):
        with s.lock:
            s.n += 1
            s.percfg[c.name] = s.percfg.get(c.name, 0) + 1
            s.steps += d["steps"]; s.oracle += d["oracle"]
            s.max_len = max(s.max_len, d.get("max_len", 0))
            for k in ("visits", "lookups", "lib_panics", "overflow", "conflict", "forged", "foreign", "stale", "relocs", "presets", "clones", "breaks", "wc_refused", "debug_rejects", "alias_refused", "alias_granted", "growths"):
                s.tot[k] = s.tot.get(k, 0) + d.get(k, 0)
            for src, dst in ((d["ops"], s.ops), (d["fired"], s.fired), (d.get("known", {}), s.known)):
                for k, v in src.items(): dst[k] = dst.get(k, 0) + v
            s.sched.add(d["sched"])
            if nontrivial(prop, d):
                s.nontrivial += 1
                s.hist.add((d["sched"], d["dig"]))
                if len(s.samples) < 3: s.samples.append({"config": c.name, "seed": d["seed"], "steps": d["steps"], "oracle_checks": d["oracle"], "digest": d["dig"], "ops": {k: v for k, v in d["ops"].items() if v}, "faults": {k: v for k, v in d["fired"].items() if v}})
    def merge_states(s, path):
        try: b = open(path, "rb").read()
        except OSError: return
        with s.lock:
            x = int.from_bytes(s.states, "little") | int.from_bytes(b, "little")
            s.states = bytearray(x.to_bytes(len(s.states), "little"))

RULES = {
    "C01": ("a handle of a destroyed entity was looked up and entities were relocated by a swap-remove", lambda d: d["stale"] > 0 and d["relocs"] > 0),
    "C02": ("entities were relocated or the storage grew while values were being compared", lambda d: (d["relocs"] > 0 or d["growths"] > 0) and d["lookups"] + d["visits"] > 0),
    "C03": ("at least one forged, converted or foreign handle was delivered", lambda d: d["forged"] + d["foreign"] > 0),
    "C04": ("entities were removed or a world was cloned or dropped midway", lambda d: d["relocs"] + d["clones"] + d["ops"]["dropw"] + d["ops"]["unwinddrop"] > 0),
    "C06": ("an iteration visited at least one entity after a relocation or growth", lambda d: d["visits"] > 0 and d["relocs"] + d["growths"] > 0),
    "C07": ("ecs_iter_destroy! ran and visited entities", lambda d: d["ops"]["iterd"] > 0 and d["visits"] > 0),
    "C08": ("positions were reused (creations after removals)", lambda d: d["ops"]["create"] + d["ops"]["createwc"] > 1 and d["ops"]["destroy"] + d["ops"]["drain"] + d["ops"]["iterd"] > 0),
    "C09": ("direct handles were issued and used again later", lambda d: d["ops"]["todirect"] > 0 and d["ops"]["probed"] + d["ops"]["findd"] + d["ops"]["destroyd"] > 0),
    "C10": ("at least one panic (injected or raised by the library) escaped an operation and the world was used on", lambda d: sum(d["fired"].values()) + d["overflow"] + d["conflict"] > 0),
    "C11": ("at least one borrow was requested while others were held", lambda d: d["alias_refused"] + d["alias_granted"] > 0),
    "C12": ("a creation was refused for lack of capacity, or the storage grew", lambda d: d["wc_refused"] + d["growths"] > 0),
    "C13": ("a world was cloned and at least one of the two was used afterwards", lambda d: d["clones"] > 0 and d["steps"] > 10),
    "C17": ("events were logged and cleared", lambda d: d["ops"]["clear"] > 0 and d["ops"]["create"] > 0),
    "C19": ("the history created and removed entities", lambda d: d["ops"]["create"] > 0 and d["ops"]["destroy"] + d["ops"]["drain"] + d["ops"]["iterd"] > 0),
}
def nontrivial(p, d): return RULES[p][1](d)

class Bad:
    """A run that ended with a violation (or a crash)."""
    def __init__(s, c, d, args): s.c, s.d, s.args, s.seed = c, d, args, d.get("seed"); s.crash = "crash" in d; s.props = d.get("props", "").split(","); s.base = d.get("base", "").split(",")

def run_chunk(prop, c, s0, n, kinds, agg, extra, tmp, secs=60, steps=0):
    st = os.path.join(tmp, "states.%s.%d" % (c.name, s0))
    args = ["run", "--prop", prop, "--seed0", str(s0), "--count", str(n), "--kinds", kinds, "--secs", str(secs)] + extra
    if steps: args += ["--steps", str(steps)]
    res = []
    if c.mode == "miri":
        # No fork under Miri: one seed per process; anything but a clean end is a finding.
        for k in range(n):
            a = ["run", "--prop", prop, "--seed0", str(s0 + k), "--count", "1", "--kinds", kinds, "--no-fork", "--steps", str(steps or 25)] + extra
            p = sim(c, a, timeout=secs)
            ls = jlines(p.stdout)
            if ls: d = ls[0]
            elif p.returncode == -14: continue
            else:
                m = re.search(r"error: (Undefined Behavior[^\n]*|[^\n]*)", p.stderr)
                d = {"seed": s0 + k, "crash": "miri: " + (m.group(1) if m else p.stderr[-200:])}
            if "ok" in d: agg.add(prop, c, d)
            else: res.append(Bad(c, d, a))
        return res
    p = sim(c, args + ["--states", st], timeout=max(600, secs * 3))
    ls = jlines(p.stdout)
    for d in ls:
        if "ok" in d: agg.add(prop, c, d)
        else: res.append(Bad(c, d, args))
    if not ls: raise RuntimeError("simulator produced nothing: %s %s" % (" ".join(args), p.stderr[-500:]))
    agg.merge_states(st)
    if os.path.exists(st): os.unlink(st)
    return res

def search(prop, jobs, stop, deadline):
    """jobs: callables returning a list of Bad. Stops early once stop(bads) says so."""
    bads, done, n = [], 0, len(jobs)
    with ThreadPoolExecutor(CORES) as ex:
        it = iter(jobs)
        live = set()
        halted = False
        while True:
            while not halted and len(live) < CORES and time.time() < deadline:
                j = next(it, None)
                if j is None: halted = True; break
                live.add(ex.submit(j))
            if not live: break
            fin, live = wait(live, return_when=FIRST_COMPLETED)
            for f in fin: bads += f.result(); done += 1
            if stop(bads): halted = True
    return bads, done, n

# ------------------------------------------------------------------ traces

class Trace:
    def __init__(s, header, lines): s.header, s.lines = header, lines
    def text(s): return "\n".join(s.header + s.lines) + "\n"

def one_seed_args(b):
    a = list(b.args)
    if b.args[0] != "run": return a
    a[a.index("--seed0") + 1] = str(b.seed)
    a[a.index("--count") + 1] = "1"
    return a

def get_trace(b, tmp):
    """The concrete step list of a bad run."""
    if b.args[0] == "scen": return Trace([], ["!scenario " + " ".join(x for x in b.args if "=" in x)])
    nov = "--no-overflow" in b.args
    if not b.crash: return Trace(["!finish=%d no_overflow=%d" % (b.d["finish"], nov)], b.d["trace"].split("\n"))
    f = os.path.join(tmp, "live.%d" % b.seed)
    sim(b.c, one_seed_args(b) + ["--live", f], timeout=120)
    ls = open(f).read().splitlines()
    return Trace([l for l in ls if l.startswith("!")], [l for l in ls if not l.startswith("!")])

def verdicts(c, texts, extra=(), secs=20):
    """Replays many candidates, in parallel."""
    if not texts: return []
    if c.mode == "miri":
        def one(t):
            f = tempfile.NamedTemporaryFile("w", suffix=".trace", delete=False); f.write(t); f.close()
            p = sim(c, ["replay", f.name, "--no-fork"] + list(extra), timeout=300)
            os.unlink(f.name)
            ls = jlines(p.stdout)
            return ls[0] if ls else {"fail": 1, "crash": 1, "props": "", "msg": "miri: " + (re.search(r"error: ([^\n]*)", p.stderr) or [0, p.stderr[-200:]])[1]}
        with ThreadPoolExecutor(CORES) as ex: return list(ex.map(one, texts))
    k = min(CORES, len(texts))
    parts = [texts[i::k] for i in range(k)]
    def go(p):
        r = jlines(sim(c, ["replays", "--secs", str(secs)] + list(extra), "%%\n".join(p), timeout=secs * len(p) + 60).stdout)
        return r + [{"ok": 1}] * (len(p) - len(r))
    with ThreadPoolExecutor(k) as ex: rs = list(ex.map(go, parts))
    out = [None] * len(texts)
    for i in range(k):
        for j, v in enumerate(rs[i]): out[i + j * k] = v
    return out

class Judge:
    """Does a replay show a violation of `prop` (and not merely of something else)?"""
    def __init__(s, prop, c, crash, strict): s.prop, s.c, s.crash, s.extra = prop, c, crash, (["--strict-known"] if strict else [])
    def hit(s, v):
        if "ok" in v: return False
        if v.get("crash"): return True
        return s.prop in v.get("props", "").split(",")
    def needs(s, v):
        """Twin runs that must not fail, if the violation is only in the shadow of a panic (C10) or a clone (C13)."""
        if v.get("crash"): ctx = True
        else: ctx = s.prop not in v.get("base", "").split(",")
        if not ctx: return []
        if s.prop == "C10": return [["--nofault"]]
        if s.prop == "C13": return [["--cloneaway", "1"], ["--cloneaway", "2"]]
        return []
    def many(s, texts):
        vs = verdicts(s.c, texts, s.extra)
        ok = [s.hit(v) for v in vs]
        for twin in ((["--nofault"],) if s.prop == "C10" else (["--cloneaway", "1"], ["--cloneaway", "2"]) if s.prop == "C13" else ()):
            ix = [i for i in range(len(texts)) if ok[i] and twin in s.needs(vs[i])]
            for i, v in zip(ix, verdicts(s.c, [texts[i] for i in ix], s.extra + twin)):
                if "ok" not in v: ok[i] = False
        return [v if o else None for o, v in zip(ok, vs)]

def minimise(j, t, deadline):
    cur = t
    if len(t.lines) <= 1 or t.lines[0].startswith("!scenario"): return cur, 0
    tried = 0
    n = 2
    while len(cur.lines) > 1 and time.time() < deadline:
        size = max(1, len(cur.lines) // n)
        cands = [Trace(cur.header, cur.lines[:i] + cur.lines[i + size:]) for i in range(0, len(cur.lines), size)]
        found = None
        for k in range(0, len(cands), 64):
            rs = j.many([c.text() for c in cands[k:k + 64]])
            tried += len(rs)
            good = [c for c, r in zip(cands[k:k + 64], rs) if r]
            if good: found = good[-1]; break
            if time.time() > deadline: break
        if found: cur = found; n = max(2, n - 1)
        elif size == 1: break
        else: n = min(len(cur.lines), n * 2)
    # Then the numbers: fewer entities, fewer scheduling points inside a borrow phase.
    changed = True
    while changed and time.time() < deadline:
        changed = False
        cands = []
        for i, l in enumerate(cur.lines):
            p = l.split()
            def put(k, v):
                q = p[:]; q[k] = str(v); cands.append(Trace(cur.header, cur.lines[:i] + [" ".join(q)] + cur.lines[i + 1:]))
            if p[1] in ("create", "createwc") and int(p[5]) > 1: put(5, 1); put(5, int(p[5]) // 2); put(5, int(p[5]) - 1)
            if p[1] == "drain" and int(p[4]) > 1: put(4, 1); put(4, int(p[4]) - 1) if int(p[4]) < 20 else None
            if p[1] == "bp":
                m, k = int(p[4]), int(p[3])
                if k > 1: put(3, k - 1); put(3, k // 2)
                for b in range(min(k, 64)):
                    if m >> b & 1: put(4, m & ~(1 << b))
            if p[1] == "arm" and int(p[3]) > 1: put(3, 1); put(3, int(p[3]) - 1)
            if p[0] != "t0": q = p[:]; q[0] = "t0"; cands.append(Trace(cur.header, cur.lines[:i] + [" ".join(q)] + cur.lines[i + 1:]))
        for k in range(0, len(cands), 64):
            rs = j.many([c.text() for c in cands[k:k + 64]]); tried += len(rs)
            good = [c for c, r in zip(cands[k:k + 64], rs) if r]
            if good: cur = good[0]; changed = True; break
            if time.time() > deadline: break
    return cur, tried

def report(prop, b, t, v, note, orig_len, tried):
    os.makedirs(OUT, exist_ok=True)
    kind = v.get("msg", "")
    name = "%s-%s-%s.trace" % (prop, b.c.name, b.seed if b.seed is not None else "scen")
    p = os.path.join(OUT, name)
    head = ["# property %s" % prop, "# config %s" % b.c.name, "# found by: sim %s" % " ".join(one_seed_args(b)),
            "# violation: %s" % kind.replace("\n", " "), "# minimised from %d to %d steps in %d replays" % (orig_len, len(t.lines), tried)]
    if note: head.append("# " + note)
    head.append("# replay with: python3 %s --replay %s" % (os.path.join(HERE, "check.py"), p))
    with open(p, "w") as f: f.write("\n".join(head) + "\n" + t.text())
    return p

def confirm(prop, bads, tmp, strict, deadline):
    """Turns candidates into one confirmed, minimised, reproducible violation."""
    dismissed = {}
    bads = sorted(bads, key=lambda b: (b.crash, b.c.mode == "miri", len(b.d.get("trace", "x" * 10000))))
    for b in bads[:60]:
        if time.time() > deadline: break
        if b.args[0] == "scen":
            v = {"fail": 1, "msg": b.d.get("msg") or b.d.get("crash", "")}
            t = get_trace(b, tmp)
            return report(prop, b, t, v, None, 1, 0), v, dismissed
        j = Judge(prop, b.c, b.crash, strict)
        t = get_trace(b, tmp)
        v = j.many([t.text()])[0]
        if not v:
            raw = verdicts(b.c, [t.text()], j.extra)[0]
            why = "does not replay" if "ok" in raw else "also fails without the fault/clone"
            dismissed[why] = dismissed.get(why, 0) + 1
            if "ok" in raw:
                # The step list alone does not show it: fall back to the seed itself, if that is repeatable.
                p = sim(b.c, one_seed_args(b), timeout=180)
                ls = jlines(p.stdout)
                if ls and "ok" not in ls[0]:
                    t = Trace([], ["!seedrun " + " ".join(one_seed_args(b)[1:])])
                    return report(prop, b, t, {"msg": ls[0].get("msg") or ls[0].get("crash", "")}, "repeatable by seed only", 1, 0), ls[0], dismissed
            continue
        n0 = len(t.lines)
        t, tried = minimise(j, t, min(deadline, time.time() + (40 if b.c.mode != "miri" else 120)))
        v2 = j.many([t.text(), t.text()])
        if not v2[0] or v2[0] != v2[1]:
            dismissed["minimised trace is not stable"] = dismissed.get("minimised trace is not stable", 0) + 1
            if not v2[0]: continue
        return report(prop, b, t, v2[0], None, n0, tried), v2[0], dismissed
    return None, None, dismissed

# ------------------------------------------------------------------ checks

def seed_base(seed): return (seed & 0x7fffffff) * 10_000_000 + 1

def scen_job(prop, c, kind, seed, stats):
    def job():
        a = ["scen", "kind=" + kind, "seed=%d" % seed]
        ls = jlines(sim(c, a + ["--secs", "800"], timeout=900).stdout)
        if not ls: raise RuntimeError("scenario produced nothing")
        d = ls[0]
        stats.append({"scenario": kind, "config": c.name, "seed": seed, "oracle_checks": d.get("oracle"), "ok": "ok" in d})
        if "ok" in d: return []
        d["seed"] = None
        return [Bad(c, d, a)]
    return job

def mine(prop, b): return b.crash or prop in b.props

def run_check(prop, tier, seed):
    thorough = tier == "thorough"
    names = THOROUGH if thorough else QUICK_CFG.get(prop, QUICK_DEFAULT)
    if prop == "C17": names = [n for n in names if "e" in n.partition("-")[2]]
    log("building %s" % " ".join(names))
    tb = time.time()
    cs, errs = build_all(names)
    tb = time.time() - tb
    tmp = tempfile.mkdtemp(prefix="gecs-sim-")
    agg, scen_stats = Agg(), []
    viol, extra_cov = [], {}
    try:
        bad_build = [(c, e) for c, e in zip(cs, errs) if e]
        if bad_build:
            # Only C19 has something to say about a configuration that no longer builds (while others do).
            if prop == "C19" and any(not e for c, e in zip(cs, errs) if c.mode == "plain") and not errs[names.index("dbg")]:
                c, e = next((c, e) for c, e in bad_build if c.mode == "plain") if any(c.mode == "plain" for c, _ in bad_build) else (None, None)
                if c:
                    b = Bad(c, {"seed": None, "props": "C19"}, ["build"])
                    t = Trace([], ["!build " + c.name])
                    viol.append((report(prop, b, t, {"msg": "does not build in this configuration: " + first_error(e)}, None, 1, 0), {"msg": "configuration %s does not build: %s" % (c.name, first_error(e))}))
            if not viol:
                plain_bad = [x for x in bad_build if x[0].mode == "plain"]
                if plain_bad:
                    log(plain_bad[0][1][-3000:])
                    log("cannot build configuration %s" % plain_bad[0][0].name)
                    return 2
                extra_cov["configurations_that_could_not_be_built"] = [c.name for c, _ in bad_build]
                cs = [c for c in cs if c.bin]
                names = [c.name for c in cs]
        cmap = {c.name: c for c in cs}
        strict = prop == "C03" and not [k for k in known_findings() if k[0] == "C03"]
        ts = time.time()
        if viol: bads = []
        elif prop == "C19": bads = check19(cs, seed, thorough, agg, tmp, extra_cov, viol)
        else:
            bads = explore(prop, cs, seed, thorough, agg, tmp, strict, scen_stats, cmap)
        tsearch = time.time() - ts
        if not viol:
            own = [b for b in bads if mine(prop, b)]
            others = {}
            for b in bads:
                if not mine(prop, b): others[",".join(b.props)] = others.get(",".join(b.props), 0) + 1
            if own and prop != "C19":
                r, v, dis = confirm(prop, own, tmp, strict, time.time() + (240 if not thorough else 1200))
                if r: viol.append((r, v))
                extra_cov["candidates_dismissed"] = dis
            if others: extra_cov["runs_stopped_by_violations_of_other_properties"] = others
        if not viol and not agg.n: log("no run completed"); 
        # The simulator itself must be deterministic, or no seed means anything.
        det = determinism(prop, cs, seed, agg, tmp) if not viol else None
        if det is False: log("simulator is not deterministic"); return 2
        evidence(prop, tier, seed, cs, agg, scen_stats, extra_cov, viol, tb, tsearch, det)
        for p, key, text in known_findings():
            if p == prop and agg.known.get(key, 0) > 0: print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (p, text, agg.known[key]))
            elif p == prop: print("KNOWN-FINDING: property=%s %s (not met in this run)" % (p, text))
        for r, v in viol:
            print("VIOLATION property=%s replay=%s" % (prop, r))
            print("  " + v.get("msg", v.get("crash", "")))
        if not viol:
            if not agg.n: return 2
            print("OK property=%s runs=%d steps=%d oracle_checks=%d wall=%.0fs" % (prop, agg.n, agg.steps, agg.oracle, time.time() - T0))
        return 1 if viol else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def first_error(e):
    m = re.search(r"^error[^\n]*", e, re.M)
    return m.group(0) if m else e[-200:]

def explore(prop, cs, seed, thorough, agg, tmp, strict, scen_stats, cmap):
    base = seed_base(seed)
    jobs, per = [], []
    extra = ["--strict-known"] if strict else []
    for i, c in enumerate(cs):
        s0 = base + i * 500_000
        l = []
        if c.mode == "miri":
            for k in range(24 if thorough else 8): l.append(lambda c=c, s=s0 + k: run_chunk(prop, c, s, 1, c.kinds(), agg, extra, tmp, secs=400, steps=30))
        else:
            n = QUICK_SEEDS * (12 if thorough else 1)
            if c.mode == "asan": n //= 3
            if c.mode == "w32": n //= 6
            for k in range(0, n, CHUNK): l.append(lambda c=c, s=s0 + k: run_chunk(prop, c, s, CHUNK, c.kinds(), agg, extra, tmp))
        per.append(l)
    first = []
    for name, kind, n in SCEN[prop]:
        if name not in cmap: continue
        for k in range(n * (4 if thorough else 1)): first.append(scen_job(prop, cmap[name], kind, (seed & 0xffff) * 97 + k, scen_stats))
    if thorough and prop in ("C01", "C08", "C09", "C10", "C12"):
        for n in ("rel", "rel-w", "rel-e"):
            if n in cmap: first.insert(0, scen_job(prop, cmap[n], "age32", 1, scen_stats))
    # The limit scenarios need a gigabyte each: spread them out.
    jobs = []
    while any(per):
        for l in per:
            if l: jobs.append(l.pop(0))
    step = max(1, len(jobs) // (len(first) * 3 + 1))
    for i, f in enumerate(first): jobs.insert(min(len(jobs), i * (step + 1)), f)
    stop = lambda bads: len([b for b in bads if mine(prop, b)]) >= (12 if prop in ("C10", "C13") else 4)
    bads, done, n = search(prop, jobs, stop, time.time() + (QUICK_SECS if not thorough else 2400))
    agg.jobs = (done, n)
    return bads

def determinism(prop, cs, seed, agg, tmp):
    """The same seeds again, in a fresh process: same digests, or nothing here means anything."""
    c = next(c for c in cs if c.mode == "plain")
    a = ["run", "--prop", prop, "--seed0", str(seed_base(seed)), "--count", "40", "--kinds", c.kinds()]
    r = [[(d.get("dig"), d.get("sched"), d.get("steps"), d.get("msg")) for d in jlines(sim(c, a, timeout=300).stdout)] for _ in range(2)]
    return r[0] == r[1] and len(r[0])

# C19: the same histories in every configuration.

def check19(cs, seed, thorough, agg, tmp, cov, viol):
    base = seed_base(seed)
    plain = [c for c in cs if c.mode == "plain"]
    res = {}     # (phase, seed) -> {config: dict}
    lock = threading.Lock()
    n = (3000 if thorough else 600)
    profs = ["C19", "C01", "C10", "C13"] + (["C02", "C09", "C12", "C11", "C07", "C06", "C04"] if thorough else [])
    wprofs = ["C08", "C10", "C09"] + (["C01", "C13", "C12"] if thorough else [])
    jobs = []
    def job(phase, prof, c, s0, cnt, kinds, extra):
        def go():
            st = os.path.join(tmp, "st.%s.%s.%s.%d" % (phase, prof, c.name, s0))
            a = ["run", "--prop", prof, "--seed0", str(s0), "--count", str(cnt), "--kinds", kinds, "--max-bad", "40", "--states", st] + extra
            p = sim(c, a, timeout=900)
            ls = jlines(p.stdout)
            if not ls: raise RuntimeError("simulator produced nothing: " + p.stderr[-500:])
            for d in ls:
                d["_args"] = a
                if "ok" in d: agg.add("C19", c, d)
                with lock: res.setdefault((phase, prof, d["seed"]), {})[c.name] = d
            agg.merge_states(st)
            if os.path.exists(st): os.unlink(st)
            return []
        return go
    for k in range(0, n, CHUNK):
        for prof in profs:
            for c in plain: jobs.append(job("same", prof, c, base + k, CHUNK, "0,1,2,3,5,6", ["--no-overflow"]))
        if k < n // 2:
            for prof in wprofs:
                for c in plain: jobs.append(job("overflow", prof, c, base + 1_000_000 + k, CHUNK, "0,1,2,3,5,6", []))
            for c in plain:
                if "32_components" in c.feats:
                    for prof in ("C02", "C10"): jobs.append(job("wide", prof, c, base + 2_000_000 + k, CHUNK, "4", ["--no-overflow"]))
                else:
                    for prof in ("C02", "C10"): jobs.append(job("wide", prof, c, base + 2_000_000 + k, CHUNK, "2", ["--no-overflow"]))
    if thorough:
        scs = []
        for c in plain:
            if c.profile == "release" and set(c.feats) <= {"wrapping_version", "events"}: jobs.insert(0, scen_job19(c, "age32", 1, scs, viol))
            for kind in ("big", "age"): jobs.insert(0, scen_job19(c, kind, 3, scs, viol))
        cov["scenarios"] = scs
    search("C19", jobs, lambda b: False, time.time() + (100 if not thorough else 3000))
    # Judge.
    bad = lambda d: "ok" not in d
    fails, differ = {}, []
    for (phase, prof, s), r in sorted(res.items()):
        for cn, d in r.items():
            if bad(d): fails.setdefault((phase, prof), {}).setdefault(cn, []).append((s, d))
        if phase == "same":
            ok = {cn: d["dig"] for cn, d in r.items() if not bad(d)}
            if len(set(ok.values())) > 1: differ.append((prof, s, r, ok))
    cov["seeds_compared_across_configurations"] = sum(1 for k, r in res.items() if k[0] == "same" and len(r) == len(plain))
    byname = {c.name: c for c in plain}
    # A violation that shows in some configurations only.
    for (phase, prof), f in sorted(fails.items()):
        for cn, l in f.items():
            for s, d in l:
                others = {x: y for x, y in res[(phase, prof, s)].items() if x != cn}
                app = {x: y for x, y in others.items() if relevant(d, x)}
                # The same seed, or for diverging histories the same profile, is clean elsewhere.
                if phase == "same": clean = [x for x, y in app.items() if not bad(y)]
                else: clean = [x for x in app if x not in f]
                if phase == "wide": clean = [x for x in app if "3" not in x.partition("-")[2] and x not in f] if "3" in cn.partition("-")[2] else []
                if clean and relevant(d, cn): return report19(byname[cn], byname[clean[0]], d, phase, prof, s, tmp, viol, cov)
    if differ:
        prof, s, r, ok = differ[0]
        groups = {}
        for cn, g in ok.items(): groups.setdefault(g, []).append(cn)
        g = sorted(groups.values(), key=len)
        a, b2 = byname[g[0][0]], byname[g[-1][0]]
        return diff19(a, b2, prof, s, r, groups, tmp, viol)
    cov["failures_in_every_configuration_alike"] = {"%s/%s" % k: {c: len(v) for c, v in f.items()} for k, f in fails.items()} or 0
    return []

def scen_job19(c, kind, seed, stats, viol):
    inner = scen_job("C19", c, kind, seed, stats)
    def job():
        for b in inner():
            viol.append((report("C19", b, get_trace(b, None), {"msg": b.d.get("msg") or b.d.get("crash", "")}, None, 1, 0), {"msg": b.d.get("msg") or b.d.get("crash", "")}))
        return []
    return job

def relevant(d, cn):
    """Could configuration cn have shown failure d at all? Event logs exist with the feature only."""
    return not (d.get("base") == "C17" and "e" not in cn.partition("-")[2])

def report19(c, clean, d, phase, prof, s, tmp, viol, cov):
    b = Bad(c, d, d["_args"])
    t = get_trace(b, tmp)
    base = d.get("base", "")
    class J19:
        def many(self, texts):
            vs = verdicts(c, texts)
            ok = ["ok" not in v and (v.get("crash") or not base or bool(set(v.get("base", "").split(",")) & set(base.split(",")))) for v in vs]
            if phase == "same":
                ix = [i for i in range(len(texts)) if ok[i]]
                for i, v in zip(ix, verdicts(clean, [texts[i] for i in ix])):
                    if "ok" not in v: ok[i] = False
            return [v if o else None for o, v in zip(ok, vs)]
    j = J19()
    v = j.many([t.text()])[0]
    tried, n0 = 0, len(t.lines)
    if v:
        t, tried = minimise(j, t, time.time() + 60)
        v = j.many([t.text()])[0] or v
    else: v = {"msg": d.get("msg") or d.get("crash", "")}
    msg = "configuration %s: %s (the same history holds in configuration %s)" % (c.name, v["msg"], clean.name) if phase == "same" else "configuration %s: %s (no such violation in configuration %s)" % (c.name, v["msg"], clean.name)
    viol.append((report("C19", b, t, {"msg": msg}, "clean in: " + clean.name, n0, tried), {"msg": msg}))
    return []

def diff19(a, b2, prof, s, r, groups, tmp, viol):
    args = r[a.name]["_args"]
    one = list(args); one[one.index("--seed0") + 1] = str(s); one[one.index("--count") + 1] = "1"
    if "--states" in one: k = one.index("--states"); del one[k:k + 2]
    f = os.path.join(tmp, "live19")
    sim(a, one + ["--live", f], timeout=200)
    ls = open(f).read().splitlines()
    t = Trace([l for l in ls if l.startswith("!")], [l for l in ls if not l.startswith("!")])
    class JD:
        def many(self, texts):
            x, y = verdicts(a, texts), verdicts(b2, texts)
            return [u if "ok" in u and "ok" in v and u.get("dig") != v.get("dig") else None for u, v in zip(x, y)]
    j = JD()
    n0, tried = len(t.lines), 0
    if j.many([t.text()])[0]: t, tried = minimise(j, t, time.time() + 60)
    msg = "the same history has different outcomes: " + "; ".join("%s in %s" % (g, ", ".join(sorted(c))) for g, c in groups.items())
    b = Bad(a, {"seed": s}, one)
    viol.append((report("C19", b, t, {"msg": msg}, "compare with: " + b2.name, n0, tried), {"msg": msg}))
    return []

# ------------------------------------------------------------------ evidence

FAULT_TEXT = {"clones": "world clones", "presets": "generation counters preset next to overflow or a power of two", "overflow": "generation-overflow panics met", "conflict": "borrow-conflict panics met",
              "forged": "forged/corrupted handles delivered", "foreign": "handles of another world delivered", "stale": "stale handles delivered", "wc_refused": "creations refused at capacity", "breaks": "iterations broken off", "lib_panics": "library panics caught", "debug_rejects": "handles rejected by a debug assertion"}

def evidence(prop, tier, seed, cs, agg, scen, cov, viol, tb, tsearch, det):
    os.makedirs(EVID, exist_ok=True)
    faults = {"injected: panic in " + k: v for k, v in agg.fired.items()}
    for k, t in FAULT_TEXT.items(): faults[t] = agg.tot.get(k, 0)
    faults["worlds dropped midway"] = agg.ops.get("dropw", 0)
    faults["worlds dropped by unwinding"] = agg.ops.get("unwinddrop", 0)
    faults["panics armed (k-th callback)"] = agg.ops.get("arm", 0)
    ev = agg.n + len(scen)
    d = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(agg.hist),
            "rule": "One evaluation is one simulated run: a seed decides the world declarations, capacities, tasks, interleaving, operations and faults. It is non-trivial if %s. Runs are distinct if their (task, operation) schedule or their digest of every observed outcome differs." % RULES[prop][0],
            "samples": agg.samples or [{"none": "the run was stopped by a violation before a run completed"}],
            "seeds_per_hour": int(ev / max(tsearch, 0.001) * 3600),
            "simulated_time": "the code under test has no clock; logical time is the %d scheduled steps" % agg.steps,
            "steps": agg.steps, "oracle_checks": agg.oracle, "operations": agg.ops, "lookups": agg.tot.get("lookups", 0), "iteration_visits": agg.tot.get("visits", 0),
            "relocations_by_swap_remove": agg.tot.get("relocs", 0), "storage_growths": agg.tot.get("growths", 0), "largest_archetype": agg.max_len,
            "faults": faults,
            "distinct_schedules": len(agg.sched),
            "distinct_states": bin(int.from_bytes(agg.states, "little")).count("1"),
            "distinct_states_measure": "hashes of (world declaration, per archetype len, capacity and handles in dense order) at every full audit of a world, counted in a 2^24-bit set",
            "runs_per_configuration": agg.percfg,
            "configurations": {c.name: c.desc() for c in cs},
            "scenarios": scen,
            "determinism_recheck_seeds": det,
            "real_components": "gecs and gecs_macros built from /repo's working tree (all storage, iteration, query macro, event and handle code)",
            "stub_components": "global allocator (redzones, poison, quarantine, moving realloc; replaced by ASan's/Miri's in those configurations); component types and closures (instrumented user code); generation presets by a cfg(gecs_verif) hook",
            "build_s": round(tb, 1), "search_s": round(tsearch, 1),
            **cov,
        },
        "assumptions": ["histories are bounded: up to 320 steps and about 120 live entities per world in random runs; larger populations and ages only in the listed scenarios",
                        "seven world shapes stand for all declarations (1 to 16 components, 32 with the feature; zero-sized, over-aligned, heap-owning, padded types)",
                        "sampled by seed, not exhaustive"],
        "wall_s": round(time.time() - T0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f: json.dump(d, f, indent=1)

def log(s): print("# " + s, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ replay

def replay(path):
    text = open(path).read()
    prop = re.search(r"^# property (\S+)", text, re.M).group(1)
    c = cfg(re.search(r"^# config (\S+)", text, re.M).group(1))
    e = build(c)
    m = re.search(r"^!build", text, re.M)
    if m:
        print(("VIOLATION property=%s replay=%s\n%s" % (prop, path, first_error(e))) if e else "builds")
        return 1 if e else 0
    if e: log(e[-2000:]); return 2
    m = re.search(r"^!seedrun (.*)$", text, re.M)
    if m:
        ls = jlines(sim(c, ["run"] + m.group(1).split(), timeout=300).stdout)
        v = ls[0] if ls else {"crash": "nothing"}
    elif "!scenario" in text:
        f = [x for x in re.search(r"^!scenario (.*)$", text, re.M).group(1).split()]
        v = jlines(sim(c, ["scen"] + f + ["--secs", "800"], timeout=900).stdout)[0]
    else: v = verdicts(c, [text])[0]
    m = re.search(r"^# compare with: (\S+)", text, re.M)
    if m:
        c2 = cfg(m.group(1)); build(c2)
        v2 = verdicts(c2, [text])[0]
        print(c.name, v); print(c2.name, v2)
        bad = v != v2
    else:
        print(json.dumps(v)); bad = "ok" not in v
    if bad: print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if bad else 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        cs, errs = build_all(["dbg", "rel"])
        for e in errs:
            if e: print(e[-3000:]); return 2
        print("built"); return 0
    if a.replay: return replay(a.replay)
    if a.prop not in CLAIMED: ap.error("unknown property")
    try: return run_check(a.prop, a.tier, a.seed)
    except RuntimeError as e: log(str(e)); return 2

if __name__ == "__main__":
    r = main()
    sys.stdout.flush()
    os._exit(r)
