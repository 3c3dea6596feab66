"""Driver of the checks: builds the harnesses from /repo's working tree, runs them,
writes evidence, prints the verdict."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
# dates must not depend on the local time zone
ENV["TZ"] = "NST3:30NDT,M3.2.0,M11.1.0"
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)

class CheckError(Exception):
    pass

class BuildError(CheckError):
    pass

def log(*a):
    print(*a, flush=True)

def run(cmd, cwd=None, timeout=800, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf-8", "replace")

# ---------------------------------------------------------------- builds
def cargo_build(crate, target, *args):
    rc, out = run(["cargo", "build", "--offline", "--target-dir", target, *args], cwd=crate)
    if rc != 0:
        raise BuildError(f"cannot build {crate}:\n" + out[-4000:])

def build_codec(backend):
    t = os.path.join(TARGET, backend)
    cargo_build(os.path.join(VERIF, "harness/codec"), t, "--features", backend)
    return os.path.join(t, "debug/codec")

def build_codecs():
    with ThreadPoolExecutor(2) as ex:
        fs = [ex.submit(build_codec, b) for b in ("md5", "openssl")]
        return [f.result() for f in fs]

def build_shim():
    t = os.path.join(TARGET, "shim")
    cargo_build(os.path.join(VERIF, "harness/shim/mc"), t)
    return os.path.join(t, "debug")

def build_real():
    t = os.path.join(TARGET, "real")
    cargo_build(os.path.join(VERIF, "harness/real"), t)
    return os.path.join(t, "debug/real")

BACKENDS = ("md5", "openssl")

# ---------------------------------------------------------------- results
class Result:
    """what the engines of one property covered and found"""
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.parts = []          # free-form coverage per engine
        self.fails = []          # dicts: engine, space, index, detail, key
        self.assumptions = []
        self.exhaustive = True

def tmpfile(name):
    d = os.path.join(TARGET, "run")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{os.getpid()}-{name}")

def run_engine(binary, args, label, timeout=840):
    """run one harness binary that writes a result file; returns (json, fails)"""
    out = tmpfile(label + ".json")
    if os.path.exists(out):
        os.remove(out)
    rc, txt = run([binary, *[a if a != "OUT" else out for a in args]], timeout=timeout)
    d = None
    if os.path.exists(out):
        d = json.load(open(out))
        os.remove(out)
    if rc in (0, 1) and d is not None:
        return d
    if isinstance(rc, int) and rc < 0 and rc != -9:
        # abort, segmentation fault, stack overflow inside the library
        return dict(cases=0, ops=0, states=0, spaces=[], samples=[], state_overflow=0,
                    fails=[dict(space="process", index=0, detail=f"the harness process died with signal {-rc}: {txt[-500:]}")])
    raise CheckError(f"{label}: exit {rc}\n{txt[-3000:]}")

def add_codec(res, prop, tier, only_transcript=False):
    bins = build_codecs()
    for b, binary in zip(BACKENDS, bins):
        d = run_engine(binary, [prop, tier, "OUT"], f"codec-{b}-{prop}")
        absorb(res, d, f"codec/{b}")

def absorb(res, d, engine):
    res.states = max(res.states, d["states"])
    res.transitions += d["ops"]
    res.traces += d["cases"]
    res.parts.append(dict(engine=engine, cases=d["cases"], operations=d["ops"], distinct_states=d["states"],
                          states_not_recorded=d.get("state_overflow", 0),
                          cases_with_log_records_received=d.get("cases_with_log_records_received"), seconds=d.get("seconds"), spaces=d["spaces"]))
    res.samples += d["samples"]
    for f in d["fails"]:
        res.fails.append(dict(f, engine=engine))

def add_c16(res, tier):
    bins = build_codecs()
    tr = {}
    for b, binary in zip(BACKENDS, bins):
        t = tmpfile(f"tr-{b}")
        d = run_engine(binary, ["C16", tier, "OUT", "--transcript", t], f"codec-{b}-C16")
        d["fails"] = [f for f in d["fails"] if f["space"] == "process" or "does not terminate" in f["detail"]]
        absorb(res, d, f"codec/{b}")
        tr[b] = open(t, "rb").read() if os.path.exists(t) else b""
        if os.path.exists(t):
            os.remove(t)
    compared = 0
    if tr["md5"] == tr["openssl"]:
        compared = len(tr["md5"]) // 8
    else:
        for space, i, x, y in transcript_diff(tr["md5"], tr["openssl"]):
            res.fails.append(dict(engine="codec/both", space=space, index=i, detail=f"the back ends give different results (result hashes {x:x} with md5, {y:x} with openssl)"))
            if len(res.fails) > 20:
                break
    # cross reading
    crossed = 0
    for pb, producer in zip(BACKENDS, bins):
        rec = tmpfile("rec")
        rc, out = run([producer, "produce", tier, rec])
        if rc != 0:
            raise CheckError("produce: " + out[-1000:])
        rd = []
        for cb, consumer in zip(BACKENDS, bins):
            o = tmpfile("cons")
            rc, out = run([consumer, "consume", rec, o])
            if rc != 0:
                raise CheckError("consume: " + out[-1000:])
            rd.append(open(o).read().split("\n"))
            os.remove(o)
        os.remove(rec)
        for i, (x, y) in enumerate(zip(*rd)):
            crossed += 1
            if x != y:
                res.fails.append(dict(engine="codec/cross", space=f"produced-by-{pb}", index=i, detail=f"md5 reads {x} / openssl reads {y.split(' => ')[1]}"))
                if len(res.fails) > 40:
                    break
    res.parts.append(dict(engine="comparison", transcript_entries_compared=compared, produced_items_read_by_both=crossed))
    res.traces += crossed

def transcript_diff(a, b):
    def parse(x):
        i, v = 0, []
        while i < len(x):
            n = int.from_bytes(x[i:i+8], "little"); i += 8
            name = x[i:i+n].decode(); i += n
            m = int.from_bytes(x[i:i+8], "little"); i += 8
            v.append((name, x[i:i+8*m])); i += 8*m
        return v
    pa, pb = parse(a), parse(b)
    if [(n, len(v)) for n, v in pa] != [(n, len(v)) for n, v in pb]:
        # one back end stopped early: compare what both executed
        pass
    for (n, va), (m, vb) in zip(pa, pb):
        if va == vb:
            continue
        for i in range(0, min(len(va), len(vb)), 8):
            if va[i:i+8] != vb[i:i+8]:
                yield n, i // 8, int.from_bytes(va[i:i+8], "little"), int.from_bytes(vb[i:i+8], "little")

def limit(tier):
    return "240" if tier == "quick" else "780"

def add_mc(res, prop, tier, binary="mc"):
    """executions of the library under the controlled scheduler, network, clock and generator"""
    d = run_engine(os.path.join(build_shim(), binary), [prop, tier, "OUT", limit(tier)], f"{binary}-{prop}")
    if d.get("complete") is False:
        res.exhaustive = False
    if d.get("diverged"):
        res.exhaustive = False
        res.parts.append(dict(engine="shim/" + binary, executions_not_reproducible=d["diverged"][:5]))
    absorb(res, d, "shim/" + binary)
    res.assumptions += SHIM_ASSUMPTIONS

def add_real(res, prop, tier):
    """every history / call of a bounded space on the unmodified library, real tokio and loopback sockets,
    compared with the same expectations: the conformance part of the simulated explorations"""
    d = run_engine(build_real(), [prop, tier, "OUT"], f"real-{prop}")
    absorb(res, d, "real")
    res.assumptions.append("on real tokio and sockets (engine real) only the one schedule the runtime produces is executed per history; answers are awaited for 10 s")

# ---------------------------------------------------------------- properties
CODEC = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C17", "C18", "C19"]

MC = ["C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C29"]

def optional(f, res, *a):
    """a second engine, whose build may fail on code that uses what the simulation lacks"""
    try:
        f(res, *a)
    except BuildError as e:
        res.exhaustive = False
        res.parts.append(dict(engine="shim", not_run=str(e)[-600:]))

def plan(prop):
    def go(res, tier):
        if prop in CODEC:
            add_codec(res, prop, tier)
            res.assumptions += CODEC_ASSUMPTIONS
        if prop == "C16":
            add_c16(res, tier)
            res.assumptions += CODEC_ASSUMPTIONS
        if prop == "C18":
            optional(add_mc, res, prop, tier)
        if prop in ("C07", "C17"):
            optional(add_mc, res, prop, tier, "dx")
        if prop in MC:
            add_real(res, prop, tier)
            optional(add_mc, res, prop, tier)
        if prop == "C28":
            add_real(res, prop, tier)
            optional(add_mc, res, prop, tier, "dx")
        if prop == "C15":
            import gen
            gen.check(res, tier)
            res.assumptions += GEN_ASSUMPTIONS
    if prop not in CODEC + MC + ["C15", "C16", "C28"]:
        raise CheckError(f"no check for property {prop}")
    return go

SHIM_ASSUMPTIONS = [
    "the library's sources are compiled unchanged against replacements of tokio, rand and the synchronisation parts of std (harness/shim); a context switch happens only at operations of these, and memory is sequentially consistent",
    "the simulated UDP socket behaves as a real one in what the library observes (datagram boundaries, truncation, connected-socket filtering, queueing)",
    "schedules beyond the preemption bounds and longer histories than those named in the evidence are not explored",
]
GEN_ASSUMPTIONS = [
    "dictionaries outside the enumerated ones (other names, longer sequences of entries) are not explored",
    "the names of accessors and constants are the attribute and value names in snake case",
]
CODEC_ASSUMPTIONS = [
    "the reference model in harness/codec/src/model.rs (own MD5, packet grammar, digests, hiding) and the dictionary snapshot in dict_gen.rs state the property correctly",
    "behaviour outside the enumerated spaces (longer inputs, other octet patterns) is not explored",
]

# ---------------------------------------------------------------- findings
def known(prop):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["known"] if k["property"] == prop]

def check(prop, tier):
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    res = Result()
    plan(prop)(res, tier)
    kn = known(prop)
    new, seen = [], {}
    for f in res.fails:
        k = next((k for k in kn if f.get("key") is not None and f["key"] == k["key"]), None)
        if k is None:
            new.append(f)
        else:
            seen.setdefault(k["key"], (k, f))
    for k, f in seen.values():
        log(f"KNOWN-FINDING: property={prop} {k['what']}")
    rep = os.path.join(VERIF, "replays")
    lines = []
    if new:
        os.makedirs(rep, exist_ok=True)
        for n, f in enumerate(new[:5]):
            path = os.path.join(rep, f"{prop}-{n}.json")
            json.dump(dict(property=prop, tier=tier, **f), open(path, "w"), indent=1)
            log(f"  {f['engine']} {f['space']}[{f['index']}]: {f['detail'][:600]}")
            for t in f.get("trace", [])[:60]:
                log("      " + t[:200])
            lines.append(f"VIOLATION property={prop} replay={path}")
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=res.states, transitions=res.transitions, traces_validated_against_impl=res.traces,
                            samples=res.samples[:40] or ["(none)"], exhaustive=res.exhaustive, engines=res.parts,
                            known_findings_seen=len(seen)),
              assumptions=res.assumptions or CODEC_ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    log(f"{prop} {tier}: {res.states} states, {res.transitions} transitions, {res.traces} traces on the implementation, {len(new)} violations, {time.time()-t0:.1f} s")
    for l in lines:
        log(l)
    return 1 if new else 0

def replay(path):
    d = json.load(open(path))
    prop, eng = d["property"], d["engine"]
    if eng.startswith("codec/"):
        b = eng.split("/")[1]
        for bk in ([b] if b in BACKENDS else BACKENDS):
            binary = build_codec(bk)
            out = tmpfile("replay.json")
            rc, txt = run([binary, prop, d["tier"], out, "--only", d["space"], str(d["index"])])
            log(f"[{bk}] exit {rc}\n{txt}")
            if os.path.exists(out):
                log(open(out).read()); os.remove(out)
        return 0
    if eng == "real":
        rc, txt = run([build_real(), prop, d["tier"], tmpfile("replay.json"), "--only", d["space"], str(d["index"])])
        log(f"exit {rc}\n{txt}")
        return 0
    if eng.startswith("shim/") and (d.get("choices") or d["space"] != "overall"):
        binary = os.path.join(build_shim(), eng.split("/")[1])
        what = ",".join(map(str, d["choices"])) if "choices" in d else str(d["index"])
        rc, txt = run([binary, prop, d["tier"], tmpfile("replay.json"), "60", "--only", d["space"], what])
        log(f"exit {rc}\n{txt}")
        return 0
    log(json.dumps(d, indent=1))
    return 0

def build_all():
    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(build_codecs), ex.submit(build_shim), ex.submit(build_real),
              ex.submit(cargo_build, os.path.join(VERIF, "harness/gen"), os.path.join(TARGET, "gen"))]
        for f in fs:
            f.result()
    return 0
