#!/usr/bin/env python3
"""Driver of the checks: builds the explorer from /repo's working tree, runs it, and judges.

  check.py PROP [--tier quick|thorough]     run a check
  check.py PROP --replay FILE               replay one recorded execution
  check.py --setup                          build every explorer

exit 0: held on everything explored; exit 1 + "VIOLATION property=.. replay=.." line: broken;
exit 2: the machinery itself failed (build error, time budget, unreproducible crash).
"""
import hashlib, json, mmap, os, re, resource, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(EVID, "replays")
PROPS = json.load(open(os.path.join(HERE, "checks.json")))   # id -> {crate, assumptions, rule}
HANG_S = 90
MEM_CAP = 24 << 30


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET, PROJ_NETWORK="OFF")
    e.pop("RUSTFLAGS", None)
    return e


class DeriveRejected(Exception):
    """The crates under test build, but the code that derive(PointType) generates for a legal struct does not compile."""


def derive_error(text):
    """derive(PointType) rejected one of the enumerated structs (its compile_error or a panic), or generated code for it that
    rustc rejects."""
    for b in re.split(r"(?m)^(?=error)", text)[1:]:
        if "src/derive_types.rs" in b and (b.startswith("error: ") or re.search(r"derive macro `(\w+::)*PointType`", b)):
            return b
    return None


def build(crate):
    d = os.path.join(HERE, "mc", crate)
    t0 = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"], cwd=d, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        if f"could not compile `mc-{crate}`" in p.stdout and derive_error(p.stdout):
            raise DeriveRejected(derive_error(p.stdout)[:6000])
        sys.stdout.write(p.stdout[-6000:])
        print(f"ERROR: building mc/{crate} failed")
        sys.exit(2)
    return os.path.join(TARGET, "debug", f"mc-{crate}"), time.time() - t0


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_CAP, MEM_CAP))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def read_slots(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return []
    return [struct.unpack_from("<QQ", b, o) for o in range(0, len(b) - 15, 16)]


def run_worker(binary, prop, tier, only=None, cap=600, tag="main", threads=8):
    """-> (kind, data, slots): kind in ok / crash / hang / timeout"""
    out = os.path.join(EVID, f".{prop}.{tag}.json")
    prog = os.path.join(EVID, f".{prop}.{tag}.progress")
    log = os.path.join(EVID, f".{prop}.{tag}.log")
    for f in (out, prog, log):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [binary, prop, "--tier", tier, "--out", out, "--progress", prog, "--threads", str(threads)]
    if only:
        cmd += ["--only", only]
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env(), preexec_fn=limits, cwd=EVID)
        t0 = time.time()
        last, since = {}, {}
        kind = None
        cpu0 = None
        while True:
            try:
                p.wait(timeout=0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            for i, s in enumerate(read_slots(prog)):
                if s != last.get(i):
                    last[i] = s
                    since[i] = now
                elif s[0] != 0 and s[1] != 0 and now - since[i] > HANG_S:
                    kind = "hang"
            if kind is None and now - t0 > cap:
                kind = "timeout"
            if kind:
                slots = read_slots(prog)
                stuck = [s for i, s in enumerate(slots) if s[0] and now - since.get(i, now) > HANG_S] if kind == "hang" else slots
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                tail = open(log, "rb").read()[-3000:].decode("utf8", "replace")
                return kind, {"log": tail, "rc": None}, stuck
    tail = open(log, "rb").read()[-3000:].decode("utf8", "replace")
    if p.returncode == 0 and os.path.exists(out):
        return "ok", json.load(open(out)), []
    return "crash", {"log": tail, "rc": p.returncode}, [s for s in read_slots(prog) if s[0]]


def shard_names(binary, prop, tier):
    p = subprocess.run([binary, prop, "--tier", tier, "--shards"], stdout=subprocess.PIPE, env=env(), text=True, cwd=EVID)
    return p.stdout.splitlines()


def norm(s):
    return re.sub(r"[^A-Za-z0-9_.-]+", "_", s)[:60]


def replay_file(prop, tier, f, how):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha1(json.dumps([prop, f["shard"], f["index"]]).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, f"{prop}-{norm(f['shard'])}-{h}.json")
    json.dump({"property": prop, "tier": tier, "shard": f["shard"], "index": f["index"], "execution": f["desc"],
               "failure": f["msg"], "how": how,
               "replay_cmd": f"python3 check.py {prop} --replay {path}"}, open(path, "w"), indent=1)
    return path


def known(prop):
    path = os.path.join(HERE, "KNOWN_FINDINGS.jsonl")
    r = []
    for line in open(path):
        line = line.strip()
        if line:
            j = json.loads(line)
            if j.get("status") == "known" and j["property"] == prop:
                r.append(j)
    return r


def match(k, f):
    """A listed finding names the exact execution (shard + description) and the failure it shows."""
    return k["shard"] == f["shard"] and f["desc"] in k["executions"] and re.search(k["failure"], f["msg"]) is not None


def main():
    a = sys.argv[1:]
    os.makedirs(EVID, exist_ok=True)
    if a and a[0] == "--setup":
        for c in sorted({p["crate"] for p in PROPS.values()}):
            _, s = build(c)
            print(f"built mc/{c} in {s:.1f}s")
        return 0
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    info = PROPS[prop]
    t0 = time.time()
    try:
        binary, bs = build(info["crate"])
    except DeriveRejected as e:
        sys.stdout.write(str(e))
        if prop not in ("C15", "C49"):
            print(f"ERROR: building mc/{info['crate']} failed in the code generated by derive(PointType)")
            return 2
        return derive_rejected(prop, tier, seed, info, str(e), t0)
    if "--replay" in a:
        r = json.load(open(a[a.index("--replay") + 1]))
        kind, d, _ = run_worker(binary, prop, r["tier"], only=f"{r['shard']}#{r['index']}", cap=300, tag="replay", threads=1)
        if kind == "ok":
            for f in d["failures"]:
                print(f"reproduced: {f['shard']}#{f['index']}: {f['desc']}\n  {f['msg']}")
            if not d["failures"]:
                print("not reproduced: the execution now satisfies the property")
            return 1 if d["failures"] else 0
        print(f"reproduced: worker ended with {kind} {d}")
        return 1
    cap = 420 if tier == "quick" else 6 * 3600
    kind, d, slots = run_worker(binary, prop, tier, cap=cap)
    failures = []
    note = ""
    if kind in ("crash", "hang"):
        # Name the execution by replaying each candidate on its own.
        names = shard_names(binary, prop, tier)
        cands = []
        for (s, i) in slots:
            if 0 < s <= len(names) and i > 0:
                cands.append((names[s - 1], i - 1))
        first = d
        for n, (sh, i) in enumerate(cands):
            k2, d2, _ = run_worker(binary, prop, tier, only=f"{sh}#{i}", cap=HANG_S + 30, tag=f"confirm{n}", threads=1)
            if k2 in ("crash", "hang", "timeout"):
                what = f"the process died ({describe(d2)})" if k2 == "crash" else f"no progress for {HANG_S} s"
                failures.append({"shard": sh, "index": i, "desc": f"{sh}#{i}", "msg": what + ": " + d2["log"][-600:].strip()})
                break
            if k2 == "ok" and d2["failures"]:
                failures += d2["failures"]
                break
        if not failures and kind == "crash":
            # corruption caused by an earlier execution of the shard: replay whole shards, then everything
            for sh in dict.fromkeys(c[0] for c in cands):
                k2, d2, _ = run_worker(binary, prop, tier, only=f"{sh}#-1", cap=200, tag="shard", threads=1)
                if k2 == "crash":
                    failures.append({"shard": sh, "index": -1, "desc": f"all executions of {sh} in order",
                                     "msg": f"the process died ({describe(d2)}): " + d2["log"][-600:].strip()})
                    break
                if k2 == "ok" and d2["failures"]:
                    failures += d2["failures"]
                    break
            # an earlier failing comparison in any shard also decides the property
        if not failures:
            print(f"ERROR: worker ended with {kind} ({describe(first)}) and no single execution reproduces it")
            print(first["log"])
            return 2
        d = {"states": 0, "transitions": 0, "traces": 0, "samples": [], "shards": [], "incomplete": ["all: worker died"]}
        note = "worker died; counts not available"
    elif kind == "timeout":
        print(f"ERROR: {prop} {tier} did not finish within {cap}s; running cases {slots}")
        return 2
    else:
        failures = d["failures"]
    ks = known(prop)
    hit = {}
    new = []
    for f in failures:
        for n, k in enumerate(ks):
            if match(k, f):
                hit.setdefault(n, []).append(f)
                break
        else:
            new.append(f)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": d["states"], "transitions": d["transitions"], "traces_validated_against_impl": d["traces"],
            "samples": d["samples"][:12], "rule": info["rule"], "exhaustive": not d["incomplete"],
            "incomplete_shards": d["incomplete"], "shards": d["shards"],
        },
        "assumptions": info.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "build_s": round(bs, 2),
        "violations": len(new), "known_findings": sum(len(v) for v in hit.values()),
    }
    if note:
        ev["coverage"]["note"] = note
    tmp = os.path.join(EVID, f".{prop}.evidence")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))
    if kind == "ok" and (d["incomplete"] or d["traces"] == 0 or d["transitions"] == 0):
        print(f"ERROR: exploration incomplete or empty: {d['incomplete']} traces={d['traces']}")
        if not new:
            return 2
    print(f"{prop} {tier}: {d['traces']} executions of the implementation, {d['transitions']} steps compared, "
          f"{d['states']} distinct states, {len(failures)} failing, {ev['wall_s']}s")
    for n, fs in hit.items():
        print(f"KNOWN-FINDING: property={prop} {ks[n]['what']} ({len(fs)} executions)")
    for f in new[:5]:
        path = replay_file(prop, tier, f, info["rule"])
        print(f"  {f['shard']}#{f['index']}: {f['desc']}\n    {f['msg']}")
        print(f"VIOLATION property={prop} replay={path}")
    if len(new) > 5:
        print(f"  ... and {len(new) - 5} more failing executions")
    return 1 if new else 0


def derive_rejected(prop, tier, seed, info, text, t0):
    """C15 and C49 also say that the macro accepts every legal struct: one of the enumerated structs does not compile any more."""
    f = {"shard": "compile", "index": 0, "desc": "compiling the enumerated structs with derive(PointType)", "msg": text[:3000]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [f["desc"]], "rule": info["rule"],
                       "exhaustive": False, "note": "the generated code of an enumerated struct does not compile"},
          "assumptions": info.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1, "known_findings": 0}
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)
    print(f"VIOLATION property={prop} replay={replay_file(prop, tier, f, info['rule'])}")
    return 1


def describe(d):
    rc = d.get("rc")
    if rc is None:
        return "killed"
    if rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            return f"signal {-rc}"
    return f"exit code {rc}"


if __name__ == "__main__":
    sys.exit(main())
