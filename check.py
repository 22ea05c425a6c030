#!/usr/bin/env python3
"""Builds the model checker against /repo's working tree, runs one property, writes evidence.

    check.py setup                 build everything once
    check.py C05 [quick|thorough]  decide one property
    check.py replay FILE           re-execute a recorded counterexample
    check.py all [quick|thorough]  every claimed property (summary only)
    check.py conform               hold the reference model against the C libsecp256k1 (about a minute)

Exit 0: held on everything explored. 1: VIOLATION line printed. Anything else: no verdict.
"""
import json, mmap, os, shutil, signal, struct, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(HERE, "mc")
TARGET = os.path.join(MC, "target")
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.txt")

API = ("api", ["release", "checked"])
CORE = ("coremc", ["release", "checked"])
HIST = ("hist", ["release", "checked"])
LAZY = ("hist-lazy", ["release"])
CT = ("ct", ["release"])
DRBG = ("drbg", ["release", "checked"])
FEATURES = ("probe", [])
HEAP = ("heap", ["release", "checked"])
HEAPLAZY = ("heap-lazy", ["release"])
MIRI = ("ub", ["checked"])
PLAN = {
    "C01": [API], "C02": [API], "C03": [API], "C04": [API, DRBG], "C05": [API], "C06": [API],
    "C07": [API], "C08": [API], "C09": [API], "C10": [API], "C11": [API], "C12": [API], "C13": [API],
    "C14": [CORE], "C15": [CORE], "C16": [CORE], "C17": [CORE], "C18": [CORE],
    "C19": [HIST, LAZY],
    "C20": [API], "C21": [API], "C22": [API], "C23": [API],
    "C24": [FEATURES], "C25": [CT], "C26": [API],
    "C27": [HEAP, HEAPLAZY, MIRI], "C28": [API],
}
TECH = {}
CAP = {"quick": 400, "thorough": 6 * 3600}  # seconds for one run of one binary


class NoVerdict(Exception):
    pass


def cargo(cmd, flags=None, cwd=MC):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    if flags:
        env["RUSTFLAGS"] = flags
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def errors(out):
    """The part of a build's output that says why it failed."""
    i = out.find("\nerror")
    return out[max(i, 0):][:3000]


def build(pkg, profile):
    """Builds one package of the workspace in its own target directory; returns the binary.

    coremc is built with the crate's internal recodings exposed (the hook); if the hook no longer
    fits the tree, it is built without, and the spaces that need it are left out."""
    if pkg in ("hist", "hist-lazy", "ct", "heap", "heap-lazy", "ub"):
        name, lazy = pkg.replace("-lazy", ""), pkg.endswith("-lazy")
        td = os.path.join(TARGET, profile + ("-lazy" if lazy else ""))
        p = cargo(["cargo", "build", "--offline", "-q", "-p", "purity", "--bin", name, "--features", "std,hmac," + ("lazy-static-context" if lazy else "static-context"),
                   "--profile", profile, "--target-dir", td])
        if p.returncode != 0:
            raise NoVerdict("build of %s (%s) failed:\n%s" % (pkg, profile, errors(p.stdout)))
        return os.path.join(td, profile, name)
    if pkg == "drbg":
        # a workspace of its own: the crate's nonce generator is replaced by a scriptable one there
        td = os.path.join(TARGET, profile)
        p = cargo(["cargo", "build", "--offline", "-q", "--profile", profile, "--target-dir", td], cwd=os.path.join(MC, "drbg"))
        if p.returncode == 0:
            return os.path.join(td, profile, "drbg")
        print("note: drbg does not build with the scriptable generator; redraws are left to the other spaces")
        return None
    for hook in ([True, False] if pkg == "coremc" else [False]):
        td = os.path.join(TARGET, profile + ("-hook" if hook else ""))
        p = cargo(["cargo", "build", "--offline", "-q", "-p", pkg, "--profile", profile, "--target-dir", td],
                  "--cfg libsecp256k1_mc --cap-lints warn -Awarnings" if hook else None)
        if p.returncode == 0:
            return os.path.join(td, profile, pkg)
        if hook:
            print("note: coremc does not build with the hook enabled; continuing without it")
    raise NoVerdict("build of %s (%s) failed:\n%s" % (pkg, profile, errors(p.stdout)))


# ---------------------------------------------------------------- feature combinations (C24)
COMBOS = ["std,hmac,static-context", "std,hmac", "std,hmac,lazy-static-context", "std,static-context", "std", "std,lazy-static-context",
          "hmac,static-context", "hmac", "static-context", ""]


def probe_build(profile, combo):
    """Builds the probe with one feature combination; returns the binary or the compiler's output."""
    td = os.path.join(TARGET, "probe-%s-%s" % (profile, "std" if "std," in combo + "," else "nostd"))
    p = cargo(["cargo", "build", "--offline", "-q", "-p", "purity", "--bin", "probe", "--no-default-features", "--features", combo,
               "--profile", profile, "--target-dir", td])
    if p.returncode != 0:
        return None, p.stdout
    dst = os.path.join(td, "bin-" + (combo.replace(",", "+") or "none"))
    shutil.copy2(os.path.join(td, "debug" if profile == "dev" else profile, "probe"), dst)
    return dst, ""


def probe_read(path):
    raw, o, secs = open(path, "rb").read(), 0, {}
    while o < len(raw):
        n = struct.unpack_from("<I", raw, o)[0]
        name = raw[o + 4:o + 4 + n].decode()
        c = struct.unpack_from("<Q", raw, o + 4 + n)[0]
        o += 12 + n
        secs[name] = raw[o:o + 8 * c]
        o += 8 * c
    return secs


def probe_env(tier):
    env = dict(os.environ, MC_THREADS="2")
    if tier == "thorough":
        env["PROBE_DEEP"] = "1"
    return env


def probe_run(binary, tier):
    out = scratch("probe-" + os.path.basename(os.path.dirname(binary)) + os.path.basename(binary))
    try:
        p = subprocess.run([binary, "--out", out], env=probe_env(tier), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=CAP[tier], errors="replace")
    except subprocess.TimeoutExpired:
        return None, "does not terminate within %d s" % CAP[tier]
    if p.returncode != 0 or not os.path.exists(out):
        return None, "ends with %s: %s" % (p.returncode, p.stdout[-1500:])
    secs = probe_read(out)
    os.remove(out)
    return secs, ""


def expected(name, combo):
    f = combo.split(",")
    static = any("static-context" in x for x in f)
    if name.endswith("-plain") and not static:
        return False
    if name.startswith("sign-") and "hmac" not in f:
        return False
    if name == "serde" and "std" not in f and "lazy-static-context" not in f:
        return False
    return True


def features(tier):
    """Transcripts of every build; the violations (dicts) and the coverage report."""
    profiles = ["release", "checked"] + (["dev"] if tier == "thorough" else [])
    cells = [(p, c) for p in profiles for c in COMBOS]
    bins, res, fails = {}, {}, {}
    groups = {}
    for p, c in cells:
        groups.setdefault((p, "std," in c + ","), []).append((p, c))
    sem = threading.Semaphore(4)

    def group(l):
        ts = []
        for x in l:
            b, text = probe_build(*x)
            if b is None:
                fails[x] = "does not build:\n" + text[-3000:]
                continue
            bins[x] = b

            def go(x=x):
                with sem:
                    r, t = probe_run(bins[x], tier)
                if r is None:
                    fails[x] = t
                else:
                    res[x] = r
            t = threading.Thread(target=go)
            t.start()
            ts.append(t)
        [t.join() for t in ts]
    ts = [threading.Thread(target=group, args=(l,)) for l in groups.values()]
    [t.start() for t in ts]
    [t.join() for t in ts]
    ref = next((x for x in cells if x in res), None)
    if ref is None:
        raise NoVerdict("the default build %s" % fails[cells[0]])
    viols, subs = [], []
    word = lambda x: "features [%s], %s profile" % (x[1] or "none", x[0])
    for x in sorted(fails):
        viols.append(dict(sub="build", idx=0, msg="%s: %s" % (word(x), fails[x]), desc="%s is fine" % word(ref), pkg="probe", profile=x[0], a=list(ref), b=list(x)))
    for x in cells:
        if x not in res:
            continue
        for name in [n for n in res[ref] if expected(n, x[1]) and n not in res[x] and not n.startswith("op ")]:
            viols.append(dict(sub=name, idx=0, msg="%s: operation missing" % word(x), desc="", pkg="probe", profile=x[0], a=list(ref), b=list(x)))
    for name in sorted({n for r in res.values() for n in r}):
        have = [x for x in cells if x in res and name in res[x]]
        base = ref if ref in have else have[0]
        n = len(res[base][name]) // 8
        subs.append(dict(name=name, cases=n, states=n, transitions=n * len(have), depth=0, wall=0.0, note="%d builds" % len(have), outcomes={"equal in all builds": n}, samples=[]))
        for x in have:
            a, b = res[base][name], res[x][name]
            if a == b:
                continue
            i = next((k for k in range(min(len(a), len(b)) // 8) if a[8 * k:8 * k + 8] != b[8 * k:8 * k + 8]), 0)
            ex = [subprocess.run([bins[y], "--explain", name, str(i)], env=probe_env(tier), stdout=subprocess.PIPE, text=True).stdout.strip()[:1200] for y in (base, x)]
            viols.append(dict(sub=name, idx=i, msg="%s and %s disagree" % (word(base), word(x)), desc="first: %s\n    second: %s" % tuple(ex), pkg="probe", profile=x[0], a=list(base), b=list(x)))
            break
    for s in subs[:12]:
        e = subprocess.run([bins[ref], "--explain", s["name"], str(s["cases"] // 2)], env=probe_env(tier), stdout=subprocess.PIPE, text=True).stdout.strip()[:300] if s["name"] in res[ref] else ""
        s["samples"] = ["%s[%d] => %s in every build" % (s["name"], s["cases"] // 2, e)]
    return {"subs": subs}, viols


# ---------------------------------------------------------------- interpreted executions (C27)
PARTS = ["group", "recover", "multiply", "der", "cursor", "slices", "public", "tweak", "ecdh", "verify", "sign", "scalars", "serde"]


def miri(part, tier):
    """One part under Miri: (exit status or None, output)."""
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS", "RUST_BACKTRACE", "RUSTUP_TOOLCHAIN"):
        env.pop(k, None)
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "-p", "purity", "--bin", "ub", "--features", "std,hmac,static-context", "--target-dir", os.path.join(TARGET, "miri"), "--", part]
    try:
        p = subprocess.Popen(cmd + (["deep"] if tier == "thorough" else []), cwd=MC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        out, _ = p.communicate(timeout=CAP[tier])
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "not finished within %d s" % CAP[tier]
    except OSError as e:
        return None, str(e)


def interpreted(native, tier):
    """Every part under Miri, against the same part compiled."""
    parts = (["verification-context", "generator-context"] if tier == "thorough" else []) + PARTS
    res, viols, subs = {}, [], []
    t0 = time.time()
    first = miri("serde", tier)
    res["serde"] = first
    if first[0] is None or "could not compile" in first[1] or "error: no such command" in first[1] or "is not installed" in first[1]:
        print("note: the interpreter does not run; undefined behaviour is left to the guarded blocks")
        return {"subs": [dict(name="interpreted", cases=0, states=0, transitions=0, depth=0, wall=0.0, note="interpreter not available: " + errors(first[1])[:300], outcomes={}, samples=[])]}, []
    sem = threading.Semaphore(8)

    def one(x):
        with sem:
            res[x] = miri(x, tier)
    ts = [threading.Thread(target=one, args=(x,)) for x in parts if x != "serde"]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for k, x in enumerate(parts):
        rc, out = res[x]
        n = subprocess.run([native, x] + (["deep"] if tier == "thorough" else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        want = n.stdout.strip().split("\n")[-1]
        have = ([l for l in out.split("\n") if l.startswith(x + " ")] or [""])[-1].strip()
        word = "same results, nothing undefined"
        if "Undefined Behavior" in out:
            word = "undefined behaviour"
        elif rc is None:
            word = "not finished"
        elif "unsupported operation" in out:
            word = "not supported by the interpreter"
        elif n.returncode != 0:
            word = "fails compiled as well (left to the other properties)"
        elif rc != 0:
            word = "ends with an error"
        elif have != want:
            word = "another result than compiled"
        subs.append(dict(name="interpreted " + x, cases=1, states=int(want.split()[-1]) if n.returncode == 0 and want.split() else 0, transitions=1, depth=0, wall=0.0, note=word, outcomes={word: 1}, samples=["%s => %s" % (x, have)]))
        if word in ("undefined behaviour", "ends with an error", "another result than compiled"):
            text = out[max(out.find("error"), 0):]
            viols.append(dict(sub="interpreted " + x, idx=0, msg=word, desc=(text[:1400] or have) + "\n    compiled: " + want, pkg="miri", profile="miri"))
    subs[0]["wall"] = time.time() - t0
    return {"subs": subs}, viols


def build_many(pairs):
    out, errs = {}, []

    def one(pp):
        try:
            out[pp] = build(*pp)
        except NoVerdict as e:
            errs.append(str(e))
    ths = {}
    for pp in pairs:  # one thread per target directory
        ths.setdefault((pp[1], pp[0] if pp[0] == "coremc" or pp[0].endswith("-lazy") else ""), []).append(pp)
    ts = [threading.Thread(target=lambda l=l: [one(x) for x in l]) for l in ths.values()]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise NoVerdict("\n".join(errs))
    return out


def scratch(name):
    d = os.path.join(TARGET, "tmp")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s.%d" % (name, os.getpid()))


def execute(binary, prop, tier, only=None, quiet=False):
    """Runs one binary; returns (returncode or None on timeout, report or None, inflight cases)."""
    out, infl = scratch("report"), scratch("inflight")
    for f in (out, infl):
        if os.path.exists(f):
            os.remove(f)
    cmd = [binary, prop, "--tier", tier, "--out", out, "--inflight", infl]
    if only:
        cmd += ["--only", only]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=TARGET)
    timer = threading.Timer(CAP[tier], p.kill)
    timer.start()
    text, _ = p.communicate()
    late = not timer.is_alive()
    timer.cancel()
    if text.strip() and not quiet:
        print(text.rstrip()[:20000])
    rep, cases = None, []
    if os.path.exists(out):
        with open(out) as f:
            rep = json.load(f)
        os.remove(out)
    if os.path.exists(infl):
        with open(infl, "rb") as f:
            raw = f.read()
        os.remove(infl)
        if len(raw) >= 4096:
            name = raw[:128].split(b"\0")[0].decode("utf-8", "replace")
            cases = [(name, v - 1) for v in struct.unpack("<%dQ" % ((4096 - 128) // 8), raw[128:4096]) if v]
    return (None if late else p.returncode), rep, cases, text


def run_one(pkg, profile, binary, prop, tier):
    """One binary in one profile: (report, [violation dicts])."""
    rc, rep, cases, text = execute(binary, prop, tier)
    if rc is None:
        raise NoVerdict("%s %s (%s) exceeded its time cap" % (pkg, prop, profile))
    if rc in (0, 1) and rep is not None:
        v = [dict(x, pkg=pkg, profile=profile) for x in rep["violations"]]
        if (rc == 1) != bool(v):
            raise NoVerdict("inconsistent report")
        return rep, v
    if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE):
        # the process died inside some case: find the case that does it on its own
        for name, idx in cases:
            rc2, _, _, t2 = execute(binary, prop, tier, "%s:%d" % (name, idx), quiet=True)
            if rc2 is not None and rc2 < 0 and -rc2 in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE):
                return None, [dict(sub=name, idx=idx, msg="process killed by %s" % signal.Signals(-rc2).name, desc=t2[-2000:], pkg=pkg, profile=profile)]
            if rc2 == 1:
                return None, [dict(sub=name, idx=idx, msg="case fails", desc=t2[-2000:], pkg=pkg, profile=profile)]
    raise NoVerdict("%s %s (%s) ended with %s and no report: %s" % (pkg, prop, profile, rc, text[-2000:]))


def known():
    fixed, listed = [], []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: "):
                f = dict(x.split("=", 1) for x in l[9:].split(" ", 3)[:3] if "=" in x)
                f["text"] = l[9:].split(" ", 3)[-1]
                listed.append(f)
    return listed


def evidence(prop, tier, reports, viols, wall, extra=None):
    subs = {}
    states = transitions = traces = 0
    samples, exhaustive = [], True
    byname = {}
    for pkg, profile, rep in reports:
        for s in rep["subs"]:
            k = pkg + "/" + s["name"]
            traces += s["cases"] if s["depth"] == 0 else s["transitions"]
            transitions += s["transitions"]
            byname.setdefault(k, {})[profile] = s
            if "cap hit" in s["note"]:
                exhaustive = False
    for k, d in byname.items():
        s = next(iter(d.values()))
        states += max(x["states"] for x in d.values())
        subs[k] = {"states": s["states"], "transitions": s["transitions"], "depth": s["depth"], "outcomes": s["outcomes"],
                   "note": s["note"], "seconds": {p: round(x["wall"], 2) for p, x in d.items()}}
        samples += s["samples"][:2]
    cov = {"states": states, "transitions": transitions, "traces_validated_against_impl": traces,
           "samples": samples[:40], "exhaustive": exhaustive, "spaces": subs,
           "explanation": "states: distinct cases/states of the bounded spaces (each executed on the real code); transitions: implementation "
                          "calls whose result was compared with the reference model, over all build profiles; traces_validated_against_impl: "
                          "case executions (sweeps) or explored edges (breadth-first searches), over all build profiles"}
    if extra:
        cov.update(extra)
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
          "assumptions": ["values outside the stated alphabets are not covered", "the reference model in mc/refmodel is right"],
          "wall_s": round(wall, 2), "violations": len(viols)}
    tmp = os.path.join(EVID, prop + ".json.tmp%d" % os.getpid())
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(EVID, prop + ".json"))


def decide(prop, tier):
    t0 = time.time()
    plan = PLAN[prop]
    if plan == [FEATURES]:
        rep, viols = features(tier)
        return conclude(prop, tier, [("probe", "all", rep)], viols, t0)
    bins = build_many([(p, pr) for p, prs in plan for pr in prs])
    reports, viols = [], []
    for pkg, profiles in plan:
        for profile in profiles:
            if bins[(pkg, profile)] is None:
                continue
            if pkg == "ub":
                rep, v = interpreted(bins[(pkg, profile)], tier)
                reports.append((pkg, "miri", rep))
                viols += v
                continue
            rep, v = run_one(pkg, profile, bins[(pkg, profile)], prop, tier)
            if rep:
                reports.append((pkg, profile, rep))
            viols += v
            if viols:
                break
        if viols:
            break
    return conclude(prop, tier, reports, viols, t0)


def conclude(prop, tier, reports, viols, t0):
    new = []
    for v in viols:
        hit = next((f for f in known() if f.get("property") == prop and f.get("at") == "%s:%s" % (v["sub"], v["idx"])), None)
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit["text"]))
        else:
            new.append(v)
    evidence(prop, tier, reports, new, time.time() - t0)
    if not new:
        print("%s: held on everything explored (%s, %.1f s)" % (prop, tier, time.time() - t0))
        return 0
    os.makedirs(REPLAYS, exist_ok=True)
    for k, v in enumerate(new[:5]):
        path = os.path.join(REPLAYS, "%s-%s-%d.json" % (prop, v["profile"], k))
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, tier=tier, replay="python3 check.py replay %s" % path), f, indent=1)
        print("  %s[%s] %s: %s\n    %s" % (v["sub"], v["idx"], v["profile"], v["msg"], v["desc"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def replay(path):
    v = json.load(open(path))
    if v["pkg"] == "probe":
        outs = []
        for x in (v["a"], v["b"]):
            b, text = probe_build(*x)
            outs.append(text if b is None else subprocess.run([b, "--explain", v["sub"], str(v["idx"])], env=probe_env(v["tier"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout if v["sub"] != "build" else "builds")
            print("%s: %s" % (x, outs[-1][-3000:]))
        return 0 if outs[0] == outs[1] else 1
    if v["pkg"] == "miri":
        rep, viols = interpreted(build("ub", "checked"), v["tier"])
        [print("  %s: %s\n    %s" % (x["sub"], x["msg"], x["desc"])) for x in viols]
        return 1 if viols else 0
    b = build(v["pkg"], v["profile"])
    rc, rep, _, _ = execute(b, v["property"], v["tier"], "%s:%s" % (v["sub"], v["idx"]))
    print("replayed: exit %s" % rc)
    return 0 if rc == 0 else 1


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    os.makedirs(TARGET, exist_ok=True)
    if a[0] == "setup":
        build_many(sorted({(p, pr) for pl in PLAN.values() for p, prs in pl for pr in prs}))
        for pr in ("release", "checked"):
            for c in COMBOS:
                probe_build(pr, c)
        return 0
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "conform":
        td = os.path.join(TARGET, "conform")
        r = cargo(["cargo", "build", "--offline", "--release", "--target-dir", td], cwd=os.path.join(MC, "conform"))
        if r.returncode:
            raise NoVerdict("build of conform failed:\n" + r.stdout[-3000:])
        rc, rep, _, _ = execute(os.path.join(td, "release", "conform"), "conform", "thorough")
        for s in (rep or {}).get("subs", []):
            print("%-28s %9d cases %6.1fs  %s" % (s["name"], s["cases"], s["wall"], s["outcomes"]))
        print("the reference model and the C library agree" if rc == 0 else "DISAGREEMENT or no answer (exit %s)" % rc)
        return 0 if rc == 0 else 1
    tier = a[1] if len(a) > 1 else "quick"
    if a[0] == "all":
        bad = 0
        for p in sorted(PLAN):
            t = time.time()
            r = subprocess.run([sys.executable, os.path.abspath(__file__), p, tier], stdout=subprocess.PIPE, text=True)
            print(p, {0: "ok", 1: "VIOLATION"}.get(r.returncode, "NO VERDICT"), "%.1fs" % (time.time() - t), flush=True)
            if r.returncode:
                print(r.stdout[-1500:])
                bad = 1
        return bad
    if a[0] not in PLAN:
        print("unknown property", a[0])
        return 2
    return decide(a[0], tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        print("NO VERDICT:", e)
        sys.exit(3)
