#!/usr/bin/env python3
"""Run one property's check: build the explorer against /repo's working tree, run every build variant,
merge what they covered into evidence/<id>.json.

  check.py C04 quick|thorough      exit 0: held; exit 1 + VIOLATION line; anything else: error of the check
  check.py --replay evidence/C04.replay.json
  check.py --setup                 build everything
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
EVID = os.path.join(HERE, "evidence")
ERR = 2

# build variants explored per property (rel: optimised; chk: debug assertions, overflow checks and std's
# unsafe-precondition checks; be: big-endian length word)
VARIANTS = {"C03": ["rel", "chk", "be"], "C23": ["rel", "chk", "be"], "C25": ["rel"]}
LEVEL = "model_checking"


def variants(prop):
    return VARIANTS.get(prop, ["rel", "chk"])


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "src"), os.path.join(HERE, "mc", "src")):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, "Cargo.toml"), os.path.join(HERE, "mc", "Cargo.toml"), os.path.join(HERE, "mc", "Cargo.lock")]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def old_toolchain(target, args):
    """cargo 1.70 driving rustc 1.69, as the project's own build does"""
    t = "/root/.rustup/toolchains"
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_INCREMENTAL", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOC"):
        env.pop(k, None)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="1.70.0", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
               RUSTC=t + "/1.69.0-x86_64-unknown-linux-gnu/bin/rustc", CARGO_TARGET_DIR=target)
    return [t + "/1.70.0-x86_64-unknown-linux-gnu/bin/cargo", "build", "--offline", "--locked"] + args, env


def new_toolchain(target, args):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_INCREMENTAL", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "RUSTDOC", "CARGO"):
        env.pop(k, None)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
               CARGO_TARGET_DIR=target, PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""))
    return ["cargo", "build", "--offline", "--locked"] + args, env


def build(var):
    """Build one variant; returns (binary, how) or exits with an error."""
    target = os.path.join(TARGET, var)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(TARGET, var + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(target, "vstamp")
        want = tree_hash()
        have = open(stamp).read().split("\n") if os.path.exists(stamp) else ["", "", ""]
        if have[0] == want and os.path.exists(have[1]):
            return have[1], have[2]
        # never trust time stamps: forget what was built from other sources
        if os.path.exists(stamp):
            os.remove(stamp)
        for d in glob.glob(os.path.join(target, "*", ".fingerprint", "pgnumeric-*")) + glob.glob(os.path.join(target, "*", ".fingerprint", "mc-*")):
            shutil.rmtree(d, ignore_errors=True)
        if var == "chk":
            tries = [("stable rustc, debug assertions, overflow checks, std precondition checks", new_toolchain, ["--profile", "chk"], "chk"),
                     ("rustc 1.69, debug assertions, overflow checks", old_toolchain, ["--profile", "chk"], "chk")]
        else:
            extra = ["--features", "be"] if var == "be" else []
            tries = [("rustc 1.69 (the project's), optimised", old_toolchain, ["--release"] + extra, "release")]
        for how, tool, args, out in tries:
            cmd, env = tool(target, args)
            p = subprocess.run(cmd, cwd=os.path.join(HERE, "mc"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 0:
                b = os.path.join(target, out, "mc")
                with open(stamp, "w") as f:
                    f.write("\n".join([want, b, how]))
                return b, how
            sys.stderr.write("build of %s (%s) failed:\n%s\n" % (var, how, p.stdout[-4000:]))
        sys.exit(ERR)


def known_keys(prop):
    keys = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % prop):
                _, key, what = line.rstrip("\n").split(" || ")
                keys[key] = what
    return keys


def run_variant(prop, tier, var, binary, secs, keys, hard):
    os.makedirs(EVID, exist_ok=True)
    out = os.path.join(EVID, "%s.%s.tmp.json" % (prop, var))
    kf = os.path.join(EVID, "%s.known.tmp" % prop)
    with open(kf, "w") as f:
        f.write("\n".join(keys))
    if os.path.exists(out):
        os.remove(out)
    cmd = [binary, "run", "--prop", prop, "--tier", tier, "--variant", var, "--secs", str(secs), "--out", out, "--known", kf]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=hard)
    except subprocess.TimeoutExpired:
        sys.stderr.write("%s: explorer (%s) did not end within %d s\n" % (prop, var, hard))
        sys.exit(ERR)
    finally:
        os.remove(kf)
    sys.stderr.write(p.stderr[-6000:])
    res = None
    if os.path.exists(out):
        res = json.load(open(out))
        os.remove(out)
    return p.returncode, p.stdout, res, time.time() - t0


def violation(prop, tier, var, space, index, case, msg, ev):
    rp = os.path.join(EVID, prop + ".replay.json")
    with open(rp, "w") as f:
        json.dump({"property": prop, "tier": tier, "variant": var, "space": space, "index": index, "case": case[:4000], "message": msg[:4000],
                   "replay": "python3 /verif/check.py --replay " + rp}, f, indent=1)
    write_evidence(prop, tier, ev, 1)
    print("%s violated (%s build)\n  space: %s, index %s\n  case: %s\n  %s" % (prop, var, space, index, case[:600], msg[:1500]))
    print("VIOLATION property=%s replay=%s" % (prop, rp))
    sys.exit(1)


def write_evidence(prop, tier, ev, nviol):
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": True, "samples": [], "variants": [],
           "counting": "states: distinct observed result states (64-bit hashes folded into a 2^27-bit set: a lower bound); transitions: calls of the real library; "
                       "traces_validated_against_impl: enumerated executions (cases), each run on the real library in lockstep with the reference model"}
    for var, how, res, wall in ev["parts"]:
        cov["states"] += res["states"]
        cov["transitions"] += res["transitions"]
        cov["traces_validated_against_impl"] += res["cases"]
        spaces = []
        for s in res["spaces"]:
            if not s["complete"]:
                cov["exhaustive"] = False
            d = {"name": s["name"], "executions": s["cases"], "of": s["size"], "transitions": s["transitions"], "complete": s["complete"], "wall_s": s["wall_s"]}
            if s["notes"]:
                d["notes"] = s["notes"][:8]
            spaces.append(d)
            for x in s["samples"][1:3]:
                if len(cov["samples"]) < 24:
                    cov["samples"].append("%s: %s" % (s["name"], x[:160]))
        cov["variants"].append({"variant": var, "build": how, "wall_s": round(wall, 1), "spaces": spaces})
    doc = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": LEVEL, "coverage": cov,
           "assumptions": ["values outside the enumerated alphabets are not covered", "the reference model (mc/src/dec.rs, big.rs) is trusted; it shares no code with the library"],
           "wall_s": round(time.time() - ev["t0"], 2), "violations": nviol}
    text = json.dumps(doc, indent=1)
    while len(text) > 60000 and cov["samples"]:
        cov["samples"].pop()
        for v in cov["variants"]:
            for s in v["spaces"]:
                s.pop("notes", None)
        text = json.dumps(doc)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        f.write(text + "\n")


def field(line, name):
    return line.split(name + "=")[1].split()[0]


def check(prop, tier):
    t0 = time.time()
    keys = known_keys(prop)
    ev = {"t0": t0, "parts": []}
    rp = os.path.join(EVID, prop + ".replay.json")
    if os.path.exists(rp):
        os.remove(rp)
    vs = variants(prop)
    # all variants must be built before the budget of the exploration starts
    bins = [(v,) + build(v) for v in vs]
    # seconds of exploration per variant
    budget = (400 if prop == "C25" else 160) if tier == "quick" else 1500
    left = (840 - (time.time() - t0)) if tier == "quick" else 10 ** 6
    hits = set()
    for i, (var, binary, how) in enumerate(bins):
        hard = budget + 200
        if tier == "quick":
            left = 850 - (time.time() - t0)
            hard = max(60, min(hard, left))
        secs = int(min(budget, max(20, hard - 100)))
        rc, out, res, wall = run_variant(prop, tier, var, binary, secs, keys, hard)
        if res is not None:
            ev["parts"].append((var, how, res, wall))
            hits.update(res["known"])
        if rc == 1 and res is not None and res["failures"]:
            f = res["failures"][0]
            violation(prop, tier, var, f["space"], f["index"], f["case"], f["message"], ev)
        if rc == 77:
            line = [l for l in out.splitlines() if l.startswith(("CRASH", "HANG"))][-1]
            space, index = "#" + field(line, "space"), int(field(line, "index"))
            # confirm: the same single execution must crash or hang again in a fresh process
            cmd = [binary, "replay", "--prop", prop, "--tier", tier, "--variant", var, "--space", space, "--index", str(index)]
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=100)
                again, desc = p.returncode in (77, 1), p.stdout
            except subprocess.TimeoutExpired as e:
                again, desc = line.startswith("HANG"), (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
            if not again and line.startswith("HANG"):
                sys.stderr.write("execution exceeded its time limit once but not on replay: %s\n" % line)
                sys.exit(ERR)
            case = " ".join(l.strip()[6:] for l in desc.splitlines() if l.strip().startswith("case:"))
            violation(prop, tier, var, space, index, case, line + ("" if again else " (only after the preceding executions)"), ev)
        if rc != 0 or res is None:
            sys.stderr.write("%s: explorer (%s) ended with %s\n%s\n" % (prop, var, rc, out[-3000:]))
            sys.exit(ERR)
    for k in sorted(hits):
        print("KNOWN-FINDING: property=%s %s" % (prop, keys.get(k, k)))
    write_evidence(prop, tier, ev, 0)
    tot = sum(r["cases"] for _, _, r, _ in ev["parts"]), sum(r["transitions"] for _, _, r, _ in ev["parts"]), sum(r["states"] for _, _, r, _ in ev["parts"])
    print("%s held: %d executions, %d transitions, %d states, %.1f s" % ((prop,) + tot + (time.time() - t0,)))


def replay(path):
    r = json.load(open(path))
    binary, _ = build(r["variant"])
    sys.exit(subprocess.run([binary, "replay", "--prop", r["property"], "--tier", r["tier"], "--variant", r["variant"], "--space", r["space"],
                             "--index", str(r["index"])]).returncode)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for v in ("rel", "chk", "be"):
            print(v, build(v))
    elif len(a) == 2 and a[0] == "--replay":
        replay(a[1])
    elif len(a) == 2 and a[1] in ("quick", "thorough"):
        check(a[0], a[1])
    else:
        sys.stderr.write(__doc__)
        sys.exit(ERR)


if __name__ == "__main__":
    main()
