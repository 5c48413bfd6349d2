#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough : decide one property on /repo's current working tree.
   check.py --setup                 : build everything once.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Exit 2: no answer."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
MC = os.path.join(VERIF, "mc")
KNOWN = os.path.join(VERIF, "known-findings.txt")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN, ASSUME  # noqa: E402

ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET,
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin")
for k in ("CARGO_INCREMENTAL", "CARGO_PROFILE_DEV_DEBUG", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
CRATES = ["pest3", "pest3_core", "pest3_meta", "pest3_generator", "pest3_derive"]
START = time.time()


class Broken(Exception):
    """The machinery itself gave no answer."""


def run(cmd, cwd, timeout, log=None):
    """Returns (returncode, output). A negative code is a signal; 'timeout' when out of time."""
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = "timeout"
    out = out.decode("utf-8", "replace")
    if log:
        os.makedirs(os.path.dirname(log), exist_ok=True)
        open(log, "w").write(out)
    return rc, out


def sources():
    """Hash of everything of /repo that a build can see."""
    h = hashlib.sha256()
    for d in ["Cargo.toml", "core", "generator", "meta", "derive", "pest"]:
        p = os.path.join(REPO, d)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(a, f) for a, _, fs in os.walk(p) for f in fs
            if (f.endswith((".rs", ".toml", ".pest")) and "/target/" not in a + "/"
                and not f.startswith("generated")))
        for f in files:
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()


def freshen():
    """Cargo goes by time stamps; a tree that was swapped may carry old ones."""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "repo.sha256")
    now = sources()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        if old:
            for sub in ["debug/.fingerprint"]:
                d = os.path.join(TARGET, sub)
                if os.path.isdir(d):
                    for n in os.listdir(d):
                        if n.startswith("pest3"):
                            shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        open(stamp, "w").write(now)


def build(pkgs, cwd=MC, timeout=800):
    cmd = ["cargo", "build", "--offline", "-q"]
    for p in pkgs:
        cmd += ["-p", p]
    rc, out = run(cmd, cwd, timeout)
    return rc, out


def bin_(name):
    return os.path.join(TARGET, "debug", name)


def parse(path):
    return json.load(open(path))


def crash(engine, rc, out):
    tail = out.strip().splitlines()[-15:]
    sig = f"signal {-rc}" if isinstance(rc, int) and rc < 0 else f"exit {rc}"
    return {"engine": engine, "spaces": [{
        "space": "engine run", "states": 0, "transitions": 0, "traces": 0, "evaluations": 0,
        "nontrivial": 0, "skipped": 0, "nviol": 1, "outcomes": {}, "samples": [],
        "violations": [{"rank": 0, "key": f"{engine} ended with {sig}",
                        "detail": "the code under test ended the process: " + " / ".join(tail)}]}]}


def one_engine(binary, prop, tier, deadline, name=None, cwd=MC, extra=()):
    """Runs `binary PROP TIER OUT`."""
    name = name or os.path.basename(binary)
    out = os.path.join(TARGET, f"out-{name}-{prop}-{tier}.json")
    if os.path.exists(out):
        os.unlink(out)
    rc, log = run([binary, prop, tier, out, *extra], cwd, max(30, deadline - time.time()))
    sys.stderr.write(log)
    if rc in (0, 1) and os.path.exists(out):
        return parse(out)
    if rc in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
        # Stack overflow or abort inside the code under test.
        return crash(name, rc, log)
    raise Broken(f"{name} {prop} {tier}: exit {rc}\n" + "\n".join(log.splitlines()[-30:]))


def known():
    """Lines: `property=<id> key=<key>` and `fixed: property=<id> <commit> <what failed>`."""
    k = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"property=(\S+) key=(.*)$", l.rstrip("\n"))
            if m:
                k.setdefault(m.group(1), set()).add(m.group(2))
    return k


def main():
    if sys.argv[1:] == ["--setup"]:
        os.makedirs(TARGET, exist_ok=True)
        with open(os.path.join(TARGET, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            freshen()
            rc, out = run(["cargo", "build", "--offline", "-q"], MC, 1500)
        sys.stderr.write(out)
        sys.exit(0 if rc == 0 else 2)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    budget = 840 if tier == "quick" else 6 * 3600
    deadline = START + budget
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        freshen()
        parts = []
        for step in PLAN[prop]:
            if step == "fam":
                import fam
                parts += fam.go(sys.modules[__name__], prop, tier, deadline)
            else:
                rc, out = build([step])
                if rc != 0:
                    raise Broken(f"{step} does not build (exit {rc})\n{out[-6000:]}")
                parts.append(one_engine(bin_(step), prop, tier, deadline))
    finish(prop, tier, parts)


def finish(prop, tier, parts):
    tot = dict(states=0, transitions=0, traces=0, evaluations=0, nontrivial=0, skipped=0)
    spaces, samples, viols, nviol = [], [], [], 0
    for e in parts:
        for s in e["spaces"]:
            for k in tot:
                tot[k] += s[k]
            spaces.append({"engine": e["engine"], "space": s["space"], "states": s["states"],
                           "transitions": s["transitions"], "traces": s["traces"],
                           "skipped_divergent": s["skipped"], "outcomes": s["outcomes"]})
            samples += s["samples"][:2]
            nviol += s["nviol"]
            viols += [dict(v, engine=e["engine"], space=s["space"]) for v in s["violations"]]
    kn = known().get(prop, set())
    seen = sorted({v["key"] for v in viols if v["key"] in kn})
    new = sorted((v for v in viols if v["key"] not in kn), key=lambda v: (v["rank"], v["key"]))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["traces"],
            "distinct_nontrivial": tot["nontrivial"],
            "skipped_divergent": tot["skipped"],
            "rule": "every member of each listed space is enumerated; states are distinct "
                    "(node, position, stack) configurations of the reference per case, transitions its steps; "
                    "a trace is one run of the real code compared with the reference; non-trivial: see DESIGN.md",
            "exhaustive": True,
            "spaces": spaces,
            "samples": samples[:40] or ["none"],
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - START, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for k in seen:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", f"{prop}-{tier}.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "tier": tier, "violations": new[:20],
                       "how": f"python3 tools/check.py {prop} {tier}"}, f, indent=1, ensure_ascii=False)
        for v in new[:5]:
            sys.stderr.write(f"  {v['engine']} / {v['space']}: {v['key']}\n    {v['detail'][:1500]}\n")
        print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    if tot["traces"] == 0:
        raise Broken("nothing was explored")
    print(f"OK property={prop} tier={tier} states={tot['states']} transitions={tot['transitions']} "
          f"traces={tot['traces']} wall={time.time() - START:.1f}s")
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except Broken as e:
        sys.stderr.write(f"NO ANSWER: {e}\n")
        sys.exit(2)
