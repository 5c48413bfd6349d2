"""Families of derived grammars: generate the programs, build them with the real derive macro, run them."""
import glob, os, re, shutil, signal, subprocess, time

SHARDS = 8
PROBE = '''#![allow(warnings)]
mod g { #[derive(pest3::Parser)] #[grammar_inline = "a = \\"x\\"\\n"] pub struct P; }
fn main() { let _ = <g::rules::a as pest3::typed::TypedNode<g::Rule>>::check("x"); }
'''
PROFILE = '''[profile.dev]
opt-level = 0
debug = 0
incremental = false
debug-assertions = true
overflow-checks = true

[profile.dev.package."*"]
opt-level = 2

[profile.dev.build-override]
opt-level = 1
'''


def viol(engine, space, key, detail):
    return {"engine": engine, "spaces": [{
        "space": space, "states": 0, "transitions": 0, "traces": 1, "evaluations": 1, "nontrivial": 1,
        "skipped": 0, "nviol": 1, "outcomes": {}, "samples": [],
        "violations": [{"rank": 0, "key": key, "detail": detail}]}]}


def errors(out):
    """The error messages of a cargo run, without warnings."""
    keep, on = [], False
    for l in out.splitlines():
        if re.match(r"error(\[|:)", l):
            on = True
        elif re.match(r"warning(\[|:)", l):
            on = False
        if on:
            keep.append(l)
    return "\n".join(keep)


def probe(c, timeout):
    """Does the derive macro work at all?"""
    d = os.path.join(c.TARGET, "fam", "probe")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    open(os.path.join(d, "src", "main.rs"), "w").write(PROBE)
    open(os.path.join(d, "Cargo.toml"), "w").write(
        '[workspace]\n[package]\nname = "fam-probe"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\n'
        f'pest3 = {{ path = "{c.REPO}/pest", features = ["derive"] }}\n\n' + PROFILE)
    shutil.copy(os.path.join(c.MC, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    return c.run(["cargo", "build", "--offline", "-q"], d, timeout)


def go(c, prop, tier, deadline):
    rc, out = c.build(["fams", "famrt"])
    if rc != 0:
        raise c.Broken(f"fams does not build\n{errors(out)[-4000:]}")
    base = os.path.join(c.TARGET, "fam", f"{prop}-{tier}")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    rc, out = c.run([c.bin_("famgen"), prop, tier, base, str(SHARDS)], c.MC, 300)
    if rc != 0:
        raise c.Broken(f"famgen: {out[-3000:]}")
    names = sorted(os.path.basename(d) for d in glob.glob(os.path.join(base, "s*")) if os.path.isdir(d))
    bins = [c.bin_(f"fam-{prop}-{tier}-{n}") for n in names]

    def runs(bs):
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(c.one_engine, b, prop, tier, deadline) for b in bs]
            return [f.result() for f in fs]

    early, done, start = [], [], time.time()
    log = os.path.join(base, "cargo.log")
    cargo = subprocess.Popen(["cargo", "build", "--offline", "-q"], cwd=base, env=c.ENV, stdout=open(log, "wb"),
                             stderr=subprocess.STDOUT, start_new_session=True)
    try:
        try:
            # Most programs are there after a minute. One that a fault lets grow without end keeps the others waiting.
            rc = cargo.wait(max(60, (deadline - start) / 3))
        except subprocess.TimeoutExpired:
            if re.search(f"^error: could not compile .fam-{prop}-{tier}-", open(log, errors="replace").read(), re.M):
                rc = 101
            else:
                done = [b for b in bins if os.path.exists(b) and os.path.getmtime(b) >= start]
                early = runs(done)
                if any(s["nviol"] for p in early for s in p["spaces"]):
                    return [dict(p, spaces=[s for s in p["spaces"] if s["nviol"]]) for p in early]
                try:
                    rc = cargo.wait(max(10, deadline - time.time()))
                except subprocess.TimeoutExpired:
                    raise c.Broken("the families took too long to compile")
    finally:
        if cargo.poll() is None:
            os.killpg(cargo.pid, signal.SIGKILL)
            cargo.wait()
    out = open(log, errors="replace").read()
    if rc != 0:
        prc, pout = probe(c, 300)
        if prc != 0:
            raise c.Broken(f"no derived grammar compiles\n{errors(pout)[-3000:]}")
        err = errors(out)
        first = err.splitlines()[0] if err else "cargo failed"
        return [viol("derive macro", "compiling the families", f"a derived grammar does not compile: {first}", err[:3000])]
    merged = {}
    parts = early + runs([b for b in bins if b not in done])
    for p in parts:
        for s in p["spaces"]:
            k = (p["engine"], s["space"])
            if k not in merged:
                merged[k] = s
                continue
            m = merged[k]
            for f in ("states", "transitions", "traces", "evaluations", "nontrivial", "skipped", "nviol"):
                m[f] += s[f]
            for o, n in s["outcomes"].items():
                m["outcomes"][o] = m["outcomes"].get(o, 0) + n
            m["samples"] = (m["samples"] + s["samples"])[:6]
            m["violations"] += s["violations"]
    return [{"engine": e, "spaces": [s]} for (e, _), s in merged.items()]
