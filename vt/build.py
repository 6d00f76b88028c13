"""Builds what a check needs from /repo's current working tree: the engine, the LLVM IR of the harness
linked with the real code, and the native replayer."""
import fcntl, glob, hashlib, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = os.path.join(VERIF, "build")
TC = "stable-x86_64-unknown-linux-gnu"
PASSES = "internalize,globaldce,function(lower-invoke,lower-atomic,scalarizer<load-store>,simplifycfg,dce),globaldce"


def env(target):
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e.update(CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["RUSTC_WRAPPER"] = ""
    return e


def files(root, exts, skip=()):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in (".git", "target", "build", "seeded", "evidence"))
        for f in sorted(fs):
            if f.endswith(exts) and os.path.join(d, f) not in skip:
                out.append(os.path.join(d, f))
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def generated():
    return [g[: -len(".lalrpop")] + ".rs" for g in glob.glob(REPO + "/src/**/*.lalrpop", recursive=True)]


def repo_digest():
    return digest(files(REPO, (".rs", ".lalrpop", ".toml", ".lock"), set(generated())))


class BuildError(Exception):
    pass


def run(cmd, cwd, e, log):
    with open(log, "w") as f:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        tail = open(log).read()[-3000:]
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), tail))


def stamp_ok(name, d):
    try:
        return open(os.path.join(B, name + ".stamp")).read() == d
    except OSError:
        return False


def stamp(name, d):
    open(os.path.join(B, name + ".stamp"), "w").write(d)


def forget(target):
    """a file put back with an old mtime, or an edited generated parser, must not go unnoticed"""
    for p in glob.glob(target + "/release/.fingerprint/luafmt-*") + glob.glob(target + "/release/.fingerprint/harness-*"):
        subprocess.run(["rm", "-rf", p])


def build():
    """returns (engine, ir, replay)"""
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        eng = os.path.join(B, "engine", "release", "symx")
        ir = os.path.join(B, "harness.ll")
        rep = os.path.join(B, "target", "release", "replay")
        tgt = os.path.join(B, "target")
        procs = []
        ed = digest(files(VERIF + "/engine", (".rs", ".toml", ".lock")))
        if not (os.path.exists(eng) and stamp_ok("engine", ed)):
            f = open(os.path.join(B, "engine.log"), "w")
            procs.append(subprocess.Popen(["cargo", "build", "--release", "--offline"], cwd=VERIF + "/engine", env=env(os.path.join(B, "engine")), stdout=f, stderr=subprocess.STDOUT))
        rd = repo_digest() + digest(files(VERIF + "/harness", (".rs", ".toml", ".lock")) + files(VERIF + "/stubs", (".rs", ".toml")))
        if not (os.path.exists(ir) and os.path.exists(rep) and stamp_ok("harness", rd)):
            forget(tgt)
            if not stamp_ok("harness", rd):
                for g in generated():
                    if os.path.exists(g):
                        os.remove(g)
            if not os.path.exists(REPO + "/Cargo.lock") and os.path.exists("/opt/vp/Cargo.lock"):
                pass  # the harness crates carry their own lock files
            t = env(tgt)
            run(["cargo", "rustc", "--release", "--offline", "--features", "symbolic", "--", "--emit=llvm-ir"], VERIF + "/harness/sym", t, B + "/sym.log")
            lls = sorted(glob.glob(tgt + "/release/deps/harness-*.ll"), key=os.path.getmtime)
            if not lls:
                raise BuildError("no IR produced")
            ll = lls[-1]
            for x in lls[:-1]:
                os.remove(x)
            # native replayer in the background of the IR post-processing
            f2 = open(os.path.join(B, "native.log"), "w")
            p2 = subprocess.Popen(["cargo", "build", "--release", "--offline"], cwd=VERIF + "/harness/native", env=t, stdout=f2, stderr=subprocess.STDOUT)
            api = sorted({l.split("@", 1)[1].split("(")[0] for l in open(ll) if l.startswith("define") and "@h_" in l})
            home = os.environ.get("RUSTUP_HOME") or "/root/.rustup"
            opt = "%s/toolchains/%s/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt" % (home, TC)
            run([opt, "-S", "-passes=" + PASSES, "-internalize-public-api-list=" + ",".join(api), ll, "-o", ir], B, t, B + "/opt.log")
            if p2.wait() != 0:
                raise BuildError("native replayer: " + open(B + "/native.log").read()[-3000:])
            stamp("harness", rd)
        for p in procs:
            if p.wait() != 0:
                raise BuildError("engine: " + open(B + "/engine.log").read()[-3000:])
            stamp("engine", ed)
        return eng, ir, rep
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == "__main__":
    t0 = time.time()
    try:
        print(build(), "%.1fs" % (time.time() - t0))
    except BuildError as e:
        print("BUILD-ERROR", e)
        sys.exit(2)
