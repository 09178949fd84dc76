"""Builds the MIR server, and makes the compiler record the analysis crate against /repo's current working tree."""
import fcntl, glob, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
NIGHTLY = "nightly"


class BuildError(Exception):
    pass


def base_env():
    env = dict(os.environ)
    try:
        o = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
        for kv in o.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                env[k.decode()] = v.decode()
    except OSError:
        pass
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    # the toolchain the repository is pinned to provides cargo (and the registry it knows)
    return env


def sysroot(env):
    return subprocess.check_output(["rustup", "run", NIGHTLY, "rustc", "--print", "sysroot"], env=env, text=True).strip()


def run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s failed:\n%s" % (what, p.stdout[-6000:]))
    return p.stdout


def driver(env):
    d = os.path.join(OUT, "drv", "debug", "mirserve")
    src = [os.path.join(VERIF, "driver", "src", "main.rs"), os.path.join(VERIF, "driver", "Cargo.toml")]
    stamp = d + ".src"
    text = "".join(open(s).read() for s in src)
    if os.path.exists(d) and os.path.exists(stamp) and open(stamp).read() == text:
        return d
    e = dict(env, CARGO_TARGET_DIR=os.path.join(OUT, "drv"))
    e.pop("RUSTUP_TOOLCHAIN", None)
    run(["cargo", "+" + NIGHTLY, "build", "--offline"], os.path.join(VERIF, "driver"), e, "building the MIR server")
    open(stamp, "w").write(text)
    return d


def repo_builds():
    """Does the repository build by itself (libraries, every feature)?"""
    env = base_env()
    d = tempfile.mkdtemp(prefix="repo-")
    env["CARGO_TARGET_DIR"] = d
    try:
        return not subprocess.run(["cargo", "check", "--offline", "--all-features", "--manifest-path", "/repo/Cargo.toml"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


def prepare(quiet=True):
    """Returns (recorded arguments, driver path, libdir, sysroot env) for the current tree."""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = base_env()
        sr = sysroot(env)
        d = driver(env)
        tgt = os.path.join(OUT, "h")
        # every run compiles the crates under analysis afresh
        for f in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "*")):
            b = os.path.basename(f)
            if b.startswith("oasis-cbor") or b.startswith("vh-"):
                shutil.rmtree(f, ignore_errors=True)
        rec = os.path.join(OUT, "args.json")
        if os.path.exists(rec):
            os.unlink(rec)
        e = dict(env)
        e.update({"CARGO_TARGET_DIR": tgt, "LD_LIBRARY_PATH": sr + "/lib", "RUSTC": sr + "/bin/rustc", "RUSTC_WORKSPACE_WRAPPER": d,
                  "MIRSERVE_RECORD": rec, "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints allow"})
        run(["cargo", "check", "--offline"], os.path.join(VERIF, "harness"), e, "compiling the crates under analysis")
        if not os.path.exists(rec):
            raise BuildError("the compiler did not record the analysis crate")
        return rec, d, sr + "/lib", e


if __name__ == "__main__":
    print(prepare()[0])
