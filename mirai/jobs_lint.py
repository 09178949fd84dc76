"""Effect lints over the MIR of every function of the libraries, and of the code their macros generate."""
import os, shutil, subprocess, tempfile
import judge as J
import build

BAN = {
    "files, network, environment, processes or the console": ("std::fs", "std::net", "std::env", "std::process", "std::io", "std::os", "std::path"),
    "clock or threads": ("std::time", "std::thread", "core::time"),
    "shared state": ("std::sync", "core::sync", "alloc::sync", "std::thread::local", "core::cell::once", "core::cell::lazy"),
    "randomness": ("std::random", "core::random", "std::hash::random", "std::collections::hash::map::RandomState"),
    "panic interception": tuple("std::panic::" + x for x in ("catch_unwind", "set_hook", "take_hook", "update_hook", "resume_unwind", "always_abort", "set_backtrace_style", "get_backtrace_style", "panic_any"))
    + tuple("std::panicking::" + x for x in ("try", "panicking", "panic_count", "set_hook", "take_hook", "update_hook", "resume_unwind", "rust_panic_without_hook")) + ("std::intrinsics::try", "core::intrinsics::try", "core::intrinsics::catch_unwind"),
    "machine code": ("core::arch", "std::arch"),
}
ADDR = ("PointerExposeProvenance", "PointerExposeAddress")


def lint_job(P, crate, under=None, least=1, deadline=None):
    """Every function of the crate: no call into a banned module, no mutable static, no thread local, no address turned into a number."""
    rep = J.Report("effects of %s%s" % (crate, " (%s)" % under if under else ""))
    rep.rules.add("effects")
    items = P.ask("items", crate)
    bodies = P.ask("polybody", crate)
    if under:
        bodies = [b for b in bodies if b["p"].startswith(under)]
    for it in items:
        if it["k"].startswith("Static"):
            rep.decided += 1
            if it.get("mut") or it.get("freeze") is False:
                rep.violation("effect", "mutable global", crate, "%s is a global that can change" % it["p"], it["loc"], [], it["p"])
        if it.get("unsafe"):
            rep.violation("effect", "unsafe function", crate, "%s is an unsafe function" % it["p"], it["loc"], [], it["p"])
        if it["k"] == "ForeignMod":
            rep.violation("effect", "foreign functions", crate, "%s declares foreign functions" % it["p"], it["loc"], [], it["p"])
    for b in bodies:
        rep.paths += 1
        rep.decided += 1
        rep.fns.add(b["p"] if "oasis" in b["p"] else "oasis_cbor derive output: " + b["p"])
        for c in b["calls"]:
            rep.calls += 1
            for what, mods in BAN.items():
                if any(c[0] == m or c[0].startswith(m + "::") for m in mods):
                    rep.violation("effect", what, crate, "%s calls %s" % (b["p"], c[0]), c[2], [c[2]], b["p"])
        for f in b["facts"]:
            rep.stmts += 1
            if f[0] == "tls":
                rep.violation("effect", "thread local", crate, "%s uses the thread local %s" % (b["p"], f[1]), f[2], [f[2]], b["p"])
            if f[0] == "cast" and f[1].startswith(ADDR):
                rep.violation("effect", "address used as a number", crate, "%s turns an address into a number" % b["p"], f[4], [f[4]], b["p"])
    rep.samples.append("%s: %d functions, %d calls, %d globals" % (crate, len(bodies), rep.calls, sum(i["k"].startswith("Static") for i in items)))
    if len(bodies) < least:
        rep.violation("effect", "nothing to analyse", crate, "only %d functions of %s found, at least %d expected" % (len(bodies), crate, least), "", [], None)
    return rep


def unsafe_job(P, manifest, features=(), deadline=None):
    """The crates of the repository compile under #![forbid(unsafe_code)], which the compiler cannot be talked out of."""
    rep = J.Report("compiles with unsafe code forbidden: %s" % manifest)
    env = build.base_env()
    d = tempfile.mkdtemp(prefix="lint-")
    try:
        env["CARGO_TARGET_DIR"] = d
        cmd = ["cargo", "check", "--offline", "--locked", "--lib", "--manifest-path", manifest] + (["--features", ",".join(features)] if features else [])
        p0 = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p0.returncode:
            rep.undec("the crate does not compile on its own")
            return rep
        env["RUSTFLAGS"] = "-Funsafe_code"
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rep.paths += 1
    if p.returncode == 0:
        rep.decided += 1
    elif "unsafe" in p.stdout:
        l = p.stdout.splitlines()
        at = [x.strip()[4:] for i, x in enumerate(l) if x.strip().startswith("-->")]
        rep.violation("effect", "unsafe code", "library", "unsafe code: " + next((x for x in l if x.startswith("error")), ""), at[0] if at else "", at[:5], at[0].rsplit(":", 2)[0] if at else None)
    else:
        rep.undec("the compiler stopped for another reason")
    return rep


def emitted_job(P, i, deadline=None):
    """A program using a derive macro compiles with unsafe code forbidden: the macro emits none."""
    import jobs_misuse as M
    group, name, bad, good = M.W[i]
    rep = J.Report("generated code without unsafe code: " + name)
    rep.paths += 1
    ok, out = M.compiles(P, good, "#![forbid(unsafe_code)]\n")
    if ok:
        rep.decided += 1
    elif "unsafe" in out:
        rep.violation("effect", "unsafe code", "derive macros", "the code generated for the accepted program of '%s' contains unsafe code" % name, "derive macros", [good], name)
    else:
        rep.undec("the program does not compile")
    return rep
