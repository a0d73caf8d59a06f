"""Regenerates the LLVM IR and the native replay binaries from /repo's current sources."""
import os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)


class BuildError(Exception):
    pass


def run(cmd, cwd=None, what="", nightly=False):
    env = {k: v for k, v in ENV.items() if k != "RUSTUP_TOOLCHAIN"} if nightly else ENV
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s failed: %s\n%s" % (what or cmd[0], " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def engine():
    """Builds the symbolic executor; returns its path."""
    t = os.path.join(VERIF, "build", "engine")
    run(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "engine", "Cargo.toml"), "--target-dir", t], what="engine build")
    return os.path.join(t, "release", "llsym")


STD = re.compile(r"(?<![A-Za-z0-9_:])(?:::)?std::")
USE_STD = re.compile(r"(?<![A-Za-z0-9_:])use\s+(?:::)?std\s*(as|;)")


def rewrite(text):
    """Routes every path into `std` through the model crate (string literals and comments may be touched; neither matters)."""
    text = STD.sub("gvstd::", text)
    return USE_STD.sub(lambda m: "use gvstd %s" % m.group(1) if m.group(1) == "as" else "use gvstd;", text)


def copy_sources(src, dst):
    shutil.rmtree(dst, ignore_errors=True)
    for d, _, fs in os.walk(src):
        o = os.path.join(dst, os.path.relpath(d, src))
        os.makedirs(o, exist_ok=True)
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".rs"):
                with open(p) as h:
                    t = h.read()
                with open(os.path.join(o, f), "w") as h:
                    h.write(rewrite(t))
            else:
                shutil.copy(p, os.path.join(o, f))


IRFLAGS = ["--edition", "2021", "-C", "opt-level=2", "-C", "overflow-checks=on", "-C", "debug-assertions=on", "-C", "panic=abort", "-C", "embed-bitcode=yes",
           "-C", "codegen-units=1", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "debuginfo=line-tables-only", "--cfg", "sym", "-Awarnings"]


def lib_root(crate):
    p = os.path.join(REPO, crate, "src", "lib.rs")
    if not os.path.exists(p):
        raise BuildError("missing " + p)
    return p


def ir(harness, out, with_c=False):
    """Compiles harness + code under test to one LLVM module; returns its path."""
    os.makedirs(out, exist_ok=True)
    src = os.path.join(out, "src")
    copy_sources(os.path.join(REPO, "graphrox-rs", "src"), os.path.join(src, "graphrox-rs"))
    ext = lambda *n: sum([["--extern", "%s=%s/lib%s.rlib" % (x, out, x)] for x in n], []) + ["-L", out]
    run(["rustc"] + IRFLAGS + ["--crate-name", "gvstd", "--crate-type", "rlib", os.path.join(VERIF, "rt", "gvstd.rs"), "--out-dir", out])
    run(["rustc"] + IRFLAGS + ["--crate-name", "symrt", "--crate-type", "rlib", os.path.join(VERIF, "rt", "symrt.rs"), "--out-dir", out] + ext("gvstd"))
    run(["rustc"] + IRFLAGS + ["--crate-name", "graphrox", "--crate-type", "rlib", os.path.join(src, "graphrox-rs", "lib.rs"), "--out-dir", out] + ext("gvstd"), what="code under test")
    libs = ["symrt", "graphrox"]
    if with_c:
        copy_sources(os.path.join(REPO, "graphrox-c", "src"), os.path.join(src, "graphrox-c"))
        run(["rustc"] + IRFLAGS + ["--crate-name", "graphrox_c", "--crate-type", "rlib", os.path.join(src, "graphrox-c", "lib.rs"), "--out-dir", out] + ext("gvstd", "graphrox"), what="code under test (C)")
        libs.append("graphrox_c")
    name = os.path.basename(harness)[:-3]
    run(["rustc"] + IRFLAGS + ["-C", "lto=fat", "-C", "save-temps", "--emit=link,llvm-ir", "--crate-name", name, "--crate-type", "cdylib", harness, "--out-dir", out] + ext(*libs), what="harness " + name)
    return os.path.join(out, name + ".ll")


PROFILES = {"asan": ["--cfg", "asan", "-Z", "sanitizer=address", "-C", "opt-level=1"], "dev": ["-C", "opt-level=0", "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-g"], "release": ["-C", "opt-level=3"]}


def native_asan(harness, out, with_c=False):
    return native(harness, out, "asan", with_c)


def native(harness, out, profile, with_c=False):
    """Compiles harness + the unmodified code under test for replay; returns the binary."""
    out = os.path.join(out, profile)
    os.makedirs(out, exist_ok=True)
    fl = ["--edition", "2021", "-Awarnings"] + PROFILES[profile]
    run = lambda cmd, what="": globals()["run"]([cmd[0]] + (["+nightly"] if profile == "asan" else []) + cmd[1:], what=what, nightly=profile == "asan")
    ext = lambda *n: sum([["--extern", "%s=%s/lib%s.rlib" % (x, out, x)] for x in n], []) + ["-L", out]
    run(["rustc"] + fl + ["--crate-name", "symrt", "--crate-type", "rlib", os.path.join(VERIF, "rt", "symrt.rs"), "--out-dir", out])
    run(["rustc"] + fl + ["--crate-name", "graphrox", "--crate-type", "rlib", lib_root("graphrox-rs"), "--out-dir", out], what="code under test")
    libs = ["symrt", "graphrox"]
    if with_c:
        run(["rustc"] + fl + ["--crate-name", "graphrox_c", "--crate-type", "rlib", lib_root("graphrox-c"), "--out-dir", out] + ext("graphrox"), what="code under test (C)")
        libs.append("graphrox_c")
    name = os.path.basename(harness)[:-3]
    run(["rustc"] + fl + ["--crate-name", name, "--crate-type", "bin", harness, "--out-dir", out] + ext(*libs), what="harness " + name)
    return os.path.join(out, name)


def pylib(out):
    """The C library for replays of the Python wrapper, with a checking allocator."""
    os.makedirs(out, exist_ok=True)
    fl = ["--edition", "2021", "-Awarnings"] + PROFILES["dev"]
    ext = lambda *n: sum([["--extern", "%s=%s/lib%s.rlib" % (x, out, x)] for x in n], []) + ["-L", out]
    run(["rustc"] + fl + ["--crate-name", "graphrox", "--crate-type", "rlib", lib_root("graphrox-rs"), "--out-dir", out], what="code under test")
    run(["rustc"] + fl + ["--crate-name", "graphrox_c", "--crate-type", "rlib", lib_root("graphrox-c"), "--out-dir", out] + ext("graphrox"), what="code under test (C)")
    run(["rustc"] + fl + ["--crate-name", "pylib", "--crate-type", "cdylib", os.path.join(VERIF, "harness", "pylib.rs"), "--out-dir", out] + ext("graphrox_c"), what="C library")
    return os.path.join(out, "libpylib.so")


if __name__ == "__main__":
    t = time.time()
    h, o = sys.argv[1], sys.argv[2]
    c = "-c" in sys.argv
    print(engine(), round(time.time() - t, 1))
    print(ir(h, o, c), round(time.time() - t, 1))
    if "-n" in sys.argv:
        for p in ("dev", "release"):
            print(native(h, o, p, c), round(time.time() - t, 1))
