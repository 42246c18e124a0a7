"""Builds of the harness crates against the working tree of /repo, outside of /repo."""
import fcntl, hashlib, os, shutil, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
TRIPLE = "x86_64-unknown-linux-gnu"


HOOKS = "--cfg dumpster_vp"


class BuildError(Exception):
    pass


def wrapped():
    """Linker arguments which redirect the runtime of ThreadSanitizer to race/src/fence.rs."""
    names = ["_thread_fence"]
    for bits in (8, 32, 64):
        for op in ("store", "exchange", "fetch_add", "fetch_sub", "fetch_or", "fetch_and", "compare_exchange_val"):
            names.append(f"{bits}_{op}")
    return " ".join("-Clink-arg=-Wl,--wrap=__tsan_atomic" + n for n in names)


FLAVOURS = {
    # name: (crate, toolchain, rustflags, cargo arguments, path of the binary in the target directory)
    "vp": ("harness", "", HOOKS, ["build"], "debug/vh"),
    "unsized": ("harness", "nightly", HOOKS, ["build", "--features", "unsized"], "debug/vh"),
    "tsan": ("race", "nightly", "-Zsanitizer=thread --cfg vp_tsan " + wrapped(),
             ["build", "-Zbuild-std", "--target", TRIPLE], TRIPLE + "/debug/race"),
    "miri": ("race", "nightly", "", ["miri", "run", "--", "n=0"], "miri/" + TRIPLE + "/debug/race"),
    "impls": ("types", "", "", ["build"], "debug/types"),
    "derive": ("types", "", "", ["build"], "debug/types"),
}
MIRIFLAGS = "-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-disable-isolation -Zmiri-permissive-provenance"


def target(name):
    return os.path.join(BUILD, name)


def source(name):
    return os.path.join(target(name), FLAVOURS[name][0])


def binary(name):
    return os.path.join(target(name), FLAVOURS[name][4])


def environment(tgt, rustflags=""):
    return dict(CARGO_TARGET_DIR=tgt, RUSTFLAGS=rustflags, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", MIRIFLAGS=MIRIFLAGS)


def digest(name, extra):
    """Contents of everything the build reads from /repo and /verif."""
    h = hashlib.sha256(extra.encode())
    for root in (os.path.join(REPO, "dumpster"), os.path.join(REPO, "dumpster_derive"), os.path.join(HERE, FLAVOURS[name][0])):
        for d, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def cargo(args, tgt, rustflags="", toolchain="", cwd=None, timeout=850):
    e = dict(os.environ)
    for k in ("CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(environment(tgt, rustflags))
    cut = args.index("--") if "--" in args else len(args)
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + args[:cut] + ["--offline", "--quiet"] + args[cut:]
    r = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode("utf8", "replace"))
    return r.stdout.decode("utf8", "replace")


def build(name, files=None):
    """Build a flavour, with additional source files {path in the crate: contents}."""
    crate, toolchain, flags, args, _ = FLAVOURS[name]
    files = files or {}
    tgt = target(name)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = digest(name, repr(sorted(files.items())))
        stamp = os.path.join(tgt, "stamp")
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old == d and os.path.exists(binary(name)):
            return
        # never trust timestamps: rebuild what comes from /repo and /verif
        if os.path.isdir(tgt):
            shutil.rmtree(tgt)
        src = source(name)
        shutil.copytree(os.path.join(HERE, crate), src, ignore=shutil.ignore_patterns("target"))
        for p, text in files.items():
            with open(os.path.join(src, p), "w") as f:
                f.write(text)
        if REPO != "/repo":
            m = os.path.join(src, "Cargo.toml")
            t = open(m).read().replace('"/repo/', f'"{REPO}/')
            open(m, "w").write(t)
        try:
            cargo(args, tgt, flags, toolchain, cwd=src)
        except BuildError:
            if HOOKS not in flags:
                raise
            # The sources may use something the instrumented stand-ins lack: do without them.
            cargo(args, tgt, flags.replace(HOOKS, ""), toolchain, cwd=src)
            open(os.path.join(tgt, "unhooked"), "w").close()
        with open(stamp, "w") as f:
            f.write(d)


def unhooked(names):
    """Was one of them built without the hooks, although it should have them?"""
    return any(os.path.exists(os.path.join(target(n), "unhooked")) for n in names)


def flavours(names):
    for n in names:
        build(n)


def types(kind, seed, n):
    """Build the generated types. Returns what is wrong with /repo if they do not compile because of it."""
    import gentypes
    try:
        build(kind, {"src/gen.rs": gentypes.source(kind, seed, n)})
        return None
    except BuildError as e:
        # Is it the generated code itself, or the whole crate? Then there is no verdict.
        src, tgt = source(kind), os.path.join(target(kind), "control")
        cargo(["build", "-p", "dumpster"], tgt, cwd=src)
        cargo(["build"], tgt, "--cfg vp_control", cwd=src)
        errors = [l for l in str(e).splitlines() if l.startswith("error")]
        return (errors or ["?"])[0], str(e)[-4000:]
