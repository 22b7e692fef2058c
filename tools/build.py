"""Builds what a check needs: the symbolic executor, the LLVM IR of harness + /repo + dependencies,
and the native replay programs. Everything goes to /verif/.build; nothing is written in /repo."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
ENGINE = os.path.join(BUILD, "engine/release/symex")
IR = os.path.join(BUILD, "ir/current.ll")
REPLAYS = {"dev": os.path.join(BUILD, "replay/debug/replay"), "release": os.path.join(BUILD, "replay/replay/replay")}
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR"):
    ENV.pop(k, None)


class BuildError(Exception):
    pass


def tree_hash(*roots, kinds=(".rs", ".toml", ".lock")):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build", "node_modules"))
            for f in sorted(fs):
                if f.endswith(kinds):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def repo_hash():
    return tree_hash(REPO, kinds=(".rs", ".toml"))


def run(cmd, cwd, log):
    with open(log, "w") as f:
        r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        tail = open(log, errors="replace").read()[-6000:]
        raise BuildError(f"{' '.join(cmd)} failed ({log}):\n{tail}")


def engine():
    os.makedirs(BUILD, exist_ok=True)
    run(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "engine")],
        os.path.join(VERIF, "engine"), os.path.join(BUILD, "engine.log"))


def harness():
    """returns (content hash, seconds)"""
    t = time.time()
    h = tree_hash(REPO, os.path.join(VERIF, "harness"))
    stamp = os.path.join(BUILD, "harness.stamp")
    if (os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(IR)
            and all(os.path.exists(p) for p in REPLAYS.values())):
        return h, time.time() - t
    if os.path.exists(stamp):
        os.remove(stamp)
    cwd = os.path.join(VERIF, "harness")
    ps, logs = [], []
    # /repo's crates are always compiled anew when any source changed: file times are not trusted
    for name, args in (("ir", ["--release", "--target-dir", os.path.join(BUILD, "ir")]),
                       ("dev", ["--target-dir", os.path.join(BUILD, "replay")]),
                       ("rel", ["--profile", "replay", "--target-dir", os.path.join(BUILD, "replay")])):
        pk = []
        for c in ("haproxy-spop", "haproxy-spoa", "vharness"):
            pk += ["-p", c]
        subprocess.run(["cargo", "clean", "--offline"] + pk + args, cwd=cwd, env=ENV,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for name, cmd in (
        ("ir", ["cargo", "rustc", "--release", "--offline", "--lib", "--target-dir", os.path.join(BUILD, "ir"),
                "--", "--emit=llvm-ir"]),
        ("rel", ["sh", "-c", f"cargo build --offline --bin replay --target-dir {BUILD}/replay && "
                 f"cargo build --offline --bin replay --profile replay --target-dir {BUILD}/replay"]),
    ):
        log = os.path.join(BUILD, name + ".log")
        f = open(log, "w")
        ps.append((name, log, subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=f, stderr=subprocess.STDOUT)))
    bad = None
    for name, log, p in ps:
        if p.wait() != 0 and bad is None:
            bad = f"building the harness ({name}) failed:\n" + open(log, errors="replace").read()[-6000:]
    if bad:
        raise BuildError(bad)
    lls = sorted(glob.glob(os.path.join(BUILD, "ir/release/deps/vharness-*.ll")), key=os.path.getmtime)
    if not lls:
        raise BuildError("no IR was produced")
    for old in lls[:-1]:
        os.remove(old)
    if os.path.exists(IR):
        os.remove(IR)
    os.link(lls[-1], IR)
    with open(stamp, "w") as f:
        f.write(h)
    return h, time.time() - t


class lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


if __name__ == "__main__":
    with lock():
        try:
            engine()
            _, s = harness()
        except BuildError as e:
            print(e, file=sys.stderr)
            sys.exit(2)
    print(f"built in {s:.1f}s")
