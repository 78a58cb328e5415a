"""Building the harness from /repo's working tree."""
import glob, hashlib, os, shutil, subprocess
from cm import VERIF, TARGET, REPO, HarnessError

ENV = {"RUSTUP_TOOLCHAIN": "1.81.0", "RUSTFLAGS": "--cfg rustix_use_libc", "CARGO_TARGET_DIR": TARGET,
       "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"}


def tree_hash():
    h = hashlib.sha256()
    for base in ("Cargo.toml", "src", "crossmist-derive"):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) if "/target" not in d for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read() + b"\0")
    return h.hexdigest()


def build():
    """Build the harness; returns an error message if the code under test does not compile."""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "repo.sha")
    cur = tree_hash()
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old != cur:
        # Never trust modification times.
        if os.path.exists(stamp):
            os.remove(stamp)
        for d in glob.glob(os.path.join(TARGET, "debug", ".fingerprint", "crossmist*")):
            shutil.rmtree(d)
    env = dict(os.environ, **ENV)
    for k in ("RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise HarnessError("the harness does not build:\n" + p.stdout.decode("utf-8", "replace")[-4000:])
    with open(stamp, "w") as f:
        f.write(cur)


if __name__ == "__main__":
    build()
