"""Builds the harness from /repo's working tree and compiles generated programs against it."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TOOLCHAIN = "1.88.0"
BUILD = os.path.join(VERIF, ".build")
CRATES = ("hooq", "hooq-macros", "hooq-helpers")


class Inconclusive(Exception):
    """The check cannot give an answer (never a violation)."""


class Unbuilt(Inconclusive):
    """The harness does not build with a set of features."""


class Crashed(Inconclusive):
    """The compiler itself died, twice, of what it was given (a signal of its own making, not a kill from outside)."""


LIMITS = 'ulimit -c 0; ulimit -t 240; ulimit -v 8000000; exec "$@"'
SIGNALS = {-4: "SIGILL", -6: "SIGABRT", -7: "SIGBUS", -11: "SIGSEGV", -24: "SIGXCPU (more than 240 s of processor time)"}


def spawn(cmd, cwd, e, timeout, limits=True):
    """Runs the compiler. A crash counts once it has happened again."""
    for n in range(2):
        try:
            p = subprocess.run((["sh", "-c", LIMITS, "sh"] if limits else []) + cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Inconclusive("rustc timed out on " + cmd[-1])
        if p.returncode in (0, 1, 101):
            return p
        err = p.stderr.decode("utf-8", "replace")
        if p.returncode not in SIGNALS:
            raise Inconclusive("rustc ended with %d: %s" % (p.returncode, err[-2000:]))
    raise Crashed("the compiler ends with %s\n%s" % (SIGNALS[p.returncode], err[:1500]))


def env(extra=None):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO_", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["LC_ALL"] = "C.UTF-8"
    if extra:
        e.update(extra)
    return e


def tree_hash():
    h = hashlib.sha256()
    for c in CRATES:
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, c))):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) and not os.path.exists(p):
                    continue
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    hs = os.path.join(VERIF, "harness")
    for d, ds, fs in sorted(os.walk(hs)):
        ds[:] = sorted(x for x in ds if x != "target")
        for f in sorted(fs):
            with open(os.path.join(d, f), "rb") as fh:
                h.update(f.encode() + hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class Harness:
    def __init__(self, tdir, artifacts):
        self.tdir = tdir
        self.artifacts = artifacts

    def extern(self, names):
        """`names`: crates, `name=crate` under another name."""
        out = ["-L", "dependency=" + os.path.join(self.tdir, "debug", "deps")]
        for n in names:
            n, _, c = n.partition("=")
            out += ["--extern", "%s=%s" % (n, self.artifacts[c or n])]
        return out


_cache = {}


def harness(features=(), alone=False):
    """Builds (if needed) and returns the harness of the current tree.

    `alone`: without the default features; such builds share one target directory."""
    key = tuple(sorted(features))
    if (key, alone) in _cache:
        return _cache[key, alone]
    os.makedirs(BUILD, exist_ok=True)
    tdir = os.path.join(BUILD, "f" if alone else "t" + ("-" + "-".join(key) if key else ""))
    hdir = os.path.join(VERIF, "harness")
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        hh = tree_hash()
        stamp = os.path.join(tdir, "stamp")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        base = ["cargo"]
        if old != hh and os.path.isdir(tdir):
            # judge by content, never by time stamps
            subprocess.run(base + ["clean", "--offline", "--target-dir", tdir, "-p", "hooq", "-p", "hooq-macros",
                                   "-p", "hooq-helpers", "-p", "hrt", "-p", "hq"],
                           cwd=hdir, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd = base + ["build", "--offline", "--locked", "--target-dir", tdir, "--message-format=json"]
        if alone:
            cmd.append("--no-default-features")
        if key:
            cmd += ["--features", ",".join(key)]
        p = subprocess.run(cmd, cwd=hdir, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            raise (Unbuilt if alone else Inconclusive)("the harness does not build:\n" + p.stderr[-3000:])
        arts = {}
        for l in p.stdout.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("reason") == "compiler-artifact":
                for f in d["filenames"]:
                    if f.endswith((".rlib", ".so")):
                        arts[d["target"]["name"].replace("-", "_")] = f
        if alone:
            # the top-level artifacts are overwritten by the next set of features
            own = os.path.join(tdir, "own", "-".join(key) or "none")
            os.makedirs(own, exist_ok=True)
            for n, f in arts.items():
                if os.path.dirname(f) == os.path.join(tdir, "debug"):
                    arts[n] = shutil.copy(f, own)
        with open(stamp, "w") as f:
            f.write(hh)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    for n in ("hrt", "hooq", "hooq_macros"):
        if n not in arts:
            raise Inconclusive("no artifact for " + n)
    h = Harness(tdir, arts)
    _cache[key, alone] = h
    return h


MANIFEST = '[package]\nname = "gen"\nversion = "0.0.0"\nedition = "2024"\n\n[dependencies]\nhooq = "*"\n'
EXT = ("hooq", "hrt", "anyhow", "eyre", "color_eyre", "log", "tracing")


def project(path, hooq_toml=None, name=None):
    """`name`: the dependency's name in a project that renames it."""
    os.makedirs(path, exist_ok=True)
    with open(os.path.join(path, "Cargo.toml"), "w") as f:
        f.write(MANIFEST.replace('hooq = "*"', '%s = { package = "hooq", version = "*" }' % name) if name else MANIFEST)
    t = os.path.join(path, "hooq.toml")
    if hooq_toml is not None:
        with open(t, "w") as f:
            f.write(hooq_toml)
    elif os.path.exists(t):
        os.unlink(t)
    return path


class Compiled:
    def __init__(self, rc, diags, raw):
        self.rc, self.diags, self.raw = rc, diags, raw

    @property
    def ok(self):
        return self.rc == 0

    def errors(self):
        return [d for d in self.diags if d.get("level", "").startswith("error")]


def rustc(h, src, out, cwd, manifest_dir, ext=EXT, args=(), timeout=300, extra_env=None, json_out=True, edition="2024"):
    """Compiles `src` (a path relative to cwd, as `$path` will report it)."""
    cmd = ["rustc", "--edition", edition, "-A", "warnings", "-C", "debuginfo=0", "--cap-lints", "allow"]
    if json_out:
        cmd += ["--error-format=json"]
    cmd += h.extern(ext) + list(args) + ["-o", out, src]
    # for the constructs that need a feature gate
    e = env({"CARGO_MANIFEST_DIR": manifest_dir, "RUSTC_BOOTSTRAP": "1"})
    if extra_env:
        e.update(extra_env)
    p = spawn(cmd, cwd, e, timeout)
    err = p.stderr.decode("utf-8", "replace")
    diags = []
    raw = []
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
                continue
            except ValueError:
                pass
        raw.append(l)
    return Compiled(p.returncode, diags, "\n".join(raw) if json_out else err)


def run(exe, cwd=None, timeout=120, extra_env=None):
    e = env({"RUST_BACKTRACE": "0"})
    if extra_env:
        e.update(extra_env)
    p = subprocess.run([exe], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def err_lines(d, file):
    """Lines of `file` a diagnostic points at (outermost expansion site)."""
    out = []
    for s in d.get("spans", []):
        while s.get("expansion") and s["file_name"] != file:
            s = s["expansion"]["span"]
        t = s
        while t.get("expansion"):
            t = t["expansion"]["span"]
        for x in (s, t):
            if x["file_name"] == file:
                out.append(x["line_start"])
    return out
