"""Build the driver and dump the MIR of /repo's current working tree."""
import fcntl, hashlib, os, shutil, subprocess, sys, glob, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("TIC_REPO", "/repo")
BUILD = os.environ.get("TIC_BUILD", os.path.join(VERIF, ".build"))
EXPECTED = ["ticc_core", "ticc_syntax", "ticc_eval", "formatter", "ticc", "ticc.bin", "ticc_lsp.bin",
            "ticc_tests", "ticc_tests.bin"]


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN",
              "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def run(cmd, cwd, e, log):
    with open(log, "ab") as f:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT)
    return r.returncode


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], env=env(), text=True).strip()


def digest(paths, extra=b""):
    h = hashlib.sha256(extra)
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ("target", ".git", "node_modules", "out", "tic-vscode", "programs")]
        for f in files:
            if f.endswith((".rs", ".toml", ".lock", ".tic")):
                out.append(os.path.join(root, f))
    return out


def build_driver():
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    key = digest([src, os.path.join(VERIF, "driver", "Cargo.toml")])
    tdir = os.path.join(BUILD, "driver")
    exe = os.path.join(tdir, "release", "ticdump")
    stamp = os.path.join(tdir, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe, key
    log = os.path.join(BUILD, "driver.log")
    open(log, "w").close()
    rc = run(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", tdir],
             os.path.join(VERIF, "driver"), env(), log)
    if rc != 0:
        raise BuildError("driver does not build:\n" + open(log).read()[-3000:])
    with open(stamp, "w") as f:
        f.write(key)
    return exe, key


def dump():
    """-> (directory with one json per crate, seconds spent)"""
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dkey = build_driver()
        key = digest(repo_sources(), dkey.encode())
        out = os.path.join(BUILD, "dump-" + key)
        if all(os.path.exists(os.path.join(out, n + ".json")) for n in EXPECTED):
            os.utime(out)
            return out, time.time() - t0
        # drop older dumps, keep the few newest
        old = sorted(glob.glob(os.path.join(BUILD, "dump-*")), key=os.path.getmtime)
        for o in old[:-4]:
            shutil.rmtree(o, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        chk = os.path.join(BUILD, "check")
        # cargo's freshness cache would silently skip the wrapper: forget the workspace units
        def forget():
            for sub in (".fingerprint", "build"):
                for pat in ("ticc*", "formatter*"):
                    for d in glob.glob(os.path.join(chk, "debug", sub, pat)):
                        shutil.rmtree(d, ignore_errors=True)
        forget()
        e = env()
        e["TICDUMP_OUT"] = tmp
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        log = os.path.join(BUILD, "check.log")
        open(log, "w").close()
        for attempt in (0, 1):
            rc = run(["cargo", "+nightly", "check", "--workspace", "--offline", "--locked", "--target-dir", chk],
                     REPO, e, log)
            if rc != 0:
                raise BuildError("/repo does not compile under the dump driver:\n" + open(log).read()[-3000:])
            missing = [n for n in EXPECTED if not os.path.exists(os.path.join(tmp, n + ".json"))]
            if not missing:
                break
            shutil.rmtree(chk, ignore_errors=True)
        if missing:
            raise BuildError("no MIR was dumped for: " + ", ".join(missing))
        os.rename(tmp, out)
        return out, time.time() - t0


if __name__ == "__main__":
    print(dump())
