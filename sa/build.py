"""Fact extraction: mirror /repo, build the MIR driver, run it over the crates under
the real build's configuration (release assertions) and cache the facts by content."""
import fcntl, hashlib, json, os, subprocess, sys, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SKY_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
WS = os.path.join(WORK, "ws")
TARGET = os.path.join(WORK, "target")
FACTS = os.path.join(WORK, "facts")
DRIVER = os.path.join(VERIF, "driver")


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.setdefault("HOME", "/root")
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def _run(cmd, env, cwd, timeout=850):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def _sysroot(env):
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env, stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def sync_ws():
    gen = os.path.join(WORK, "ws.gen")
    subprocess.run(["rm", "-rf", gen], check=True)
    os.makedirs(gen)
    os.makedirs(WS, exist_ok=True)
    subprocess.run(["rsync", "-rl", "--exclude=/.git", "--exclude=/target", "--exclude=/cli", "--exclude=/sky-bench", REPO + "/", gen + "/"], check=True)

    def edit(path, fn):
        p = os.path.join(gen, path)
        if os.path.exists(p):
            s = open(p).read()
            open(p, "w").write(fn(s))
    edit("Cargo.toml", lambda s: s.replace('"cli", ', "").replace('"cli",', "").replace('"sky-bench", ', "").replace('"sky-bench",', ""))
    edit("server/Cargo.toml", lambda s: "".join(l for l in s.splitlines(True) if not (l.startswith("skytable") and "git" in l and "{" in l)))
    edit("server/src/engine/tests/mod.rs", lambda s: "".join(l for l in s.splitlines(True) if l.strip() != "mod client_misc;"))
    subprocess.run(["rsync", "-rl", "--checksum", "--delete", "--exclude=/Cargo.lock", gen + "/", WS + "/"], check=True)
    shutil.copy(os.path.join(gen, "Cargo.lock"), os.path.join(WS, "Cargo.lock"))
    subprocess.run(["rm", "-rf", gen], check=True)


def _hash_tree(h, root, exts=None):
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if exts and not f.endswith(exts):
                continue
            h.update(os.path.relpath(p, root).encode())
            with open(p, "rb") as fh:
                h.update(fh.read())


def build_driver(env, sysroot):
    _run(["cargo", "+nightly", "build", "--offline", "--quiet"], dict(env, CARGO_TARGET_DIR=os.path.join(WORK, "driver-target")), DRIVER)
    return os.path.join(WORK, "driver-target", "debug", "skyfacts")


def extract(log=lambda *_: None):
    """returns (facts dir, info)"""
    os.makedirs(WORK, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sync_ws()
        h = hashlib.sha256()
        _hash_tree(h, WS)
        _hash_tree(h, DRIVER)
        key = h.hexdigest()[:24]
        out = os.path.join(FACTS, key)
        if os.path.exists(os.path.join(out, "done")):
            return out, {"key": key, "cached": True, "extract_s": round(time.time() - t0, 2)}
        env = _env()
        sysroot = _sysroot(env)
        drv = build_driver(env, sysroot)
        tmp = out + ".tmp"
        subprocess.run(["rm", "-rf", tmp], check=True)
        os.makedirs(tmp)
        for f in ("server/src/main.rs", "libsky/src/lib.rs"):
            p = os.path.join(WS, f)
            if os.path.exists(p):
                os.utime(p)
        e = dict(env)
        e.update(
            LD_LIBRARY_PATH=os.path.join(sysroot, "lib"),
            SKYFACTS_DIR=tmp,
            SKYFACTS_CRATES="skyd,libsky",
            OPENSSL_NO_VENDOR="1",
            CARGO_INCREMENTAL="0",
            CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false",
            CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false",
            RUSTC_WORKSPACE_WRAPPER=drv,
            CARGO_TARGET_DIR=TARGET,
        )
        _run(["cargo", "+nightly", "check", "--offline", "-p", "skyd"], e, WS)
        for c in ("skyd", "libsky"):
            if not os.path.exists(os.path.join(tmp, c + ".json")):
                raise BuildError("driver produced no facts for " + c)
        open(os.path.join(tmp, "done"), "w").write(key)
        subprocess.run(["rm", "-rf", out], check=True)
        os.rename(tmp, out)
        # keep the cache small
        ents = sorted((os.path.join(FACTS, x) for x in os.listdir(FACTS)), key=os.path.getmtime)
        for x in ents[:-6]:
            subprocess.run(["rm", "-rf", x], check=True)
        return out, {"key": key, "cached": False, "extract_s": round(time.time() - t0, 2)}


if __name__ == "__main__":
    o, i = extract()
    print(o, i)
