"""Builds the MIR dump of /repo's current working tree.

The dump is produced by compiling the ten offline-buildable workspace crates with the rustc driver in
/verif/driver.  Everything lives under /verif/.cache (git-ignored).  A dump is keyed by the
content of every input file, so it is reused only for an identical tree."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
LEFT_OUT = {"tribute-front"}          # needs the git dependency tree-sitter-tribute
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"


class BuildFailure(Exception):
    pass


def crates():
    base = f"{REPO}/crates"
    return sorted(c for c in os.listdir(base)
                  if c not in LEFT_OUT and os.path.exists(f"{base}/{c}/Cargo.toml"))


def input_files():
    out = [f"{REPO}/Cargo.toml", f"{REPO}/Cargo.lock"]
    for c in crates():
        for root, dirs, files in os.walk(f"{REPO}/crates/{c}"):
            dirs[:] = [d for d in sorted(dirs) if d not in ("target", ".git", "snapshots")]
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".trb", ".c", ".txt", ".json")):
                    out.append(os.path.join(root, f))
    for f in sorted(os.listdir(f"{VERIF}/driver/src")):
        out.append(f"{VERIF}/driver/src/{f}")
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in input_files():
        h.update(p.encode())
        h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def write(path, text):
    try:
        if open(path, encoding="utf-8").read() == text:
            return
    except FileNotFoundError:
        pass
    open(path, "w", encoding="utf-8").write(text)


def layout_workspace(ws):
    os.makedirs(f"{ws}/crates", exist_ok=True)
    want = set(crates())
    for c in os.listdir(f"{ws}/crates"):
        os.remove(f"{ws}/crates/{c}")
    for c in want:
        os.symlink(f"{REPO}/crates/{c}", f"{ws}/crates/{c}")
    keep, out = True, []
    for line in open(f"{REPO}/Cargo.toml", encoding="utf-8").read().splitlines():
        if m := re.match(r"\s*\[+\s*([\w-]+)", line):
            keep = m[1] in ("workspace", "profile", "patch")
            if line.strip() == "[workspace]":
                out += [line, 'resolver = "3"']
                continue
        if keep:
            out.append(re.sub(r'^members\s*=.*"\.".*$', 'members = ["crates/*"]', line))
    write(f"{ws}/Cargo.toml", "\n".join(out) + "\n")
    lock = open(f"{REPO}/Cargo.lock", encoding="utf-8").read()
    try:
        old = open(f"{ws}/Cargo.lock.repo", encoding="utf-8").read()
    except FileNotFoundError:
        old = None
    if old != lock or not os.path.exists(f"{ws}/Cargo.lock"):
        write(f"{ws}/Cargo.lock", lock)
        write(f"{ws}/Cargo.lock.repo", lock)


def env_base():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO_", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = e["HOME"] + "/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = NIGHTLY
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def run(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def driver():
    e = env_base()
    e["CARGO_TARGET_DIR"] = f"{CACHE}/driver-target"
    rc, out = run(["cargo", "build", "--offline", "-q"], e, f"{VERIF}/driver")
    if rc != 0:
        raise BuildFailure("driver build failed:\n" + out[-4000:])
    return f"{CACHE}/driver-target/debug/mirdump"


def sysroot():
    return subprocess.run(["rustc", "--print", "sysroot"], env=env_base(), stdout=subprocess.PIPE,
                          text=True, check=True).stdout.strip()


def dump():
    """Returns (directory with <crate>.jsonl files, info dict)."""
    os.makedirs(CACHE, exist_ok=True)
    with open(f"{CACHE}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        out = f"{CACHE}/dump-{h}"
        if os.path.exists(f"{out}/ok"):
            return out, json.load(open(f"{out}/ok"))
        t0 = time.time()
        drv = driver()
        ws = f"{CACHE}/ws"
        layout_workspace(ws)
        for d in os.listdir(CACHE):
            if d.startswith("dump-"):
                shutil.rmtree(f"{CACHE}/{d}", ignore_errors=True)
        tmp = f"{CACHE}/dump-tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        tgt = f"{CACHE}/target"
        fp = f"{tgt}/debug/.fingerprint"
        # cargo's freshness cache would skip the wrapper: forget the workspace crates
        names = crates()
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if any(re.fullmatch(re.escape(c) + r"-[0-9a-f]{16}", d) for c in names):
                    shutil.rmtree(f"{fp}/{d}")
        for c in names:                 # newer cargo: target/debug/build/<package>/<hash>
            shutil.rmtree(f"{tgt}/debug/build/{c}", ignore_errors=True)
        e = env_base()
        e["CARGO_TARGET_DIR"] = tgt
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        e["MIRDUMP_OUT"] = tmp
        e["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
        e["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "false"
        e["CARGO_PROFILE_DEV_DEBUG"] = "false"
        rc, log = run(["cargo", "check", "--workspace", "--lib", "--offline"], e, ws)
        if rc != 0:
            raise BuildFailure("cargo check of /repo's crates failed:\n" + log[-6000:])
        got = {f[:-6] for f in os.listdir(tmp) if f.endswith(".jsonl")}
        want = {c.replace("-", "_") for c in names}
        if want - got:
            raise BuildFailure(f"no MIR dumped for {sorted(want - got)}")
        info = {"hash": h, "crates": sorted(want), "build_s": round(time.time() - t0, 1)}
        json.dump(info, open(f"{tmp}/ok", "w"))
        os.rename(tmp, out)
        return out, info


if __name__ == "__main__":
    try:
        d, info = dump()
        print(d, info)
    except BuildFailure as ex:
        print(ex)
        sys.exit(2)
