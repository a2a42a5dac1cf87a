"""Builds the dumper, generates a workspace over /repo's current working tree and dumps typed THIR for every crate."""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
WORK = os.environ.get("SA_WORK", os.path.join(VERIF, ".work"))
MEMBERS = ["ckb_bf_vm", "ckb_bf_prover", "ckb_bf_base", "halo2", "halo2_gadgets", "halo2_proofs", "halo2curves", "poseidon"]
EXPECT = ["ckb_bf_base.lib", "ckb_bf_prover.bin", "ckb_bf_prover.lib", "ckb_bf_verifier.bin", "ckb_bf_vm.lib", "halo2_gadgets.lib", "halo2_proofs.lib", "halo2curves.lib", "poseidon.lib"]


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTDOC", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def _run(cmd, cwd, env, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), r.stdout.decode("utf8", "replace")[-4000:]))
    return r.stdout


def _hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def sources():
    out = []
    for m in MEMBERS + ["ckb_bf_verifier"]:
        for d, ds, fs in os.walk(os.path.join(REPO, m)):
            ds[:] = [x for x in ds if x not in ("target", ".git")]
            for f in fs:
                if f.endswith((".rs", ".toml", ".txt", ".json", ".md", ".html")):
                    out.append(os.path.join(d, f))
    return out


def driver():
    d = os.path.join(VERIF, "driver")
    src = [os.path.join(d, "Cargo.toml"), os.path.join(d, "src/main.rs"), os.path.join(d, "src/json.rs")]
    tgt = os.path.join(WORK, "driver-target")
    binp = os.path.join(tgt, "debug", "thirdump")
    stamp = os.path.join(WORK, "driver.stamp")
    h = _hash(src)
    if os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == h:
        return binp, h
    os.makedirs(WORK, exist_ok=True)
    e = _env()
    e["CARGO_TARGET_DIR"] = tgt
    _run(["cargo", "build", "--offline"], d, e)
    with open(stamp, "w") as f:
        f.write(h)
    return binp, h


def _put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def gen_ws():
    ws = os.path.join(WORK, "ws")
    os.makedirs(ws, exist_ok=True)
    for m in MEMBERS + ["res"]:
        l = os.path.join(ws, m)
        t = os.path.join(REPO, m)
        if os.path.islink(l) and os.readlink(l) == t:
            continue
        if os.path.islink(l):
            os.unlink(l)
        os.symlink(t, l)
    l = os.path.join(ws, "ckb-std")
    t = os.path.join(VERIF, "stub", "ckb-std")
    if not (os.path.islink(l) and os.readlink(l) == t):
        if os.path.islink(l):
            os.unlink(l)
        os.symlink(t, l)
    # shadow of the on-chain verifier: same source, minus unstable feature attributes that no longer exist
    v = os.path.join(REPO, "ckb_bf_verifier")
    sv = os.path.join(ws, "ckb_bf_verifier")
    toml = open(os.path.join(v, "Cargo.toml")).read()
    toml = re.sub(r"(?m)^ckb-std\s*=.*$", 'ckb-std = { path = "../ckb-std", features = ["allocator", "ckb-types"] }', toml)
    _put(os.path.join(sv, "Cargo.toml"), toml)
    keep = set()
    for d, ds, fs in os.walk(os.path.join(v, "src")):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, v)
                txt = re.sub(r"(?m)^#!\[feature\(.*\)\]$", "", open(p).read())
                txt = re.sub(r"(?m)^#!\[no_main\]$", "#![no_main]", txt)
                _put(os.path.join(sv, rel), txt)
                keep.add(os.path.join(sv, rel))
    for d, ds, fs in os.walk(os.path.join(sv, "src")):
        for f in fs:
            if os.path.join(d, f) not in keep:
                os.unlink(os.path.join(d, f))
    _put(os.path.join(ws, "Cargo.toml"), "[workspace]\nresolver = \"1\"\nmembers = [\n%s]\n" % "".join('    "%s",\n' % m for m in MEMBERS + ["ckb_bf_verifier", "ckb-std"]))
    lock = os.path.join(ws, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(VERIF, "stub", "Cargo.lock"), lock)
    return ws


def dump(verbose=False):
    """-> directory with one JSON per crate for the current tree"""
    binp, dh = driver()
    srcs = sources()
    key = hashlib.sha256((dh + _hash(srcs) + REPO).encode()).hexdigest()[:24]
    out = os.path.join(WORK, "dump", key)
    if os.path.exists(os.path.join(out, "DONE")):
        return out
    ws = gen_ws()
    base = os.path.join(WORK, "dump")
    if os.path.isdir(base):
        for x in os.listdir(base):
            shutil.rmtree(os.path.join(base, x), ignore_errors=True)
    os.makedirs(out)
    e = _env()
    sysroot = _run(["rustc", "--print", "sysroot"], "/", e).decode().strip()
    tgt = os.path.join(WORK, "target")
    for sub in (".fingerprint", "build"):
        fp = os.path.join(tgt, "debug", sub)
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith(("ckb", "halo2", "poseidon")):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib") + ":" + e.get("LD_LIBRARY_PATH", "")
    e["RUSTC_WORKSPACE_WRAPPER"] = binp
    e["THIRDUMP_DIR"] = out
    e["RUSTFLAGS"] = "--cap-lints warn"
    e["CARGO_TARGET_DIR"] = tgt
    _run(["cargo", "check", "--workspace", "--offline", "--lib", "--bins"], ws, e)
    have = {f[:-5] for f in os.listdir(out)}
    miss = [x for x in EXPECT if x not in have]
    if miss:
        raise BuildError("no dump for " + ", ".join(miss))
    with open(os.path.join(out, "DONE"), "w") as f:
        f.write("ok")
    return out


if __name__ == "__main__":
    t = time.time()
    print(dump(), "%.1fs" % (time.time() - t))
