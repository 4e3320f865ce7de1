"""Produce the facts of the current /repo tree: type-check every workspace crate
with the tpfacts driver.  Nothing of the repository is executed (its proc macros
run, as they do in any type check)."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TP_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
# crates whose facts every check relies on
CRATES = ["arena", "better_borrow", "tp_client", "tp_contract_macro", "rsharp_macro", "rsharp",
          "tp_contract_example", "unity_states", "circle_game", "rsharp_codegen-bin", "cs_codegen", "cs_codegen-bin"]
WITNESS = "tp_witness"

class ExtractError(Exception):
    pass

def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "RUSTC", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR",
              "CARGO_PROFILE_DEV_DEBUG", "RUSTUP_TOOLCHAIN", "RUSTC_BOOTSTRAP", "HEADERS_TO_STDOUT"):
        e.pop(k, None)
    return e

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout

def sysroot():
    rc, out = run(["rustc", "+nightly", "--print", "sysroot"], env=env(), cwd=VERIF)
    if rc:
        raise ExtractError("no nightly toolchain: " + out)
    return out.strip().splitlines()[-1]

def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read()); continue
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules", "__pycache__"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(os.path.relpath(p, root).encode()); h.update(b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()[:20]

def build_driver():
    d = os.path.join(VERIF, "driver")
    t = os.path.join(WORK, "driver-target")
    rc, out = run(["cargo", "+nightly", "build", "--offline", "--target-dir", t], cwd=d, env=env())
    if rc:
        raise ExtractError("driver does not build:\n" + out[-4000:])
    return os.path.join(t, "debug", "tpfacts")

SHIM = """#!/bin/sh
# The nightly compiler under a release version string, so that old crates'
# build scripts do not switch on unstable features that no longer exist.
NR=%s/bin/rustc
for a in "$@"; do case "$a" in
 -vV|-Vv|--version|-V) exec sh -c '"$0" "$@" | sed "s/-nightly//"' "$NR" "$@";;
esac; done
exec "$NR" "$@"
"""

def mirror(ws):
    """A workspace of symlinks to /repo's directories, without the member that
    cannot be resolved offline (tp_serialize), with two patched dependencies."""
    shutil.rmtree(ws, ignore_errors=True)
    os.makedirs(ws)
    for n in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, n)
        if os.path.isdir(p) and n not in ("target", ".git"):
            os.symlink(p, os.path.join(ws, n))
    t = open(os.path.join(REPO, "Cargo.toml")).read()
    t = "\n".join(l for l in t.splitlines() if '"client/serialize/rust"' not in l)
    shutil.copytree(os.path.join(VERIF, "witness"), os.path.join(ws, "tp_witness"))
    t = t.replace("members = [", 'members = [\n    "tp_witness",', 1)
    t += '\n[patch.crates-io]\ntraitobject = { path = "%s/vendor/traitobject" }\nproc-macro2 = { path = "%s/vendor/proc-macro2" }\n' % (VERIF, VERIF)
    open(os.path.join(ws, "Cargo.toml"), "w").write(t)
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(ws, "Cargo.lock"))

def member_names():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ("target", ".git", "node_modules")]
        if "Cargo.toml" in fs:
            m = re.search(r'^\s*name\s*=\s*"([^"]+)"', open(os.path.join(d, "Cargo.toml")).read(), re.M)
            if m:
                out.append(m.group(1))
    return out

def facts():
    """Directory with <crate>.json for the current tree (cached by content)."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _facts()

def _facts():
    key = tree_hash([REPO]) + tree_hash([os.path.join(VERIF, "driver", "src"), os.path.join(VERIF, "vendor"), os.path.join(VERIF, "witness"),
                                         os.path.abspath(__file__)])[:8]
    out = os.path.join(WORK, "facts-" + key)
    if os.path.exists(os.path.join(out, "OK")):
        return out
    old = sorted((n for n in os.listdir(WORK) if n.startswith("facts-")), key=lambda n: os.path.getmtime(os.path.join(WORK, n)))
    for n in old[:-5] + [os.path.basename(out)]:
        shutil.rmtree(os.path.join(WORK, n), ignore_errors=True)
    os.makedirs(out)
    drv = build_driver()
    sr = sysroot()
    bindir = os.path.join(WORK, "bin"); os.makedirs(bindir, exist_ok=True)
    shim = os.path.join(bindir, "rustc-shim")
    open(shim, "w").write(SHIM % sr); os.chmod(shim, 0o755)
    ws = os.path.join(WORK, "ws")
    mirror(ws)
    target = os.path.join(WORK, "target")
    # drop the workspace members' outputs: a warm target would skip the driver
    for pkg in member_names() + [WITNESS]:
        for sub in ("build", ".fingerprint"):
            base = os.path.join(target, "debug", sub)
            if os.path.isdir(base):
                for f in os.listdir(base):
                    if f == pkg or re.fullmatch(re.escape(pkg) + r"-[0-9a-f]{16}", f):
                        shutil.rmtree(os.path.join(base, f), ignore_errors=True)
    e = env()
    e.update(RUSTC=shim, RUSTC_BOOTSTRAP="-1", RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=target,
             TPFACTS_OUT=out, TPFACTS_CRATES=",".join(sorted({c.split("-")[0] for c in CRATES + [WITNESS]})), CARGO_INCREMENTAL="0", RUSTFLAGS="--cap-lints=warn",
             LD_LIBRARY_PATH=os.path.join(sr, "lib"))
    cargo = ["cargo", "+nightly", "check", "--workspace", "--offline", "--no-default-features", "--features", "tp_client/c_api"]
    rc, log = run(cargo + ["--exclude", WITNESS], cwd=ws, env=e)
    open(os.path.join(out, "log"), "w").write(log)
    if rc:
        errs = "\n".join(l for l in log.splitlines() if l.startswith("error") or "panicked" in l)
        raise ExtractError("type check of the tree failed:\n" + errs[-3000:])
    missing = [c for c in CRATES if not os.path.exists(os.path.join(out, c + ".json"))]
    if missing:
        raise ExtractError("no facts for crates: %s" % missing)
    # the macro instances; a tree on which they do not type-check only lacks their facts
    rc, log = run(cargo, cwd=ws, env=e)
    open(os.path.join(out, "log-witness"), "w").write(log)
    open(os.path.join(out, "OK"), "w").write("ok")
    return out

if __name__ == "__main__":
    t = time.time()
    print(facts(), round(time.time() - t, 1))
