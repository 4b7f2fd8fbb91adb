"""Extracts MIR facts from /repo's current working tree (rebuilt on every run)."""
import hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CRATE = "everscale_network"


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e["CARGO_INCREMENTAL"] = "0"
    return e


def _sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True, env=_env()).strip()


def _sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def build_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "driver-" + _sha([src]))
    if os.path.exists(out):
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", tmp],
                       env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ExtractError("driver build failed:\n" + r.stdout[-4000:])
    os.replace(tmp, out)
    return out


def tree_files():
    fs = []
    for root in ("src",):
        for d, dn, fn in os.walk(os.path.join(REPO, root)):
            dn.sort()
            for f in sorted(fn):
                fs.append(os.path.join(d, f))
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            fs.append(p)
    return fs


def extract(raw=False):
    """Returns (facts, info). Runs the driver over /repo's current sources."""
    t0 = time.time()
    drv = build_driver()
    key = _sha(tree_files() + [os.path.join(VERIF, "driver", "main.rs")])
    out = os.path.join(BUILD, "facts-%s.json" % key)
    cached = os.path.exists(out)
    if not cached:
        target = os.path.join(BUILD, "target")
        if os.environ.get("VERIF_REPO"):
            target = os.path.join(BUILD, "target-alt")
        lock = open(os.path.join(BUILD, "lock"), "w")
        import fcntl
        fcntl.flock(lock, fcntl.LOCK_EX)
        # cargo's freshness cache would silently skip the wrapper: forget the crate itself
        for prof in ("debug",):
            fp = os.path.join(target, prof, ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith("everscale-network-"):
                        shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
            # newer cargo keeps one folder per package
            shutil.rmtree(os.path.join(target, prof, "build", CRATE.replace("_", "-")), ignore_errors=True)
        e = _env()
        e["LD_LIBRARY_PATH"] = os.path.join(_sysroot(), "lib")
        e["FACTS_CRATE"] = CRATE
        e["FACTS_OUT"] = out + ".%d.tmp" % os.getpid()
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["CARGO_TARGET_DIR"] = target
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml")]
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=REPO)
        if r.returncode != 0 or not os.path.exists(e["FACTS_OUT"]):
            raise ExtractError("analysis build of the crate failed:\n" + r.stdout[-6000:])
        os.replace(e["FACTS_OUT"], out)
        # keep the cache small
        old = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("facts-") and f.endswith(".json")),
                     key=os.path.getmtime)
        for p in old[:-8]:
            try:
                os.remove(p)
            except OSError:
                pass
        lock.close()
    with open(out) as f:
        text = f.read()
    facts = json.loads(text)
    if not raw:
        import names
        facts, renamed = names.canon(facts, text)
    else:
        renamed = []
    info = {"tree": key, "cached": cached, "extract_s": round(time.time() - t0, 2),
            "bodies": len(facts["bodies"]), "calls_resolved": facts["calls_resolved"], "renamed": renamed}
    return facts, info


if __name__ == "__main__":
    f, i = extract()
    print(i)
