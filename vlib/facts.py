"""Builds the fact extractor, runs it on /repo's current tree, loads the result."""
import hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TRELLIS_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL = "nightly"
CRATES = ("trellis", "dot_parser")


class FactsError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTC", "RUSTUP_TOOLCHAIN",
                                           "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
            e.pop(k)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = TOOL
    return e


def _sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            h.update(b"!")
    return h.hexdigest()


def _sysroot(env):
    r = subprocess.run(["rustc", "--print", "sysroot"], env=env, capture_output=True, text=True)
    if r.returncode:
        raise FactsError("no nightly toolchain: " + r.stderr)
    return r.stdout.strip()


def build_driver():
    env = _env()
    d = os.path.join(VERIF, "driver")
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=d, env=env,
                       capture_output=True, text=True)
    if r.returncode:
        raise FactsError("driver build failed:\n" + r.stderr[-3000:])
    return os.path.join(BUILD, "driver", "release", "trellis-facts")


def repo_sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "node_modules"))
        for f in sorted(files):
            if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock") or f.startswith("rust-toolchain"):
                out.append(os.path.join(root, f))
    return out


def extract():
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        # one extraction at a time: they share cargo's target folder
        fcntl.flock(lk, fcntl.LOCK_EX)
        return extract_locked()


def extract_locked():
    """Returns {crate: facts}, rebuilt from the working tree of REPO."""
    os.makedirs(BUILD, exist_ok=True)
    drv = build_driver()
    key = _sha(repo_sources() + [drv])[:24]
    out = os.path.join(BUILD, "facts-" + key)
    if not all(os.path.exists(os.path.join(out, c + ".json")) for c in CRATES):
        env = _env()
        env["LD_LIBRARY_PATH"] = os.path.join(_sysroot(env), "lib")
        tgt = os.path.join(BUILD, "check")
        # cargo's freshness cache would skip the wrapper on a warm target dir
        for sub in ("build", ".fingerprint", "incremental", "deps"):
            fp = os.path.join(tgt, "debug", sub)
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x.startswith(("trellis", "dot_parser", "libtrellis", "libdot_parser")):
                        p = os.path.join(fp, x)
                        if os.path.isdir(p):
                            shutil.rmtree(p, ignore_errors=True)
                        else:
                            os.unlink(p)
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        env["CARGO_TARGET_DIR"] = tgt
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["FACTS_OUT"] = tmp
        r = subprocess.run(["cargo", "check", "--workspace", "--lib", "--offline", "-q"], cwd=REPO, env=env,
                           capture_output=True, text=True)
        if r.returncode:
            raise FactsError("cargo check of the tree failed:\n" + r.stderr[-4000:])
        for c in CRATES:
            if not os.path.exists(os.path.join(tmp, c + ".json")):
                raise FactsError("no facts for crate " + c)
        for x in os.listdir(BUILD):
            if x.startswith("facts-") and os.path.join(BUILD, x) != tmp:
                # keep at most a few old extractions
                p = os.path.join(BUILD, x)
                if time.time() - os.path.getmtime(p) > 3600:
                    shutil.rmtree(p, ignore_errors=True)
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.rename(tmp, out)
    res = {}
    for c in CRATES:
        with open(os.path.join(out, c + ".json")) as f:
            res[c] = Facts(json.load(f))
    return res


class Facts:
    def __init__(self, j):
        self.j = j
        self.crate = j["crate"]
        self.types = j["types"]
        self.adts = {k: v for k, v in j["adts"]}
        self.bodies = {b["key"]: b for b in j["bodies"]}
        self.fns = j["fns"]
        self.fn_by_path = {}
        for f in self.fns:
            self.fn_by_path.setdefault(f["path"], f)
        self.items = j["items"]
        self.statics = {i["path"]: i["v"] for i in self.items if i["kind"] == "staticval"}

    def ts(self, t):
        return self.types[t]["s"]

    def local_bodies(self):
        return [b for b in self.bodies.values() if b["local"]]

    def calls(self, body):
        """(block, terminator) of every call in a body"""
        for i, (st, term, cleanup) in enumerate(body["blocks"]):
            if term[0] == "call":
                yield i, term

    @staticmethod
    def callee(term):
        """the callee record of a call terminator or None"""
        f = term[1]
        if f[0] == "k" and "fn" in f[1]:
            return f[1]["fn"]
        return None


if __name__ == "__main__":
    t = time.time()
    f = extract()
    for c, x in f.items():
        print(c, len(x.bodies), len(x.fns), len(x.types))
    print(time.time() - t)
