#!/usr/bin/env python3
"""mkseed.py SPEC: makes and confirms one planted bug.  SPEC is a Python file with ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS, MAIN (a Rust main program, exit 0 when right);
CRATE names the path dependency (default trellis); INCLUDE maps module names to source files for private code.
A scratch copy of /repo is edited, built, tested, and the demonstration run on both trees; on success seeded/ID is written."""
import json, os, shutil, subprocess, sys, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID, crate = spec["ID"], spec.get("CRATE", "trellis")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", ID)
W = "/tmp/seedwork"
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(W):
    sh("cp -a /repo %s" % W)
sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (W, W))
for f, old, new in spec["EDITS"]:
    p = os.path.join(W, f)
    s = open(p).read()
    n = s.count(old)
    if n != 1:
        sys.exit("%s: %d occurrences of %r" % (f, n, old[:80]))
    open(p, "w").write(s.replace(old, new))
diff = sh("git -C %s diff" % W).stdout
b = sh("cd %s && cargo test --workspace --offline --no-fail-fast -- --test-threads 8 2>&1 | tail -60" % W)
base = json.load(open("/opt/vp/BASELINE.json"))
if "could not compile" in b.stdout or "FAILED" in b.stdout and not spec.get("OKFAIL"):
    print(b.stdout)
    sys.exit("build or tests fail")
D = tempfile.mkdtemp(prefix="seed.")
if "TEST" in spec:       # (file, Rust code appended to it): for private items; the code has tests whose names start with demo_
    open(D + "/demo.rs", "w").write(spec["TEST"][1])
else:
    open(D + "/main.rs", "w").write(spec["MAIN"])
inc = ""
for m, f in (spec.get("INCLUDE") or {}).items():
    inc += "sed -i \"s#@%s@#$PWD/%s#\" \"$t/src/main.rs\"\n" % (m, f)
dep = '' if crate is None else '%s = { path = "$PWD/%s" }' % (crate, crate)
open(D + "/demo.sh", "w").write("""#!/bin/sh
# builds main.rs against the tree in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 1
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
%scat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
%s
%s
[workspace]
X
[ -f Cargo.lock ] && cp Cargo.lock "$t/Cargo.lock"
cd "$t" || exit 1
CARGO_TARGET_DIR="$t/target" timeout 200 cargo run --offline -q > "$t/log" 2>&1
rc=$?
tail -5 "$t/log"
exit $rc
""" % (inc, dep, spec.get("DEPS", "")))
if "TEST" in spec:
    open(D + "/demo.sh", "w").write("""#!/bin/sh
# copies the tree in the current directory to a scratch directory, adds the tests of demo.rs to %(f)s and runs them
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 1
trap 'rm -rf -- "$t"' EXIT
cp -r Cargo.toml trellis dot_parser "$t/" || exit 1
[ -f Cargo.lock ] && cp Cargo.lock "$t/Cargo.lock"
cat "$here/demo.rs" >> "$t/%(f)s"
cd "$t" || exit 1
CARGO_TARGET_DIR="$t/target" timeout 250 cargo test --offline -q -p %(c)s --lib demo_ > "$t/log" 2>&1
rc=$?
tail -15 "$t/log"
grep -q "test result: ok. [1-9]" "$t/log" || rc=1
exit $rc
""" % dict(f=spec["TEST"][0], c=crate))
os.chmod(D + "/demo.sh", 0o755)
c = sh("sh %s/demo.sh" % D, cwd="/repo")
p = sh("sh %s/demo.sh" % D, cwd=W)
print("clean rc", c.returncode, c.stdout[-300:] if c.returncode else "")
print("patched rc", p.returncode, p.stdout[-300:])
sh("git -C %s reset -q --hard" % W)
if c.returncode or not p.returncode:
    sys.exit("demonstration does not discriminate")
open(D + "/patch.diff", "w").write(diff)
json.dump(dict(property=spec["PROP"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(D + "/meta.json", "w"), indent=1)
shutil.rmtree(out, ignore_errors=True)
shutil.copytree(D, out)
shutil.rmtree(D)
print("kept", out)
