#!/usr/bin/env python3
"""Plants bugs: turns tools/plant/bugs.py into /verif/seeded/<id>/ after confirming, in a scratch
copy of /repo, that the change compiles, passes the stable tests, and that the demonstration
succeeds without it and fails with it.

    plant.py [ID ...]        plant (all missing ones, or the named ones again)
    plant.py --check [ID..]  apply each to /repo, run the checks of its property, undo
"""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools/plant"))
SEEDED = os.path.join(ROOT, "seeded")
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory, and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cat > "$dir/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cycle_map = { path = "$PWD", features = ["serde"] }
serde = "1.0"
serde_json = "1.0"
[workspace]
TOML
cp "$here/Cargo.lock" "$dir/Cargo.lock"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$dir/target" CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
cd "$dir" || exit 2
cargo build --quiet --offline 2> "$dir/log" || { cat "$dir/log"; exit 2; }
timeout 60 "$dir/target/debug/demo"
'''
PRELUDE = '''// A hasher under which all items collide.
#[allow(dead_code)]
#[derive(Clone, Copy, Default)]
struct Same;
impl std::hash::Hasher for Same {
    fn finish(&self) -> u64 { 7 }
    fn write(&mut self, _: &[u8]) {}
}
impl std::hash::BuildHasher for Same {
    type Hasher = Same;
    fn build_hasher(&self) -> Same { Same }
}
'''

def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def tests(copy):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=copy + "/target",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    p = sh(["cargo", "test", "--workspace", "--all-features", "--no-fail-fast", "--offline"], copy, env)
    ok = sum(map(int, re.findall(r"test result: \S+ (\d+) passed", p.stdout)))
    bad = sum(map(int, re.findall(r"; (\d+) failed", p.stdout)))
    return ok, bad, p.stdout

def plant(bug, copy):
    id = bug["id"]
    sh(["git", "checkout", "--", "."], copy)
    dest = os.path.join(SEEDED, id)
    shutil.rmtree(dest, ignore_errors=True)
    os.makedirs(dest)
    with open(dest + "/main.rs", "w") as f:
        f.write(bug["demo"].strip() + "\n\n" + (PRELUDE if "Same" in bug["demo"] else ""))
    with open(dest + "/demo.sh", "w") as f:
        f.write(DEMO)
    os.chmod(dest + "/demo.sh", 0o755)
    shutil.copy(ROOT + "/tools/plant/Cargo.lock", dest)
    p = sh(["bash", dest + "/demo.sh"], copy)
    if p.returncode:
        return f"demo fails on the unchanged tree: {p.stdout[-1500:]}"
    for name, old, new in bug["edits"]:
        path = f"{copy}/src/{name}"
        text = open(path).read()
        if text.count(old) != 1:
            return f"{text.count(old)} matches for {old!r}"
        open(path, "w").write(text.replace(old, new))
    ok, bad, log = tests(copy)
    if bad or ok != 188:
        return f"tests: {ok} pass, {bad} fail\n" + log[-2500:]
    diff = sh(["git", "diff"], copy).stdout
    # only lines of the original repository
    for name in {e[0] for e in bug["edits"]}:
        blame = sh(["git", "blame", "-s", "-l", "HEAD", "--", "src/" + name], copy).stdout.splitlines()
        for m in re.finditer(r"^@@ -(\d+)", "", 0): pass
        d = sh(["git", "diff", "-U0", "--", "src/" + name], copy).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            for line in blame[a - 1:a - 1 + n]:
                if not line.lstrip("^").startswith(BASE[:39]):
                    print(f"  note {id}: not an original line: {line[41:]}")
    with open(dest + "/patch.diff", "w") as f:
        f.write(diff)
    p = sh(["bash", dest + "/demo.sh"], copy)
    if p.returncode in (0, 2):
        return f"demo with the change: {p.returncode} {p.stdout[-500:]}"
    with open(dest + "/meta.json", "w") as f:
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, f, indent=1)
        f.write("\n")
    return None

def check(id):
    """Applies the planted bug to /repo, and runs the quick check of its property."""
    prop = json.load(open(f"{SEEDED}/{id}/meta.json"))["property"]
    p = sh(["git", "-C", "/repo", "apply", f"{SEEDED}/{id}/patch.diff"])
    assert p.returncode == 0, p.stdout
    try:
        p = sh(["python3", ROOT + "/check.py", prop, "--tier", "quick"], ROOT)
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])
    lines = [l for l in p.stdout.splitlines() if "VIOLATION" in l]
    return p.returncode, lines, p.stdout

BASE = subprocess.run(["git", "-C", "/repo", "rev-parse", "1721c85"], stdout=subprocess.PIPE, text=True).stdout.strip()

def main():
    from bugs import BUGS
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    if "--check" in sys.argv:
        for id in args or sorted(os.listdir(SEEDED)):
            rc, lines, out = check(id)
            print(id, "exit", rc, lines[:3], flush=True)
            if rc != 1:
                print(out[-2000:], flush=True)
        return
    copy = tempfile.mkdtemp(prefix="plant.", dir="/tmp") + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        for bug in BUGS:
            if (args and bug["id"] not in args) or (not args and os.path.exists(f"{SEEDED}/{bug['id']}/meta.json")):
                continue
            err = plant(bug, copy)
            print(bug["id"], "planted" if err is None else "FAILED " + err, flush=True)
            if err is not None:
                shutil.rmtree(os.path.join(SEEDED, bug["id"]), ignore_errors=True)
    finally:
        shutil.rmtree(os.path.dirname(copy), ignore_errors=True)

main()
