#!/usr/bin/env python3
"""Looks for gaps: small changes of /repo's sources that the tests pass and the harnesses, run natively, do not notice.

  mutate.py OUT.jsonl [WORKERS] [FILE...]

Not a registered command, and nothing is decided by it. Works in scratch copies under /tmp/mutate."""
import json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS

SWAPS = [("==", "!="), ("!=", "=="), ("&&", "||"), (" || ", " && "), ("is_some()", "is_none()"), ("is_none()", "is_some()"),
         ("true", "false"), ("false", "true"), ("l_hash", "r_hash"), ("r_hash", "l_hash"), ("left_set", "right_set"),
         ("right_set", "left_set"), ("+= 1", "+= 0"), ("-= 1", "-= 0"), (" + ", " - "), (" - ", " + "), ("Some(_)", "None"),
         ("old", "new"), ("new", "old"), ("left_counter", "right_counter"), ("right_counter", "left_counter"),
         ("self.hash", "other.hash"), ("r_id", "id"), (".id", ".hash"), (" > ", " >= "), (" < ", " <= "),
         ("old_l_hash", "new_l_hash"), ("new_l_hash", "old_l_hash"), ("old_r_hash", "new_r_hash"), ("new_r_hash", "old_r_hash"),
         ("remove_via_left", "remove_via_right"), ("capacity", "len"), ("!", ""), ("SomeLeft", "SomeRight"), ("SomeRight", "SomeLeft"),
         ("min(", "max("), ("max(", "min("), ("left", "right"), ("right", "left"), ("if ", "if false && "), ("if ", "if true || "),
         ("usize", "u8"), ("return", ";//"), ("u64", "u8"), ("additional", "additional / 2"), (".take()", ".as_mut()"),
         ("equivalent_key(old)", "|p| p.hash == None"), ("hash_and_id(l_hash, id)", "|p| p.id == id"),
         ("hash_and_id(r_hash, id)", "|p| p.id == id"), ("hash_and_id(old_r_hash, r_pairing.id)", "|p| p.hash == Some(old_r_hash)")]


def mutants(files):
    for name in files:
        lines = open("/repo/src/" + name).read().split("\n")
        for i, line in enumerate(lines):
            s = line.strip()
            if s.startswith("#[cfg(cycle_map_verif)]"):
                break
            if s.startswith("//") or s.startswith("use ") or s.startswith("#") or not s or "fn " in s:
                continue
            code = line.split(" // ")[0]
            seen = set()
            for a, b in SWAPS:
                at = -1
                while True:
                    at = code.find(a, at + 1)
                    if at < 0:
                        break
                    new = code[:at] + b + code[at + len(a):]
                    if new not in seen and new != code:
                        seen.add(new)
                        yield name, i, new
            if s.endswith(";") and not s.startswith("let ") and "return" not in s and s not in ("};", ");", "]);"):
                yield name, i, ""


def sh(cmd, cwd, env, timeout):
    e = dict(os.environ, **env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                           errors="replace", shell=isinstance(cmd, str))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def main():
    out, workers = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 5
    files = sys.argv[3:] or ["cycle_map.rs", "partial_cycle_map.rs", "group_map.rs", "optionals.rs"]
    todo = list(mutants(files))
    random.Random(1).shuffle(todo)
    done = set()
    if os.path.exists(out):
        done = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(out))}
    todo = [m for m in todo if m not in done]
    print(len(todo), "mutants", flush=True)
    harnesses = sorted({h for p in PROPS.values() for h in p["quick"]})
    dirs = Queue()
    for w in range(workers):
        d = "/tmp/mutate/w%d" % w
        if not os.path.exists(d):
            os.makedirs(d + "/verif")
            subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        for x in ("harness", "replay"):
            subprocess.run(["rsync", "-a", HERE + "/" + x, d + "/verif/"]) if shutil.which("rsync") else \
                subprocess.run(["cp", "-a", HERE + "/" + x, d + "/verif/"], check=True)
        subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."])
        dirs.put(d)
    f = open(out, "a")

    def one(m):
        name, i, new = m
        d = dirs.get()
        path = d + "/repo/src/" + name
        old = open(path).read()
        try:
            lines = old.split("\n")
            was = lines[i]
            lines[i] = new
            open(path, "w").write("\n".join(lines))
            env = {"CARGO_TARGET_DIR": d + "/target", "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "--cfg cycle_map_verif"}
            code, o = sh(["cargo", "build", "--quiet", "--locked", "--offline"], d + "/verif/replay", env, 200)
            verdict = "no build"
            if code == 0:
                code, o = sh("ulimit -v 8000000; %s/target/debug/cmreplay sample 5 300 %s 2>/dev/null" % (d, " ".join(harnesses)), d, env, 60)
                if code != 0:
                    x = [y for y in o.splitlines() if y.startswith("FAILED")]
                    verdict = "noticed " + (x[0].split()[1] if x else "crash %d" % code)
                else:
                    env["RUSTFLAGS"] = ""
                    env["CARGO_TARGET_DIR"] = d + "/tests"
                    code, o = sh("ulimit -v 8000000; cargo test --quiet --all-features --offline -- --test-threads 2", d + "/repo", env, 200)
                    verdict = "tests fail" if code else "GAP"
            f.write(json.dumps(dict(file=name, line=i, was=was.strip(), new=new, verdict=verdict)) + "\n")
            f.flush()
            if verdict == "GAP":
                print(name, i + 1, "\n   ", was.strip(), "\n   ", new.strip(), flush=True)
        finally:
            open(path, "w").write(old)
            dirs.put(d)

    with ThreadPoolExecutor(workers) as ex:
        for _ in ex.map(one, todo):
            pass


main()
