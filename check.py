#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides a property by bounded model checking (Kani/CBMC) of the code in /repo, see DESIGN.md.
Exit 0: it holds. Exit 1 and a VIOLATION line: it does not, and the counterexample fails natively.
Anything else: no answer.
"""
import argparse, fcntl, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, OUTSIDE  # noqa: E402

REPO = os.path.normpath(os.path.join(HERE, "..", "repo"))
BUILD = os.path.join(HERE, "build")
CRATES = {"cm": "one", "pm": "partial", "gm": "group", "op": "opt", "sd": "serialize", "ow": "owner", "sq": "sequence", "fm": "debug"}
START = time.time()
STRICT = re.compile(r'^"?(INV|MODEL|HARNESS)')


class NoAnswer(Exception):
    pass


def left(limit):
    return max(10, limit - (time.time() - START))


def log(*a):
    print("[%6.1f]" % (time.time() - START), *a, flush=True)


def run(cmd, timeout, cwd, env=None, out=None):
    """Runs cmd in a process group of its own; (exit code or None on timeout, output)"""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, text=True, errors="replace")
    try:
        o, _ = p.communicate(timeout=timeout)
        code = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        code = None
    if out:
        with open(out, "w") as f:
            f.write(o)
    return code, o


def functions(path):
    """The functions of /repo that were encoded"""
    res = set()
    for name in json.load(open(path)).values():
        if not name or "::" not in name or "{closure" in name or name.startswith(("std::", "core::", "alloc::")):
            continue
        plain = name
        while True:  # without generic arguments
            less = re.sub(r"::<[^<>]*>|(?<=\w)<[^<>]*>", "", plain)
            if less == plain:
                break
            plain = less
        m = re.match(r"^(?:<(cycle_map::[\w:]+)(?: as ([\w:]+))?>|cycle_map)::([\w:]+)$", plain)
        last = plain.split("::")[-1]
        if m and not re.search(r"::(var|param|\d)", plain) and (last[0].islower() or last[0] == "_"):
            res.add(plain)
    return res


def full_name(h):
    return "%s::proofs::%s" % (CRATES[h[:2]], h)


class Kani:
    """Runs of the model checker"""

    def __init__(self, prop, limit, harness_timeout):
        self.dir = os.path.join(BUILD, "kani")
        self.prop, self.limit, self.harness_timeout = prop, limit, harness_timeout
        self.hooks = True
        self.n = 0

    def cmd(self, harnesses, cfgs, memory):
        cmd = ["cargo", "kani", "--exact"]
        for h in harnesses:
            cmd += ["--harness", full_name(h)]
        if any(h.startswith("sd_") for h in harnesses):
            cmd += ["--features", "serde"]
        cmd += ["--no-assertion-reach-checks", "-Z", "unstable-options", "-Z", "stubbing",
                "--harness-timeout", "%ds" % self.harness_timeout, "--output-format=terse"]
        if not memory:
            cmd += ["--no-memory-safety-checks"]
        flags = (["cycle_map_verif"] if self.hooks else []) + list(cfgs)
        env = {"CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": self.dir,
               "RUSTFLAGS": " ".join("--cfg " + c for c in flags)}
        for v in ("RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS"):
            os.environ.pop(v, None)
        return cmd, env

    def check(self, harnesses, cfgs=(), memory=False):
        """harness -> dict(ok, failed=[descriptions], stats, functions)"""
        res = self.once(harnesses, cfgs, memory, min(PROPS[self.prop].get("jobs", 8), os.cpu_count() or 8))
        nothing = [h for h in harnesses if any(x.startswith("MODEL-NOTHING") for x in res[h]["failed"])
                   and res[h]["ms"] < 900 * self.harness_timeout]
        if nothing:
            # Memory ran out, probably
            log("again, two at a time: " + ", ".join(nothing))
            res.update(self.once(nothing, cfgs, memory, 2))
        return res

    def once(self, harnesses, cfgs, memory, jobs):
        self.n += 1
        js = os.path.join(BUILD, "out-%s-%d.json" % (self.prop, self.n))
        lg = os.path.join(BUILD, "log-%s-%d.txt" % (self.prop, self.n))
        if os.path.exists(js):
            os.unlink(js)
        cmd, env = self.cmd(harnesses, cfgs, memory)
        cmd += ["-j", str(jobs), "--export-json", js]
        code, out = run(cmd, left(self.limit), os.path.join(HERE, "harness"), env, lg)
        if code is None:
            raise NoAnswer("out of time")
        if not os.path.exists(js):
            if self.hooks and "verif_" in out and re.search(r"^error", out, re.M):
                log("the hooks do not compile: without them")
                self.hooks = False
                return self.once(harnesses, cfgs, memory, jobs)
            if re.search(r"^error", out, re.M) and self.hooks:
                self.hooks = False
                try:
                    return self.once(harnesses, cfgs, memory, jobs)
                except NoAnswer:
                    pass
            errors = "\n".join(x for x in out.splitlines() if x.startswith("error"))[:2000]
            raise NoAnswer("the harnesses do not compile or run, see %s\n%s" % (lg, errors))
        d = json.load(open(js))
        os.unlink(js)
        res = {}
        for r in d["verification_results"]["results"]:
            h = r["harness_id"].split("::")[-1]
            bad = [c for c in r["checks"] if c["status"].lower() not in ("success", "satisfied", "unreachable")]
            res[h] = dict(ok=r["status"].lower() == "success", failed=[c["description"].strip('"') for c in bad],
                          total=len(r["checks"]), ms=r["duration_ms"], functions=set(), stats={})
        for c in d["cbmc"]:
            h = c["harness_id"].split("::")[-1]
            if h in res:
                res[h]["stats"] = c.get("cbmc_stats") or {}
        for m in d.get("harness_metadata", []):
            h = m["pretty_name"].split("::")[-1]
            names = re.sub(r"\.symtab\.out$", ".pretty_name_map.json", m.get("goto_file", ""))
            if h in res and os.path.exists(names):
                res[h]["functions"] = functions(names)
        for e in d.get("error_details", []):
            h = e["harness_id"].split("::")[-1]
            if h in res and not res[h]["ok"] and not res[h]["failed"]:
                res[h]["failed"] = ["MODEL-NOTHING: " + str(e.get("error_type") or e.get("exit_status"))]
        for h in harnesses:
            if h not in res:
                raise NoAnswer("no result for " + h + ", see " + lg)
        return res

    def counterexamples(self, harness, cfgs=(), memory=False):
        """[(description, w, h)]"""
        self.n += 1
        lg = os.path.join(BUILD, "log-%s-%d.txt" % (self.prop, self.n))
        cmd, env = self.cmd([harness], cfgs, memory)
        cmd += ["-Z", "concrete-playback", "--concrete-playback=print"]
        code, out = run(cmd, left(self.limit), os.path.join(HERE, "harness"), env, lg)
        res = []
        for part in out.split("Concrete playback unit test for")[1:]:
            what = re.search(r"/// Check for `\w+`: \"(.*)\"", part)
            vecs = re.findall(r"vec!\[([\d, ]*)\]", part)
            vecs = [[int(x) for x in v.split(",") if x.strip()] for v in vecs]
            wide = [v for v in vecs if len(v) == 16]
            if len(wide) >= 2:
                w, h = (int.from_bytes(bytes(v), "little") for v in wide[:2])
                res.append((what.group(1).strip('"') if what else "?", w, h))
        return res


ASAN = {"CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": os.path.join(BUILD, "asan"), "RUSTUP_TOOLCHAIN": "nightly",
        "ASAN_OPTIONS": "detect_leaks=0:exitcode=99"}
MEMORY = re.compile(r"dereference|pointer|free|dealloc|memory|MODEL", re.I)


class Native:
    """The same harnesses on the real build"""

    def __init__(self, asan=False):
        self.bins = {}
        self.error = None
        self.asan_tried = False
        self.thread = threading.Thread(target=self.build, args=(asan,))
        self.thread.start()

    def build(self, asan):
        self.builds()
        if asan:
            self.build_asan()

    def build_asan(self):
        """With AddressSanitizer, which notices accesses to memory that is not there any more"""
        self.asan_tried = True
        for flags in ("--cfg cycle_map_verif ", ""):
            code, out = run(["cargo", "build", "--quiet", "--locked", "--target", "x86_64-unknown-linux-gnu"], 300,
                            os.path.join(HERE, "replay"), dict(ASAN, RUSTFLAGS=flags + "-Zsanitizer=address"))
            if code == 0:
                self.bins["asan"] = os.path.join(BUILD, "asan", "x86_64-unknown-linux-gnu", "debug", "cmreplay")
                return

    def builds(self):
        env = {"CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": os.path.join(BUILD, "native"),
               "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu"}
        for profile in ("dev", "release"):
            for flags in ("--cfg cycle_map_verif", ""):
                e = dict(env, RUSTFLAGS=flags)
                cmd = ["cargo", "build", "--quiet", "--locked", "--profile", profile]
                code, out = run(cmd, 300, os.path.join(HERE, "replay"), e)
                if code == 0:
                    name = {"dev": "debug"}.get(profile, profile)
                    self.bins[profile] = os.path.join(BUILD, "native", name, "cmreplay")
                    break
                self.error = out

    def bin(self, profile="dev"):
        self.thread.join()
        if profile not in self.bins:
            raise NoAnswer("the native build fails\n" + (self.error or "")[-2000:])
        return self.bins[profile]

    def call(self, profile, *args, timeout=240):
        code, out = run([self.bin(profile)] + [str(a) for a in args], timeout, BUILD, {"ASAN_OPTIONS": ASAN["ASAN_OPTIONS"]})
        return code, out

    def crash(self, code, out):
        """The scenario a run ended in, if it did not end by itself"""
        line = [x for x in out.splitlines() if x.startswith("trying")]
        if code is None or not line:
            return None
        if code == 99 and "AddressSanitizer" in out:
            what = [x for x in out.splitlines() if "ERROR: AddressSanitizer" in x or x.startswith("SUMMARY")]
            return line[-1], "\n".join(what)
        if code < 0 or code == 134 or code == 139:
            return line[-1], "the process was ended by signal %d" % -code
        return None

    def replay(self, harness, w, h, what):
        """The scenario that fails and what is reported, or None"""
        for profile in ("dev", "release") + (("asan",) if MEMORY.search(what) else ()):
            if profile == "asan":
                self.thread.join()
                if not self.asan_tried:
                    self.build_asan()
                if "asan" not in self.bins:
                    continue
            args = ["replay", harness, hex(w), hex(h)] + ([400] if profile == "asan" else [])
            code, out = self.call(profile, *args)
            if code == 0 or code is None:
                continue
            line = [x for x in out.splitlines() if x.startswith("FAILED")]
            if line:
                i = out.splitlines().index(line[0])
                return profile, line[0], "\n".join(out.splitlines()[i:i + 2])
            found = self.crash(code, out)
            if found:
                return (profile,) + found
        return None


def scenario(line):
    d = dict(x.split("=", 1) for x in line.split()[1:])
    return [d[k] for k in ("harness", "w", "h", "mix", "room", "follow", "seed")]


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.spec = PROPS[prop]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.notes, self.known, self.results = [], [], {}
        self.violations = 0
        limit = 840 if tier == "quick" else 6 * 3600
        self.kani = Kani(prop, limit, 420 if tier == "quick" else 3600)
        self.native = Native(self.spec.get("memory", False))
        self.sampled = {}
        self.replayed = 0

    # One group of harnesses under one configuration
    def decide(self, harnesses, cfgs=(), memory=False):
        res = self.kani.check(harnesses, cfgs, memory)
        suffix = "".join("+" + c for c in cfgs)
        again = []
        for h in harnesses:
            r = res[h]
            self.results[h + suffix] = r
            log("%-34s %s %5.1fs%s" % (h + suffix, "holds" if r["ok"] else "fails", r["ms"] / 1000,
                                       "" if r["ok"] else " " + "; ".join(sorted(set(r["failed"]))[:4])))
            if not r["ok"]:
                again.append(h)
        return again

    def decide_all(self, harnesses, cfgs=(), memory=False):
        """Decides, and explains what fails. Returns the harnesses that fail for real."""
        self.explain_all(self.decide(harnesses, cfgs, memory), cfgs, memory)

    def explain_all(self, harnesses, cfgs=(), memory=False):
        """Finds what fails for real among these harnesses, or decides them otherwise"""
        suffix = "".join("+" + c for c in cfgs)
        again = {}
        open_ = None
        for h in self.promising(harnesses, suffix):
            try:
                more = self.explain(h, cfgs, memory)
            except NoAnswer as e:
                log(e)
                open_ = open_ or e
                continue
            if self.violations:
                return
            if more:
                again.setdefault(more, []).append(h)
        for more, hs in again.items():
            try:
                self.decide_all(hs, more, memory)
            except NoAnswer as e:
                log(e)
                open_ = open_ or e
            if self.violations:
                return
        if open_:
            raise open_

    def promising(self, harnesses, suffix=""):
        """The harnesses that a counterexample is found with soonest come first"""
        def key(h):
            r = self.results[h + suffix]
            return (all(STRICT.match(x) or x.startswith("MODEL") or "unwinding" in x for x in r["failed"]), r["ms"])
        return sorted(harnesses, key=key)

    def explain(self, h, cfgs, memory):
        """Replays the counterexamples. Returns the configuration to decide the harness in instead, if any"""
        suffix = "".join("+" + c for c in cfgs)
        failed = self.results[h + suffix]["failed"]
        if any(x.startswith("MODEL-NOTHING") for x in failed):
            raise NoAnswer("%s was not decided: %s" % (h, failed))
        real = [x for x in failed if not STRICT.match(x) and "unwinding" not in x and "not currently supported" not in x]
        if not real and "roomy" not in cfgs and any(
                x.startswith("MODEL") or "unwinding" in x for x in failed):
            log("%s: without simplifications of the model" % h)
            return tuple(cfgs) + ("branchy", "roomy")
        for what, w, hh in self.kani.counterexamples(h, cfgs, memory):
            self.replayed += 1
            found = self.native.replay(h, w, hh, what)
            if found:
                self.violation(h, what, *found)
                return None
            log("%s: not reproduced natively: %s" % (h, what))
        if all(x.startswith("INV") for x in failed) and "noinv" not in cfgs:
            # Only internal state differs, and no sequence of operations was found that shows it
            log("%s: what a user can observe" % h)
            self.notes.append("%s: internal state differs from what was expected, without observable "
                              "consequences that were found: only single operations are claimed" % h)
            return tuple(cfgs) + ("noinv",)
        raise NoAnswer("%s fails, but not natively: %s" % (h, failed))

    def violation(self, h, what, profile, line, text):
        self.violations += 1
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.sh" % (self.prop, h))
        args = scenario(line)
        with open(path, "w") as f:
            f.write("#!/bin/bash\n# %s\n# %s\n" % (what, text.replace("\n", "\n# ")))
            env, flags = "RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=%s/native" % BUILD, "--profile " + profile
            if profile == "asan":
                env = " ".join("%s=%s" % x for x in ASAN.items()) + " RUSTFLAGS=-Zsanitizer=address"
                flags = "--target x86_64-unknown-linux-gnu"
            f.write("cd %s/replay && CARGO_NET_OFFLINE=true %s cargo run --quiet %s -- once %s\n"
                    % (HERE, env, flags, " ".join(args)))
        os.chmod(path, 0o755)
        log(text)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def pinned(self, harnesses):
        """Harnesses that describe a known deviation. If the code deviates otherwise, it has to be
        what the documentation says."""
        findings = json.load(open(os.path.join(HERE, "known_findings.json")))
        bad = self.decide(harnesses)
        for h in harnesses:
            if h in bad:
                continue
            for f in findings["findings"]:
                if f["property"] == self.prop and h in f["harnesses"]:
                    self.known.append(f)
        api = lambda h: any(not STRICT.match(x) for x in self.results[h]["failed"])
        undecided = [h for h in bad if api(h)]
        if undecided:
            log("not the known deviation; is it what is documented?")
        undecided = self.promising(undecided)
        for some in (undecided[:1], undecided[1:]):
            if some and not self.violations:
                # If neither, then the counterexample is to the known deviation
                self.explain_all([h[:-4] for h in self.decide([h + "_doc" for h in some])])
        if not self.violations:
            self.explain_all([h for h in bad if not api(h)])

    def witness(self):
        """The findings that are still there"""
        done = set()
        for f in self.known:
            if f["id"] in done:
                continue
            done.add(f["id"])
            code, out = self.native.call("dev", "once", *f["witness"])
            if code == 1:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, f["id"], f["what"]), flush=True)
            else:
                log("%s: the recorded input does not fail" % f["id"])

    def sample(self, harnesses):
        """What the native run of random scenarios finds: profile, scenario, text"""
        rounds = 300 if self.tier == "quick" else 5000
        self.native.bin()
        for profile in ("dev", "asan"):
            if profile not in self.native.bins:
                continue
            code, out = self.native.call(profile, "sample", self.seed, rounds, *harnesses, timeout=left(self.kani.limit))
            lines = out.splitlines()
            for i, line in enumerate(lines):
                m = re.match(r"sampled (\S+) (\d+)", line)
                if m:
                    self.sampled[m.group(1)] = self.sampled.get(m.group(1), 0) + int(m.group(2))
                if line.startswith("FAILED"):
                    return profile, line, "\n".join(lines[i:i + 2])
            found = self.native.crash(code, out) if code else None
            if found:
                return (profile,) + found
            if code != 0:
                raise NoAnswer("the native run ended with %s\n%s" % (code, out[-500:]))
        return None

    def run(self):
        p = self.spec.get("pinned", [])
        quick = list(self.spec["quick"])
        pins = quick if p is True else p
        plain = [h for h in quick if h not in pins]
        memory = self.spec.get("memory", False)
        steps = []
        if pins:
            steps.append(lambda: self.pinned(pins))
        if plain:
            steps.append(lambda: self.decide_all(plain, (), memory))
        if self.tier == "thorough":
            more = self.spec.get("thorough", [])
            if more and p is True:
                steps.append(lambda: self.pinned(more))
            elif more:
                steps.append(lambda: self.decide_all(more, (), memory))
            for cfgs, hs in self.spec.get("deep", []):
                steps.append(lambda cfgs=cfgs, hs=hs: self.decide_all(hs, cfgs, memory))
        open_ = None
        for step in steps:
            if self.violations:
                break
            try:
                step()
            except NoAnswer as e:
                # What follows may still find a violation
                log(e)
                open_ = open_ or e
        if not self.violations:
            # Do the harnesses say the same about the real build as the solver says about its model?
            bad = self.sample(plain + [h for h in pins if self.results.get(h, {}).get("ok")])
            if bad:
                self.violation(scenario(bad[1])[0], "random scenario", *bad)
        if open_ and not self.violations:
            raise open_
        self.witness()
        return 1 if self.violations else 0

    def evidence(self):
        r = self.results.values()
        st = lambda k: sum(x["stats"].get(k) or 0 for x in r)
        fns = sorted({f for x in r for f in x["functions"]})
        cov = dict(
            rule="Kani compiles the functions listed from /repo's working tree, CBMC unrolls the harnesses symbolically "
                 "and kissat decides the verification conditions. states: program steps of the unrolled symbolic "
                 "executions, each standing for all values of the inputs; transitions: verification conditions "
                 "generated on them, `queries` of which were not discharged by simplification and went to the solver; "
                 "traces_validated_against_impl: random scenarios of the same harnesses run natively on the real "
                 "build with the real hashbrown, plus counterexamples replayed.",
            states=int(st("size_program_expression")),
            transitions=int(st("vccs_generated")),
            queries=int(st("vccs_remaining")),
            traces_validated_against_impl=sum(self.sampled.values()) + self.replayed,
            solver_s=round(st("runtime_solver_s"), 2),
            symbolic_execution_s=round(st("runtime_symex_s"), 2),
            checks=int(sum(x["total"] for x in r)),
            checks_failed=int(sum(len(x["failed"]) for x in r)),
            bounds=self.spec["bounds"],
            outside=OUTSIDE,
            functions_encoded=fns,
            samples=[dict(harness=h, holds=x["ok"], checks=x["total"], seconds=round(x["ms"] / 1000, 1),
                          steps=x["stats"].get("size_program_expression"),
                          conditions=x["stats"].get("vccs_generated"), queries=x["stats"].get("vccs_remaining"),
                          solver_s=x["stats"].get("runtime_solver_s")) for h, x in self.results.items()],
        )
        if self.known:
            cov["known_findings"] = sorted({f["id"] for f in self.known})
        if self.notes:
            cov["notes"] = self.notes
        if not self.kani.hooks:
            cov["notes"] = self.notes + ["the hooks did not compile: internal state was not looked at"]
        return dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                    assumptions=OUTSIDE, wall_s=round(time.time() - START, 1), violations=self.violations)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", a.property + ".json")
    if os.path.exists(path):
        os.unlink(path)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    global START
    START = time.time()
    c = Check(a.property, a.tier)
    try:
        code = c.run()
    except NoAnswer as e:
        if c.violations:
            code = 1
        else:
            log("NO ANSWER:", e)
            code = 2
    try:
        c.native.thread.join()
    finally:
        with open(path, "w") as f:
            json.dump(c.evidence(), f, indent=1)
            f.write("\n")
    log("held" if code == 0 else "violated" if code == 1 else "no answer")
    sys.exit(code)


if __name__ == "__main__":
    main()
