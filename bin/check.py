#!/usr/bin/env python3
"""Driver of the checks: builds the harnesses of one property from /repo's
working tree, runs them, judges what they reported, writes the evidence file.

  check.py P06 [--tier quick|thorough] [--seed N] [--replay FILE] [--keep]

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything
else: the check could not give an answer."""
import sys, os, json, time, re, subprocess, tempfile, shutil, hashlib, array
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
import specs

QUICK_SCALE = float(os.environ.get("VERIF_SCALE", "6"))   # multiplies the number of random cases of the quick tier
JOBS = min(8, os.cpu_count() or 8)
ASAN = ("abort_on_error=0:exitcode=71:detect_leaks=1:detect_stack_use_after_return=1:"
        "hard_rss_limit_mb=6000:allocator_may_return_null=0:handle_abort=1:max_allocation_size_mb=4000:"
        "strict_string_checks=1:detect_invalid_pointer_pairs=0:symbolize=1")
UBSAN = "print_stacktrace=1:halt_on_error=1:symbolize=1"
TSAN = "halt_on_error=1:exitcode=66:history_size=4"
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "ubsan": ["-fsanitize=undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
    "none": [],
}

class HarnessError(Exception):
    pass

def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return json.load(f)

class Check:
    def __init__(self, pid, tier, seed, workdir):
        self.pid, self.tier, self.seed, self.wd = pid, tier, seed, workdir
        self.spec = specs.SPECS[pid]
        self.violations = []      # dicts
        self.known_hits = {}      # key -> finding
        self.sections = {}
        self.events = {}
        self.samples = []
        self.hashes = set()
        self.notes = []
        kf = load_known()
        self.known = [k for k in kf["known"] if k["property"] == pid]

    # --- building
    def variants(self):
        return [v for v in self.spec["variants"] if self.tier == "thorough" or not v.get("thorough_only")]

    def compile_one(self, v):
        out = os.path.join(self.wd, v["name"])
        cxx = v.get("cxx", "g++")
        cmd = [cxx, "-std=" + v.get("std", "c++20"), v.get("opt", "-O1"), "-g1", "-w",
               "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")]
        if cxx == "clang++": cmd += ["-ferror-limit=3"]
        else: cmd += ["-fmax-errors=3"]
        cmd += SAN[v.get("san", "asan")] + v.get("flags", [])
        srcs = [s if os.path.isabs(s) else os.path.join(VERIF, "harness", s) for s in v["src"]]
        srcs = [s.replace("/repo/", REPO + "/", 1) if s.startswith("/repo/") else s for s in srcs]
        cmd += srcs + ["-o", out] + v.get("link", [])
        t = time.time()
        for attempt in (1, 2):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode == 0:
                return out, time.time() - t
            # a diagnosed error in the program is an answer; anything else is tried again
            if re.search(r"\berror:", p.stdout) and not re.search(r"Killed|out of memory|internal compiler error", p.stdout):
                break
        else:
            raise HarnessError("cannot compile %s:\n%s" % (v["name"], p.stdout[-3000:]))
        return p.stdout, None

    # --- running one shard
    def run_shard(self, v, exe, shard, nshards, only=None):
        tag = "%s.%d" % (v["name"], shard)
        state = os.path.join(self.wd, tag + ".state")
        hashes = os.path.join(self.wd, tag + ".hashes")
        res = {"violations": [], "stats": None, "hashes": hashes}
        resume = None
        hang_retry = 0
        for attempt in range(60):
            if os.path.exists(state): os.unlink(state)
            tmpd = os.path.join(self.wd, tag + ".d"); os.makedirs(tmpd, exist_ok=True)
            args = v.get("run", []) + [exe, "seed=%d" % self.seed, "tier=" + self.tier, "shard=%d/%d" % (shard, nshards),
                    "state=" + state, "hashes=" + hashes] + v.get("args", [])
            args.append("scale=%g" % (v.get("scale", 1.0) * (QUICK_SCALE * v.get("quick_scale", 1.0) if self.tier == "quick" else 1.0)))
            if only: args.append("only=" + only)
            if resume: args.append("resume=%s:%d" % resume)
            env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN, TSAN_OPTIONS=TSAN,
                       LC_ALL="C", TMPDIR=tmpd, VH_TMP=tmpd)
            env.update(v.get("env", {}))
            limit = v.get("timeout", 400 if self.tier == "quick" else 3000)
            try:
                p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=tmpd, timeout=limit)
                rc, so, se = p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1")
            except subprocess.TimeoutExpired as e:
                rc, so, se = "timeout", (e.stdout or b"").decode("latin-1"), (e.stderr or b"").decode("latin-1")
            sec, idx, note = self.read_state(state)
            for line in so.splitlines():
                if line.startswith("@V "):
                    key, s, i, d = line[3:].split("\t", 3)
                    res["violations"].append(dict(key=key, section=s, index=int(i), detail=d, variant=v["name"], shard=shard))
                elif line.startswith("@S "):
                    res["stats"] = json.loads(line[3:])
            if rc == 0:
                if res["stats"] is None: raise HarnessError("%s: no statistics" % tag)
                return res
            if rc == 70:
                raise HarnessError("%s: harness error: %s" % (tag, se[-2000:]))
            if only:
                res["violations"].append(dict(key="crash", section=sec, index=idx, detail=self.crash_text(rc, so, se), variant=v["name"], shard=shard))
                return res
            if rc == "timeout":
                # wall clock: inconclusive by itself; try again once with the machine less loaded
                hang_retry += 1
                if hang_retry > 1: raise HarnessError("%s: no end within %d s (section %s index %d)" % (tag, limit, sec, idx))
                continue
            if rc == 77:
                # CPU-time watchdog: confirm on the single case
                if not self.confirm_hang(v, exe, shard, nshards, sec, idx):
                    hang_retry += 1
                    if hang_retry > 2: raise HarnessError("%s: batch too slow at %s:%d" % (tag, sec, idx))
                    continue
                viol = dict(key="hang:" + sec, section=sec, index=idx, detail="no end: more than 40 s of CPU time in one case", variant=v["name"], shard=shard)
            else:
                if not sec:
                    raise HarnessError("%s: exit %s before any case: %s" % (tag, rc, self.crash_text(rc, so, se)))
                viol = dict(key=self.crash_key(rc, so, se, sec), section=sec, index=idx, detail=(note + " | " if note else "") + self.crash_text(rc, so, se), variant=v["name"], shard=shard)
            res["violations"].append(viol)
            if self.is_known(viol):
                resume = (sec, idx + 1)
                continue
            return res           # first unlisted crash ends the shard
        raise HarnessError("%s: too many crashes" % tag)

    def confirm_hang(self, v, exe, shard, nshards, sec, idx):
        env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN, TSAN_OPTIONS=TSAN, LC_ALL="C", VH_TMP=self.wd)
        env.update(v.get("env", {}))
        try:
            p = subprocess.run(v.get("run", []) + [exe, "seed=%d" % self.seed, "tier=" + self.tier, "shard=0/1", "only=%s:%d" % (sec, idx)] + v.get("args", []),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=self.wd, timeout=200)
            return p.returncode == 77
        except subprocess.TimeoutExpired:
            return True

    @staticmethod
    def read_state(path):
        try:
            b = open(path, "rb").read()
        except OSError:
            return "", 0, ""
        if len(b) < 144: return "", 0, ""
        import struct
        sec = b[:128].split(b"\0")[0].decode("latin-1")
        idx, = struct.unpack_from("<Q", b, 128)
        note = b[144:144 + 1024].split(b"\0")[0].decode("latin-1")
        return sec, idx, note

    @staticmethod
    def crash_kind(rc, so, se):
        m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+)", se)
        if m: return m.group(2)
        if "runtime error:" in se: return "undefined-behavior"
        m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", se)
        if m: return m.group(2)
        if "Assertion" in se: return "assert"
        if "terminate called" in se: return "terminate"
        return "exit%s" % rc

    def crash_key(self, rc, so, se, sec):
        kind = self.crash_kind(rc, so, se)
        if kind == "ABRT" or "Assertion" in se: kind = "assert" if "Assertion" in se else "abort"
        return "crash:%s:%s" % (kind, sec)

    @staticmethod
    def crash_text(rc, so, se):
        keep = [l.strip() for l in se.splitlines() if re.search(r"SUMMARY|runtime error|ERROR:|Assertion|terminate|what\(\)|#[0-9] |WARNING: Thread|Write of|Read of|Previous|READ of|WRITE of", l)]
        return ("exit %s: " % rc) + " / ".join(keep[:14])[:1800]

    def is_known(self, viol):
        for k in self.known:
            if re.fullmatch(k["key"], viol["key"]):
                self.known_hits.setdefault(k["key"], k)
                return True
        return False

    # --- the whole check
    def main(self, only=None, only_variant=None):
        variants = self.variants()
        if only_variant: variants = [v for v in variants if v["name"] == only_variant]
        compile_failures = []
        tasks = []
        build_s = 0.0
        with cf.ThreadPoolExecutor(JOBS) as ex:
            order = sorted(variants, key=lambda v: -v.get("weight", 1))
            futs = {ex.submit(self.compile_one, v): v for v in order}
            runs = {}
            errors = []
            for f in cf.as_completed(futs):
                v = futs[f]
                try:
                    exe, t = f.result()
                except Exception as e:
                    errors.append(e); continue
                if t is None:
                    compile_failures.append((v, exe)); continue
                build_s += t
                n = 1 if only else v.get("shards", 4)
                for s in range(n):
                    runs[ex.submit(self.run_shard, v, exe, s, n, only)] = (v, s)
            results = []
            for f in cf.as_completed(runs):
                try:
                    results.append(f.result())
                except Exception as e:
                    errors.append(e)
        for v, text in compile_failures:
            m = re.search(r"^.*error:.*$", text, re.M)
            viol = dict(key="compile:" + v["name"], section="compile", index=0, variant=v["name"], shard=0,
                        detail="a program using the documented interface no longer compiles: " + (m.group(0) if m else text[-500:]))
            if not self.is_known(viol): self.violations.append(viol)
        for r in results:
            for viol in r["violations"]:
                if not self.is_known(viol): self.violations.append(viol)
            st = r["stats"]
            if st:
                for k, (c, n) in st["sections"].items():
                    a = self.sections.setdefault(k, [0, 0]); a[0] += c; a[1] += n
                for k, n in st["events"].items(): self.events[k] = self.events.get(k, 0) + n
                self.samples += st["samples"]
                if os.path.exists(r["hashes"]) and len(self.hashes) < 5000000:
                    a = array.array("Q"); b = open(r["hashes"], "rb").read(); a.frombytes(b[:len(b) // 8 * 8]); self.hashes.update(a)
        post = self.spec.get("post")
        if post and not errors:
            for viol in post(self, results) or []:
                if not self.is_known(viol): self.violations.append(viol)
        if errors and not self.violations:
            for e in errors: print("HARNESS-ERROR:", e, file=sys.stderr)
            raise HarnessError("%d harness error(s)" % len(errors))
        return results

    def evidence(self, wall):
        cases = sum(c for c, n in self.sections.values())
        seen, samples = {}, []
        for s in self.samples:
            sec = s.split(":")[0]
            if seen.get(sec, 0) < 2 and len(samples) < 40:
                seen[sec] = seen.get(sec, 0) + 1; samples.append(s)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": cases, "distinct_nontrivial": len(self.hashes),
                "rule": self.spec["rule"],
                "samples": samples,
                "sections": {k: {"cases": c, "nontrivial": n} for k, (c, n) in sorted(self.sections.items())},
                "observed_events": dict(sorted(self.events.items())),
                "builds": ["%s: %s -std=%s %s sanitizers=%s %s" % (v["name"], v.get("cxx", "g++"), v.get("std", "c++20"), v.get("opt", "-O1"), v.get("san", "asan"), " ".join(v.get("flags", []))) for v in self.variants()],
                "known_findings_observed": sorted(k["what"] for k in self.known_hits.values()),
            },
            "assumptions": self.spec.get("assumptions", []) + [
                "held on the executions counted here; says nothing about inputs and paths not driven",
                "sanitizers see what the compiled code does in these builds only"],
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f: json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        return ev

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay"); ap.add_argument("--keep", action="store_true"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.seed is None:
        try: a.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: a.seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:12], 16)
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix="verif-%s-" % a.pid)
    try:
        only = only_variant = None
        if a.replay:
            rp = json.load(open(a.replay))
            only, only_variant, a.seed, a.tier = "%s:%d" % (rp["section"], rp["index"]), rp["variant"], rp["seed"], rp["tier"]
            if rp["section"] == "compile": only = None
            if rp["key"].startswith("differs:"): only_variant = None      # takes several builds to see it
        c = Check(a.pid, a.tier, a.seed, wd)
        try:
            c.main(only, only_variant)
        except HarnessError as e:
            print("HARNESS-ERROR: %s" % e, file=sys.stderr)
            return 2
        if a.replay:
            for v in c.violations: print("REPRODUCED %s at %s:%d\n  %s" % (v["key"], v["section"], v["index"], v["detail"]))
            return 1 if c.violations else 0
        ev = c.evidence(time.time() - t0)
        for k in sorted(c.known_hits): print("KNOWN-FINDING: property=%s %s" % (a.pid, c.known_hits[k]["what"]))
        cov = ev["coverage"]
        print("%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %d violation report(s), %.1f s" % (a.pid, a.tier, a.seed, cov["evaluations"], cov["distinct_nontrivial"], len(c.violations), ev["wall_s"]))
        if a.v:
            for k, s in cov["sections"].items(): print("   %-40s %8d %8d" % (k, s["cases"], s["nontrivial"]))
            for k, n in cov["observed_events"].items(): print("   event %-34s %8d" % (k, n))
        if c.violations:
            rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
            seen = set()
            for v in c.violations:
                if v["key"] in seen or len(seen) >= 8: continue
                seen.add(v["key"])
                path = os.path.join(rd, "%s-%d.json" % (a.pid, len(seen)))
                json.dump(dict(property=a.pid, seed=a.seed, tier=a.tier, command="python3 bin/check.py %s --replay %s" % (a.pid, path), **v), open(path, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (a.pid, path))
                print("  key=%s at %s:%d (%s)\n  %s" % (v["key"], v["section"], v["index"], v["variant"], v["detail"][:1500]))
            return 1
        miss = [s for s, (cnt, n) in c.sections.items() if cnt == 0]
        need = c.spec.get("min_nontrivial", 50)
        if miss or cov["distinct_nontrivial"] < need:
            print("HARNESS-ERROR: too little was observed (%d distinct non-trivial cases, need %d; empty sections %s)" % (cov["distinct_nontrivial"], need, miss), file=sys.stderr)
            return 2
        for e in c.spec.get("required_events", []):
            if not c.events.get(e):
                print("HARNESS-ERROR: event %r was never observed" % e, file=sys.stderr)
                return 2
        return 0
    finally:
        if a.keep: print("kept", wd)
        else: shutil.rmtree(wd, ignore_errors=True)

sys.exit(main())
