"""The machinery behind run.py: builds, workers, shrinking, fuzzing, evidence."""
import concurrent.futures as cf, hashlib, json, os, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MEOJSON_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, VERIF)

NCPU = 8
SHRINKABLE = {"text"}  # kinds of custom cases whose payload may be minimised byte by byte
SAN = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:abort_on_error=0:exitcode=86",
       "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=86", "TSAN_OPTIONS": "exitcode=86:halt_on_error=1:second_deadlock_stack=1",
       "LC_ALL": "C"}
ENV = dict(os.environ, **SAN)


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


# ------------------------------------------------------------------ build
def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(VERIF, "lib")):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()


TREE = None


class CompileError(Exception):
    pass


def compile_unit(cxx, src, flags, link=False):
    """Compiles src to an object (or links objects src, a list, to a binary); cached by content."""
    h = hashlib.sha256()
    h.update((TREE + cxx + repr(flags) + repr(link)).encode())
    for s in (src if link else [src]):
        with open(s, "rb") as f:
            h.update(f.read())
    if not link:
        for f in sorted(os.listdir(os.path.join(VERIF, "src"))):
            if f.endswith(".hpp") or f.endswith(".inc"):
                h.update(open(os.path.join(VERIF, "src", f), "rb").read())
    key = h.hexdigest()[:24]
    out = os.path.join(BUILD, key + ("" if link else ".o"))
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    if link:
        cmd = [cxx] + flags + src + ["-o", tmp] + [f for f in flags if f.startswith("-l")]
    else:
        cmd = [cxx] + flags + ["-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "src"), "-I" + os.path.join(REPO, "include"), "-c", src, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise CompileError(" ".join(cmd) + "\n" + r.stdout[:6000])
    os.rename(tmp, out)
    return out


def build_unit(u):
    return compile_unit(u[1], os.path.join(VERIF, "src", u[0]), u[2])


def build(units, link_flags, cxx="g++"):
    """units: [(source, compiler, flags)] -> path of the linked binary"""
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(build_unit, units))
    return compile_unit(cxx, objs, link_flags, link=True)


# ------------------------------------------------------------------ status of a worker
MAXC = 1 << 20
MAXT = 1 << 18


def read_status(path):
    with open(path, "rb") as f:
        data = f.read()
    if len(data) < 104 + MAXC:
        return 0, 0, [], "", b""
    state, size, tlen, klen, clen = struct.unpack_from("<5Q", data, 0)
    kind = data[40:40 + klen].decode("latin-1")
    custom = data[104:104 + clen]
    tape = list(struct.unpack_from("<%dQ" % min(tlen, MAXT), data, 104 + MAXC))
    return state, size, tape, kind, custom


def case_text(case):
    if case[0] == "tape":
        return "tape: %d %s\n" % (case[1], " ".join(map(str, case[2])))
    if case[0] == "custom":
        return "custom: %s %s\n" % (case[1], case[2].hex())
    return "campaign: %s\n" % " ".join(map(str, case[1]))


def parse_case(path):
    for line in open(path):
        w = line.split()
        if not w:
            continue
        if w[0] == "tape:":
            return ("tape", int(w[1]), [int(x) for x in w[2:]])
        if w[0] == "custom:":
            return ("custom", w[1], bytes.fromhex(w[2] if len(w) > 2 else ""))
        if w[0] == "campaign:":
            return ("campaign", w[1:])
    return None


class Runner:
    """Executes single cases of a built harness."""
    def __init__(self, binary, work, cpu_guard, env=None):
        self.binary, self.work, self.n = binary, work, 0
        self.guard = cpu_guard
        self.env = dict(ENV, **(env or {}))

    def run(self, case, quiet=True, timeout=200):
        """-> (outcome, output): outcome ok / fail / crash / hang / error"""
        self.n += 1
        if case[0] == "campaign":
            cmd = [self.binary, "run"] + list(case[1]) + ["--out", os.path.join(self.work, "c%d" % self.n)]
            timeout = 800
        else:
            path = os.path.join(self.work, "case%d" % self.n)
            with open(path, "w") as f:
                f.write(case_text(case))
            cmd = [self.binary, "replay", path, "--cpu-guard", str(self.guard)] + (["--quiet"] if quiet else [])
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.env, timeout=timeout, cwd=self.work)
        except subprocess.TimeoutExpired:
            return "hang", "wall clock limit"
        finally:
            if case[0] != "campaign":
                os.unlink(path)
        out = r.stdout.decode("utf-8", "replace")
        if r.returncode == 0:
            return "ok", out
        if r.returncode == 1:
            return "fail", out
        if r.returncode == 77:
            return "hang", out
        if r.returncode == 2:
            return "error", out
        return "crash", out


def shrink(runner, case, outcome, budget):
    """Greedy minimisation: candidates are tried in parallel batches, the first one that still fails is kept."""
    end = time.time() + budget
    ex = cf.ThreadPoolExecutor(NCPU)

    def first(cands):
        for i in range(0, len(cands), NCPU):
            if time.time() > end:
                return None
            part = cands[i:i + NCPU]
            for c, r in zip(part, ex.map(lambda c: runner.run(c)[0], part)):
                if r == outcome:
                    return c
        return None

    if case[0] == "custom":
        if case[1] not in SHRINKABLE:
            return case
        kind, data = case[1], case[2]
        n = max(1, len(data) // 2)
        while time.time() < end:
            got = first([("custom", kind, data[:i] + data[i + n:]) for i in range(0, len(data), n)])
            if got:
                data = got[2]
                continue
            if n == 1:
                break
            n //= 2
        for i in range(len(data)):
            if time.time() > end:
                break
            if data[i:i + 1] not in b"a0 ":
                got = first([("custom", kind, data[:i] + c + data[i + 1:]) for c in (b"a", b"0", b" ")])
                if got:
                    data = got[2]
        return ("custom", kind, data)
    if case[0] != "tape":
        return case
    size, tape = case[1], case[2]

    def mk(t):
        return ("tape", size, t)
    while tape and tape[-1] == 0:
        tape = tape[:-1]
    improved = True
    while improved and time.time() < end:
        improved = False
        n = max(1, len(tape) // 2)
        while n >= 1 and time.time() < end:
            got = first([mk(tape[:i] + tape[i + n:]) for i in range(max(0, len(tape) - n), -1, -max(1, n))])
            if got and len(got[2]) < len(tape):
                tape = got[2]
                improved = True
                n = min(n, max(1, len(tape) // 2))
                continue
            n //= 2
        n = max(1, len(tape) // 2)
        while n >= 1 and time.time() < end:
            cands = []
            for i in range(0, len(tape), n):
                if any(tape[i:i + n]):
                    cands.append(mk(tape[:i] + [0] * len(tape[i:i + n]) + tape[i + n:]))
            got = first(cands)
            if got:
                tape = got[2]
                improved = True
                continue
            n //= 2
        for i in range(len(tape)):
            lo, hi = 0, tape[i] if i < len(tape) else 0
            while hi - lo > 1 and time.time() < end:
                mids = sorted({lo + (hi - lo) * k // 8 for k in range(1, 8)} - {lo, hi}) or [lo + (hi - lo) // 2]
                mids = [m for m in mids if lo < m < hi]
                if not mids:
                    break
                got = first([mk(tape[:i] + [m] + tape[i + 1:]) for m in mids])
                if not got:
                    break
                tape, hi = got[2], got[2][i]
                improved = improved or True if False else improved
        while tape and tape[-1] == 0:
            tape = tape[:-1]
    ex.shutdown()
    return mk(tape)


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                out.append(line[len("finding: "):])
    return out


# ------------------------------------------------------------------ one check
class Check:
    def __init__(self, pid, spec):
        self.pid = pid
        self.spec = spec
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work-%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(EVID, exist_ok=True)
        self.evaluations = 0
        self.hashes = set()
        self.samples = []
        self.labels = {}
        self.extra = {}
        self.violations = []

    def log(self, s):
        print("[%s %6.1fs] %s" % (self.pid, time.time() - self.t0, s), flush=True)

    # -------- running
    def run_workers(self, name, binary, cases, workers=NCPU, seed=None, args=(), env=None, wall=640, guard=25):
        """Runs the harness in parallel; returns the failures as (case, outcome, output, binary, env, guard)"""
        seed = self.seed if seed is None else seed
        procs = []
        for w in range(workers):
            out = os.path.join(self.work, "%s-%d" % (name, w))
            cargs = ["--seed", str(seed), "--cases", str(cases), "--worker", str(w), "--workers", str(workers), "--cpu-guard", str(guard)] + list(args)
            if self.tier == "thorough":
                cargs.append("--thorough")
            log = open(out + ".log", "wb")
            procs.append((w, out, cargs, log, subprocess.Popen([binary, "run"] + cargs + ["--out", out], stdout=log, stderr=subprocess.STDOUT, env=dict(ENV, **(env or {})), cwd=self.work)))
        fails, deadline = [], time.time() + wall
        for w, out, cargs, log, p in procs:
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = None
                self.log("%s: worker %d stopped at the time limit" % (name, w))
                self.labels["workers stopped at the time limit"] = self.labels.get("workers stopped at the time limit", 0) + 1
            log.close()
            text = open(out + ".log", "rb").read().decode("utf-8", "replace")
            if os.path.exists(out + ".json"):
                try:
                    st = json.load(open(out + ".json"))
                except ValueError:
                    st = None
                if st:
                    self.evaluations += st["evaluations"]
                    for k, v in st["labels"].items():
                        self.labels[k] = self.labels.get(k, 0) + v
                    self.samples.append(st["samples"])
                    with open(out + ".hashes", "rb") as f:
                        d = f.read()
                    self.hashes.update(struct.unpack("<%dQ" % (len(d) // 8), d))
            if rc in (0, None):
                continue
            if rc == 1:
                outcome, text = "fail", st["message"] if st else text
            elif rc == 77:
                outcome = "hang"
            elif rc in (90, 91, 92, 2) :
                die("%s: worker %d ended with %d: %s" % (name, w, rc, text[-2000:]))
            else:
                outcome = "crash"
            state, size, tape, kind, custom = read_status(out + ".status")
            if outcome == "fail":
                state = 2 if st and st["where"] == "custom" else 1
            case = ("tape", size, tape) if state == 1 else ("custom", kind, custom) if state == 2 else None
            fails.append((case, outcome, text, binary, env, guard, cargs))
        return fails

    def handle(self, fails):
        """Confirms and shrinks the first failure; prints the VIOLATION line."""
        if not fails:
            return
        fails.sort(key=lambda f: (f[1] == "hang", len(f[0][2]) if f[0] else 1 << 30))
        for case, outcome, text, binary, env, guard, cargs in fails:
            runner = Runner(binary, self.work, guard, env)
            confirmed = None
            if case:
                rs = [runner.run(case)[0] for _ in range(2 if outcome == "hang" else 3)]
                bad = [r for r in rs if r not in ("ok", "error")]
                if len(bad) == len(rs):
                    confirmed, outcome = case, bad[0]
                elif bad and self.spec.get("flaky_ok"):
                    confirmed, outcome = case, None
            if confirmed and outcome:
                self.log("failure (%s), shrinking: %s" % (outcome, text.strip()[:300]))
                confirmed = shrink(runner, confirmed, outcome, 20 if outcome == "hang" else 60)
                rs = [runner.run(confirmed) for _ in range(3 if outcome != "hang" else 1)]
                if any(r[0] != outcome for r in rs):
                    confirmed = case
            if not confirmed:
                # depends on what ran before: the whole campaign is the replay
                rs = [runner.run(("campaign", cargs))[0] for _ in range(3 if outcome != "hang" else 2)]
                if all(r not in ("ok", "error") for r in rs) or (self.spec.get("flaky_ok") and any(r not in ("ok", "error") for r in rs)):
                    confirmed = ("campaign", cargs)
            if not confirmed:
                self.log("a failure that does not repeat, not reported: %s" % text.strip()[:500])
                self.labels["unrepeatable failures"] = self.labels.get("unrepeatable failures", 0) + 1
                continue
            path = os.path.join(EVID, "replay-%s.txt" % self.pid)
            out = runner.run(confirmed, quiet=False)[1]
            with open(path, "w") as f:
                f.write("# python3 run.py %s --replay %s\n" % (self.pid, path))
                f.write("binary: %s\n" % self.which(binary))
                f.write(case_text(confirmed))
                for line in out.splitlines()[:200]:
                    f.write("# " + line + "\n")
            print("\n".join(out.splitlines()[:40]))
            self.violation(path)
            return

    def which(self, binary):
        for k, v in getattr(self, "binaries", {}).items():
            if v == binary:
                return k
        return "main"

    def violation(self, path):
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    # a failure that is a property of the build itself
    def violation_text(self, text):
        path = os.path.join(EVID, "replay-%s.txt" % self.pid)
        with open(path, "w") as f:
            f.write(text + "\n")
        print(text[:4000])
        self.violation(path)

    # is the tree usable at all?
    def trivial_compiles(self):
        src = os.path.join(self.work, "t.cpp")
        os.makedirs(self.work, exist_ok=True)
        with open(src, "w") as f:
            f.write('#include "json.hpp"\nint main() { json::value v = 1; return v.to_string().size() != 1; }\n')
        return subprocess.run(["g++", "-std=c++17", "-I" + os.path.join(REPO, "include"), "-fsyntax-only", src], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0

    # -------- libFuzzer
    def run_fuzzer(self, name, binary, runs, max_len, corpus, workers=NCPU, wall=500):
        procs = []
        for w in range(workers):
            d = os.path.join(self.work, "%s-%d" % (name, w))
            os.makedirs(d + "/c")
            os.makedirs(d + "/a")
            seeds = [corpus] if corpus and w % 2 == 0 else []
            cmd = [binary, d + "/c"] + seeds + ["-seed=%d" % (self.seed * 1000 + w + 1), "-runs=%d" % runs, "-max_len=%d" % max_len, "-timeout=25", "-rss_limit_mb=3000",
                   "-max_total_time=%d" % wall, "-artifact_prefix=%s/a/" % d, "-print_final_stats=1", "-verbosity=1"]
            dic = os.path.join(VERIF, "corpus", "json.dict")
            if os.path.exists(dic):
                cmd.append("-dict=" + dic)
            log = open(d + ".log", "wb")
            procs.append((d, log, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=ENV, cwd=d)))
        arts = []
        for d, log, p in procs:
            p.wait()
            log.close()
            text = open(d + ".log", "rb").read().decode("utf-8", "replace")
            for line in text.splitlines():
                if line.startswith("stat::number_of_executed_units:"):
                    n = int(line.split()[-1])
                    self.evaluations += n
                    self.labels["coverage-guided executions (%s)" % name] = self.labels.get("coverage-guided executions (%s)" % name, 0) + n
            cov = [l for l in text.splitlines() if " cov: " in l]
            if cov:
                w = cov[-1].split()
                self.extra.setdefault("libfuzzer_edges_" + name, []).append(int(w[w.index("cov:") + 1]))
            for f in sorted(os.listdir(d + "/c")):
                with open(os.path.join(d, "c", f), "rb") as fh:
                    self.hashes.add(int.from_bytes(hashlib.sha256(fh.read()).digest()[:8], "little"))
            for f in sorted(os.listdir(d + "/a")):
                if f.startswith(("crash-", "timeout-", "oom-")):
                    with open(os.path.join(d, "a", f), "rb") as fh:
                        arts.append((f.split("-")[0], fh.read(), text))
            if p.returncode and not os.listdir(d + "/a"):
                die("%s: the fuzzer ended with %d: %s" % (name, p.returncode, text[-2000:]))
        return arts

    # -------- evidence
    def finish(self):
        samples, seen = [], set()
        for i in range(6):
            for lst in self.samples:
                if i < len(lst) and lst[i] not in seen:
                    seen.add(lst[i])
                    samples.append(lst[i])
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.hashes), "rule": self.spec["rule"], "samples": samples[:24] or ["(none)"],
               "labels": {k: self.labels[k] for k in sorted(self.labels)}}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.spec["level"], "coverage": cov, "assumptions": self.spec.get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        shutil.rmtree(self.work, ignore_errors=True)
        self.log("%d evaluations, %d distinct non-trivial, %s" % (self.evaluations, len(self.hashes), "VIOLATED" if self.violations else "held"))
        sys.exit(1 if self.violations else 0)


def main(CHECKS):
    global TREE
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        die("usage: run.py PROPERTY [--replay FILE]; properties: " + " ".join(CHECKS))
    os.makedirs(BUILD, exist_ok=True)
    TREE = tree_hash()
    c = Check(sys.argv[1], CHECKS[sys.argv[1]])
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    try:
        for f in known_findings(c.pid):
            print("KNOWN-FINDING: " + f)
        c.spec["run"](c, replay)
    except CompileError as e:
        if c.trivial_compiles():
            c.violation_text("# a use of the public API that this property needs does not compile\n%s" % e)
        else:
            print(e)
            die("the library does not compile")
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    c.finish()
