"""Machinery shared by every check: build the driver from /repo's working tree, run scripts through it,
have TLC check the specification's models and validate the recorded traces, and report."""
import atexit, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)
DATA = os.path.join(REPO, "fisx_data")


class CheckError(Exception):
    """the check itself could not do its work (never a violation)"""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return r.returncode, r.stdout


class Env:
    """one scratch directory per run, removed at exit"""

    def __init__(self):
        os.makedirs(WORK, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-", dir=WORK)
        if not os.environ.get("VERIF_KEEP"):
            atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        self.classes = os.path.join(self.dir, "classes")
        os.makedirs(self.classes)
        self.drivers = {}
        self.n = 0
        self.open = []
        self.dataset = self.datadir = None

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, "%d-%s" % (self.n, name))

    # ---------------------------------------------------------------- build
    def build(self, flavour="plain"):
        if flavour in self.drivers:
            return self.drivers[flavour]
        flags = {"plain": ["-O1", "-g0", "-D_GLIBCXX_ASSERTIONS"],
                 "asan": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address", "-fno-omit-frame-pointer"],
                 "ndebug": ["-O2", "-g0", "-DNDEBUG"],
                 "tsan": ["-O1", "-g1", "-fsanitize=thread"]}[flavour]
        srcs = sorted(glob.glob(os.path.join(REPO, "src", "fisx_*.cpp"))) + sorted(glob.glob(os.path.join(VERIF, "driver", "*.cpp")))
        out = os.path.join(self.dir, "obj-" + flavour)
        os.makedirs(out, exist_ok=True)
        cc = ["g++", "-std=c++17"] + flags + ["-DFISX_DATA_DIR=\"/nonexistent\"", "-I" + os.path.join(REPO, "src"), "-w"]
        jobs = []
        for s in srcs:
            o = os.path.join(out, os.path.basename(s) + ".o")
            jobs.append((cc + ["-c", s, "-o", o], o))
        jobs.sort(key=lambda j: -os.path.getsize(j[0][-3]))
        extra = []
        if not glob.glob(os.path.join(self.classes, "Flt.class")):
            extra = [(["javac", "-cp", TLA, "-d", self.classes] + glob.glob(os.path.join(VERIF, "java", "*.java")), None)]
        with ThreadPoolExecutor(CORES) as ex:
            for (rc, txt), (cmd, _) in zip(ex.map(lambda j: sh(j[0]), extra + jobs), extra + jobs):
                if rc:
                    raise CheckError("build failed: %s\n%s" % (" ".join(cmd), txt[-3000:]))
        exe = os.path.join(self.dir, "drv-" + flavour)
        rc, txt = sh(["g++"] + [f for f in flags if f.startswith("-fsan")] + ["-o", exe] + [o for _, o in jobs] + ["-lpthread"])
        if rc:
            raise CheckError("link failed\n" + txt[-3000:])
        self.drivers[flavour] = exe
        return exe

    def works(self, flavour):
        """can a driver of this flavour run in this environment"""
        exe = self.build(flavour)
        try:
            p = subprocess.run([exe], input='{"op":"reset"}\n{"op":"threads","lists":[[{"op":"tt.default","id":"a"}],[{"op":"tt.default","id":"b"}]]}\n',
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60, cwd=self.dir)
        except subprocess.TimeoutExpired:
            return False
        return p.returncode == 0 and p.stdout.count('"ok"') >= 3

    def build_java(self):
        if not glob.glob(os.path.join(self.classes, "Flt.class")):
            rc, txt = sh(["javac", "-cp", TLA, "-d", self.classes] + glob.glob(os.path.join(VERIF, "java", "*.java")))
            if rc:
                raise CheckError(txt)

    # ---------------------------------------------------------------- data
    def data(self, seed=1, every=False):
        """the data directory for the library under test, and the same data for the specification"""
        if not self.dataset:
            import data
            self.datadir = os.path.join(self.dir, "data")
            ds = data.build(DATA, self.datadir, seed, every)
            self.dataset = os.path.join(self.dir, "dataset.json")
            with open(self.dataset, "w") as f:
                json.dump(ds, f)
        return self.dataset

    # ---------------------------------------------------------------- driver
    def drive(self, scripts, flavour="plain", stall=60):
        """run scripts (lists of operations) through the real library; returns the trace: one record per operation,
        with its result. An operation the library does not survive gets the result {"crash": why}."""
        exe = self.build(flavour)
        trace = []
        todo = [op for s in scripts for op in [{"op": "reset"}] + s]
        env = dict(os.environ, MALLOC_PERTURB_="165", LC_ALL="C")
        env["FISX_DATA_DIR"] = "data"
        env["TSAN_OPTIONS"] = "halt_on_error=1 exitcode=66"
        env.pop("LD_PRELOAD", None)
        crashes = 0
        while todo:
            inp, outp = self.path("in"), self.path("out")
            with open(inp, "w") as f:
                for op in todo:
                    f.write(json.dumps(op) + "\n")
            cwd = self.path("cwd")
            os.makedirs(cwd)
            if self.dataset:
                os.symlink(self.datadir, os.path.join(cwd, "data"))
            with open(inp) as fi, open(outp, "w") as fo:
                p = subprocess.Popen([exe], stdin=fi, stdout=fo, stderr=subprocess.PIPE, env=env, cwd=cwd)
                last, t0, hung = -1, time.time(), False
                while True:
                    try:
                        p.wait(0.05 if last < 0 else 0.5)
                        break
                    except subprocess.TimeoutExpired:
                        n = os.path.getsize(outp)
                        if n != last:
                            last, t0 = n, time.time()
                        elif time.time() - t0 > stall:
                            p.kill()
                            p.wait()
                            hung = True
                            break
                err = p.stderr.read().decode("utf-8", "replace")
            with open(outp, errors="replace") as f:
                text = f.read()
            lines = text.split("\n")
            lines = [x for x in lines[:-1]]       # an unfinished last line is dropped
            if p.returncode == 3 and not hung:
                raise CheckError("driver: " + (lines[-1] if lines else ""))
            trace.extend(lines)
            os.unlink(inp)
            os.unlink(outp)
            shutil.rmtree(cwd, ignore_errors=True)
            if len(lines) >= len(todo):
                break
            k = len(lines)
            bad = dict(todo[k])
            bad["res"] = {"crash": "no answer" if hung else "died: %s %s" % (p.returncode, err[-200:])}
            trace.append(json.dumps(bad))
            crashes += 1
            k += 1
            while k < len(todo) and todo[k]["op"] != "reset":
                k += 1
            todo = todo[k:]
            if crashes > 3 or hung:
                break                             # enough has been seen
        return trace

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=1, heap="3g", args=(), timeout=800, spec_dir=SPEC):
        self.build_java()
        md = self.path("md")
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
               "-cp", ":".join([TLA, CM, self.classes]), "-Djava.io.tmpdir=" + self.dir,
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:FltMemo", "tlc2.TLC", "-nowarning", "-noGenerateSpecTE", "-metadir", md,
               "-workers", str(workers), "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
        try:
            rc, txt = sh(cmd, cwd=spec_dir, env=dict(os.environ, **(env or {})), timeout=timeout)
        except subprocess.TimeoutExpired as x:
            rc, txt = 124, (x.stdout or b"").decode("utf-8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        shutil.rmtree(md, ignore_errors=True)
        return rc, txt

    def validate(self, trace, module="Trace"):
        """TLC judges one trace; returns the list of rejected operations"""
        tf = self.path("trace.ndjson")
        with open(tf, "w") as f:
            f.write("\n".join(trace) + "\n")
        env = {"TRACE": tf}
        if self.dataset:
            env["DATASET"] = self.dataset
        rc, txt = self.tlc(module, "Trace.cfg", env=env)
        if not os.environ.get("VERIF_KEEP"):
            os.unlink(tf)
        bad = [json.loads(json.loads(m)[len("@@MISMATCH "):]) for m in re.findall(r'^("@@MISMATCH .*")$', txt, re.M)]
        m = re.search(r'^"@@DONE (\d+) bad (\d+) open (\d+)"$', txt, re.M)
        if rc or not m or int(m.group(1)) != len(trace) or int(m.group(2)) != len(bad):
            raise CheckError("trace validation did not finish (rc %s)\n%s" % (rc, tail(txt)))
        self.open.append(int(m.group(3)))
        return bad

    def model(self, module, cfg=None, timeout=600, heap="6g", args=(), workers=CORES, env=None):
        """exhaustive model check; returns (distinct states, transitions)"""
        rc, txt = self.tlc(module, cfg, workers=workers, heap=heap, args=args, timeout=timeout, env=env)
        if rc or "No error has been found" not in txt:
            raise CheckError("the specification itself fails: %s %s (rc %s)\n%s" % (module, cfg, rc, tail(txt)))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)[-1]
        return int(m[1]), int(m[0]), txt


def tail(txt):
    keep = [x for x in txt.splitlines() if not re.match(r"(Parsing|Semantic|Linting|Loading|public static)", x) and "produced the following error" not in x and "overridden by the Java" not in x]
    for i, x in enumerate(keep):
        if x.startswith("Error:"):
            return "\n".join(y[:1500] for y in keep[i:i + 30] + ["..."] + keep[-30:])
    return "\n".join(keep[-60:])


def rec(line):
    return json.loads(line)


# -------------------------------------------------------------------- one check
class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.env = Env()
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.ops = 0
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known = load_known(pid)
        self.known_seen = []
        self.rng = random.Random("%s/%s/%s" % (pid, tier, seed))

    def elapsed(self):
        return time.time() - self.t0

    def model(self, module, cfg=None, **kw):
        d, g, txt = self.env.model(module, cfg, **kw)
        self.states += d
        self.transitions += g
        self.samples.append("model %s: %d distinct states, %d transitions, no invariant violated" % (cfg or module, d, g))
        print("model %-24s %8d states %9d transitions  %.0fs" % (cfg or module, d, g, self.elapsed()), flush=True)
        return txt

    def generated(self, txt, tag):
        """what the model printed for each state it reached, in a fixed order"""
        return [json.loads(x) for x in sorted({json.loads(m)[len(tag) + 3:] for m in re.findall(r'^("@@%s .*")$' % tag, txt, re.M)})]

    def conform(self, scripts, label, flavour="plain", module="Trace", confirm=True):
        """scripts: list of lists of operations. Runs them, validates the traces, confirms and records rejections."""
        scripts = [s for s in scripts if s]
        if not scripts:
            return
        self.env.build(flavour)
        size = [1 + sum(1 + sum(map(len, o.get("lists", []))) if o["op"] == "threads" else 1 for o in s) for s in scripts]
        order = sorted(range(len(scripts)), key=lambda i: -size[i])
        shards = [[] for _ in range(min(CORES, len(scripts)))]
        load = [0] * len(shards)
        for i in order:
            k = load.index(min(load))
            shards[k].append(i)
            load[k] += size[i]

        def work(idx):
            trace = self.env.drive([scripts[i] for i in idx], flavour)
            return trace, self.env.validate(trace, module)
        with ThreadPoolExecutor(len(shards)) as ex:
            results = list(ex.map(work, shards))
        nops = 0
        rejected = []
        free = sum(self.env.open)
        self.env.open.clear()
        for trace, bad in results:
            nops += len(trace)
            self.states += len(trace) + 1
            self.transitions += len(trace)
            for b in bad:
                rejected.append((cut(trace, b["line"]), trace[:b["line"]]))
        self.traces += len(scripts)
        self.ops += nops
        ex = scripts[self.rng.randrange(len(scripts))]
        self.samples.append("%s: %d scripts, %d calls validated (%d with unspecified result), %d rejected; e.g. %s" %
                            (label, len(scripts), nops, free, len(rejected), short(ex[-1])))
        print("%-30s %5d scripts %7d calls %5d open %3d rejected  %.0fs" % (label, len(scripts), nops, free, len(rejected), self.elapsed()), flush=True)
        seen = set()
        for tr, before in rejected:
            last = rec(tr[-1])
            sig = (last["op"], last.get("q"), last.get("what"), last.get("f"))
            if sig in seen and len(seen) >= 1 and len(self.violations) >= 5:
                continue
            seen.add(sig)
            self.reject(tr, before, label, flavour, module, confirm)
            if len(self.violations) >= 8:
                break

    def reject(self, tr, before, label, flavour, module, confirm):
        """a rejected call is run again: alone first, then after everything the process had run before it"""
        why = ""
        if confirm:
            for t in (tr, before):
                ops = [strip(rec(x)) for x in t]
                ops = ops[1:] if ops and ops[0]["op"] == "reset" else ops
                again = self.env.drive([ops], flavour)
                bad = self.env.validate(again, module)
                if bad:
                    why = bad[0]["why"]
                    tr = again[:bad[0]["line"]]
                    break
            else:
                # never repeated: kept out of the verdict, but recorded
                print("note: rejection not repeated: %s" % short(rec(tr[-1])), flush=True)
                self.samples.append("not repeated: " + short(rec(tr[-1])))
                return
        self.violation(label, why, tr)

    def violation(self, label, why, tr):
        last = rec(tr[-1]) if tr else {}
        for k in self.known:
            if matches(k, last, why):
                if k["id"] not in self.known_seen:
                    self.known_seen.append(k["id"])
                return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.ndjson" % (self.pid, len(self.violations) + 1))
        with open(path, "w") as f:
            f.write("\n".join(tr) + "\n")
        self.violations.append({"what": label, "why": why, "replay": path, "op": short(last)})
        print("rejected: %s\n   call %s\n   %s" % (label, short(last, 600), why[:600]), flush=True)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def finish(self, level="model_checking"):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"kind": "model_checking", "states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples[:40]},
              "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d calls in %d scripts, %d states, %d violations, %.0fs" %
              (self.pid, self.tier, self.ops, self.traces, self.states, len(self.violations), self.elapsed()), flush=True)
        return 1 if self.violations else 0


def cut(trace, line):
    """the script that ends with the given (1-based) line of the trace, from its reset"""
    i = line - 1
    j = i
    while j > 0 and rec(trace[j])["op"] != "reset":
        j -= 1
    return trace[j:i + 1]


def strip(e):
    e = dict(e)
    e.pop("res", None)
    return e


def short(e, n=200):
    t = json.dumps(e)
    return t if len(t) <= n else t[:n] + "..."


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == pid]


def matches(k, last, why):
    for key, val in k["call"].items():
        if last.get(key) != val:
            return False
    return re.search(k.get("why", ""), why) is not None
