"""Property-based testing engine for the Python package: cases are made of draws
from [0, n), which are recorded, replayed and shrunk. Cases run in forked worker
processes, so that a crash is a failure like any other."""
import argparse, hashlib, json, math, os, random, resource, select, shutil, signal, struct, sys, tempfile, time, traceback

CASE_TIMEOUT = 120  # of wall-clock time, for a case that waits for ever
CASE_CPU = 40  # of processor time
HANG = "does not end"
REGISTRY = {}


class Fail(Exception):
    pass


class Discard(Exception):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)


class Src:
    def __init__(self, seed=None, choices=None):
        self.rng = random.Random(seed) if choices is None else None
        self.choices = choices
        self.pos = 0
        self.out = []

    def draw(self, n):
        n = int(n)
        if n <= 1:
            return 0
        if self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = self.choices[self.pos] if self.pos < len(self.choices) else 0
            v = min(v, n - 1)
            self.pos += 1
        self.out.append(v)
        return v

    def range(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def small(self, lo, hi):
        if self.draw(2) == 0:
            return self.range(lo, min(hi, lo + 3))
        return self.range(lo, hi)

    def flag(self, num, den):
        return self.draw(den) >= den - num

    def unit(self):
        return self.draw(1 << 20) / float(1 << 20)

    def real(self, lo, hi):
        return lo + (hi - lo) * self.unit()

    def logreal(self, lo, hi):
        return lo * math.exp(math.log(hi / lo) * self.unit())

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def nprng(self):
        """A numpy generator for bulk noise, from one draw"""
        import numpy as np
        return np.random.default_rng(self.draw(1 << 30))


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self.nontrivial = False
        self.desc = ""
        self.labels = []
        self.metrics = []

    def describe(self, s):
        self.desc = s

    def label(self, s):
        self.labels.append(s)

    def metric(self, name, v):
        self.metrics.append((name, float(v)))


class Prop:
    def __init__(self, id, rule, run, quick_s=20, thorough_s=240, assumptions=(), workers=8, known=()):
        self.id, self.rule, self.run = id, rule, run
        self.quick_s, self.thorough_s, self.assumptions, self.workers = quick_s, thorough_s, list(assumptions), workers
        self.known = list(known)  # (key, function(Ctx)): inputs that fail if they are listed in the known findings
        REGISTRY[id] = self


def mix(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def quiet():
    """The code under test prints a lot"""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)


def run_case(prop, tier, src):
    """-> (status, message, ctx), status one of ok, discard, fail"""
    c = Ctx(tier)
    try:
        prop.run(src, c)
        return "ok", "", c
    except Discard:
        return "discard", "", c
    except Fail as e:
        return "fail", str(e), c
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return "fail", "%s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno), c
    except SystemExit as e:
        return "fail", "exits with status %s" % e.code, c


def forked(f, timeout):
    """Run f() -> bytes in a child: (bytes or None, description of how it died)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            quiet()
            resource.setrlimit(resource.RLIMIT_CPU, (CASE_CPU, CASE_CPU + 5))
            data = f()
            with os.fdopen(w, "wb") as g:
                g.write(data)
        except BaseException:
            code = 99
        os._exit(code)
    os.close(w)
    data, end, died = b"", time.time() + timeout, None
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            died = HANG + " within %d s" % timeout
            break
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if died is None and os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXCPU:
        died = HANG + " within %d s of processor time" % CASE_CPU
    elif died is None and os.WIFSIGNALED(st):
        died = "dies with signal %d" % os.WTERMSIG(st)
    elif died is None and os.WEXITSTATUS(st) != 0:
        died = "ends with status %d" % os.WEXITSTATUS(st)
    return (None, died) if died else (data, None)


def cpu_of(pid):
    """Seconds of processor time that a process of ours has taken"""
    with open("/proc/%d/stat" % pid) as f:
        w = f.read().rsplit(")", 1)[1].split()
    return (int(w[11]) + int(w[12])) / os.sysconf("SC_CLK_TCK")


def try_choices(prop, tier, choices):
    """-> (failed, message, choices used, description)"""
    def f():
        s = Src(choices=choices)
        st, msg, c = run_case(prop, tier, s)
        return json.dumps([st, msg, s.out, c.desc]).encode()

    data, died = forked(f, CASE_TIMEOUT)
    if died:
        return True, "the process " + died, choices, "(crashed)"
    st, msg, out, desc = json.loads(data)
    return st == "fail", msg, out, desc


def shrink(prop, tier, choices, budget=40):
    end = time.time() + budget
    first = try_choices(prop, tier, choices)
    if HANG in first[1]:
        return choices  # (takes too long to shrink)
    best = first[2] if first[0] else choices
    tried = set()

    def attempt(c):
        nonlocal best
        k = tuple(c)
        if k in tried or time.time() > end:
            return False
        tried.add(k)
        bad, _, out, _ = try_choices(prop, tier, c)
        if bad and (len(out), out) < (len(best), best):
            best = out
            return True
        return False

    improved = True
    while improved and time.time() < end:
        improved = False
        size = len(best) // 2
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += size
            size //= 2
        i = 0
        while i < len(best) and time.time() < end:
            if best[i] > 0:
                for v in (0, best[i] // 2, best[i] - 1):
                    if v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                        improved = True
                        break
            i += 1
    return best


def worker(prop, tier, seed, index, end, limit, out_path):
    """Runs cases until the time or number is over, or until one fails"""
    quiet()
    with open(out_path + ".current", "w+b", buffering=0) as cur, open(out_path, "w") as f:
        n, seen, samples, labels, metrics, discarded, nontrivial = 0, set(), [], {}, {}, 0, 0
        fail = None
        k = 0
        while time.time() < end and (limit is None or n < limit):
            cs = mix(seed, prop.id, index, k)
            k += 1
            cur.seek(0)
            cur.write(struct.pack("QQdd", 1, cs, time.time(), time.process_time()))
            s = Src(seed=cs)
            st, msg, c = run_case(prop, tier, s)
            n += 1
            if st == "discard":
                discarded += 1
                continue
            for l in c.labels:
                labels[l] = labels.get(l, 0) + 1
            for name, v in c.metrics:
                metrics[name] = max(metrics.get(name, 0), v)
            if st == "fail":
                fail = [s.out, msg, c.desc]
                break
            if c.nontrivial:
                h = hash(tuple(s.out))
                if h not in seen:
                    seen.add(h)
                    nontrivial += 1
                    if len(samples) < 2 or (k % 97 == 0 and len(samples) < 6):
                        samples.append(c.desc[:600])
        cur.seek(0)
        cur.write(struct.pack("QQdd", 0, 0, time.time(), 0))
        json.dump(dict(n=n, discarded=discarded, nontrivial=nontrivial, samples=samples, labels=labels, metrics=metrics,
                       fail=fail), f)


def known_text(path, id, key):
    if path and os.path.exists(path):
        for line in open(path):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + id and w[2] == "key=" + key:
                return w[3].strip()
    return None


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--prop", required=True)
    a.add_argument("--tier", default="quick")
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--budget", type=float)
    a.add_argument("--cases", type=int)
    a.add_argument("--workers", type=int)
    a.add_argument("--replay")
    a.add_argument("--evidence")
    a.add_argument("--replay-dir", default=".")
    a.add_argument("--known")
    a.add_argument("-v", action="store_true")
    o = a.parse_args()
    prop = REGISTRY[o.prop]
    if o.replay:
        text = dict(l.rstrip("\n").split(":", 1) for l in open(o.replay) if ":" in l)
        bad, msg, _, desc = try_choices(prop, text.get("tier", o.tier).strip(), [int(v) for v in text["choices"].split()])
        print("case:", desc)
        if bad:
            print("FAILS:", msg)
            print("VIOLATION property=%s replay=%s" % (prop.id, o.replay))
            return 1
        print("holds")
        return 0
    t0 = time.time()
    budget = o.budget or (prop.thorough_s if o.tier == "thorough" else prop.quick_s)
    failure, known = None, []  # failure: (message, desc, choices or None)
    for key, f in prop.known:
        def one():
            c = Ctx(o.tier)
            try:
                f(c)
                return json.dumps(["ok", "", c.desc]).encode()
            except Exception as e:
                return json.dumps(["fail", "%s: %s" % (type(e).__name__, e), c.desc]).encode()
        data, died = forked(one, CASE_TIMEOUT)
        st, msg, desc = ("fail", died, key) if died else json.loads(data)
        if st == "fail":
            text = known_text(o.known, prop.id, key)
            if text is not None:
                known.append(text)
                print("KNOWN-FINDING: property=%s %s" % (prop.id, text))
            else:
                failure = (msg, desc, None)
    tmp = tempfile.mkdtemp(prefix="arctic-pbt-py.")
    total = dict(n=0, discarded=0, nontrivial=0, samples=[], labels={}, metrics={})
    try:
        end = time.time() + budget
        nw = o.workers or prop.workers
        procs = []
        sys.stdout.flush()
        for i in range(nw):
            path = os.path.join(tmp, "w%d" % i)
            pid = os.fork()
            if pid == 0:
                try:
                    worker(prop, o.tier, o.seed, i, end, None if o.cases is None else -(-o.cases // nw), path)
                except BaseException:
                    with open(path + ".err", "w") as f:
                        traceback.print_exc(file=f)
                    os._exit(98)
                os._exit(0)
            procs.append([pid, path, None, False])
        def harvest(path, st, hung):
            if st == 0 and os.path.exists(path) and os.path.getsize(path):
                return json.load(open(path))
            if os.path.exists(path + ".err"):
                sys.stderr.write(open(path + ".err").read())
                sys.exit(2)
            with open(path + ".current", "rb") as f:
                b = f.read(32)
            busy, cs, _, _ = struct.unpack("QQdd", b) if len(b) == 32 else (0, 0, 0, 0)
            if busy:
                return dict(crash=cs, how=HANG if hung else "status %d" % st)
            return None
        waiting = list(range(nw))
        results = []
        while waiting:
            for i in list(waiting):
                pid, path = procs[i][0], procs[i][1]
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    waiting.remove(i)
                    results.append(harvest(path, st, procs[i][3]))
                elif not procs[i][3]:
                    try:
                        with open(path + ".current", "rb") as f:
                            b = f.read(32)
                        if len(b) == 32:
                            busy, cs, ts, cpu = struct.unpack("QQdd", b)
                            if busy and (cpu_of(pid) - cpu > CASE_CPU or time.time() - ts > CASE_TIMEOUT * 2):
                                procs[i][3] = True
                                os.kill(pid, signal.SIGKILL)
                    except (FileNotFoundError, ProcessLookupError):
                        pass
            time.sleep(0.05)
        candidates = []
        hung = 0
        for r in results:
            if r is None:
                continue
            if "crash" in r:
                hung += r["how"] == HANG
                if r["how"] == HANG and hung > 1:
                    continue
                s = Src(seed=r["crash"])
                # the choices of a case that crashed are those drawn before it
                # did: draw them again in a child that reports as it goes
                candidates.append((crash_choices(prop, o.tier, r["crash"], tmp), "the process dies: " + r["how"], ""))
                continue
            for k in ("n", "discarded", "nontrivial"):
                total[k] += r[k]
            total["samples"] += r["samples"]
            for l, v in r["labels"].items():
                total["labels"][l] = total["labels"].get(l, 0) + v
            for l, v in r["metrics"].items():
                total["metrics"][l] = max(total["metrics"].get(l, 0), v)
            if r["fail"]:
                candidates.append(r["fail"])
        if failure is None:
            for choices, msg, desc in sorted(candidates, key=lambda c: len(c[0])):
                # must fail again, three times of three
                if all(try_choices(prop, o.tier, choices)[0] for _ in range(3)):
                    best = shrink(prop, o.tier, choices)
                    bad, msg2, out, desc2 = try_choices(prop, o.tier, best)
                    failure = (msg2, desc2, out) if bad else (msg, desc, choices)
                    break
                print("NOTE: not reproduced: %s: %s" % (desc[:300], msg[:300]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    rng = random.Random(o.seed)
    samples = total["samples"]
    rng.shuffle(samples)
    ev = dict(property=prop.id, tier=o.tier, seed=o.seed, level="exploration",
              coverage=dict(evaluations=total["n"], distinct_nontrivial=total["nontrivial"], rule=prop.rule,
                            discarded=total["discarded"], samples=samples[:8] or ["none"], labels=total["labels"],
                            max_deviation_over_tolerance=total["metrics"], known_findings=known),
              assumptions=prop.assumptions, wall_s=round(wall, 2), violations=1 if failure else 0)
    if o.evidence:
        os.makedirs(os.path.dirname(o.evidence) or ".", exist_ok=True)
        with open(o.evidence, "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1f s" %
          (prop.id, o.tier, o.seed, total["n"], total["nontrivial"], total["discarded"], wall))
    if o.v:
        for l in sorted(total["labels"]):
            print("  label %-50s %d" % (l, total["labels"][l]))
        for l, v in total["metrics"].items():
            print("  max %s: %g" % (l, v))
    if failure:
        msg, desc, choices = failure
        path = os.path.join(o.replay_dir, "%s-%d.replay" % (prop.id, o.seed))
        os.makedirs(o.replay_dir, exist_ok=True)
        with open(path, "w") as f:
            f.write("property:%s\ntier:%s\n" % (prop.id, o.tier))
            if choices is not None:
                f.write("choices:%s\n" % " ".join(map(str, choices)))
            f.write("case: %s\nmessage: %s\n" % (desc.replace("\n", " "), msg.replace("\n", " ")))
        print("case: %s" % desc)
        print("FAILS: %s" % msg)
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    if total["n"] == 0:
        print("no cases were run")
        return 2
    return 0


def crash_choices(prop, tier, seed, tmp):
    path = os.path.join(tmp, "choices")

    def f():
        s = Src(seed=seed)
        with open(path, "w") as g:
            class Rec(list):
                def append(self, v):
                    list.append(self, v)
                    g.write("%d " % v)
                    g.flush()
            s.out = Rec()
            run_case(prop, tier, s)
        return b""

    forked(f, CASE_TIMEOUT)
    return [int(v) for v in open(path).read().split()] if os.path.exists(path) else []
