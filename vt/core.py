"""Frame of the checks: running harnesses, collecting what their monitors saw, verdicts, evidence."""
import concurrent.futures as cf
import json, os, random, re, signal, subprocess, sys, threading, time
import build

VERIF = build.VERIF
REPLAYS = os.path.join(build.BUILD, "replays")
LEVELS = {}


class Harness:
    """A harness built from h/<src> against a library variant."""
    def __init__(self, name, variant, srcs=None, extra=(), libs=(), plain=False, std="c++17", link=True):
        self.name, self.variant = name, variant
        self.srcs = srcs or [name + ".cpp"]
        self.extra, self.libs, self.plain, self.std, self.link = list(extra), list(libs), plain, std, link
        self._exe, self._lk = None, threading.Lock()

    def exe(self):
        with self._lk:
            if not self._exe:
                self._exe = build.harness(self.name, self.variant, self.srcs,
                                          extra=["-O1", "-fno-builtin"] + self.extra, libs=self.libs,
                                          plain=self.plain, std=self.std, link=self.link)
            return self._exe

    def spec(self):
        return dict(name=self.name, variant=self.variant, srcs=self.srcs, extra=self.extra,
                    libs=self.libs, plain=self.plain, std=self.std, link=self.link)


class Result:
    pass


def base_env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR", "LANG")}
    e["LC_ALL"] = "C"
    return e


def run_raw(argv, env, timeout=120, stdin=None, cwd=None):
    """Runs a harness; the results come over descriptor 3."""
    r = Result()
    r.void = False
    rd, wr = os.pipe()
    e = base_env()
    e.update({k: str(v) for k, v in env.items()})
    e.setdefault("DUMA_DISABLE_BANNER", "1")
    if e["DUMA_DISABLE_BANNER"] == "unset":
        del e["DUMA_DISABLE_BANNER"]
    e["VT_FD"] = str(wr)
    t0 = time.time()
    p = subprocess.Popen(argv, env=e, stdin=stdin if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, pass_fds=[wr], cwd=cwd,
                         start_new_session=True)
    os.close(wr)
    chunks = []

    def reader():
        while True:
            try:
                b = os.read(rd, 65536)
            except OSError:
                break
            if not b:
                break
            chunks.append(b)
    th = threading.Thread(target=reader, daemon=True)
    th.start()
    r.timeout = False
    try:
        so, se = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        so, se = p.communicate()
    try:
        os.killpg(p.pid, signal.SIGKILL)     # children left behind
    except OSError:
        pass
    th.join(20)
    os.close(rd)
    r.rc, r.out, r.err = p.returncode, so, se
    r.wall = time.time() - t0
    r.viols, r.stats, r.cases, r.crash, r.lines, r.keys = [], {}, [], None, [], set()
    for l in b"".join(chunks).decode("utf-8", "replace").split("\n"):
        if l.startswith("VIOL "):
            t = l.split(" ", 2)
            r.viols.append((t[1], t[2] if len(t) > 2 else ""))
        elif l.startswith("STAT "):
            t = l.split(" ")
            try:
                r.stats[t[1]] = r.stats.get(t[1], 0) + int(t[2])
            except (IndexError, ValueError):
                pass
        elif l.startswith("CASE "):
            r.cases.append(l[5:])
        elif l.startswith("KEYS "):
            r.keys.update(l.split()[1:])
        elif l.startswith("CRASH "):
            r.crash = l[6:]
        elif l:
            r.lines.append(l)
    return r


def how(r):
    if r.timeout:
        return "did not end within its time"
    if r.rc < 0:
        try:
            s = signal.Signals(-r.rc).name
        except ValueError:
            s = str(-r.rc)
        return "was ended by %s%s" % (s, " (%s)" % r.crash if r.crash else "")
    return "exited with %d" % r.rc


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%s/%d" % (pid, tier, seed))
        self.t0 = time.time()
        self.violations, self.stats, self.samples, self.other = [], {}, [], {}
        self.evaluations = 0
        self.keys = set()
        self.lk = threading.Lock()
        self.assume = []
        self.rule = ""
        self.level = "exploration"
        self.min_seen = {}
        # no new runs after this; a violation leaves a short time for more of them
        self.deadline = self.t0 + (600 if self.quick else 3600)

    def left(self):
        return self.deadline - time.time()

    # -- what was seen
    def add(self, name, n=1):
        with self.lk:
            self.stats[name] = self.stats.get(name, 0) + n

    def key(self, *k):
        with self.lk:
            self.keys.add(k)

    def sample(self, s):
        with self.lk:
            if len(self.samples) < 12:
                self.samples.append(s)

    def viol(self, text, replay):
        with self.lk:
            os.makedirs(REPLAYS, exist_ok=True)
            n = len(self.violations)
            if not n:
                self.deadline = min(self.deadline, time.time() + 45)
            path = os.path.join(REPLAYS, "%s-%d.json" % (self.pid, n))
            if n < 20:
                with open(path, "w") as fh:
                    json.dump(dict(property=self.pid, what=text, seed=self.seed, tier=self.tier, **replay),
                              fh, indent=1)
            self.violations.append((text, path))
            if n < 20:
                print("  %s: %s" % (self.pid, text[:600]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                sys.stdout.flush()

    # -- runs
    def judge(self, h, env, r, tags, expect_rc=(0, 9), need="done", args=()):
        """Judges one harness run: violations with one of the tags (None: any); the program is valid,
        so every other ending than the harness's own is a violation, too."""
        rep = dict(harness=h.spec() if isinstance(h, Harness) else str(h), env={k: str(v) for k, v in env.items()},
                   args=list(args))
        ok = True
        seen = set()
        for t, x in r.viols:
            if tags is None or t in tags:
                ok = False
                k = (t, re.sub(r"0x[0-9a-f]+|\d+", "#", x))
                if k in seen:
                    continue
                seen.add(k)
                self.viol("%s: %s" % (t, x), rep)
            else:
                with self.lk:
                    self.other[t] = self.other.get(t, 0) + 1
        if r.rc not in expect_rc or r.timeout:
            ok = False
            tail = r.err.decode("utf-8", "replace")[-500:].replace("\n", " | ")
            self.viol("program %s; last on stderr: %s" % (how(r), tail), rep)
        elif ok and need and not r.viols and not r.stats.get(need):
            ok = False
            self.viol("program ended early (%s): %s" % (how(r), r.err.decode("utf-8", "replace")[-400:].replace("\n", " | ")), rep)
        with self.lk:
            for k, v in r.stats.items():
                if k != "done":
                    self.stats[k] = self.stats.get(k, 0) + v
        return ok

    def raw(self, argv, env, timeout, retry=True, **kw):
        """A run within the check's time; r.void: it was cut short by that and says nothing."""
        lim = max(2, min(timeout, self.left()))
        r = run_raw(argv, env, lim, **kw)
        if r.timeout and retry and not self.violations and self.left() > timeout:
            r = run_raw(argv, env, min(timeout * 2, self.left()), **kw)     # a loaded machine is no violation
        elif r.timeout:
            r.void = bool(self.violations) or lim < timeout
        return r

    def run(self, h, env, tags=None, timeout=60, args=(), count=None, keys=True, expect_rc=(0, 9), retry=True, **kw):
        r = self.raw([h.exe()] + [str(a) for a in args], env, timeout, retry, **kw)
        if r.void:
            return r
        self.judge(h, env, r, tags, expect_rc, args=args)
        for c in r.cases:
            self.key(h.name, h.variant, c)
        with self.lk:
            self.keys.update((h.name, k) for k in r.keys)
            self.evaluations += r.stats.get(count, 0) if count else 1
        return r

    def parallel(self, jobs, workers=8):
        """Runs thunks; stops handing out new ones after many violations."""
        def one(j):
            if len(self.violations) >= 20 or self.left() <= 0:
                return None
            return j()
        with cf.ThreadPoolExecutor(workers) as ex:
            return list(ex.map(one, jobs))

    def prebuild(self, hs):
        # libraries first (each once), then harnesses in parallel
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(build.lib, sorted({h.variant for h in hs})))
            list(ex.map(lambda h: h.exe(), hs))


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                out.append(l[len("finding: property=%s " % pid):])
    return out


def write_evidence(ctx, err=None):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(evaluations=ctx.evaluations,
               distinct_nontrivial=len(ctx.keys),
               rule=ctx.rule, samples=ctx.samples or ["(none)"], observed=ctx.stats)
    if ctx.other:
        cov["deviations_belonging_to_other_properties"] = ctx.other
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=ctx.level, coverage=cov,
              wall_s=round(time.time() - ctx.t0, 2), violations=len(ctx.violations), assumptions=ctx.assume)
    p = os.path.join(VERIF, "evidence", ctx.pid + ".json")
    with open(p + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.rename(p + ".tmp", p)
