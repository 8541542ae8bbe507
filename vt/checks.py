"""The checks, one per property."""
import os, random, shutil
import core
import build
from core import Harness, run_raw, how

CHECKS = {}


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


HEAPV = ["static", "so", "gnustatic", "gnuso", "noglobal", "nothreads", "noleak", "atexit", "explicit", "nocpp"]
_h = {}


def H(name, variant, **kw):
    k = (name, variant, repr(sorted(kw.items())))
    if k not in _h:
        _h[k] = Harness(name, variant, **kw)
    return _h[k]


def heap_env(r, fixed=(), free=()):
    """A random but documented configuration; keys in fixed keep their value, keys in free stay at the default."""
    e = {}

    def o(k, vals, p=.5):
        if k in dict(fixed):
            e[k] = dict(fixed)[k]
        elif k not in free and r.random() < p:
            e[k] = r.choice(vals)
    o("DUMA_ALIGNMENT", [0, 1, 2, 4, 8, 16, 32, 64], .6)
    o("DUMA_PROTECT_BELOW", [0, 1], .5)
    o("DUMA_FILL", [-1, 0, 1, 255, 170])
    o("DUMA_SLACKFILL", [0, 1, 255, 85])
    o("DUMA_PROTECT_FREE", [-1, 0, 1, 100, 2000, 100000])
    o("DUMA_MALLOC_0_STRATEGY", [1, 2, 3], .5)
    o("DUMA_NEW_0_STRATEGY", [2, 3])
    o("DUMA_CHECK_FREQ", [0, 1, 5, 50], .3)
    o("DUMA_MAX_ALLOC", [-1, 5000, 50000], .3)
    o("DUMA_MALLOC_FAILEXIT", [0, 1])
    o("DUMA_FREE_ACCESS", [0, 1])
    o("DUMA_MEMCPY_OVERLAP", [0, 1], .2)
    o("VT_LIVE", [3, 50, 300], .7)
    o("VT_ZERO", [0, 10, 40], .5)
    o("VT_BIG", [0, 5], .3)
    o("VT_DYN", [0, 1], .4)
    o("VT_LIFO", [1], .15)
    o("VT_CPP", [0, 1], .2)
    o("VT_EVERY", [0, 40, 200], .4)
    for k, v in dict(fixed).items():
        e[k] = v
    return e


HEAP_RULE = ("Random histories of all allocation functions under random documented settings and library variants, "
             "replayed against a shadow heap; after every call the kernel's page protections are probed with loads and "
             "stores at the block, its guard, its slack and freed memory, and the whole address space is compared with "
             "the model at intervals. A situation is a distinct tuple (allocation function, protect-below, alignment, "
             "size class around page boundaries); each was checked on a block obtained in this run.")


def heap_runs(ctx, tags, variants, n, ops, fixed=(), free=(), extra=None, more=()):
    hs = [H("heap", v) for v in variants]
    ctx.prebuild(hs)
    jobs = list(more)
    for i in range(n):
        h = hs[i % len(hs)]
        e = heap_env(ctx.rng, fixed, free)
        e["VT_SEED"] = ctx.rng.randrange(1 << 30)
        e["VT_OPS"] = ops
        if extra:
            e.update(extra(ctx.rng, i))
        if i < 3:
            ctx.sample("heap history: library %s, %s" % (h.variant, " ".join("%s=%s" % kv for kv in sorted(e.items()))))
        jobs.append(lambda h=h, e=e: ctx.run(h, e, tags, count="ops"))
    ctx.parallel(jobs)


def heap_grid(ctx, tags, variants, strides, envs):
    hs = [H("heap", v) for v in variants]
    ctx.prebuild(hs)
    jobs = []
    i = 0
    for e0 in envs:
        for off in range(strides[0]):
            h = hs[i % len(hs)]
            i += 1
            e = dict(e0)
            e.update(VT_GRID=1, VT_OPS=0, VT_STRIDE=strides[1], VT_OFF=(off * strides[1]) // strides[0], VT_SEED=ctx.rng.randrange(1 << 30))
            jobs.append(lambda h=h, e=e: ctx.run(h, e, tags, count="ops"))
    ctx.sample("grid: every allocation function x alignment 1..2^18 x %s sizes around page and chunk boundaries, settings %s"
               % (90, envs))
    ctx.parallel(jobs)


@check("A01")
def a01(ctx):
    ctx.rule = HEAP_RULE
    tags = {"OVER"}
    q = ctx.quick
    heap_grid(ctx, tags, ["static", "so", "noglobal", "gnuso"], (4, 4) if q else (4, 1),
              [dict(DUMA_PROTECT_BELOW=0, DUMA_ALIGNMENT=a, DUMA_PROTECT_FREE=pf) for a, pf in ((1, 0), (16, 0), (8, 300))])
    ctx.run(H("heap", "static"), dict(VT_HUGE=1, VT_OPS=0, DUMA_FILL=-1), tags, count="ops")
    heap_runs(ctx, tags, ["static", "so", "gnuso", "nothreads"], 24 if q else 400, 2500 if q else 6000,
              fixed=dict(DUMA_PROTECT_BELOW=0))
    ctx.min_seen = dict(probes=20000, sweeps=20, huge=10)


@check("A02")
def a02(ctx):
    ctx.rule = HEAP_RULE
    tags = {"UNDER"}
    q = ctx.quick
    heap_grid(ctx, tags, ["static", "so", "noglobal", "gnuso"], (4, 4) if q else (4, 1),
              [dict(DUMA_PROTECT_BELOW=1, DUMA_ALIGNMENT=a, DUMA_PROTECT_FREE=pf) for a, pf in ((1, 0), (16, 0), (8, 300))])
    ctx.run(H("heap", "static"), dict(VT_HUGE=1, VT_OPS=0, DUMA_FILL=-1, DUMA_PROTECT_BELOW=1), tags, count="ops")
    heap_runs(ctx, tags | {"OVER"}, ["static", "so", "gnuso", "nothreads"], 24 if q else 400, 2500 if q else 6000,
              extra=lambda r, i: dict(VT_DYN=i % 2, DUMA_PROTECT_BELOW=1 if i % 4 < 3 else 0))
    ctx.min_seen = dict(probes=20000, sweeps=20, huge=10)


@check("A06")
def a06(ctx):
    ctx.rule = HEAP_RULE
    tags = {"CONTENT", "DISJOINT"}
    q = ctx.quick
    heap_grid(ctx, tags, ["static", "so"], (2, 4) if q else (4, 2),
              [dict(DUMA_PROTECT_BELOW=b, DUMA_FILL=f, DUMA_PROTECT_FREE=0) for b in (0, 1) for f in (0, 85)])
    # contents beyond 4 GB; the rest takes place at the same time
    h = H("heap", "static")
    ctx.prebuild([h])
    big = [lambda k=k: ctx.run(h, dict(VT_HUGE=k, VT_OPS=0, DUMA_FILL=90 if k == 5 else -1, DUMA_PROTECT_FREE=0, DUMA_MALLOC_FAILEXIT=0), tags, count=None) for k in ((2, 4, 5, 6) if q else (2, 3, 4, 5, 6))]
    big += alchurn_jobs(ctx, 6 if q else 60, 3000 if q else 20000, tags)
    heap_runs(ctx, tags, HEAPV, 40 if q else 500, 2500 if q else 6000, more=big)
    ctx.min_seen = dict(ops=30000, sweeps=20, huge=1)


ABORT_RULE = ("Misuse, violations and refused requests, each played in a forked child of a process with a random heap "
              "history; the oracle is how the child ended and what it said, compared with the model of the heap. A situation "
              "is a distinct tuple (kind of misuse, allocation function, release function or place); further situations come "
              "from the heap histories themselves.")


def abort_runs(ctx, tags, variants, n, need, fixed=(), free=(), extra=None):
    hs = [H("abort", v) for v in variants]
    ctx.prebuild(hs)
    jobs = []
    for i in range(n):
        h = hs[i % len(hs)]
        e = heap_env(ctx.rng, fixed, tuple(free) + ("VT_LIVE", "VT_ZERO", "VT_BIG", "VT_DYN", "VT_LIFO", "VT_CPP", "VT_EVERY"))
        e["VT_SEED"] = ctx.rng.randrange(1 << 30)
        e["VT_BG"] = ctx.rng.choice([0, 5, 60, 400])
        e["VT_LIVE"] = ctx.rng.choice([5, 40, 200])
        e.update(need)
        if extra:
            e.update(extra(ctx.rng, i))
        if i < 3:
            ctx.sample("misuse: library %s, %s" % (h.variant, " ".join("%s=%s" % kv for kv in sorted(e.items()))))
        jobs.append(lambda h=h, e=e: ctx.run(h, e, tags, count="judged"))
    ctx.parallel(jobs)


@check("A03")
def a03(ctx):
    ctx.rule = HEAP_RULE
    q = ctx.quick
    tags = {"UAF", "POOL"}
    # a table of more entries than 16 bits count
    h = H("heap", "static")
    ctx.prebuild([h])
    old = [lambda p=p, b=b: ctx.run(h, dict(VT_CHURN=68000, VT_OPS=500, VT_SEED=r0, DUMA_FILL=-1, DUMA_PROTECT_FREE=p, DUMA_PROTECT_BELOW=b), tags | {"CONTENT", "FAIL"}, count=None)
           for r0 in [ctx.rng.randrange(1 << 30)] for p, b in (((-1, 0),) if q else ((-1, 0), (-1, 1), (600000, 0)))]
    for pf in ([-1], [500, 3000, 20000], [0]):
        heap_runs(ctx, tags, HEAPV, 16 if q else 160, 2500 if q else 7000,
                  extra=lambda r, i: dict(DUMA_PROTECT_FREE=r.choice(pf), DUMA_MAX_ALLOC=-1, VT_EVERY=r.choice([100, 250])),
                  more=old if pf == [-1] else [])
    ctx.run(H("heap", "static"), dict(VT_HUGE=1, VT_OPS=0, DUMA_FILL=-1), tags, count="ops")
    # a limit is used up to its last kB: memory comes in pages, so N + 1, 2, 3 kB keep no more than N = 4 n kB
    hs = [H("set", v) for v in HEAPV]
    ctx.prebuild(hs)
    r = ctx.rng

    def held(h, n, below):
        e = dict(DUMA_PROTECT_FREE=n, DUMA_PROTECT_BELOW=below)
        x = ctx.raw([h.exe(), "held"], e, 60)
        if x.void:
            return None
        ctx.judge(h, e, x, tags, args=["held"])
        o = [l.split()[2:] for l in x.lines if l.startswith("OBS held ")]
        return o[0] if len(o) == 1 else None

    def edge(h, n, below):
        got = [held(h, n + d, below) for d in range(4)]
        if None in got:
            return
        if len(set(map(tuple, got))) > 1:
            ctx.viol("UAF: of equal freed blocks the library keeps %s kB with DUMA_PROTECT_FREE=%d, but %s kB with %d" % (got[0][0], n, got[3][0], n + 3),
                     dict(harness=h.spec(), env=dict(DUMA_PROTECT_FREE=n, DUMA_PROTECT_BELOW=below), args=["held"]))
        ctx.add("limits")
        with ctx.lk:
            ctx.evaluations += 1
    ctx.parallel(keep_jobs(ctx, 16 if q else 100, 10000))
    ctx.parallel([lambda h=h, n=4 * r.randrange(10, 400), b=b, d=d: edge(h, n // 8 * 8 + d, b) for h in hs for b in (0, 1) for d in (0, 4) for i in range(1 if q else 8)])
    ctx.min_seen = dict(probes=20000, sweeps=100, frees=10000, limits=20, keptchecks=60)


def early_runs(ctx, tags, n, extra=lambda r: {}):
    """Histories that begin before duma_init() is called explicitly, at any point of the process's start."""
    h = H("life", "explicit")
    r = ctx.rng
    jobs = []
    for i in range(n):
        e = heap_env(r, free=("DUMA_MAX_ALLOC", "VT_EVERY"))
        e.update(VT_SEED=r.randrange(1 << 40), VT_PHASES=(1 << 21) - 1 if i % 2 else 0xff | r.randrange(1 << 21), VT_FIRST=r.randrange(26), VT_END=r.randrange(6),
                 VT_INIT=r.randrange(3), VT_OPS=r.choice([10, 40, 80]), VT_LIVE=r.choice([10, 40]))
        e.update(extra(r))
        jobs.append(lambda e=e: ctx.run(h, e, tags, timeout=90, count="ops"))
    ctx.parallel(jobs)


@check("A04")
def a04(ctx):
    ctx.rule = ABORT_RULE
    q = ctx.quick
    abort_runs(ctx, {"SLACK"}, HEAPV, 30 if q else 300, dict(VT_SLACK=40 if q else 150))
    heap_runs(ctx, {"SLACK"}, HEAPV, 16 if q else 200, 2000 if q else 6000,
              extra=lambda r, i: dict(DUMA_CHECK_FREQ=r.choice([1, 2, 7, 40]), VT_DYN=i % 2))
    ctx.parallel([lambda h=H("abort", v), e=dict(VT_SEED=ctx.rng.randrange(1 << 30), VT_SLACKHUGE=40 if q else 200, DUMA_PROTECT_BELOW=b, DUMA_ALIGNMENT=a, DUMA_FILL=-1, DUMA_PROTECT_FREE=0, DUMA_MALLOC_FAILEXIT=0, DUMA_CHECK_FREQ=f):
                  ctx.run(h, e, {"SLACK"}, count="judged") for v in HEAPV for b, a, f in ((0, 1, 0), (1, 16, 0), (0, 64, 5))])
    early_runs(ctx, {"SLACK"}, 40 if q else 600, lambda r: dict(DUMA_SLACKFILL=r.choice([0, 17, 255, 170])))
    ctx.min_seen = dict(judged=1000)


@check("A05")
def a05(ctx):
    ctx.rule = ABORT_RULE
    q = ctx.quick
    abort_runs(ctx, {"RELEASE"}, HEAPV, 10 if q else 100, dict(VT_MISMATCH=2 if q else 8),
               extra=lambda r, i: dict(DUMA_MALLOC_0_STRATEGY=r.choice([2, 3]) if i % 3 else 1))
    abort_runs(ctx, {"RELEASE"}, HEAPV, 20 if q else 200, dict(VT_BAD=150 if q else 500))
    # freed long ago, when their memory has been given back in part
    abort_runs(ctx, {"RELEASE"}, HEAPV, 12 if q else 120, dict(VT_BAD=150 if q else 500, VT_LONGAGO=60),
               extra=lambda r, i: dict(VT_BG=400, DUMA_MAX_ALLOC=-1 if i % 3 else r.choice([1500, 4000]), DUMA_PROTECT_FREE=r.choice([100, 400, 1000, 3000]) if i % 3 else -1))
    heap_runs(ctx, {"RELEASE"}, HEAPV, 10 if q else 100, 2000, more=alchurn_jobs(ctx, 6 if q else 60, 4000 if q else 20000, {"RELEASE"}))
    ctx.min_seen = dict(judged=2000)


@check("A07")
def a07(ctx):
    ctx.rule = HEAP_RULE + " " + ABORT_RULE
    q = ctx.quick
    heap_grid(ctx, {"ALIGN"}, ["static", "so", "noglobal", "gnuso"], (4, 4) if q else (4, 1),
              [dict(DUMA_PROTECT_BELOW=b, DUMA_ALIGNMENT=a, DUMA_PROTECT_FREE=0) for a, b in ((1, 0), (16, 1), (8, 0))])
    abort_runs(ctx, {"ALIGN"}, HEAPV, 10 if q else 100, dict(VT_ODD=60 if q else 200))
    heap_runs(ctx, {"ALIGN"}, HEAPV, 20 if q else 200, 2000 if q else 6000, free=("DUMA_ALIGNMENT",),
              extra=lambda r, i: dict(VT_REFUSE=10, DUMA_ALIGNMENT=r.choice([0, 1, 2, 4, 8, 16, 32, 64, 128, 512]), VT_DYN=i % 2))
    ctx.run(H("heap", "static"), dict(VT_HUGE=1, VT_OPS=0, DUMA_FILL=-1, DUMA_ALIGNMENT=16), {"ALIGN"}, count="ops")
    ctx.parallel([lambda b=b, k=k, pb=pb, h=h: ctx.run(H("heap", "static"), dict(VT_HUGE=9, VT_OPS=0, VT_BIT=b, VT_KIND=k, VT_HALF=h, DUMA_PROTECT_BELOW=pb, DUMA_PROTECT_FREE=0, DUMA_FILL=-1, DUMA_MALLOC_FAILEXIT=0),
                                                      {"ALIGN"}, count=None)
                  for b, k, pb, h in (((33, 0, 1, 1), (33, 2, 1, 1), (33, 2, 0, 0), (33, 1, 0, 0), (31, 1, 0, 0), (31, 1, 1, 1)) if q else
                                      [(b, k, pb, h) for b in (30, 31, 32, 33) for k in range(3) for pb in (0, 1) for h in (0, 1)])], workers=2)
    ctx.min_seen = dict(judged=300, refused=500)


@check("A08")
def a08(ctx):
    ctx.rule = HEAP_RULE + " " + ABORT_RULE
    q = ctx.quick
    heap_runs(ctx, {"ZERO"}, HEAPV, 40 if q else 300, 1500 if q else 6000,
              extra=lambda r, i: dict(VT_ZERO=r.choice([30, 60, 90]), DUMA_MALLOC_0_STRATEGY=i % 4 or 3, DUMA_NEW_0_STRATEGY=r.choice([2, 3]),
                                      VT_EVERY=r.choice([50, 250])))
    heap_runs(ctx, {"ZERO"}, HEAPV, 10 if q else 50, 1500, free=("DUMA_MALLOC_0_STRATEGY", "DUMA_NEW_0_STRATEGY"),
              extra=lambda r, i: dict(VT_ZERO=50))
    abort_runs(ctx, {"ZERO"}, HEAPV, 10 if q else 60, dict(VT_Z0=3 if q else 10, DUMA_MALLOC_0_STRATEGY=0, VT_ZACC=2, VT_ZERO=0))
    abort_runs(ctx, {"ZERO"}, HEAPV, 10 if q else 60, dict(VT_ZACC=3 if q else 10), extra=lambda r, i: dict(DUMA_MALLOC_0_STRATEGY=2 + i % 2))
    ctx.min_seen = dict(judged=500, ops=20000)


@check("A09")
def a09(ctx):
    ctx.rule = HEAP_RULE + " " + ABORT_RULE
    q = ctx.quick
    tags = {"FAIL", "CONTENT", "META", "OVER", "UNDER"}
    heap_runs(ctx, tags, HEAPV, 20 if q else 200, 1500 if q else 5000,
              extra=lambda r, i: dict(VT_REFUSE=r.choice([5, 30, 60]), DUMA_MALLOC_FAILEXIT=0))
    heap_runs(ctx, tags, HEAPV, 10 if q else 100, 1500 if q else 5000,
              extra=lambda r, i: dict(VT_REFUSE=20, DUMA_MALLOC_FAILEXIT=1))
    # the system itself gives no more
    heap_runs(ctx, tags, HEAPV, 20 if q else 200, 5000 if q else 9000,
              extra=lambda r, i: dict(VT_AS=r.choice([1500, 3000, 9000]), VT_LIVE=r.choice([400, 2000, 6000]), DUMA_MALLOC_FAILEXIT=0,
                                      DUMA_MAX_ALLOC=-1, VT_EVERY=1000, VT_LIFO=0))
    abort_runs(ctx, {"FAIL"}, HEAPV, 15 if q else 150, dict(VT_FAILS=80 if q else 300, DUMA_MALLOC_FAILEXIT=1))
    ctx.run(H("heap", "static"), dict(VT_HUGE=1, VT_OPS=0, DUMA_FILL=-1), tags, count="ops")
    ctx.min_seen = dict(judged=500, refused=1000, nulls=50)


@check("A15")
def a15(ctx):
    ctx.rule = HEAP_RULE
    q = ctx.quick
    tags = {"META", "POOL"}
    heap_runs(ctx, tags, HEAPV, 30 if q else 300, 600 if q else 3000,
              extra=lambda r, i: dict(VT_EVERY=r.choice([1, 3, 10]), VT_LIVE=r.choice([10, 60])))
    heap_runs(ctx, tags, HEAPV, 20 if q else 200, 1500 if q else 5000,
              extra=lambda r, i: dict(VT_REFUSE=20, DUMA_MALLOC_FAILEXIT=i % 2, DUMA_MALLOC_0_STRATEGY=r.choice([1, 2, 3])))
    heap_runs(ctx, tags, HEAPV, 10 if q else 100, 4000,
              extra=lambda r, i: dict(VT_AS=r.choice([1500, 3000, 9000]), VT_LIVE=3000, DUMA_MALLOC_FAILEXIT=0, DUMA_MAX_ALLOC=-1, VT_EVERY=500))
    # C programs: the heap is empty at times, reports included
    r = ctx.rng
    hs = [H("metac", v, srcs=["metac.c"]) for v in HEAPV]
    ctx.prebuild(hs)
    jobs = []
    for i in range(len(hs) * (4 if q else 40)):
        e = heap_env(r, (), ("VT_LIVE", "VT_EVERY"))
        e.update(VT_SEED=r.randrange(1 << 30), VT_LIVE=r.choice([1, 2, 3, 60]), VT_EVERY=r.choice([1, 5]), VT_OPS=4000, DUMA_MALLOC_FAILEXIT=0,
                 DUMA_MALLOC_0_STRATEGY=r.choice([1, 2, 3]))
        jobs.append(lambda h=hs[i % len(hs)], e=e: ctx.run(h, e, {"META"}, count="ops"))
    ctx.parallel(jobs)
    ctx.min_seen = dict(sweeps=2000, tablemoves=30, refused=500, empty_reports=100)


@check("A24")
def a24(ctx):
    ctx.rule = HEAP_RULE + " " + ABORT_RULE
    q = ctx.quick
    tags = {"OVER", "UNDER", "UAF", "POOL", "CONTENT", "DISJOINT", "ALIGN", "ZERO", "META", "FAIL", "SLACK", "RELEASE"}
    for v in HEAPV:
        heap_grid(ctx, tags, [v], (1, 24) if q else (1, 4), [dict(DUMA_PROTECT_BELOW=b, DUMA_PROTECT_FREE=0) for b in (0, 1)])
        heap_runs(ctx, tags, [v], 3 if q else 40, 1500 if q else 5000, extra=lambda r, i: dict(VT_REFUSE=5))
        abort_runs(ctx, tags, [v], 1 if q else 20, dict(VT_SLACK=10, VT_BAD=40, VT_MISMATCH=1, VT_ODD=10, VT_ZACC=1, VT_FAILS=20, DUMA_MALLOC_FAILEXIT=1))
    early_runs(ctx, None, 60 if q else 1000)
    ctx.min_seen = dict(judged=500, ops=20000)


WRAP = ["-Wl,--wrap=mmap,--wrap=mprotect,--wrap=munmap"]
STOPS = (b"DUMA Aborting: ", (b"mmap(", b"mprotect() failed", b"No memory for more slots", b"Initial DUMA"))


# what the system documents for mmap, mprotect, munmap
FAULT_ERRNO = ([12, 12, 11, 1, 23], [12, 12, 13, 22], [12, 22])


def fault_run(ctx, h, e, t, k):
    """One history with one failing system call; the program may go on, or stop with a message that names the call."""
    r = ctx.raw([h.exe()], e, 60)
    if r.void:
        return r
    stopped = r.rc == -4 and STOPS[0] in r.err and any(m in r.err for m in STOPS[1])
    if stopped:
        ctx.add("stopped_with_message")
        if t == 2:
            stopped = False                 # giving back memory must not stop the program
    ctx.judge(h, e, r, None, expect_rc=(0, 9, -4) if stopped else (0, 9), need=None if stopped else "done")
    with ctx.lk:
        ctx.keys.update((h.name, x) for x in r.keys)
        ctx.evaluations += 1
    return r


@check("A20")
def a20(ctx):
    ctx.rule = ("Fault enumeration: short random histories (all allocation functions, random settings); for each one and each of mmap, "
                "mprotect, munmap every call the library makes from process start on fails once (and runs of calls fail), one process per "
                "fault. Allowed: the request is refused, or the program is stopped with a message naming the operation and live blocks whole; "
                "munmap failures must not be noticed. Contents, guards, freed memory and the whole address space are compared with "
                "the model after every call. A situation is a distinct (history, call, call number) that failed or a heap situation.")
    ctx.level = "fault_enumeration"
    q = ctx.quick
    hs = [H("fault", v, extra=WRAP) for v in ("static", "noleak", "gnustatic", "nothreads")]
    ctx.prebuild(hs)
    jobs = []
    r = ctx.rng
    for c in range(8 if q else 60):
        h = hs[c % len(hs)]
        e = heap_env(r, free=("VT_ZERO", "VT_BIG", "VT_DYN", "VT_LIFO", "VT_CPP", "VT_EVERY", "VT_LIVE"))
        e.update(VT_SEED=r.randrange(1 << 30), VT_OPS=[60, 25, 250][c % 3], VT_LIVE=[20, 60, 200][c % 3], VT_BIG=r.choice([1, 5, 20]), VT_EVERY=20,
                 DUMA_MALLOC_FAILEXIT=c // 2 % 2, DUMA_PROTECT_FREE=r.choice([-1, 0, 50, 500]), VT_MAYFAIL=1)
        ctx.sample("faulted history: library %s, %s" % (h.variant, " ".join("%s=%s" % kv for kv in sorted(e.items()))))
        r0 = ctx.run(h, e, None, count=None)
        n = [0] * 6
        for l in r0.lines:
            if l.startswith("COUNTS "):
                n = [int(x) for x in l.split()[1:7]]
        for t in range(3):
            ks = list(range(1, n[3 + t] + 1))
            cap = 90 if q else 2000
            if len(ks) > cap:               # all of the start, then a spread
                ks = ks[:30] + sorted(r.sample(ks[30:], cap - 30))
            for k in ks:
                for cnt in ((1,) if t == 1 else (1, 2) if q else (1, 2, 5)) + ((100000,) if k % 7 == 1 and t != 1 else ()):
                    f = dict(e, VT_FT=t, VT_FK=k, VT_FN=cnt, VT_FE=r.choice(FAULT_ERRNO[t]))
                    jobs.append(lambda h=h, f=f, t=t, k=k: fault_run(ctx, h, f, t, k))
                    ctx.key("fault", c, t, k, cnt)
            # one refused mapping is answered by giving back protected memory or by trying again
            if t == 0 and e["DUMA_PROTECT_FREE"] != 0:
                for k in ks:
                    if k > n[0]:
                        f = dict(e, VT_FT=0, VT_FK=k, VT_FN=1, VT_FE=r.choice(FAULT_ERRNO[0]), VT_MAYFAIL=0)
                        jobs.append(lambda h=h, f=f, t=t, k=k: fault_run(ctx, h, f, t, k))
    # one request gets no memory, for whatever reason the system gives
    for i in range(120 if q else 1500):
        h = hs[i % len(hs)]
        e = heap_env(r, free=("VT_ZERO", "VT_BIG", "VT_DYN", "VT_LIFO", "VT_CPP", "VT_EVERY", "VT_LIVE"))
        e.update(VT_SEED=r.randrange(1 << 30), VT_OPS=150, VT_LIVE=150, VT_BIG=20, VT_EVERY=50, DUMA_MALLOC_FAILEXIT=i // 4 % 2, DUMA_PROTECT_FREE=r.choice([0, 0, -1]), VT_MAYFAIL=1,
                 VT_FT=0, VT_FK=r.randrange(3, 20), VT_FN=r.choice([2, 2, 4, 100000]), VT_FE=FAULT_ERRNO[0][i // 8 % 5])
        jobs.append(lambda h=h, e=e: fault_run(ctx, h, e, 0, 0))
    # no memory at all for a long time: the table cannot grow either
    for i in range(60 if q else 600):
        h = hs[i % len(hs)]
        e = dict(VT_SEED=r.randrange(1 << 30), VT_OPS=6000, VT_EVERY=1000, VT_LIVE=9000, VT_ALIGNBIG=0, VT_BIG=0, VT_MAXSZ=5000, VT_ZERO=r.choice([0, 20]),
                 DUMA_MALLOC_FAILEXIT=0, DUMA_PROTECT_FREE=r.choice([0, 0, 0, -1, 100]), VT_MAYFAIL=1, VT_FT=0, VT_FK=r.randrange(3, 40), VT_FN=r.choice([200, 2000, 100000]))
        jobs.append(lambda h=h, e=e: fault_run(ctx, h, e, 0, 0))
    for i in range(80 if q else 1000):
        h = hs[i % len(hs)]
        e = dict(VT_SEED=r.randrange(1 << 30), VT_OPS=0, VT_ZERO=0, VT_BIG=0, VT_ALIGNBIG=0, VT_FILL=r.randrange(2000, 6500), VT_LIVE=9000,
                 DUMA_MALLOC_FAILEXIT=0, DUMA_PROTECT_FREE=r.choice([0, 0, -1, 100]), DUMA_PROTECT_BELOW=i % 2)
        jobs.append(lambda h=h, e=e: fault_run(ctx, h, e, 0, 0))
        ctx.key("fill", e["VT_FILL"])
    ctx.parallel(jobs)
    ctx.min_seen = dict(faults=1000, stopped_with_message=100)


def keep_jobs(ctx, n, cycles):
    """Long lives within the limits: what is kept for freed blocks neither exceeds them nor wears off."""
    r = ctx.rng
    hs = [H("heap", v) for v in HEAPV]
    ctx.prebuild(hs)
    out = []
    for i in range(n):
        mx = r.choice([-1, 12000, 20000, 30000, 60000])
        pf = r.choice([-1, 3000, 5000, 12000, 25000])
        if pf < 0 and mx < 0:
            pf = 4000
        e = dict(VT_KEEP=cycles, VT_OPS=0, DUMA_MALLOC_FAILEXIT=0, VT_SEED=r.randrange(1 << 30), DUMA_PROTECT_FREE=pf, DUMA_MAX_ALLOC=mx, DUMA_PROTECT_BELOW=i % 2)
        out.append(lambda h=hs[i % len(hs)], e=e: ctx.run(h, e, {"KEEP"}, count="ops"))
    return out


def alchurn_jobs(ctx, n, cycles, tags):
    """Long lives of blocks with big alignments; only parts of the freed ones stay protected."""
    r = ctx.rng
    hs = [H("heap", v) for v in HEAPV]
    ctx.prebuild(hs)
    out = []
    for i in range(n):
        e = dict(VT_ALCHURN=cycles, VT_OPS=200, DUMA_MALLOC_FAILEXIT=0, VT_SEED=r.randrange(1 << 30), DUMA_PROTECT_FREE=r.choice([300, 1000, 4000, 20000]),
                 DUMA_MAX_ALLOC=r.choice([-1, -1, 30000]), DUMA_PROTECT_BELOW=i % 2)
        out.append(lambda h=hs[i % len(hs)], e=e: ctx.run(h, e, tags, count="ops"))
    return out


@check("A12")
def a12(ctx):
    ctx.rule = ("Churn histories with every memory system call of the library recorded: after each release the memory still held for freed "
                "blocks (from the munmap events) is compared with DUMA_PROTECT_FREE, the total mapped memory with DUMA_MAX_ALLOC or with "
                "live + protected + a constant; under address-space limits no request of a small program may be refused. "
                "A situation is a distinct tuple (allocation function, protect-below, alignment, size class) met.")
    q = ctx.quick
    hs = [H("fault", v, extra=WRAP) for v in ("static", "noleak", "gnustatic", "nothreads")]
    hh = [H("heap", v) for v in ("so", "gnuso", "noglobal")]
    ctx.prebuild(hs + hh)
    r = ctx.rng
    jobs = []
    ops = 5000 if q else 30000

    def go(h, e):
        e["VT_SEED"] = r.randrange(1 << 30)
        if len(ctx.samples) < 10 and r.random() < .3:
            ctx.sample("churn: library %s, %s" % (h.variant, " ".join("%s=%s" % kv for kv in sorted(e.items()))))
        jobs.append(lambda: ctx.run(h, e, {"LIMIT", "FAIL"}, count="heldchecks" if h.name == "fault" else "ops"))
    # held for freed blocks: any sizes, any kind
    for i in range(32 if q else 300):
        e = heap_env(r, free=("DUMA_MAX_ALLOC", "VT_EVERY", "VT_DYN"))
        e.update(DUMA_PROTECT_FREE=r.choice([0, 1, 4, 8, 9, 30, 100, 777, 5000, 40000]), VT_OPS=ops, VT_EVERY=1000)
        go(hs[i % len(hs)], e)
    # total: sizes dividing the chunks
    base = dict(VT_ALIGNBIG=0, VT_BIG=0, VT_OPS=ops, VT_EVERY=1000, VT_LIVE=50)
    for i in range(16 if q else 150):
        pf = r.choice([0, 20, 400, 3000])
        go(hs[i % len(hs)], dict(base, VT_POW2=4, DUMA_PROTECT_FREE=pf, VT_LIMIT=50 * 64 + pf + 2500, DUMA_PROTECT_BELOW=i // 4 % 2))
        n = r.choice([6500, 9000, 15000])
        go(hs[i % len(hs)], dict(base, VT_POW2=4, DUMA_PROTECT_FREE=r.choice([-1, -1, 100000, 3000]), DUMA_MAX_ALLOC=n, VT_LIMIT=n + 1300, DUMA_PROTECT_BELOW=i // 4 % 2))
    # the system's limit
    for i in range(24 if q else 200):
        pf = r.choice([-1, -1, 0, 50, 3000, 100000])
        e = dict(base, VT_POW2=4, VT_LIVE=20, DUMA_PROTECT_FREE=pf, VT_AS=r.choice([3500, 6000, 12000]), DUMA_MALLOC_FAILEXIT=i % 2, DUMA_PROTECT_BELOW=i // 2 % 2)
        if r.random() < .3:
            e["DUMA_MAX_ALLOC"] = 100000
        go(hs[i % len(hs)], e)
        e = dict(VT_LIVE=20, VT_FIX=r.choice([3000, 4096, 12288, 100]), VT_OPS=ops, VT_EVERY=1000, VT_MAYFAIL=0,
                 DUMA_PROTECT_FREE=pf, VT_AS=r.choice([3500, 6000]), DUMA_MALLOC_FAILEXIT=i % 2)
        e["VT_KIND"] = r.choice([1, 3] if i % 3 == 2 else [1, 3, 8, 11])
        go(hh[i % 3], e)
    # the system has no memory until enough of what is kept has been given back
    for i in range(24 if q else 240):
        e = heap_env(r, free=("DUMA_MAX_ALLOC", "VT_EVERY"))
        e.update(DUMA_PROTECT_FREE=r.choice([-1, -1, 100, 777, 5000, 40000]), VT_OPS=ops // 2, VT_EVERY=1000, VT_STARVE=r.choice([1, 10, 40]), DUMA_MALLOC_FAILEXIT=i % 2,
                 VT_LIVE=r.choice([5, 50, 300]), VT_ALIGNBIG=0)
        go(hs[i % len(hs)], e)
    jobs += keep_jobs(ctx, 24 if q else 200, 12000 if q else 60000)
    jobs += alchurn_jobs(ctx, 8 if q else 80, 6000 if q else 40000, {"FAIL", "CONTENT", "DISJOINT"})
    # blocks up to some GB
    hg = [H("heap", v) for v in HEAPV]
    for i in range(28 if q else 160):
        e = dict(VT_HUGE=10, VT_OPS=0, VT_CYCLES=400 if q else 4000, VT_SEED=r.randrange(1 << 30), DUMA_FILL=-1, DUMA_PROTECT_BELOW=i % 2,
                 DUMA_MALLOC_FAILEXIT=0, DUMA_PROTECT_FREE=r.choice([0, 0, 1, 1000, 30000, 300000]) if i % 4 else -1)
        if i % 4 == 0 or i % 4 == 3:
            e["VT_AS"] = 16000000
            if i % 4 == 3:
                e["DUMA_PROTECT_FREE"] = r.choice([0, 30000, 8000000, 100000000])
        if i % 4 == 1:
            e.update(DUMA_MAX_ALLOC=r.choice([30000, 100000, 1000000, 6000000]), DUMA_PROTECT_FREE=-1)
        jobs.append(lambda h=hg[i % len(hg)], e=e: ctx.run(h, e, {"LIMIT", "FAIL"}, count="ops"))
    ctx.parallel(jobs)
    ctx.min_seen = dict(heldchecks=20000, syscalls=100000, starvations=400, keptchecks=100)


LEAKV = ["static", "so", "noglobal", "nothreads", "explicit", "atexit", "nocpp"]


def leak_program(ctx, h, mask, how_, env):
    import re
    r = ctx.raw([h.exe(), hex(mask), str(how_)], env, 60)
    if r.void:
        return
    exp = [l.split() for l in r.lines if l.startswith("EXP ")]
    rep = dict(harness=h.spec(), env=env, args=[hex(mask), str(how_)])
    with ctx.lk:
        ctx.evaluations += 1
    if r.rc != 0 or not exp or exp[-1][1] != "done":
        return ctx.viol("LEAK: a correct C program %s: %s" % (how(r), r.err[-300:].decode("utf-8", "replace")), rep)
    want = sorted((e[2], e[3], e[1]) for e in exp[:-1])
    lines = {e[2]: e[4] for e in exp[:-1]}
    txt = r.err.decode("utf-8", "replace")
    txt = re.sub(r"DUMA: Registering .*\nDUMA: If this hangs.*\nDUMA: Registration was successful.\n", "", txt)
    got, allk = [], env.get("DUMA_REPORT_ALL_LEAKS")
    for m in re.finditer(r"^DUMA: ptr=0x([0-9a-f]+) size=(\d+) type='([^']*)'(?: alloced from (.*)\((\d+)\))? not freed$", txt, re.M):
        if allk and m.group(1) not in lines:
            continue                        # the C++ runtime's
        got.append((m.group(1), m.group(2), m.group(3)))
        if m.group(4) is not None and (not m.group(4).endswith("leakc.c") or m.group(5) != lines.get(m.group(1))):
            ctx.viol("LEAK: leak of line %s is reported as %s(%s)" % (lines.get(m.group(1)), m.group(4), m.group(5)), rep)
    if sorted(got) != want:
        ctx.viol("LEAK: leaks %s are reported as %s" % (want, sorted(got)), rep)
    m = re.findall(r"^DUMA: Reported (\d+) leak\(s\)\.\nDUMA: There are (\d+) extra", txt, re.M)
    if len(m) > 1 or (want and not m) or (m and not allk and int(m[0][0]) != len(want)) or (m and int(m[0][1]) > 1):
        ctx.viol("LEAK: totals %s for %d leaks" % (m, len(want)), rep)
    if not want and not allk and h.variant == "static" and txt.strip():
        ctx.viol("LEAK: a program without leaks prints: %s" % txt[:300], rep)
    ctx.key("program", h.variant, mask, how_)


@check("A10")
def a10(ctx):
    ctx.rule = ("The report printed by DUMA_delFrame and at program end (in forked children) is parsed and compared block by block with the "
                "model of a random history (all allocation functions, with and without positions); C programs using duma.h check that the "
                "recorded positions are the ones of the source. A situation is a distinct (number of leaks, number of extra leaks) or program.")
    q = ctx.quick
    r = ctx.rng
    hs = [H("leak", v) for v in LEAKV]
    cs = [H("leakc", v, srcs=["leakc.c"], libs=["-lstdc++"]) for v in LEAKV]
    ctx.prebuild(hs + cs)
    jobs = []
    for i in range(120 if q else 400):
        h = hs[i % len(hs)]
        e = heap_env(r, free=("VT_DYN", "VT_EVERY", "VT_BIG"))
        e.update(VT_SEED=r.randrange(1 << 30), VT_LIVE=r.choice([3, 10, 40, 300]), VT_PER=r.choice([5, 30, 200]), VT_ROUNDS=40)
        if i % 3 == 0:
            e["DUMA_REPORT_ALL_LEAKS"] = 1
        if i < 4:
            ctx.sample("leak history: library %s, %s" % (h.variant, " ".join("%s=%s" % kv for kv in sorted(e.items()))))
        jobs.append(lambda h=h, e=e: ctx.run(h, e, {"LEAK"}, count="reports"))
    for i in range(70 if q else 256 * len(cs)):
        c = cs[i % len(cs)]
        e = {"DUMA_PROTECT_BELOW": str(i // 7 % 2)}
        if i % 5 == 4:
            e["DUMA_REPORT_ALL_LEAKS"] = "1"
        m = r.choice([0, 255, r.randrange(256), 1 << r.randrange(8)]) if q else i // len(cs)
        jobs.append(lambda c=c, e=e, m=m, i=i: leak_program(ctx, c, m, i % 2, e))
    ctx.parallel(jobs)
    unloaded_module(ctx)
    ctx.min_seen = dict(reports=500, lines=1000, silent=10)


def unloaded_module(ctx):
    """Leaks of modules loaded at run time; also of those unloaded before the report."""
    import re
    d = scratch()
    try:
        for v in ("so",):
            L = build.lib(v)
            fl = L["defs"] + ["-I" + L["inc"], "-g", "-w", "-U_FORTIFY_SOURCE"]
            lk = [L["lib"], "-Wl,-rpath," + os.path.dirname(L["lib"]), "-ldl", "-lpthread"]
            h = os.path.join(build.VERIF, "h")
            plug, exe = os.path.join(d, "plug-%s.so" % v), os.path.join(d, "plugm-" + v)
            build.sh(["gcc", "-shared", "-fPIC"] + fl + [os.path.join(h, "plug.c"), "-o", plug] + lk, env=build._clean_env())
            build.sh(["gcc"] + fl + [os.path.join(h, "plugm.c"), "-o", exe] + lk, env=build._clean_env())
            for mode in ("open", "close"):
                for e in ({}, {"DUMA_REPORT_ALL_LEAKS": "1"}):
                    r = ctx.raw([exe, plug, mode], e, 30)
                    if r.void:
                        continue
                    ctx.evaluations += 1
                    ctx.add("modules_" + mode)
                    got = [m for m in re.findall(rb"size=(\d+) .*?alloced from ([^\n]*)", r.err)]
                    mine = [g for g in got if b"plugname.c" in g[1]]
                    if r.rc == 0 and len(mine) == 1 and mine[0][0] == b"123" and b"plugname.c(77)" in mine[0][1]:
                        ctx.add("module_leaks")
                    elif mode == "close" and r.rc == -11 and not mine and any(k.startswith("unloaded-module:") for k in core.known_findings("A10")):
                        ctx.add("known_unloaded_module")
                    else:
                        ctx.viol("LEAK: leak of a module that is %s at the end: %s, report %r" % ("loaded" if mode == "open" else "unloaded", how(r), r.err[-300:]),
                                 dict(argv=[exe, plug, mode], env=e))
    finally:
        shutil.rmtree(d, ignore_errors=True)


REG = rb"DUMA: Registering .*\nDUMA: If this hangs.*\nDUMA: Registration was successful.\n"


def silent_run(ctx, h, e, tags):
    """A correct program without DUMA_SHOW_ALLOC prints nothing."""
    import re
    r = ctx.run(h, e, tags, count="ops")
    if r.void:
        return
    out = re.sub(REG, b"", r.err)
    if out.strip() or (out and h.variant != "atexit") or r.out:
        ctx.viol("LOG: a correct program prints: %s" % (out or r.out)[:300].decode("utf-8", "replace"), dict(harness=h.spec(), env=e, args=[]))
    else:
        ctx.add("silent_programs")


def log_program(ctx, h, mask, how_, env):
    """All lines of a whole C program with the log against its totals."""
    import re
    r = ctx.raw([h.exe(), hex(mask), str(how_)], env, 60)
    if r.void:
        return
    rep = dict(harness=h.spec(), env=env, args=[hex(mask), str(how_)])
    with ctx.lk:
        ctx.evaluations += 1
    txt = r.err.decode("utf-8", "replace")
    exp = [l.split() for l in r.lines if l.startswith("EXP ")]
    if r.rc != 0 or not exp:
        return ctx.viol("LOG: a correct C program %s: %s" % (how(r), txt[-300:]), rep)
    na, nf = len(re.findall(r"^DUMA: Allocating \d+ byte", txt, re.M)), len(re.findall(r"^DUMA: Freeing \d+ byte", txt, re.M))
    m = re.findall(r"^DUMA:   Allocation\(s\): (\d+)\nDUMA: Deallocation\(s\): (\d+)$", txt, re.M)
    if len(m) != 1 or int(m[0][0]) != na or int(m[0][1]) != nf:
        ctx.viol("LOG: totals %s at program end, the log has %d allocations and %d releases" % (m, na, nf), rep)
    # the program's own lines: from its source, in order
    own = [(x[0], int(x[1]), int(x[2])) for x in re.findall(r"^DUMA: (Allocating|Freeing) (\d+) byte\(s\) at \S*leakc\.c\((\d+)\)", txt, re.M)]
    want = [17, 120, 1000, 33, 5000, 8, 5, 9000, 1]
    got = [s for k, s, l in own if k == "Allocating"]
    if got != want:
        ctx.viol("LOG: the program allocates %s, the log says %s" % (want, got), rep)
    lines = [l for k, s, l in own if k == "Allocating"]
    if lines != sorted(lines) or len(set(lines)) != len(lines):
        ctx.viol("LOG: lines of the allocations are %s" % lines, rep)
    n = sum(1 for i in range(8) if not mask & (1 << i))
    fr = [s for k, s, l in own if k == "Freeing"]
    sizes = [17, 120, 1000, 33, 5000, 8, 9000, 1]
    if fr != [5] + [sizes[i] for i in range(8) if not mask & (1 << i)]:
        ctx.viol("LOG: with %d blocks freed the log says %s" % (n, fr), rep)
    for a, b in re.findall(r"^DUMA: Freeing \d+ byte\(s\) at \S*leakc\.c\(\d+\) \(Allocated from (\S*)\((\d+)\)\)", txt, re.M):
        if not a.endswith("leakc.c") or int(b) not in lines:
            ctx.viol("LOG: a block is said to be from %s(%s)" % (a, b), rep)
    ctx.key("program", h.variant, mask, how_)


@check("A22")
def a22(ctx):
    ctx.rule = ("The log of DUMA_SHOW_ALLOC is captured, parsed line by line after every call and compared with the calls made (kind, size, "
                "position, order, origin of the released block), the totals with the counts; the same programs without the "
                "setting must print nothing at all. A situation is a distinct tuple (allocation or release, size, with or without position) or program.")
    q = ctx.quick
    r = ctx.rng
    hs = [H("log", v) for v in HEAPV]
    cs = [H("leakc", v, srcs=["leakc.c"], libs=["-lstdc++"]) for v in LEAKV]
    hp = [H("heap", v) for v in HEAPV]
    ctx.prebuild(hs + cs + hp)
    jobs = []
    for i in range(60 if q else 500):
        h = hs[i % len(hs)]
        e = heap_env(r, free=("VT_DYN", "VT_EVERY", "VT_BIG"))
        e.update(VT_SEED=r.randrange(1 << 30), VT_OPS=600 if q else 2500, VT_LIVE=r.choice([5, 40, 300]), DUMA_SHOW_ALLOC=1,
                 DUMA_MALLOC_0_STRATEGY=1 + i % 3)
        if i < 4:
            ctx.sample("logged history: library %s, %s" % (h.variant, " ".join("%s=%s" % kv for kv in sorted(e.items()))))
        jobs.append(lambda h=h, e=e: ctx.run(h, e, {"LOG", "STATE"}, count="loglines"))
    for i in range(4 if q else 16):
        e = dict(VT_SEED=r.randrange(1 << 30), VT_OPS=50, VT_HUGE=5, DUMA_SHOW_ALLOC=1, DUMA_FILL=-1, DUMA_PROTECT_BELOW=i % 2, DUMA_PROTECT_FREE=[-1, 0][i // 2 % 2])
        jobs.append(lambda h=hs[i % len(hs)], e=e: ctx.run(h, e, {"LOG", "STATE"}, count="loglines"))
    for i in range(42 if q else 256 * len(cs)):
        c = cs[i % len(cs)]
        m = r.choice([0, 255, r.randrange(256)]) if q else i // len(cs)
        e = {"DUMA_PROTECT_BELOW": str(i // 7 % 2), "DUMA_SHOW_ALLOC": "1"}
        jobs.append(lambda c=c, e=e, m=m, i=i: log_program(ctx, c, m, i % 2, e))
    for i in range(20 if q else 200):
        h = hp[i % len(hp)]
        e = heap_env(r)
        e.update(VT_SEED=r.randrange(1 << 30), VT_OPS=1500)
        if i % 4 == 3:
            e["DUMA_SHOW_ALLOC"] = 0
        jobs.append(lambda h=h, e=e: silent_run(ctx, h, e, {"LOG", "STATE"}))
    ctx.parallel(jobs)
    ctx.min_seen = dict(loglines=10000, silent_programs=15, huge=5)


def str_jobs(ctx, tags, variants, n, each, env=None):
    hs = [H("str", v, srcs=["str.cpp", "strc.c"]) for v in variants]
    ctx.prebuild(hs)
    r = ctx.rng
    jobs = []
    for i in range(n):
        h = hs[i % len(hs)]
        e = dict(VT_SEED=r.randrange(1 << 30), VT_BLOCKS=i % 2, DUMA_MEMCPY_OVERLAP=r.choice([0, 1]), DUMA_PROTECT_BELOW=i // 2 % 2)
        e.update(each(i))
        if i < 3:
            ctx.sample("copies: library %s, %s" % (h.variant, " ".join("%s=%s" % kv for kv in sorted(e.items()))))
        jobs.append(lambda h=h, e=e: ctx.run(h, e, tags, count="calls", timeout=150))
    return jobs


@check("A13")
def a13(ctx):
    ctx.rule = ("Every placement of small regions (offsets -40..40, sizes 0..36) for memcpy and memmove, random strings at random relative "
                "positions in one arena for the string functions, and sizes around 2^31..2^34; called plainly, through duma.h, and "
                "directly. SIGILL of the report is caught in process (and in forked children for a sample), the message is compared "
                "word by word, and the arena must be unchanged. A situation is a distinct (function, way of calling, setting, expectation, distance, size).")
    q = ctx.quick
    v = HEAPV
    jobs = str_jobs(ctx, {"OVERLAP"}, v, len(v) * (2 if q else 12),
                    lambda i: dict(VT_PARTS=1, VT_OVERLAPS=60000 if q else 300000, VT_RESULTS=200, VT_HUGE=1,
                                   DUMA_MEMCPY_OVERLAP=(i + i // len(v)) % 2))
    ctx.parallel(jobs)
    ctx.assume += ["identical source and destination of memcpy and strncpy, and strcpy to a lower overlapping address, may be reported or not",
                   "strncat from an unterminated source that ends exactly at the destination's end may be reported or not"]
    ctx.min_seen = dict(reports=10000, silent=50000, huge=1000)


@check("A14")
def a14(ctx):
    ctx.rule = ("Differential check of every function against reference code: random contents and lengths, sources and destinations at the "
                "start, at the end and inside of arenas between inaccessible pages (and of heap blocks), read-only sources, n around the "
                "length, unterminated sources; all bytes of both arenas and the return value are compared. A situation is a "
                "distinct (function, way of calling, length class, n against length, source placement, destination placement).")
    q = ctx.quick
    v = HEAPV
    jobs = str_jobs(ctx, {"MEM"}, v, len(v) * (2 if q else 20),
                    lambda i: dict(VT_OVERLAPS=4000 if q else 30000, VT_RESULTS=25000 if q else 60000))
    big = str_jobs(ctx, {"MEM"}, ["static"] if q else ["static", "so", "noleak", "gnustatic"], 8 if q else 64, lambda i: dict(VT_OVERLAPS=0, VT_RESULTS=0, VT_BLOCKS=0, VT_HUGE=2 + (i if q else i // 4) % 6, VT_SWAP=(i if q else i // 4) // 6 % 2))
    big += str_jobs(ctx, {"MEM"}, ["static"], 2 if q else 8, lambda i: dict(VT_OVERLAPS=0, VT_RESULTS=0, VT_BLOCKS=0, VT_HUGE=8 + i % 2, VT_MORE=4096 if i < 4 else 1 << 31))
    big.append(lambda: ctx.run(H("heap", "static"), dict(VT_HUGE=6, VT_OPS=0, DUMA_FILL=-1, DUMA_PROTECT_FREE=0, DUMA_MALLOC_FAILEXIT=0), {"CONTENT"}, count=None))
    ctx.parallel(big + jobs)
    ctx.min_seen = dict(calls=100000, huge=6)


CPPSRC = ["cpp.cpp", "cppplain.cpp"]
CPPV = ["static", "so", "noglobal", "gnustatic", "atexit", "explicit"]         # those that record positions


@check("A16")
def a16(ctx):
    ctx.rule = ("All forms of operator new and delete with random sizes; requests that cannot be met under six behaviours of the new-handler (also with "
                "an address-space limit that the handler relieves); objects whose k-th constructor throws; random trees of objects "
                "whose destructors delete further objects, with the position of each release in the log compared with the line of its delete "
                "expression; C++11 to C++20. Each macro form (NEW_ELEM ... DEL_ARRAY_NOTHROW) is compared with the line logged for it, up to 254 nested deletes "
                "work and more than DUMA_MAX_DEL_DEPTH stop the program. A situation is a distinct (form, handler behaviour, size class), (way, count, throws) or tree shape.")
    q = ctx.quick
    r = ctx.rng
    hs = [H("cpp", v, srcs=CPPSRC, std=st) for v in CPPV + ["nothreads", "noleak", "nocpp"] for st in (("c++17",) if v not in ("static", "so") else ("c++11", "c++14", "c++17", "c++20"))]
    old = [H("old", "oldmac"), H("old", "oldmac", std="c++11")] + [H("old", v) for v in CPPV + ["nothreads", "noleak", "nocpp"]] + [H("old", "static", extra=["-DDUMA_NO_DUMA"])]
    ctx.prebuild(hs + old)
    jobs = []
    for i in range(3 * len(old) if q else 30 * len(old)):
        e = dict(VT_SEED=r.randrange(1 << 30), VT_OPS=15 if q else 60, DUMA_SHOW_ALLOC=int(r.random() < .8), DUMA_PROTECT_FREE=r.choice([0, 1000, 100000]),
                 DUMA_MALLOC_FAILEXIT=r.choice([0, 1]), DUMA_PROTECT_BELOW=r.choice([0, 0, 1]), DUMA_ALIGNMENT=r.choice([1, 1, 16]))
        if old[i % len(old)].variant == "nocpp":
            e["DUMA_MALLOC_FAILEXIT"] = 0            # operator new is the C++ library's, and calls malloc()
        if i < 2:
            ctx.sample("macro forms: library %s, %s, %s" % (old[i % len(old)].variant, old[i % len(old)].std, " ".join("%s=%s" % kv for kv in sorted(e.items()))))
        jobs.append(lambda h=old[i % len(old)], e=e: ctx.run(h, e, None, count="forms"))
    for i in range(2 * len(hs) if q else 20 * len(hs)):
        h = hs[i % len(hs)]
        e = heap_env(r, free=("VT_DYN", "VT_EVERY", "VT_BIG", "VT_LIVE", "VT_ZERO", "VT_LIFO", "VT_CPP", "DUMA_MAX_ALLOC"))
        e.update(VT_SEED=r.randrange(1 << 30), VT_FORMS=30 if q else 150, DUMA_MALLOC_FAILEXIT=r.choice([0, 1]))
        if i // len(hs) % 2:
            e["DUMA_PROTECT_FREE"] = 0
        if i < 3:
            ctx.sample("C++: library %s, %s, %s" % (h.variant, h.std, " ".join("%s=%s" % kv for kv in sorted(e.items()))))
        if h.variant == "nocpp":
            e["DUMA_MALLOC_0_STRATEGY"] = r.choice([2, 3])
        jobs.append(lambda h=h, e=e: ctx.run(h, e, None, count="forms"))
    for i in range(len(hs) if q else 10 * len(hs)):
        h = hs[i % len(hs)]
        if h.variant in ("noleak", "nocpp"):
            continue
        e = dict(VT_SEED=r.randrange(1 << 30), VT_THREADS=1, VT_OPS=300 if q else 1500, DUMA_SHOW_ALLOC=1, DUMA_PROTECT_FREE=r.choice([0, 1000]),
                 DUMA_PROTECT_BELOW=i // len(hs) % 2)
        jobs.append(lambda h=h, e=e: ctx.run(h, e, None, count="deletes"))
    ctx.parallel(jobs)
    ctx.min_seen = dict(forms=5000, handlers=5000, constructions=3000, deletes=50000, loglines=50000)


MTWRAP = ["-DVT_WRAP", "-Wl,--wrap=mmap,--wrap=mprotect,--wrap=munmap,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock"]
MTV = ["static", "so", "gnustatic", "gnuso", "noglobal", "noleak", "explicit", "atexit", "nocpp"]


@check("A11")
def a11(ctx):
    ctx.rule = ("2 to 12 threads run random histories with hand-overs between them; monitors: an ownership map of pages (a page never has two "
                "owners, protected ones never one again), contents and guards, the report (whole at any time, exact at the end of each round), the log "
                "(each call exactly once, whole lines, release after allocation), totals; delays are injected around the library's system calls and "
                "lock operations; ThreadSanitizer watches the instrumented library; nested delete expressions in several threads "
                "keep their positions. A situation is a distinct order in which threads entered the library (last 5 entries) or tree shape.")
    q = ctx.quick
    r = ctx.rng
    mt = {v: H("mt", v, extra=() if v in ("so", "gnuso") else MTWRAP) for v in MTV}
    ts = H("mt", "tsan", extra=MTWRAP + ["-DVT_TSAN=1"])
    cp = [H("cpp", v, srcs=CPPSRC) for v in CPPV]
    tc = H("cpp", "tsan", srcs=CPPSRC, extra=["-DVT_TSAN=1", "-fno-sized-deallocation"])
    ctx.prebuild(list(mt.values()) + cp + [ts, tc])
    jobs = []

    def env(i):
        e = heap_env(r, free=("DUMA_MALLOC_0_STRATEGY", "DUMA_NEW_0_STRATEGY", "DUMA_MAX_ALLOC", "VT_DYN", "VT_EVERY", "VT_BIG", "VT_LIVE", "VT_ZERO", "VT_LIFO", "VT_CPP", "DUMA_CHECK_FREQ"))
        e.update(VT_SEED=r.randrange(1 << 30), VT_THREADS=r.choice([2, 3, 4, 8, 12]), VT_DELAY=r.choice([0, 1, 5, 20]), VT_LIVE=r.choice([5, 60, 200]),
                 DUMA_PROTECT_FREE=r.choice([-1, 0, 100, 5000]), VT_ROUNDS=3)
        if r.random() < .2:
            e["DUMA_CHECK_FREQ"] = r.choice([5, 50])
        if r.random() < .15:
            e["DUMA_MAX_ALLOC"] = 20000
        return e
    for i in range(36 if q else 900):
        h = mt[MTV[i % len(MTV)]]
        e = env(i)
        e["VT_OPS"] = (6000 if q else 16000) // e["VT_THREADS"]
        if h.variant not in ("noleak", "gnuso", "nocpp") and i // len(MTV) % 2:
            e.update(DUMA_SHOW_ALLOC=1)
        if i < 4:
            ctx.sample("threads: library %s, %s" % (h.variant, " ".join("%s=%s" % kv for kv in sorted(e.items()))))
        jobs.append(lambda h=h, e=e: ctx.run(h, e, None, count="ops"))
    for i in range(8 if q else 200):
        for h in (ts, tc):
            e = env(i)
            e.update(VT_OPS=(2000 if q else 6000) // e["VT_THREADS"], TSAN_OPTIONS="log_path=stdout exitcode=0 report_signal_unsafe=0 detect_deadlocks=1")
            if h is tc:
                e.update(VT_OPS=60, DUMA_SHOW_ALLOC=i % 2)
            elif i % 2:
                e.update(DUMA_SHOW_ALLOC=1)
            jobs.append(lambda h=h, e=e: tsan_run(ctx, h, e))
    for i in range(12 if q else 200):
        h = cp[i % len(cp)]
        e = dict(VT_SEED=r.randrange(1 << 30), VT_THREADS=r.choice([2, 4, 8]), VT_OPS=60 if q else 150, DUMA_SHOW_ALLOC=1, DUMA_PROTECT_FREE=r.choice([0, 1000]))
        jobs.append(lambda h=h, e=e: ctx.run(h, e, None, count="deletes"))
    ctx.parallel(jobs, workers=4)
    ctx.min_seen = dict(ops=50000, handovers=1000, delays=5000, lockhandovers=20000, reports=100, loglines=10000, tsan_runs=10)


def tsan_run(ctx, h, e):
    r = ctx.run(h, e, None, timeout=200, count="ops")
    ctx.add("tsan_runs")
    n = r.out.count(b"WARNING: ThreadSanitizer")
    if n:
        import re
        t = r.out.decode("utf-8", "replace")
        ctx.viol("THREAD: ThreadSanitizer: %s" % re.sub(r"\s+", " ", t[t.find("WARNING:"):])[:600], dict(harness=h.spec(), env=e, args=[]))


def setup():
    for v in HEAPV:
        build.lib(v)


def expected_settings(e, variant):
    """What the documentation says about a program started with this environment."""
    def i(k, d):
        return int(e[k]) if k in e else d
    x = dict(align=i("DUMA_ALIGNMENT", 1) or 1, below=i("DUMA_PROTECT_BELOW", 0) != 0, fill=i("DUMA_FILL", 255), slack=i("DUMA_SLACKFILL", 170) & 255,
             freq=max(0, i("DUMA_CHECK_FREQ", 0)), m0=i("DUMA_MALLOC_0_STRATEGY", 3) if 0 <= i("DUMA_MALLOC_0_STRATEGY", 3) <= 3 else 3,
             n0=i("DUMA_NEW_0_STRATEGY", 3) if 2 <= i("DUMA_NEW_0_STRATEGY", 3) <= 3 else 3, failexit=i("DUMA_MALLOC_FAILEXIT", 1) != 0,
             pf=i("DUMA_PROTECT_FREE", -1), mx=i("DUMA_MAX_ALLOC", -1), acc=i("DUMA_FREE_ACCESS", 0) != 0, show=i("DUMA_SHOW_ALLOC", 0) != 0,
             overlap=i("DUMA_MEMCPY_OVERLAP", 0) != 0, report=i("DUMA_REPORT_ALL_LEAKS", 0) != 0)
    return x


SETKINDS = ("off", "fill", "slack", "zero", "freq", "freqmix", "slackdead", "big", "held", "grow", "access", "watch", "show", "overlap", "report")


def settings_judge(ctx, h, e, r):
    """Every observation of one program against the documentation."""
    x = expected_settings(e, h.variant)
    rep = dict(harness=h.spec(), env=e, args=[])
    said = set()

    def bad(kind, t):
        if kind not in said:
            said.add(kind)
            ctx.viol("SET: %s; environment: %s" % (t, " ".join("%s=%s" % kv for kv in sorted(e.items()) if kv[0][:2] != "VT")), rep)
    seen = {}
    c0 = None
    quiet = 0
    for l in r.lines:
        t = l.split()
        if not t or t[0] != "OBS":
            continue
        k, t = t[1], t[2:]
        seen[k] = seen.get(k, 0) + 1
        if k == "off":
            n = int(t[1])
            a = {"memalign256": 256, "posix_memalign64": 64, "valloc": 4096}.get(t[0])
            if not a:
                a = x["align"] if x["align"] <= n else 1 << (n.bit_length() - 1)
            want = 0 if x["below"] else ((-n % 4096) & ~(a - 1)) % 4096
            if int(t[2]) != want:
                bad(k, "%s(%d) lies at offset %s of its page, expected %d" % (t[0], n, t[2], want))
        elif k == "fill":
            n = int(t[1])
            want = 0 if t[0] == "calloc" else 120 if t[0] == "strdup" and n > 1 else 0 if t[0] == "strdup" else 0 if x["fill"] == -1 else x["fill"] & 255
            if int(t[2]) != want:
                bad(k, "%s(%d) holds %s, expected %d (-1: not uniform)" % (t[0], n, t[2], want))
        elif k == "slack":
            if int(t[2]) != x["slack"]:
                bad(k, "slack of %s(%s) holds %s, expected %d" % (t[0], t[1], t[2], x["slack"]))
        elif k == "zero":
            want = ("shared" if x["n0"] == 2 else "unique") if t[0].startswith("new") else ("abort", "null", "shared", "unique")[x["m0"]]
            if t[1] != want:
                bad(k, "zero-size %s: %s, expected %s" % (t[0], t[1], want))
        elif k == "freq":
            ph, c = int(t[0]), int(t[1])
            f = x["freq"]
            if c < 0:
                if t[2] != "exit0":
                    bad(k, "the program with overwritten slack ended by %s" % t[2])
                if 0 < f <= 70 or (not ph and 70 < f < 70000):
                    bad(k, "overwritten slack was not found within %d allocations and releases, DUMA_CHECK_FREQ=%d" % (max(f, 70), f))
            else:
                if t[2] != "sig4" or f <= 0 or c > f:
                    bad(k, "overwritten slack was found after %d calls (%s), DUMA_CHECK_FREQ=%d" % (c, t[2], f))
                else:
                    c0 = max(c0 or 0, c)
        elif k == "freqmix":
            c, f = int(t[1]), x["freq"]
            if c < 0:
                if t[2] != "exit0" or 0 < f <= 70:
                    bad(k, "overwritten slack was not found within 70 allocations and releases of many kinds, DUMA_CHECK_FREQ=%d (%s)" % (f, t[2]))
            elif t[2] != "sig4" or f <= 0 or c > f:
                bad(k, "overwritten slack was found after %d calls of many kinds (%s), DUMA_CHECK_FREQ=%d" % (c, t[2], f))
        elif k == "slackdead":
            if t != ["sig4", "1"]:
                bad(k, "release of a block with overwritten slack: %s" % " ".join(t))
        elif k == "big":
            want = "sig4" if x["failexit"] else "null"
            if t[1] != want:
                bad(k, "request of 2^60 bytes: %s, expected %s" % (t[1], want))
        elif k == "held":
            kb = int(t[0])
            lo = 1600 if x["pf"] < 0 else max(0, min(1600, x["pf"]) - 80)
            hi = 1600 if x["pf"] < 0 else min(1600, x["pf"])
            if t[1] != "exit0" or not lo <= kb <= hi:
                bad(k, "of 1600 kB freed %d kB are kept protected, expected %d to %d (%s)" % (kb, lo, hi, t[1]))
        elif k == "grow":
            kb = int(t[0])
            lim = min([v for v in (24000, x["pf"] if x["pf"] >= 0 else None, x["mx"] if x["mx"] > 0 else None) if v is not None])
            if t[1] != "exit0" or kb > lim + 2200 or kb < lim * .7 - 2500:
                bad(k, "3000 allocations and releases of 8 kB let the program grow by %d kB, limit %d kB (%s)" % (kb, lim, t[1]))
        elif k == "access":
            want = "sig11" if x["acc"] else "exit0"
            if t[0] != want:
                bad(k, "release of a block whose first page is read-only: %s, expected %s" % (t[0], want))
        elif k == "watch":
            if t[2] != "unused" and (t[2] != "exit0" or t[0] != "6" or t[1] != ("6" if x["acc"] else "0")):
                bad(k, "the first byte of %s of %s blocks was seen to change at their release (%s)" % (t[1], t[0], t[2]))
        elif k == "show":
            if t[0] != "exit0" or (t[1] == "1") != x["show"] or (t[2] != "0") != x["show"]:
                bad(k, "log line %s, %s bytes of output, ended by %s" % (t[1], t[2], t[0]))
        elif k == "overlap":
            want = "exit0" if x["overlap"] and t[0] == "0" else "sig4"
            if t[1] != want:
                bad(k, "overlapping memcpy to %s addresses: %s, expected %s" % ("higher" if t[0] == "1" else "lower", t[1], want))
        elif k == "report":
            if t != ["exit0", "1" if x["report"] else "0", "1"]:
                bad(k, "leak report with and without position: %s" % " ".join(t))
    if 0 < x["freq"] < 12 and c0 is not None and c0 < x["freq"] - 2:      # the library's own calls count, too
        bad("freq", "checks are done every %d calls or more often, DUMA_CHECK_FREQ=%d" % (c0, x["freq"]))
    for k in SETKINDS:
        if not seen.get(k) and not (k == "report" and h.variant in ("noleak", "gnuso")):
            bad("missing", "no observation of %s" % k)
        ctx.add("observed_" + k, seen.get(k, 0))
    with ctx.lk:
        ctx.evaluations += sum(seen.values())
        for k, v in x.items():
            ctx.keys.add((h.variant, k, v))


SETVALS = [("DUMA_ALIGNMENT", [0, 1, 2, 4, 8, 16, 32, 64]), ("DUMA_PROTECT_BELOW", [0, 1, 2, -1]), ("DUMA_FILL", [-1, 0, 1, 77, 128, 254, 255]),
           ("DUMA_SLACKFILL", [0, 1, 85, 127, 128, 200, 255]), ("DUMA_CHECK_FREQ", [0, 1, 2, 3, 5, 11, 256, 1000, 32768, 65536, 1 << 24, -1, -5]), ("DUMA_MALLOC_0_STRATEGY", [0, 1, 2, 3, 4, -1, 99]),
           ("DUMA_NEW_0_STRATEGY", [2, 3, 0, 1, 4, -1]), ("DUMA_MALLOC_FAILEXIT", [0, 1, 5, -1]), ("DUMA_PROTECT_FREE", [-1, 0, 50, 400, 1500, 10000, 1 << 32, (1 << 33) + 9]),
           ("DUMA_MAX_ALLOC", [-1, 6000, 16000, (1 << 32) + 1, 1 << 40]), ("DUMA_FREE_ACCESS", [0, 1, 2, -1]), ("DUMA_SHOW_ALLOC", [0, 1, 10, -1]), ("DUMA_MEMCPY_OVERLAP", [0, 1, 3, -1]),
           ("DUMA_REPORT_ALL_LEAKS", [0, 1, 256, -1]), ("DUMA_SUPPRESS_ATEXIT", [0, 1, 2, -1]), ("DUMA_DISABLE_BANNER", [0, 1, 2, -1, "unset"])]
# not settings at all, but nearly
DECOYS = ["DUMA_ALIGNMENTS=32", "DUMA_ALIGN=32", "XDUMA_FILL=3", "DUMA_FILL_=4", "DUMA_FIL=5", "DUMA_PROTECT=1", "DUMA_PROTECT_BELOWX=1", "duma_protect_below=1",
          "DUMA_SLACKFIL=3", "DUMA_SHOW_ALLOCS=1", "DUMA_SHOW=1", "DUMA=1", "DUMA_=1", "DUMA_CHECK_FREQ2=1", "DUMA_MAX_ALLOCS=5", "ALIGNMENT=32"]


def settings_run(ctx, h, e):
    r = ctx.raw([h.exe()], e, 60)
    if r.void:
        return
    ctx.judge(h, e, r, {"SET"}, expect_rc=(0, 9))
    with ctx.lk:
        ctx.keys.update((h.name, k) for k in r.keys)
    if r.rc == 0 and not r.timeout:
        settings_judge(ctx, h, e, r)
    banner = b"DUMA 2." in r.err or b"Copyright" in r.err
    want = e["DUMA_DISABLE_BANNER"] in (0, "unset")
    if banner != want:
        ctx.viol("SET: start-up message %s with DUMA_DISABLE_BANNER=%s" % ("missing" if want else "shown", e["DUMA_DISABLE_BANNER"]), dict(harness=h.spec(), env=e, args=[]))
    if h.variant not in ("noleak", "gnuso"):
        # the report at the program's end
        x = ctx.raw([h.exe(), "exit"], e, 60)
        if x.void:
            return
        txt = x.err.decode("utf-8", "replace")
        want = 1
        if h.variant == "atexit" and str(e.get("DUMA_SUPPRESS_ATEXIT", 0)) != "0":
            want = 0
        n = len([l for l in txt.split("\n") if "size=773 " in l and "not freed" in l])
        ctx.add("exit_reports")
        if x.rc != 0 or (n != want and not (h.variant != "atexit" and str(e.get("DUMA_SUPPRESS_ATEXIT", 0)) != "0")):
            ctx.viol("SET: %d leak reports at the program's end, expected %d; %s" % (n, want, how(x)), dict(harness=h.spec(), env=e, args=["exit"]))


@check("A17")
def a17(ctx):
    ctx.rule = ("Programs started with every value of each variable alone, and with random combinations (in random order, among look-alike variables); "
                "each one measures the effect of all settings at once from outside: placement, contents, slack, zero-size results, distance between "
                "checks, refusals, memory kept for freed blocks, growth, write access at release, log, overlap, leak reports, start-up message. All "
                "measurements are compared with the documented meaning of that environment; afterwards DUMA_SET_*() are called in random order and "
                "placement and contents of the next blocks and the guards of all live ones are probed. A situation is a (library, setting, value) or "
                "a (function, alignment, side, macro) observed.")
    q = ctx.quick
    r = ctx.rng
    hs = [H("set", v) for v in HEAPV]
    ctx.prebuild(hs)
    jobs = []

    def go(h, e, crowd=0):
        e = dict(e, VT_SEED=r.randrange(1 << 30))
        e.setdefault("DUMA_DISABLE_BANNER", "unset" if r.random() < .5 else 1)
        items = list(e.items())
        if r.random() < .5:      # the same numbers, written differently
            items = [(k, ("-0%d" % -v if v < 0 else "%0*d" % (len(str(v)) + r.randrange(1, 3), v)) if isinstance(v, int) and k[:5] == "DUMA_" and k not in ("DUMA_DISABLE_BANNER", "DUMA_SUPPRESS_ATEXIT") and r.random() < .4 else v)
                     for k, v in items]
        if r.random() < .5:
            items += [tuple(d.split("=")) for d in r.sample(DECOYS, r.randrange(1, 8))]
        r.shuffle(items)
        if crowd:                # more variables than fit a short count
            items = [("V%x" % i, "") for i in range(crowd)] + items
        e = dict(items)
        jobs.append(lambda: settings_run(ctx, h, e))
    k = 0
    for h in hs:
        go(h, {})
    for name, vals in SETVALS:
        for v in vals:
            for j in range(1 if q else len(hs)):
                go(hs[k % len(hs)], {name: v})
                k += 1
    for i in range(60 if q else 1500):
        p = r.choice([.2, .5, .9])
        go(hs[i % len(hs)], {n: r.choice(v) for n, v in SETVALS if r.random() < p})
        if i < 3:
            ctx.sample("random combination %d" % i)
    for n in (200, 300, 33000, 66000):
        go(hs[k % len(hs)], {n: r.choice(v) for n, v in SETVALS if r.random() < .9}, n)
        k += 1
    ctx.parallel(jobs)
    ctx.assume += ["DUMA_SKIPCOUNT_INIT (without effect in this version), the variables for Windows and DUMA_OUTPUT_* (property A18) are left alone",
                   "DUMA_SUPPRESS_ATEXIT is judged for the library that registers an exit handler by atexit"]
    ctx.min_seen = dict(observed_off=10000, observed_zero=500, observed_freq=1000, observed_held=80, observed_watch=30, watch_steps=30000, exit_reports=60)


def scratch():
    """A directory of a check's own, removed by it."""
    import tempfile
    d = os.path.join(build.BUILD, "scratch")
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(prefix="run-", dir=d)


def shared_log(ctx, h, e, d):
    """Every message of every writer arrives whole and once on each channel."""
    import re
    f = os.path.join(d, "shared-%d" % e["VT_ID"])
    with open(f, "w") as fh:
        fh.write("before\n")
    e = dict(e, DUMA_SHOW_ALLOC=1, DUMA_OUTPUT_FILE=f)
    r = ctx.raw([h.exe()], e, 60)
    if r.void:
        return
    with open(f, "rb") as fh:
        txt = fh.read()
    os.unlink(f)
    rep = dict(harness=h.spec(), env=e, args=[])
    if r.rc != 0:
        return ctx.viol("DIAG: a program whose processes share the output file %s" % how(r), rep)
    ws = ["w%d.c" % i for i in range(e["VT_PROCS"])] + ["w%d.c" % (100 + i) for i in range(e["VT_THREADS"])]
    want = set()
    for w in ws:
        for i in range(1, e["VT_N"] + 1):
            want.add(b"DUMA: Allocating %d byte(s) at %s(%d)." % (i, w.encode(), i))
            want.add(b"DUMA: Freeing %d byte(s) at %s(%d) (Allocated from %s(%d))." % (i, w.encode(), 500000 + i, w.encode(), i))
    for name, t in (("file", txt), ("stderr", r.err if e["DUMA_OUTPUT_STDERR"] else None)):
        if t is None:
            continue
        if name == "file" and not t.startswith(b"before\n"):
            ctx.viol("DIAG: former contents of the output file are lost: %r" % t[:60], rep)
            continue
        got = [l for l in t.split(b"\n") if l and l != b"before" and not re.match(rb"DUMA: (Allocating|Freeing) \d+ byte\(s\) at ([^ ]*duma\.c\(\d+\)|UNKNOWN \(use #include \"duma\.h\"\)\(0\))", l)]
        ctx.add("shared_lines", len(got))
        with ctx.lk:
            ctx.evaluations += len(got)
            ctx.keys.add(("shared", name, e["VT_PROCS"], e["VT_THREADS"], h.variant))
        extra = [l for l in got if l not in want]
        if extra or len(got) != len(want) or set(got) != want:
            ctx.viol("DIAG: %d messages of %d processes and %d threads on %s, expected %d; %s" % (len(got), e["VT_PROCS"], e["VT_THREADS"], name, len(want), ("for instance %r" % extra[0][:150]) if extra else "e.g. missing %r" % (sorted(want - set(got))[:1],)), rep)


@check("A18")
def a18(ctx):
    import shutil
    ctx.rule = ("A supervisor starts programs with every combination of channels (variables unset, 0, 1; stdout and stderr separate, joined, closed, "
                "leading to the output file; file new, with contents, not writable), names of 0 to 60000 arbitrary bytes, all kinds of sizes, lines and "
                "addresses; the program foretells each message in shared memory before it causes it, the supervisor compares every byte that arrived "
                "anywhere (channels, former contents, foreign descriptors, other files), the number of open descriptors and how the program ended "
                "(SIGILL handled, ignored, blocked or not, in any thread, with signals interrupting the writes to a slow reader). A situation is a "
                "distinct (message form, channel, wiring, end, cut or not).")
    q = ctx.quick
    r = ctx.rng
    hs = [H("diag", v) for v in HEAPV]
    ctx.prebuild(hs)
    d = scratch()
    jobs = []
    for i in range(24 if q else 400):
        h = hs[i % len(hs)]
        e = dict(VT_SEED=r.randrange(1 << 40), VT_CASES=500 if q else 1500, VT_DIR=d)
        if i < 2:
            ctx.sample("library %s, seed %d" % (h.variant, e["VT_SEED"]))
        jobs.append(lambda h=h, e=e: ctx.run(h, e, {"DIAG"}, timeout=120, count="judged"))
    sh = [H("share", v) for v in ("static", "so", "noglobal", "explicit", "nocpp", "nothreads")]
    ctx.prebuild(sh)
    for i in range(12 if q else 120):
        e = dict(VT_ID=i, VT_N=150, VT_PROCS=r.choice([1, 4, 8]), VT_THREADS=r.choice([0, 0, 4, 8]) if i % 6 != 5 else 0, DUMA_OUTPUT_STDERR=r.randrange(2))
        jobs.append(lambda h=sh[i % len(sh)], e=e: shared_log(ctx, h, e, d))
    try:
        ctx.parallel(jobs)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.assume += ["messages of at most 2000 bytes are expected in full; of longer ones only names may be cut, the first to no less than 255 bytes",
                   "the file's name is not relative to a directory that changes; channels do not block for ever and are not non-blocking"]
    ctx.min_seen = dict(judged=5000, messages=20000, stops=3000, cut=500, endreports=200, shared_lines=5000)


# ---------------------------------------------------------------- A19
PRELOADV = ["so", "gnuso"]
TEXT = "".join("line %d %s\n" % (i * 7919 % 1000, "xyz" * (i % 9)) for i in range(400))
# name, command, standard input, needs the alignment of the C library's malloc (DUMA_ALIGNMENT=16)
PROGRAMS = [
    ("perl", ["perl", "-e", 'my %h; for(my $i=0;$i<300;$i++){$h{$i*7%101}.="x$i";} print join(",",map{"$_=$h{$_}"} sort keys %h),"\n"; print STDERR "err\n"; exit 7'], "", 0),
    ("perlfork", ["perl", "-e", 'for my $i (1..4){ my $p=fork; if(!$p){ my @a=map{$_ x $i} 1..200; print scalar(@a)," $a[7]\n"; exit $i } waitpid $p,0; print $?>>8,"\n"; } kill 15,$$'], "", 0),
    ("python3", ["/usr/bin/python3", "-S", "-c", 'print(sum(len(str(i))*i for i in range(1000)));import json;print(json.dumps({"a":[1,2,{"b":"c"}]}));raise SystemExit(5)'], "", 1),
    ("sqlite3", ["sqlite3", ":memory:", 'create table t(a,b); insert into t values(1,"x"),(2,"y"); with recursive c(n) as (select 1 union all select n+1 from c where n<200) insert into t select n,hex(n) from c; select count(*),sum(a),max(b) from t; select * from t order by b desc limit 5;'], "", 0),
    ("mawk", ["mawk", "{s[$2]++; n+=length($0)} END{for(k in s) t+=s[k]*k; print n,t}", "a.txt"], "", 0),
    ("sort", ["sort", "-k2n", "-r", "a.txt"], "", 0),
    ("sort8", ["sort", "--parallel=8", "-S", "1M", "a.txt", "a.txt"], "", 0),
    ("sed", ["sed", "-n", "s/l\\(.*\\)e/\\1/p", "a.txt"], "", 0),
    ("grep", ["grep", "-c", "[0-9]5", "a.txt"], "", 0),
    ("nofile", ["cat", "no-such-file"], "", 0),
    ("bash", ["bash", "-c", 'a=(); for i in {1..50}; do a+=("$i$i"); done; echo ${#a[@]} ${a[*]}; x=$(echo sub | tr a-z A-Z); echo $x; false || exit 3'], "", 0),
    ("sh", ["sh", "-c", 'for i in 1 2 3; do (echo $i; exit $i) | cat; done; kill -9 $$'], "", 0),
    ("bc", ["bc", "-l"], "scale=30; e(1); 2^200\n", 0),
    ("tar", ["tar", "--mtime=@0", "-cf", "-", "a.txt"], "", 0),
    ("gzip", ["gzip", "-nc", "a.txt"], "", 0),
    ("xz", ["xz", "-T1", "-c", "a.txt"], "", 0),
    ("xzt", ["xz", "-T4", "-c", "a.txt"], "", 0),
    ("zstd", ["zstd", "-c", "a.txt"], "", 1),
    ("bzip2", ["bzip2", "-c", "a.txt"], "", 0),
    ("jq", ["jq", "-n", '[range(50)|{a:.,b:(.*2|tostring)}]|map(.b)|join(",")'], "", 0),
    ("git", ["git", "hash-object", "a.txt"], "", 0),
    ("find", ["find", ".", "-name", "*.txt"], "", 0),
    ("make", ["make", "-f", "-"], "all: x y\n\t@echo done\nx:\n\t@echo x\ny: x\n\t@echo $(words a b c)\n", 0),
    ("openssl", ["openssl", "dgst", "-sha256", "a.txt"], "", 0),
    ("m4", ["m4"], "define(`f',`<$1>')f(a)f(b) eval(3*7)\n", 0),
    ("diff", ["diff", "a.txt", "/etc/hosts"], "", 0),
    ("gcc", ["gcc", "-x", "c", "-O1", "-S", "-o", "-", "-"], "int f(int a){return a*3+1;}\n", 1),
    ("g++", ["g++", "-x", "c++", "-fsyntax-only", "-"], "int f(){ return 1 }\n", 1),
    ("gdb", ["gdb", "-nx", "-batch", "-ex", "print 1+2"], "", 1),
    ("locale", ["locale", "-a"], "", 0), ("id", ["id", "-u"], "", 0), ("ls", ["ls", "-1", "/usr/lib"], "", 0),
    ("env", ["env", "-i", "A=1", "sh", "-c", "echo $A"], "", 0), ("xargs", ["xargs", "-n3", "-P1", "echo"], "1 2 3 4 5 6 7 8\n", 0),
    ("iconv", ["iconv", "-f", "UTF-8", "-t", "UTF-16", "a.txt"], "", 0), ("readelf", ["readelf", "-h", "/bin/ls"], "", 0),
]
PRELOAD_SETTINGS = [("DUMA_PROTECT_FREE", [0, 100, 1000, 20000]), ("DUMA_PROTECT_BELOW", [1]), ("DUMA_ALIGNMENT", [2, 8, 16, 32]), ("DUMA_FILL", [-1, 0, 1, 200]),
                    ("DUMA_SLACKFILL", [0, 255]), ("DUMA_MALLOC_0_STRATEGY", [2, 3]), ("DUMA_FREE_ACCESS", [1]), ("DUMA_CHECK_FREQ", [30, 500]),
                    ("DUMA_SHOW_ALLOC", [1]), ("DUMA_MEMCPY_OVERLAP", [1]), ("DUMA_REPORT_ALL_LEAKS", [1]), ("DUMA_MALLOC_FAILEXIT", [1])]


def preload_env(r, lib, d, files, mode=None):
    """Settings and the way the library gets in; nothing of it may be visible on standard output."""
    e = {}
    for n, v in PRELOAD_SETTINGS:
        if r.random() < .15:
            e[n] = r.choice(v)
    quiet = r.random() < .7
    e["DUMA_DISABLE_BANNER"] = 1
    if quiet:
        e["DUMA_OUTPUT_STDERR"] = 0
        if r.random() < .3:
            e["DUMA_OUTPUT_FILE"] = os.path.join(d, "log-%d" % r.randrange(1 << 40))
            files.append(e["DUMA_OUTPUT_FILE"])
    elif r.random() < .3:
        e["DUMA_DISABLE_BANNER"] = r.choice([0, "unset"])
    return e, quiet


def preloaded(r, lib, e, argv):
    """The preload is done by the program that starts it (env, or the project's script)."""
    w = r.random()
    if w < .3:
        return ["env", "LD_LIBRARY_PATH=" + os.path.dirname(lib), "sh", os.path.join(build.REPO, "duma.sh")] + argv
    if w < .6:
        return ["env", "LD_LIBRARY_PATH=" + os.path.dirname(lib), "LD_PRELOAD=libduma.so.0.0.0"] + argv
    return ["env", "LD_PRELOAD=" + lib] + argv


def same_run(ctx, name, argv, env, inp, e, quiet, d, lib, r, base):
    def one(av, ee):
        if inp:
            path = os.path.join(d, "in-%s" % name)
            fd = os.open(path, os.O_RDONLY)
        else:
            fd = None
        try:
            return ctx.raw(av, ee, 60, cwd=d, stdin=fd, retry=not fd)
        finally:
            if fd is not None:
                os.close(fd)
    a = base.get(name)
    if a is None:
        a = base[name] = one(argv, dict(env, DUMA_DISABLE_BANNER="unset"))
    av = preloaded(r, lib, e, argv)
    b = one(av, dict(env, **e))
    if a.void or b.void or a.timeout:
        return
    rep = dict(argv=av, env=dict(env, **e))
    what = "%s (%s)" % (name, " ".join("%s=%s" % x for x in sorted(e.items())))
    if how(a) != how(b):
        ctx.viol("PRE: %s %s with the library, %s without; last on stderr: %s" % (what, how(b), how(a), b.err.decode("utf-8", "replace")[-300:]), rep)
    elif a.out != b.out:
        k = next((i for i in range(min(len(a.out), len(b.out))) if a.out[i] != b.out[i]), min(len(a.out), len(b.out)))
        ctx.viol("PRE: %s: output differs at byte %d (%d bytes without, %d with the library): %r" % (what, k, len(a.out), len(b.out), b.out[max(0, k - 60):k + 100]), rep)
    elif quiet and a.err != b.err:
        ctx.viol("PRE: %s: messages differ: %r" % (what, b.err[-300:]), rep)
    elif not quiet and a.err.strip() and not all(l in b.err for l in a.err.splitlines()):
        ctx.viol("PRE: %s: the program's messages are missing: %r" % (what, b.err[-300:]), rep)
    ctx.add("compared")
    ctx.add("compared_bytes", len(a.out))
    with ctx.lk:
        ctx.evaluations += 1
        ctx.keys.add((name, av[1][:3], lib, tuple(sorted((k, str(v)) for k, v in e.items() if k != "DUMA_OUTPUT_FILE"))))


@check("A19")
def a19(ctx):
    import shutil
    ctx.rule = ("Programs that know nothing of DUMA are run without and with the preloaded library (LD_PRELOAD by path and by name, the project's script) under "
                "random settings; output, messages and the way they end must be the same. The programs are the sandbox's own (perl, python3, sqlite3, bash, "
                "gcc, git, ...) and a generated one that does random steps of heap, string, stdio, C library, C++, thread, dlopen and child process work. "
                "A second set is defective at a marked place and has to be stopped between the marks. Allocation functions are asked who serves them. "
                "A situation is a distinct (program, way of preloading, library, settings), (defect, size, library) or (function, library).")
    q = ctx.quick
    r = ctx.rng
    d = scratch()
    with open(os.path.join(d, "a.txt"), "w") as fh:
        fh.write(TEXT)
    hs = {v: H("pre", v, plain=True, link=False, libs=["-ldl"], extra=["-U_FORTIFY_SOURCE"]) for v in PRELOADV}
    plain = hs["so"]
    own = H("pre", "so", plain=True, link=False, libs=["-ldl"], extra=["-U_FORTIFY_SOURCE", "-DOWN_NEW"])
    ctx.prebuild([plain, own])
    libs = {v: build.lib(v)["lib"] for v in PRELOADV}
    jobs, files, base = [], [], {}
    skipped = []
    for name, argv, inp, al in PROGRAMS:
        if not shutil.which(argv[0]):
            skipped.append(name)
            continue
        if inp:
            with open(os.path.join(d, "in-" + name), "w") as fh:
                fh.write(inp)
        for i in range(2 if q else 40):
            v = PRELOADV[(i + len(jobs)) % 2]
            e, quiet = preload_env(r, libs[v], d, files)
            if not i:
                e, quiet = dict(DUMA_DISABLE_BANNER=1, DUMA_OUTPUT_STDERR=0), True
            if name in ("gcc", "g++", "gdb", "python3", "git", "openssl"):
                e.pop("DUMA_CHECK_FREQ", None)      # many blocks
            if al and e.get("DUMA_PROTECT_BELOW") != 1:
                e["DUMA_ALIGNMENT"] = 16
            jobs.append(lambda name=name, argv=argv, inp=inp, e=e, quiet=quiet, v=v, s=r.randrange(1 << 40):
                        same_run(ctx, name, argv, {}, inp, e, quiet, d, libs[v], random.Random(s), base))
    for i in range(110 if q else 3000):
        v = PRELOADV[i % 2]
        e, quiet = preload_env(r, libs[v], d, files)
        h = own if i % 5 == 0 else plain
        env = dict(VT_SEED=r.randrange(1 << 40))
        if i % 3 == 0:
            env["VT_WHAT"] = 1 + i // 3 % 9
        if i < 3:
            ctx.sample("generated program, library %s, %s, %s" % (v, env, e))
        jobs.append(lambda h=h, v=v, e=e, env=env, quiet=quiet, i=i, s=r.randrange(1 << 40):
                    same_run(ctx, "generated-%d" % i, [h.exe()], env, "", e, quiet, d, libs[v], random.Random(s), base))

    def defect(v, k, m):
        e = dict(LD_PRELOAD=libs[v], VT_DEFECT=m * 100 + k, DUMA_OUTPUT_STDERR=m % 2)
        if 40 <= k < 50:
            e["DUMA_PROTECT_BELOW"] = 1
        if m % 3 == 2:
            e["DUMA_PROTECT_FREE"] = 200
        x = ctx.raw([plain.exe()], e, 60)
        if x.void:
            return
        if x.rc == 77:
            return
        if x.timeout or x.rc not in (-11, -4) or x.out != b"A":
            ctx.viol("PRE: defect %d is not stopped at once: %s, output %r, stderr %r" % (k, how(x), x.out[-100:], x.err[-200:]), dict(harness=plain.spec(), env=e, argv=["env"] + [plain.exe()]))
        ctx.add("defects")
        with ctx.lk:
            ctx.evaluations += 1
            ctx.keys.add(("defect", k, m, v))
    for k in list(range(34)) + [40, 41, 42, 50, 51, 52, 53]:
        for v in PRELOADV:
            for j in range(2 if q else 20):
                m = r.randrange(1000)
                jobs.append(lambda v=v, k=k, m=m: defect(v, k, m))

    def served(v, e):
        e = dict(LD_PRELOAD=libs[v], VT_SERVED=1, DUMA_OUTPUT_STDERR=0, **e)
        x = ctx.raw([plain.exe()], e, 60)
        if x.void:
            return
        ls = [l for l in x.out.decode("utf-8", "replace").split("\n") if l.startswith(("served ", "freed "))]
        for l in ls:
            ctx.add("served")
            with ctx.lk:
                ctx.evaluations += 1
                ctx.keys.add((v, l))
            if not l.endswith(" yes"):
                ctx.viol("PRE: not by DUMA: %s" % l, dict(argv=[plain.exe()], env=e))
        if x.rc or len(ls) < 35:
            ctx.viol("PRE: program with the library %s after %d functions" % (how(x), len(ls)), dict(argv=[plain.exe()], env=e))
    for v in PRELOADV:
        for e in ({}, dict(DUMA_PROTECT_FREE=5000), dict(DUMA_FILL=0), dict(DUMA_CHECK_FREQ=3)):
            jobs.append(lambda v=v, e=e: served(v, e))
    # errno over every release function, while the library's own output fails or not
    eh = [H("heap", v) for v in PRELOADV + ["static"]]
    ctx.prebuild(eh)
    for i in range(12 if q else 120):
        e = heap_env(r, (("VT_EVERY", 0),))
        e.update(VT_SEED=r.randrange(1 << 30), VT_OPS=1500 if q else 6000, DUMA_SHOW_ALLOC=i % 2, DUMA_OUTPUT_FILE=["/no-such-directory/x", "/"][i // 2 % 2] if i % 4 else "unset", DUMA_OUTPUT_STDERR=i // 4 % 2)
        jobs.append(lambda h=eh[i % 3], e=e: ctx.run(h, e, {"ERRNO"}, count="errnos"))
    try:
        ctx.parallel(jobs)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if skipped:
        ctx.assume.append("programs not installed and left out: " + " ".join(skipped))
    ctx.assume += ["programs that rely on addresses more aligned than DUMA_ALIGNMENT get DUMA_ALIGNMENT=16 (documented limit)",
                   "sources of differences without DUMA (time, addresses, process ids) are not in the programs' output"]
    ctx.min_seen = dict(compared=100, defects=100, served=200, errnos=3000)


# ---------------------------------------------------------------- A23
LANGS = [("gcc", "gnu89", "c"), ("gcc", "gnu99", "c"), ("gcc", "c11", "c"), ("gcc", "gnu17", "c"),
         ("g++", "c++98", "c++"), ("g++", "gnu++11", "c++"), ("g++", "c++17", "c++"), ("g++", "c++20", "c++")]


def macro_program(ctx, d, seed, variant, lang, opt, header):
    import macgen
    cc, std, x = lang
    if std == "c11":
        std = "gnu11"
    if std == "c++98":
        std = "gnu++98"
    L = build.lib(variant)
    g = macgen.Gen(seed, header)
    g.cached = opt not in ("-O0", "-O1")
    name = "p%x" % seed
    src = name + (".c" if x == "c" else ".cpp")
    with open(os.path.join(d, src), "w") as fh:
        fh.write(g.make(60))
    rep = dict(program=open(os.path.join(d, src)).read(), command="%s -std=%s %s, library %s" % (cc, std, opt, variant))
    exes = {}
    for way, fl in (("plain", ["-DPLAIN"]), ("release", ["-DDUMA_NO_DUMA", "-I" + L["inc"]]), ("duma", L["defs"] + ["-I" + L["inc"]])):
        obj, exe = "%s-%s.o" % (name, way), "%s-%s" % (name, way)
        try:
            build.sh([cc, "-std=" + std, opt, "-g", "-w", "-U_FORTIFY_SOURCE", "-fno-stack-protector"] + (["-D_GNU_SOURCE"] if x == "c" else []) + fl + ["-c", src, "-o", obj], cwd=d, env=build._clean_env())
            if way == "release":
                u = build.sh(["nm", "-u", obj], cwd=d)
                if "duma" in u.lower():
                    ctx.viol("MAC: with DUMA_NO_DUMA the program refers to %s" % [l for l in u.split() if "duma" in l.lower()], rep)
            lk = ["-lpthread"]
            if way == "duma":
                lk = [L["lib"]] + (["-Wl,-rpath," + os.path.dirname(L["lib"])] if L["shared"] else []) + lk
            build.sh(["g++" if way == "duma" else cc, obj, "-o", exe] + lk, cwd=d, env=build._clean_env())
        except build.BuildError as e:
            ctx.viol("MAC: %s program does not compile (%s): %s" % (way, rep["command"], str(e)[-600:]), rep)
            return
        exes[way] = os.path.join(d, exe)
    res = {w: ctx.raw([e], {}, 60) for w, e in exes.items()}
    if any(r.void for r in res.values()):
        return
    for w, r in res.items():
        want = g.nticks if w == "duma" else 0
        if r.rc != 0 or r.timeout:
            ctx.viol("MAC: correct %s program %s: %s" % (w, how(r), r.err[-300:]), rep)
        elif r.out != res["plain"].out:
            a, b = res["plain"].out.decode().split("\n"), r.out.decode().split("\n")
            k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), -1)
            ctx.viol("MAC: %s program differs from the plain one at %r: %r" % (w, a[k], b[k]), rep)
        elif b"TICKS %d\n" % want not in r.err:
            ctx.viol("MAC: %s program: expressions of DUMA_ASSERT evaluated: %r, expected %d" % (w, r.err[-60:], want), rep)
        ctx.add("programs")
        with ctx.lk:
            ctx.evaluations += 1
            ctx.keys.add((w, variant, std, opt))
    for m, ex, line, kind in g.modes:
        r = ctx.raw([exes["duma"], str(m)], {}, 15)
        if r.void:
            return
        err = r.err.decode("utf-8", "replace")
        if r.timeout or r.rc != -11 or not r.out.endswith(b"F%d\n" % m):
            ctx.viol("MAC: line %d (%s %s): %s after %r; %r" % (line, kind, ex, how(r), r.out[-40:], err[-200:]), rep)
        elif kind == "index":
            i = err.find("DUMA_ASSERT(")
            t = err[i + 12:].split(" failed at\n")
            if i < 0 or len(t) != 2 or ex[0] not in t[0] or ex[1] not in t[0] or t[1] != "%s(%d)\n" % (src, line):
                ctx.viol("MAC: message for index %s of %s at %s(%d): %r" % (ex[1], ex[0], src, line, err[-300:]), rep)
        elif "DUMA: DUMA_ASSERT(%s) failed at\n%s(%d)\n" % (ex, src, line) not in err:
            ctx.viol("MAC: message for %s at %s(%d): %r" % (ex, src, line, err[-300:]), rep)
        ctx.add("stops_" + kind)
        with ctx.lk:
            ctx.evaluations += 1
            ctx.keys.add((kind, ex if kind != "index" else ex[1], x))
    for f in os.listdir(d):
        if f.startswith(name):
            os.unlink(os.path.join(d, f))


def release_program(ctx, d, std, variant):
    src = os.path.join(build.VERIF, "h", "rel.cpp")
    rep = dict(command="rel.cpp with -std=%s, library %s" % (std, variant))
    out = {}
    L = build.lib(variant)
    for way in ("plain", "release", "duma"):
        if way == "duma" and variant != "oldmac":
            continue
        fl = {"plain": ["-DPLAIN"], "release": ["-DDUMA_NO_DUMA", "-I" + L["inc"]], "duma": L["defs"] + ["-I" + L["inc"]]}[way]
        exe = os.path.join(d, "rel-%s-%s-%s" % (std, variant, way))
        try:
            build.sh(["g++", "-std=" + std, "-O1", "-g", "-w", "-U_FORTIFY_SOURCE", "-fno-builtin"] + fl + [src] + ([L["lib"]] if way == "duma" else []) + ["-lpthread", "-o", exe], env=build._clean_env())
        except build.BuildError as e:
            ctx.viol("MAC: C++ %s program does not compile (-std=%s, headers of %s): %s" % (way, std, variant, str(e)[-600:]), rep)
            return
        r = ctx.raw([exe], {}, 60)
        if r.void:
            return
        out[way] = r.out
        if r.rc != 42 or r.out != out["plain"]:
            a, b = out["plain"].decode().split("\n"), r.out.decode().split("\n")
            k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), -1)
            ctx.viol("MAC: C++ %s program %s, differs at %r: %r" % (way, how(r), a[k], b[k]), rep)
        if way == "duma" and (b"leak" in r.err and b"Reported 0 leak(s)" not in r.err or r.err.count(b"not freed")):
            ctx.viol("MAC: C++ program with the old macros: %r" % r.err[-300:], rep)
        ctx.add("programs")
        with ctx.lk:
            ctx.evaluations += 1
            ctx.keys.add((way, variant, std, "rel"))


@check("A23")
def a23(ctx):
    import shutil
    ctx.rule = ("Generated programs full of DUMA_ASSERT, CA_DEFINE/CA_DECLARE/CA_REF and DUMA_FN_PROT_* (nested, several references in one expression, as "
                "lvalue, address, in loops and conditions, side effects in indices, threads) are compiled in eight dialects of C and C++ with DUMA, with "
                "DUMA_NO_DUMA and without any header of the project; all three have to print the same, evaluations of asserted expressions are counted. "
                "Each program contains failing places of all kinds, run one at a time: it has to be stopped there, by SIGSEGV, with the expression, file "
                "and line. A C++ program with all object macros is compared in the same way. A situation is a distinct (build, library, dialect, optimisation) "
                "or (kind of failure, expression, language).")
    q = ctx.quick
    r = ctx.rng
    d = scratch()
    jobs = []
    vs = HEAPV
    for v in sorted(set(vs)) + ["oldmac"]:
        build.lib(v)
    for i in range(48 if q else 900):
        lang = LANGS[i % len(LANGS)]
        v = vs[(i // 3) % len(vs)]
        opt = r.choice(["-O0", "-O1", "-O2"])
        s = r.randrange(1 << 40)
        if i < 3:
            ctx.sample("generated program %x, %s -std=%s %s, library %s" % (s, lang[0], lang[1], opt, v))
        jobs.append(lambda s=s, v=v, lang=lang, opt=opt, i=i: macro_program(ctx, d, s, v, lang, opt, "dumapp.h" if lang[2] == "c++" and i % 16 > 7 else "duma.h"))
    for std in ("c++98", "c++11", "c++14", "c++17", "c++20"):
        for v in (["oldmac", "static", "noleak"] if q else ["oldmac"] + vs):
            jobs.append(lambda std=std, v=v: release_program(ctx, d, std, v))
    try:
        ctx.parallel(jobs)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.assume += ["programs are compiled by gcc; clang's optimiser (not -O0) removes the comparison of return addresses",
                   "expressions with side effects are not asserted where builds are compared, as DUMA_NO_DUMA leaves them out"]
    ctx.min_seen = dict(programs=100, stops_index=300, stops_assert=200, stops_prot=200)


# ---------------------------------------------------------------- A21
SANV = ["asan", "ubsan", "msan"]
SANSTOP = ("log_path=%s/%s detect_leaks=0 abort_on_error=0 allocator_may_return_null=1 handle_segv=0 handle_sigill=0 handle_sigbus=0 "
           "handle_abort=0 handle_sigfpe=0 use_sigaltstack=0 print_stacktrace=1").replace(" ", ":")


ODDVARS = ["DUMA_" + x for x in (
    "ALIGNMENT PROTECT_BELOW FILL SLACKFILL PROTECT_FREE MAX_ALLOC MALLOC_0_STRATEGY NEW_0_STRATEGY MALLOC_FAILEXIT FREE_ACCESS SHOW_ALLOC CHECK_FREQ "
    "MEMCPY_OVERLAP REPORT_ALL_LEAKS SKIPCOUNT_INIT OUTPUT_STACKTRACE OUTPUT_DEBUG OUTPUT_STACKTRACE_MAPFILE SUPPRESS_ATEXIT DISABLE_BANNER").split()]
ODDVALS = ["", "x", "-1", "-5", "3", "7", "99999999999", "9223372036854775807", "-9223372036854775808", "2147483647", "-2147483648", "2147483648", "4294967295",
           "1000000000", "12abc", " 4", "+4", "0x10", "4096", "8192", "65536", "100000", "6", "256", "257", "1" * 400]


def san_run(ctx, h, e, d, k, rcs):
    """A run of a harness against an instrumented library: any report of the sanitizers is a violation."""
    import glob
    o = SANSTOP % (d, "r%d" % k)
    e = dict(e, ASAN_OPTIONS=o, UBSAN_OPTIONS=o, MSAN_OPTIONS=o.replace(":use_sigaltstack=0", ""))
    r = ctx.raw([h.exe()], e, 120)
    logs = sorted(glob.glob(os.path.join(d, "r%d.*" % k)))
    txt = "".join(open(l, errors="replace").read() for l in logs)
    for l in logs:
        os.unlink(l)
    if r.void:
        return
    ctx.add("runs_" + h.variant)
    rep = dict(harness=h.spec(), env={a: str(b) for a, b in e.items()})
    with ctx.lk:
        ctx.keys.update((h.variant, h.name, x) for x in r.keys)
        ctx.keys.update((h.variant, h.name, x) for x in r.cases)
        ctx.evaluations += 1
        for a, b in r.stats.items():
            if a != "done":
                ctx.stats[a] = ctx.stats.get(a, 0) + b
    if "runtime error" in txt or "Sanitizer" in txt or "stack smashing" in txt or b"stack smashing" in r.err:
        m = [l for l in txt.split("\n") if "runtime error" in l or "ERROR: " in l or "WARNING: " in l or "    #0" in l or "    #1" in l or "    #2" in l]
        return ctx.viol("SAN: %s" % " | ".join(x.strip()[:160] for x in m[:5]), rep)
    # what the program's own monitors say belongs to the other properties, its end does not
    if r.timeout or (r.rc not in rcs and not r.viols):
        ctx.viol("SAN: program %s; last on stderr: %s" % (how(r), r.err.decode("utf-8", "replace")[-400:].replace("\n", " | ")), rep)


@check("A21")
def a21(ctx):
    import shutil
    ctx.rule = ("The harnesses of the other properties (random heap histories, misuse, refused requests, leak reports, the log, copies, threads, C++ forms, "
                "diagnostics with arbitrary names, whole process lives with forks, failing system calls) run against the library built with "
                "AddressSanitizer+UndefinedBehaviorSanitizer, UndefinedBehaviorSanitizer (global malloc), both with stack protectors in "
                "all functions, and MemorySanitizer; any report, and any end of a program which the model does not foresee, is a violation. Only "
                "the library is instrumented by the former, as the harnesses touch guards on purpose. A situation is one of the harness's situations "
                "(function, misuse, size class, ...) under one sanitizer.")
    q = ctx.quick
    r = ctx.rng
    d = scratch()
    k = [0]
    jobs = []
    hs = set()

    def add(h, e, rcs=(0, 9)):
        hs.add(h)
        e.setdefault("VT_SEED", r.randrange(1 << 40))
        k[0] += 1
        if k[0] % 9 == 1 and len(ctx.samples) < 10:
            ctx.sample("%s, %s: %s" % (h.variant, h.name, " ".join("%s=%s" % x for x in sorted(e.items()))))
        jobs.append(lambda h=h, e=e, n=k[0]: san_run(ctx, h, e, d, n, rcs))
    for i in range(6 if q else 120):
        for v in SANV:
            glob_ = v == "ubsan"
            add(H("heap", v), dict(heap_env(r), VT_OPS=1200 if q else 5000, VT_REFUSE=r.choice([0, 20, 50]), VT_EVERY=250))
            if i % 2 == 0:
                add(H("heap", v), dict(VT_GRID=1, VT_OPS=0, VT_STRIDE=23, VT_OFF=r.randrange(23), DUMA_PROTECT_BELOW=i // 2 % 2, DUMA_PROTECT_FREE=0))
            a = heap_env(r, free=("VT_LIVE", "VT_ZERO", "VT_BIG", "VT_DYN", "VT_LIFO", "VT_CPP", "VT_EVERY"))
            a.update(VT_BG=r.choice([0, 5, 60, 400]), VT_LIVE=r.choice([5, 40]), VT_SLACK=10, VT_BAD=60, VT_MISMATCH=1, VT_ODD=15, VT_ZACC=1, VT_Z0=1, VT_FAILS=20,
                     DUMA_MALLOC_0_STRATEGY=i % 4)
            if i % 4 == 0:
                a["VT_ZERO"] = 0
            add(H("abort", v), a)
            add(H("leak", v), dict(heap_env(r, free=("VT_DYN", "VT_EVERY", "VT_BIG")), VT_LIVE=r.choice([3, 40, 300]), VT_PER=r.choice([5, 50]), VT_ROUNDS=25,
                                   **(dict(DUMA_REPORT_ALL_LEAKS=1) if i % 2 else {})))
            add(H("log", v), dict(heap_env(r, free=("VT_DYN", "VT_EVERY", "VT_BIG")), VT_OPS=400, VT_LIVE=r.choice([5, 100]), DUMA_SHOW_ALLOC=1,
                                  DUMA_MALLOC_0_STRATEGY=1 + i % 3))
            add(H("str", v, srcs=["str.cpp", "strc.c"]), dict(VT_BLOCKS=i % 2, DUMA_MEMCPY_OVERLAP=i // 2 % 2, DUMA_PROTECT_BELOW=i % 2, VT_PARTS=1,
                                                              VT_OVERLAPS=3000, VT_RESULTS=3000))
            add(H("mt", v), dict(heap_env(r, free=("DUMA_MALLOC_0_STRATEGY", "DUMA_NEW_0_STRATEGY", "DUMA_MAX_ALLOC", "VT_DYN", "VT_EVERY", "VT_BIG", "VT_LIVE",
                                                   "VT_ZERO", "VT_LIFO", "VT_CPP", "DUMA_CHECK_FREQ")),
                                 VT_THREADS=r.choice([2, 4]), VT_ROUNDS=2, VT_OPS=500, VT_LIVE=40, **(dict(DUMA_SHOW_ALLOC=1) if i % 2 else {})))
            add(H("cpp", v, srcs=CPPSRC), dict(heap_env(r, free=("VT_DYN", "VT_EVERY", "VT_BIG", "VT_LIVE", "VT_ZERO", "VT_LIFO", "VT_CPP", "DUMA_MAX_ALLOC")),
                                              VT_FORMS=8, VT_AS=0))
            add(H("cpp", v, srcs=CPPSRC), dict(VT_THREADS=1, VT_OPS=60, DUMA_SHOW_ALLOC=1, DUMA_PROTECT_FREE=r.choice([0, 1000])))
            add(H("diag", v), dict(VT_CASES=60 if q else 300, VT_DIR=d))
            add(H("life", v), dict(heap_env(r, free=("DUMA_MAX_ALLOC", "VT_EVERY")), VT_PHASES=(1 << 21) - 2, VT_FIRST=r.randrange(2, 26), VT_END=i % 6, VT_INIT=0,
                                   VT_OPS=60, VT_LIVE=40))
            f = dict(heap_env(r, free=("VT_ZERO", "VT_BIG", "VT_DYN", "VT_LIFO", "VT_CPP", "VT_EVERY", "VT_LIVE")), VT_OPS=150, VT_LIVE=60, VT_BIG=5, VT_EVERY=50,
                     DUMA_MALLOC_FAILEXIT=i % 2, VT_MAYFAIL=1, VT_FT=r.choice([0, 0, 1, 2]), VT_FK=r.randrange(4, 300), VT_FN=r.choice([1, 1, 2, 50]))
            add(H("fault", v, extra=WRAP), f, (0, 9, -4))
    # settings nobody means: refused with a message or ignored, but nothing else
    for i in range(60 if q else 1500):
        v = SANV[i % 3]
        n, src = r.choice([("heap", None), ("leak", None), ("abort", None), ("str", ["str.cpp", "strc.c"]), ("cpp", CPPSRC)])
        p = r.choice([.05, .2])
        e = {a: r.choice(ODDVALS) for a in ODDVARS if r.random() < p}
        e.update(VT_OPS=300, VT_LIVE=20, VT_PER=5, VT_ROUNDS=3, VT_SLACK=3, VT_BAD=10, VT_FORMS=2, VT_OVERLAPS=200, VT_RESULTS=200)
        add(H(n, v, srcs=src) if src else H(n, v), e, (0, 9, -4))
    ctx.prebuild(sorted(hs, key=lambda h: (h.variant, h.name)))
    try:
        ctx.parallel(jobs)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.assume += ["the library is compiled as its makefile does (no optimisation) plus instrumentation",
                   "memory errors inside of one allocation granule of the library's own mmap regions are seen by its guards and the model, not by AddressSanitizer"]
    ctx.min_seen = dict(runs_asan=30, runs_ubsan=30, runs_msan=30, judged=1000, ops=20000)


LIFE_ENDS = ["return from main", "exit", "quick_exit", "exit in a thread", "pthread_exit in main", "_exit"]


@check("A25")
def a25(ctx):
    ctx.rule = ("One random heap history per process goes on through preinit_array, constructors of five priorities, static objects, main, threads, "
                "thread_local and key destructors, a signal handler, atexit, on_exit and at_quick_exit handlers, static destructors and destructors of "
                "four priorities, in a random subset of these phases, with random settings and a random first call into the library; six ways to end. "
                "Forked children go on with the inherited heap, to their own end through all later phases, or replace their image; others commit "
                "defects and have to be stopped. Every block is re-examined at the start of every phase and after every child; children are also "
                "forked while threads are inside of the library. A situation is a distinct tuple (phase, first phase), (phase of allocation, phase of "
                "release), (kind of child, phase), (first call, phase), (defect, phase, family) or a heap situation.")
    q = ctx.quick
    hs = [H("life", v) for v in HEAPV]
    ctx.prebuild(hs)
    r = ctx.rng
    jobs = []
    allp = (1 << 21) - 1
    for i in range(260 if q else 4000):
        h = hs[i % len(hs)]
        e = heap_env(r, free=("DUMA_MAX_ALLOC", "VT_EVERY"))
        e.update(VT_SEED=r.randrange(1 << 40), VT_PHASES=r.choice([allp, allp & ~r.randrange(1 << 7), r.randrange(1 << 21), 1 << r.randrange(21) | 1 << r.randrange(21)]),
                 VT_FIRST=r.randrange(26), VT_END=r.randrange(6), VT_INIT=r.randrange(3), VT_OPS=r.choice([10, 60, 60, 150]), VT_LIVE=r.choice([5, 40, 100]))
        if i % 4 == 0 and h.variant != "nothreads":
            e.update(VT_MT=r.choice([1, 3, 4]), VT_ROUNDS=12 if q else 40)
        if i < 8:
            ctx.sample("library %s, phases %x, first call %d, end by %s" % (h.variant, e["VT_PHASES"], e["VT_FIRST"], LIFE_ENDS[e["VT_END"]]))
        jobs.append(lambda h=h, e=e: ctx.run(h, e, None, timeout=90, count="ops"))
    ctx.parallel(jobs)
    ctx.assume += ["where the C library has not set environ yet (preinit_array), documented defaults apply",
                   "with DUMA_EXPLICIT_INIT settings apply from duma_init() on, and threads start after it"]
    ctx.min_seen = dict(phases=2000, forks=500, defects=200, crossphase=2000, mtforks=100, freedchecks=500)


def gdb_leak(ctx, exe, lib, env, seed, d, n):
    """Finds the origin of leaks the documented way: the report's address as the condition of a breakpoint, in a second run."""
    import re
    rep = dict(argv=["gdb", exe], env=env, seed_arg=seed)
    sites = os.path.join(d, "sites-%s-%d" % (os.path.basename(exe), seed) + ("-pre" if lib else ""))
    pre = ["gdb", "-q", "-nx", "-batch", "-ex", "set confirm off", "-ex", "set debuginfod enabled off", "-ex", "set breakpoint pending on",
           "-ex", "set environment DUMA_DISABLE_BANNER 1", "-ex", "set startup-with-shell off"]
    for k, v in env.items():
        pre += ["-ex", "set environment %s %s" % (k, v)]
    if lib:
        pre += ["-ex", "set environment LD_PRELOAD " + lib]

    def go(cmds):
        av = pre[:]
        for c in cmds:
            av += ["-ex", c]
        return ctx.raw(av + ["--args", exe, str(seed), sites], {"DUMA_DISABLE_BANNER": "unset"}, 60)
    r1 = go(["run"])
    if r1.void:
        return
    t1 = (r1.out + r1.err).decode("utf-8", "replace")
    if "ptrace" in t1 or "randomization" in t1 or "exited normally" not in t1:
        ctx.add("gdb_unavailable")
        return
    try:
        want = [l.split() for l in open(sites)]
    except OSError:
        want = []
    got = re.findall(r"^DUMA: ptr=0x([0-9a-f]+) size=", t1, re.M)
    miss = [w for w in want if w[0] not in got]
    if miss and not lib:
        ctx.viol("HOOK: leak %s is not in the report: %s" % (miss[0], t1[-500:]), rep)
    for a, w in ctx.rng.sample(want, min(n, len(want))):
        r2 = go(["break duma_alloc_return if address==0x%s" % a, "run", "bt 12"])
        if r2.void:
            return
        t2 = (r2.out + r2.err).decode("utf-8", "replace")
        fr = re.findall(r"^#\d+ .*?\b(site_\d+) \(", t2, re.M)
        if fr[:1] != ["site_" + w]:
            ctx.viol("HOOK: the block %s leaked by site_%s: a breakpoint on duma_alloc_return with this address %s" %
                     (a, w, "stops in " + fr[0] if fr else "does not stop there: " + t2[-300:]), rep)
        ctx.add("breakpoints")
        ctx.key("gdb", bool(lib), w)
        with ctx.lk:
            ctx.evaluations += 1


@check("A26")
def a26(ctx):
    import shutil
    ctx.rule = ("Random heap histories over all allocation functions with a breakpoint on duma_alloc_return() that records its argument: each "
                "block obtained (also by realloc, strdup and new) must have been announced with its address during that call. The same history "
                "without address randomisation is run twice and must get the same addresses. Leaks of a program without positions are traced to the "
                "function that lost them with gdb, by the address in the report. A situation is a heap situation or a (leak, function).")
    q = ctx.quick
    r = ctx.rng
    vs = HEAPV
    hs = [H("hook", v) for v in vs]
    lk = {v: H("leaky", v, srcs=["leaky.c"], plain=True) for v in ("static", "nothreads")}
    bare = H("leaky", "so", srcs=["leaky.c"], plain=True, link=False)
    ctx.prebuild(hs + list(lk.values()) + [bare])
    jobs = []
    for i in range((3 if q else 40) * len(hs)):
        e = heap_env(r, free=("VT_EVERY",))
        e.update(VT_SEED=r.randrange(1 << 40), VT_OPS=800 if q else 3000, DUMA_NEW_0_STRATEGY=r.choice([2, 3]))
        jobs.append(lambda h=hs[i % len(hs)], e=e: ctx.run(h, e, {"HOOK"}, count="announced"))

    def twice(h, e):
        s = []
        for k in range(2):
            x = ctx.run(h, e, {"HOOK"}, count=None)
            if x.void or not x.stats.get("norand"):
                return ctx.add("randomised")
            s.append([l for l in x.lines if l.startswith("SUM ")])
        if s[0] != s[1] or len(s[0]) != 1:
            ctx.viol("HOOK: two runs of one history without address randomisation got different addresses: %s" % s, dict(harness=h.spec(), env=e))
        ctx.add("repeated")
    for i in range((2 if q else 20) * len(hs)):
        e = heap_env(r, free=("VT_EVERY",))
        e.update(VT_SEED=r.randrange(1 << 40), VT_OPS=400, VT_BP=0, VT_NORAND=1)
        jobs.append(lambda h=hs[i % len(hs)], e=e: twice(h, e))
    d = scratch()
    try:
        if shutil.which("gdb"):
            so = build.lib("so")["lib"]
            for i in range(6 if q else 40):
                v = ("static", "nothreads", None)[i % 3]
                e = dict(DUMA_REPORT_ALL_LEAKS=1, DUMA_ALIGNMENT=8, DUMA_PROTECT_BELOW=i // 3 % 2)
                jobs.append(lambda v=v, e=e: gdb_leak(ctx, lk[v].exe() if v else bare.exe(), None if v else so, e, ctx.rng.randrange(1, 1 << 20), d, 4 if q else 12))
        ctx.parallel(jobs)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.assume += ["the library is compiled without optimisation, as both build systems do",
                   "where the sandbox forbids debuggers or does not let address randomisation be switched off, that part is left out (gdb_unavailable, randomised)"]
    ctx.min_seen = dict(announced=5000, hits=5000)
