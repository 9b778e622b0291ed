"""Processes of a parallel run start at any relative speed."""
import builtins
import io
import logging
import os
from engine.run import Scenario
from engine.shims_env import COMM
from . import lib, kmc

BOUNDS = ("2-3 processes, every interleaving of their file system accesses (times are integer variables), every initial state of the "
          "directories, micro-kinetic and KMC models, one or two models per process")
OUTSIDE = "more processes; file systems that show changes late; transport of mpi4py (a stand-in of the barrier)"
DIRS = ("log", "data")


def inside(path):
    """Directory of the run the path names or lies in."""
    p = os.path.relpath(str(path)).replace(os.sep, "/")
    for d in DIRS:
        if p == d:
            return d, True
        if p.startswith(d + "/"):
            return d, False
    return None, False


class Files(object):
    """Records what one process does to the directories; answers are free."""

    def __init__(self, ctx, rank):
        self.ctx, self.rank, self.events, self.files = ctx, rank, [], []
        self.depth = 0

    def free(self):
        return self.ctx.bool("r%d_%d" % (self.rank, len(self.events)))

    def asked(self, d):
        r = self.free()
        self.events.append(("exists", d, r))
        return r

    def __enter__(self):
        real = dict(exists=os.path.exists, isdir=os.path.isdir, mkdir=os.mkdir, makedirs=os.makedirs, open=builtins.open,
                    replace=os.replace, rename=os.rename)
        self.real = real

        def test(name):
            def f(path, *a, **k):
                d, whole = inside(path) if isinstance(path, (str, os.PathLike)) else (None, False)
                return self.asked(d) if whole else real[name](path, *a, **k)
            return f

        def mkdir(path, *a, **k):
            d, whole = inside(path)
            if not whole:
                return real["mkdir"](path, *a, **k)
            new = self.free()
            self.events.append(("mkdir", d, new))
            if not new:
                raise FileExistsError(path)

        def makedirs(name, mode=0o777, exist_ok=False):
            d, whole = inside(name)
            if not whole:
                return real["makedirs"](name, mode, exist_ok)
            try:
                mkdir(name)
            except FileExistsError:
                if not exist_ok:
                    raise

        def open_(file, mode="r", *a, **k):
            d, whole = inside(file) if isinstance(file, (str, os.PathLike)) else (None, False)
            if d is None:
                return real["open"](file, mode, *a, **k)
            self.events.append(("open", d, True))
            self.files.append(os.path.relpath(str(file)))
            return io.BytesIO() if "b" in mode else io.StringIO()

        def move(name):
            def f(a, b, *r, **k):
                d, whole = inside(b)
                if d is None:
                    return real[name](a, b, *r, **k)
                self.events.append(("open", d, True))
                self.files += [os.path.relpath(str(a)), os.path.relpath(str(b))]
            return f
        os.replace, os.rename = move("replace"), move("rename")
        os.path.exists, os.path.isdir, os.mkdir, os.makedirs, builtins.open = test("exists"), test("isdir"), mkdir, makedirs, open_
        COMM.waiting = lambda: self.events.append(("barrier", None, True))
        return self

    def __exit__(self, *a):
        r = self.real
        os.path.exists, os.path.isdir, os.mkdir, os.makedirs, builtins.open = r["exists"], r["isdir"], r["mkdir"], r["makedirs"], r["open"]
        os.replace, os.rename = r["replace"], r["rename"]
        COMM.waiting = None


def process(ctx, rank, kind, models):
    """One process: builds its models and archives a result."""
    log = logging.getLogger("model")
    with Files(ctx, rank) as files:
        COMM.rank = rank
        try:
            for k in range(models):
                old, log.handlers = log.handlers, []
                try:
                    if kind == "micro":
                        model = lib.mk_model(lib.setup(lib.MECHS["one"]))
                        model.solver.archive_data("steady_state_coverages", (0.25,))
                    else:
                        model = kmc.mk_model(kmc.setup(kmc.RXNS[:1], {}))
                finally:
                    for h in log.handlers:
                        h.close()
                    log.handlers = old
            failed = None
        except OSError as e:
            failed = e
    return files, failed


def start(ctx, size, kind, models=1):
    there = {d: ctx.bool("there_" + d) for d in DIRS}
    COMM.size = size
    try:
        runs = [process(ctx, r, kind, models) for r in range(size)]
    finally:
        COMM.rank, COMM.size = 0, 1
    for r, (f, failed) in enumerate(runs):
        for other, _ in runs[r + 1:]:
            ctx.check(not set(f.files) & set(other.files), "every process has files of its own")
    counts = [sum(e[0] == "barrier" for e in f.events) for f, _ in runs]
    common = min(counts)
    # when everything happens
    given = []
    when, gates = [], [ctx.int("gate%d" % i, 0, 200) for i in range(common)]
    for r, (f, _) in enumerate(runs):
        n, last = 0, None
        for i, (what, d, ok) in enumerate(f.events):
            if what == "barrier":
                if n == common:
                    break
                t = gates[n]
                n += 1
            else:
                t = ctx.int("t%d_%d" % (r, i), 0, 200)
                when.append((t, what, d, ok, r))
            if last is not None:
                given.append(last < t)
            last = t

    def exists(d, t):
        made = [u < t for u, what, e, ok, r in when if what == "mkdir" and ok and e == d]
        return ctx.Or(there[d], *made)
    for i, (t, _, d, _, r) in enumerate(when):
        for u, _, e, _, s in when[:i]:
            if d == e and r != s:
                given.append(ctx.Not(t == u))
    for t, what, d, ok, r in when:
        if what == "exists":
            given.append(exists(d, t) if ok else ctx.Not(exists(d, t)))
        elif what == "mkdir":
            given.append(ctx.Not(exists(d, t)) if ok else exists(d, t))
    ctx.assume(ctx.And(*given))
    for r, (f, failed) in enumerate(runs):
        ctx.check(failed is None, "starting does not fail at any speed")
    ctx.check(max(counts) == common, "no process waits for ever")
    for t, what, d, ok, r in when:
        if what == "open":
            ctx.check(exists(d, t), "a directory exists when its files are written")


SCENARIOS = [
    Scenario(start, [dict(size=2, kind="micro"), dict(size=2, kind="kmc"), dict(size=2, kind="micro", models=2),
                     dict(size=3, kind="kmc")],
             [dict(size=3, kind="micro"), dict(size=4, kind="kmc")], bounds=BOUNDS),
]
