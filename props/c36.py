"""An interrupted run leaves a usable archive."""
import builtins
import os
from engine.run import Scenario
from . import lib
from .c19 import Recorder, energies

BOUNDS = ("one to three archived results, with or without the archive of an earlier run, an interruption before or within any file operation (its position and the number of units "
          "written are integer variables), all values")
OUTSIDE = "reordering of completed operations by the operating system (no fsync); the byte format of pickle (a stand-in)"


class Stop(BaseException):
    """The process ends here."""


class Text(object):
    """What pickle makes of an object: so many units long."""

    def __init__(self, value, size):
        self.value, self.size = value, size


class File(object):
    def __init__(self, disk, name, mode):
        self.disk, self.name = disk, name
        if "w" in mode:
            disk.act(lambda: disk.files.__setitem__(name, None))
        elif "r" in mode and name not in disk.files:
            raise FileNotFoundError(name)

    def write(self, text):
        def part():
            n = self.disk.ctx.int("cut%d" % self.disk.ops, 0, text.size)
            if n >= text.size:
                self.disk.files[self.name] = text
        self.disk.act(lambda: self.disk.files.__setitem__(self.name, text), part)

    def read(self):
        return self.disk.files[self.name]

    def close(self):
        pass

    def flush(self):
        pass

    def fileno(self):
        return 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Pickle(object):
    """Stand-in of pickle: keeps what was dumped, refuses parts of it."""
    HIGHEST_PROTOCOL = 4

    def dumps(self, d, *a):
        return Text(dict(d), 3)

    def dump(self, d, f, *a):
        f.write(self.dumps(d))

    def loads(self, t):
        if t is None:
            raise EOFError("Ran out of input")
        return dict(t.value)

    def load(self, f):
        return self.loads(f.read())


class Disk(object):
    """Files of one directory; the process may end at any operation."""

    def __init__(self, ctx, name):
        self.ctx, self.name, self.files, self.ops, self.stop, self.dead = ctx, name, {}, 0, None, False

    def act(self, do, part=None):
        if self.dead:
            return
        self.ops += 1
        if self.stop is not None and self.stop == self.ops:
            self.dead = True
            if part:
                part()
            raise Stop()
        do()

    def mine(self, p):
        return isinstance(p, (str, os.PathLike)) and os.path.basename(str(p)).startswith(self.name[:4])

    def __enter__(self):
        real = self.real = dict(open=builtins.open, exists=os.path.exists, isfile=os.path.isfile, replace=os.replace, rename=os.rename, remove=os.remove,
                                unlink=os.unlink, fsync=os.fsync)

        def key(p):
            return os.path.normpath(str(p))

        def open_(file, mode="r", *a, **k):
            return File(self, key(file), mode) if self.mine(file) else real["open"](file, mode, *a, **k)

        def test(p):
            return key(p) in self.files if self.mine(p) else real["exists"](p)

        def move(a, b, **k):
            if not self.mine(a):
                return real["replace"](a, b, **k)
            self.act(lambda: self.files.__setitem__(key(b), self.files.pop(key(a))))

        def drop(p, **k):
            if not self.mine(p):
                return real["remove"](p, **k)
            self.act(lambda: self.files.pop(key(p)))
        builtins.open, os.path.exists, os.path.isfile = open_, test, test
        os.replace = os.rename = move
        os.remove = os.unlink = drop
        os.fsync = lambda f: None
        return self

    def __exit__(self, *a):
        r = self.real
        builtins.open, os.path.exists, os.path.isfile = r["open"], r["exists"], r["isfile"]
        os.replace, os.rename, os.remove, os.unlink, os.fsync = r["replace"], r["rename"], r["remove"], r["unlink"], r["fsync"]


def build(ctx):
    m = lib.MECHS["co_ox"]
    model = lib.mk_model(lib.setup(m, archived_variables=["steady_state_coverages", "tofs"]))
    model.solver.get_data()
    return m, model


def stopped(ctx, results, names=("steady_state_coverages",), earlier=False):
    """After an interruption the archive is the one before or the one after the interrupted update; a new run uses it."""
    import scaks
    from scaks.models import micro_kinetic_model as mm
    scaks.pickle = mm.pickle = Pickle()
    m, model = build(ctx)
    name = os.path.normpath(model.data_file)
    values = [[[ctx.real("v%d%s%d" % (k, n[0], i), lo=0.01, hi=0.4) for i in range(2)] for n in names] for k in range(results)]
    states = [{}]
    disk = Disk(ctx, name)
    stop = ctx.int("stop", 1, 8 * results * len(names))
    finished = 0
    with disk:
        if earlier:
            # the archive of a run that ended well
            for n in ("steady_state_coverages", "tofs"):
                v = [ctx.real("e%s%d" % (n[0], i), lo=0.01, hi=0.4) for i in range(2)]
                states[0][n] = v
                model.solver.archive_data(n, v)
            states[0] = dict(states[0])
            m, model = build(ctx)
            disk.ops = 0
        disk.stop = stop
        try:
            for vs in values:
                for n, v in zip(names, vs):
                    states.append(dict(states[-1] if finished or not earlier else {}, **{n: v}))
                    model.solver.archive_data(n, v)
                    finished += 1
        except Stop:
            pass
        disk.dead, disk.stop = False, None
        # a new process
        m, again = build(ctx)
        ctx.check(name in disk.files or not (finished or earlier), "an archive that was written is still there")
        allowed = states[finished:finished + 2]
        rec = Recorder(ctx, m, again)
        rel = energies(ctx, m, "a")
        try:
            got = Pickle().loads(disk.files[name]) if name in disk.files else {}
            again.run(relative_energies=rel)
        except EOFError:
            got = None
        ctx.check(got is not None, "the archive can be read after an interruption")
        ctx.check(any(sorted(got) == sorted(s) and all(same(got[k], s[k]) for k in s) for s in allowed),
                  "the archive holds the results before or after the interrupted update")
        last = rec.calls[-1]
        old = got.get("steady_state_coverages")
        if old is not None:
            ctx.check(same(last[1], old), "the new run starts from the archived coverages")


def same(a, b):
    return len(a) == len(b) and all(x is y or bool(x == y) for x, y in zip(a, b))


SCENARIOS = [
    Scenario(stopped, [dict(results=1), dict(results=2), dict(results=1, earlier=True), dict(results=2, earlier=True), dict(results=1, names=("tofs", "steady_state_coverages"))],
             [dict(results=3), dict(results=2, names=("steady_state_coverages", "tofs"))], bounds=BOUNDS),
]
