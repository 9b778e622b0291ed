"""Work split over processes covers every item exactly once."""
from engine.run import Scenario
from engine.shims_env import COMM

BOUNDS = ("1-16 processes, every rank; sequences of any length up to 10 million (their length is an integer variable), "
          "real lists up to 12 items with arbitrary content")
OUTSIDE = "the transport of mpi4py (replaced by a stand-in that returns what the ranks hand over)"


class Seq(object):
    """A sequence of symbolic length that records the part asked for."""
    def __init__(self, n):
        self.n = n

    def zl_len(self):
        """Length for the symbolic executor (an integer variable)."""
        return self.n

    def __getitem__(self, s):
        if s.step not in (None, 1):
            raise TypeError("step")
        return (0 if s.start is None else s.start), (self.n if s.stop is None else s.stop)


def every_rank(size, f):
    COMM.size = size
    try:
        out = []
        for r in range(size):
            COMM.rank = r
            out.append(f(r))
        return out
    finally:
        COMM.rank, COMM.size, COMM.gathered, COMM.sent = 0, 1, None, None


def ranges(ctx, size):
    """Parts are adjacent, cover everything and are balanced, for every length."""
    from scaks.mpicommons import mpi
    if ctx.symbolic:
        n = ctx.int("n", 0, 10 ** 7)
        seq = Seq(n)
    else:
        n = ctx.int("n", 0, 10 ** 7)
        seq = range(n)
    parts = every_rank(size, lambda r: mpi.split_seq(seq))
    if not ctx.symbolic:
        parts = [(p.start, p.stop) for p in parts]
    ctx.eq(parts[0][0], 0, "the first part starts at the first item")
    ctx.eq(parts[-1][1], n, "the last part ends at the last item")
    for a, b in zip(parts, parts[1:]):
        ctx.eq(a[1], b[0], "parts are adjacent")
    for a, b in parts:
        ctx.check(ctx.And(b - a >= n // size, b - a <= n // size + 1), "parts are balanced")


def lists(ctx, size, n):
    """Splitting and merging gives back the list on every rank."""
    from scaks.mpicommons import mpi
    items = [ctx.real("x%d" % i, lo=-9, hi=9) for i in range(n)]
    kind = ctx.choice("kind", ["list", "tuple"])
    seq = list(items) if kind == "list" else tuple(items)
    parts = every_rank(size, lambda r: mpi.split_seq(seq))
    ctx.check(len(seq) == n, "the sequence is left alone")

    def merged(r):
        mine = [p * 2 for p in parts[r]]
        COMM.gathered = lambda x: [[p * 2 for p in part] if k != r else x for k, part in enumerate(parts)]
        return mpi.merge_seq(mine)
    for got in every_rank(size, merged):
        ctx.check(isinstance(got, list), "a list")
        ctx.check_list(got, [2 * x for x in items], "joined results in the order of the input")


def joined(ctx, size, most):
    """Whatever every rank brings is joined in the order of the ranks."""
    from scaks.mpicommons import mpi
    parts, n = [], 0
    for r in range(size):
        k = ctx.choice("n%d" % r, list(range(most + 1)))
        parts.append([ctx.real("x%d" % (n + i), lo=-9, hi=9) for i in range(k)])
        n += k
    want = [x for p in parts for x in p]

    def merged(r):
        COMM.gathered = lambda x: [list(p) if k != r else x for k, p in enumerate(parts)]
        return mpi.merge_seq(list(parts[r]))
    for got in every_rank(size, merged):
        ctx.check(len(got) == n, "nothing is lost or added")
        ctx.check_list(list(got), want, "joined in the order of the ranks")


def sizes(ctx, size, top):
    """The share of a count is the length of the share of a sequence."""
    from scaks.mpicommons import mpi
    n = ctx.int("n", 0, top)
    shares = every_rank(size, lambda r: mpi.split_size(n))
    ctx.eq(sum(shares), n, "shares add up")
    for a in shares:
        ctx.check(ctx.And(a >= n // size, a <= n // size + 1), "shares are balanced")
    for a, b in zip(shares, shares[1:]):
        ctx.check(a >= b, "first ranks take the rest")


def roles(ctx, size):
    """Rank, size, master and the master-only decorator."""
    from scaks.mpicommons import mpi, master_only
    calls = []

    @master_only
    def work(a, b=0):
        calls.append(mpi.rank)
        return a + b
    x, y = ctx.real("x", lo=-9, hi=9), ctx.real("y", lo=-9, hi=9)
    own = [ctx.real("own%d" % r, lo=-9, hi=9) for r in range(size)]

    def one(r):
        ctx.check(mpi.rank == r and mpi.size == size, "rank and size")
        ctx.check(bool(mpi.is_master) == (r == 0), "the master is rank 0")
        COMM.sent = lambda root: own[root]
        ctx.eq(mpi.bcast(own[r]), own[0], "every rank receives what the master hands over")
        COMM.sent = lambda root: own[r]
        ctx.eq(mpi.bcast(own[r]), own[r], "what arrives is handed on unchanged")
        return work(x, b=y)
    got = every_rank(size, one)
    ctx.eq(got[0], x + y, "result of the master")
    ctx.check(got[1:] == [None] * (size - 1) and calls == [0], "only the master works")


SCENARIOS = [
    Scenario(ranges, [dict(size=s) for s in (1, 2, 3, 4, 5, 7)], [dict(size=s) for s in (6, 8, 9, 13, 16)], bounds=BOUNDS),
    Scenario(lists, [dict(size=1, n=3), dict(size=2, n=5), dict(size=3, n=7), dict(size=3, n=2), dict(size=4, n=0),
                     dict(size=4, n=11)], [dict(size=5, n=12), dict(size=7, n=9)], bounds=BOUNDS),
    Scenario(joined, [dict(size=1, most=2), dict(size=2, most=3), dict(size=3, most=2)], [dict(size=4, most=2)], bounds=BOUNDS),
    Scenario(sizes, [dict(size=s, top=12) for s in (1, 2, 3, 5)], [dict(size=s, top=40) for s in (4, 6, 8)],
             bounds=BOUNDS),
    Scenario(roles, [dict(size=1), dict(size=3)], bounds=BOUNDS),
]
