"""Formatted output denotes the value it was given."""
from engine.run import Scenario

BOUNDS = ("durations 0-1e9 s; lists of up to 11 reals or integers, nested lists, texts of up to 3 characters over letters, both "
          "quotes, backslash and newline; 1-6 columns; dicts of up to 3 text keys")
OUTSIDE = "objects without a literal form; rounding of the printed digits (str of a float is exact)"
SPECIAL = "a'\"\\\n{}"


def duration(ctx, kind, top):
    """Hours, minutes and seconds add up to the duration."""
    from scaks.utilities.format_utilities import convert_time
    s = ctx.int("s", 0, top) if kind == "int" else ctx.real("s", lo=0, hi=top)
    h, m, r = convert_time(s)
    ctx.eq(h * 3600 + m * 60 + r, s, "parts add up")
    ctx.check(ctx.And(h >= 0, m >= 0, m < 60, r >= 0, r < 60), "parts are in range")
    ctx.check(isinstance(h, int) and isinstance(m, int) if not ctx.symbolic else True, "whole hours and minutes")


def back(text):
    v = {}
    exec(text, v)
    return v


def numbers(ctx, n, cols, kind):
    """A written list evaluates to the list."""
    from scaks.utilities.format_utilities import get_list_string
    ctx.int_tokens()
    xs = [ctx.real("x%d" % i, lo=-1e6, hi=1e6) if kind == "real" else ctx.int("x%d" % i, -999, 999) for i in range(n)]
    text = get_list_string("data_1", list(xs)) if cols is None else get_list_string("data_1", list(xs), ncols=cols)
    v = back(text)
    ctx.check_list(list(v["data_1"]), xs, "values in order")
    ctx.check(ctx.And(*[a == b for a, b in zip(v["data_1"], xs)]), "all digits of the values")
    ctx.check(sorted(k for k in v if not k.startswith("__")) == ["data_1"], "one variable")


def nested(ctx, n, k, what):
    from scaks.utilities.format_utilities import get_list_string
    xs = [[ctx.real("x%d_%d" % (i, j), lo=-1e6, hi=1e6) for j in range(k)] for i in range(n)]
    rows = {"list": lambda: [list(r) for r in xs], "tuple": lambda: [tuple(r) for r in xs],
            "zip": lambda: zip(*[list(c) for c in zip(*xs)])}[what]()
    v = back(get_list_string("rows", rows, ncols=1))["rows"]
    ctx.check(len(v) == n, "number of rows")
    for a, b in zip(v, xs):
        ctx.check(type(a) is (list if what == "list" else tuple), "kind of the rows")
        ctx.check_list(list(a), b, "rows")
        ctx.check(ctx.And(*[x == y for x, y in zip(a, b)]), "all digits of the rows")


def texts(ctx, n, k):
    """Texts come back as they were."""
    from scaks.utilities.format_utilities import get_list_string
    xs = ["".join(ctx.choice("c%d_%d" % (i, j), list(SPECIAL)) for j in range(k)) for i in range(n)] + ["CO_s + O_s -> *_s"]
    cols = ctx.choice("cols", [1, 2, 5])
    v = back(get_list_string("names", xs, cols))["names"]
    ctx.check(list(v) == xs, "texts")


def mixed(ctx):
    from scaks.utilities.format_utilities import get_list_string
    x = ctx.real("x", lo=-9, hi=9)
    y = ctx.real("y", lo=-9, hi=9)
    items = [x, "a", [y, x], "b'c", None, (y,), True, x + y, {"p": y}, [(x, "q"), []]]
    cols = ctx.choice("cols", [1, 2, 3, 5, 9])
    v = back(get_list_string("mix", items, cols))["mix"]
    ctx.check(len(v) == len(items), "number of items")
    ctx.check([v[i] for i in (1, 3, 4, 6)] == ["a", "b'c", None, True], "plain items")
    ctx.eq(v[0], x, "reals")
    ctx.check_list(list(v[2]), [y, x], "nested items")
    ctx.check_list(list(v[5]), [y], "nested items")
    ctx.eq(v[7], x + y, "reals")
    ctx.check([type(a) for a in v[2:6:3]] == [list, tuple] and type(v[8]) is dict and list(v[8]) == ["p"], "kinds of nested items")
    ctx.eq(v[8]["p"], y, "nested dictionaries")
    ctx.check(type(v[9]) is list and type(v[9][0]) is tuple and v[9][0][1] == "q" and v[9][1] == [], "kinds of nested items")


def dicts(ctx, n, kind):
    """A written dictionary evaluates to the dictionary."""
    from scaks.utilities.format_utilities import get_dict_string
    ctx.int_tokens()
    keys = ["".join(ctx.choice("k%d_%d" % (i, j), ["a", "'", " -> ", "\\"]) for j in range(2)) + str(i) for i in range(n)]
    vals = []
    for i in range(n):
        vals.append(ctx.real("v%d" % i, lo=-9, hi=9) if kind == "real" else ctx.int("v%d" % i, -9, 9) if kind == "int"
                    else ctx.choice("v%d" % i, ["x", "it's", '"', "\\n"]))
    d = dict(zip(keys, vals))
    v = back(get_dict_string("table", d))["table"]
    ctx.check(sorted(v) == sorted(keys), "keys")
    for k, w in d.items():
        if kind == "text":
            ctx.check(v[k] == w, "values")
        else:
            ctx.eq(v[k], w, "values")
            ctx.check(v[k] == w, "all digits of the values")


SCENARIOS = [
    Scenario(duration, [dict(kind="real", top=10 ** 6), dict(kind="int", top=10 ** 6), dict(kind="real", top=7300)],
             [dict(kind="real", top=10 ** 9), dict(kind="int", top=10 ** 9)], bounds=BOUNDS),
    Scenario(numbers, [dict(n=0, cols=None, kind="real"), dict(n=1, cols=None, kind="real"), dict(n=5, cols=None, kind="real"),
                       dict(n=6, cols=None, kind="int"), dict(n=11, cols=None, kind="real"), dict(n=4, cols=1, kind="real"),
                       dict(n=7, cols=3, kind="int")], [dict(n=25, cols=6, kind="real"), dict(n=23, cols=10, kind="int")],
             bounds=BOUNDS),
    Scenario(nested, [dict(n=1, k=1, what="list"), dict(n=2, k=3, what="tuple"), dict(n=3, k=2, what="zip"),
                      dict(n=2, k=0, what="list")], [dict(n=6, k=7, what="zip")], bounds=BOUNDS),
    Scenario(texts, [dict(n=1, k=2), dict(n=2, k=1)], [dict(n=1, k=3)], bounds=BOUNDS),
    Scenario(mixed, bounds=BOUNDS),
    Scenario(dicts, [dict(n=1, kind="real"), dict(n=2, kind="int"), dict(n=1, kind="text"), dict(n=0, kind="real")],
             [dict(n=3, kind="real")], bounds=BOUNDS),
]
