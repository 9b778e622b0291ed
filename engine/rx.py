"""Regular expressions over strings with symbolic characters.

A backtracking interpreter of the pattern tree the real ``re`` parser produces;
every character test is a solver-decided branch.  Strings without symbolic
characters are handed to the real ``re``."""
import re as _re
import re._parser as _sp
import re._constants as _c

import z3

from .core import Engine
from . import sym

MAXREP = _sp.MAXREPEAT


def _cat(name, z):
    n = str(name)
    neg = "NOT_" in n
    n = n.replace("UNI_", "").replace("LOC_", "").replace("NOT_", "")
    if n == "CATEGORY_DIGIT":
        r = sym.is_digit(z)
    elif n == "CATEGORY_SPACE":
        r = z3.Or(sym.is_space(z), z3.And(z >= 28, z <= 31))
    elif n == "CATEGORY_WORD":
        r = z3.Or(sym.is_alpha(z), sym.is_digit(z), z == 95)
    else:
        raise NotImplementedError(str(name))
    return z3.Not(r) if neg else r


def _real_cat(name, ch):
    n = str(name)
    neg = "NOT_" in n
    if "DIGIT" in n:
        r = ch.isdigit()
    elif "SPACE" in n:
        r = ch.isspace()
    else:
        r = ch.isalnum() or ch == "_"
    return r != neg


def _test(ch, op, av, flags):
    """Does the one-character string `ch` match the single-char item?"""
    o = ord(ch)
    symbolic = sym.PUA <= o < sym.PUA + 6000
    ic = bool(flags & _re.I)

    def lit(v):
        if not symbolic:
            return ch == chr(v) or (ic and ch.lower() == chr(v).lower())
        z = sym.char_z(ch)
        if ic:
            return z3.Or(z == ord(chr(v).lower()), z == ord(chr(v).upper()))
        return z == v

    def rng(a, b):
        if not symbolic:
            return a <= o <= b or (ic and (a <= ord(ch.lower()) <= b or a <= ord(ch.upper()) <= b))
        z = sym.char_z(ch)
        return z3.And(z >= a, z <= b)

    if op is _c.LITERAL:
        r = lit(av)
    elif op is _c.NOT_LITERAL:
        r = lit(av)
        r = (not r) if isinstance(r, bool) else z3.Not(r)
    elif op is _c.ANY:
        if flags & _re.S:
            return True
        r = (ch != "\n") if not symbolic else sym.char_z(ch) != 10
    elif op is _c.IN:
        neg, rs = False, []
        for o2, a2 in av:
            if o2 is _c.NEGATE:
                neg = True
            elif o2 is _c.LITERAL:
                rs.append(lit(a2))
            elif o2 is _c.RANGE:
                rs.append(rng(*a2))
            elif o2 is _c.CATEGORY:
                rs.append(_cat(a2, sym.char_z(ch)) if symbolic else _real_cat(a2, ch))
            else:
                raise NotImplementedError(str(o2))
        if symbolic:
            r = z3.Or([x if not isinstance(x, bool) else z3.BoolVal(x) for x in rs])
            if neg:
                r = z3.Not(r)
        else:
            r = any(rs) != neg
    elif op is _c.CATEGORY:
        r = _cat(av, sym.char_z(ch)) if symbolic else _real_cat(av, ch)
    if isinstance(r, bool):
        return r
    return Engine.current.branch(r)


class SymMatch(object):
    def __init__(self, pat, s, start, end, groups):
        self.re, self.string = pat, s
        self._s, self._e, self._g = start, end, groups
        self.lastindex = max([k for k in groups], default=None)

    def _idx(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        return g

    def span(self, g=0):
        g = self._idx(g)
        if g == 0:
            return (self._s, self._e)
        if g > self.re.groups:
            raise IndexError("no such group")
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _get(self, g, default=None):
        a, b = self.span(g)
        if a < 0:
            return default
        return sym.lift_str(str.__getitem__(self.string, slice(a, b)))

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self._get(g) for g in gs)
        return r[0] if len(r) == 1 else r

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._get(i, default) for n, i in self.re.groupindex.items()}

    def __bool__(self):
        return True


class Pat(object):
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, str) and sym.has_sym(pattern):
            # a pattern built around symbolic text: only literal use is supported
            raise NotImplementedError("symbolic regular expression")
        self.real = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = dict(self.real.groupindex)
        self.tree = _sp.parse(pattern, flags) if isinstance(pattern, str) else None

    # -- interpreter --
    def _m(self, items, i, pos, g, k):
        if i == len(items):
            return k(pos, g)
        op, av = items[i]
        s = self._s

        def nxt(p, gg):
            return self._m(items, i + 1, p, gg, k)
        if op in (_c.LITERAL, _c.NOT_LITERAL, _c.ANY, _c.IN, _c.CATEGORY):
            if pos < len(s) and _test(s[pos], op, av, self.flags):
                return nxt(pos + 1, g)
            return None
        if op is _c.SUBPATTERN:
            gid, add, dele, sub = av

            def close(p, gg):
                if gid is not None:
                    gg = dict(gg)
                    gg[gid] = (pos, p)
                return nxt(p, gg)
            return self._m(list(sub), 0, pos, g, close)
        if op is _c.BRANCH:
            for alt in av[1]:
                r = self._m(list(alt), 0, pos, g, nxt)
                if r is not None:
                    return r
            return None
        if op in (_c.MAX_REPEAT, _c.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is _c.MAX_REPEAT

            def rep(n, p, gg):
                def more():
                    if hi is not MAXREP and n >= hi:
                        return None

                    def again(p2, g2):
                        if p2 == p and n >= lo:
                            return None
                        return rep(n + 1, p2, g2)
                    return self._m(sub, 0, p, gg, again)
                if n < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else nxt(p, gg)
                r = nxt(p, gg)
                return r if r is not None else more()
            return rep(0, pos, g)
        if op is _c.AT:
            n = str(av)
            if n in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                ok = pos == 0
                if n == "AT_BEGINNING" and self.flags & _re.M and pos > 0:
                    ok = _test(s[pos - 1], _c.LITERAL, 10, 0)
            elif n == "AT_END_STRING":
                ok = pos == len(s)
            elif n == "AT_END":
                ok = pos == len(s) or (pos == len(s) - 1 and
                                       _test(s[pos], _c.LITERAL, 10, 0))
            elif n in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
                w = [(_c.CATEGORY, _c.CATEGORY_WORD)]
                a = pos > 0 and _test(s[pos - 1], _c.IN, w, 0)
                b = pos < len(s) and _test(s[pos], _c.IN, w, 0)
                ok = (a != b) == (n == "AT_BOUNDARY")
            else:
                raise NotImplementedError(n)
            return nxt(pos, g) if ok else None
        if op is _c.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            t = sym.lift_str("".join(s[a:b]))
            u = sym.lift_str("".join(s[pos:pos + b - a]))
            if len(u) == len(t) and bool(t == u if isinstance(t, sym.SymStr) else u == t):
                return nxt(pos + b - a, g)
            return None
        if op in (_c.ASSERT, _c.ASSERT_NOT):
            d, sub = av
            if d < 0:
                raise NotImplementedError("lookbehind")
            r = self._m(list(sub), 0, pos, g, lambda p, gg: (p, gg))
            if op is _c.ASSERT:
                return nxt(pos, r[1]) if r is not None else None
            return nxt(pos, g) if r is None else None
        raise NotImplementedError(str(op))

    def _at(self, s, pos, full=False):
        self._s = [c for c in str.__iter__(s)]

        def k(p, g):
            if full and p != len(self._s):
                return None
            return (p, g)
        r = self._m(list(self.tree), 0, pos, {}, k)
        if r is None:
            return None
        return SymMatch(self, s, pos, r[0], r[1])

    # -- API --
    def match(self, s, pos=0, *a):
        if not sym.has_sym(s):
            return self.real.match(s, pos, *a)
        return self._at(s, pos)

    def fullmatch(self, s, pos=0, *a):
        if not sym.has_sym(s):
            return self.real.fullmatch(s, pos, *a)
        return self._at(s, pos, full=True)

    def search(self, s, pos=0, *a):
        if not sym.has_sym(s):
            return self.real.search(s, pos, *a)
        for p in range(pos, len(s) + 1):
            m = self._at(s, p)
            if m is not None:
                return m
        return None

    def finditer(self, s, *a):
        if not sym.has_sym(s):
            for m in self.real.finditer(s, *a):
                yield m
            return
        pos, last_empty_end = 0, None
        while pos <= len(s):
            m = None
            for p in range(pos, len(s) + 1):
                m = self._at(s, p)
                if m is not None:
                    break
            if m is None:
                return
            yield m
            pos = m.end() if m.end() > m.start() else m.end() + 1

    def findall(self, s, *a):
        if not sym.has_sym(s):
            return self.real.findall(s, *a)
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.groups("")[0])
            else:
                out.append(m.groups(""))
        return out

    def split(self, s, maxsplit=0):
        if not sym.has_sym(s):
            return self.real.split(s, maxsplit)
        out, last = [], 0
        for m in self.finditer(s):
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(sym.lift_str(str.__getitem__(s, slice(last, m.start()))))
            out.extend(m.groups())
            last = m.end()
        out.append(sym.lift_str(str.__getitem__(s, slice(last, None))))
        return out

    def sub(self, repl, s, count=0):
        if not sym.has_sym(s):
            return sym.lift_str(self.real.sub(repl, s, count))
        out, last, n = "", 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            n += 1
            out += str.__getitem__(s, slice(last, m.start()))
            if callable(repl):
                out += repl(m)
            else:
                if "\\" in repl:
                    raise NotImplementedError("template")
                out += repl
            last = m.end()
        out += str.__getitem__(s, slice(last, None))
        return sym.lift_str(out)
