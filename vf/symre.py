"""Regular expressions and pyparsing tokens over strings with symbolic characters.

`match` interprets the parse tree which the `re` module itself makes of a
pattern, with the same leftmost, greedy, backtracking semantics; a test of a
symbolic character against a set of characters forks the path.
"""

from __future__ import annotations

import re
from re import _constants as k
from re import _parser

from vf import core, strings
from vf.core import Unsupported

_TREES: dict = {}
WORD = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
SPACE = frozenset(" \t\n\r\x0b\x0c")
DIG = frozenset("0123456789")


class Match:
    def __init__(self, string, start, end, groups, names):
        self.string, self._s, self._e = string, start, end
        self._g, self._n = groups, names
        self.pos, self.endpos = start, len(string)

    def _span(self, g):
        if isinstance(g, str):
            g = self._n[g]
        if g == 0:
            return self._s, self._e
        return self._g.get(g, (-1, -1))

    def _one(self, g, default=None):
        a, b = self._span(g)
        return default if a < 0 else self.string[a:b]

    def group(self, *gs):
        if len(gs) <= 1:
            return self._one(gs[0] if gs else 0)
        return tuple(self._one(g) for g in gs)

    __getitem__ = lambda self, g: self._one(g)  # noqa: E731

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self._count + 1))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self._n.items()}

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def span(self, g=0):
        return self._span(g)

    def __bool__(self):
        return True


def _member(ctx, c, test):
    """Does the character satisfy the concrete predicate? Forks when open."""
    ch = strings.get(ctx, c)
    if ch is None:
        return test(c)
    if isinstance(ch, strings.Opaque):
        raise Unsupported("regular expression looks into an opaque number")
    yes = frozenset(d for d in ch.dom if test(d))
    if yes == ch.dom:
        return True
    if not yes:
        return False
    r = bool(strings.in_set(ctx, c, yes))
    ch.dom = yes if r else ch.dom - yes
    return r


def _category(cat, c):
    n = str(cat)
    neg = "_NOT_" in n
    if "DIGIT" in n:
        r = c.isdigit()
    elif "SPACE" in n:
        r = c.isspace()
    elif "WORD" in n:
        r = c.isalnum() or c == "_"
    else:
        raise Unsupported(n)
    return r != neg


def _set_test(items, flags):
    neg = False
    tests = []
    for op, av in items:
        if op is k.NEGATE:
            neg = True
        elif op is k.LITERAL:
            tests.append(lambda c, v=av: ord(c) == v)
        elif op is k.RANGE:
            tests.append(lambda c, v=av: v[0] <= ord(c) <= v[1])
        elif op is k.CATEGORY:
            tests.append(lambda c, v=av: _category(v, c))
        else:
            raise Unsupported(f"regex set {op}")

    def test(c):
        vs = {c, c.lower(), c.upper()} if flags & re.IGNORECASE else {c}
        return any(t(x) for t in tests for x in vs if len(x) == 1) != neg

    return test


class _M:
    def __init__(self, ctx, string, flags):
        self.ctx, self.s, self.flags = ctx, string, flags

    def char(self, i, test):
        return i < len(self.s) and _member(self.ctx, self.s[i], test)

    def seq(self, nodes, n, i, g):
        if n == len(nodes):
            yield i, g
            return
        for j, h in self.one(nodes[n], i, g):
            yield from self.seq(nodes, n + 1, j, h)

    def one(self, node, i, g):
        op, av = node
        if op is k.LITERAL or op is k.NOT_LITERAL:
            t = _set_test([(k.LITERAL, av)], self.flags)
            if op is k.NOT_LITERAL:
                u = t
                t = lambda c: not u(c)  # noqa: E731
            if self.char(i, t):
                yield i + 1, g
        elif op is k.ANY:
            if self.char(i, (lambda c: True) if self.flags & re.DOTALL else (lambda c: c != "\n")):
                yield i + 1, g
        elif op is k.IN:
            if self.char(i, _set_test(av, self.flags)):
                yield i + 1, g
        elif op is k.SUBPATTERN:
            gid, add, rem, p = av
            if add or rem:
                raise Unsupported("inline regex flags")
            for j, h in self.seq(p, 0, i, g):
                yield j, ({**h, gid: (i, j)} if gid is not None else h)
        elif op is k.BRANCH:
            for p in av[1]:
                yield from self.seq(p, 0, i, g)
        elif op in (k.MAX_REPEAT, k.MIN_REPEAT, k.POSSESSIVE_REPEAT):
            lo, hi, p = av
            if op is k.POSSESSIVE_REPEAT:
                for r in self.repeat(p, lo, hi, i, g, True):
                    yield r
                    return
            else:
                yield from self.repeat(p, lo, hi, i, g, op is k.MAX_REPEAT)
        elif op is k.ATOMIC_GROUP:
            for r in self.seq(av, 0, i, g):
                yield r
                return
        elif op is k.AT:
            if self.at(av, i):
                yield i, g
        elif op in (k.ASSERT, k.ASSERT_NOT):
            d, p = av
            if d < 0:
                raise Unsupported("lookbehind")
            hit = next(self.seq(p, 0, i, g), None)
            if op is k.ASSERT and hit is not None:
                yield i, hit[1]
            if op is k.ASSERT_NOT and hit is None:
                yield i, g
        elif op is k.GROUPREF:
            a, b = g.get(av, (-1, -1))
            if a >= 0 and bool(strings.str_eq(self.ctx, self.s[a:b], self.s[i : i + b - a])):
                yield i + b - a, g
        else:
            raise Unsupported(f"regex {op}")

    def repeat(self, p, lo, hi, i, g, greedy):
        if lo > 0:
            for j, h in self.seq(p, 0, i, g):
                yield from self.repeat(p, lo - 1, hi if hi is k.MAXREPEAT else hi - 1, j, h, greedy)
            return
        more = hi is k.MAXREPEAT or hi > 0
        if not greedy:
            yield i, g
        if more:
            for j, h in self.seq(p, 0, i, g):
                if j == i:
                    continue
                yield from self.repeat(p, 0, hi if hi is k.MAXREPEAT else hi - 1, j, h, greedy)
        if greedy:
            yield i, g

    def at(self, av, i):
        s, n = self.s, len(self.s)
        m = self.flags & re.MULTILINE
        nl = lambda j: _member(self.ctx, s[j], lambda c: c == "\n")  # noqa: E731
        if av is k.AT_BEGINNING_STRING or (av is k.AT_BEGINNING and not m):
            return i == 0
        if av is k.AT_BEGINNING:
            return i == 0 or nl(i - 1)
        if av is k.AT_END_STRING:
            return i == n
        if av is k.AT_END:
            return i == n or (i == n - 1 and nl(i)) or bool(m and nl(i))
        w = lambda j: 0 <= j < n and _member(self.ctx, s[j], lambda c: c in WORD)  # noqa: E731
        if av is k.AT_BOUNDARY:
            return w(i - 1) != w(i)
        if av is k.AT_NON_BOUNDARY:
            return w(i - 1) == w(i)
        raise Unsupported(f"regex {av}")


def _tree(pattern, flags):
    if isinstance(pattern, re.Pattern):
        pattern, flags = pattern.pattern, pattern.flags
    key = (pattern, int(flags))
    if key not in _TREES:
        t = _parser.parse(pattern, int(flags) & ~re.UNICODE.value)
        _TREES[key] = (list(t), t.state.flags, dict(t.state.groupdict), t.state.groups - 1)
    return _TREES[key]


def match(pattern, string, pos=0, flags=0, mode="match"):
    nodes, fl, names, count = _tree(pattern, flags)
    m = _M(core.ctx(), string, fl)
    starts = range(pos, len(string) + 1) if mode == "search" else (pos,)
    for i in starts:
        for j, g in m.seq(nodes, 0, i, {}):
            if mode == "fullmatch" and j != len(string):
                continue
            r = Match(string, i, j, g, names)
            r._count = count
            return r
    return None


def active(s):
    return core.CTX is not None and strings.has_sym(s)


def pattern_method(pat, name, args, kw):
    """Method of a compiled pattern on a symbolic string."""
    if name in ("match", "search", "fullmatch"):
        return match(pat, *args, mode=name, **kw)
    if name == "finditer" or name == "findall":
        out, pos = [], 0
        while pos <= len(args[0]):
            r = match(pat, args[0], pos, mode="search")
            if r is None:
                break
            out.append(r)
            pos = r.end() if r.end() > r.start() else r.end() + 1
        if name == "finditer":
            return iter(out)
        return [r.group() if r._count == 0 else r.group(1) if r._count == 1 else r.groups() for r in out]
    if name in ("sub", "subn"):
        repl, s = args[0], args[1]
        if isinstance(repl, str) and "\\" in repl:
            raise Unsupported("re.sub with references")
        out, pos, n = [], 0, 0
        limit = args[2] if len(args) > 2 else kw.get("count", 0)
        for r in pattern_method(pat, "finditer", (s,), {}):
            if limit and n >= limit:
                break
            out += [s[pos : r.start()], repl if isinstance(repl, str) else repl(r)]
            pos = r.end()
            n += 1
        out.append(s[pos:])
        return "".join(out) if name == "sub" else ("".join(out), n)
    if name == "split":
        s, out, pos = args[0], [], 0
        for r in pattern_method(pat, "finditer", (s,), {}):
            out += [s[pos : r.start()], *r.groups()]
            pos = r.end()
        return [*out, s[pos:]]
    raise Unsupported(f"Pattern.{name}")


def install():
    import pyparsing.core as pc

    for n in ("match", "search", "fullmatch", "finditer", "findall", "split"):
        orig = getattr(re, n)

        def f(pattern, string, *a, _o=orig, _n=n, **kw):
            if active(string):
                flags = kw.pop("flags", 0) if _n != "split" else 0
                if a:
                    flags, a = a[0], a[1:]
                if not isinstance(pattern, re.Pattern):
                    pattern = re.compile(pattern, flags)
                return pattern_method(pattern, _n, (string, *a), kw)
            return _o(pattern, string, *a, **kw)

        setattr(re, n, f)
    for n in ("sub", "subn"):
        orig = getattr(re, n)

        def g(pattern, repl, string, *a, _o=orig, _n=n, **kw):
            if active(string):
                pat = pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, kw.pop("flags", 0))
                return pattern_method(pat, _n, (repl, string, *a), kw)
            return _o(pattern, repl, string, *a, **kw)

        setattr(re, n, g)

    def opaque_reps(s):
        """Texts of formatted numbers an opaque character may stand for."""
        return [s]

    def hook(cls, name, sym):
        orig = getattr(cls, name)

        def h(self, instring, loc, do_actions=True):
            # a token looks at most at the rest of the text
            if core.CTX is not None and not instring.isascii() and strings._SYM.search(instring, loc):
                return sym(self, instring, loc, orig, do_actions)
            return orig(self, instring, loc, do_actions)

        setattr(cls, name, h)

    def fail(self, s, loc):
        raise pc.ParseException(s, loc, self.errmsg, self)

    def near(s, loc, n):
        return strings.has_sym(s[loc : loc + n])

    def literal(self, s, loc, orig, do):
        n = self.matchLen
        if not near(s, loc, n):
            return orig(self, s, loc, do)
        if opaque_at(s, loc):
            return number_literal(self, s, loc)
        for j in range(n):
            if loc + j >= len(s) or not _member(core.ctx(), s[loc + j], lambda c, w=self.match[j]: c == w):
                fail(self, s, loc)
        return loc + n, self.match

    def opaque_at(s, loc):
        return loc < len(s) and isinstance(strings.get(core.ctx(), s[loc]), strings.Opaque)

    def number_literal(self, s, loc):
        if self.match and self.match[0] in "0123456789+-.":
            raise Unsupported("literal against an opaque number")
        fail(self, s, loc)

    def caseless(self, s, loc, orig, do):
        n = self.matchLen
        if not near(s, loc, n):
            return orig(self, s, loc, do)
        if opaque_at(s, loc):
            return number_literal(self, s, loc)
        for j in range(n):
            if loc + j >= len(s) or not _member(core.ctx(), s[loc + j], lambda c, w=self.match[j]: c.upper() == w):
                fail(self, s, loc)
        return loc + n, self.returnString

    def opaque_regex(self, s, loc):
        """Pattern against a formatted number standing as one character: decided by
        what the pattern does with texts of such numbers (see number_texts)."""
        ch = strings.get(core.ctx(), s[loc])
        rest = "".join("\x00" if strings.has_sym(c) else c for c in s[loc + 1 :])
        verdicts = set()
        for t in number_texts(ch):
            r = self.re.match(t + rest)
            verdicts.add(None if r is None else r.end() - len(t))
        if verdicts == {None}:
            return None
        if verdicts == {0}:
            return s[loc]
        raise Unsupported("pattern does not take a whole opaque number")

    def regex(self, s, loc, orig, do):
        if opaque_at(s, loc):
            r = opaque_regex(self, s, loc)
            if r is None:
                fail(self, s, loc)
            return loc + 1, pc.ParseResults(r)
        r = match(self.re, s, loc)
        if r is None:
            fail(self, s, loc)
        ret = pc.ParseResults(r[0])
        for kk, v in r.groupdict().items():
            ret[kk] = v
        return r.end(), ret

    def notin(self, s, loc, orig, do):
        ctx = core.ctx()
        bad = lambda c: c in self.notCharsSet  # noqa: E731
        hit = lambda j: False if opaque_at(s, j) else _member(ctx, s[j], bad)  # noqa: E731
        if hit(loc):
            fail(self, s, loc)
        start, loc = loc, loc + 1
        end = min(start + self.maxLen, len(s))
        while loc < end and not hit(loc):
            loc += 1
        if loc - start < self.minLen:
            fail(self, s, loc)
        return loc, s[start:loc]

    def pre(self, instring, loc, _o=pc.ParserElement.preParse):
        if core.CTX is not None and not instring.isascii() and self.skipWhitespace:
            n = len(instring)
            while loc < n:
                c = instring[loc]
                ch = strings.get(core.ctx(), c)
                if ch is None:
                    if c not in self.whiteChars:
                        break
                elif isinstance(ch, strings.Opaque) or not (ch.dom & set(self.whiteChars)):
                    break
                elif not _member(core.ctx(), c, lambda x: x in self.whiteChars):
                    break
                loc += 1
            return loc
        return _o(self, instring, loc)

    pc.ParserElement.preParse = pre
    hook(pc.Literal, "parseImpl", literal)
    hook(pc._SingleCharLiteral, "parseImpl", literal)
    hook(pc.CaselessLiteral, "parseImpl", caseless)
    hook(pc.Regex, "parseImpl", regex)
    hook(pc.CharsNotIn, "parseImpl", notin)

    def word(self, s, loc, orig, do):
        """Word, by the characters it takes (what its regular expression says)."""
        ctx = core.ctx()
        if opaque_at(s, loc):
            raise Unsupported("pyparsing Word against an opaque number")
        init = lambda c: c in self.initChars  # noqa: E731
        body = lambda c: c in self.bodyChars  # noqa: E731
        if loc >= len(s) or not _member(ctx, s[loc], init):
            fail(self, s, loc)
        start, loc = loc, loc + 1
        end = min(start + self.maxLen, len(s))
        while loc < end and _member(ctx, s[loc], body):
            loc += 1
        bad = loc - start < self.minLen
        if self.maxSpecified and loc < len(s) and _member(ctx, s[loc], body):
            bad = True
        if self.asKeyword and (
            (start > 0 and _member(ctx, s[start - 1], body)) or (loc < len(s) and _member(ctx, s[loc], body))
        ):
            bad = True
        if bad:
            fail(self, s, loc)
        return loc, s[start:loc]

    def word_regex(self, s, loc, orig, do):
        if opaque_at(s, loc):
            r = opaque_regex(self, s, loc)
            if r is None:
                fail(self, s, loc)
            return loc + 1, r
        r = match(self.re, s, loc)
        if r is None:
            fail(self, s, loc)
        return r.end(), r[0]

    hook(pc.Word, "parseImpl", word)
    hook(pc.Word, "parseImpl_regex", word_regex)
    for cls in (pc.Keyword, pc.QuotedString, pc.White, pc.CloseMatch):
        def bad(self, s, loc, orig, do, _n=cls.__name__):
            raise Unsupported(f"pyparsing {_n} on symbolic text")
        hook(cls, "parseImpl", bad)


def number_texts(ch):
    """Representative texts of a formatted symbolic number."""
    spec = ch.spec
    if isinstance(ch.value, core.SI):
        return ["0", "7", "-12"]
    m = re.match(r"^\.(\d+)f$", spec)
    if m:
        return [format(v, spec) for v in (0.0, 12.5, -3.25, 1234.0)]
    return ["0.0", "12.5", "-3.25", "1000000.0"]
