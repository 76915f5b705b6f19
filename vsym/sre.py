"""
vsym.sre - regular expressions over symbolic text: a backtracking matcher (in
the order of Python's) that forks on the conditions characters have to meet.
"""

import re
from re import _constants as rc
from re import _parser as rp

from . import core
from .core import z3
from .values import chars_of, mkbool, mkstr, not_

RUNS: dict = {}


def runs_of(name):
    """Ranges of code points in a category."""
    if name not in RUNS:
        pat = re.compile(
            {
                "digit": r"\d",
                "space": r"\s",
                "word": r"\w",
                "adigit": r"(?a:\d)",
                "aspace": r"(?a:\s)",
                "aword": r"(?a:\w)",
            }[name]
        )
        out = []
        start = None
        for code in range(0x110000):
            if pat.match(chr(code)):
                if start is None:
                    start = code
            elif start is not None:
                out.append((start, code - 1))
                start = None
        RUNS[name] = out
    return RUNS[name]


def within(char, runs):
    """Whether a code point is in ranges."""
    if type(char) is int:
        return any(a <= char <= b for a, b in runs)
    return mkbool(z3.Or(*[z3.And(char.e >= a, char.e <= b) for a, b in runs]))


def either(conds):
    """Any of the conditions."""
    out = []
    for cond in conds:
        if cond is True:
            return True
        if cond is not False:
            out.append(cond.e)
    return mkbool(z3.Or(*out)) if out else False


CATEGORIES = {
    rc.CATEGORY_DIGIT: ("digit", False),
    rc.CATEGORY_NOT_DIGIT: ("digit", True),
    rc.CATEGORY_SPACE: ("space", False),
    rc.CATEGORY_NOT_SPACE: ("space", True),
    rc.CATEGORY_WORD: ("word", False),
    rc.CATEGORY_NOT_WORD: ("word", True),
}


class Matcher:
    """Matches one pattern on one text."""

    def __init__(self, pattern, text):
        self.pattern = pattern
        self.tree = rp.parse(pattern.pattern, pattern.flags)
        self.text = text
        self.ch = chars_of(text)

    def category(self, char, cat, flags):
        """Whether a character is of a category."""
        name, neg = CATEGORIES[cat]
        if flags & re.ASCII:
            name = "a" + name
        res = within(char, runs_of(name))
        return not_(res) if neg else res

    def same(self, char, code, flags):
        """Whether a character is this one."""
        if flags & re.IGNORECASE:
            opts = {ord(c) for c in (chr(code).lower(), chr(code).upper())
                    if len(c) == 1} | {code}
            return either([char == o for o in opts])
        return char == code

    def member(self, char, items, flags):
        """Whether a character is in a set."""
        conds = []
        neg = False
        for code, arg in items:
            if code is rc.NEGATE:
                neg = True
            elif code is rc.LITERAL:
                conds.append(self.same(char, arg, flags))
            elif code is rc.RANGE:
                conds.append(within(char, [arg]))
                if flags & re.IGNORECASE:
                    low, high = arg
                    swap = [
                        ord(c)
                        for x in range(low, min(high, 0x250) + 1)
                        for c in (chr(x).lower(), chr(x).upper())
                        if len(c) == 1
                    ]
                    conds.append(within(char, [(c, c) for c in swap]))
            elif code is rc.CATEGORY:
                conds.append(self.category(char, arg, flags))
            else:
                raise core.Unsupported(f"regular expression {code}")
        res = either(conds)
        return not_(res) if neg else res

    def single(self, code, arg, char, flags):
        """The condition of an item that takes one character (or None)."""
        if code is rc.LITERAL:
            return self.same(char, arg, flags)
        if code is rc.NOT_LITERAL:
            return not_(self.same(char, arg, flags))
        if code is rc.ANY:
            return True if flags & re.DOTALL else not_(char == 10)
        if code is rc.IN:
            return self.member(char, arg, flags)
        return None

    def at(self, arg, pos, flags):
        """Whether a position is what's asked for."""
        end = len(self.ch)
        if arg is rc.AT_BEGINNING_STRING or (
            arg is rc.AT_BEGINNING and not flags & re.MULTILINE
        ):
            return pos == 0
        if arg is rc.AT_BEGINNING:
            return pos == 0 or self.ch[pos - 1] == 10
        if arg is rc.AT_END_STRING:
            return pos == end
        if arg is rc.AT_END:
            if pos == end:
                return True
            if flags & re.MULTILINE or pos == end - 1:
                return self.ch[pos] == 10
            return False
        if arg in (rc.AT_BOUNDARY, rc.AT_NON_BOUNDARY):
            cat = rc.CATEGORY_WORD
            left = pos > 0 and bool(
                self.category(self.ch[pos - 1], cat, flags)
            )
            right = pos < end and bool(
                self.category(self.ch[pos], cat, flags)
            )
            return (left != right) == (arg is rc.AT_BOUNDARY)
        raise core.Unsupported(f"regular expression {arg}")

    def seq(self, items, idx, pos, groups, flags):
        """Ways (end, groups) to match items[idx:], in order."""
        if idx == len(items):
            yield pos, groups
            return
        code, arg = items[idx]
        rest = lambda p, g: self.seq(items, idx + 1, p, g, flags)  # noqa
        if code in (rc.LITERAL, rc.NOT_LITERAL, rc.ANY, rc.IN):
            if pos < len(self.ch) and bool(
                self.single(code, arg, self.ch[pos], flags)
            ):
                yield from rest(pos + 1, groups)
        elif code is rc.AT:
            if bool(self.at(arg, pos, flags)):
                yield from rest(pos, groups)
        elif code is rc.BRANCH:
            for opt in arg[1]:
                for end, grp in self.seq(list(opt), 0, pos, groups, flags):
                    yield from rest(end, grp)
        elif code is rc.SUBPATTERN:
            num, add, sub, body = arg
            inner = (flags | add) & ~sub
            for end, grp in self.seq(list(body), 0, pos, groups, inner):
                if num is not None:
                    grp = dict(grp)
                    grp[num] = (pos, end)
                yield from rest(end, grp)
        elif code in (rc.MAX_REPEAT, rc.MIN_REPEAT, rc.POSSESSIVE_REPEAT):
            low, high, body = arg
            ways = self.repeat(
                list(body), low, high, pos, groups, flags,
                code is rc.MIN_REPEAT, 0,
            )
            for end, grp in ways:
                yield from rest(end, grp)
                if code is rc.POSSESSIVE_REPEAT:
                    return
        elif code is rc.ATOMIC_GROUP:
            for end, grp in self.seq(list(arg), 0, pos, groups, flags):
                yield from rest(end, grp)
                return
        elif code in (rc.ASSERT, rc.ASSERT_NOT):
            way, body = arg
            found = None
            if way > 0:
                starts = [pos]
            else:
                low, high = body.getwidth()
                starts = [pos - low] if low == high and pos >= low else []
            for start in starts:
                for end, grp in self.seq(
                    list(body), 0, start, groups, flags
                ):
                    if way > 0 or end == pos:
                        found = grp
                        break
            if code is rc.ASSERT_NOT:
                if found is None:
                    yield from rest(pos, groups)
            elif found is not None:
                yield from rest(pos, found)
        elif code is rc.GROUPREF:
            span = groups.get(arg)
            if span is not None:
                part = self.ch[span[0] : span[1]]
                end = pos + len(part)
                if end <= len(self.ch) and bool(
                    mkstr(part) == mkstr(self.ch[pos:end])
                ):
                    yield from rest(end, groups)
        elif code is rc.GROUPREF_EXISTS:
            num, yes, other = arg
            body = yes if num in groups else other
            for end, grp in self.seq(
                list(body or []), 0, pos, groups, flags
            ):
                yield from rest(end, grp)
        else:
            raise core.Unsupported(f"regular expression {code}")

    def repeat(self, body, low, high, pos, groups, flags, lazy, done):
        """Ways to repeat a body."""
        if done >= low and lazy:
            yield pos, groups
        if done < high:
            for end, grp in self.seq(body, 0, pos, groups, flags):
                if end == pos and done >= low:
                    continue
                yield from self.repeat(
                    body, low, high, end, grp, flags, lazy, done + 1
                )
        if done >= low and not lazy:
            yield pos, groups

    def at_pos(self, pos, full=False, nonempty=False):
        """The first match at a position."""
        flags = self.pattern.flags
        for end, grp in self.seq(list(self.tree), 0, pos, {}, flags):
            if full and end != len(self.ch):
                continue
            if nonempty and end == pos:
                continue
            return Match(self, pos, end, grp)
        return None

    def search(self, pos=0, nonempty_at=None):
        """The first match from a position on."""
        for start in range(pos, len(self.ch) + 1):
            res = self.at_pos(start, nonempty=start == nonempty_at)
            if res is not None:
                return res
        return None

    def each(self, limit=0):
        """Matches one after another (Python's rules for empty ones)."""
        pos = 0
        bar = None
        num = 0
        while pos <= len(self.ch) and not (limit and num >= limit):
            res = self.search(pos, bar)
            if res is None:
                return
            num += 1
            yield res
            pos = res.end()
            bar = pos if res.start() == pos else None


class Match:
    """A match."""

    def __init__(self, matcher, start, end, groups):
        self.re = matcher.pattern
        self.string = matcher.text
        self.ch = matcher.ch
        self.spans = dict(groups)
        self.spans[0] = (start, end)
        self.pos = 0
        self.endpos = len(self.ch)

    def num(self, key):
        """The number of a group."""
        if isinstance(key, str):
            if key not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[key]
        if not 0 <= key <= self.re.groups:
            raise IndexError("no such group")
        return key

    def text(self, key, default=None):
        """The text of a group."""
        span = self.spans.get(self.num(key))
        if span is None:
            return default
        return mkstr(self.ch[span[0] : span[1]])

    def group(self, *keys):
        """Groups."""
        if not keys:
            keys = (0,)
        res = tuple(self.text(k) for k in keys)
        return res[0] if len(res) == 1 else res

    def __getitem__(self, key):
        return self.text(key)

    def groups(self, default=None):
        """All groups."""
        return tuple(
            self.text(i, default) for i in range(1, self.re.groups + 1)
        )

    def groupdict(self, default=None):
        """Named groups."""
        return {k: self.text(k, default) for k in self.re.groupindex}

    def start(self, key=0):
        """Where a group starts."""
        return self.spans.get(self.num(key), (-1, -1))[0]

    def end(self, key=0):
        """Where a group ends."""
        return self.spans.get(self.num(key), (-1, -1))[1]

    def span(self, key=0):
        """Both."""
        return self.spans.get(self.num(key), (-1, -1))


def expand(template, match):
    """The replacement of a match."""
    if callable(template):
        return template(match)
    tmpl = str(template)
    if "\\" not in tmpl:
        return template
    out = ""
    for part in rp.parse_template(tmpl, match.re):
        if isinstance(part, int):
            part = match.text(part) or ""
        out = out + part
    return out


def method(pattern, name, args, kwargs):
    """A method of a compiled pattern (NotImplemented if not modelled)."""
    if not isinstance(pattern.pattern, str):
        return NotImplemented
    args = list(args)
    if name in ("sub", "subn"):
        repl = args.pop(0) if args else kwargs.pop("repl")
        text = args.pop(0) if args else kwargs.pop("string")
        count = args.pop(0) if args else kwargs.pop("count", 0)
        mat = Matcher(pattern, text)
        out = ""
        last = num = 0
        for res in mat.each(count):
            out = out + mkstr(mat.ch[last : res.start()]) + expand(repl, res)
            last = res.end()
            num += 1
        out = out + mkstr(mat.ch[last:])
        return out if name == "sub" else (out, num)
    text = args.pop(0) if args else kwargs.pop("string")
    mat = Matcher(pattern, text)
    if name == "split":
        limit = args.pop(0) if args else kwargs.pop("maxsplit", 0)
        parts: list = []
        last = 0
        for res in mat.each(limit):
            parts.append(mkstr(mat.ch[last : res.start()]))
            parts += list(res.groups())
            last = res.end()
        parts.append(mkstr(mat.ch[last:]))
        return parts
    if args or kwargs:
        return NotImplemented
    if name == "match":
        return mat.at_pos(0)
    if name == "fullmatch":
        return mat.at_pos(0, full=True)
    if name == "search":
        return mat.search()
    if name == "finditer":
        return mat.each()
    if name == "findall":
        out = []
        for res in mat.each():
            if pattern.groups == 0:
                out.append(res.group())
            elif pattern.groups == 1:
                out.append(res.text(1, ""))
            else:
                out.append(res.groups(""))
        return out
    return NotImplemented
