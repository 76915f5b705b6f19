"""
vsym.models - what the instrumented code calls instead of Python's built-in
operations: calls, subscripts, membership tests and string formatting.
"""

import binascii
import builtins
import collections
from enum import EnumMeta
import functools
import importlib
import io
import json
import logging
import math
import os
import pathlib
import random
import re
import struct
import sys
import time
import types
import urllib.parse
import zlib
from typing import Any, Callable, Dict, List

from cerberus import Validator

from . import core
from . import sre
from .core import cur, z3
from .values import (
    FP32,
    FP64,
    RNE,
    PackByte,
    Sym,
    SymBool,
    SymBytes,
    SymFix,
    SymFP,
    SymInt,
    SymQuot,
    SymStr,
    SymText,
    SYM_SET,
    bool_term,
    byte_val,
    chars_of,
    deep_real,
    deep_sym,
    elems_of,
    int_to_bytes,
    is_sym,
    join_str,
    lift,
    mkbool,
    mkfp,
    mkint,
    mkstr,
    not_,
    pack_int,
    real,
    same_elem,
    to_fix,
    to_float,
    truth,
    unpack_int,
)

MODELS: Dict[Any, Callable] = {}


def model(*funcs):
    """Register a model for real functions (always used when called)."""

    def deco(func):
        for item in funcs:
            MODELS[item] = func
        return func

    return deco


def any_sym(args, kwargs) -> bool:
    """Whether any direct argument is symbolic."""
    for arg in args:
        if type(arg) in SYM_SET:
            return True
    if kwargs:
        for arg in kwargs.values():
            if type(arg) in SYM_SET:
                return True
    return False


# -- built-ins ----------------------------------------------------------------


@model(int)
def m_int(val=0, base=None, **kw):
    typ = type(val)
    if typ not in SYM_SET:
        if typ is str and val.startswith(TOKEN_TEXT) and base is None:
            return token_value(val)
        return int(val, **kw) if base is None else int(val, real(base))
    if typ is SymInt:
        return val
    if typ is SymBool:
        return val.as_int()
    if typ in (SymFix, SymFP, SymQuot):
        return val.__trunc__()
    if typ is SymText and base is None:
        num = val.number()
        if type(num) is SymInt:
            return num
    if typ is SymStr and base is None:
        # decimal digits with an optional sign and whitespace
        text = val.strip()
        if type(text) is not SymStr:
            return int(text)
        chars, sign = text.ch, 1
        if len(chars) > 1:
            if chars[0] == 45:
                sign, chars = -1, chars[1:]
            elif chars[0] == 43:
                chars = chars[1:]
        total: Any = 0
        for char in chars:
            if char >= 48 and char <= 57:
                total = total * 10 + (char - 48)
            elif char < 128 and char != 95:
                raise ValueError("invalid literal for int()")
            else:
                return int(text.real())
        return total * sign
    return int(real(val)) if base is None else int(real(val), real(base))


@model(float)
def m_float(val=0.0):
    typ = type(val)
    if typ not in SYM_SET:
        return float(val)
    if typ in (SymText, SymStr):
        return float(real(val))
    return to_float(val)


@model(bool)
def m_bool(val=False):
    typ = type(val)
    if typ is SymBool:
        return val
    if typ is SymInt:
        return mkbool(val.e != 0)
    return bool(val)


@model(len)
def m_len(val):
    return len(val)


@model(abs)
def m_abs(val):
    return abs(val)


@model(min)
def m_min(*args, **kwargs):
    return minmax(args, kwargs, min, lambda a, b: b < a)


@model(max)
def m_max(*args, **kwargs):
    return minmax(args, kwargs, max, lambda a, b: b > a)


def minmax(args, kwargs, func, better):
    items = list(args[0]) if len(args) == 1 else list(args)
    if kwargs or not any(is_sym(x) for x in items):
        return func(items, **kwargs) if items or "default" in kwargs else func(
            items
        )
    best = items[0]
    for item in items[1:]:
        if all(isinstance(x, int) for x in (best, item)):
            cond = better(best, item)
            if type(cond) is SymBool:
                best, item = lift(best), lift(item)
                los = (best.lo, item.lo)
                his = (best.hi, item.hi)
                lo = None if None in los else func(los)
                hi = None if None in his else func(his)
                best = mkint(z3.If(cond.e, item.e, best.e), lo, hi)
                continue
            best = item if cond else best
        elif better(best, item):
            best = item
    return best


@model(sum)
def m_sum(items, start=0):
    total = start
    for item in items:
        total = total + item
    return total


class SymRange:
    """range() with symbolic bounds: forks once per iteration."""

    def __init__(self, start, stop, step) -> None:
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        val = self.start
        step = self.step
        while (val < self.stop) if step > 0 else (val > self.stop):
            yield val
            val = val + step

    def __len__(self):
        return len(range(real(self.start), real(self.stop), real(self.step)))

    def __contains__(self, val):
        return bool(val >= self.start) and bool(val < self.stop) and bool(
            (val - self.start) % self.step == 0
        )

    def __reversed__(self):
        return reversed(
            range(real(self.start), real(self.stop), real(self.step))
        )

    def __getitem__(self, idx):
        return range(real(self.start), real(self.stop), real(self.step))[
            real(idx)
        ]


@model(range)
def m_range(*args):
    if not any_sym(args, None):
        return range(*args)
    for arg in args:
        if not isinstance(arg, int):
            raise TypeError(
                f"'{arg.__class__.__name__}' object cannot be "
                "interpreted as an integer"
            )
    start, stop, step = 0, None, 1
    if len(args) == 1:
        stop = args[0]
    else:
        start, stop = args[:2]
        if len(args) == 3:
            step = args[2]
    return SymRange(start, stop, real(step))


@model(type)
def m_type(*args, **kwargs):
    if len(args) == 1 and type(args[0]) in SYM_SET:
        return args[0].__class__
    return type(*args, **kwargs)


@model(str)
def m_str(*args, **kwargs):
    if len(args) == 1 and not kwargs:
        own = own_text(args[0])
        if own is not None:
            return own
    if not args or type(args[0]) not in SYM_SET:
        return str(*args, **kwargs)
    val = args[0]
    if type(val) is SymBytes:
        if len(args) > 1 or kwargs:
            return val.decode(*args[1:], **kwargs)
        return str(real(val))
    if type(val) in (SymText, SymStr):
        return val
    if type(val) is SymInt:
        return SymText([val])
    return SymText([val])


@model(repr)
def m_repr(val):
    return repr(val)


@model(format)
def m_format(val, spec=""):
    if type(val) in SYM_SET:
        return fmt_value(val, spec, -1)
    return format(val, spec)


def own_text(val):
    """The text that an object of a class with its own '__str__' gives."""
    typ = type(val)
    if typ in SYM_SET:
        return None
    func = typ.__str__
    if func is object.__str__:
        func = typ.__repr__
    if type(func) is not types.FunctionType:
        return None
    res = func(val)
    if not isinstance(res, str):
        raise TypeError(
            f"__str__ returned non-string (type {type(res).__name__})"
        )
    return res


def fmt_value(val, spec, conv):
    """Format one replacement field."""
    typ = type(val)
    if conv in (-1, 115) and (
        conv == 115 or typ.__format__ is object.__format__ and spec == ""
    ):
        own = own_text(val)
        if own is not None:
            val = own
            typ = type(val)
    if typ not in SYM_SET:
        if conv == 115:
            val = str(val)
        elif conv == 114:
            val = repr(val)
        elif conv == 97:
            val = ascii(val)
        return format(val, spec)
    if conv == 114 and typ in (SymStr, SymText):
        return repr(val)
    if spec == "" or (spec == "d" and typ is SymInt):
        if typ in (SymText, SymStr):
            return val
        if typ is SymBytes:
            return str(val)
        return SymText([val])
    return format(val, spec)


def fstr(*parts):
    """An f-string: text and (value, conversion, spec) triples."""
    if core.E is None:
        return "".join(
            p if type(p) is str else fmt_value(p[0], p[2], p[1])
            for p in parts
        )
    out = []
    for part in parts:
        if type(part) is str:
            out.append(part)
        else:
            out.append(fmt_value(part[0], part[2], part[1]))
    return join_str("", out) if any(is_sym(x) for x in out) else "".join(out)


def mod(left, right):
    """The % operator."""
    if isinstance(left, (str, bytes)) and type(left) not in SYM_SET:
        if isinstance(left, str):
            vals = (
                right.values()
                if isinstance(right, dict)
                else right if type(right) is tuple else [right]
            )
            if any(type(x) in (SymStr, SymText) for x in vals):
                return percent(left, right)
        if type(right) is tuple:
            if any(is_sym(x) for x in right):
                return left % tuple(deep_pin(x) for x in right)
        elif is_sym(right):
            return left % (deep_pin(right),)
    return left % right


FIELD = re.compile(r"%(?:\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z%])")


def percent(left, right):
    """Formatting with symbolic text."""
    rest = list(right) if type(right) is tuple else [right]
    out = []
    last = 0
    for res in FIELD.finditer(left):
        out.append(left[last : res.start()])
        last = res.end()
        key, spec, code = res.groups()
        if code == "%":
            out.append("%")
            continue
        if key is not None:
            val = right[key]
        elif rest:
            val = rest.pop(0)
        else:
            raise TypeError("not enough arguments for format string")
        if code == "s" and not spec:
            out.append(m_str(val))
        else:
            out.append(("%" + spec + code) % (deep_pin(val),))
    out.append(left[last:])
    if rest and not isinstance(right, dict):
        raise TypeError(
            "not all arguments converted during string formatting"
        )
    return join_str("", out)


def deep_pin(val):
    """A value for use in text only."""
    typ = type(val)
    if typ in (SymInt,):
        return val.text_real()
    if typ in (SymFix, SymFP):
        return float(repr(val))
    if typ in SYM_SET:
        return real(val)
    return val


@model(bytes)
def m_bytes(*args, **kwargs):
    return make_bytes(args, kwargs, False)


@model(bytearray)
def m_bytearray(*args, **kwargs):
    return make_bytes(args, kwargs, True)


MAX_BYTES = 70000


def make_bytes(args, kwargs, mutable):
    if not args:
        return SymBytes([], mutable)
    val = args[0]
    if isinstance(val, str):
        if type(val) in SYM_SET:
            enc = val.encode(*args[1:], **kwargs)
        else:
            enc = val.encode(*args[1:], **kwargs)
        return SymBytes(elems_of(enc), mutable)
    if isinstance(val, int):
        num = real(val)
        if num < 0:
            raise ValueError("negative count")
        if num > MAX_BYTES:
            cur().limit("allocation of more than MAX_BYTES bytes")
        return SymBytes([0] * num, mutable)
    elems = elems_of(val)
    if elems is None:
        if hasattr(val, "__bytes__"):
            return SymBytes(elems_of(val.__bytes__()), mutable)
        elems = list(val)
    for elem in elems:
        if type(elem) is PackByte or isinstance(elem, PackByte):
            continue
        if not isinstance(elem, int):
            raise TypeError("object cannot be interpreted as an integer")
        if not (elem >= 0 and elem <= 255):
            raise ValueError("bytes must be in range(0, 256)")
    return SymBytes(elems, mutable)


@model(memoryview)
def m_memoryview(val):
    if type(val) is SymBytes:
        return val
    return memoryview(val)


@model(hash)
def m_hash(val):
    return hash(val)


@model(round)
def m_round(val, ndigits=None):
    return round(val) if ndigits is None else round(val, ndigits)


@model(divmod)
def m_divmod(left, right):
    return left // right, left % right


@model(pow)
def m_pow(base, exp, mod_=None):
    if mod_ is None:
        return base**exp
    return pow(real(base), real(exp), real(mod_))


@model(ord)
def m_ord(val):
    if type(val) is SymStr:
        return val.ch[0]
    return ord(val)


@model(chr)
def m_chr(val):
    return mkstr([val])


@model(isinstance)
def m_isinstance(obj, cls):
    return isinstance(obj, cls)


@model(any)
def m_any(items):
    for item in items:
        if item:
            return True
    return False


@model(all)
def m_all(items):
    for item in items:
        if not item:
            return False
    return True


@model(sorted)
def m_sorted(items, **kwargs):
    return sorted(items, **kwargs)


@model(print)
def m_print(*_, **__):
    return None


# -- math, random, time ---------------------------------------------------------


@model(math.floor)
def m_floor(val):
    return val.__floor__() if is_sym(val) else math.floor(val)


@model(math.ceil)
def m_ceil(val):
    return val.__ceil__() if is_sym(val) else math.ceil(val)


@model(math.trunc)
def m_trunc(val):
    return val.__trunc__() if is_sym(val) else math.trunc(val)


@model(math.modf)
def m_modf(val):
    if type(val) is SymFix:
        return val.modf()
    if type(val) in (SymInt, SymBool):
        return 0.0, to_float(val)
    return math.modf(real(val))


@model(math.isnan)
def m_isnan(val):
    if type(val) is SymFP:
        return mkbool(z3.fpIsNaN(val.e))
    return False if is_sym(val) else math.isnan(val)


@model(math.isinf)
def m_isinf(val):
    if type(val) is SymFP:
        return mkbool(z3.fpIsInf(val.e))
    return False if is_sym(val) else math.isinf(val)


@model(math.isfinite)
def m_isfinite(val):
    if type(val) is SymFP:
        return mkbool(z3.Not(z3.Or(z3.fpIsInf(val.e), z3.fpIsNaN(val.e))))
    return True if is_sym(val) else math.isfinite(val)


@model(math.fabs)
def m_fabs(val):
    return abs(to_float(val)) if is_sym(val) else math.fabs(val)


@model(random.randint)
def m_randint(low, high):
    eng = cur()
    var = z3.Int(eng.fresh("random"))
    eng.axiom(z3.And(var >= lift(low).e, var <= lift(high).e))
    return SymInt(var, lift(low).lo, lift(high).hi)


@model(time.ctime, time.asctime, time.strftime)
def m_ctime(*_):
    return "(time)"


# -- struct -----------------------------------------------------------------------

CODES = {
    "b": (1, True),
    "B": (1, False),
    "h": (2, True),
    "H": (2, False),
    "i": (4, True),
    "I": (4, False),
    "l": (4, True),
    "L": (4, False),
    "q": (8, True),
    "Q": (8, False),
}
FLOATS = {"f": 4, "d": 8}


def parse_fmt(fmt):
    """(little, [(code, count)]) for standard-size formats."""
    fmt = real(fmt)
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    little = sys.byteorder == "little"
    body = fmt
    native = True
    if fmt and fmt[0] in "@=<>!":
        body = fmt[1:]
        native = fmt[0] == "@"
        if fmt[0] == "<":
            little = True
        elif fmt[0] in ">!":
            little = False
    items = []
    num = ""
    for char in body:
        if char.isdigit():
            num += char
        elif char.isspace():
            continue
        else:
            items.append((char, int(num) if num else 1))
            num = ""
    if native and len(items) > 1:
        raise core.Unsupported("native struct alignment")
    if native:
        items = [
            ({"l": "q", "L": "Q"}.get(c, c), n) for c, n in items
        ]
    return little, items


def pack_value(code, val, little, native=False):
    """Elements of one packed value."""
    if code in CODES:
        size, signed = CODES[code]
        if type(val) not in SYM_SET:
            if not isinstance(val, int):
                raise struct.error("required argument is not an integer")
        elif not isinstance(val, int):
            raise struct.error("required argument is not an integer")
        lo = -(1 << (8 * size - 1)) if signed else 0
        hi = (1 << (8 * size - (1 if signed else 0))) - 1
        if not (lo <= val and val <= hi):
            raise struct.error(f"'{code}' format requires {lo} <= n <= {hi}")
        elems = pack_int(val, size, signed)
    elif code == "?":
        cond = m_bool(val)
        elems = [cond.as_int() if type(cond) is SymBool else int(bool(cond))]
    elif code in FLOATS:
        size = FLOATS[code]
        if not isinstance(val, (int, float)):
            raise struct.error("required argument is not a float")
        if not is_sym(val):
            order = "@" if native else "<" if little else ">"
            return list(struct.pack(order + code, val))
        val = to_float(val)
        if type(val) is SymFP:
            term = val.e
            if code == "f":
                narrow = z3.fpFPToFP(RNE, term, FP32)
                over = z3.And(
                    z3.fpIsInf(narrow), z3.Not(z3.fpIsInf(term))
                )
                if not native and cur().branch(over):
                    raise OverflowError("float too large to pack with f format")
                term = narrow
            elems = [PackByte(term, code, size, i) for i in range(size)]
            for elem in elems:
                elem.kind = code
        else:
            if type(val) is SymFix:
                bits = 24 if code == "f" else 53
                if max(abs(val.lo), abs(val.hi)) <= 1 << bits:
                    elems = [
                        PackByte(val, code, size, i) for i in range(size)
                    ]
                else:
                    # rounded: the bytes are only computed when looked at
                    elems = [
                        PackByte(val, code + "~", size, i)
                        for i in range(size)
                    ]
                if little:
                    elems.reverse()
                return elems
            order = "@" if native else "<" if little else ">"
            return list(struct.pack(order + code, real(val)))
    elif code == "x":
        return [0]
    else:
        raise core.Unsupported("struct code " + code)
    if little:
        elems = elems[::-1]
    return elems


def unpack_value(code, elems, little):
    """Value of packed elements."""
    if little:
        elems = elems[::-1]
    if code in CODES:
        return unpack_int(elems, CODES[code][1])
    if code == "?":
        return m_bool(byte_val(elems[0]) != 0)
    if code in FLOATS:
        size = FLOATS[code]
        first = elems[0]
        if (
            type(first) is PackByte
            and first.kind == code
            and all(
                type(x) is PackByte
                and x.kind == code
                and x.idx == i
                and x.src is first.src
                for i, x in enumerate(elems)
            )
        ):
            src = first.src
            if isinstance(src, Sym):
                return src
            if code == "f":
                return mkfp(z3.fpFPToFP(RNE, src, FP64))
            return mkfp(src)
        vals = [byte_val(x) for x in elems]
        if all(type(x) is int for x in vals):
            return struct.unpack(">" + code, bytes(vals))[0]
        bits = z3.Concat(
            *[z3.Int2BV(lift(x).e, 8) for x in vals]
        )
        if code == "f":
            return mkfp(
                z3.fpFPToFP(RNE, z3.fpBVToFP(bits, FP32), FP64)
            )
        return mkfp(z3.fpBVToFP(bits, FP64))
    raise core.Unsupported("struct code " + code)


def do_pack(fmt, vals):
    little, items = parse_fmt(fmt)
    native = real(fmt)[:1] not in ("=", "<", ">", "!", b"=", b"<", b">", b"!")
    out: list = []
    vals = list(vals)
    need = sum(n for c, n in items if c not in "xs") + sum(
        1 for c, _ in items if c == "s"
    )
    if need != len(vals):
        raise struct.error(
            f"pack expected {need} items for packing (got {len(vals)})"
        )
    for code, count in items:
        if code == "s":
            data = elems_of(vals.pop(0))[:count]
            out += data + [0] * (count - len(data))
            continue
        for _ in range(count):
            val = vals.pop(0) if code != "x" else None
            out += pack_value(code, val, little, native)
    return out


def fmt_size(items):
    size = 0
    for code, count in items:
        if code in CODES:
            size += CODES[code][0] * count
        elif code in FLOATS:
            size += FLOATS[code] * count
        elif code in "?xsc":
            size += count
        else:
            raise core.Unsupported("struct code " + code)
    return size


def do_unpack(fmt, elems):
    little, items = parse_fmt(fmt)
    if fmt_size(items) != len(elems):
        raise struct.error(
            f"unpack requires a buffer of {fmt_size(items)} bytes"
        )
    out = []
    pos = 0
    for code, count in items:
        if code == "s":
            out.append(SymBytes(elems[pos : pos + count], False))
            pos += count
            continue
        for _ in range(count):
            size = fmt_size([(code, 1)])
            if code != "x":
                out.append(unpack_value(code, elems[pos : pos + size], little))
            pos += size
    return tuple(out)


@model(struct.pack)
def m_pack(fmt, *vals):
    return SymBytes(do_pack(fmt, vals), False)


@model(struct.pack_into)
def m_pack_into(fmt, buf, offset, *vals):
    elems = do_pack(fmt, vals)
    offset = real(offset)
    if type(buf) is not SymBytes:
        data = bytes(real(byte_val(x)) for x in elems)
        struct.pack_into(f"{len(data)}s", buf, offset, data)
        return
    if not buf.mut:
        raise TypeError("Object is not writable.")
    if offset < 0:
        offset += len(buf.el)
    if offset < 0 or offset + len(elems) > len(buf.el):
        raise struct.error("pack_into requires a larger buffer")
    buf.el[offset : offset + len(elems)] = elems


@model(struct.unpack)
def m_unpack(fmt, buf):
    return do_unpack(fmt, elems_of(buf))


@model(struct.unpack_from)
def m_unpack_from(fmt, buffer, offset=0):
    _, items = parse_fmt(fmt)
    offset = real(offset)
    elems = elems_of(buffer)
    size = fmt_size(items)
    if offset + size > len(elems):
        raise struct.error("unpack_from requires a larger buffer")
    return do_unpack(fmt, elems[offset : offset + size])


@model(struct.calcsize)
def m_calcsize(fmt):
    return struct.calcsize(real(fmt))


class SymStruct:
    """struct.Struct."""

    def __init__(self, fmt) -> None:
        self.format = fmt
        self.size = struct.calcsize(fmt)

    def pack(self, *vals):
        return m_pack(self.format, *vals)

    def pack_into(self, buf, offset, *vals):
        return m_pack_into(self.format, buf, offset, *vals)

    def unpack(self, buf):
        return m_unpack(self.format, buf)

    def unpack_from(self, buffer, offset=0):
        return m_unpack_from(self.format, buffer, offset)


@model(struct.Struct)
def m_struct(fmt):
    return SymStruct(real(fmt))


@model(int.from_bytes)
def m_from_bytes(data, byteorder="big", *, signed=False):
    elems = elems_of(data)
    if byteorder == "little":
        elems = elems[::-1]
    return unpack_int(elems, real(signed)) if elems else 0


# -- checksums ----------------------------------------------------------------------


@model(zlib.crc32, binascii.crc32)
def m_crc32(data, init=0):
    """
    CRC-32: computed for concrete data, otherwise an uninterpreted function
    that equals itself on equal data, and differs where the data differs in
    one byte only (CRC-32 detects every burst of up to 32 bits).
    """
    elems = elems_of(data)
    eng = cur()
    key = None
    if not is_sym(init):
        if all(type(x) is int for x in elems):
            res = zlib.crc32(bytes(elems), init)
        else:
            res = None
            # the elements stay alive in the list of calls
            key = ("crc", init, tuple(map(elem_key, elems)))
            if key in eng.crc_memo:
                return eng.crc_memo[key][0]
    else:
        res = None
    for old_elems, old_init, old_res in eng.crc_calls:
        if (
            len(old_elems) == len(elems)
            and same_init(old_init, init)
            and all(provably_same(a, b) for a, b in zip(old_elems, elems))
        ):
            if key is not None:
                eng.crc_memo[key] = (old_res, elems)
            return old_res
    if res is None:
        var = z3.Int(eng.fresh("crc"))
        eng.axiom(z3.And(var >= 0, var <= 0xFFFFFFFF))
        res = SymInt(var, 0, 0xFFFFFFFF)
    for old_elems, old_init, old_res in eng.crc_calls:
        if len(old_elems) != len(elems) or not same_init(old_init, init):
            continue
        if not is_sym(old_res) and not is_sym(res):
            continue
        diffs = []
        for left, right in zip(old_elems, elems):
            if not same_elem(left, right):
                diffs.append(
                    z3.Not(truth(byte_val(left) == byte_val(right)))
                )
        if len(diffs) > 64:
            continue
        equal = lift(old_res).e == lift(res).e
        count = z3.Sum([z3.If(d, 1, 0) for d in diffs])
        eng.axiom(z3.Implies(count == 0, equal))
        if eng.crc_burst:
            eng.axiom(z3.Implies(count == 1, z3.Not(equal)))
    eng.crc_calls.append((elems, init, res))
    if key is not None:
        eng.crc_memo[key] = (res, elems)
    return res


def elem_key(elem):
    """A key equal for structurally equal bytes."""
    if type(elem) is int:
        return elem
    if type(elem) is SymInt:
        return ("e", elem.e.get_id())
    return id(elem)


def provably_same(left, right) -> bool:
    """Whether two bytes are equal on this path, whatever the inputs."""
    if same_elem(left, right):
        return True
    if type(left) is int and type(right) is int:
        return False
    if type(left) is PackByte and type(right) is PackByte:
        lsrc, rsrc = left.src, right.src
        if (
            left.n == right.n
            and left.idx == right.idx
            and left.kind == right.kind
            and type(lsrc) is SymInt
            and type(rsrc) is SymInt
        ):
            return cur().entailed(lsrc.e, rsrc.e)
    if (type(left) is PackByte and left.kind not in ("i", "u")) or (
        type(right) is PackByte and right.kind not in ("i", "u")
    ):
        return False
    lval, rval = lift(byte_val(left)), lift(byte_val(right))
    return cur().entailed(lval.e, rval.e)


def same_init(left, right):
    """Whether two initial values are certainly the same."""
    if not is_sym(left) and not is_sym(right):
        return left == right
    return same_elem(left, right)


# -- json -------------------------------------------------------------------------


class SymJson(SymText):
    """A JSON document standing for a structure with symbolic values."""

    __slots__ = ("doc",)

    def __init__(self, doc) -> None:
        super().__init__([])
        self.doc = doc

    def real(self) -> str:
        return json.dumps(deep_real(self.doc))

    def __bool__(self):
        return True

    def encode(self, *_):
        return SymJsonBytes(self)

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        if type(other) is SymJson:
            return eq(self.doc, other.doc)
        return self.real() == other


def json_key(key):
    """The text a JSON encoder makes of a mapping key."""
    if isinstance(key, str):
        return key
    if type(key) is SymInt:
        return SymText([key])
    if key is True:
        return "true"
    if key is False:
        return "false"
    if key is None:
        return "null"
    if isinstance(key, (int, float)):
        return json.dumps(deep_real(key))
    raise TypeError(
        "keys must be str, int, float, bool or None, not "
        + key.__class__.__name__
    )


def to_doc(val, default, sort_keys, depth=0):
    """What json would encode, as a structure."""
    if depth > 50:
        raise ValueError("Circular reference detected")
    if val is None or isinstance(val, (str, int, float)):
        return val
    if isinstance(val, dict):
        keys = list(dict.keys(val))
        if sort_keys:
            kinds = {
                "str" if isinstance(k, str) else "num"
                if isinstance(k, (int, float))
                else "none"
                for k in keys
            }
            if len(kinds) > 1:
                raise TypeError(
                    "'<' not supported between instances of 'int' and 'str'"
                )
        out = {}
        for key in keys:
            set_key(
                out,
                json_key(key),
                to_doc(getitem(val, key), default, sort_keys, depth + 1),
            )
        return out
    if isinstance(val, (list, tuple)):
        return [to_doc(x, default, sort_keys, depth + 1) for x in val]
    return to_doc(default(val), default, sort_keys, depth + 1)


def no_default(val):
    raise TypeError(
        f"Object of type {val.__class__.__name__} is not JSON serializable"
    )


@model(json.dumps)
def m_dumps(obj, *, cls=None, default=None, sort_keys=False, **kwargs):
    if default is None:
        default = no_default if cls is None else cls().default
    doc = to_doc(obj, default, sort_keys)
    if not deep_sym(doc, 50):
        return json.dumps(
            obj, cls=cls, default=(None if cls else default),
            sort_keys=sort_keys, **kwargs
        )
    return SymJson(doc)


@model(json.dump)
def m_dump(obj, stream, **kwargs):
    stream.write(m_dumps(obj, **kwargs))


def from_doc(val):
    """A fresh structure, as json.loads would build."""
    if isinstance(val, dict):
        out: dict = {}
        for key, elem in dict.items(val):
            set_key(out, key, from_doc(elem))
        return out
    if isinstance(val, (list, tuple)):
        return [from_doc(x) for x in val]
    return val


@model(json.loads)
def m_loads(text, **kwargs):
    if type(text) is SymJson:
        return from_doc(text.doc)
    if type(text) is SymJsonBytes:
        return from_doc(text.text.doc)
    if is_sym(text):
        text = text.pinned() if type(text) is SymBytes else real(text)
    return json.loads(text, **kwargs)


@model(json.load)
def m_load(stream, **kwargs):
    return m_loads(stream.read(), **kwargs)


class SymJsonBytes(Sym):
    """The encoding of a symbolic JSON document (opaque)."""

    def __init__(self, text) -> None:
        self.text = text

    @property
    def __class__(self):
        return bytes

    def decode(self, *_):
        return self.text


class SymStringIO:
    """io.StringIO."""

    def __init__(self, initial="") -> None:
        self.parts = [initial] if not (type(initial) is str and not initial) else []
        self.pos = 0

    def write(self, text):
        self.parts.append(text)
        return 0

    def getvalue(self):
        if len(self.parts) == 1:
            return self.parts[0]
        return join_str("", self.parts) if any(
            is_sym(p) for p in self.parts
        ) else "".join(self.parts)

    def read(self, *_):
        return self.getvalue()

    def seek(self, pos, *_):
        return pos

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return None


@model(io.StringIO)
def m_stringio(initial="", newline="\n"):
    return SymStringIO(initial)


class SymBytesIO:
    """io.BytesIO."""

    def __init__(self, initial=b"") -> None:
        self.data = SymBytes(elems_of(initial), True)
        self.pos = 0
        self.closed = False

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, data):
        self._check()
        elems = elems_of(data)
        if elems is None:
            raise TypeError("a bytes-like object is required")
        self.data.el[self.pos : self.pos + len(elems)] = elems
        self.pos += len(elems)
        return len(elems)

    def read(self, size=-1):
        self._check()
        size = -1 if size is None else real(size)
        end = len(self.data.el) if size < 0 else self.pos + size
        out = SymBytes(self.data.el[self.pos : end], False)
        self.pos += len(out)
        return out

    def seek(self, pos, whence=0):
        base = {0: 0, 1: self.pos, 2: len(self.data.el)}[whence]
        self.pos = base + real(pos)
        return self.pos

    def tell(self):
        return self.pos

    def getvalue(self):
        self._check()
        return SymBytes(list(self.data.el), False)

    def truncate(self, size=None):
        size = self.pos if size is None else real(size)
        del self.data.el[size:]
        return size

    def flush(self):
        self._check()

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


@model(io.BytesIO)
def m_bytesio(initial=b""):
    return SymBytesIO(initial)


PATH_METHODS = ("open", "read_bytes", "write_bytes")

# -- files ------------------------------------------------------------------------


TOKEN_TEXT = "vsymint"
TOKEN_NUM = "vsymnum"


def int_token(val, prefix=TOKEN_TEXT) -> str:
    """
    A real name that stands for the digits of a symbolic integer; equal
    values have equal names (decided by forking).
    """
    tokens = cur().tokens
    for idx, old in enumerate(tokens):
        if old is val or old == val:
            return f"{prefix}{idx}"
    tokens.append(val)
    return f"{prefix}{len(tokens) - 1}"


def token_value(text):
    """The integer that a name stands for, None if it's another text."""
    for prefix in (TOKEN_TEXT, TOKEN_NUM):
        if text.startswith(prefix) and text[len(prefix) :].isdigit():
            return cur().tokens[int(text[len(prefix) :])]
    return None


def named(val):
    """Text with names for symbolic integers, for paths."""
    if type(val) is SymText and all(
        type(x) in (str, SymInt) for x in val.parts
    ):
        return "".join(
            x if type(x) is str else int_token(x) for x in val.parts
        )
    return val


def named_deep(val):
    """A document with names for symbolic integers."""
    if isinstance(val, dict):
        eng = cur()
        eng.identity_hash += 1
        try:
            items = list(dict.items(val))
        finally:
            eng.identity_hash -= 1
        return {named_deep(k): named_deep(v) for k, v in items}
    if isinstance(val, (list, tuple)):
        return [named_deep(x) for x in val]
    if type(val) is SymInt:
        return int_token(val, TOKEN_NUM)
    if type(val) is SymText:
        return real(named(val))
    return real(val)


def unnamed_deep(val):
    """A document as it was before 'named_deep'."""
    if isinstance(val, dict):
        for key in list(val):
            val[key] = unnamed_deep(val[key])
        return val
    if isinstance(val, list):
        return [unnamed_deep(x) for x in val]
    if type(val) is str and val.startswith(TOKEN_NUM):
        return token_value(val)
    return val


@model(os.path.join)
def m_join(*parts):
    return os.path.join(*[named(x) for x in parts])


def arbiter_method(name, func, args, kwargs):
    """vcorelib's reading and writing of directories of documents."""
    if name == "encode_directory":
        return func(args[0], named_deep(args[1]), *args[2:], **kwargs)
    if name == "decode_directory":
        res = func(*args, **kwargs)
        unnamed_deep(res.data)
        return res
    return func(*args, **kwargs)


RULES = {
    "type", "regex", "keysrules", "valuesrules", "required", "nullable",
    "min", "max", "minlength", "maxlength", "allowed",
}


def validate_doc(validator, document, *args, **kwargs):
    """cerberus' validation of a document with symbolic content."""
    schema = validator.schema
    if args or kwargs or not deep_sym(document, 50) or not all(
        rules_known(dict(schema[x])) for x in schema
    ):
        return validator.validate(deep_real(document), *args, **kwargs)
    if not isinstance(validator.allow_unknown, bool):
        raise NotImplementedError("rules for unknown fields")
    good = True
    fields = list(dict.keys(document))
    for key in fields:
        if is_sym(key):
            known = [x for x in schema if key == x]
        else:
            known = [key] if key in schema else []
        if known:
            key = known[0]
            val = raw_get(document, find_key(document, key)[0])
            if not conforms(val, dict(schema[key])):
                good = False
        elif not validator.allow_unknown:
            good = False
    for key in schema:
        if dict(schema[key]).get("required", validator.require_all):
            if find_key(document, key) is None:
                good = False
    return good


def rules_known(rules) -> bool:
    """Whether all rules for a field are modelled."""
    return set(rules) <= RULES and all(
        rules_known(dict(rules[x]))
        for x in ("keysrules", "valuesrules")
        if x in rules
    )


def conforms(val, rules) -> bool:
    """Whether a value obeys its rules."""
    if val is None:
        return bool(rules.get("nullable", False))
    if "type" in rules:
        kinds = rules["type"]
        kinds = [kinds] if isinstance(kinds, str) else kinds
        defs = [Validator.types_mapping[x] for x in kinds]
        if not any(
            isinstance(val, x.included_types)
            and not isinstance(val, x.excluded_types)
            for x in defs
        ):
            return False
    if "regex" in rules and isinstance(val, str):
        pattern = rules["regex"]
        if not pattern.endswith("$"):
            pattern += "$"
        if not call(re.match, pattern, val):
            return False
    if "min" in rules and val < rules["min"]:
        return False
    if "max" in rules and val > rules["max"]:
        return False
    if "minlength" in rules and len(val) < rules["minlength"]:
        return False
    if "maxlength" in rules and len(val) > rules["maxlength"]:
        return False
    if "allowed" in rules and not any(
        bool(val == x) for x in rules["allowed"]
    ):
        return False
    if isinstance(val, dict):
        for key, elem in pairs_of(val):
            if "keysrules" in rules:
                if not conforms(key, dict(rules["keysrules"])):
                    return False
            if "valuesrules" in rules:
                if not conforms(elem, dict(rules["valuesrules"])):
                    return False
    return True


class SymFile:
    """
    A binary file: symbolic content is kept aside, the real file holds a
    token for it (so that renaming, copying and listing work).
    """

    TOKEN = b"\0vsym-file-"

    def __init__(self, path, mode) -> None:
        self.name = path
        self.mode = mode
        self.raw = io.open(path, mode if "b" in mode else mode + "b")
        self.store = cur().files
        self.data: list = []
        self.pos = 0
        self.closed = False
        self.dirty = False
        if "r" in mode or "a" in mode or "+" in mode:
            with io.open(path, "rb") as stream:
                data = stream.read()
            self.data = list(self.store.get(data, data))
        if "a" in mode:
            self.pos = len(self.data)

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, data):
        self._check()
        if "r" in self.mode and "+" not in self.mode:
            raise io.UnsupportedOperation("write")
        elems = elems_of(data)
        if elems is None:
            raise TypeError("a bytes-like object is required")
        self.data[self.pos : self.pos + len(elems)] = elems
        self.pos += len(elems)
        self.dirty = True
        return len(elems)

    def read(self, size=-1):
        self._check()
        if "r" not in self.mode and "+" not in self.mode:
            raise io.UnsupportedOperation("read")
        size = -1 if size is None else real(size)
        end = len(self.data) if size < 0 else self.pos + size
        out = SymBytes(self.data[self.pos : end], False)
        self.pos += len(out)
        return out

    def seek(self, pos, whence=0):
        self._check()
        base = {0: 0, 1: self.pos, 2: len(self.data)}[whence]
        self.pos = base + real(pos)
        return self.pos

    def tell(self):
        self._check()
        return self.pos

    def flush(self):
        self._check()
        if not self.dirty:
            return
        if not SymBytes(self.data, False).concrete():
            data = self.TOKEN + str(len(self.store)).encode() + b"\0"
            self.store[data] = list(self.data)
        else:
            data = bytes(byte_val(x) for x in self.data)
        with io.open(self.name, "wb") as stream:
            stream.write(data)
        self.dirty = False

    def close(self):
        if not self.closed:
            self.flush()
            self.closed = True
            self.raw.close()

    def fileno(self):
        return self.raw.fileno()

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return not self.readable() or "+" in self.mode

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *_):
        self.close()


@model(open)
def m_open(file, mode="r", *args, **kwargs):
    if "b" not in mode or not isinstance(file, (str, os.PathLike)):
        return io.open(file, mode, *args, **kwargs)
    return SymFile(os.fspath(file), mode)


def path_method(obj, name, func, args, kwargs):
    """A method of a path that reads or writes its file."""
    if name == "open":
        return m_open(obj, *args, **kwargs)
    if name == "read_bytes":
        with SymFile(os.fspath(obj), "rb") as stream:
            return stream.read()
    if name == "write_bytes" and any_sym(args, kwargs):
        with SymFile(os.fspath(obj), "wb") as stream:
            return stream.write(args[0])
    return func(*args, **kwargs)


# -- containers --------------------------------------------------------------------


def has_sym_key(mapping) -> bool:
    """Whether a dict or set holds symbolic keys."""
    for key in mapping:
        if hash_sym(key):
            return True
    return False


def hash_sym(key) -> bool:
    """Whether a key is, or contains, a symbolic value."""
    typ = type(key)
    if typ in SYM_SET:
        return not (typ is SymBytes and key.concrete())
    if typ is tuple:
        return any(hash_sym(x) for x in key)
    return False


def find_key(mapping, key):
    """
    The stored key equal to 'key' (as a one-element list) or None; forks on
    equality where that is symbolic.
    """
    if isinstance(key, (list, dict, set)) or (
        type(key) is SymBytes and key.mut
    ):
        raise TypeError(f"unhashable type: '{key.__class__.__name__}'")
    if not hash_sym(key):
        if type(key) is SymBytes:
            key = bytes(key.el)
        eng = cur()
        eng.identity_hash += 1
        try:
            syms = [k for k in mapping if hash_sym(k)]
        finally:
            eng.identity_hash -= 1
        if not syms:
            hash(key)
            for_real = dict if isinstance(mapping, dict) else set
            if for_real is dict:
                return [key] if dict.__contains__(mapping, key) else None
            return [key] if set.__contains__(set(mapping), key) else None
    for old in list(mapping):
        if old is key:
            return [old]
        res = old == key
        if res is NotImplemented:
            continue
        if res:
            return [old]
    return None


def set_key(mapping, key, val):
    """mapping[key] = val for dicts."""
    if not hash_sym(key) and not has_sym_key(mapping):
        if type(key) is SymBytes:
            key = bytes(key.el)
        dict.__setitem__(mapping, key, val)
        return
    found = find_key(mapping, key)
    eng = cur()
    eng.identity_hash += 1
    try:
        dict.__setitem__(mapping, key if found is None else found[0], val)
    finally:
        eng.identity_hash -= 1


def raw_get(mapping, key):
    eng = cur()
    eng.identity_hash += 1
    try:
        return dict.__getitem__(mapping, key)
    finally:
        eng.identity_hash -= 1


def raw_del(mapping, key):
    eng = cur()
    eng.identity_hash += 1
    try:
        dict.__delitem__(mapping, key)
    finally:
        eng.identity_hash -= 1


def native_dict(obj) -> bool:
    """Whether an object's item access is dict's (or defaultdict's)."""
    return isinstance(obj, dict) and type(obj).__getitem__ in (
        dict.__getitem__,
        collections.OrderedDict.__getitem__,
    )


def getitem(obj, key):
    """obj[key]."""
    if core.E is None:
        return obj[key]
    if native_dict(obj) and (hash_sym(key) or has_sym_key(obj)):
        found = find_key(obj, key)
        if found is not None:
            return raw_get(obj, found[0])
        factory = getattr(obj, "default_factory", None)
        if factory is not None:
            val = factory()
            set_key(obj, key, val)
            return val
        if hasattr(type(obj), "__missing__") and factory is None and not (
            isinstance(obj, collections.defaultdict)
        ):
            return obj.__missing__(key)
        raise KeyError(key)
    if type(key) in SYM_SET:
        if isinstance(obj, (list, tuple, str)) and type(obj) not in SYM_SET:
            if not isinstance(key, int):
                return obj[real(key)]
            return obj[lookup_index(obj, key)]
        if isinstance(obj, (bytes, bytearray, range)) and (
            type(obj) not in SYM_SET
        ):
            return obj[real(key)]
    elif type(key) is slice and type(obj) not in SYM_SET:
        if any(
            type(x) in SYM_SET for x in (key.start, key.stop, key.step)
        ):
            key = slice(real(key.start), real(key.stop), real(key.step))
    return obj[key]


def lookup_index(obj, key):
    """A real index for a symbolic one, an IndexError if out of range."""
    size = len(obj)
    if not (key < size and key >= -size):
        raise IndexError("index out of range")
    return real(key)


def setitem(obj, key, val):
    """obj[key] = val."""
    if core.E is None:
        obj[key] = val
        return
    if isinstance(obj, dict) and type(obj).__setitem__ in (
        dict.__setitem__,
        collections.OrderedDict.__setitem__,
    ):
        set_key(obj, key, val)
        return
    if type(key) in SYM_SET and isinstance(obj, list):
        obj[lookup_index(obj, key)] = val
        return
    obj[key] = val


def delitem(obj, key):
    """del obj[key]."""
    if core.E is None:
        del obj[key]
        return
    if native_dict(obj):
        if hash_sym(key) or has_sym_key(obj):
            found = find_key(obj, key)
            if found is None:
                raise KeyError(key)
            raw_del(obj, found[0])
            return
    if type(key) in SYM_SET and isinstance(obj, list):
        del obj[lookup_index(obj, key)]
        return
    del obj[key]


def contains(obj, item):
    """item in obj."""
    if core.E is None:
        return item in obj
    if isinstance(obj, (dict, set, frozenset)) and type(obj) not in SYM_SET:
        over = type(obj).__contains__
        if over in (
            dict.__contains__,
            set.__contains__,
            frozenset.__contains__,
        ):
            if hash_sym(item) or has_sym_key(obj):
                return find_key(obj, item) is not None
            return item in obj
    if isinstance(obj, (type({}.keys()), type({}.items()))):
        if deep_sym(item):
            return any(bool(x == item) for x in obj)
    if isinstance(obj, str) and type(obj) not in SYM_SET and is_sym(item):
        if type(item) in (SymStr, SymText):
            return SymStr([ord(c) for c in obj]).find(item) >= 0
    if isinstance(obj, (bytes, bytearray)) and type(obj) not in SYM_SET:
        if is_sym(item):
            return SymBytes(list(obj), False).__contains__(item)
    if isinstance(obj, EnumMeta) and is_sym(item):
        return any(bool(item == x.value) for x in obj)
    return item in obj


def pairs_of(src) -> list:
    """Key-value pairs of what a dict can be made from."""
    if isinstance(src, dict):
        return [(k, raw_get(src, k)) for k in list(src)]
    if hasattr(src, "keys"):
        return [(k, src[k]) for k in src.keys()]
    return [tuple(x) for x in src]


def m_dict(*args, **kwargs):
    """dict(...)"""
    return fill_dict({}, *args, **kwargs)


def fill_dict(out, *args, **kwargs):
    if len(args) > 1:
        raise TypeError("dict expected at most 1 argument")
    for src in args:
        for key, val in pairs_of(src):
            set_key(out, key, val)
    out.update(kwargs)
    return out


def m_defaultdict(*args, **kwargs):
    """defaultdict(...)"""
    return fill_dict(
        collections.defaultdict(*args[:1]), *args[1:], **kwargs
    )


def m_ordereddict(*args, **kwargs):
    """OrderedDict(...)"""
    return fill_dict(collections.OrderedDict(), *args, **kwargs)


def mkdict(pairs):
    """A dict from pairs."""
    if core.E is None:
        return dict(pairs)
    out: dict = {}
    for key, val in pairs:
        set_key(out, key, val)
    return out


def mkdict3(items):
    """A dict display: (key, value, whether value is unpacked)."""
    out: dict = {}
    for key, val, unpack in items:
        if unpack:
            for old, elem in pairs_of(val):
                if core.E is None:
                    out[old] = elem
                else:
                    set_key(out, old, elem)
        elif core.E is None:
            out[key] = val
        else:
            set_key(out, key, val)
    return out


def mkset(items):
    """A set from its elements."""
    if core.E is None:
        return set(items)
    out: set = set()
    for item in items:
        if hash_sym(item) or has_sym_key(out):
            set_method(out, "add", (item,))
        else:
            out.add(item)
    return out


def m_set(*args):
    """set(...)"""
    if not args:
        return set()
    if isinstance(args[0], (str, bytes)) or is_sym(args[0]):
        return set(args[0])
    return mkset(list(args[0]))


def eq(left, right):
    """left == right"""
    if isinstance(left, (dict, list, tuple)) and core.E is not None:
        if isinstance(right, (dict, list, tuple)) and deep_key(left, right):
            return same_deep(left, right)
    return left == right


def ne(left, right):
    """left != right"""
    if isinstance(left, (dict, list, tuple)) and core.E is not None:
        if isinstance(right, (dict, list, tuple)) and deep_key(left, right):
            return not_(same_deep(left, right))
    return left != right


def deep_key(left, right) -> bool:
    """Whether there are mappings with symbolic keys in either."""
    todo = [left, right]
    while todo:
        val = todo.pop()
        if isinstance(val, dict):
            if has_sym_key(val):
                return True
            todo.extend(
                x for x in dict.values(val)
                if isinstance(x, (dict, list, tuple))
            )
        elif isinstance(val, (list, tuple)):
            todo.extend(x for x in val if isinstance(x, (dict, list, tuple)))
    return False


def same_deep(left, right) -> bool:
    """Structural equality, deciding equality of symbolic keys by forks."""
    if isinstance(left, dict) and isinstance(right, dict):
        if len(left) != len(right):
            return False
        for key, val in pairs_of(left):
            found = find_key(right, key)
            if found is None or not same_deep(val, raw_get(right, found[0])):
                return False
        return True
    for kind in (list, tuple):
        if isinstance(left, kind) and isinstance(right, kind):
            return len(left) == len(right) and all(
                same_deep(x, y) for x, y in zip(left, right)
            )
    return bool(left == right)


def dict_method(obj, name, args, kwargs):
    """A method of a dict that takes a key."""
    key = args[0]
    if name in ("get", "pop", "setdefault"):
        found = find_key(obj, key)
        if name == "setdefault":
            if found is not None:
                return raw_get(obj, found[0])
            val = args[1] if len(args) > 1 else None
            set_key(obj, key, val)
            return val
        if found is None:
            if name == "get" or len(args) > 1:
                return args[1] if len(args) > 1 else None
            raise KeyError(key)
        val = raw_get(obj, found[0])
        if name == "pop":
            raw_del(obj, found[0])
        return val
    if name == "__contains__":
        return find_key(obj, key) is not None
    if name == "__getitem__":
        return getitem(obj, key)
    return NotImplemented


def set_method(obj, name, args):
    """A method of a set that takes an element."""
    item = args[0]
    found = find_key(obj, item)
    eng = cur()
    eng.identity_hash += 1
    try:
        if name == "add":
            if found is None:
                set.add(obj, item)
            return None
        if found is None:
            if name == "remove":
                raise KeyError(item)
            return None
        set.discard(obj, found[0])
        return None
    finally:
        eng.identity_hash -= 1


# -- calls ------------------------------------------------------------------------

PYTHON_CALLABLES = (types.FunctionType, types.MethodType)
LOG_METHODS = {
    "debug",
    "info",
    "warning",
    "warn",
    "error",
    "critical",
    "exception",
    "log",
}
# methods of containers that only store or move their arguments
STORING = {
    "append",
    "appendleft",
    "insert",
    "extend",
    "put",
    "put_nowait",
    "send",
    "update",
    "copy",
    "items",
    "keys",
    "values",
    "clear",
    "reverse",
    "popleft",
    "popitem",
    "pop",
    "index",
    "count",
    "remove",
    "sort",
    "union",
    "fromkeys",
    "_replace",
    "_make",
    "_asdict",
}
# built-in callables that keep symbolic arguments as they are
TRANSPARENT = {
    list,
    tuple,
    dict,
    set,
    frozenset,
    enumerate,
    zip,
    map,
    filter,
    iter,
    next,
    reversed,
    getattr,
    setattr,
    hasattr,
    delattr,
    callable,
    id,
    super,
    property,
    staticmethod,
    classmethod,
    object,
    slice,
    collections.deque,
    collections.defaultdict,
    collections.OrderedDict,
    issubclass,
    object.__setattr__,
    tuple.__new__,
    object.__new__,
}


def call(func, *args, **kwargs):
    """func(*args, **kwargs) as the instrumented code calls it."""
    if core.E is None:
        return func(*args, **kwargs)
    typ = type(func)
    if typ is types.FunctionType:
        mod_ = MODELS.get(func)
        if mod_ is not None:
            return mod_(*args, **kwargs)
        return func(*args, **kwargs)
    if typ is types.MethodType:
        obj = func.__self__
        if isinstance(obj, logging.Logger) and (
            func.__name__ in LOG_METHODS
        ):
            return None
        if obj is random._inst and func.__name__ == "randint":
            return m_randint(*args, **kwargs)
        if isinstance(obj, pathlib.Path) and func.__name__ in PATH_METHODS:
            return path_method(obj, func.__name__, func, args, kwargs)
        if func.__name__ == "validate" and isinstance(obj, Validator):
            return validate_doc(obj, *args, **kwargs)
        if func.__name__.endswith("code_directory"):
            return arbiter_method(func.__name__, func, args, kwargs)
        return func(*args, **kwargs)
    if typ is types.BuiltinFunctionType:
        mod_ = MODELS.get(func)
        if mod_ is not None:
            return mod_(*args, **kwargs)
        return call_builtin(func, args, kwargs)
    if isinstance(func, type):
        try:
            mod_ = MODELS.get(func)
        except TypeError:
            mod_ = None
        if mod_ is not None:
            return mod_(*args, **kwargs)
        if isinstance(func, EnumMeta):
            if len(args) == 1 and type(args[0]) in SYM_SET and not kwargs:
                return enum_call(func, args[0])
            return func(*args, **kwargs)
        if func.__module__ == "builtins" and any_sym(args, kwargs):
            if func is frozenset:
                return func(args[0])
            if issubclass(func, BaseException) or func in TRANSPARENT:
                return func(*args, **kwargs)
            return func(
                *[real(x) for x in args],
                **{k: real(v) for k, v in kwargs.items()},
            )
        return func(*args, **kwargs)
    if typ is CACHED:
        mod_ = MODELS.get(func)
        if mod_ is not None:
            return mod_(*args, **kwargs)
        if any_sym(args, kwargs):
            return func.__wrapped__(*args, **kwargs)
    return func(*args, **kwargs)


CACHED = type(functools.lru_cache(lambda: None))


def enum_call(cls, val):
    """Look up an enumeration member by symbolic value."""
    for member in cls:
        if val == member.value:
            return member
    raise ValueError(f"value is not a valid {cls.__qualname__}")


def call_builtin(func, args, kwargs):
    """A C function or a bound C method."""
    obj = getattr(func, "__self__", None)
    name = func.__name__
    if obj is None or isinstance(obj, types.ModuleType):
        if func in TRANSPARENT or not any_sym(args, kwargs):
            return func(*args, **kwargs)
        return call_real(func, args, kwargs)
    if isinstance(obj, dict):
        if args and name in (
            "get",
            "pop",
            "setdefault",
            "__contains__",
            "__getitem__",
        ):
            if hash_sym(args[0]) or has_sym_key(obj):
                res = dict_method(obj, name, args, kwargs)
                if res is not NotImplemented:
                    return res
        elif name == "update":
            if args:
                src = args[0]
                pairs = (
                    [(k, raw_get(src, k)) for k in list(src)]
                    if isinstance(src, dict)
                    else list(src)
                )
                for key, val in pairs:
                    set_key(obj, key, val)
            for key, val in kwargs.items():
                set_key(obj, key, val)
            return None
        elif name == "__setitem__":
            return setitem(obj, *args)
        return func(*args, **kwargs)
    if isinstance(obj, set) and name in ("add", "discard", "remove"):
        if hash_sym(args[0]) or has_sym_key(obj):
            return set_method(obj, name, args)
        return func(*args, **kwargs)
    if isinstance(obj, (list, collections.deque)):
        if name in ("pop", "insert") and args and is_sym(args[0]):
            args = (real(args[0]),) + args[1:]
        return func(*args, **kwargs)
    if isinstance(obj, str):
        return str_method(obj, name, func, args, kwargs)
    if isinstance(obj, re.Pattern):
        if any(type(x) in (SymStr, SymText) for x in args):
            res = sre.method(obj, name, args, kwargs)
            if res is not NotImplemented:
                return res
    if isinstance(obj, (bytes, bytearray)):
        if name == "join":
            parts = list(args[0])
            if any(is_sym(p) for p in parts):
                return SymBytes(
                    list(obj), isinstance(obj, bytearray)
                ).join(parts)
            return func(parts)
        if name == "decode" or not any_sym(args, kwargs):
            return func(*args, **kwargs)
        meth = getattr(
            SymBytes(list(obj), isinstance(obj, bytearray)), name
        )
        if name in ("extend", "append"):
            obj.extend(
                real(x) for x in (
                    args[0] if name == "extend" else [args[0]]
                )
            )
            return None
        return meth(*args, **kwargs)
    if name in STORING or not any_sym(args, kwargs):
        return func(*args, **kwargs)
    if func in TRANSPARENT:
        return func(*args, **kwargs)
    if isinstance(obj, type) and name in ("__new__", "fromkeys"):
        return func(*args, **kwargs)
    return call_real(func, args, kwargs)


def call_real(func, args, kwargs):
    """Call C code that isn't modelled, with real values."""
    eng = cur()
    key = f"call of {getattr(func, '__qualname__', func)}"
    eng.stats.unsupported[key] = eng.stats.unsupported.get(key, 0) + 1
    return func(
        *[real(x) for x in args], **{k: real(v) for k, v in kwargs.items()}
    )


def str_method(obj, name, func, args, kwargs):
    """A method of a real str."""
    if name == "join":
        parts = list(args[0])
        if any(is_sym(p) for p in parts):
            return join_str(obj, parts)
        return func(parts)
    if name == "format":
        if any_sym(args, kwargs):
            return func(
                *[deep_pin(x) for x in args],
                **{k: deep_pin(v) for k, v in kwargs.items()},
            )
        return func(*args, **kwargs)
    if any_sym(args, kwargs):
        meth = getattr(SymStr([ord(c) for c in obj]), name)
        return meth(*args, **kwargs)
    if name == "encode":
        return SymBytes(list(func(*args, **kwargs)), False)
    return func(*args, **kwargs)


def m_re(func):
    """A function of 're' on symbolic text."""
    name = func.__name__
    num = {"sub": 3, "subn": 3}.get(name, 2)

    def run(pattern, *args, **kwargs):
        if not any(type(x) in (SymStr, SymText) for x in args):
            return func(pattern, *args, **kwargs)
        flags = kwargs.pop("flags", 0)
        if name in ("sub", "subn", "split"):
            if len(args) > num:
                flags = args[num]
                args = args[:num]
        elif len(args) > num - 1:
            flags = args[num - 1]
            args = args[: num - 1]
        comp = re.compile(real(pattern), flags)
        return sre.method(comp, name, args, kwargs)

    return run


RE_NAMES = (
    "match search fullmatch split findall finditer sub subn".split()
)
for _name in RE_NAMES:
    MODELS[getattr(re, _name)] = m_re(getattr(re, _name))


COPIES: Dict[str, Any] = {}


def stdlib(name):
    """An instrumented copy of a module of the standard library."""
    if name not in COPIES:
        from . import instrument

        orig = importlib.import_module(name)
        out = types.ModuleType(name)
        out.__dict__["__file__"] = orig.__file__
        out.__dict__["__package__"] = orig.__package__
        out.__dict__[instrument.HOOK] = Hooks
        code = instrument.compile_source(orig.__file__, name, "sym")
        saved, core.E = core.E, None
        try:
            exec(code, out.__dict__)  # pylint: disable=exec-used
        finally:
            core.E = saved
        COPIES[name] = out
    return COPIES[name]


def m_unquote(string, encoding="utf-8", errors="replace"):
    """urllib.parse.unquote of symbolic text."""
    if type(string) is not SymStr:
        return urllib.parse.unquote(string, encoding, errors)
    out: list = []
    raw: list = []

    def flush():
        if raw:
            text = SymBytes(list(raw), False).decode(encoding, errors)
            out.extend(chars_of(text))
            raw.clear()

    def digit(char):
        """(whether it's a digit, its value)"""
        runs = [(48, 57, 48), (65, 70, 55), (97, 102, 87)]
        if not bool(sre.within(char, [x[:2] for x in runs])):
            return None
        for low, high, base in runs:
            if bool(sre.within(char, [(low, high)])):
                return char - base
        return None

    idx = 0
    chars = string.ch
    while idx < len(chars):
        char = chars[idx]
        if bool(char == 37) and idx + 2 < len(chars):
            left = digit(chars[idx + 1])
            right = digit(chars[idx + 2]) if left is not None else None
            if right is not None:
                raw.append(left * 16 + right)
                idx += 3
                continue
        flush()
        out.append(char)
        idx += 1
    flush()
    return mkstr(out)


def m_unquote_plus(string, encoding="utf-8", errors="replace"):
    """urllib.parse.unquote_plus."""
    return m_unquote(string.replace("+", " "), encoding, errors)


def m_url(name):
    """A function of urllib.parse."""
    func = getattr(urllib.parse, name)

    def run(*args, **kwargs):
        if not any_sym(args, kwargs):
            return func(*args, **kwargs)
        mod_ = stdlib("urllib.parse")
        mod_.unquote = m_unquote
        mod_.unquote_plus = m_unquote_plus
        return getattr(mod_, name)(*args, **kwargs)

    return run


for _name in ("urlparse", "urlsplit", "parse_qs", "parse_qsl", "urlunparse"):
    MODELS[getattr(urllib.parse, _name)] = m_url(_name)
MODELS[urllib.parse.unquote] = m_unquote
MODELS[urllib.parse.unquote_plus] = m_unquote_plus


MODELS[dict] = m_dict
MODELS[set] = m_set
MODELS[collections.defaultdict] = m_defaultdict
MODELS[collections.OrderedDict] = m_ordereddict


# -- exported to instrumented modules ---------------------------------------------


class Hooks:
    """The '__vp__' object of instrumented modules."""

    call = staticmethod(call)
    getitem = staticmethod(getitem)
    setitem = staticmethod(setitem)
    delitem = staticmethod(delitem)
    slice = slice
    mkdict = staticmethod(mkdict)
    mkdict3 = staticmethod(mkdict3)
    mkset = staticmethod(mkset)
    eq = staticmethod(eq)
    ne = staticmethod(ne)

    @staticmethod
    def r_contains(item, obj):
        return contains(obj, item)

    @staticmethod
    def r_not_contains(item, obj):
        return not_(contains(obj, item))

    @staticmethod
    def yield_(_where) -> None:
        return None

    fstr = staticmethod(fstr)
    mod = staticmethod(mod)
    not_ = staticmethod(not_)
    functions: set = set()

    @staticmethod
    def enter(name) -> None:
        Hooks.functions.add(name)
