"""
vsym.values - symbolic stand-ins for Python values.

Each class reports the class it stands for through '__class__', so that
'isinstance' in the code under test behaves; a symbolic condition forks the
path in '__bool__'; anything that C code needs as a real value is concretised
(forking over all feasible values) or, where only text depends on it, pinned.
"""

from enum import Enum
from fractions import Fraction
import math
import struct
from typing import Any, List, Optional

from . import core
from .core import cur, z3

FP64 = z3.Float64()
FP32 = z3.Float32()
RNE = z3.RNE()
EXACT = 1 << 53


class Sym:
    """Base of every symbolic value."""

    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, _):
        raise core.Unsupported("pickling")


# -- booleans -----------------------------------------------------------------


class SymBool(Sym):
    """A symbolic bool."""

    __slots__ = ("e",)

    def __init__(self, e) -> None:
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self) -> bool:
        return cur().branch(self.e)

    def as_int(self) -> "SymInt":
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def _rel(self, other, op):
        oth = bool_term(other)
        if oth is not None:
            return mkbool(op(self.e, oth))
        return None

    def __eq__(self, other):
        if isinstance(other, bool):
            return mkbool(self.e == bool_term(other))
        return self.as_int() == other

    def __ne__(self, other):
        return not_(self.__eq__(other))

    def __and__(self, other):
        if isinstance(other, bool):
            return mkbool(z3.And(self.e, bool_term(other)))
        return self.as_int() & other

    __rand__ = __and__

    def __or__(self, other):
        if isinstance(other, bool):
            return mkbool(z3.Or(self.e, bool_term(other)))
        return self.as_int() | other

    __ror__ = __or__

    def __xor__(self, other):
        if isinstance(other, bool):
            return mkbool(z3.Xor(self.e, bool_term(other)))
        return self.as_int() ^ other

    __rxor__ = __xor__

    def __hash__(self):
        if cur().identity_hash:
            return id(self)
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __neg__(self):
        return -self.as_int()

    def __pos__(self):
        return self.as_int()

    def __abs__(self):
        return self.as_int()

    def __invert__(self):
        return ~self.as_int()


def _boolint(name):
    def oper(self, other):
        return getattr(self.as_int(), name)(other)

    oper.__name__ = name
    return oper


for _name in (
    "__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __floordiv__ "
    "__rfloordiv__ __mod__ __rmod__ __truediv__ __rtruediv__ __lt__ __le__ "
    "__gt__ __ge__ __lshift__ __rlshift__ __rshift__ __rrshift__ __pow__ "
    "__rpow__"
).split():
    setattr(SymBool, _name, _boolint(_name))


def mkbool(e):
    """Wrap a z3 Bool, folding literals."""
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bool_term(val):
    """z3 Bool of a bool value."""
    if type(val) is SymBool:
        return val.e
    if type(val) is bool:
        return z3.BoolVal(val)
    return None


def not_(val):
    """Logical not without forking where possible."""
    if type(val) is SymBool:
        return mkbool(z3.Not(val.e))
    if val is NotImplemented:
        return val
    return not val


def truth(val):
    """z3 Bool for the truth of a value, without forking."""
    if type(val) is SymBool:
        return val.e
    if type(val) is SymInt:
        return val.e != 0
    return z3.BoolVal(bool(val))


# -- integers -----------------------------------------------------------------


class SymInt(Sym):
    """A symbolic int with optional static bounds."""

    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo: Optional[int] = None, hi: Optional[int] = None):
        self.e = e
        self.lo = lo
        self.hi = hi

    @property
    def __class__(self):
        return int

    # conversions
    def real(self) -> int:
        return cur().concretize(self.e, "int").as_long()

    def __bool__(self):
        if (self.lo is not None and self.lo > 0) or (
            self.hi is not None and self.hi < 0
        ):
            return True
        return cur().branch(self.e != 0)

    def __index__(self):
        return self.real()

    __int__ = __index__

    def __hash__(self):
        if cur().identity_hash:
            return id(self)
        return hash(self.real())

    def __float__(self):
        return float(self.real())

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    def text_real(self) -> int:
        if (
            self.lo is not None
            and self.hi is not None
            and self.hi - self.lo < 16
        ):
            return self.real()
        return cur().pin(self.e, "text of an int").as_long()

    def __str__(self):
        return str(self.text_real())

    __repr__ = __str__

    def __format__(self, spec):
        return format(self.text_real(), spec)

    # arithmetic
    def __add__(self, other):
        if isinstance(other, int):
            oe, ol, oh = int_parts(other)
            return mkint(self.e + oe, badd(self.lo, ol), badd(self.hi, oh))
        if isinstance(other, float):
            return to_float(self) + other
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, other):
        if isinstance(other, int):
            oe, ol, oh = int_parts(other)
            return mkint(self.e - oe, bsub(self.lo, oh), bsub(self.hi, ol))
        if isinstance(other, float):
            return to_float(self) - other
        return NotImplemented

    def __rsub__(self, other):
        if isinstance(other, int):
            return lift(other) - self
        if isinstance(other, float):
            return other - to_float(self)
        return NotImplemented

    def __mul__(self, other):
        if isinstance(other, int):
            oe, ol, oh = int_parts(other)
            lo, hi = bmul(self.lo, self.hi, ol, oh)
            return mkint(self.e * oe, lo, hi)
        if isinstance(other, float):
            return to_float(self) * other
        if isinstance(other, (str, list, tuple, bytes, bytearray)):
            return other * self.real()
        return NotImplemented

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(
            -self.e,
            None if self.hi is None else -self.hi,
            None if self.lo is None else -self.lo,
        )

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        if self.hi is not None and self.hi <= 0:
            return -self
        hi = None
        if self.lo is not None and self.hi is not None:
            hi = max(abs(self.lo), abs(self.hi))
        return mkint(z3.If(self.e >= 0, self.e, -self.e), 0, hi)

    def __divmod__(self, other):
        return self // other, self % other

    def __rdivmod__(self, other):
        return lift(other).__divmod__(self)

    def __floordiv__(self, other):
        if isinstance(other, int):
            return divmod_(self, other)[0]
        if isinstance(other, float):
            return to_float(self) // other
        return NotImplemented

    def __rfloordiv__(self, other):
        if isinstance(other, int):
            return divmod_(lift(other), self)[0]
        return NotImplemented

    def __mod__(self, other):
        if isinstance(other, int):
            return divmod_(self, other)[1]
        if isinstance(other, float):
            return to_float(self) % other
        return NotImplemented

    def __rmod__(self, other):
        if isinstance(other, int):
            return divmod_(lift(other), self)[1]
        return NotImplemented

    def __truediv__(self, other):
        if isinstance(other, int):
            if other == 0:
                raise ZeroDivisionError("division by zero")
            return mkquot(self, other)
        if isinstance(other, float):
            return to_float(self) / other
        return NotImplemented

    def __rtruediv__(self, other):
        if isinstance(other, int):
            if self == 0:
                raise ZeroDivisionError("division by zero")
            return mkquot(other, self)
        if isinstance(other, float):
            return other / to_float(self)
        return NotImplemented

    def __pow__(self, other, mod=None):
        if mod is None and isinstance(other, int):
            exp = int(other)
            if 0 <= exp <= 4:
                res: Any = 1
                for _ in range(exp):
                    res = res * self
                return res
        return pow(self.real(), real(other), mod)

    def __rpow__(self, other):
        return real(other) ** self.real()

    def __lshift__(self, other):
        return self * (1 << int(other))

    def __rlshift__(self, other):
        return real(other) << self.real()

    def __rshift__(self, other):
        return self // (1 << int(other))

    def __rrshift__(self, other):
        return real(other) >> self.real()

    def __invert__(self):
        return -self - 1

    def __and__(self, other):
        if not isinstance(other, int):
            return NotImplemented
        if type(other) is bool:
            other = int(other)
        if type(other) is int and other >= 0:
            # masks that are a contiguous run of bits
            if other == 0:
                return 0
            low = (other & -other).bit_length() - 1
            run = other >> low
            if run & (run + 1) == 0:
                part = (self >> low) % (run + 1)
                return part * (1 << low)
        return bitop(self, other, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, other):
        if not isinstance(other, int):
            return NotImplemented
        if type(other) is int and other == 0:
            return self
        return bitop(self, other, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, other):
        if not isinstance(other, int):
            return NotImplemented
        return bitop(self, other, lambda a, b: a ^ b)

    __rxor__ = __xor__

    # comparisons
    def _cmp(self, other, name):
        if isinstance(other, int):
            oe, ol, oh = int_parts(other)
            known = bcmp(name, self.lo, self.hi, ol, oh)
            if known is not None:
                return known
            return mkbool(getattr(self.e, name)(oe))
        if isinstance(other, float):
            if type(other) is float:
                return cmp_int_float(self, other, name)
            return getattr(to_float(self), name)(other)
        if type(other) is SymQuot:
            return getattr(SymQuot(self, 1), name)(other)
        if name == "__eq__":
            return False
        if name == "__ne__":
            return True
        return NotImplemented

    def __eq__(self, other):
        return self._cmp(other, "__eq__")

    def __ne__(self, other):
        return self._cmp(other, "__ne__")

    def __lt__(self, other):
        return self._cmp(other, "__lt__")

    def __le__(self, other):
        return self._cmp(other, "__le__")

    def __gt__(self, other):
        return self._cmp(other, "__gt__")

    def __ge__(self, other):
        return self._cmp(other, "__ge__")

    # int methods
    def bit_length(self):
        return self.real().bit_length()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        return int_to_bytes(self, length, byteorder, signed)

    def as_integer_ratio(self):
        return self, 1

    def conjugate(self):
        return self

    @property
    def real_part(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True


def badd(a, b):
    return None if a is None or b is None else a + b


def bsub(a, b):
    return None if a is None or b is None else a - b


def bmul(al, ah, bl, bh):
    if None in (al, ah, bl, bh):
        return None, None
    prods = [al * bl, al * bh, ah * bl, ah * bh]
    return min(prods), max(prods)


def bcmp(name, al, ah, bl, bh):
    """Decide a comparison from bounds alone, if they do."""
    if name == "__gt__":
        return bcmp("__lt__", bl, bh, al, ah)
    if name == "__ge__":
        return bcmp("__le__", bl, bh, al, ah)
    below = ah is not None and bl is not None and ah < bl
    above = al is not None and bh is not None and al > bh
    if name == "__lt__":
        if below:
            return True
        if al is not None and bh is not None and al >= bh:
            return False
        return None
    if name == "__le__":
        if ah is not None and bl is not None and ah <= bl:
            return True
        if above:
            return False
        return None
    if below or above:
        return name == "__ne__"
    return None


def int_parts(val):
    """(term, lo, hi) of an int value."""
    typ = type(val)
    if typ is SymInt:
        return val.e, val.lo, val.hi
    if typ is SymBool:
        conv = val.as_int()
        return conv.e, 0, 1
    num = int(val)
    return z3.IntVal(num), num, num


def lift(val) -> SymInt:
    """SymInt of any int value."""
    if type(val) is SymInt:
        return val
    return SymInt(*int_parts(val))


def mkint(e, lo=None, hi=None):
    """Wrap a z3 Int, folding literals."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e, lo, hi)


def divmod_(num, den):
    """Python floor division and modulo."""
    num = lift(num)
    if type(den) is SymBool:
        den = den.as_int()
    if type(den) is not SymInt:
        den = int(den)
        if den == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if den < 0:
            quo, rem = divmod_(-num, -den)
            return quo, -rem
        if den == 1:
            return num, 0
        # bounds may settle it
        if num.lo is not None and num.hi is not None:
            qlo, qhi = num.lo // den, num.hi // den
            if qlo == qhi:
                return qlo, num - qlo * den
            bounds = (qlo, qhi)
        else:
            bounds = (
                None if num.lo is None else num.lo // den,
                None if num.hi is None else num.hi // den,
            )
        # z3's div/mod with a positive literal divisor floor
        return (
            mkint(num.e / z3.IntVal(den), *bounds),
            mkint(num.e % z3.IntVal(den), 0, den - 1),
        )
    if den == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    eng = cur()
    key = ("divmod", num.e.get_id(), den.e.get_id())
    if key in eng.memo:
        return eng.memo[key][:2]
    quo = z3.Int(eng.fresh("q"))
    rem = z3.Int(eng.fresh("r"))
    if den > 0:
        eng.axiom(
            z3.And(num.e == quo * den.e + rem, rem >= 0, rem < den.e)
        )
        sign = (den.lo is not None and num.lo is not None) and num.lo >= 0
        qlo = 0 if sign else None
        qhi = num.hi if sign else None
        out = (
            SymInt(quo, qlo, qhi),
            SymInt(rem, 0, None if den.hi is None else den.hi - 1),
        )
    else:
        eng.axiom(
            z3.And(num.e == quo * den.e + rem, rem <= 0, rem > den.e)
        )
        out = (SymInt(quo), SymInt(rem))
    eng.memo[key] = (*out, num, den)
    return out


def bitop(left, right, oper):
    """Bitwise operation through bit-vectors."""
    left, right = lift(left), lift(right)
    bits = 1
    for val in (left, right):
        if val.lo is None or val.hi is None:
            a, b = left.real(), right.real()
            return oper(a, b)
        bits = max(bits, val.lo.bit_length() + 1, val.hi.bit_length() + 1)
    res = oper(z3.Int2BV(left.e, bits), z3.Int2BV(right.e, bits))
    lo = 0 if left.lo >= 0 and right.lo >= 0 else -(1 << (bits - 1))
    return mkint(z3.BV2Int(res, True), lo, (1 << (bits - 1)) - 1)


def cmp_int_float(num, flt, name):
    """Exact comparison of a symbolic int with a concrete float."""
    if math.isnan(flt):
        return name == "__ne__"
    if math.isinf(flt):
        pos = flt > 0
        return {
            "__eq__": False,
            "__ne__": True,
            "__lt__": pos,
            "__le__": pos,
            "__gt__": not pos,
            "__ge__": not pos,
        }[name]
    frac = Fraction(flt)
    return (num * frac.denominator)._cmp(frac.numerator, name)


# -- floats -------------------------------------------------------------------


class SymQuot(Sym):
    """
    The float quotient of two ints (exact for the uses modelled: ceil, floor
    and comparisons, while both are below 2**53).
    """

    __slots__ = ("num", "den")

    def __init__(self, num, den) -> None:
        self.num = num
        self.den = den

    @property
    def __class__(self):
        return float

    def __floor__(self):
        return divmod_(self.num, self.den)[0]

    def __ceil__(self):
        return -divmod_(-lift(self.num), self.den)[0]

    def __trunc__(self):
        quo = divmod_(self.num, self.den)
        if (self.num < 0) != (self.den < 0) and quo[1] != 0:
            return quo[0] + 1
        return quo[0]

    def real(self):
        return real(self.num) / real(self.den)

    __float__ = real

    def __bool__(self):
        return bool(self.num != 0)

    def _cross(self, other):
        if type(other) is SymQuot:
            onum, oden = other.num, other.den
        elif isinstance(other, int):
            onum, oden = other, 1
        elif type(other) is float:
            frac = Fraction(other)
            onum, oden = frac.numerator, frac.denominator
        else:
            return None
        left, right = self.num * oden, onum * self.den
        if (self.den < 0) != (oden < 0):
            left, right = -left, -right
        return left, right

    def __eq__(self, other):
        pair = self._cross(other)
        return False if pair is None else pair[0] == pair[1]

    def __ne__(self, other):
        return not_(self.__eq__(other))

    def __lt__(self, other):
        pair = self._cross(other)
        return NotImplemented if pair is None else pair[0] < pair[1]

    def __le__(self, other):
        pair = self._cross(other)
        return NotImplemented if pair is None else pair[0] <= pair[1]

    def __gt__(self, other):
        pair = self._cross(other)
        return NotImplemented if pair is None else pair[0] > pair[1]

    def __ge__(self, other):
        pair = self._cross(other)
        return NotImplemented if pair is None else pair[0] >= pair[1]

    def __hash__(self):
        return hash(self.real())

    def __repr__(self):
        return repr(self.real())


def _quot_real(name):
    def oper(self, other):
        return getattr(self.real(), name)(real(other))

    return oper


for _name in (
    "__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __floordiv__ "
    "__mod__ __truediv__ __rtruediv__ __neg__ __abs__"
).split():
    if _name in ("__neg__", "__abs__"):
        continue
    setattr(SymQuot, _name, _quot_real(_name))


def mkquot(num, den):
    """True division of ints."""
    if type(den) is not SymInt:
        den = int(den)
        if den < 0:
            num, den = -num, -den
        if den & (den - 1) == 0:
            fix = SymFix(lift(num).e, den.bit_length() - 1, num.lo, num.hi)
            if fix.exact():
                return fix
    elif den < 0:
        num, den = -lift(num), -den
    return SymQuot(num, den)


class SymFix(Sym):
    """
    A float that is a multiple of 2**-s: the value is e * 2**-s for a z3 Int e
    in [lo, hi]; while the bounds stay below 2**53, float arithmetic on it is
    exact and so is this integer arithmetic.
    """

    __slots__ = ("e", "s", "lo", "hi")

    def __init__(self, e, s: int, lo, hi) -> None:
        self.e = e
        self.s = s
        self.lo = lo
        self.hi = hi

    @property
    def __class__(self):
        return float

    def exact(self) -> bool:
        return (
            self.lo is not None
            and self.hi is not None
            and max(abs(self.lo), abs(self.hi)) <= EXACT
        )

    def real(self) -> float:
        val = cur().concretize(self.e, "float").as_long()
        return math.ldexp(float(val), -self.s)

    def pinned(self) -> float:
        val = cur().pin(self.e, "float arithmetic").as_long()
        return math.ldexp(float(val), -self.s)

    def __float__(self):
        return self.pinned()

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __hash__(self):
        if cur().identity_hash:
            return id(self)
        return hash(self.real())

    def __repr__(self):
        return repr(
            math.ldexp(
                float(cur().pin(self.e, "text of a float").as_long()), -self.s
            )
        )

    __str__ = __repr__

    def __format__(self, spec):
        return format(float(repr(self)), spec)

    def _binary(self, other, kind, swap=False):
        oth = to_fix(other)
        if oth is None:
            if type(other) is SymFP:
                return NotImplemented
            if isinstance(other, (int, float)):
                val = self.pinned()
                other = real(other)
                pair = (other, val) if swap else (val, other)
                return FLOAT_OPS[kind](*pair)
            return NotImplemented
        left, right = (oth, self) if swap else (self, oth)
        if kind in ("add", "sub"):
            scale = max(left.s, right.s)
            left, right = left.rescale(scale), right.rescale(scale)
            if kind == "add":
                res = SymFix(
                    left.e + right.e,
                    scale,
                    badd(left.lo, right.lo),
                    badd(left.hi, right.hi),
                )
            else:
                res = SymFix(
                    left.e - right.e,
                    scale,
                    bsub(left.lo, right.hi),
                    bsub(left.hi, right.lo),
                )
        elif kind == "mul":
            if left.lo == left.hi:
                left, right = right, left
            if right.lo == right.hi and right.lo > 1:
                # by a power of two: only the scale changes
                shift = right.lo.bit_length() - 1
                if right.lo == 1 << shift:
                    scale = left.s + right.s - min(shift, left.s)
                    more = 1 << (shift - min(shift, left.s))
                    if more == 1:
                        return mkfix(left.e, scale, left.lo, left.hi)
            lo, hi = bmul(left.lo, left.hi, right.lo, right.hi)
            res = SymFix(left.e * right.e, left.s + right.s, lo, hi)
        elif kind == "div":
            if right.lo == right.hi == 0:
                raise ZeroDivisionError("float division by zero")
            if right.lo is None or right.lo <= 0 <= right.hi:
                if cur().branch(right.e == 0):
                    raise ZeroDivisionError("float division by zero")
            if right.lo != right.hi:
                den = cur().concretize(right.e, "divisor").as_long()
            else:
                den = right.lo
            mag, shift = abs(den), 0
            while mag % 2 == 0:
                mag //= 2
                shift += 1
            if mag != 1:
                return FLOAT_OPS["div"](
                    left.pinned(), math.ldexp(float(den), -right.s)
                )
            sign = 1 if den > 0 else -1
            scale = left.s + shift - right.s
            e, lo, hi = left.e * sign, left.lo * sign, left.hi * sign
            lo, hi = min(lo, hi), max(lo, hi)
            if scale < 0:
                e, lo, hi = (
                    e * (1 << -scale),
                    lo * (1 << -scale),
                    hi * (1 << -scale),
                )
                scale = 0
            res = SymFix(e, scale, lo, hi)
        else:
            return NotImplemented
        if not res.exact():
            pair = (left.pinned(), right.pinned())
            return FLOAT_OPS[kind](*pair)
        return mkfix(res.e, res.s, res.lo, res.hi)

    def rescale(self, scale: int) -> "SymFix":
        if scale == self.s:
            return self
        mult = 1 << (scale - self.s)
        return SymFix(
            self.e * mult,
            scale,
            None if self.lo is None else self.lo * mult,
            None if self.hi is None else self.hi * mult,
        )

    def __add__(self, other):
        return self._binary(other, "add")

    __radd__ = __add__

    def __sub__(self, other):
        return self._binary(other, "sub")

    def __rsub__(self, other):
        return self._binary(other, "sub", True)

    def __mul__(self, other):
        return self._binary(other, "mul")

    __rmul__ = __mul__

    def __truediv__(self, other):
        return self._binary(other, "div")

    def __rtruediv__(self, other):
        return self._binary(other, "div", True)

    def __floordiv__(self, other):
        return FLOAT_OPS["floordiv"](self.pinned(), real(other))

    def __mod__(self, other):
        return FLOAT_OPS["mod"](self.pinned(), real(other))

    def __neg__(self):
        return mkfix(-self.e, self.s, -self.hi, -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        return mkfix(
            z3.If(self.e >= 0, self.e, -self.e),
            self.s,
            0,
            max(abs(self.lo), abs(self.hi)),
        )

    def __trunc__(self):
        one = 1 << self.s
        if self.lo >= 0:
            return mkint(self.e / z3.IntVal(one), self.lo // one, self.hi // one)
        return mkint(
            z3.If(
                self.e >= 0,
                self.e / z3.IntVal(one),
                -((-self.e) / z3.IntVal(one)),
            ),
            -((-self.lo) // one),
            self.hi // one if self.hi >= 0 else 0,
        )

    def __floor__(self):
        one = 1 << self.s
        return mkint(self.e / z3.IntVal(one), self.lo // one, self.hi // one)

    def __ceil__(self):
        one = 1 << self.s
        return mkint(
            -((-self.e) / z3.IntVal(one)),
            -((-self.lo) // one),
            -((-self.hi) // one),
        )

    def modf(self):
        """math.modf of this value."""
        whole = self.__trunc__()
        wfix = to_fix(whole)
        one = (1 << self.s) - 1
        if self.lo >= 0:
            frac = self.e % z3.IntVal(one + 1)
            low, high = 0, one
        else:
            frac = self.e - wfix.e * (one + 1)
            low, high = (-one, one) if self.hi > 0 else (-one, 0)
        return mkfix(frac, self.s, low, high), wfix

    def is_integer(self):
        return mkbool(self.e % z3.IntVal(1 << self.s) == 0)

    def _cmp(self, other, name):
        typ = type(other)
        if typ is SymFP:
            return NotImplemented
        if typ is float:
            if math.isnan(other):
                return name == "__ne__"
            if math.isinf(other):
                return cmp_int_float(SymInt(self.e), other, name)
            frac = Fraction(other)
            left = SymInt(self.e, self.lo, self.hi) * frac.denominator
            return lift(left)._cmp(frac.numerator * (1 << self.s), name)
        if typ is SymQuot:
            return getattr(
                SymQuot(SymInt(self.e, self.lo, self.hi), 1 << self.s), name
            )(other)
        if isinstance(other, (int, float)):
            if isinstance(other, int):
                oe, ol, oh = int_parts(other)
                oth = SymFix(oe, 0, ol, oh)
            else:
                oth = other
            scale = max(self.s, oth.s)
            left, right = self.rescale(scale), oth.rescale(scale)
            return SymInt(left.e, left.lo, left.hi)._cmp(
                SymInt(right.e, right.lo, right.hi), name
            )
        if name == "__eq__":
            return False
        if name == "__ne__":
            return True
        return NotImplemented

    def __eq__(self, other):
        return self._cmp(other, "__eq__")

    def __ne__(self, other):
        return self._cmp(other, "__ne__")

    def __lt__(self, other):
        return self._cmp(other, "__lt__")

    def __le__(self, other):
        return self._cmp(other, "__le__")

    def __gt__(self, other):
        return self._cmp(other, "__gt__")

    def __ge__(self, other):
        return self._cmp(other, "__ge__")

    def __round__(self, n=None):
        if n is None:
            half = SymFix(self.e, self.s, self.lo, self.hi)
            low = half.__floor__()
            frac = half - to_fix(low)
            if frac < 0.5:
                return low
            if frac > 0.5:
                return low + 1
            return low if low % 2 == 0 else low + 1
        return round(self.pinned(), n)


FLOAT_OPS = {
    "add": lambda a, b: a + b,
    "sub": lambda a, b: a - b,
    "mul": lambda a, b: a * b,
    "div": lambda a, b: a / b,
    "floordiv": lambda a, b: a // b,
    "mod": lambda a, b: a % b,
}


def mkfix(e, s, lo, hi):
    """Wrap a fixed-point value, folding literals."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return math.ldexp(float(e.as_long()), -s)
    return SymFix(e, s, lo, hi)


def to_fix(val) -> Optional[SymFix]:
    """A SymFix of a value, if it's exactly one."""
    typ = type(val)
    if typ is SymFix:
        return val
    if typ is float:
        if not math.isfinite(val):
            return None
        num, den = val.as_integer_ratio()
        if abs(num) > EXACT:
            return None
        return SymFix(z3.IntVal(num), den.bit_length() - 1, num, num)
    if typ is SymFP or typ is SymQuot:
        return None
    if isinstance(val, int):
        oe, ol, oh = int_parts(val)
        fix = SymFix(oe, 0, ol, oh)
        return fix if fix.exact() else None
    return None


def to_float(val):
    """float(val) for any number."""
    typ = type(val)
    if typ in (SymFix, SymFP, SymQuot, float):
        return val
    if isinstance(val, int):
        if typ not in (SymInt, SymBool):
            return float(val)
        fix = to_fix(val)
        if fix is not None:
            return fix
        return float(
            cur().pin(int_parts(val)[0], "float of a large int").as_long()
        )
    return float(val)


class SymFP(Sym):
    """A float given as an IEEE-754 binary64 term."""

    __slots__ = ("e",)

    def __init__(self, e) -> None:
        self.e = e

    @property
    def __class__(self):
        return float

    def real(self) -> float:
        return fp_value(cur().concretize(self.e, "float"))

    def pinned(self) -> float:
        return fp_value(cur().pin(self.e, "float arithmetic"))

    __float__ = pinned

    def __bool__(self):
        return cur().branch(z3.Not(z3.fpIsZero(self.e)))

    def __hash__(self):
        if cur().identity_hash:
            return id(self)
        return hash(self.real())

    def __repr__(self):
        return repr(fp_value(cur().pin(self.e, "text of a float")))

    __str__ = __repr__

    def __format__(self, spec):
        return format(float(repr(self)), spec)

    def _oper(self, other, oper, swap=False):
        oth = fp_term(other)
        if oth is None:
            return NotImplemented
        left, right = (oth, self.e) if swap else (self.e, oth)
        return mkfp(oper(RNE, left, right))

    def __add__(self, other):
        return self._oper(other, z3.fpAdd)

    __radd__ = __add__

    def __sub__(self, other):
        return self._oper(other, z3.fpSub)

    def __rsub__(self, other):
        return self._oper(other, z3.fpSub, True)

    def __mul__(self, other):
        return self._oper(other, z3.fpMul)

    __rmul__ = __mul__

    def __truediv__(self, other):
        if other == 0:
            raise ZeroDivisionError("float division by zero")
        return self._oper(other, z3.fpDiv)

    def __rtruediv__(self, other):
        if self == 0:
            raise ZeroDivisionError("float division by zero")
        return self._oper(other, z3.fpDiv, True)

    def __neg__(self):
        return mkfp(z3.fpNeg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return mkfp(z3.fpAbs(self.e))

    def _whole(self, mode, func):
        """Rounded to an integer (symbolic where it is small)."""
        if cur().branch(z3.fpIsNaN(self.e)):
            raise ValueError("cannot convert float NaN to integer")
        if cur().branch(z3.fpIsInf(self.e)):
            raise OverflowError("cannot convert float infinity to integer")
        top = 1 << 20
        small = z3.And(
            z3.fpLT(self.e, z3.FPVal(float(top), FP64)),
            z3.fpGT(self.e, z3.FPVal(-float(top), FP64)),
        )
        if not cur().branch(small):
            return func(self.pinned())
        bits = z3.fpToSBV(mode, self.e, z3.BitVecSort(22))
        return mkint(z3.BV2Int(bits, is_signed=True), -top, top)

    def __trunc__(self):
        return self._whole(z3.RTZ(), int)

    def __floor__(self):
        return self._whole(z3.RTN(), math.floor)

    def __ceil__(self):
        return self._whole(z3.RTP(), math.ceil)

    def _rel(self, other, oper, default):
        oth = fp_term(other)
        if oth is None:
            return default
        return mkbool(oper(self.e, oth))

    def __eq__(self, other):
        return self._rel(other, z3.fpEQ, False)

    def __ne__(self, other):
        return not_(self.__eq__(other))

    def __lt__(self, other):
        return self._rel(other, z3.fpLT, NotImplemented)

    def __le__(self, other):
        return self._rel(other, z3.fpLEQ, NotImplemented)

    def __gt__(self, other):
        return self._rel(other, z3.fpGT, NotImplemented)

    def __ge__(self, other):
        return self._rel(other, z3.fpGEQ, NotImplemented)

    def is_integer(self):
        return self.pinned().is_integer()


def fp_term(val):
    """z3 Float64 of a number, if it's a simple one."""
    typ = type(val)
    if typ is SymFP:
        return val.e
    if typ is float:
        return z3.FPVal(val, FP64)
    if typ is SymFix:
        return z3.FPVal(val.pinned(), FP64)
    if typ is SymQuot:
        return z3.FPVal(val.real(), FP64)
    if isinstance(val, int):
        return z3.FPVal(float(real(val)), FP64)
    return None


def fp_value(term) -> float:
    """The Python float of a z3 Float64 literal."""
    if z3.is_fp_value(term) and term.isNaN():
        return math.nan
    bits = z3.simplify(z3.fpToIEEEBV(term)).as_long()
    return struct.unpack("!d", bits.to_bytes(8, "big"))[0]


def mkfp(e):
    """Wrap a z3 Float64, folding literals."""
    e = z3.simplify(e)
    if z3.is_fp_value(e):
        return fp_value(e)
    return SymFP(e)


# -- byte strings -------------------------------------------------------------


class PackByte:
    """Byte 'idx' (of 'n', most significant first) of a packed source value."""

    __slots__ = ("src", "kind", "n", "idx", "_val")

    def __init__(self, src, kind: str, n: int, idx: int) -> None:
        self.src = src
        self.kind = kind
        self.n = n
        self.idx = idx
        self._val: Any = None

    @property
    def val(self):
        """This byte as an int value."""
        if self._val is None:
            self._val = self._compute()
        return self._val

    def _compute(self):
        if self.kind in ("i", "u"):
            return int_bytes(self.src, self.n)[self.idx]
        # floats: IEEE bits
        if type(self.src) is SymFix:
            return fix_bytes(self.src, self.kind[0], self.n)[self.idx]
        if isinstance(self.src, Sym):
            return struct.pack(">" + self.kind[0], self.src.pinned())[
                self.idx
            ]
        bits = z3.fpToIEEEBV(self.src)
        high = 8 * (self.n - self.idx) - 1
        return mkint(
            z3.BV2Int(z3.Extract(high, high - 7, bits)), 0, 255
        )


def fix_bytes(src, code: str, size: int) -> list:
    """
    The bytes of a fixed-point value: uninterpreted functions of it, with an
    inverse where the encoding is exact (models are made real later).
    """
    eng = cur()
    key = ("fixbytes", code, src.s, src.e.get_id())
    if key in eng.memo:
        return eng.memo[key][1]
    sort = z3.IntSort()
    out = []
    for idx in range(size):
        func = z3.Function(f"{code}{src.s}.{idx}", sort, sort)
        term = func(src.e)
        eng.axiom(z3.And(term >= 0, term <= 255))
        out.append(SymInt(term, 0, 255))
    bits = 24 if code == "f" else 53
    if max(abs(src.lo), abs(src.hi)) <= 1 << bits:
        inv = z3.Function(f"{code}{src.s}.inv", *[sort] * (size + 1))
        eng.axiom(inv(*[x.e for x in out]) == src.e)
    eng.float_bytes.append((src.e, src.s, code, [x.e for x in out]))
    eng.memo[key] = (src.e, out)
    return out


def int_bytes(src, size: int) -> list:
    """
    The bytes of an integer that fits: fresh variables with the (unique)
    values that sum up to it.
    """
    if not is_sym(src):
        return list((src % (1 << (8 * size))).to_bytes(size, "big"))
    src = lift(src)
    if size == 1 and src.lo is not None and src.lo >= 0:
        return [src]
    eng = cur()
    key = ("bytes", src.e.get_id(), size)
    found = eng.memo.get(key)
    if found is not None:
        return found[1]
    out = []
    total = z3.IntVal(0)
    for _ in range(size):
        var = z3.Int(eng.fresh("byte"))
        eng.axiom(z3.And(var >= 0, var <= 255))
        out.append(SymInt(var, 0, 255))
        total = total * 256 + var
    whole = src.e
    if src.lo is None or src.lo < 0:
        whole = z3.If(src.e < 0, src.e + (1 << (8 * size)), src.e)
    eng.axiom(whole == z3.simplify(total))
    eng.memo[key] = (src, out)
    return out


def byte_val(elem):
    """The int value of a SymBytes element."""
    return elem.val if isinstance(elem, PackByte) else elem


def same_elem(left, right) -> bool:
    """Whether two elements are structurally the same byte."""
    if type(left) is PackByte and type(right) is PackByte:
        if left is right:
            return True
        if (
            left.kind == right.kind
            and left.n == right.n
            and left.idx == right.idx
        ):
            if left.src is right.src:
                return True
            ltm = getattr(left.src, "e", left.src)
            rtm = getattr(right.src, "e", right.src)
            return (
                hasattr(ltm, "get_id")
                and hasattr(rtm, "get_id")
                and ltm.get_id() == rtm.get_id()
            )
        return False
    if type(left) is int and type(right) is int:
        return left == right
    if type(left) is SymInt and type(right) is SymInt:
        return left.e.get_id() == right.e.get_id()
    return False


def whole_at(elems: list, idx: int):
    """The packed integer whose bytes are exactly the elements from here."""
    first = elems[idx]
    if (
        type(first) is not PackByte
        or first.idx != 0
        or first.kind not in ("i", "u")
        or type(first.src) is not SymInt
        or idx + first.n > len(elems)
    ):
        return None
    for off in range(1, first.n):
        other = elems[idx + off]
        if (
            type(other) is not PackByte
            or other.idx != off
            or other.n != first.n
            or other.kind != first.kind
            or not same_elem_src(other, first)
        ):
            return None
    return first


def run_eq(left: list, right: list, idx: int):
    """
    Equality of two packed integers at the same place, compared as integers:
    (condition, further elements covered).
    """
    one, two = whole_at(left, idx), whole_at(right, idx)
    if one is None and two is None:
        return None, 0
    if one is not None and two is not None:
        if one.n != two.n or one.kind != two.kind:
            return None, 0
        if same_elem_src(one, two):
            return True, one.n - 1
        return one.src == two.src, one.n - 1
    if one is None:
        one, left, right = two, right, left
    part = right[idx : idx + one.n]
    if len(part) < one.n or any(type(x) is not int for x in part):
        return None, 0
    num = int.from_bytes(bytes(part), "big", signed=one.kind == "i")
    return one.src == num, one.n - 1


def elem_eq(left, right):
    """Equality of two elements (bool or SymBool)."""
    if same_elem(left, right):
        return True
    return byte_val(left) == byte_val(right)


class SymBytes(Sym):
    """bytes/bytearray of concrete length with possibly symbolic elements."""

    __slots__ = ("el", "mut", "__weakref__")

    def __init__(self, elems: List[Any], mutable: bool) -> None:
        self.el = elems
        self.mut = mutable

    @property
    def __class__(self):
        return bytearray if self.mut else bytes

    def concrete(self) -> bool:
        return all(type(x) is int for x in self.el)

    def real(self):
        """Real bytes (concretising)."""
        data = bytes(real(byte_val(x)) for x in self.el)
        return bytearray(data) if self.mut else data

    def pinned(self):
        """Real bytes (pinning)."""
        out = []
        for elem in self.el:
            val = byte_val(elem)
            if type(val) is SymInt:
                val = cur().pin(val.e, "bytes used by C code").as_long()
            out.append(int(val))
        data = bytes(out)
        return bytearray(data) if self.mut else data

    def __len__(self):
        return len(self.el)

    def __bool__(self):
        return bool(self.el)

    def __iter__(self):
        for elem in list(self.el):
            yield byte_val(elem)

    def __getitem__(self, idx):
        if isinstance(idx, slice):
            return SymBytes(self.el[real_slice(idx)], self.mut)
        return byte_val(self.el[real(idx)])

    def __setitem__(self, idx, val):
        assert self.mut
        if isinstance(idx, slice):
            self.el[real_slice(idx)] = elems_of(val)
        else:
            if isinstance(val, int) and not 0 <= val <= 255:
                raise ValueError("byte must be in range(0, 256)")
            self.el[real(idx)] = val

    def __delitem__(self, idx):
        assert self.mut
        del self.el[real_slice(idx) if isinstance(idx, slice) else real(idx)]

    def __add__(self, other):
        elems = elems_of(other)
        if elems is None:
            return NotImplemented
        return SymBytes(self.el + elems, self.mut)

    def __radd__(self, other):
        elems = elems_of(other)
        if elems is None:
            return NotImplemented
        return SymBytes(
            elems + self.el, isinstance(other, bytearray)
        )

    def __iadd__(self, other):
        elems = elems_of(other)
        if elems is None:
            return NotImplemented
        if self.mut:
            self.el.extend(elems)
            return self
        return SymBytes(self.el + elems, False)

    def __mul__(self, num):
        return SymBytes(self.el * real(num), self.mut)

    __rmul__ = __mul__

    def __eq__(self, other):
        elems = elems_of(other)
        if elems is None:
            return False
        if len(elems) != len(self.el):
            return False
        conds = []
        skip = 0
        for idx, (left, right) in enumerate(zip(self.el, elems)):
            if skip:
                skip -= 1
                continue
            res, skip = run_eq(self.el, elems, idx)
            if not skip:
                res = elem_eq(left, right)
            if res is False:
                return False
            if res is not True:
                conds.append(bool_term(res))
        if not conds:
            return True
        return mkbool(z3.And(*conds))

    def __ne__(self, other):
        return not_(self.__eq__(other))

    def __contains__(self, item):
        if isinstance(item, int):
            return any(bool(byte_val(x) == item) for x in self.el)
        return self.find(item) >= 0

    def __hash__(self):
        if self.mut:
            raise TypeError("unhashable type: 'bytearray'")
        if cur().identity_hash and not self.concrete():
            return id(self)
        return hash(bytes(self.real()))

    def __repr__(self):
        return repr(self.pinned())

    __str__ = __repr__

    def __bytes__(self):
        return bytes(self.real())

    # methods
    def append(self, val):
        self.el.append(val)

    def extend(self, other):
        self.el.extend(elems_of(other))

    def clear(self):
        self.el.clear()

    def copy(self):
        return SymBytes(list(self.el), self.mut)

    def pop(self, idx=-1):
        return byte_val(self.el.pop(real(idx)))

    def insert(self, idx, val):
        self.el.insert(real(idx), val)

    def find(self, sub, start=0, end=None):
        if isinstance(sub, int):
            sub = SymBytes([sub], False)
        sub = SymBytes(elems_of(sub), False)
        end = len(self.el) if end is None else real(end)
        for idx in range(real(start), end - len(sub) + 1):
            if SymBytes(self.el[idx : idx + len(sub)], False) == sub:
                return idx
        return -1

    def _strip(self, chars, left, right):
        opts = list(b" \t\n\r\x0b\x0c") if chars is None else elems_of(chars)

        def test(elem):
            return any(bool(elem_eq(elem, o)) for o in opts)

        start, end = 0, len(self.el)
        while left and start < end and test(self.el[start]):
            start += 1
        while right and end > start and test(self.el[end - 1]):
            end -= 1
        return SymBytes(self.el[start:end], self.mut)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, prefix):
        if self.startswith(prefix):
            return SymBytes(self.el[len(prefix) :], self.mut)
        return self.copy()

    def removesuffix(self, suffix):
        if len(suffix) and self.endswith(suffix):
            return SymBytes(self.el[: -len(suffix)], self.mut)
        return self.copy()

    def count(self, sub):
        if isinstance(sub, int):
            sub = SymBytes([sub], False)
        total, idx = 0, self.find(sub)
        while idx >= 0:
            total += 1
            idx = self.find(sub, idx + max(len(sub), 1))
        return total

    def index(self, sub, start=0):
        idx = self.find(sub, start)
        if idx < 0:
            raise ValueError("subsection not found")
        return idx

    def replace(self, old, new, count=-1):
        out, start = [], 0
        while count:
            idx = self.find(old, start)
            if idx < 0 or not len(old):
                break
            out += self.el[start:idx] + elems_of(new)
            start = idx + len(old)
            count -= 1
        return SymBytes(out + self.el[start:], self.mut)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.pinned().split(None, maxsplit)
        out, start = [], 0
        while maxsplit:
            idx = self.find(sep, start)
            if idx < 0:
                break
            out.append(SymBytes(self.el[start:idx], self.mut))
            start = idx + len(sep)
            maxsplit -= 1
        return out + [SymBytes(self.el[start:], self.mut)]

    def partition(self, sep):
        idx = self.find(sep)
        if idx < 0:
            return self, b"", b""
        return (
            SymBytes(self.el[:idx], self.mut),
            SymBytes(elems_of(sep), self.mut),
            SymBytes(self.el[idx + len(sep) :], self.mut),
        )

    def ljust(self, width, fill=b" "):
        more = max(real(width) - len(self.el), 0)
        return SymBytes(self.el + elems_of(fill) * more, self.mut)

    def rjust(self, width, fill=b" "):
        more = max(real(width) - len(self.el), 0)
        return SymBytes(elems_of(fill) * more + self.el, self.mut)

    def startswith(self, prefix):
        pre = elems_of(prefix)
        return SymBytes(self.el[: len(pre)], False) == SymBytes(pre, False)

    def endswith(self, suffix):
        suf = elems_of(suffix)
        if not suf:
            return True
        return SymBytes(self.el[-len(suf) :], False) == SymBytes(suf, False)

    def join(self, parts):
        out: list = []
        for idx, part in enumerate(parts):
            if idx:
                out += self.el
            out += elems_of(part)
        return SymBytes(out, self.mut)

    def hex(self, *args):
        return self.pinned().hex(*args)

    def decode(self, encoding="utf-8", errors="strict"):
        if self.concrete():
            return bytes(self.el).decode(encoding, errors)
        return decode_utf8(self, encoding, errors)

    def tobytes(self):
        return SymBytes(list(self.el), False)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(bytearray if self.mut else bytes, name):
            return getattr(self.pinned(), name)
        raise AttributeError(name)


def elems_of(val):
    """Elements of any bytes-like value (None if it isn't one)."""
    if type(val) is SymBytes:
        return list(val.el)
    if isinstance(val, (bytes, bytearray, memoryview)):
        return list(bytes(val))
    if isinstance(val, (list, tuple)):
        return list(val)
    return None


def real_slice(val: slice) -> slice:
    """A slice with real bounds."""
    return slice(
        None if val.start is None else real(val.start),
        None if val.stop is None else real(val.stop),
        None if val.step is None else real(val.step),
    )


def decode_utf8(data: SymBytes, encoding: str, errors: str):
    """Decode symbolic bytes, by encoded-character provenance or ASCII."""
    out: list = []
    idx = 0
    while idx < len(data.el):
        elem = data.el[idx]
        if type(elem) is CharByte:
            if elem.idx == 0 and all(
                type(x) is CharByte and x.char is elem.char
                for x in data.el[idx : idx + elem.n]
            ):
                out.append(elem.char)
                idx += elem.n
                continue
            return data.pinned().decode(encoding, errors)
        val = byte_val(elem)
        if type(val) is int and val < 128:
            out.append(val)
            idx += 1
            continue
        enc = encoding.lower().replace("_", "-")
        if enc in ("latin-1", "iso-8859-1", "latin1"):
            out.append(val)
            idx += 1
            continue
        if val < 128:
            out.append(val)
            idx += 1
            continue
        if enc not in ("utf-8", "utf8") or errors != "strict":
            return data.pinned().decode(encoding, errors)

        def bad(what, idx=idx):
            size = len(data.el)
            return UnicodeDecodeError("utf-8", bytes(size), idx, size, what)

        if val < 0xC2 or val > 0xF4:
            raise bad("invalid start byte")
        num = 2 if val < 0xE0 else 3 if val < 0xF0 else 4
        if idx + num > len(data.el):
            raise bad("unexpected end of data")
        code = val - {2: 0xC0, 3: 0xE0, 4: 0xF0}[num]
        for pos in range(1, num):
            low, high = 0x80, 0xBF
            if pos == 1 and num == 3:
                if val == 0xE0:
                    low = 0xA0
                elif val == 0xED:
                    high = 0x9F
            if pos == 1 and num == 4:
                if val == 0xF0:
                    low = 0x90
                elif val == 0xF4:
                    high = 0x8F
            part = byte_val(data.el[idx + pos])
            if part < low or part > high:
                raise bad("invalid continuation byte")
            code = code * 64 + (part - 0x80)
        out.append(code)
        idx += num
    return mkstr(out)


class CharByte(PackByte):
    """A byte of the encoding of a symbolic character."""

    __slots__ = ("char",)

    def __init__(self, char, n, idx, val):
        super().__init__(None, "c", n, idx)
        self.char = char
        self._val = val


def int_to_bytes(val, length, byteorder="big", signed=False):
    """int.to_bytes."""
    length = real(length)
    lo = -(1 << (8 * length - 1)) if signed else 0
    hi = (1 << (8 * length - (1 if signed else 0))) - 1
    if not (lo <= val and val <= hi):
        raise OverflowError("int too big to convert")
    elems = pack_int(val, length, signed)
    if byteorder == "little":
        elems.reverse()
    return SymBytes(elems, False)


def pack_int(val, size: int, signed: bool) -> list:
    """Elements of an in-range integer, most significant first."""
    if type(val) is SymBool:
        val = val.as_int()
    if type(val) is not SymInt:
        return list(int(val).to_bytes(size, "big", signed=signed))
    if size == 1 and not signed:
        return [val]
    return [
        PackByte(val, "i" if signed else "u", size, idx)
        for idx in range(size)
    ]


def unpack_int(elems: list, signed: bool):
    """Integer from elements, most significant first."""
    size = len(elems)
    first = elems[0]
    if (
        type(first) is PackByte
        and first.n == size
        and first.idx == 0
        and first.kind in ("i", "u")
        and all(
            type(x) is PackByte
            and x.idx == i
            and x.n == size
            and x.kind == first.kind
            and same_elem_src(x, first)
            for i, x in enumerate(elems)
        )
    ):
        src = first.src
        if (first.kind == "i") == signed:
            return src
        if signed:
            if src >= 1 << (8 * size - 1):
                return src - (1 << (8 * size))
            return src
        return src % (1 << (8 * size))
    if all(type(x) is int for x in elems):
        return int.from_bytes(bytes(elems), "big", signed=signed)
    total: Any = 0
    for elem in elems:
        total = total * 256 + byte_val(elem)
    if signed:
        if total >= 1 << (8 * size - 1):
            return total - (1 << (8 * size))
    return total


def same_elem_src(left: PackByte, right: PackByte) -> bool:
    """Whether two packed bytes come from the same value."""
    if left.src is right.src:
        return True
    ltm = getattr(left.src, "e", left.src)
    rtm = getattr(right.src, "e", right.src)
    return (
        hasattr(ltm, "get_id")
        and hasattr(rtm, "get_id")
        and ltm.get_id() == rtm.get_id()
    )


# -- text ---------------------------------------------------------------------


class SymText(Sym):
    """Text built from literals and formatted symbolic values."""

    __slots__ = ("parts",)

    def __init__(self, parts: list) -> None:
        self.parts = parts

    @property
    def __class__(self):
        return str

    def real(self) -> str:
        return "".join(x if type(x) is str else str(x) for x in self.parts)

    def __str__(self):
        return self.real()

    def __repr__(self):
        return repr(self.real())

    def __format__(self, spec):
        return format(self.real(), spec)

    def __hash__(self):
        if cur().identity_hash:
            return id(self)
        return hash(self.real())

    def number(self):
        """The value, if this is just str(value)."""
        return self.parts[0] if len(self.parts) == 1 else None

    def __eq__(self, other):
        if type(other) is SymText:
            if len(self.parts) == len(other.parts):
                conds = []
                for left, right in zip(self.parts, other.parts):
                    if type(left) is str or type(right) is str:
                        if type(left) is not str or type(right) is not str:
                            break
                        if left != right:
                            break
                    else:
                        conds.append(left == right)
                else:
                    # (only exact when the literals separate the values)
                    return mkbool(
                        z3.And(*[truth(x) for x in conds])
                    )
            return self.real() == other.real()
        if type(other) is str:
            num = self.number()
            if type(num) is SymInt:
                if other.startswith("vsymint"):
                    return num == cur().tokens[int(other[7:])]
                try:
                    val = int(other)
                except ValueError:
                    return False
                return num == val if str(val) == other else False
            return self.real() == other
        if type(other) is SymStr:
            return self.real() == other
        return False

    def __ne__(self, other):
        return not_(self.__eq__(other))

    def __lt__(self, other):
        return self.real() < str(other)

    def __gt__(self, other):
        return self.real() > str(other)

    def __le__(self, other):
        return self.real() <= str(other)

    def __ge__(self, other):
        return self.real() >= str(other)

    def __add__(self, other):
        if type(other) is SymText:
            return SymText(self.parts + other.parts)
        if type(other) is str:
            return SymText(self.parts + [other])
        return NotImplemented

    def __radd__(self, other):
        if type(other) is str:
            return SymText([other] + self.parts)
        return NotImplemented

    def __len__(self):
        return len(self.real())

    def __bool__(self):
        if any(type(x) is not str or x for x in self.parts):
            return True
        return False

    def __iter__(self):
        return iter(self.real())

    def __contains__(self, item):
        return item in self.real()

    def __getitem__(self, idx):
        return self.real()[idx]

    def __mod__(self, other):
        return self.real() % other

    def __fspath__(self):
        return self.real()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.real(), name)


WHITESPACE = [
    ord(c) for c in map(chr, range(0x3001)) if c.isspace()
]


class SymStr(Sym):
    """A str of concrete length with symbolic characters (code points)."""

    __slots__ = ("ch",)

    def __init__(self, chars: list) -> None:
        self.ch = chars

    @property
    def __class__(self):
        return str

    def real(self) -> str:
        return "".join(
            chr(
                c
                if type(c) is int
                else cur().pin(c.e, "text used by C code").as_long()
            )
            for c in self.ch
        )

    def __str__(self):
        return self.real()

    def __repr__(self):
        return repr(self.real())

    def __format__(self, spec):
        return format(self.real(), spec)

    def __hash__(self):
        if cur().identity_hash:
            return id(self)
        return hash(self.real())

    def __len__(self):
        return len(self.ch)

    def __bool__(self):
        return bool(self.ch)

    def __iter__(self):
        return iter([mkstr([c]) for c in self.ch])

    def __getitem__(self, idx):
        if isinstance(idx, slice):
            return mkstr(self.ch[real_slice(idx)])
        return mkstr([self.ch[real(idx)]])

    def __eq__(self, other):
        oth = chars_of(other)
        if oth is None or len(oth) != len(self.ch):
            return False
        conds = []
        for left, right in zip(self.ch, oth):
            res = left == right
            if res is False:
                return False
            if res is not True:
                conds.append(bool_term(res))
        return mkbool(z3.And(*conds)) if conds else True

    def __ne__(self, other):
        return not_(self.__eq__(other))

    def __lt__(self, other):
        return self.real() < str(other)

    def __gt__(self, other):
        return self.real() > str(other)

    def __add__(self, other):
        oth = chars_of(other)
        return NotImplemented if oth is None else mkstr(self.ch + oth)

    def __radd__(self, other):
        oth = chars_of(other)
        return NotImplemented if oth is None else mkstr(oth + self.ch)

    def __mul__(self, num):
        return mkstr(self.ch * real(num))

    __rmul__ = __mul__

    def __contains__(self, item):
        return self.find(item) >= 0

    def __mod__(self, other):
        return self.real() % other

    def __fspath__(self):
        return self.real()

    def find(self, sub, start=0, end=None):
        sub = chars_of(sub)
        end = len(self.ch) if end is None else min(real(end), len(self.ch))
        for idx in range(real(start), end - len(sub) + 1):
            if mkstr(self.ch[idx : idx + len(sub)]) == mkstr(sub):
                return idx
        return -1

    def index(self, sub, *args):
        res = self.find(sub, *args)
        if res < 0:
            raise ValueError("substring not found")
        return res

    def rfind(self, sub):
        sub = chars_of(sub)
        for idx in range(len(self.ch) - len(sub), -1, -1):
            if mkstr(self.ch[idx : idx + len(sub)]) == mkstr(sub):
                return idx
        return -1

    def count(self, sub):
        return len(self.split(sub)) - 1

    def startswith(self, prefix, start=0):
        if isinstance(prefix, tuple):
            return any(bool(self.startswith(p, start)) for p in prefix)
        pre = chars_of(prefix)
        start = real(start)
        return mkstr(self.ch[start : start + len(pre)]) == mkstr(pre)

    def endswith(self, suffix):
        if isinstance(suffix, tuple):
            return any(bool(self.endswith(p)) for p in suffix)
        suf = chars_of(suffix)
        if not suf:
            return True
        return mkstr(self.ch[-len(suf) :]) == mkstr(suf)

    def split(self, sep=None, maxsplit=-1):
        out: list = []
        cur_: list = []
        idx = 0
        if sep is None:
            for char in self.ch:
                if is_space(char):
                    if cur_:
                        out.append(mkstr(cur_))
                    cur_ = []
                else:
                    cur_.append(char)
            if cur_:
                out.append(mkstr(cur_))
            return out
        sep = chars_of(sep)
        if not sep:
            raise ValueError("empty separator")
        while idx < len(self.ch):
            if (
                (maxsplit < 0 or len(out) < maxsplit)
                and idx + len(sep) <= len(self.ch)
                and mkstr(self.ch[idx : idx + len(sep)]) == mkstr(sep)
            ):
                out.append(mkstr(cur_))
                cur_ = []
                idx += len(sep)
            else:
                cur_.append(self.ch[idx])
                idx += 1
        out.append(mkstr(cur_))
        return out

    def partition(self, sep):
        idx = self.find(sep)
        if idx < 0:
            return self, "", ""
        return self[:idx], sep, self[idx + len(sep) :]

    def splitlines(self, keepends=False):
        return self.real().splitlines(keepends)

    def _strip(self, chars, left, right):
        test = is_space
        if chars is not None:
            opts = chars_of(chars)

            def test(char):
                return any(bool(char == o) for o in opts)

        start, end = 0, len(self.ch)
        while left and start < end and test(self.ch[start]):
            start += 1
        while right and end > start and test(self.ch[end - 1]):
            end -= 1
        return mkstr(self.ch[start:end])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, prefix):
        return self[len(prefix) :] if self.startswith(prefix) else self

    def removesuffix(self, suffix):
        if suffix and self.endswith(suffix):
            return self[: -len(suffix)]
        return self

    def replace(self, old, new, count=-1):
        parts = self.split(old, count)
        out: Any = parts[0]
        for part in parts[1:]:
            out = out + new + part
        return out

    def _case(self, lower):
        out = []
        for char in self.ch:
            if type(char) is int:
                conv = chr(char)
                conv = conv.lower() if lower else conv.upper()
                out += [ord(c) for c in conv]
                continue
            lo, hi = (65, 90) if lower else (97, 122)
            if char < 128:
                shift = 32 if lower else -32
                out.append(
                    mkint(
                        z3.If(
                            z3.And(char.e >= lo, char.e <= hi),
                            char.e + shift,
                            char.e,
                        ),
                        0,
                        127,
                    )
                )
            else:
                conv = chr(cur().pin(char.e, "case of a character").as_long())
                conv = conv.lower() if lower else conv.upper()
                out += [ord(c) for c in conv]
        return mkstr(out)

    def lower(self):
        return self._case(True)

    casefold = lower

    def upper(self):
        return self._case(False)

    def join(self, parts):
        return join_str(self, parts)

    def encode(self, encoding="utf-8", errors="strict"):
        return encode_str(self, encoding, errors)

    def isascii(self):
        return all(bool(c < 128) for c in self.ch)

    def isspace(self):
        return bool(self.ch) and all(bool(is_space(c)) for c in self.ch)

    def isdigit(self):
        return bool(self.ch) and all(
            bool(c >= 48) and bool(c <= 57) for c in self.ch
        )

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.real(), name)


def is_space(char):
    """Whether a code point is whitespace."""
    if type(char) is int:
        return chr(char).isspace()
    runs = []
    start = prev = WHITESPACE[0]
    for code in WHITESPACE[1:]:
        if code != prev + 1:
            runs.append((start, prev))
            start = code
        prev = code
    runs.append((start, prev))
    return mkbool(
        z3.Or(*[z3.And(char.e >= a, char.e <= b) for a, b in runs])
    )


def chars_of(val):
    """Code points of any text value (None if it isn't text)."""
    typ = type(val)
    if typ is SymStr:
        return list(val.ch)
    if typ is SymText:
        return [ord(c) for c in val.real()]
    if isinstance(val, str):
        return [ord(c) for c in val]
    return None


def mkstr(chars: list):
    """Text of code points, real if they all are."""
    if all(type(c) is int for c in chars):
        return "".join(map(chr, chars))
    return SymStr(chars)


def join_str(sep, parts):
    """str.join."""
    parts = list(parts)
    if any(type(p) is SymStr for p in parts) or type(sep) is SymStr:
        out: list = []
        for idx, part in enumerate(parts):
            if idx:
                out += chars_of(sep)
            out += chars_of(part)
        return mkstr(out)
    res: list = []
    for idx, part in enumerate(parts):
        if idx and sep:
            res.append(sep)
        if type(part) is SymText:
            res += part.parts
        elif isinstance(part, str):
            res.append(part)
        else:
            raise TypeError("sequence item: expected str instance")
    return SymText(res)


def encode_str(val: SymStr, encoding="utf-8", errors="strict"):
    """str.encode of a symbolic text."""
    enc = encoding.lower().replace("_", "-")
    out: list = []
    for char in val.ch:
        if type(char) is int:
            out += list(chr(char).encode(encoding, errors))
            continue
        if enc in ("utf-8", "utf8"):
            if char < 0x80:
                out.append(char)
            elif char < 0x800:
                out += [
                    CharByte(char, 2, 0, char // 64 + 0xC0),
                    CharByte(char, 2, 1, char % 64 + 0x80),
                ]
            elif char < 0x10000:
                if char >= 0xD800 and char <= 0xDFFF:
                    if errors in ("replace", "ignore"):
                        out += [63] if errors == "replace" else []
                        continue
                    raise UnicodeEncodeError(
                        "utf-8", "?", 0, 1, "surrogates not allowed"
                    )
                out += [
                    CharByte(char, 3, 0, char // 4096 + 0xE0),
                    CharByte(char, 3, 1, char // 64 % 64 + 0x80),
                    CharByte(char, 3, 2, char % 64 + 0x80),
                ]
            else:
                out += [
                    CharByte(char, 4, 0, char // 262144 + 0xF0),
                    CharByte(char, 4, 1, char // 4096 % 64 + 0x80),
                    CharByte(char, 4, 2, char // 64 % 64 + 0x80),
                    CharByte(char, 4, 3, char % 64 + 0x80),
                ]
        elif enc in ("latin-1", "iso-8859-1", "latin1", "ascii"):
            top = 127 if enc == "ascii" else 255
            if char <= top:
                out.append(char)
            elif errors == "strict":
                raise UnicodeEncodeError(
                    enc, "?", 0, 1, "ordinal not in range"
                )
            else:
                out += list(
                    chr(cur().pin(char.e, "encoding").as_long()).encode(
                        encoding, errors
                    )
                )
        else:
            out += list(
                chr(cur().pin(char.e, "encoding").as_long()).encode(
                    encoding, errors
                )
            )
    return SymBytes(out, False)


SYM_TYPES = (
    SymBool,
    SymInt,
    SymFix,
    SymFP,
    SymQuot,
    SymBytes,
    SymText,
    SymStr,
)
SYM_SET = frozenset(SYM_TYPES)


def is_sym(val) -> bool:
    """Whether a value itself is a symbolic one."""
    return type(val) in SYM_SET


def real(val):
    """The real value of anything (concretising by forking)."""
    typ = type(val)
    if typ is SymBool:
        return bool(val)
    if typ in (SymInt, SymFix, SymFP, SymQuot, SymText, SymStr):
        return val.real()
    if typ is SymBytes:
        return val.real()
    return val


def deep_sym(val, depth: int = 6) -> bool:
    """Whether a structure contains a symbolic value."""
    typ = type(val)
    if typ in SYM_SET:
        return not (typ is SymBytes and val.concrete())
    if depth == 0:
        return False
    if isinstance(val, dict):
        return any(
            deep_sym(k, depth - 1) or deep_sym(v, depth - 1)
            for k, v in dict.items(val)
        )
    if isinstance(val, (list, tuple, set, frozenset)):
        return any(deep_sym(x, depth - 1) for x in val)
    return False


def deep_real(val):
    """A structure with every symbolic value made real."""
    typ = type(val)
    if typ in SYM_SET:
        return real(val)
    if typ in (list, tuple, set, frozenset):
        return typ(deep_real(x) for x in val)
    if typ is dict:
        return {deep_real(k): deep_real(v) for k, v in val.items()}
    return val


def eval_model(val, model):
    """A JSON-able rendering of a value under a model."""
    typ = type(val)
    if typ is SymBool:
        return bool(z3.is_true(model.eval(val.e, model_completion=True)))
    if typ is SymInt:
        return model.eval(val.e, model_completion=True).as_long()
    if typ is SymFix:
        num = model.eval(val.e, model_completion=True).as_long()
        return canon(math.ldexp(float(num), -val.s))
    if typ is SymFP:
        return canon(fp_value(model.eval(val.e, model_completion=True)))
    if typ is SymQuot:
        return canon(
            eval_model(val.num, model) / eval_model(val.den, model)
        )
    if typ is SymBytes:
        return {
            "hex": bytes(
                eval_model(byte_val(x), model) for x in val.el
            ).hex()
        }
    if typ is SymText:
        return "".join(
            x if type(x) is str else text_of(eval_model(x, model))
            for x in val.parts
        )
    if typ is SymStr:
        return "".join(chr(eval_model(x, model)) for x in val.ch)
    if isinstance(val, dict):
        return {
            "dict": [
                [eval_model(k, model), eval_model(v, model)]
                for k, v in val.items()
            ]
        }
    if isinstance(val, (list, tuple)):
        return [eval_model(x, model) for x in val]
    return canon(val)


def text_of(val) -> str:
    """str() of a canonical value."""
    if isinstance(val, dict) and "float" in val:
        return repr(float.fromhex(val["float"]))
    return str(val)


def canon(val):
    """A canonical JSON-able form of a concrete value."""
    if isinstance(val, bool) or val is None:
        return val
    if isinstance(val, int):
        return int(val)
    if isinstance(val, float):
        if math.isnan(val):
            return {"float": "nan"}
        return {"float": val.hex()}
    if isinstance(val, (bytes, bytearray)):
        return {"hex": bytes(val).hex()}
    if isinstance(val, str):
        return str(val)
    if isinstance(val, dict):
        return {"dict": [[canon(k), canon(v)] for k, v in val.items()]}
    if isinstance(val, (list, tuple)):
        return [canon(x) for x in val]
    if isinstance(val, (set, frozenset)):
        return {"set": sorted(repr(canon(x)) for x in val)}
    if isinstance(val, Enum):
        return {"enum": str(val)}
    if isinstance(val, BaseException):
        return {"exc": type(val).__name__}
    return {"repr": type(val).__name__}
