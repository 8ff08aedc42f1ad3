"""Symbolic values: proxies that stand for every value within a bound.

A proxy answers isinstance() like the Python type it stands for (__class__),
keeps concrete parts concrete, and only asks the engine for a decision when
Python needs a definite answer (a truth value, a length, a dict slot).
"""
from __future__ import annotations

import bisect
import datetime as _dt
import functools

import z3

from . import core

CW = 21  # bits of a code point
LW = 16  # bits of a length


def eng():
    return core.CURRENT


# ---------------------------------------------------------------- booleans
def zbool(b):
    """Python bool / SymBool / z3 bool -> z3 bool."""
    if b is True or b is False:
        return z3.BoolVal(b)
    if issubclass(type(b), SymBool):
        return b.z
    if isinstance(b, z3.BoolRef):
        return b
    if type(b) is SymInt:
        return b.z != 0
    if isinstance(b, SymSeq):
        return zbool(b.truth())
    return z3.BoolVal(bool(b))


def mkbool(z):
    if z is True or z is False:
        return z
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def z_and(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def z_or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def z_not(x):
    if x is True:
        return False
    if x is False:
        return True
    return z3.Not(x)


def zraw(b):
    """bool-ish -> True/False/z3 expression (for z_and and friends)."""
    if b is True or b is False:
        return b
    if issubclass(type(b), SymBool):
        return b.z
    return zbool(b)


def decide(z):
    if z is True or z is False:
        return z
    return eng().decide(z)


class SymBool:
    __slots__ = ("z", "on_true")

    def __init__(self, z, on_true=None):
        self.z = z
        self.on_true = on_true

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        r = eng().decide(self.z)
        if r and self.on_true is not None:
            self.on_true()
        return r

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(z_and(self.z, zraw(o)))
        return SymInt(bool_bv(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(z_or(self.z, zraw(o)))
        return SymInt(bool_bv(self)) | o

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, zbool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return ~SymInt(bool_bv(self))

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(self.z == zbool(o))
        if isinstance(o, int):
            return SymInt(bool_bv(self)) == o
        return False

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return SymInt(bool_bv(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return o * int(bool(self))

    __rmul__ = __mul__

    def __lt__(self, o):
        return SymInt(bool_bv(self)) < o

    def __le__(self, o):
        return SymInt(bool_bv(self)) <= o

    def __gt__(self, o):
        return SymInt(bool_bv(self)) > o

    def __ge__(self, o):
        return SymInt(bool_bv(self)) >= o

    def __repr__(self):
        return "<SymBool>"

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymNot(SymBool):
    """negation that keeps what its operand implies when true"""

    __slots__ = ("inner",)

    def __init__(self, inner):
        SymBool.__init__(self, z3.Not(inner.z))
        self.inner = inner

    def __bool__(self):
        return not bool(self.inner)


def sym_not(b):
    if type(b) is SymBool:
        if b.on_true is not None:
            return SymNot(b)
        return mkbool(z3.Not(b.z))
    if type(b) is SymNot:
        return b.inner
    return not b


def bool_bv(b):
    return z3.If(b.z, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))


# ---------------------------------------------------------------- integers
def int_z(v):
    """int-like -> signed BV."""
    if type(v) is SymInt:
        return v.z
    if issubclass(type(v), SymBool):
        return bool_bv(v)
    v = int(v)
    return z3.BitVecVal(v, v.bit_length() + 1)


def mkint(z):
    z = z3.simplify(z)
    if z3.is_bv_value(z):
        return z.as_signed_long()
    return SymInt(z)


def sext(z, w):
    d = w - z.size()
    return z3.SignExt(d, z) if d > 0 else z


def ubv(z):
    """unsigned BV -> SymInt/int"""
    return mkint(z3.ZeroExt(1, z))


def pair(a, b, extra=0):
    x, y = int_z(a), int_z(b)
    w = max(x.size(), y.size()) + extra
    return sext(x, w), sext(y, w)


def is_intlike(o):
    return type(o) in (SymInt, SymBool, SymNot) or isinstance(o, int)


MILLION = 1000000


def parts_of(v):
    """(seconds, microseconds) of an integer, or None when not known apart"""
    if type(v) is SymInt:
        return v.parts
    return divmod(int(v), MILLION) if type(v) is int else None


def micro(sec, frac):
    """sec * 10**6 + frac with 0 <= frac < 10**6, kept apart: no multiplier and
    no divider ever reaches the solver"""
    if type(sec) is int and type(frac) is int:
        return sec * MILLION + frac
    r = SymInt(None)
    r.parts = (sec, frac)
    return r


def parts_add(a, b, sign=1):
    (s, f), (t, g) = a, b
    if type(g) is int and g == 0:
        return micro(s + t if sign > 0 else s - t, f)
    if type(f) is int and f == 0 and sign > 0:
        return micro(s + t, g)
    if sign < 0:
        s, f = s - t, f - g
        if type(f) is int and f >= 0:
            return micro(s, f)
        neg = zbool(f < 0)
        return micro(s - mkint(z3.If(neg, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))), f + mkint(z3.If(neg, z3.BitVecVal(MILLION, 22), z3.BitVecVal(0, 22))))
    s, f = s + t, f + g
    if type(f) is int and f < MILLION:
        return micro(s, f)
    over = zbool(f >= MILLION)
    return micro(s + mkint(z3.If(over, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))), f - mkint(z3.If(over, z3.BitVecVal(MILLION, 22), z3.BitVecVal(0, 22))))


def parts_cmp(a, b, op):
    """lexicographic comparison -> z3/bool"""
    (s, f), (t, g) = a, b
    lt, eq = zraw(s < t), zraw(s == t)
    if op == "==":
        return z_and(eq, zraw(f == g))
    if op in (">", "<="):
        r = z_or(zraw(s > t), z_and(eq, zraw(f > g)))
        return r if op == ">" else z_not(r)
    r = z_or(lt, z_and(eq, zraw(f < g)))
    return r if op == "<" else z_not(r)


class SymInt:
    __slots__ = ("_z", "parts")

    def __init__(self, z):
        self._z, self.parts = z, None

    @property
    def z(self):
        if self._z is None:
            s, f = int_z(self.parts[0]), int_z(self.parts[1])
            w = s.size() + 22
            self._z = sext(s, w) * z3.BitVecVal(MILLION, w) + sext(f, w)
        return self._z

    def _parted(self, o):
        """both parts when comparing/adding needs no flattening"""
        if type(o) is SymInt:
            return (self.parts, o.parts) if self.parts and o.parts else None
        if self.parts and type(o) is int:
            return self.parts, divmod(o, MILLION)
        return None

    @property
    def __class__(self):
        return int

    def __bool__(self):
        return eng().decide(self.z != 0)

    def __eq__(self, o):
        if isinstance(o, SymFloat):
            return o == self
        if isinstance(o, float):
            if o != int(o):
                return False
            o = int(o)
        if not is_intlike(o):
            return False
        p = self._parted(o)
        if p:
            return mkbool(parts_cmp(*p, "=="))
        x, y = pair(self, o)
        return mkbool(z3.simplify(x == y))

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        return 0x51

    def _cmp(self, o, f, g, op):
        if type(o) is SymFloat:
            return g(o)
        if isinstance(o, float):
            return g(SymFloat.lift(o))
        if not is_intlike(o):
            return NotImplemented
        p = self._parted(o)
        if p:
            return mkbool(parts_cmp(*p, op))
        x, y = pair(self, o)
        return mkbool(z3.simplify(f(x, y)))

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y, lambda f: f > self, "<")

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y, lambda f: f >= self, "<=")

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y, lambda f: f < self, ">")

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y, lambda f: f <= self, ">=")

    def __add__(self, o):
        if isinstance(o, (SymFloat, float)):
            return SymFloat.lift(self) + o
        if not is_intlike(o):
            return NotImplemented
        p = self._parted(o)
        if p:
            return parts_add(*p)
        x, y = pair(self, o, 1)
        return mkint(x + y)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymFloat, float)):
            return SymFloat.lift(self) - o
        if not is_intlike(o):
            return NotImplemented
        p = self._parted(o)
        if p:
            return parts_add(*p, -1)
        x, y = pair(self, o, 1)
        return mkint(x - y)

    def __rsub__(self, o):
        if not is_intlike(o):
            return NotImplemented
        if self.parts and type(o) is int:
            return parts_add(divmod(o, MILLION), self.parts, -1)
        x, y = pair(o, self, 1)
        return mkint(x - y)

    def __mul__(self, o):
        if isinstance(o, (SymSeq, str, bytes, list, tuple)):
            return o * self.__index__()
        if not is_intlike(o):
            return NotImplemented
        if type(o) is int and o in (0, 1):
            return self if o else 0
        if type(o) is int and o > 0 and o % MILLION == 0 and not self.parts:
            return micro(self * (o // MILLION), 0)
        x, y = int_z(self), int_z(o)
        w = x.size() + y.size()
        return mkint(sext(x, w) * sext(y, w))

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __invert__(self):
        return mkint(~self.z)

    def __divmod__(self, o):
        return self // o, self % o

    def _floordivmod(self, a, b):
        if not (is_intlike(a) and is_intlike(b)):
            return NotImplemented
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if type(a) is SymInt and a.parts and type(b) is int and b == MILLION:
            return a.parts
        x, y = pair(a, b, 1)
        q, r = x / y, z3.SRem(x, y)
        adj = z3.And(r != 0, (r < 0) != (y < 0))
        one = z3.BitVecVal(1, x.size())
        return mkint(z3.If(adj, q - one, q)), mkint(z3.If(adj, r + y, r))

    def __floordiv__(self, o):
        r = self._floordivmod(self, o)
        return r if r is NotImplemented else r[0]

    def __rfloordiv__(self, o):
        r = self._floordivmod(o, self)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        r = self._floordivmod(self, o)
        return r if r is NotImplemented else r[1]

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        r = self._floordivmod(o, self)
        return r if r is NotImplemented else r[1]

    def __truediv__(self, o):
        return self.__index__() / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    def _bit(self, o, f):
        if not is_intlike(o):
            return NotImplemented
        x, y = pair(self, o)
        return mkint(f(x, y))

    def __and__(self, o):
        return self._bit(o, lambda x, y: x & y)

    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, lambda x, y: x | y)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, lambda x, y: x ^ y)

    __rxor__ = __xor__

    def __lshift__(self, o):
        k = o.__index__()
        w = self.z.size() + k
        return mkint(sext(self.z, w) << k)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        k = o.__index__()
        return mkint(self.z >> min(k, self.z.size() - 1))

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and type(o) is int and mod is None and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.__index__(), o.__index__(), mod)

    def __rpow__(self, o):
        return o ** self.__index__()

    def bit_length(self):
        w = self.z.size()
        a = z3.If(self.z < 0, -sext(self.z, w + 1), sext(self.z, w + 1))
        lw = w.bit_length() + 1
        r = z3.BitVecVal(0, lw)
        for i in range(w):
            r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(i + 1, lw), r)
        return mkint(r)

    def bit_count(self):
        return self.__index__().bit_count()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        n = length.__index__()
        if n < 0:
            raise ValueError("length argument must be non-negative")
        if not signed and self < 0:
            raise OverflowError("can't convert negative int to unsigned")
        if signed:
            w = max(self.z.size(), 8 * n + 1)
            lo, hi = -(1 << (8 * n - 1)) if n else 0, (1 << (8 * n - 1)) - 1 if n else 0
            if not decide(z_and(zraw(self >= lo), zraw(self <= hi))):
                raise OverflowError("int too big to convert")
        else:
            if not decide(zraw(self < (1 << (8 * n)))):
                raise OverflowError("int too big to convert")
        if n == 0:
            return b""
        z = sext(self.z, max(self.z.size(), 8 * n))
        out = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, z)) for i in range(n)]
        out = [c.as_long() if z3.is_bv_value(c) else c for c in out]
        if byteorder == "big":
            out.reverse()
        return mkseq(SymBytes, out)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return self, 1

    def __index__(self):
        w = self.z.size()
        v = eng().choose(self.z)
        return v - (1 << w) if v >> (w - 1) else v

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __trunc__(self):
        return self

    __floor__ = __trunc__
    __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return "<SymInt>"

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def dec(self):
        """decimal text, materialised lazily"""
        return SymStr(thunk=lambda: _decimal_chars(self), meta=("dec", self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _decimal_chars(x):
    neg = bool(x < 0)
    a = -x if neg else x
    n = 1
    while not bool(a < 10**n):
        n += 1
    out = []
    if is_intlike(a) and type(a) is not SymInt:
        return tuple(ord(c) for c in ("-" if neg else "") + str(a))
    # fresh digits tied to the number by their weighted sum (existing and unique
    # for 10**(n-1) <= a < 10**n): adders only, no dividers
    e = eng()
    w = max(a.z.size(), (10**n).bit_length()) + 1
    total = z3.BitVecVal(0, w)
    for i in reversed(range(n)):
        c = z3.BitVec(e.fresh_name("digit"), CW)
        lo = 49 if i == n - 1 and n > 1 else 48
        e.assume(z3.And(z3.UGE(c, lo), z3.ULE(c, 57)))
        set_charset(c, range(lo, 58))
        total = total + z3.ZeroExt(w - 4, z3.Extract(3, 0, c)) * z3.BitVecVal(10**i, w)
        out.append(c)
    e.assume(total == sext(a.z, w))
    e.memo[("decimal", tuple(c.get_id() for c in out))] = (tuple(out), a)
    return tuple(([45] if neg else []) + out)


def to_char(v, w):
    """int-like 0 <= v < 2**w -> char (int or BV of width w)."""
    if type(v) is SymInt:
        z = v.z
        z = z3.Extract(w - 1, 0, z) if z.size() >= w else z3.ZeroExt(w - z.size(), z)
        z = z3.simplify(z)
        return z.as_long() if z3.is_bv_value(z) else z
    return int(v)


# ---------------------------------------------------------------- floats
class SymFloat:
    """An exact number of microseconds seen as a float of seconds."""

    __slots__ = ("us",)

    def __init__(self, us):
        self.us = us

    @property
    def __class__(self):
        return float

    @staticmethod
    def lift(v):
        if type(v) is SymFloat:
            return v
        if is_intlike(v):
            return SymFloat(v * 1000000)
        if isinstance(v, float):
            return SymFloat(round(v * 1000000))
        return None

    def _c(self, o, f):
        o = SymFloat.lift(o)
        return NotImplemented if o is None else f(self.us, o.us)

    def __eq__(self, o):
        o = SymFloat.lift(o)
        return False if o is None else self.us == o.us

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        return 0x51

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __add__(self, o):
        return self._c(o, lambda a, b: SymFloat(a + b))

    __radd__ = __add__

    def __sub__(self, o):
        return self._c(o, lambda a, b: SymFloat(a - b))

    def __rsub__(self, o):
        return self._c(o, lambda a, b: SymFloat(b - a))

    def __neg__(self):
        return SymFloat(0 - self.us)

    def __mul__(self, o):
        if is_intlike(o):
            return SymFloat(self.us * o)
        if isinstance(o, float) and o == int(o):
            return SymFloat(self.us * int(o))
        return self.concrete() * o

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if is_intlike(o):
            return SymFloat((self.us // (o * 1000000)) * 1000000)
        return self.concrete() // o

    def __truediv__(self, o):
        return self.concrete() / o

    def __mod__(self, o):
        if is_intlike(o):
            return SymFloat(self.us % (o * 1000000))
        return self.concrete() % o

    def trunc(self):
        if self.us >= 0:
            return self.us // 1000000
        return -((-self.us) // 1000000)

    __trunc__ = trunc
    __int__ = trunc

    def __floor__(self):
        return self.us // 1000000

    def __ceil__(self):
        return -((-self.us) // 1000000)

    def __round__(self, n=None):
        if n:
            return self
        q, r = self.us // 1000000, self.us % 1000000
        v = q if r < 500000 else q + 1 if r > 500000 else q + (q % 2)
        return v if n is None else SymFloat(v * 1000000)

    def is_integer(self):
        return (self.us % 1000000) == 0

    def __bool__(self):
        return bool(self.us != 0)

    def concrete(self):
        us = self.us.__index__()
        return us / 1000000

    __float__ = concrete

    def __repr__(self):
        return "<SymFloat>"

    def __str__(self):
        return str(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __deepcopy__(self, memo):
        return self


# ---------------------------------------------------------------- time
class SymTimedelta:
    __slots__ = ("us",)

    def __init__(self, us):
        self.us = us

    @property
    def __class__(self):
        return _dt.timedelta

    @staticmethod
    def lift(v):
        if type(v) is SymTimedelta:
            return v
        if isinstance(v, _dt.timedelta):
            return SymTimedelta((v.days * 86400 + v.seconds) * 1000000 + v.microseconds)
        return None

    def total_seconds(self):
        return SymFloat(self.us)

    @property
    def days(self):
        return self.us // 86400000000

    @property
    def seconds(self):
        return (self.us % 86400000000) // 1000000

    @property
    def microseconds(self):
        return self.us % 1000000

    def _c(self, o, f):
        o = SymTimedelta.lift(o)
        return NotImplemented if o is None else f(self.us, o.us)

    def __eq__(self, o):
        o = SymTimedelta.lift(o)
        return False if o is None else self.us == o.us

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        return 0x51

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __add__(self, o):
        d = SymDatetime.lift(o)
        if d is not None:
            return d + self
        return self._c(o, lambda a, b: SymTimedelta(a + b))

    __radd__ = __add__

    def __sub__(self, o):
        return self._c(o, lambda a, b: SymTimedelta(a - b))

    def __rsub__(self, o):
        d = SymDatetime.lift(o)
        if d is not None:
            return d - self
        return self._c(o, lambda a, b: SymTimedelta(b - a))

    def __abs__(self):
        return SymTimedelta(abs(self.us))

    def __neg__(self):
        return SymTimedelta(0 - self.us)

    def __bool__(self):
        return bool(self.us != 0)

    def __deepcopy__(self, memo):
        return self


def dt_us(d):
    """wall-clock microseconds of a real datetime since 1970 (its own fields)."""
    return int((d.replace(tzinfo=None) - _dt.datetime(1970, 1, 1)) // _dt.timedelta(microseconds=1))


class SymDatetime:
    """Wall-clock fields as microseconds since 1970 plus a UTC offset in
    microseconds (None: naive)."""

    __slots__ = ("us", "off")

    def __init__(self, us, off=None):
        self.us, self.off = us, off

    @property
    def __class__(self):
        return _dt.datetime

    @staticmethod
    def lift(v):
        if type(v) is SymDatetime:
            return v
        if isinstance(v, _dt.datetime):
            o = v.utcoffset()
            return SymDatetime(dt_us(v), None if o is None else SymTimedelta.lift(o).us)
        return None

    @property
    def tzinfo(self):
        if self.off is None:
            return None
        return _dt.timezone.utc if type(self.off) is int and self.off == 0 else SymTz(self.off)

    def utcoffset(self):
        return None if self.off is None else SymTimedelta(self.off)

    def timestamp(self):
        off = self.off
        if off is None:
            off = local_offset_us()
        return SymFloat(self.us - off)

    def replace(self, **kw):
        kw = dict(kw)
        off, us = self.off, self.us
        if "tzinfo" in kw:
            tz = kw.pop("tzinfo")
            off = tz_offset(tz)
        if "microsecond" in kw:
            us = us - us % 1000000 + kw.pop("microsecond")
        if kw:
            core.CURRENT.cut("datetime.replace of calendar fields")
        return SymDatetime(us, off)

    def astimezone(self, tz=None):
        off = self.off if self.off is not None else local_offset_us()
        new = local_offset_us() if tz is None else tz_offset(tz)
        return SymDatetime(self.us - off + new, new)

    def utctimetuple(self):
        return SymStruct(self.us - (self.off or 0), "utc")

    def timetuple(self):
        return SymStruct(self.us, "wall")

    @property
    def microsecond(self):
        return self.us % 1000000

    def _instants(self, o):
        return (self.us, o.us) if self.off is None else (self.us - self.off, o.us - o.off)

    def _c(self, o, f):
        o = SymDatetime.lift(o)
        if o is None:
            return NotImplemented
        if (self.off is None) != (o.off is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return f(*self._instants(o))

    def __eq__(self, o):
        o = SymDatetime.lift(o)
        if o is None or (self.off is None) != (o.off is None):
            return False
        a, b = self._instants(o)
        return a == b

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        return 0x51

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __add__(self, o):
        o = SymTimedelta.lift(o)
        return NotImplemented if o is None else SymDatetime(self.us + o.us, self.off)

    __radd__ = __add__

    def __sub__(self, o):
        d = SymTimedelta.lift(o)
        if d is not None:
            return SymDatetime(self.us - d.us, self.off)
        o = SymDatetime.lift(o)
        if o is None:
            return NotImplemented
        if (self.off is None) != (o.off is None):
            raise TypeError("can't subtract offset-naive and offset-aware datetimes")
        a, b = self._instants(o)
        return SymTimedelta(a - b)

    def __rsub__(self, o):
        o = SymDatetime.lift(o)
        return NotImplemented if o is None else o - self

    def __bool__(self):
        return True

    def concrete(self):
        us = self.us.__index__()
        d = _dt.datetime(1970, 1, 1) + _dt.timedelta(microseconds=us)
        if self.off is not None:
            d = d.replace(tzinfo=_dt.timezone(_dt.timedelta(microseconds=self.off.__index__())))
        return d

    def __repr__(self):
        return "<SymDatetime>"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        eng().note_incomplete(f"datetime.{name} concretised")
        return getattr(self.concrete(), name)

    def __deepcopy__(self, memo):
        return self


class SymStruct:
    def __init__(self, us, kind):
        self.us, self.kind = us, kind


class SymTz(_dt.tzinfo):
    def __init__(self, off):
        self.off = off

    def utcoffset(self, dt):
        return SymTimedelta(self.off)


def tz_offset(tz):
    if tz is None:
        return None
    if isinstance(tz, SymTz):
        return tz.off
    o = tz.utcoffset(None)
    if o is None:
        o = tz.utcoffset(_dt.datetime(2022, 1, 1))
    return SymTimedelta.lift(o).us


def local_offset_us():
    """The process time zone: a fixed symbolic offset set by the harness."""
    return eng().memo.get("tz", 0)


# ---------------------------------------------------------------- characters
def ceq(a, b, w):
    """equality of two chars -> True/False/z3"""
    ia, ib = type(a) is int, type(b) is int
    if ia and ib:
        return a == b
    if ia:
        a, b, ia, ib = b, a, ib, ia
    if ib:
        if b >= (1 << w):
            return False
        cs = eng().charset.get(a.get_id())
        if cs is not None and b not in cs[1]:
            return False
        return a == z3.BitVecVal(b, w)
    if a.get_id() == b.get_id():
        return True
    ca, cb = eng().charset.get(a.get_id()), eng().charset.get(b.get_id())
    if ca is not None and cb is not None and not (ca[1] & cb[1]):
        return False
    return a == b


def known_char(c):
    if type(c) is int:
        return c
    m = eng().charset.get(c.get_id())
    if m is not None and len(m[1]) == 1:
        return next(iter(m[1]))
    return c


def set_charset(c, s):
    eng().charset[c.get_id()] = (c, frozenset(s))


@functools.lru_cache(maxsize=None)
def intervals(fname, hi):
    """maximal intervals of code points whose predicate is true"""
    out, start = [], None
    for i in range(hi + 1):
        if hi == 255 and fname.startswith("b:"):
            v = getattr(bytes([i]), fname[2:])()
        else:
            v = getattr(chr(i), fname)()
        if v and start is None:
            start = i
        if not v and start is not None:
            out.append((start, i - 1))
            start = None
    if start is not None:
        out.append((start, hi))
    return out


def in_ranges(c, rs, w):
    if type(c) is int:
        return any(a <= c <= b for a, b in rs)
    cs = eng().charset.get(c.get_id())
    if cs is not None:
        hits = [any(a <= x <= b for a, b in rs) for x in cs[1]]
        if all(hits):
            return True
        if not any(hits):
            return False
    top = (1 << w) - 1
    ors = []
    for a, b in rs:
        if a > top:
            continue
        b = min(b, top)
        if a == b:
            ors.append(c == z3.BitVecVal(a, w))
        elif a == 0:
            ors.append(z3.ULE(c, z3.BitVecVal(b, w)))
        elif b == top:
            ors.append(z3.UGE(c, z3.BitVecVal(a, w)))
        else:
            ors.append(z3.And(z3.UGE(c, z3.BitVecVal(a, w)), z3.ULE(c, z3.BitVecVal(b, w))))
    return z_or(*ors)


def ranges_of(codes):
    out = []
    for c in sorted(codes):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return tuple((a, b) for a, b in out)


def in_set(c, codes, w):
    """codes: frozenset of ints"""
    if type(c) is int:
        return c in codes
    return in_ranges(c, ranges_of(codes), w)


ASCII_LOWER = ((97, 122),)
ASCII_UPPER = ((65, 90),)


@functools.lru_cache(maxsize=None)
def changing(fname):
    """intervals of code points >= 128 changed by str.lower/upper/..."""
    out, start = [], None
    for i in range(128, 0x110000):
        v = getattr(chr(i), fname)() != chr(i)
        if v and start is None:
            start = i
        if not v and start is not None:
            out.append((start, i - 1))
            start = None
    return tuple(out)


# ---------------------------------------------------------------- sequences
def is_sym(v):
    return isinstance_sym(v)


def isinstance_sym(v):
    t = type(v)
    return t in SYM_TYPES or issubclass(t, SymSeq)


def kind_of(v):
    """'s' / 'b' / None for str-like / bytes-like"""
    if isinstance(v, SymSeq):
        return v.KIND
    if isinstance(v, str):
        return "s"
    if isinstance(v, (bytes, bytearray, memoryview)):
        return "b"
    return None


def chars_of(v):
    if isinstance(v, SymSeq):
        return v.fix()
    if isinstance(v, str):
        return tuple(map(ord, v))
    return tuple(bytes(v))


def mkseq(cls, chars):
    """chars -> native str/bytes when concrete, proxy otherwise"""
    chars = tuple(chars)
    for c in chars:
        if type(c) is not int:
            return cls(chars)
    return cls.native(chars)


class SymSeq:
    KIND = None
    W = 0
    PY = None

    def __init__(self, chars=None, nz=None, thunk=None, meta=None):
        self._chars, self._nz, self._thunk, self.meta = chars, nz, thunk, meta
        self._sub = None

    # -- structure
    @property
    def chars(self):
        if self._chars is None:
            c = self._thunk()
            if isinstance(c, SymSeq):
                c, self._nz = c.chars, c._nz
            elif isinstance(c, (str, bytes)):
                c = chars_of(c)
            self._chars, self._thunk = tuple(c), None
        return self._chars

    def fix(self):
        """resolve the length; returns the characters"""
        c = self.chars
        if self._nz is not None:
            n = eng().choose(self._nz)
            self._chars, self._nz = c[:n], None
            c = self._chars
        cs = eng().charset
        if cs:
            for x in c:
                if type(x) is not int:
                    m = cs.get(x.get_id())
                    if m is not None and len(m[1]) == 1:
                        self._chars = tuple(known_char(x) for x in c)
                        break
        return self._chars

    @property
    def __class__(self):
        return self._sub or self.PY

    def new(self, chars):
        return mkseq(type(self) if type(self) in (SymStr, SymBytes) else self.BASE, chars)

    def length(self):
        c = self.chars
        if self._nz is None:
            return len(c)
        return ubv(self._nz)

    def truth(self):
        c = self.chars
        if self._nz is None:
            return len(c) > 0
        return mkbool(self._nz != 0)

    def __len__(self):
        return len(self.fix())

    def __bool__(self):
        t = self.truth()
        return t if type(t) is bool else bool(t)

    def __hash__(self):
        return 0x51

    def eqz(self, o):
        """-> True/False/z3"""
        if self is o:
            return True
        if kind_of(o) != self.KIND:
            return False
        if isinstance(o, SymSeq):
            if self.meta is not None and o.meta is not None and self.meta[0] == o.meta[0] == "dec":
                return zraw(self.meta[1] == o.meta[1])
            oc, on = o.chars, o._nz
        else:
            oc, on = chars_of(o), None
        sc, sn = self.chars, self._nz
        w = self.W
        if sn is None and on is None:
            if len(sc) != len(oc):
                return False
            out = []
            for a, b in zip(sc, oc):
                e = ceq(a, b, w)
                if e is False:
                    return False
                if e is not True:
                    out.append(e)
            return z_and(*out)
        if sn is None:
            sc, sn, oc, on = oc, on, sc, sn
        # sn symbolic
        if on is None:
            if len(oc) > len(sc):
                return False
            out = [sn == z3.BitVecVal(len(oc), LW)]
            for a, b in zip(sc, oc):
                out.append(ceq(a, b, w))
            return z_and(*out)
        m = min(len(sc), len(oc))
        out = [sn == on, z3.ULE(sn, z3.BitVecVal(m, LW))]
        for i in range(m):
            e = ceq(sc[i], oc[i], w)
            if e is True:
                continue
            g = z3.UGT(sn, z3.BitVecVal(i, LW))
            out.append(z3.Not(g) if e is False else z3.Implies(g, e))
        return z_and(*out)

    def __eq__(self, o):
        r = mkbool(self.eqz(o))
        if issubclass(type(r), SymBool):
            if not isinstance(o, SymSeq):
                r.on_true = lambda: self._becomes(chars_of(o))
            elif o._nz is None and all(type(c) is int for c in o.chars):
                r.on_true = lambda: self._becomes(o.chars)
            elif self._nz is None and all(type(c) is int for c in self.chars):
                r.on_true = lambda: o._becomes(self.chars)
        return r

    def _becomes(self, codes):
        """the path implies this string is the given concrete one"""
        if len(self.chars) < len(codes):
            return
        for c, v in zip(self.chars, codes):
            if type(c) is not int:
                set_charset(c, (v,))
        self._chars, self._nz = tuple(codes), None

    def __ne__(self, o):
        return sym_not(self == o)

    def _lt(self, a, b, strict):
        a, b = chars_of(a), chars_of(b)
        for i in range(min(len(a), len(b))):
            if decide(ceq(a[i], b[i], self.W)):
                continue
            x, y = a[i], b[i]
            x = z3.BitVecVal(x, self.W) if type(x) is int else x
            y = z3.BitVecVal(y, self.W) if type(y) is int else y
            return mkbool(z3.simplify(z3.ULT(x, y)))
        return len(a) < len(b) if strict else len(a) <= len(b)

    def _ordered(self, o):
        return kind_of(o) == self.KIND

    def __lt__(self, o):
        return self._lt(self, o, True) if self._ordered(o) else NotImplemented

    def __le__(self, o):
        return self._lt(self, o, False) if self._ordered(o) else NotImplemented

    def __gt__(self, o):
        return self._lt(o, self, True) if self._ordered(o) else NotImplemented

    def __ge__(self, o):
        return self._lt(o, self, False) if self._ordered(o) else NotImplemented

    def __iter__(self):
        for c in self.fix():
            yield self._item(c)

    def __reversed__(self):
        for c in reversed(self.fix()):
            yield self._item(c)

    def __getitem__(self, i):
        if isinstance(i, slice):
            f = lambda v: None if v is None else v.__index__()
            sl = slice(f(i.start), f(i.stop), f(i.step))
            if self._nz is not None and sl.step in (None, 1) and (sl.start in (None, 0)) and sl.stop is not None and sl.stop >= 0:
                k = min(sl.stop, len(self.chars))
                kz = z3.BitVecVal(k, LW)
                return type(self)(self.chars[:k], z3.simplify(z3.If(z3.ULT(self._nz, kz), self._nz, kz)))
            return self.new(self.fix()[sl])
        return self._item(self.fix()[i.__index__()])

    def __add__(self, o):
        if kind_of(o) != self.KIND:
            if self.KIND == "s":
                raise TypeError(f'can only concatenate str (not "{pytype(o).__name__}") to str')
            raise TypeError(f"can't concat {pytype(o).__name__} to bytes")
        if not isinstance(o, SymSeq) and not o:
            return self
        return self.new(self.fix() + chars_of(o))

    def __radd__(self, o):
        if kind_of(o) != self.KIND:
            if isinstance(o, (str, bytes)):
                raise TypeError("can only concatenate str (not bytes) to str")
            return NotImplemented
        if not o:
            return self
        return self.new(chars_of(o) + self.fix())

    def __mul__(self, k):
        return self.new(self.fix() * k.__index__())

    __rmul__ = __mul__

    def __contains__(self, x):
        return decide(self.contains(x))

    def contains(self, x):
        if self.KIND == "b" and is_intlike(x):
            x = SymBytes((to_char(x, 8),))
        if kind_of(x) != self.KIND:
            raise TypeError(f"'in <string>' requires string as left operand, not {pytype(x).__name__}")
        n = chars_of(x)
        if self._nz is not None and len(n) == 1:
            out = []
            for i, c in enumerate(self.chars):
                e = ceq(c, n[0], self.W)
                if e is False:
                    continue
                g = z3.UGT(self._nz, z3.BitVecVal(i, LW))
                out.append(g if e is True else z3.And(g, e))
            return z_or(*out)
        h = self.fix()
        return z_or(*[self._match(h, i, n) for i in range(len(h) - len(n) + 1)])

    def _match(self, h, i, n):
        out = []
        for j, c in enumerate(n):
            e = ceq(h[i + j], c, self.W)
            if e is False:
                return False
            if e is not True:
                out.append(e)
        return z_and(*out)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- searching
    def _sub_arg(self, x):
        if self.KIND == "b" and is_intlike(x):
            return (to_char(x, 8),)
        if kind_of(x) != self.KIND:
            raise TypeError(f"must be {self.PY.__name__}, not {pytype(x).__name__}")
        return chars_of(x)

    def _clip(self, start, end):
        h = self.fix()
        s, e, _ = slice(None if start is None else start.__index__(), None if end is None else end.__index__()).indices(len(h))
        return h, s, e

    def find(self, x, start=None, end=None):
        n = self._sub_arg(x)
        h, s, e = self._clip(start, end)
        for i in range(s, e - len(n) + 1):
            if decide(self._match(h, i, n)):
                return i
        return -1

    def rfind(self, x, start=None, end=None):
        n = self._sub_arg(x)
        h, s, e = self._clip(start, end)
        for i in range(e - len(n), s - 1, -1):
            if decide(self._match(h, i, n)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, x, start=None, end=None):
        n = self._sub_arg(x)
        h, s, e = self._clip(start, end)
        if not n:
            return e - s + 1
        i, k = s, 0
        while i + len(n) <= e:
            if decide(self._match(h, i, n)):
                k += 1
                i += len(n)
            else:
                i += 1
        return k

    def _affix(self, x, start, end, head):
        if isinstance(x, tuple):
            return mkbool(z_or(*[zraw(self._affix(y, start, end, head)) for y in x]))
        if kind_of(x) != self.KIND:
            raise TypeError(f"startswith first arg must be {self.PY.__name__} or a tuple of {self.PY.__name__}, not {pytype(x).__name__}")
        n = chars_of(x)
        if head and self._nz is not None and start is None and end is None:
            if len(n) > len(self.chars):
                return False
            return mkbool(z_and(z3.UGE(self._nz, z3.BitVecVal(len(n), LW)), self._match(self.chars, 0, n)))
        h, s, e = self._clip(start, end)
        if e - s < len(n):
            return False
        return mkbool(self._match(h, s if head else e - len(n), n))

    def startswith(self, x, start=None, end=None):
        return self._affix(x, start, end, True)

    def endswith(self, x, start=None, end=None):
        return self._affix(x, start, end, False)

    def removeprefix(self, x):
        return self[len(chars_of(x)):] if self.startswith(x) else self

    def removesuffix(self, x):
        n = len(chars_of(x))
        return self[: len(self) - n] if n and self.endswith(x) else self

    def _is_space(self, c):
        return in_ranges(c, self.SPACE, self.W)

    def _strip(self, chars, left, right):
        if chars is None:
            test = self._is_space
        else:
            cs = chars_of(chars)
            test = lambda c: z_or(*[ceq(c, x, self.W) for x in cs])
        h = self.fix()
        i, j = 0, len(h)
        if left:
            while i < j and decide(test(h[i])):
                i += 1
        if right:
            while j > i and decide(test(h[j - 1])):
                j -= 1
        return self if i == 0 and j == len(h) else self.new(h[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        h = self.fix()
        out = []
        if sep is None:
            i, n = 0, len(h)
            while True:
                while i < n and decide(self._is_space(h[i])):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(self.new(h[i:]))
                    break
                j = i
                while j < n and not decide(self._is_space(h[j])):
                    j += 1
                out.append(self.new(h[i:j]))
                i = j
            return out
        n = self._sub_arg(sep)
        if not n:
            raise ValueError("empty separator")
        i = s = 0
        while i + len(n) <= len(h):
            if (maxsplit < 0 or len(out) < maxsplit) and decide(self._match(h, i, n)):
                out.append(self.new(h[s:i]))
                i += len(n)
                s = i
            else:
                i += 1
        out.append(self.new(h[s:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        if maxsplit < 0:
            return self.split(sep)
        h = self.fix()
        out = []
        if sep is None:
            j = len(h)
            while True:
                while j > 0 and decide(self._is_space(h[j - 1])):
                    j -= 1
                if j <= 0:
                    break
                if len(out) >= maxsplit:
                    out.append(self.new(h[:j]))
                    break
                i = j
                while i > 0 and not decide(self._is_space(h[i - 1])):
                    i -= 1
                out.append(self.new(h[i:j]))
                j = i
            return out[::-1]
        n = self._sub_arg(sep)
        e = len(h)
        i = e - len(n)
        while i >= 0 and len(out) < maxsplit:
            if decide(self._match(h, i, n)):
                out.append(self.new(h[i + len(n):e]))
                e = i
                i -= len(n)
            else:
                i -= 1
        out.append(self.new(h[:e]))
        return out[::-1]

    def partition(self, sep):
        n = self._sub_arg(sep)
        i = self.find(sep)
        e = self.PY()
        if i < 0:
            return self, e, e
        h = self.fix()
        return self.new(h[:i]), sep, self.new(h[i + len(n):])

    def rpartition(self, sep):
        n = self._sub_arg(sep)
        i = self.rfind(sep)
        e = self.PY()
        if i < 0:
            return e, e, self
        h = self.fix()
        return self.new(h[:i]), sep, self.new(h[i + len(n):])

    def replace(self, old, new, count=-1):
        o, nw, h = self._sub_arg(old), self._sub_arg(new), self.fix()
        count = count.__index__()
        if len(o) == 1 and len(nw) == 1 and count < 0:
            return self.new([self._ite(ceq(c, o[0], self.W), nw[0], c) for c in h])
        if not o:
            return self._concretise("replace", old, new, count)
        out, i, k = [], 0, 0
        while i < len(h):
            if (count < 0 or k < count) and i + len(o) <= len(h) and decide(self._match(h, i, o)):
                out.extend(nw)
                i += len(o)
                k += 1
            else:
                out.append(h[i])
                i += 1
        return self.new(out)

    def _ite(self, cond, a, b):
        if cond is True:
            return a
        if cond is False:
            return b
        bv = lambda x: z3.BitVecVal(x, self.W) if type(x) is int else x
        ca = {a} if type(a) is int else (eng().charset.get(a.get_id()) or (0, None))[1]
        cb = {b} if type(b) is int else (eng().charset.get(b.get_id()) or (0, None))[1]
        r = z3.simplify(z3.If(cond, bv(a), bv(b)))
        if z3.is_bv_value(r):
            return r.as_long()
        if ca and cb:
            set_charset(r, set(ca) | set(cb))
        return r

    def join(self, items):
        return join(self, items)

    def _pad(self, width, fill, left):
        h = self.fix()
        p = (fill,) * max(0, width.__index__() - len(h))
        return self.new(p + h if left else h + p)

    def ljust(self, width, fillchar=None):
        return self._pad(width, 32 if fillchar is None else chars_of(fillchar)[0], False)

    def rjust(self, width, fillchar=None):
        return self._pad(width, 32 if fillchar is None else chars_of(fillchar)[0], True)

    def zfill(self, width):
        h = self.fix()
        if h and decide(z_or(ceq(h[0], 43, self.W), ceq(h[0], 45, self.W))):
            return self.new(h[:1] + (48,) * max(0, width.__index__() - len(h)) + h[1:])
        return self._pad(width, 48, True)

    # -- character classes
    def _all(self, fname, need_one=True):
        h = self.fix()
        if not h:
            return not need_one
        rs = self._ranges(fname)
        return mkbool(z_and(*[in_ranges(c, rs, self.W) for c in h]))

    def isdigit(self):
        return self._all("isdigit")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isspace(self):
        return self._all("isspace")

    def isascii(self):
        if self._nz is not None:
            return mkbool(z_and(*[z_or(z3.ULE(self._nz, z3.BitVecVal(i, LW)), in_ranges(c, ((0, 127),), self.W)) for i, c in enumerate(self.chars)]))
        return mkbool(z_and(*[in_ranges(c, ((0, 127),), self.W) for c in self.fix()]))

    def _map_ascii(self, frm, delta, fname):
        out = []
        for c in self.fix():
            if type(c) is int:
                if self.KIND == "b":
                    out.extend(getattr(bytes([c]), fname)())
                else:
                    out.extend(map(ord, getattr(chr(c), fname)()))
                continue
            if self.KIND == "s" and not decide(in_ranges(c, ((0, 127),), self.W)):
                if decide(in_ranges(c, changing(fname), self.W)):
                    eng().note_incomplete(f"non-ASCII {fname}() enumerated")
                    v = eng().choose(c, limit=4, why=f"non-ASCII {fname}() enumerated")
                    out.extend(map(ord, getattr(chr(v), fname)()))
                else:
                    out.append(c)
                continue
            t = in_ranges(c, frm, self.W)
            if t is False:
                out.append(c)
            else:
                cs = eng().charset.get(c.get_id())
                r = z3.simplify(z3.If(zbool(t), c + z3.BitVecVal(delta % (1 << self.W), self.W), c))
                if cs:
                    set_charset(r, {ord(getattr(chr(x), fname)()) for x in cs[1] if x < 128})
                out.append(r)
        return self.new(out)

    def lower(self):
        return self._map_ascii(ASCII_UPPER, 32, "lower")

    def upper(self):
        return self._map_ascii(ASCII_LOWER, -32, "upper")

    def casefold(self):
        return self._map_ascii(ASCII_UPPER, 32, "casefold")

    def islower(self):
        return self.concretise().islower()

    def isupper(self):
        return self.concretise().isupper()

    # -- concretisation
    def concretise(self, limit=6, why=None):
        why = why or f"{self.PY.__name__} enumerated"
        out = []
        for c in self.fix():
            if type(c) is int:
                out.append(c)
            else:
                out.append(eng().choose(c, limit=limit, why=why))
        return self.native(out)

    def _concretise(self, name, *a, **k):
        eng().note_incomplete(f"{self.PY.__name__}.{name} concretised")
        v = self.concretise(why=f"{self.PY.__name__}.{name} concretised")
        a = [x.concretise() if isinstance(x, SymSeq) else x for x in a]
        return getattr(v, name)(*a, **k)

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("_") or not hasattr(self.PY, name):
            raise AttributeError(f"'{self.PY.__name__}' object has no attribute '{name}'")
        return functools.partial(self._concretise, name)

    def __repr__(self):
        return f"<{type(self).__name__}>"


class SymStr(SymSeq):
    KIND, W, PY = "s", CW, str

    @staticmethod
    def native(chars):
        return "".join(map(chr, chars))

    @property
    def SPACE(self):
        return intervals("isspace", 0x10FFFF)

    def _ranges(self, f):
        return intervals(f, 0x10FFFF)

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isprintable(self):
        return self._all("isprintable", False)

    def _item(self, c):
        return chr(c) if type(c) is int else SymStr((c,))

    def __str__(self):
        return self.concretise()

    def __format__(self, spec):
        return format(self.concretise(), spec)

    def __mod__(self, o):
        return percent_format(self.concretise(), o)

    def encode(self, encoding="utf-8", errors="strict"):
        enc = norm_enc(encoding)
        if self.meta is not None and self._chars is None and enc == "utf-8" and errors == "strict":
            return SymBytes(thunk=lambda: SymStr.encode(self._forced(), encoding), meta=self.meta)
        h = self.fix()
        if enc == "utf-8" and errors == "strict":
            return mkseq(SymBytes, utf8_encode(h))
        if enc in ("ascii", "latin-1"):
            top = 127 if enc == "ascii" else 255
            if decide(z_and(*[in_ranges(c, ((0, top),), CW) for c in h])):
                return mkseq(SymBytes, [narrow(c) for c in h])
            if errors == "strict":
                raise UnicodeEncodeError(enc, "\u0100" * len(h), 0, 1, f"ordinal not in range({top + 1})")
            if errors == "ignore":
                return mkseq(SymBytes, [narrow(c) for c in h if decide(in_ranges(c, ((0, top),), CW))])
            if errors == "replace":
                return mkseq(SymBytes, [narrow(c) if decide(in_ranges(c, ((0, top),), CW)) else 63 for c in h])
        return self._concretise("encode", encoding, errors)

    def _forced(self):
        return SymStr(self.chars, self._nz)

    def format(self, *a, **k):
        return self._concretise("format", *a, **k)

    def translate(self, table):
        out = []
        for c in self.fix():
            if type(c) is int:
                out.extend(map(ord, chr(c).translate(table)))
                continue
            done = False
            for k, v in table.items():
                if decide(ceq(c, k, CW)):
                    if v is not None:
                        out.extend((v,) if isinstance(v, int) else chars_of(v))
                    done = True
                    break
            if not done:
                out.append(c)
        return self.new(out)


class SymBytes(SymSeq):
    KIND, W, PY = "b", 8, bytes
    SPACE = ((9, 13), (32, 32))

    @staticmethod
    def native(chars):
        return bytes(chars)

    def _ranges(self, f):
        return intervals("b:" + f, 255)

    def _item(self, c):
        return c if type(c) is int else ubv(c)

    def __bytes__(self):
        return self.concretise()

    def __str__(self):
        return str(self.concretise())

    def __mod__(self, o):
        return self.concretise() % o

    def decode(self, encoding="utf-8", errors="strict"):
        enc = norm_enc(encoding)
        if self.meta is not None and self._chars is None and enc == "utf-8":
            return SymStr(thunk=lambda: SymBytes(self.chars, self._nz).decode(), meta=self.meta)
        h = self.fix()
        if enc == "utf-8" and errors in UTF8_ERRORS:
            return mkseq(SymStr, utf8_decode(h, errors))
        if enc == "latin-1" or (enc == "ascii" and decide(z_and(*[in_ranges(c, ((0, 127),), 8) for c in h]))):
            return mkseq(SymStr, [widen(c) for c in h])
        if enc == "ascii" and errors == "strict":
            raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "ordinal not in range(128)")
        return self._concretise("decode", encoding, errors)

    def hex(self, *a):
        if a:
            return self._concretise("hex", *a)
        out = []
        for c in self.fix():
            out += hex_chars(c, False, CW)
        return mkseq(SymStr, out)

    def translate(self, table, /, delete=b""):
        if delete:
            return self._concretise("translate", table, delete)
        t = tuple(table)
        return self.new([apply_table(c, t) for c in self.fix()])


SymStr.BASE, SymBytes.BASE = SymStr, SymBytes


class SymStrSub(SymStr):
    """Instance of a Python subclass of str holding a symbolic string."""

    def __init__(self, base, sub):
        super().__init__(base.chars, base._nz)
        self._sub = sub

    def __getattr__(self, name):
        if not name.startswith("_") and hasattr(self._sub, name) and not hasattr(str, name):
            v = getattr(self._sub, name)
            return v.__get__(self) if hasattr(v, "__get__") else v
        return SymStr.__getattr__(self, name)


SYM_TYPES = {SymBool, SymNot, SymInt, SymStr, SymBytes, SymFloat, SymDatetime, SymTimedelta, SymStrSub}


def apply_table(c, table):
    """table: 256 ints"""
    if type(c) is int:
        return table[c]
    moved = [i for i in range(256) if table[i] != i]
    cs = eng().charset.get(c.get_id())
    if cs is not None:
        moved = [i for i in moved if i in cs[1]]
        if not moved:
            return c
    key = ("tbl", c.get_id(), hash(tuple(table)))
    memo = eng().memo
    if key in memo:
        return memo[key][1]
    r = c
    for i in moved:
        r = z3.If(c == z3.BitVecVal(i, 8), z3.BitVecVal(table[i], 8), r)
    if cs is not None:
        set_charset(r, {table[x] for x in cs[1]})
    src = memo.get(("b64", c.get_id()))
    if src is not None:
        # a base64 character whose alphabet is being translated
        alpha2 = tuple(table[x] for x in src[2])
        memo[("b64", r.get_id())] = (r, src[1], alpha2)
    memo[key] = (c, r)
    return r


def norm_enc(e):
    e = str(e).lower().replace("_", "-")
    return {"utf8": "utf-8", "u8": "utf-8", "latin1": "latin-1", "iso-8859-1": "latin-1", "us-ascii": "ascii"}.get(e, e)


def widen(c):
    if type(c) is int:
        return c
    back = eng().memo.get(("narrowed", c.get_id()))
    if back is not None:
        return back[1]
    r = z3.simplify(z3.ZeroExt(CW - 8, c))
    _copy_memo(c, r)
    return r


def narrow(c):
    """the octet of a character known on this path to be below 256"""
    if type(c) is int:
        return c
    r = z3.simplify(z3.Extract(7, 0, c))
    _copy_memo(c, r)
    eng().memo[("narrowed", r.get_id())] = (r, c)
    return r


def _copy_memo(c, r):
    e = eng()
    cs = e.charset.get(c.get_id())
    if cs is not None:
        e.charset[r.get_id()] = (r, cs[1])
    for k in ("b64", "digit"):
        m = e.memo.get((k, c.get_id()))
        if m is not None:
            e.memo[(k, r.get_id())] = (r,) + m[1:]


def utf8_encode(h):
    if decide(z_and(*[in_ranges(c, ((0, 127),), CW) for c in h])):
        return [narrow(c) for c in h]
    out = []
    for c in h:
        if type(c) is int:
            out.extend(chr(c).encode("utf-8"))
        elif decide(in_ranges(c, ((0, 0x7F),), CW)):
            out.append(narrow(c))
        elif decide(in_ranges(c, ((0, 0x7FF),), CW)):
            out += [z3.Concat(z3.BitVecVal(6, 3), z3.Extract(10, 6, c)), _cont(c, 0)]
        elif decide(in_ranges(c, ((0, 0xFFFF),), CW)):
            if decide(in_ranges(c, ((0xD800, 0xDFFF),), CW)):
                raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
            out += [z3.Concat(z3.BitVecVal(14, 4), z3.Extract(15, 12, c)), _cont(c, 6), _cont(c, 0)]
        else:
            out += [z3.Concat(z3.BitVecVal(30, 5), z3.Extract(20, 18, c)), _cont(c, 12), _cont(c, 6), _cont(c, 0)]
    return out


def _cont(c, lo):
    return z3.Concat(z3.BitVecVal(2, 2), z3.Extract(lo + 5, lo, c))


UTF8_ERRORS = ("strict", "replace", "ignore", "surrogateescape")


def utf8_decode(h, errors="strict"):
    if all(type(c) is int for c in h):
        return chars_of(bytes(h).decode("utf-8", errors))
    if decide(z_and(*[in_ranges(c, ((0, 127),), 8) for c in h])):
        return [widen(c) for c in h]
    out = []
    i, n = 0, len(h)

    def bad(i, k, why):
        if errors == "strict":
            raise UnicodeDecodeError("utf-8", b"\xff" * n, i, i + 1, why)
        if errors == "replace":
            out.append(0xFFFD)
        elif errors == "surrogateescape":
            out.extend(fold(z3.BitVecVal(0xDC00, CW) + z3.ZeroExt(CW - 8, bv(x))) for x in h[i:i + k])
        return i + k

    def rng(j, a, b):
        return j < n and decide(in_ranges(h[j], ((a, b),), 8))

    bv = lambda c: z3.BitVecVal(c, 8) if type(c) is int else c
    low6 = lambda c: z3.Extract(5, 0, bv(c))
    while i < n:
        c = h[i]
        if rng(i, 0, 0x7F):
            out.append(widen(c))
            i += 1
        elif rng(i, 0xC2, 0xDF):
            if not rng(i + 1, 0x80, 0xBF):
                i = bad(i, 1, "invalid continuation byte")
                continue
            out.append(fold(z3.Concat(z3.BitVecVal(0, 10), z3.Extract(4, 0, bv(c)), low6(h[i + 1]))))
            i += 2
        elif rng(i, 0xE0, 0xEF):
            if rng(i, 0xE0, 0xE0):
                ok = rng(i + 1, 0xA0, 0xBF)
            elif rng(i, 0xED, 0xED):
                ok = rng(i + 1, 0x80, 0x9F)
            else:
                ok = rng(i + 1, 0x80, 0xBF)
            if not ok:
                i = bad(i, 1, "invalid continuation byte")
                continue
            if not rng(i + 2, 0x80, 0xBF):
                i = bad(i, 2, "invalid continuation byte")
                continue
            out.append(fold(z3.Concat(z3.BitVecVal(0, 5), z3.Extract(3, 0, bv(c)), low6(h[i + 1]), low6(h[i + 2]))))
            i += 3
        elif rng(i, 0xF0, 0xF4):
            if rng(i, 0xF0, 0xF0):
                ok = rng(i + 1, 0x90, 0xBF)
            elif rng(i, 0xF4, 0xF4):
                ok = rng(i + 1, 0x80, 0x8F)
            else:
                ok = rng(i + 1, 0x80, 0xBF)
            if not ok:
                i = bad(i, 1, "invalid continuation byte")
                continue
            if not rng(i + 2, 0x80, 0xBF):
                i = bad(i, 2, "invalid continuation byte")
                continue
            if not rng(i + 3, 0x80, 0xBF):
                i = bad(i, 3, "invalid continuation byte")
                continue
            out.append(fold(z3.Concat(z3.Extract(2, 0, bv(c)), low6(h[i + 1]), low6(h[i + 2]), low6(h[i + 3]))))
            i += 4
        else:
            i = bad(i, 1, "invalid start byte")
    return out


def fold(z):
    z = z3.simplify(z)
    return z.as_long() if z3.is_bv_value(z) else z


def hex_chars(c, upper, w):
    """two hex digits of a byte"""
    if type(c) is int:
        return [ord(x) for x in ("%02X" if upper else "%02x") % c]
    return [digit_char(z3.Extract(7, 4, c), upper, w), digit_char(z3.Extract(3, 0, c), upper, w)]


def digit_char(v4, upper, w):
    v4 = z3.simplify(v4)
    if z3.is_bv_value(v4):
        return ord(("%X" if upper else "%x") % v4.as_long())
    v = z3.ZeroExt(w - 4, v4)
    r = z3.If(z3.ULT(v4, 10), v + 48, v + (55 if upper else 87))
    e = eng()
    set_charset(r, map(ord, "0123456789ABCDEF" if upper else "0123456789abcdef"))
    e.memo[("digit", r.get_id())] = (r, v4)
    return r


def digit_value(c, w, base=16):
    """-> (valid: bool-ish, value BV8 or int)"""
    if type(c) is int:
        try:
            v = int(chr(c), 36) if c < 128 and chr(c).isalnum() else 99
        except ValueError:
            v = 99
        return v < base, v
    m = eng().memo.get(("digit", c.get_id()))
    if m is not None:
        return True, z3.ZeroExt(4, m[1])
    c8 = z3.Extract(7, 0, c)
    ok = in_ranges(c, ((48, 48 + min(base, 10) - 1),), w)
    val = c8 - 48
    if base > 10:
        up, lo = in_ranges(c, ((65, 65 + base - 11),), w), in_ranges(c, ((97, 97 + base - 11),), w)
        ok = z_or(ok, up, lo)
        val = z3.If(z3.ULT(c8, 58), c8 - 48, z3.If(z3.ULT(c8, 97), c8 - 55, c8 - 87))
    return ok, val


def pytype(v):
    """type(v) as the program under test sees it"""
    return v.__class__ if isinstance_sym(v) else type(v)


def join(sep, items):
    items = list(items)
    k = kind_of(sep)
    cls = SymStr if k == "s" else SymBytes
    if len(items) == 1 and kind_of(items[0]) == k:
        return items[0]
    out = []
    s = chars_of(sep)
    for i, it in enumerate(items):
        if kind_of(it) != k:
            raise TypeError(f"sequence item {i}: expected {'str' if k == 's' else 'a bytes-like'} instance, {pytype(it).__name__} found")
        if i:
            out.extend(s)
        out.extend(chars_of(it))
    return mkseq(cls, out)


def to_text(v):
    """str(v) that keeps symbols"""
    t = type(v)
    if issubclass(t, SymStr):
        return v
    if t is SymInt:
        return v.dec()
    if issubclass(t, SymBool):
        return "True" if v else "False"
    if t is SymBytes:
        return str(v.concretise())
    return None


def format_value(v, conv, spec):
    if spec == "" or spec is None:
        if conv in (-1, 115) and isinstance_sym(v):
            r = to_text(v)
            if r is not None:
                return r
        if conv == 114 and issubclass(type(v), SymStr):
            return "'" + v + "'"
    if conv == 115:
        v = to_text(v) or str(v)
    elif conv == 114:
        v = repr(v)
    elif conv == 97:
        v = ascii(v)
    if type(v) is SymInt:
        return int_format(v, spec)
    if issubclass(type(v), SymSeq) and spec == "":
        return v
    return format(v, spec)


def int_format(v, spec):
    if spec in ("", "d"):
        return v.dec()
    if spec in ("x", "X", "02x", "02X", "2x"):
        if bool(v >= 0) and bool(v < 256):
            c = to_char(v, 8)
            if spec in ("02x", "02X"):
                return mkseq(SymStr, hex_chars(c, spec[-1] == "X", CW))
    return format(v.__index__(), spec)


def percent_format(fmt, args):
    """str % args keeping symbols for %s, %d, %x, %02x"""
    if not isinstance(args, (tuple, dict)):
        args = (args,)
    if isinstance(args, dict) or isinstance(fmt, bytes):
        return fmt % args
    out, i, k = [], 0, 0
    while i < len(fmt):
        c = fmt[i]
        if c != "%":
            out.append(c)
            i += 1
            continue
        j = i + 1
        while j < len(fmt) and fmt[j] in "#0- +123456789.":
            j += 1
        conv, flags = fmt[j], fmt[i + 1:j]
        i = j + 1
        if conv == "%":
            out.append("%")
            continue
        v = args[k]
        k += 1
        if not isinstance_sym(v):
            out.append(("%" + flags + conv) % (v,))
        elif flags == "" and conv == "s":
            r = to_text(v)
            out.append(str(v) if r is None else r)
        elif conv in "di" and type(v) is SymInt and flags == "":
            out.append(v.dec())
        elif conv in "xX" and type(v) is SymInt:
            out.append(int_format(v, flags + conv))
        else:
            v = v.concretise() if isinstance(v, SymSeq) else v.__index__()
            out.append(("%" + flags + conv) % (v,))
    if k != len(args):
        raise TypeError("not all arguments converted during string formatting")
    return join("", out)


# ---------------------------------------------------------------- containers
def deep_sym(v, depth=5):
    """does a value contain symbols?"""
    t = type(v)
    if t in SYM_TYPES or issubclass(t, SymSeq):
        return True
    if t in (str, bytes, int, bool, float, type(None)):
        return False
    if depth <= 0:
        return False
    if isinstance(v, (SymSet, LazyForm)):
        return True
    if isinstance(v, dict):
        return any(deep_sym(x, depth - 1) for x in v.keys()) or any(deep_sym(x, depth - 1) for x in v.values())
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(deep_sym(x, depth - 1) for x in v)
    return False


def same(a, b):
    """a == b as True/False/z3, without forking where possible"""
    if a is b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) is type(b):
        if len(a) != len(b):
            return False
        return z_and(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        keys = [k for d in (a, b) for k in (d.e if isinstance(d, LazyForm) else d)]
        if any(isinstance_sym(k) for k in keys):
            a, b = ({k: x.e[k][1] for k in x._all()} if isinstance(x, LazyForm) else x for x in (a, b))
        elif isinstance(a, LazyForm) or isinstance(b, LazyForm):
            ks = set(dict_keys_static(a)) | set(dict_keys_static(b))
            out = []
            for k in ks:
                pa, va = dict_entry(a, k)
                pb, vb = dict_entry(b, k)
                out.append(zbool(mkbool(pa)) == zbool(mkbool(pb)))
                if pa is not False and pb is not False:
                    out.append(z_or(z_not(z_and(pa, pb)), same(va, vb)))
            return z_and(*out)
        if not any(isinstance_sym(k) for k in a) and not any(isinstance_sym(k) for k in b):
            if set(a) != set(b):
                return False
            return z_and(*[same(a[k], b[k]) for k in a])
        if len(a) != len(b):
            return False
        return z_and(*[z_or(*[z_and(same(k, k2), same(v, v2)) for k2, v2 in b.items()]) for k, v in a.items()])
    r = a == b
    if r is NotImplemented:
        return False
    return zraw(r)


def dict_keys_static(d):
    return d.e.keys() if isinstance(d, LazyForm) else d.keys()


def dict_entry(d, k):
    if isinstance(d, LazyForm):
        return d.e.get(k, (False, None))
    return (True, d[k]) if k in d else (False, None)


class SymSet:
    """A set with symbolic members (kept as a list; equality decided lazily)."""

    def __init__(self, items=(), frozen=False):
        self.items = list(items)
        self.frozen = frozen
        self.dedup = len(self.items) < 2

    @property
    def __class__(self):
        return frozenset if self.frozen else set

    def _ded(self):
        if not self.dedup:
            out = []
            for x in self.items:
                if not any(decide(same(x, y)) for y in out):
                    out.append(x)
            self.items, self.dedup = out, True
        return self.items

    def has(self, x):
        return z_or(*[same(x, y) for y in self.items])

    def __contains__(self, x):
        return decide(self.has(x))

    def __len__(self):
        return len(self._ded())

    def __bool__(self):
        return bool(self.items)

    def __iter__(self):
        return iter(list(self._ded()))

    def __hash__(self):
        return 0x51

    @staticmethod
    def _it(o):
        return o.items if isinstance(o, SymSet) else list(o)

    def issubset(self, o):
        o = SymSet(self._it(o))
        return mkbool(z_and(*[o.has(x) for x in self.items]))

    def issuperset(self, o):
        return mkbool(z_and(*[self.has(x) for x in self._it(o)]))

    def isdisjoint(self, o):
        return mkbool(z_not(z_or(*[self.has(x) for x in self._it(o)])))

    def intersection(self, *os):
        items = self._ded()
        for o in os:
            o = SymSet(self._it(o))
            items = [x for x in items if decide(o.has(x))]
        r = SymSet(items, self.frozen)
        r.dedup = True
        return r

    def difference(self, *os):
        items = self._ded()
        for o in os:
            o = SymSet(self._it(o))
            items = [x for x in items if not decide(o.has(x))]
        r = SymSet(items, self.frozen)
        r.dedup = True
        return r

    def union(self, *os):
        items = list(self.items)
        for o in os:
            items += self._it(o)
        return SymSet(items, self.frozen)

    def symmetric_difference(self, o):
        o = SymSet(self._it(o))
        return self.difference(o).union(o.difference(self))

    def copy(self):
        return SymSet(self.items, self.frozen)

    def add(self, x):
        self.items.append(x)
        self.dedup = len(self.items) < 2

    def discard(self, x):
        self.items = [y for y in self.items if not decide(same(x, y))]

    def remove(self, x):
        if not decide(self.has(x)):
            raise KeyError(x)
        self.discard(x)

    def update(self, *os):
        for o in os:
            for x in self._it(o):
                self.add(x)

    def clear(self):
        self.items, self.dedup = [], True

    def pop(self):
        if not self._ded():
            raise KeyError("pop from an empty set")
        return self.items.pop()

    def _isset(self, o):
        return isinstance(o, (set, frozenset, SymSet)) or isinstance(o, type({}.keys()))

    def __le__(self, o):
        return self.issubset(o) if self._isset(o) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if self._isset(o) else NotImplemented

    def __lt__(self, o):
        return mkbool(z_and(zraw(self.issubset(o)), z_not(zraw(self.issuperset(o)))))

    def __gt__(self, o):
        return mkbool(z_and(zraw(self.issuperset(o)), z_not(zraw(self.issubset(o)))))

    def __eq__(self, o):
        if not self._isset(o):
            return False
        return mkbool(z_and(zraw(self.issubset(o)), zraw(self.issuperset(o))))

    def __ne__(self, o):
        return sym_not(self == o)

    def __and__(self, o):
        return self.intersection(o)

    def __rand__(self, o):
        return SymSet(o).intersection(self)

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __deepcopy__(self, memo):
        return SymSet(self.items, self.frozen)


class LazyForm(dict):
    """A dict whose (concrete) keys are present under symbolic conditions."""

    def __init__(self, entries=()):
        super().__init__()
        self.e = dict(entries)  # key -> (present, value)

    def _resolve(self, k):
        p, v = self.e[k]
        if p is True or p is False:
            return p
        r = decide(p)
        self.e[k] = (r, v)
        return r

    def _find(self, k):
        """the stored key equal to k, or None"""
        if isinstance_sym(k):
            for x in list(self.e):
                if x is k or decide(same(x, k)):
                    return x
            return None
        if not isinstance(k, str):
            hash(k)
        for x in list(self.e):
            if isinstance_sym(x):
                if decide(same(x, k)):
                    return x
            elif x == k:
                return x
        return None

    def __contains__(self, k):
        k = self._find(k)
        return k is not None and self._resolve(k)

    def get(self, k, default=None):
        k = self._find(k)
        if k is not None and self._resolve(k):
            return self.e[k][1]
        return default

    def __getitem__(self, k):
        f = self._find(k)
        if f is not None and self._resolve(f):
            return self.e[f][1]
        raise KeyError(k)

    def __setitem__(self, k, v):
        f = self._find(k)
        self.e[k if f is None else f] = (True, v)

    def __delitem__(self, k):
        f = self._find(k)
        if f is None or not self._resolve(f):
            raise KeyError(k)
        del self.e[f]

    def pop(self, k, *d):
        f = self._find(k)
        if f is not None and self._resolve(f):
            return self.e.pop(f)[1]
        if d:
            return d[0]
        raise KeyError(k)

    def popitem(self):
        ks = self._all()
        if not ks:
            raise KeyError("popitem(): dictionary is empty")
        k = ks[-1]
        return k, self.e.pop(k)[1]

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def _all(self):
        return [k for k in list(self.e) if self._resolve(k)]

    def __iter__(self):
        return iter(self._all())

    def __reversed__(self):
        return reversed(self._all())

    def keys(self):
        return {k: None for k in self._all()}.keys() if not any(isinstance_sym(k) for k in self.e) else self._all()

    def values(self):
        return [self.e[k][1] for k in self._all()]

    def items(self):
        return [(k, self.e[k][1]) for k in self._all()]

    def __len__(self):
        return len(self._all())

    def __bool__(self):
        return decide(z_or(*[p for p, _ in self.e.values()]))

    def update(self, other=(), /, **kw):
        if isinstance(other, LazyForm):
            for k, (p, v) in other.e.items():
                self._merge(k, p, v)
        elif isinstance(other, LazyPairs):
            self.update(other.to_form())
        elif hasattr(other, "keys"):
            for k in other.keys():
                self[k] = other[k]
        else:
            for k, v in other:
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def _merge(self, k, p, v):
        f = self._find(k)
        k = k if f is None else f
        if f is None or p is True:
            self.e[k] = (p, v)
            return
        q, w = self.e[k]
        if q is False:
            self.e[k] = (p, v)
        elif p is not False:
            # both may be there: the newer wins where present
            if decide(p):
                self.e[k] = (True, v)

    def copy(self):
        return LazyForm(self.e)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        r = LazyForm({k: (p, copy.deepcopy(v, memo)) for k, (p, v) in self.e.items()})
        memo[id(self)] = r
        return r

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = LazyForm({k: (True, v) for k, v in o.items()})
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        return mkbool(same(self, o)) if isinstance(o, dict) else False

    def __ne__(self, o):
        return sym_not(self == o)

    __hash__ = None

    def clear(self):
        self.e.clear()

    def __repr__(self):
        return "<LazyForm>"


class LazyPairs(list):
    """Result of parsing a structured query string: (present, key, value)*."""

    def __init__(self, entries):
        super().__init__()
        self.entries = list(entries)
        self._done = None

    def to_form(self):
        f = LazyForm()
        for p, k, v in self.entries:
            if p is not False:
                f._merge(k, p, v)
        return f

    def force(self):
        if self._done is None:
            self._done = [(k, v) for p, k, v in self.entries if decide(p)]
            super().extend(self._done)
        return self._done

    def __iter__(self):
        return iter(self.force())

    def __len__(self):
        return len(self.force())

    def __bool__(self):
        if self._done is None:
            return decide(z_or(*[p for p, _, _ in self.entries]))
        return bool(self._done)

    def __getitem__(self, i):
        return self.force()[i]

    def __contains__(self, x):
        return any(decide(same(x, y)) for y in self.force())


def ite(cond, a, b):
    """value-level if for harness oracles; forks only when it has to"""
    return a if cond else b


# ---------------------------------------------------------------- evaluation
def evaluate(v, model):
    """native value of v under a model (lengths fixed, everything completed)"""
    t = type(v)
    ev = lambda z: model.eval(z, model_completion=True)
    if issubclass(t, SymBool):
        return z3.is_true(ev(v.z))
    if t is SymInt:
        return ev(v.z).as_signed_long()
    if issubclass(t, SymSeq):
        c, nz = v.chars, v._nz
        if nz is not None:
            c = c[: ev(nz).as_long()]
        return v.native([x if type(x) is int else ev(x).as_long() for x in c])
    if t is SymFloat:
        return evaluate(v.us, model) / 1000000
    if t is SymTimedelta:
        return _dt.timedelta(microseconds=evaluate(v.us, model))
    if t is SymDatetime:
        us = evaluate(v.us, model)
        d = _dt.datetime(1970, 1, 1) + _dt.timedelta(microseconds=us)
        if v.off is not None:
            d = d.replace(tzinfo=_dt.timezone(_dt.timedelta(microseconds=evaluate(v.off, model))))
        return d
    if t is LazyForm:
        out = {}
        for k, (p, x) in v.e.items():
            if p is True or (p is not False and z3.is_true(ev(p))):
                out[evaluate(k, model)] = evaluate(x, model)
        return out
    if t is SymSet:
        return {evaluate(x, model) for x in v.items}
    if isinstance(v, dict):
        return {evaluate(k, model): evaluate(x, model) for k, x in v.items()}
    if isinstance(v, list):
        return [evaluate(x, model) for x in v]
    if isinstance(v, tuple):
        return tuple(evaluate(x, model) for x in v)
    return v
