"""Abstract numbers.

The analysed code touches attribute values only through comparison, +-small
constants and interval halving.  A value is therefore abstracted to its place
in an *ordering*: `a*W + b` (W = an unbounded unit, larger than every program
constant of magnitude < 2^62 and smaller than the INT64/SIZE/DBL limits).
Values in the same cluster (same a) have an exactly known small distance b,
values in different clusters are "far apart" in a known direction.  Comparison,
addition of constants and differences are exact in this domain; anything the
domain cannot represent raises Limit (the analysis stops, it never guesses)."""
from fractions import Fraction
import math

BIG = 1 << 62


class Limit(Exception):
    """the abstract domain cannot represent this operation"""


def _norm(a, b, c=0):
    if a == 0 and c == 0:
        if isinstance(b, Fraction) and b.denominator == 1:
            b = int(b)
        return b
    return A(a, b, c)


class A:
    __slots__ = ("a", "b", "c")

    def __init__(s, a, b=0, c=0):
        s.a, s.b, s.c = a, b, c

    def __repr__(s):
        r = "%sW" % s.a if s.a else ""
        if s.b or not s.a:
            r += "%+g" % s.b if r else "%g" % s.b
        if s.c:
            r += "%+g/W" % s.c
        return r

    def key(s):
        return (s.a, s.b, s.c)

    def _cmp(s, o):
        if isinstance(o, A):
            x, y = (s.a, s.b, s.c), (o.a, o.b, o.c)
        elif isinstance(o, (int, float, Fraction)):
            if o != o:
                raise Limit("nan")
            if o >= BIG:
                return -1
            if o <= -BIG:
                return 1
            x, y = (s.a, s.b, s.c), (0, o, 0)
        else:
            return None
        return (x > y) - (x < y)

    def __lt__(s, o): return s._cmp(o) < 0
    def __le__(s, o): return s._cmp(o) <= 0
    def __gt__(s, o): return s._cmp(o) > 0
    def __ge__(s, o): return s._cmp(o) >= 0
    def __eq__(s, o): return s._cmp(o) == 0
    def __ne__(s, o): return s._cmp(o) != 0
    def __hash__(s): return hash((s.a, s.b, s.c))
    def __neg__(s): return _norm(-s.a, -s.b, -s.c)

    def __abs__(s):
        return -s if s < 0 else s

    def __add__(s, o):
        if isinstance(o, A):
            return _norm(s.a + o.a, s.b + o.b, s.c + o.c)
        if isinstance(o, (int, float, Fraction)):
            if abs(o) >= BIG:
                if isinstance(o, float) and abs(o) > 1e30:
                    return o    # absorbed by rounding
                raise Limit("W plus huge constant")
            return A(s.a, s.b + o, s.c)
        return NotImplemented

    __radd__ = __add__

    def __sub__(s, o):
        return s + (-o)

    def __rsub__(s, o):
        return (-s) + o

    def __mul__(s, o):
        if isinstance(o, A):
            if s.c or o.c or (s.a and o.a):
                # (aW+b)(c/W) and friends: keep the standard part
                if s.a and not o.a and not s.c:
                    return _norm(s.a * o.b, s.b * o.b + s.a * o.c, s.b * o.c)
                if o.a and not s.a and not o.c:
                    return o * s
                raise Limit("product of two unbounded values")
            return _norm(s.a * o.b + s.b * o.a, s.b * o.b, 0)
        return _norm(s.a * o, s.b * o, s.c * o)

    __rmul__ = __mul__

    def __truediv__(s, o):
        if isinstance(o, A):
            if o.a and not s.c and not o.c:
                r = Fraction(s.a) / Fraction(o.a)
                # (a1 W + b1)/(a2 W + b2) = a1/a2 + (b1 a2 - a1 b2)/(a2^2 W) + ...
                return _norm(0, r, (Fraction(s.b) * o.a - Fraction(s.a) * Fraction(o.b)) / Fraction(o.a) ** 2)
            raise Limit("division by infinitesimal")
        if o == 0:
            raise Limit("division of unbounded by zero")
        return _norm(Fraction(s.a) / Fraction(o), Fraction(s.b) / Fraction(o), Fraction(s.c) / Fraction(o))

    def __rtruediv__(s, o):
        if not s.a:
            raise Limit("division by infinitesimal")
        return _norm(0, 0, Fraction(o) / Fraction(s.a))

    def idiv(s, k):
        """C integer division by a positive constant (W is divisible by it)"""
        if not isinstance(k, int) or k == 0:
            raise Limit("idiv")
        b = s.b
        if s.c or b != int(b):
            raise Limit("idiv of non integer")
        q = Fraction(s.a, k)
        b = int(b)
        # trunc((aW+b)/k) = aW/k + trunc-toward-zero of b/k w.r.t. sign of whole
        whole_pos = (q > 0)
        r = b // k if whole_pos else -((-b) // k)
        return _norm(q, r)

    def __ceil__(s):
        return A(s.a, math.ceil(s.b), 0)

    def __floor__(s):
        return A(s.a, math.floor(s.b), 0)

    def __rshift__(s, k):
        if not isinstance(k, int) or s.c or s.b != int(s.b):
            raise Limit("shift")
        return _norm(Fraction(s.a, 1 << k), int(s.b) >> k)

    def __lshift__(s, k):
        return s * (1 << k)

    def __and__(s, o):
        # W is a multiple of every power of two: a small mask keeps the residue
        if isinstance(o, int) and 0 <= o < (1 << 40) and not s.c and s.b == int(s.b):
            return int(s.b) & o
        raise Limit("bit operation on an unbounded value")

    __rand__ = __and__

    # other bit operations never make sense on an unbounded value
    def _nobits(s, *_):
        raise Limit("bit operation on an unbounded value")

    __or__ = __ror__ = __xor__ = __rxor__ = __rlshift__ = __rrshift__ = _nobits
