"""Real functions on exact numbers, with 60 correct digits.

Square roots are rounded down, so that a quotient by computed norms reaches or
exceeds the value it has with exact norms, as happens with floating point
numbers.
"""
import decimal
import math
from fractions import Fraction

INF = float('inf')
NAN = float('nan')
ONE = 10 ** 60
CTX = decimal.Context(prec=70)


def frac(d):
    return Fraction(d)


def short(x):
    """x with 60 significant digits"""
    if not isinstance(x, Fraction) or x.denominator < ONE ** 2:
        return x
    return frac(dec(x))


def dec(x):
    if isinstance(x, float):
        return decimal.Decimal(x)
    x = Fraction(x)
    return CTX.divide(decimal.Decimal(x.numerator),
                      decimal.Decimal(x.denominator))


def tidy(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def sqrt(x):
    if isinstance(x, float):
        return math.sqrt(x) if x >= 0 else NAN
    if x < 0:
        return 0 if x > Fraction(-1, 10 ** 40) else NAN
    x = Fraction(x)
    n, d = x.numerator, x.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return tidy(Fraction(rn, rd))
    return Fraction(math.isqrt(n * ONE * ONE // d), ONE)


def log(x):
    if x != x or x == INF:
        return x
    if x < 0:
        return NAN
    if x == 0:
        return -INF
    if x == 1:
        return 0
    return frac(CTX.ln(dec(x)))


def exp(x):
    if isinstance(x, float) and (x != x or x == INF):
        return x
    if x == -INF:
        return 0
    if x == 0:
        return 1
    return frac(CTX.exp(dec(x)))


def atan(x):
    """of a fraction, by halving the argument"""
    if x < 0:
        return -atan(-x)
    if x > 1:
        return PI / 2 - atan(1 / Fraction(x))
    n = 0
    x = Fraction(x)
    while x > Fraction(1, 16):
        x = short(x / (1 + sqrt(1 + x * x)))
        x = Fraction(int(x * ONE), ONE)
        n += 1
    s, p, k, q = Fraction(0), x, 1, x * x
    while abs(p) > Fraction(1, ONE):
        s += p / k if k % 4 == 1 else -p / k
        p = Fraction(int(p * q * ONE), ONE)
        k += 2
    return Fraction(int(s * ONE), ONE) * 2 ** n


def machin():
    def at(n):
        s, p, k = 0, ONE ** 2 // n, 1
        while p:
            s += p // k if k % 4 == 1 else -(p // k)
            p //= n * n
            k += 2
        return s
    return Fraction(4 * (4 * at(5) - at(239)), ONE ** 2)


PI = machin()


def arccos(x):
    if x != x or x > 1 or x < -1:
        return NAN
    if x == 1:
        return 0
    if x == -1:
        return PI
    if x == 0:
        return PI / 2
    if isinstance(x, float):
        x = Fraction(x)
    r = atan(sqrt(1 - x * x) / Fraction(x))
    return r if x > 0 else r + PI


def arccos_complex(x):
    """real part of the complex arc cosine"""
    if x != x:
        return x
    return 0 if x > 1 else PI if x < -1 else arccos(x)


def arcsin(x):
    r = arccos(x)
    return r if r != r else PI / 2 - r


def arctan2(y, x):
    if x != x or y != y:
        return NAN
    if x == 0:
        return 0 if y == 0 else PI / 2 if y > 0 else -PI / 2
    r = atan(Fraction(y) / Fraction(x))
    return r if x > 0 else r + PI if y >= 0 else r - PI
