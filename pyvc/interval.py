"""Outward-rounded interval arithmetic on numpy arrays.

An IV holds arrays lo <= hi (broadcastable); every operation returns an enclosure
of the exact results over all members.  After each rounded operation the bounds
are moved one unit in the last place outwards; sqrt is correctly rounded, sin,
cos and atan are widened by four units in the last place and 1e-300."""
import math
from fractions import Fraction
import numpy as np

INF = np.inf


def down(x):
    return np.nextafter(x, -INF)


def up(x):
    return np.nextafter(x, INF)


def wide(lo, hi):
    with np.errstate(all='ignore'):
        return IV(lo - np.abs(lo) * 9e-16 - 1e-300, hi + np.abs(hi) * 9e-16 + 1e-300)


class IV:
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        lo, hi = np.asarray(lo, dtype=float), np.asarray(hi, dtype=float)
        if np.isnan(lo).any() or np.isnan(hi).any():
            bad = np.isnan(lo) | np.isnan(hi)
            lo, hi = np.where(bad, -INF, lo), np.where(bad, INF, hi)
        self.lo, self.hi = lo, hi

    @staticmethod
    def of(x):
        """an enclosure of a number"""
        if isinstance(x, IV):
            return x
        if isinstance(x, (bool, int, np.integer)):
            x = int(x)
            if abs(x) < 2**53:
                return IV(float(x), float(x))
            x = Fraction(x)
        if isinstance(x, (float, np.floating)):
            return IV(float(x), float(x))
        if isinstance(x, Fraction):
            f = x.numerator / x.denominator
            if Fraction(f) == x:
                return IV(f, f)
            return IV(down(f), up(f))
        return None

    def __neg__(self):
        return IV(-self.hi, -self.lo)

    def __add__(self, o):
        with np.errstate(all='ignore'):
            return IV(down(self.lo + o.lo), up(self.hi + o.hi))

    def __sub__(self, o):
        with np.errstate(all='ignore'):
            return IV(down(self.lo - o.hi), up(self.hi - o.lo))

    def __mul__(self, o):
        with np.errstate(all='ignore'):
            a, b, c, d = self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi
            # 0 * inf is 0: the infinite bound is of finite values
            a, b, c, d = (np.where(np.isnan(t), 0.0, t) for t in (a, b, c, d))
            return IV(down(np.minimum(np.minimum(a, b), np.minimum(c, d))), up(np.maximum(np.maximum(a, b), np.maximum(c, d))))

    def __truediv__(self, o):
        with np.errstate(all='ignore'):
            bad = (o.lo <= 0) & (o.hi >= 0)
            a, b, c, d = self.lo / o.lo, self.lo / o.hi, self.hi / o.lo, self.hi / o.hi
            lo = np.where(bad, -INF, np.minimum(np.minimum(a, b), np.minimum(c, d)))
            hi = np.where(bad, INF, np.maximum(np.maximum(a, b), np.maximum(c, d)))
            return IV(down(lo), up(hi))

    def sq(self):
        with np.errstate(all='ignore'):
            a, b = self.lo * self.lo, self.hi * self.hi
            z = (self.lo <= 0) & (self.hi >= 0)
            return IV(np.where(z, 0.0, np.maximum(down(np.minimum(a, b)), 0.0)), up(np.maximum(a, b)))

    def pow(self, n):
        if n == 0:
            return IV(1.0, 1.0)
        r = None
        b = self
        while n:
            if n & 1:
                r = b if r is None else r * b
            b = b.sq()
            n >>= 1
        return r

    def sqrt(self):
        with np.errstate(all='ignore'):
            lo = np.where(self.lo < 0, np.nan, np.sqrt(np.maximum(self.lo, 0.0)))
            return IV(np.where(np.isnan(lo), lo, np.maximum(down(lo), 0.0)), up(np.sqrt(np.maximum(self.hi, 0.0))))

    def nonneg(self):
        return IV(np.maximum(self.lo, 0.0), np.maximum(self.hi, 0.0))

    def abs(self):
        z = (self.lo <= 0) & (self.hi >= 0)
        a, b = np.abs(self.lo), np.abs(self.hi)
        return IV(np.where(z, 0.0, np.minimum(a, b)), np.maximum(a, b))

    def mag(self):
        return np.maximum(np.abs(self.lo), np.abs(self.hi))

    def mig(self):
        return self.abs().lo

    def atan(self):
        return wide(np.arctan(self.lo), np.arctan(self.hi))

    @staticmethod
    def atan2(u, d):
        """for d >= 0, not both zero"""
        with np.errstate(all='ignore'):
            bad = (d.lo < 0)
            c = [np.arctan2(x, y) for x in (u.lo, u.hi) for y in (np.maximum(d.lo, 0.0), d.hi)]
            lo, hi = np.minimum(np.minimum(c[0], c[1]), np.minimum(c[2], c[3])), np.maximum(np.maximum(c[0], c[1]), np.maximum(c[2], c[3]))
            # a box around the origin has every direction of the half plane
            z = (u.lo <= 0) & (u.hi >= 0) & (d.lo <= 0)
            lo, hi = np.where(z, -2.0, lo), np.where(z, 2.0, hi)
            return wide(np.where(bad, -4.0, lo), np.where(bad, 4.0, hi))

    def cos(self):
        return (self + IV(down(math.pi / 2), up(math.pi / 2))).sin()

    def sin(self):
        with np.errstate(all='ignore'):
            a, b = np.sin(self.lo), np.sin(self.hi)
            lo, hi = np.minimum(a, b), np.maximum(a, b)
            q = math.pi / 2
            # a maximum at pi/2 + 2 k pi, a minimum at -pi/2 + 2 k pi inside, with room for rounding
            m = 1e-9
            top = np.floor((self.hi + m - q) / (4 * q)) > np.floor((self.lo - m - q) / (4 * q))
            bot = np.floor((self.hi + m + q) / (4 * q)) > np.floor((self.lo - m + q) / (4 * q))
            far = ~((self.hi < 100) & (self.lo > -100))
            r = wide(np.where(bot | far, -1.0, lo), np.where(top | far, 1.0, hi))
            return IV(np.maximum(r.lo, -1.0), np.minimum(r.hi, 1.0))

    def hull(self, o):
        return IV(np.minimum(self.lo, o.lo), np.maximum(self.hi, o.hi))

    def meet(self, o):
        """both enclose the same value"""
        lo, hi = np.maximum(self.lo, o.lo), np.minimum(self.hi, o.hi)
        bad = lo > hi
        return IV(np.where(bad, self.lo, lo), np.where(bad, self.hi, hi))

    def total(self, w):
        """sum over the last axis of w * self, w >= 0"""
        a, b = self.lo * w, self.hi * w
        with np.errstate(all='ignore'):
            e = (np.abs(a).sum(-1, keepdims=True) + np.abs(b).sum(-1, keepdims=True)) * 1e-14 + 1e-300
            return IV(a.sum(-1, keepdims=True) - e, b.sum(-1, keepdims=True) + e)

    def __repr__(self):
        return f'[{self.lo.tolist()}, {self.hi.tolist()}]'[:120]


PI = IV(down(math.pi), up(math.pi))
ONE = IV(1.0, 1.0)
ZERO = IV(0.0, 0.0)
