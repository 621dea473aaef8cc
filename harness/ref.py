"""Independent reference arithmetic and kinematics.

Nothing here calls into lips: numbers of the library are lifted to plain
Python integers / fractions / mpmath numbers and every spinor quantity is
recomputed from its textbook definition on those.
"""
from fractions import Fraction
import mpmath
import numpy
from pyadic import ModP, PAdic, GaussianRational
from pyadic.field_extension import FieldExtension


class Inconclusive(Exception):
    """The oracle cannot decide this case (e.g. degenerate denominator)."""


# ------------------------------------------------------------------ numbers

class M:
    """Integers modulo a prime."""
    __slots__ = ("v", "p")

    def __init__(self, v, p):
        self.v, self.p = int(v) % p, p

    def _c(self, o):
        if isinstance(o, M):
            return o.v
        if isinstance(o, int):
            return o
        if isinstance(o, Fraction):
            if o.denominator % self.p == 0:
                raise Inconclusive("denominator vanishes mod p")
            return o.numerator * pow(o.denominator, -1, self.p)
        return NotImplemented

    def _b(self, o, f):
        c = self._c(o)
        return NotImplemented if c is NotImplemented else M(f(self.v, c), self.p)

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return M(-self.v, self.p)

    def inv(self):
        if self.v == 0:
            raise Inconclusive("division by zero")
        return M(pow(self.v, -1, self.p), self.p)

    def __truediv__(self, o):
        c = self._c(o)
        return NotImplemented if c is NotImplemented else self * M(c, self.p).inv()

    def __rtruediv__(self, o): return self.inv() * o

    def __pow__(self, n):
        return M(pow(self.v, n, self.p), self.p) if n >= 0 else self.inv() ** (-n)

    def __eq__(self, o):
        c = self._c(o)
        return c is not NotImplemented and (self.v - c) % self.p == 0

    def __hash__(self): return hash((self.v, self.p))
    def __repr__(self): return f"{self.v}%{self.p}"


def val(x, p):
    """p-adic valuation of a Fraction/int (None for zero)."""
    x = Fraction(x)
    if x == 0:
        return None
    v, n, d = 0, x.numerator, x.denominator
    while n % p == 0:
        n //= p
        v += 1
    while d % p == 0:
        d //= p
        v -= 1
    return v


EXACT = 10 ** 9   # "infinite" absolute precision


class PA:
    """p-adic number: an exact representative and the absolute precision N up to which it is known."""
    __slots__ = ("x", "p", "N")

    def __init__(self, x, p, N=EXACT):
        self.x, self.p, self.N = Fraction(x), p, N
        if N < EXACT and self.x.denominator.bit_length() + self.x.numerator.bit_length() > 20000:
            # keep representatives small: any representative modulo p^N will do
            if self.x.denominator % p:
                m = p ** max(N, 0)
                self.x = Fraction(self.x.numerator * pow(self.x.denominator, -1, m) % m if m > 1 else 0)

    def v(self):
        w = val(self.x, self.p)
        return self.N if w is None else min(w, self.N)

    def _c(self, o):
        if isinstance(o, PA):
            return o
        if isinstance(o, (int, Fraction)):
            return PA(o, self.p)
        return None

    def __add__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else PA(self.x + o.x, self.p, min(self.N, o.N))
    __radd__ = __add__
    def __neg__(self): return PA(-self.x, self.p, self.N)

    def __sub__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o): return (-self) + o

    def __mul__(self, o):
        o = self._c(o)
        if o is None:
            return NotImplemented
        return PA(self.x * o.x, self.p, min(EXACT, self.N + o.v() if self.N < EXACT else EXACT, o.N + self.v() if o.N < EXACT else EXACT))
    __rmul__ = __mul__

    def inv(self):
        v = self.v()
        if self.x == 0 or v >= self.N:
            raise Inconclusive("division by p-adic zero")
        return PA(1 / self.x, self.p, EXACT if self.N >= EXACT else self.N - 2 * v)

    def __truediv__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self * o.inv()

    def __rtruediv__(self, o): return self.inv() * o

    def __pow__(self, n):
        if n < 0:
            return self.inv() ** (-n)
        r = PA(1, self.p)
        for _ in range(n):
            r = r * self
        return r

    def is_zero(self):
        w = val(self.x, self.p)
        return w is None or w >= self.N

    def __eq__(self, o):
        o = self._c(o)
        return o is not None and (self - o).is_zero()

    def __hash__(self): raise TypeError
    def __repr__(self): return f"PA({self.x if abs(self.x.numerator) < 10**40 else '...'}, p={self.p}, O(p^{self.N}))"


class G:
    """Gaussian rationals."""
    __slots__ = ("re", "im")

    def __init__(self, re, im=0):
        self.re, self.im = Fraction(re), Fraction(im)

    def _c(self, o):
        if isinstance(o, G):
            return o
        if isinstance(o, (int, Fraction)):
            return G(o)
        return None

    def __add__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else G(self.re + o.re, self.im + o.im)
    __radd__ = __add__
    def __neg__(self): return G(-self.re, -self.im)

    def __sub__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else G(self.re - o.re, self.im - o.im)

    def __rsub__(self, o): return (-self) + o

    def __mul__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else G(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def inv(self):
        d = self.re * self.re + self.im * self.im
        if d == 0:
            raise Inconclusive("division by zero")
        return G(self.re / d, -self.im / d)

    def __truediv__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self * o.inv()

    def __rtruediv__(self, o): return self.inv() * o

    def __pow__(self, n):
        if n < 0:
            return self.inv() ** (-n)
        r = G(1)
        for _ in range(n):
            r = r * self
        return r

    def __eq__(self, o):
        o = self._c(o)
        return o is not None and self.re == o.re and self.im == o.im

    def __hash__(self): return hash((self.re, self.im))
    def __repr__(self): return f"({self.re}+{self.im}i)"


def lift(x):
    """Library scalar -> reference scalar."""
    if isinstance(x, numpy.ndarray) and x.size == 1:
        x = x.flatten()[0]
    if isinstance(x, (bool, numpy.bool_)):
        raise TypeError("boolean where a number was expected")
    if isinstance(x, ModP):
        return M(x.n, x.p)
    if isinstance(x, PAdic):
        return PA(Fraction(x.num) * Fraction(x.p) ** x.n, x.p, x.n + x.k)
    if isinstance(x, GaussianRational):
        return G(x.real, x.imag)
    if isinstance(x, FieldExtension):
        raise Inconclusive("field extension")
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (int, numpy.integer)):
        return int(x)
    if isinstance(x, (mpmath.mpc, mpmath.mpf)):
        return mpmath.mpc(x)
    if isinstance(x, (float, complex, numpy.floating, numpy.complexfloating)):
        return mpmath.mpc(x.real, x.imag)
    raise TypeError(f"not a number of any known field: {type(x)}")


def close(ref, lib, scale=1, digits=230):
    """Does the library value agree with the reference value?"""
    lib_ = lift(lib)
    if isinstance(ref, mpmath.mpc) or isinstance(ref, mpmath.mpf) or isinstance(lib_, mpmath.mpc):
        if isinstance(ref, G):
            ref = mpmath.mpc(mpmath.mpf(ref.re.numerator) / ref.re.denominator, mpmath.mpf(ref.im.numerator) / ref.im.denominator)
        elif isinstance(ref, Fraction):
            ref = mpmath.mpf(ref.numerator) / ref.denominator
        if isinstance(lib_, (int, Fraction)):
            lib_ = mpmath.mpf(Fraction(lib_).numerator) / Fraction(lib_).denominator
        if isinstance(lib_, G):
            return False
        d = abs(ref - lib_)
        return bool(d <= mpmath.mpf(10) ** (-digits) * (abs(ref) + abs(scale)))
    if isinstance(ref, PA) or isinstance(lib_, PA):
        p = ref.p if isinstance(ref, PA) else lib_.p
        a = ref if isinstance(ref, PA) else PA(ref, p)
        b = lib_ if isinstance(lib_, PA) else PA(lib_, p)
        if isinstance(ref, PA) and isinstance(lib_, PA) and ref.p != lib_.p:
            return False
        return (a - b).is_zero()
    if isinstance(ref, M) or isinstance(lib_, M):
        if isinstance(ref, M) and isinstance(lib_, M) and ref.p != lib_.p:
            return False
        return ref == lib_ if isinstance(ref, M) else lib_ == ref
    if isinstance(ref, G) or isinstance(lib_, G):
        return ref == lib_ if isinstance(ref, G) else lib_ == ref
    return Fraction(ref) == Fraction(lib_)


def is_zero(x, scale=1, digits=270):
    """Is a reference scalar zero to the precision of its field?"""
    if isinstance(x, PA):
        return x.is_zero()
    if isinstance(x, (mpmath.mpc, mpmath.mpf)):
        return bool(abs(x) <= mpmath.mpf(10) ** (-digits) * abs(scale))
    return x == 0


# --------------------------------------------------------------- kinematics

def mm(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(len(B))), 0) for j in range(len(B[0]))] for i in range(len(A))]


def madd(A, B, s=1):
    return [[A[i][j] + s * B[i][j] for j in range(len(A[0]))] for i in range(len(A))]


def mT(A):
    return [list(r) for r in zip(*A)]


def det2(A):
    return A[0][0] * A[1][1] - A[0][1] * A[1][0]


def detn(A):
    if len(A) == 1:
        return A[0][0]
    return sum(((-1) ** j * A[0][j] * detn([r[:j] + r[j + 1:] for r in A[1:]]) for j in range(len(A))), 0)


class Leg:
    """Massless leg from lower-index spinors, or massive leg from the matrix P^{α̇α}."""

    def __init__(self, r=None, l=None, P=None):
        self.r, self.l = r, l
        if r is not None:
            ru, lu = [r[1], -r[0]], [l[1], -l[0]]
            self.ru, self.lu = ru, lu
            self.P = [[lu[i] * ru[j] for j in range(2)] for i in range(2)]
            self.Pb = [[r[i] * l[j] for j in range(2)] for i in range(2)]
        else:
            self.P = P
            # lower both indices: Pbar_{αα̇} = ε_{αβ} ε_{α̇β̇} P^{β̇β}
            self.Pb = [[P[1][1], -P[0][1]], [-P[1][0], P[0][0]]]
            self.ru = self.lu = None


def lift_arr(a, shape):
    a = numpy.asarray(a)
    if a.shape != shape:
        raise TypeError(f"shape {a.shape} where {shape} was expected")
    return [lift(x) for x in a.flatten()]


def leg_from_lib(oP, massive=None):
    if massive is None:
        massive = oP.r_sp_d is None or oP.r_sp_d.shape != (2, 1)
    if not massive:
        return Leg(lift_arr(oP.r_sp_d, (2, 1)), lift_arr(oP.l_sp_d, (1, 2)))
    m = lift_arr(oP.r2_sp, (2, 2))
    return Leg(P=[m[:2], m[2:]])


class Point:
    def __init__(self, legs):
        self.legs = legs

    @classmethod
    def of(cls, oPs, massive=()):
        return cls([leg_from_lib(list.__getitem__(oPs, i), True if (i + 1) in massive else None) for i in range(len(oPs))])

    def __len__(self): return len(self.legs)
    def __getitem__(self, i): return self.legs[i - 1]

    def ang(self, i, j):
        a, b = self[i].r, self[j].r
        return a[1] * b[0] - a[0] * b[1]

    def sq(self, i, j):
        a, b = self[i].l, self[j].l
        return a[0] * b[1] - a[1] * b[0]

    def sumP(self, idx, bar=False):
        """idx: iterable of signed leg numbers."""
        r = [[0, 0], [0, 0]]
        for i in idx:
            L = self[abs(i)]
            r = madd(r, L.Pb if bar else L.P, 1 if i > 0 else -1)
        return r

    def mand(self, idx):
        return det2(self.sumP(idx))

    def dot(self, A, B):
        """Minkowski product of two signed sums of momenta: 2 A.B = (A+B)^2 - A^2 - B^2."""
        PA_, PB_ = self.sumP(A), self.sumP(B)
        return (det2(madd(PA_, PB_)) - det2(PA_) - det2(PB_)) / 2 if not isinstance(det2(PA_), int) else \
            Fraction(det2(madd(PA_, PB_)) - det2(PA_) - det2(PB_), 2)

    def chain(self, open_, a, mids, b, close_):
        """⟨a|..|b⟩ etc. a/b may be None for open ends; open_/close_ in '⟨[|' / '⟩]|'. Returns matrix."""
        n = len(mids)
        if a is not None:
            start = open_
        elif b is not None:
            # the chirality of the first index follows from the last one
            last = close_
            start = '⟨' if ((last == ']') == (n % 2 == 1)) else '['
        else:
            start = '⟨'
        mats = [self.sumP(m, bar=(k % 2 == 0) == (start == '⟨')) for k, m in enumerate(mids)]
        res = None
        if a is not None:
            res = [self[a].ru] if open_ == '⟨' else [self[a].l]
        for m in mats:
            res = m if res is None else mm(res, m)
        if b is not None:
            col = [[x] for x in (self[b].r if close_ == '⟩' else self[b].lu)]
            res = col if res is None else mm(res, col)
        return res

    def trace(self, mids):
        res = None
        for k, m in enumerate(mids):
            X = self.sumP(m, bar=(k % 2 == 0))
            res = X if res is None else mm(res, X)
        return res[0][0] + res[1][1]

    def total(self):
        return self.sumP(range(1, len(self) + 1))

    def scale(self):
        """size of the momenta (complex numbers only)"""
        s = mpmath.mpf(1)
        for L in self.legs:
            for row in L.P:
                for x in row:
                    if isinstance(x, mpmath.mpc):
                        s = max(s, abs(x))
        return s

    def conserves(self):
        s = self.scale()
        return all(is_zero(x, s) for row in self.total() for x in row)

    def massless(self):
        s = self.scale() ** 2
        return all(is_zero(det2(L.P), s) for L in self.legs)
