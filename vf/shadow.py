"""Tiny field arithmetic used only to keep generated histories inside the calls' contracts (never as an oracle)."""
from fractions import Fraction


class Sh:
    def __init__(self, p): self.p = p
    def w(self, x): return Fraction(*x) if self.p == 0 else x
    def u(self, x): return (x.numerator, x.denominator) if self.p == 0 else x % self.p
    def add(self, a, b): return self.u(self.w(a) + self.w(b))
    def mul(self, a, b): return self.u(self.w(a) * self.w(b))
    def neg(self, a): return self.u(-self.w(a))
    def div(self, a, b): return self.u(self.w(a) / self.w(b)) if self.p == 0 else a * pow(b, -1, self.p) % self.p
    def axpy(self, a, x, y):
        z = dict(y)
        for i, v in x.items():
            t = self.mul(a, v)
            if i in z: t = self.add(z[i], t)
            if t == 0 or t == (0, 1): z.pop(i, None)
            else: z[i] = t
        return z
