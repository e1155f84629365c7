"""The documented blade-element-momentum section model (Ning 2013, Buhl 2005), written as terms."""
import core
from core import PI, acos, const, cos, exp, sin, sqrt
from fractions import Fraction as Fr


def q(a, b=1):
    return const(Fr(a, b))


class Section:
    """everything the model defines for one section state; reg: "momentum" | "buhl" | "singular" | "brake" """

    def __init__(self, g, flags, guard=True):
        usecd, tip, hub, wake = (flags[k] for k in ("usecd", "tiploss", "hubloss", "wakerotation"))
        r, c, Rh, Rt, phi, cl, cd, B, Vx, Vy = (g[k] for k in "r chord Rhub Rtip phi cl cd B Vx Vy".split())
        s, co = sin(phi), cos(phi)
        self.sigma = B * c / (q(2) * PI() * r)
        cn, ct = cl * co, cl * s
        if usecd:
            cn, ct = cn + cd * s, ct - cd * co
        self.Ft = self.Fh = const(1)
        if tip:
            self.Ft = q(2) / PI() * acos(exp(-(B / q(2) * (Rt - r) / (r * s))))
        if hub:
            self.Fh = q(2) / PI() * acos(exp(-(B / q(2) * (r - Rh) / (Rh * s))))
        self.F = self.Ft * self.Fh
        self.k = self.sigma * cn / (q(4) * self.F * s * s)
        self.kp = self.sigma * ct / (q(4) * self.F * s * co)
        self.phi, self.s, self.c, self.wake = phi, s, co, wake
        self.lam = Vy / Vx
        self.cn, self.ct = cn, ct

    def gs(self):
        F, k = self.F, self.k
        return (q(2) * F * k - (q(10, 9) - F), q(2) * F * k - F * (q(4, 3) - F), q(2) * F * k - (q(25, 9) - q(2) * F))

    def regime(self):
        if not self.phi > 0:
            return "brake>" if self.k > 1 else "brake<"
        if not self.k > q(2, 3):
            return "momentum"
        g3 = self.gs()[2]
        return "singular" if abs(g3) < core.dec("1e-6") else "buhl"

    def a(self, reg):
        k = self.k
        if reg == "momentum":
            return k / (q(1) + k)
        if reg == "brake>":
            return k / (k - q(1))
        if reg == "brake<":
            return const(0)
        g1, g2, g3 = self.gs()
        if reg == "singular":
            return q(1) - q(1) / (q(2) * sqrt(g2))
        return (g1 - sqrt(g2)) / g3

    def ap(self):
        return self.kp / (q(1) - self.kp) if self.wake else const(0)

    def resid(self, reg):
        lead = self.s * (q(1) - self.k) if reg.startswith("brake") else self.s / (q(1) - self.a(reg))
        return lead - self.c / (self.lam * (q(1) + self.ap()))
