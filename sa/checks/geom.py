"""Reference models of blade geometry, inflow and rotor integration, and the coordinate-system chain."""
import numpy as np

import world
from checks.bemmodel import q
from core import PI, atan2, const, cos, lift, power, sin, sqrt


def deg(x):
    return x * const(180) / PI()


def rad(x):
    return x * PI() / const(180)


def curvature(r, pre, swp, pc):
    """documented station coordinates, local cone angle and path length (precone in rad)"""
    n = len(r)
    x = [pre[i] * cos(pc) - r[i] * sin(pc) for i in range(n)]
    z = [r[i] * cos(pc) + pre[i] * sin(pc) for i in range(n)]
    y = [lift(swp[i]) for i in range(n)]
    seg = [atan2(x[i] - x[i + 1], z[i + 1] - z[i]) for i in range(n - 1)]
    cone = [seg[0]] + [(seg[i - 1] + seg[i]) / 2 for i in range(1, n - 1)] + [seg[-1]]
    s = [const(0)]
    for i in range(1, n):
        a, b, c = pre[i] - pre[i - 1], swp[i] - swp[i - 1], r[i] - r[i - 1]
        s.append(s[-1] + sqrt(a * a + b * b + c * c))
    return x, y, z, cone, s


def velocities(g):
    """documented velocities at the blade stations (angles in rad)"""
    x, y, z, cone, _ = curvature(g["r"], g["precurve"], g["presweep"], g["precone"])
    Om = g["Omega"] * PI() / 30
    ca, sa = cos(g["azimuth"]), sin(g["azimuth"])
    ct, st = cos(g["tilt"]), sin(g["tilt"])
    cy, sy = cos(g["yaw"]), sin(g["yaw"])
    Vx, Vy = [], []
    U = g["Uinf"] if isinstance(g["Uinf"], np.ndarray) else [g["Uinf"]] * len(x)
    for i in range(len(x)):
        h = (y[i] * sa + z[i] * ca) * ct - x[i] * st
        V = U[i] * power(const(1) + h / g["hubHt"], g["shear"])
        c, s = cos(cone[i]), sin(cone[i])
        Vx.append(V * ((cy * st * ca + sy * sa) * s + cy * ct * c) - Om * y[i] * s)
        Vy.append(V * (cy * st * sa - sy * ca) + Om * z[i])
    return Vx, Vy


def chain(I, g):
    """the same through the coordinate-system classes (angles in degrees)"""
    D = world.cls(I, "csystem", "DirectionVector")

    def go(v, name, *a):
        return I.getattr(v, name)(*a)
    n = len(g["r"])
    az = go(D(g["precurve"], g["presweep"], g["r"]), "bladeToAzimuth", deg(g["precone"]))
    hub = go(az, "azimuthToHub", deg(g["azimuth"]))
    yaw = go(hub, "hubToYaw", deg(g["tilt"]))
    h = I.getattr(yaw, "z")
    x, y, z = (I.getattr(az, k) for k in "xyz")
    seg = [atan2(x[i] - x[i + 1], z[i + 1] - z[i]) for i in range(n - 1)]
    cone = np.empty(n, dtype=object)
    for i in range(n):
        cone[i] = seg[0] if i == 0 else seg[-1] if i == n - 1 else (seg[i - 1] + seg[i]) / 2
    V = np.empty(n, dtype=object)
    zero = np.empty(n, dtype=object)
    Om = np.empty(n, dtype=object)
    for i in range(n):
        V[i] = g["Uinf"] * power(const(1) + h[i] / g["hubHt"], g["shear"])
        zero[i] = const(0)
        Om[i] = g["Omega"] * PI() / 30
    w = D(V, zero, zero)
    for nm, a in (("windToYaw", g["yaw"]), ("yawToHub", g["tilt"]), ("hubToAzimuth", g["azimuth"])):
        w = go(w, nm, deg(a))
    w = go(w, "azimuthToBlade", deg(cone))
    rot = go(D(-Om, zero, zero), "cross", az)
    rot = go(rot, "azimuthToBlade", deg(cone))
    P = [I.getattr(w, k) for k in "xy"]
    Q = [I.getattr(rot, k) for k in "xy"]
    return (x, y, z), cone, [lift(P[0][i]) + lift(Q[0][i]) for i in range(n)], [lift(P[1][i]) + lift(Q[1][i]) for i in range(n)]


def trapezoid(Np, Tp, r, pre, swp, pc, Rhub, Rtip, pt, st):
    """documented single-blade integrals: thrust, side force, vertical force, torque, flap moment"""
    z0 = [const(0)]
    rf = [lift(Rhub)] + [lift(v) for v in r] + [lift(Rtip)]
    cf = z0 + [lift(v) for v in pre] + [lift(pt)]
    sf = z0 + [lift(v) for v in swp] + [lift(st)]
    N = z0 + [lift(v) for v in Np] + z0
    T = z0 + [lift(v) for v in Tp] + z0
    x, y, z, cone, s = curvature(rf, cf, sf, pc)
    out = []
    for f in ([a * cos(c) for a, c in zip(N, cone)], T, [a * sin(c) for a, c in zip(N, cone)],
              [a * b for a, b in zip(T, z)], [a * b for a, b in zip(N, z)]):
        t = const(0)
        for i in range(len(f) - 1):
            t = t + (f[i] + f[i + 1]) * (s[i + 1] - s[i]) / 2
        out.append(t)
    return out
