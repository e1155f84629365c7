import lib
import npmodel
import world
from checks import geom, pipeline
from checks.kernels import CURV, CURV_OUT, WC, call, geom_syms
from lib import unit_where
from pyinterp import PyRaise


def kernel(rep, n):
    def fn():
        I = world.fresh()
        g = geom_syms(n)
        cur = call(rep, "definecurvature", [g[k] for k in CURV])
        vel = call(rep, "windcomponents", [g[k] for k in WC])
        return g, cur, vel, geom.chain(I, g), I

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        g, cur, vel, ch, I = p.result
        rep.analysed(I)
        wc, ww = unit_where("definecurvature"), unit_where("windcomponents")
        ref = geom.curvature(g["r"], g["precurve"], g["presweep"], g["precone"])
        for k, a, b in zip(CURV_OUT, cur, ref):
            for i in range(n):
                rep.same(a[i], b[i], "curvature-model", "definecurvature:%s" % k, wc,
                         "%s[%d] (n=%d) is not the documented coordinate" % (k, i, n), p)
        for j, k in enumerate(("x_az", "y_az", "z_az")):
            for i in range(n):
                rep.same(cur[j][i], ch[0][j][i], "curvature-chain", "definecurvature:%s" % k, wc,
                         "%s[%d] (n=%d) differs from DirectionVector.bladeToAzimuth" % (k, i, n), p)
        ref = geom.velocities(g)
        for j, k in enumerate(("Vx", "Vy")):
            for i in range(n):
                rep.same(vel[j][i], ref[j][i], "wind-model", "windcomponents:%s" % k, ww,
                         "%s[%d] (n=%d) is not the documented velocity" % (k, i, n), p)
                rep.same(vel[j][i], ch[2 + j][i], "wind-chain", "windcomponents:%s" % k, ww,
                         "%s[%d] (n=%d) differs from the DirectionVector chain" % (k, i, n), p)
        rep.sample("n=%d: %s" % (n, p.describe()))
    lib.each_path(rep, fn, on)


def analysis(rep, n, consts=None, deriv=False, rule="analysis-inflow", zeros=()):
    """the velocities that reach the section equations, for a rotor described in the user's units"""
    def fn():
        R = pipeline.Rotor(n, pipeline.FLAGSETS[0], deriv, consts, zeros=zeros)
        R.loads()
        return R, list(npmodel.HOOKS["ind_calls"])

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        R, calls = p.result
        rep.analysed(R.I)
        s = R.s
        g = dict(R.v, Uinf=s["Uinf"], Omega=s["Omega"], hubHt=s["hubHt"], shear=s["shearExp"],
                 **{k: geom.rad(s[k]) for k in ("precone", "tilt", "yaw", "azimuth")})
        ref = geom.velocities(g)
        st = {lib.val(r): i for i, r in enumerate(R.v["r"])}
        got = set()
        for _, sc, _f in calls:
            i = st.get(lib.val(sc["r"]))
            if not rep.check(i is not None, rule, "inductionfactors:r", pipeline.LOADS_WHERE,
                             "section equations solved at a radius that is no station", p):
                continue
            got.add(i)
            for j, k in enumerate(("Vx", "Vy")):
                rep.same(sc[k.lower()], ref[j][i], rule, "inductionfactors:%s" % k, pipeline.LOADS_WHERE,
                         "%s at station %d is not the velocity of the documented frames" % (k, i), p)
        rep.check(len(got) == n, rule, "stations", pipeline.LOADS_WHERE, "only stations %s solved" % sorted(got), p)
    lib.each_path(rep, fn, on, explore="all" if rep.thorough else "flip")


def run(rep):
    rep.rule("curvature-model", "station coordinates, local cone angle, path length = documented expressions")
    rep.rule("curvature-chain", "station coordinates = DirectionVector.bladeToAzimuth")
    rep.rule("wind-model", "blade velocities = documented expressions")
    rep.rule("wind-chain", "blade velocities = sheared wind and rotation taken through the DirectionVector chain")
    rep.rule("analysis-inflow", "velocities reaching the section equations = documented velocities of the rotor as the user described it")
    n0 = rep.paths
    sizes = (2, 3, 4) if not rep.thorough else (2, 3, 4, 5, 6)
    for n in sizes:
        rep.configs += 1
        kernel(rep, n)
    analysis(rep, 3)
    rep.rule("zero-angle", "same where one or several of the angles, shear or blade shape numbers are exactly zero")
    for z in pipeline.ZEROS:
        analysis(rep, 3, rule="zero-angle", zeros=z)
    rep.rule("station-wind", "same for a wind speed given at each station")
    for d in (False, True):
        analysis(rep, 3, {"Uinf": lib.vec("Uinf", 3)}, d, "station-wind")
    rep.floor("runs", rep.paths - n0, len(sizes) + 1)
