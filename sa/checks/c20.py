import lib
import world
from checks.polarref import P, compare
from core import const, sym
from fractions import Fraction as Fr
from pyinterp import PyRaise

W = "ccblade/airfoilprep.py (Polar.correction3D)"
GRID = [-180, -40, -20, -12, -8, -5, -3, 0, 2, 5, 8, 12, 20, 30, 45, 90, 120, 180]
FINE = [-30] + [Fr(x, 2) for x in range(-11, 12)] + [Fr(61, 2), 31, 60]
NOZERO = [-20, -7, -4, -1, 3, 4, 7, 29, 31, 89]
CASES = [("defaults", GRID, None), ("defaults", FINE, None), ("defaults", NOZERO, None), ("limits 15, -12, 12", GRID, (15, -12, 12)),
         ("limits 20, 0, 8", GRID, (20, 0, 8)), ("limits 45, -8, -3", GRID, (45, -8, -3)), ("limits 0, -3, 5", GRID, (0, -3, 5)),
         ("limits between data, 25, -6, 6", GRID, (25, -6, 6)), ("limits 12, -5, 5", FINE, (12, -5, 5)), ("limits 60, -4, 4", NOZERO, (60, -4, 4))]


def run(rep):
    rep.rule("stall-correction", "coefficients = Du-Selig correction of lift and drag, other data kept")
    n0 = rep.paths
    rR, cr, t = (sym(k, positive=True) for k in ("r_over_R", "chord_over_r", "tsr"))
    for nm, grid, lim in CASES:
        for args in ("positional", "keywords"):
            rep.configs += 1
            src = P.of("p", grid)
            what = "%s, %d angles, %s" % (nm, len(grid), args)

            def fn():
                I = world.fresh()
                o = src.make(I)
                f = I.getattr(o, "correction3D")
                if lim is None:
                    g = f(rR, cr, t)
                elif args == "positional":
                    g = f(rR, cr, t, *lim)
                else:
                    g = f(tsr=t, chord_over_r=cr, r_over_R=rR, alpha_linear_max=lim[2], alpha_linear_min=lim[1], alpha_max_corr=lim[0])
                return I, g, o

            def on(p):
                if isinstance(p.result, PyRaise):
                    raise p.result
                I, g, o = p.result
                rep.analysed(I)
                ref = src.correction(rR, cr, t, *(lim or (30, -5, 5)))
                compare(rep, p, I, g, ref, "stall-correction", "correction3D", W, what)
                rep.sample(what)
            lib.each_path(rep, fn, on, explore="flip")
    rep.floor("corrections", rep.paths - n0, 15)
