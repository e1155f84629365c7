from lib import *
A="ccblade/airfoilprep.py"
PA="C14 C15 C18 C19 C20 C21 C22 C27".split()
ref("a1",A,PA,("Polar","__init__",'''
    def __init__(self, Re, alpha, cl, cd, cm):
        self.Re = Re
        for name, values in zip(("alpha", "cl", "cd", "cm"), (alpha, cl, cd, cm)):
            setattr(self, name, np.array(values))
'''),("Polar","blend",'''
    def blend(self, other, weight):
        lo = np.maximum(self.alpha.min(), other.alpha.min())
        hi = np.minimum(self.alpha.max(), other.alpha.max())
        merged = np.unique(np.concatenate((self.alpha, other.alpha)))
        merged = merged[(merged >= lo) & (merged <= hi)]

        def mix(one, two):
            return (1.0 - weight) * one + weight * two

        coef = {}
        for k in ("cl", "cd", "cm"):
            coef[k] = mix(np.interp(merged, self.alpha, getattr(self, k)), np.interp(merged, other.alpha, getattr(other, k)))
        return self.__class__(mix(self.Re, other.Re), merged, **coef)
'''))
ref("a2",A,PA,("Polar","blend",'''
    def blend(self, other, weight):
        lo = max([self.alpha[0], other.alpha[0]])
        hi = min([self.alpha[-1], other.alpha[-1]])
        angles = sorted(set(self.alpha.tolist()) | set(other.alpha.tolist()))
        angles = np.array([a for a in angles if lo <= a <= hi])
        cl, cd, cm = [
            (1 - weight) * np.interp(angles, self.alpha, one) + weight * np.interp(angles, other.alpha, two)
            for one, two in ((self.cl, other.cl), (self.cd, other.cd), (self.cm, other.cm))
        ]
        Re = self.Re * (1 - weight) + other.Re * weight
        return type(self)(Re, angles, cl, cd, cm)
'''))
ref("a3",A,PA,("Polar","correction3D",'''
    @staticmethod
    def _fit_line(x, y, lo, hi):
        sel = np.where((x >= lo) & (x <= hi))[0]
        slope, icept = np.polyfit(x[sel], y[sel], 1)
        return slope, -icept / slope

    @staticmethod
    def _du_selig(c_over_r, exponent, slope):
        power = np.power(c_over_r, exponent)
        return (1.6 * c_over_r / 0.1267 * (1 - power) / (1 + power) - 1) / slope

    def correction3D(self, r_over_R, chord_over_r, tsr, alpha_max_corr=30, alpha_linear_min=-5, alpha_linear_max=5):
        """du selig"""
        alpha = np.deg2rad(self.alpha)
        amax, lmin, lmax = (np.deg2rad(v) for v in (alpha_max_corr, alpha_linear_min, alpha_linear_max))
        lam = tsr / np.sqrt(1 + tsr ** 2)
        expon = 1 / (lam * r_over_R)
        m, alpha0 = self._fit_line(alpha, self.cl, lmin, lmax)
        fcl = self._du_selig(chord_over_r, expon, m)
        fcd = self._du_selig(chord_over_r, 0.5 * expon, m)
        adj = np.where(alpha <= amax, 1.0, ((np.pi / 2 - alpha) / (np.pi / 2 - amax)) ** 2)
        cl_3d = self.cl + fcl * adj * (m * (alpha - alpha0) - self.cl)
        cd_3d = self.cd * (1 + fcd) - fcd * np.interp(0.0, alpha, self.cd)
        return type(self)(self.Re, np.rad2deg(alpha), cl_3d, cd_3d, self.cm)
'''))
ref("a4",A,PA,("Polar","correction3D",'''
    def correction3D(self, r_over_R, chord_over_r, tsr, alpha_max_corr=30, alpha_linear_min=-5, alpha_linear_max=5):
        alpha = np.radians(self.alpha)
        n = len(alpha)
        lam = tsr / (1 + tsr * tsr) ** 0.5
        lin = [i for i in range(n) if np.radians(alpha_linear_min) <= alpha[i] <= np.radians(alpha_linear_max)]
        p = np.polyfit(alpha[lin], self.cl[lin], deg=1)
        m = p[0]
        base = 1.6 * chord_over_r / 0.1267

        def factor(half):
            x = chord_over_r ** (1.0 / lam / r_over_R / (2.0 if half else 1.0))
            return (base * (1 - x) / (1 + x) - 1) / m

        fcl, fcd = factor(False), factor(True)
        cd0 = np.interp(0.0, alpha, self.cd)
        cl_3d = np.zeros(n)
        cd_3d = np.zeros(n)
        for i, (a, cl, cd) in enumerate(zip(alpha, self.cl, self.cd)):
            weight = 1.0
            if a > np.radians(alpha_max_corr):
                weight = ((np.pi / 2 - a) / (np.pi / 2 - np.radians(alpha_max_corr))) ** 2
            cl_3d[i] = cl + fcl * (m * a + p[1] - cl) * weight
            cd_3d[i] = cd + fcd * (cd - cd0)
        return type(self)(self.Re, np.degrees(alpha), cl_3d, cd_3d, self.cm)
'''))
ext_head='''
    def extrapolate(self, cdmax, AR=None, cdmin=0.001, nalpha=15):
        if cdmin < 0:
            raise Exception("cdmin cannot be < 0")
        cl_adj = 0.7
        if AR is not None:
            cdmax = 1.11 + 0.018 * AR
        self.cdmax = max([cdmax] + list(self.cd))
        ends = np.radians(self.alpha[[0, -1]])
        alpha_low, alpha_high = ends
        cl_low, cl_high = self.cl[0], self.cl[-1]
        cd_low, cd_high = self.cd[0], self.cd[-1]
        cm_high = self.cm[-1]
        if alpha_high > np.pi / 2:
            raise Exception("alpha[-1] > pi/2")
        if alpha_low < -np.pi / 2:
            raise Exception("alpha[0] < -pi/2")
'''
ref("a5",A,PA,("Polar","extrapolate",ext_head+'''
        sa, ca = np.sin(alpha_high), np.cos(alpha_high)
        self.A = (cl_high - self.cdmax * sa * ca) * sa / ca ** 2
        self.B = (cd_high - self.cdmax * sa ** 2) / ca
        half = 0.5 * np.pi

        def segment(start, stop, to_model, adj, drop_first=True):
            x = np.linspace(start, stop, nalpha)
            if drop_first:
                x = x[1:]
            return (x,) + tuple(self.__Viterna(to_model(x), adj))

        parts = []
        a7, c7, d7 = segment(-np.pi, -np.pi + alpha_high, lambda x: x + np.pi, 1.0, False)
        parts.append((a7, (a7 + np.pi) / alpha_high * cl_high * cl_adj, d7))
        parts.append(segment(-np.pi + alpha_high, -half, lambda x: x + np.pi, cl_adj))
        gap = not (alpha_low <= -alpha_high)
        top = -alpha_high if gap else alpha_low
        a5 = np.linspace(-half, top, nalpha)[1:]
        if top == alpha_low:
            a5 = a5[:-1]
        c5, d5 = self.__Viterna(-a5, -cl_adj)
        parts.append((a5, c5, d5))
        if gap:
            a4 = np.linspace(-alpha_high, alpha_low, nalpha)[1:-2]
            c4 = -cl_high * cl_adj + (a4 + alpha_high) / (alpha_low + alpha_high) * (cl_low + cl_high * cl_adj)
            d4 = cd_low + (a4 - alpha_low) / (-alpha_high - alpha_low) * (cd_high - cd_low)
            parts.append((a4, c4, d4))
        parts.append((np.radians(self.alpha), self.cl, self.cd))
        parts.append(segment(alpha_high, half, lambda x: x, 1.0))
        parts.append(segment(half, np.pi - alpha_high, lambda x: np.pi - x, -cl_adj))
        a3, c3, d3 = segment(np.pi - alpha_high, np.pi, lambda x: np.pi - x, 1.0)
        parts.append((a3, (a3 - np.pi) / alpha_high * cl_high * cl_adj, d3))
        alpha, cl, cd = (np.concatenate(column) for column in zip(*parts))
        cd = np.where(cd < cdmin, cdmin, cd)
        degrees = np.degrees(alpha)

        lo10 = 10.0 * np.floor(self.alpha[0] / 10.0)
        hi10 = 10.0 * np.ceil(self.alpha[-1] / 10.0)
        left = np.linspace(-180.0, lo10, abs(int((-180.0 - lo10) / 10.0 - 1)))
        right = np.linspace(hi10, 180.0, int((180.0 - hi10) / 10.0 + 1))
        left = left[left < self.alpha[0]]
        right = right[right > self.alpha[-1]]
        alpha_cm = np.r_[left, self.alpha, right]
        cm_ext = np.r_[np.zeros(left.size), self.cm, np.zeros(right.size)]
        if np.any(self.cm != 0):
            coef = self.__CMCoeff(cl_high, cd_high, cm_high)
            cl_cm = np.interp(alpha_cm, degrees, cl)
            cd_cm = np.interp(alpha_cm, degrees, cd)
            for i, a in enumerate(alpha_cm):
                value = self.__getCM(i, coef, alpha_cm, cl_cm, cd_cm, self.alpha[0], self.alpha[-1])
                if value is not None:
                    cm_ext[i] = value
        return type(self)(self.Re, degrees, cl, cd, np.interp(degrees, alpha_cm, cm_ext))
'''),("Polar","_Polar__Viterna" if 0 else "__Viterna",'''
    def __Viterna(self, alpha, cl_adj):
        x = np.clip(alpha, 0.0001, None)
        s, c = np.sin(x), np.cos(x)
        cl = (0.5 * self.cdmax * np.sin(2 * x) + self.A * c * c / s) * cl_adj
        return cl, self.cdmax * s * s + self.B * c
'''))
ref("a6",A,PA,("Polar","__CMCoeff",'''
    def __CMCoeff(self, cl_high, cd_high, cm_high):
        k = 0
        for i, (a, c0, c1) in enumerate(zip(self.alpha[:-1], self.cl[:-1], self.cl[1:])):
            if np.abs(a) < 20.0 and c0 <= 0 <= c1:
                k = i
                break
        frac = self.cl[k] / (self.cl[k] - self.cl[k + 1])
        self.cm0 = (1 - frac) * self.cm[k] + frac * self.cm[k + 1]
        ah = np.radians(self.alpha[-1])
        XM = (self.cm0 - cm_high) / (cl_high * np.cos(ah) + cd_high * np.sin(ah))
        return (XM - 0.25) / np.tan(ah - np.pi / 2)
'''),("Polar","__getCM",'''
    _CM_TABLE = {165: -0.4, 170: -0.5, 175: -0.25, 180: 0, -165: 0.35, -170: 0.4, -175: 0.2, -180: 0}

    def __getCM(self, i, cmCoef, alpha, cl_ext, cd_ext, alpha_low_deg, alpha_high_deg):
        a = alpha[i]
        if alpha_low_deg <= a <= alpha_high_deg:
            return None
        if -165 < a < 165:
            if abs(a) < 0.01:
                return self.cm0
            sgn = 1.0 if a > 0 else -1.0
            rad = sgn * np.radians(a)
            arm = cmCoef * np.tan(rad - np.pi / 2) + 0.25
            return sgn * (self.cm0 - arm * (sgn * cl_ext[i] * np.cos(rad) + cd_ext[i] * np.sin(rad)))
        try:
            return self._CM_TABLE[a]
        except KeyError:
            print("Angle encountered for which there is no CM table value " "(near +/-180 deg). Program will stop.")
            return 0
'''))
ref("a7",A,PA,("Polar","unsteadyparam",'''
    def unsteadyparam(self, alpha_linear_min=-5, alpha_linear_max=5):
        alpha = np.radians(self.alpha)
        cn = self.cl * np.cos(alpha) + self.cd * np.sin(alpha)
        linear = (alpha >= np.radians(alpha_linear_min)) & (alpha <= np.radians(alpha_linear_max))
        if linear.size < 10 or np.unique(self.cl).size < 10:
            return (0.0,) * 8
        m, intercept = np.polyfit(alpha[linear], cn[linear], 1)
        alpha0 = -intercept / m

        def stall(search, sign):
            excess = sign * (m * (search - alpha0) - np.interp(search, alpha, cn))
            a = np.interp(0.05, excess, search)
            return a, m * (a - alpha0)

        aU, cnU = stall(np.radians(np.arange(40.0)), 1.0)
        aL, cnL = stall(np.radians(np.arange(5.0, -40.0, -1)), -1.0)
        k = np.argmin(self.cd)
        return 0.0, np.degrees(aU), np.degrees(alpha0), m, cnU, cnL, self.alpha[k], self.cd[k]
'''))
ref("a8",A,PA,("Airfoil","__init__",'''
    def __init__(self, polars):
        self.polars = list(polars)
        self.polars.sort(key=lambda q: q.Re)
        self.polar_type = type(polars[0])
'''),("Airfoil","initFromAerodynFile",'''
    @classmethod
    def initFromAerodynFile(cls, aerodynFile, polarType=Polar):
        def first(line):
            return line.split()[0]

        polars = []
        with open(aerodynFile, "r") as f:
            for _ in range(3):
                f.readline()
            count = int(first(f.readline()))
            while len(polars) < count:
                Re = 1e6 * float(first(f.readline()))
                for _ in range(8):
                    float(first(f.readline()))
                rows = []
                for line in iter(f.readline, ""):
                    if line.find("EOT") >= 0:
                        break
                    data = list(map(float, line.split()))
                    if len(data) < 4:
                        raise ValueError("Error: Expected 4 columns of data but found, {}".format(data))
                    rows.append(data[:4])
                polars.append(polarType(Re, *zip(*rows)))
        return cls(polars)
'''))
ref("a9",A,PA,("Airfoil","initFromAerodynFile",'''
    @classmethod
    def initFromAerodynFile(cls, aerodynFile, polarType=Polar):
        with open(aerodynFile) as f:
            lines = f.read().splitlines()
        numTables = int(lines[3].split()[0])
        pos = 4
        polars = []
        for _ in range(numTables):
            Re = float(lines[pos].split()[0]) * 1e6
            pos += 1
            param = [float(ln.split()[0]) for ln in lines[pos : pos + 8]]
            pos += 8
            table = []
            while "EOT" not in lines[pos]:
                data = [float(s) for s in lines[pos].split()]
                if len(data) < 4:
                    raise ValueError(f"Error: Expected 4 columns of data but found, {data}")
                table.append(data)
                pos += 1
            pos += 1
            table = np.array(table)
            polars.append(polarType(Re, table[:, 0], table[:, 1], table[:, 2], table[:, 3]))
        return cls(polars)
'''))
ref("a10",A,PA,("Airfoil","getPolar",'''
    def getPolar(self, Re):
        polars = self.polars
        first, last = polars[0], polars[-1]
        if not Re > first.Re:
            return copy.deepcopy(first)
        if not Re < last.Re:
            return copy.deepcopy(last)
        for lower, upper in zip(polars, polars[1:]):
            if Re <= upper.Re:
                return lower.blend(upper, (Re - lower.Re) / (upper.Re - lower.Re))
'''),("Airfoil","blend",'''
    def blend(self, other, weight):
        numbers = sorted({p.Re for p in self.polars}.union(p.Re for p in other.polars))
        return Airfoil([self.getPolar(Re).blend(other.getPolar(Re), weight) for Re in numbers])
'''),("Airfoil","correction3D",'''
    def correction3D(self, r_over_R, chord_over_r, tsr, alpha_max_corr=30, alpha_linear_min=-5, alpha_linear_max=5):
        args = (r_over_R, chord_over_r, tsr, alpha_max_corr, alpha_linear_min, alpha_linear_max)
        return self._map(lambda p: p.correction3D(*args))

    def _map(self, op):
        return Airfoil([op(p) for p in self.polars])
'''),("Airfoil","extrapolate",'''
    def extrapolate(self, cdmax, AR=None, cdmin=0.001):
        return self._map(lambda p: p.extrapolate(cdmax, AR=AR, cdmin=cdmin))
'''),("Airfoil","interpToCommonAlpha",'''
    def interpToCommonAlpha(self, alpha=None):
        if alpha is None:
            alpha = np.unique(np.concatenate([p.alpha for p in self.polars]))
        new = lambda p: self.polar_type(p.Re, alpha, *(np.interp(alpha, p.alpha, y) for y in (p.cl, p.cd, p.cm)))
        return self._map(new)
'''),("Airfoil","createDataGrid",'''
    def createDataGrid(self):
        common = self.interpToCommonAlpha().polars
        Re = [p.Re for p in common]
        cl = np.column_stack([p.cl for p in common])
        cd = np.array([p.cd for p in common]).T
        cm = np.stack([p.cm for p in common], axis=1)
        return common[0].alpha, Re, cl, cd, cm
'''))
ref("a11",A,PA,("Airfoil","interpToCommonAlpha",'''
    def interpToCommonAlpha(self, alpha=None):
        if alpha is None:
            from functools import reduce
            alpha = reduce(np.union1d, (p.alpha for p in self.polars))
        polars = []
        for p in self.polars:
            columns = {k: np.interp(alpha, p.alpha, vars(p)[k]) for k in ("cl", "cd", "cm")}
            polars.append(self.polar_type(Re=p.Re, alpha=alpha, **columns))
        return Airfoil(polars)
'''),("Airfoil","writeToAerodynFile",'''
    _LABELS = (
        "Control setting",
        "Stall angle (deg)",
        "Angle of attack for zero Cn for linear Cn curve (deg)",
        "Cn slope for zero lift for linear Cn curve (1/rad)",
        "Cn at stall value for positive angle of attack for linear Cn curve",
        "Cn at stall value for negative angle of attack for linear Cn curve",
        "Angle of attack for minimum CD (deg)",
        "Minimum CD value",
    )

    def writeToAerodynFile(self, filename):
        af = self.interpToCommonAlpha()
        lines = ["AeroDyn airfoil file.", "Compatible with AeroDyn v13.0.", "Generated by airfoilprep.py"]
        lines.append("%-10d\\t\\t%-40s" % (len(af.polars), "Number of airfoil tables in this file"))
        record = "{0:<10f}\\t{1:40}".format
        for p in af.polars:
            lines.append(record(p.Re / 1e6, "Reynolds number in millions."))
            lines += [record(v, label) for v, label in zip(p.unsteadyparam(), self._LABELS)]
            for row in np.column_stack((p.alpha, p.cl, p.cd, p.cm)):
                lines.append("\\t".join("%-10f" % v for v in row))
            lines.append("EOT")
        with open(filename, "w") as f:
            f.write("\\n".join(lines) + "\\n")
'''))
ref("a12",A,PA,("Airfoil","writeToAerodynFile",'''
    def writeToAerodynFile(self, filename):
        af = self.interpToCommonAlpha()
        labels = ["Control setting", "Stall angle (deg)", "Angle of attack for zero Cn for linear Cn curve (deg)", "Cn slope for zero lift for linear Cn curve (1/rad)",
            "Cn at stall value for positive angle of attack for linear Cn curve", "Cn at stall value for negative angle of attack for linear Cn curve",
            "Angle of attack for minimum CD (deg)", "Minimum CD value"]
        with open(filename, "w") as f:
            f.writelines(["AeroDyn airfoil file.\\n", "Compatible with AeroDyn v13.0.\\n", "Generated by airfoilprep.py\\n"])
            print(f"{len(af.polars):<10d}\\t\\t{'Number of airfoil tables in this file':40}", file=f)
            for p in af.polars:
                f.write(f"{p.Re / 1e6:<10f}\\t{'Reynolds number in millions.':40}\\n")
                for value, text in zip(p.unsteadyparam(), labels):
                    f.write(f"{value:<10f}\\t{text:40}\\n")
                for i in range(p.alpha.size):
                    f.write(f"{p.alpha[i]:<10f}\\t{p.cl[i]:<10f}\\t{p.cd[i]:<10f}\\t{p.cm[i]:<10f}\\n")
                f.write("EOT\\n")
'''),("Airfoil","createDataGrid",'''
    def createDataGrid(self):
        polars = self.interpToCommonAlpha().polars
        alpha = polars[0].alpha
        Re = [p.Re for p in polars]
        shape = (alpha.size, len(Re))
        grids = [np.empty(shape) for _ in range(3)]
        for j, p in enumerate(polars):
            for g, values in zip(grids, (p.cl, p.cd, p.cm)):
                g[:, j] = values
        return (alpha, Re, *grids)
'''))
