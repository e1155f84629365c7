from lib import ref
C="ccblade/ccblade.py"; A="ccblade/airfoilprep.py"
ref("e1",C,["C35","C17","C14","C15"],("CCAirfoil","max_eff",'''
    def max_eff(self, Re):
        """angle of attack of maximum efficiency, with lift and drag there"""
        lo, hi = np.abs(self.alpha - np.radians(-20.0)).argmin(), np.abs(self.alpha - np.radians(40.0)).argmin()
        if hi <= lo:  # cylinder
            grid = np.zeros(1)
        else:
            grid = np.deg2rad(np.linspace(-20.0, 40.0, 201))
        re = Re * np.ones_like(grid)
        cl = self.cl_spline.ev(grid, re)
        cd = self.cd_spline.ev(grid, re)
        eff = cl / cd
        k = int(eff.argmax())
        return eff[k], grid[k], cl[k], cd[k]
'''))
ref("e2",C,["C35","C17"],("CCAirfoil","max_eff",'''
    def max_eff(self, Re):
        start, end = -20.0, 40.0
        inner = self.alpha[np.argmin(abs(self.alpha - np.deg2rad(start))):np.argmin(abs(self.alpha - np.deg2rad(end)))]
        if inner.size == 0:
            cl, cd = self.evaluate(0.0, Re)
            return cl / cd, 0.0, cl, cd
        best = None
        for a in np.linspace(start, end, num=201):
            a = np.deg2rad(a)
            cl, cd = self.evaluate(a, Re)
            if best is None or cl / cd > best[0]:
                best = (cl / cd, a, cl, cd)
        return best
'''),("CCAirfoil","awayfromstall",'''
    def awayfromstall(self, Re, margin):
        start, end = -20.0, 40.0
        i, j = [np.argmin(abs(self.alpha - np.deg2rad(x))) for x in (start, end)]
        if j - i < 1:
            op = 0.0
        else:
            degrees = np.linspace(start, end, num=201)
            stall = max(range(201), key=lambda k: self.cl_spline.ev(np.deg2rad(degrees[k]), Re))
            op = np.deg2rad(degrees[stall]) - np.deg2rad(margin)
        cl, cd = self.evaluate(op, Re)
        return cl / cd, op, cl, cd
'''))
ref("e3",C,["C35"],("""            alpha = np.deg2rad(np.linspace(aoa_start, aoa_end, num=201))
            cl = [self.cl_spline.ev(aoa, Re) for aoa in alpha]
            cd = [self.cd_spline.ev(aoa, Re) for aoa in alpha]
            Eff = [cli / cdi for cli, cdi, in zip(cl, cd)]

            i_max = np.argmax(Eff)
            alpha_Emax = alpha[i_max]
            cl_Emax = cl[i_max]
            cd_Emax = cd[i_max]
            Emax = Eff[i_max]
""","""            rows = []
            for k in range(201):
                aoa = np.deg2rad(aoa_start + k * (aoa_end - aoa_start) / 200)
                cli, cdi = self.cl_spline.ev(aoa, Re), self.cd_spline.ev(aoa, Re)
                rows.append((cli / cdi, aoa, cli, cdi))
            Emax, alpha_Emax, cl_Emax, cd_Emax = sorted(rows, key=lambda row: -row[0])[0]
"""))
ref("e4",C,["C34","C04","C05","C09","C12","C15"],("""        r_nd = (np.array(r) - r[0]) / (r[-1] - r[0])
        nd_hub = np.minimum(0.01, r_nd[:2].mean())
        nd_tip = np.maximum(0.99, r_nd[-2:].mean())
        if Rhub == r[0]:
            self.r[0] = np.interp(nd_hub, r_nd, r)
        if Rtip == r[-1]:
            self.r[-1] = np.interp(nd_tip, r_nd, r)
        if precurveTip == precurve[-1]:
            self.precurve[-1] = np.interp(nd_tip, r_nd, precurve)
        if presweepTip == presweep[-1]:
            self.presweep[-1] = np.interp(nd_tip, r_nd, presweep)
""","""        span = r[-1] - r[0]
        if r[0] == Rhub:
            self.r[0] = r[0] + min(0.01 * span, 0.5 * (r[1] - r[0]))
        back = min(0.01 * span, (r[-1] - r[-2]) / 2) / (r[-1] - r[-2])
        for mine, given, tip in ((self.r, r, Rtip), (self.precurve, precurve, precurveTip), (self.presweep, presweep, presweepTip)):
            if given[-1] == tip:
                mine[-1] = back * given[-2] + (1 - back) * given[-1]
"""))
ref("e5",C,["C34","C04","C15"],("""        if precurve is None:
            precurve = np.zeros(len(r))
            precurveTip = 0.0

        if presweep is None:
            presweep = np.zeros(len(r))
            presweepTip = 0.0
""","""        straight = [0.0 for _ in r]
        precurve, precurveTip = (straight, 0.0) if precurve is None else (precurve, precurveTip)
        presweep, presweepTip = (straight, 0.0) if presweep is None else (presweep, presweepTip)
"""),("""        nd_hub = np.minimum(0.01, r_nd[:2].mean())
        nd_tip = np.maximum(0.99, r_nd[-2:].mean())
""","""        nd_hub = min((0.01, 0.5 * r_nd[1]))
        nd_tip = max(0.99, (r_nd[-2] + r_nd[-1]) / 2)
"""))
ref("e6",A,["C19","C14","C15"],("Polar","_Polar__CMCoeff" if False else "__CMCoeff",'''
    def __CMCoeff(self, cl_high, cd_high, cm_high):
        up = [k for k in range(len(self.cm) - 1) if abs(self.alpha[k]) < 20.0 and self.cl[k] <= 0 <= self.cl[k + 1]]
        k = up[0] if up else 0
        slope = (self.cm[k + 1] - self.cm[k]) / (self.cl[k + 1] - self.cl[k])
        self.cm0 = self.cm[k] - self.cl[k] * slope
        high = np.deg2rad(self.alpha[-1])
        lever = (self.cm0 - cm_high) / (cl_high * np.cos(high) + cd_high * np.sin(high))
        return (lever - 0.25) / -(np.cos(high) / np.sin(high))
'''),("Polar","__getCM",'''
    def __getCM(self, i, cmCoef, alpha, cl_ext, cd_ext, alpha_low_deg, alpha_high_deg):
        a = alpha[i]
        if alpha_low_deg <= a <= alpha_high_deg:
            return None
        table = {165: -0.4, 170: -0.5, 175: -0.25, 180: 0, -165: 0.35, -170: 0.4, -175: 0.2, -180: 0}
        if abs(a) >= 165:
            if a not in table:
                print("Angle encountered for which there is no CM table value (near +/-180 deg).")
            return table.get(a, 0)
        if abs(a) < 0.01:
            return self.cm0
        side = np.sign(a)
        t = np.abs(np.radians(a))
        x = cmCoef * np.tan(t - np.pi / 2) + 0.25
        return side * (self.cm0 - x * (side * cl_ext[i] * np.cos(t) + cd_ext[i] * np.sin(t)))
'''))
ref("e7",A,["C36","C14","C15"],("Polar","unsteadyparam",'''
    def unsteadyparam(self, alpha_linear_min=-5, alpha_linear_max=5):
        if min(len(self.alpha), len(set(self.cl))) < 10:
            return (0.0,) * 8
        radians = [np.deg2rad(x) for x in self.alpha]
        cn = np.array([l * np.cos(x) + d * np.sin(x) for x, l, d in zip(radians, self.cl, self.cd)])
        alpha = np.array(radians)
        inside = (alpha >= np.deg2rad(alpha_linear_min)) & (alpha <= np.deg2rad(alpha_linear_max))
        x, y = alpha[inside], cn[inside]
        m = ((x - x.mean()) * (y - y.mean())).sum() / ((x - x.mean()) ** 2).sum()
        alpha0 = x.mean() - y.mean() / m

        def stall(degrees, side):
            angles = np.deg2rad(degrees)
            gap = side * (m * (angles - alpha0) - np.interp(angles, alpha, cn))
            at = np.interp(0.05, gap, angles)
            return at, m * (at - alpha0)

        (up, cn_up), (down, cn_down) = stall(np.arange(40.0), 1), stall(np.linspace(5.0, -39.0, 45), -1)
        k = min(range(len(self.cd)), key=lambda i: self.cd[i])
        return (0.0, np.rad2deg(up), np.rad2deg(alpha0), m, cn_up, cn_down, self.alpha[k], self.cd[k])
'''))
ref("e8",A,["C15","C21","C14","C22"],("        self.polars = sorted(polars, key=lambda p: p.Re)\n","        own = list(polars)\n        own.sort(key=lambda polar: polar.Re)\n        self.polars = own\n"))
