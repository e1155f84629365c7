from lib import *
C="ccblade/ccblade.py"
PB="C04 C05 C11 C12 C14 C15 C16 C23 C25 C26 C27 C29".split()
PAF="C17 C14 C15 C27".split()
ref("b1",C,PAF,("CCAirfoil","__init__",'''
    def __init__(self, alpha, Re, cl, cd, cm=[], x=[], y=[], AFName="DEFAULTAF"):
        self.x, self.y, self.AFName = x, y, AFName
        self.alpha = alpha = np.deg2rad(alpha)
        self.use_cm = len(cm) > 0
        self.one_Re = len(Re) < 2
        tables = [(cl, 0.1), (cd, 0.001)]
        if self.use_cm:
            tables.append((cm, 0.0001))
        if self.one_Re:
            Re = [1e1, 1e15]
            tables = [(np.column_stack((t, t)), s) for t, s in tables]
        if len(alpha) < 2:
            raise ValueError(f"Need at least 2 angles of attack, but found {alpha}")
        deg = dict(kx=min(len(alpha) - 1, 3), ky=min(len(Re) - 1, 3))
        splines = [RectBivariateSpline(alpha, Re, t, s=s, **deg) for t, s in tables]
        self.cl_spline, self.cd_spline = splines[:2]
        if self.use_cm:
            self.cm_spline = splines[2]
'''),("CCAirfoil","evaluate",'''
    def evaluate(self, alpha, Re, return_cm=False):
        splines = [self.cl_spline, self.cd_spline]
        if return_cm and self.use_cm:
            splines.append(self.cm_spline)
        return tuple(s.ev(alpha, Re) for s in splines)
'''),("CCAirfoil","initFromAerodynFile",'''
    @classmethod
    def initFromAerodynFile(cls, aerodynFile):
        *grid, cm = Airfoil.initFromAerodynFile(aerodynFile).createDataGrid()
        return cls(*grid, cm=cm)
'''),("CCAirfoil","max_eff",'''
    def _scan(self, Re):
        i0, i1 = (np.argmin(np.abs(self.alpha - np.deg2rad(a))) for a in (-20.0, 40))
        if i1 <= i0:
            return None
        alpha = np.deg2rad(np.linspace(-20.0, 40, num=201))
        return alpha, [self.cl_spline.ev(x, Re) for x in alpha], [self.cd_spline.ev(x, Re) for x in alpha]

    def max_eff(self, Re):
        found = self._scan(Re)
        if found is None:
            cl, cd = self.evaluate(0.0, Re)
            return cl / cd, 0.0, cl, cd
        alpha, cl, cd = found
        eff = np.array(cl) / np.array(cd)
        k = np.argmax(eff)
        return eff[k], alpha[k], cl[k], cd[k]
'''),("CCAirfoil","awayfromstall",'''
    def awayfromstall(self, Re, margin):
        found = self._scan(Re)
        alpha_op = 0.0 if found is None else found[0][int(np.argmax(found[1]))] - np.deg2rad(margin)
        cl_op, cd_op = self.evaluate(alpha_op, Re)
        return cl_op / cd_op, alpha_op, cl_op, cd_op
'''))
ref("b2",C,PAF+["C04"],("CCAirfoil","derivatives",'''
    def _slope(self, spline, alpha, Re, wrt):
        tck = spline.tck[:3] + spline.degrees
        knots, degree = tck[wrt], tck[3 + wrt]
        x = Re if wrt else alpha
        if x < knots[0] or x > knots[-1]:
            return 0.0
        if degree == 1:
            pts = [(k, Re) if wrt == 0 else (alpha, k) for k in (knots[0], knots[-1])]
            low, high = (bisplev(x, y, tck) for x, y in pts)
            return (high - low) / (knots[-1] - knots[0])
        return bisplev(alpha, Re, tck, dx=1 - wrt, dy=wrt)

    def derivatives(self, alpha, Re):
        dcl_dalpha = self._slope(self.cl_spline, alpha, Re, 0)
        dcd_dalpha = self._slope(self.cd_spline, alpha, Re, 0)
        dcl_dRe = dcd_dRe = 0.0
        if not self.one_Re:
            try:
                slopes = [self._slope(s, alpha, Re, 1) for s in (self.cl_spline, self.cd_spline)]
            except Exception:
                slopes = [0.0, 0.0]
            dcl_dRe, dcd_dRe = slopes
        return dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe
'''))
ref("b3",C,PAF+["C04"],("CCAirfoil","derivatives",'''
    def derivatives(self, alpha, Re):
        def grads(spline):
            kx, ky = spline.degrees
            tx, ty = spline.tck[:2]
            if kx > 1:
                da = spline.ev(alpha, Re, dx=1)
            else:
                da = (spline.ev(tx[-1], Re) - spline.ev(tx[0], Re)) / (tx[-1] - tx[0])
            if self.one_Re:
                dr = 0.0
            elif ky > 1:
                dr = spline.ev(alpha, Re, dy=1)
            else:
                dr = (spline.ev(alpha, ty[-1]) - spline.ev(alpha, ty[0])) / (ty[-1] - ty[0])
            outside = lambda x, t: not t[0] <= x <= t[-1]
            return (0.0 if outside(alpha, tx) else da), (0.0 if outside(Re, ty) else dr)

        return grads(self.cl_spline) + grads(self.cd_spline)
'''))
ref("b4",C,["C28"],("CCAirfoil","af_flap_coords",'''
    @staticmethod
    def _discard(*names):
        for name in names:
            if os.path.isfile(name):
                os.unlink(name)

    def af_flap_coords(
        self, xfoil_path, delta_flap=12.0, xc_hinge=0.8, yt_hinge=0.5, numNodes=250, multi_run=False, MPI_run=False
    ):
        AFName = self.AFName
        df = f"{delta_flap}"
        tag = "_p%d" % mp.current_process().pid if (multi_run or MPI_run) else ""
        coords = "profilecoords" + tag + ".dat"
        saved = "%s_%s_Airfoil%s.txt" % (AFName, df, tag)
        script = "xfoil_input%s.txt" % tag
        null = "NUL" + tag.replace("p", "")
        scratch = (saved, coords, script, null)
        self._discard(*scratch)
        np.savetxt(coords, np.column_stack((self.x, self.y)), fmt=["%f", "%f"])
        commands = ["PLOP ", " G ", "", "LOAD ", coords, AFName, "GDES ", "FLAP ", str(xc_hinge), "999", str(yt_hinge), df,
                    "NAME ", AFName + "_" + df, "EXEC ", " ", "PPAR", "N ", str(numNodes), "T ", "0.5", "", "", "PSAV ", saved + " ", " ", "QUIT "]
        with open(script, "w") as fid:
            for c in commands:
                fid.write(c + "\\n")
        os.system("{} < {} > {}".format(xfoil_path, script, null))
        xy = np.loadtxt(saved)
        self.af_flap_xcoords, self.af_flap_ycoords = xy.T
        self.ctrl = delta_flap
        self._discard(*scratch)
'''))
ref("b5",C,PB,("        r = np.array(r, dtype=float)\n        self.r = r.copy()\n        self.chord = np.array(chord)\n        self.theta = np.deg2rad(theta)\n","        self.r = np.array(r, dtype=float)\n        r = np.array(r, dtype=float)\n        self.chord, self.theta = np.array(chord), np.deg2rad(np.asarray(theta))\n"),
 ("        if precurve is None:\n            precurve = np.zeros(len(r))\n            precurveTip = 0.0\n\n        if presweep is None:\n            presweep = np.zeros(len(r))\n            presweepTip = 0.0\n",
  "        def straight(line, tip):\n            if line is None:\n                return np.zeros_like(r), 0.0\n            return line, tip\n\n        precurve, precurveTip = straight(precurve, precurveTip)\n        presweep, presweepTip = straight(presweep, presweepTip)\n"),
 ("        self.precurve = np.array(precurve, dtype=float)\n","        self.precurve = np.asarray(precurve, dtype=float).copy()\n"),
 ("        if self.tilt == 0.0 and self.yaw == 0.0 and self.shearExp == 0.0:\n            self.nSector = 1  # no more are necessary\n        else:\n            self.nSector = max(4, nSector)  # at least 4 are necessary\n",
  "        uniform = not (self.tilt or self.yaw or self.shearExp)\n        self.nSector = 1 if uniform else max(4, nSector)\n"))
ref("b6",C,PB,("CCBlade","__runBEM" ,'''
    def __section(self, phi, r, chord, Vx, Vy, cl, cd):
        return _bem.inductionfactors(r, chord, self.Rhub, self.Rtip, phi, cl, cd, self.B, Vx, Vy, **self.bemoptions)

    def __runBEM(self, phi, r, chord, theta, af, Vx, Vy):
        a = ap = 0.0
        k = 0
        while k < self.iterRe:
            alpha, _, Re = _bem.relativewind(phi, a, ap, Vx, Vy, self.pitch, chord, theta, self.rho, self.mu)
            cl, cd = af.evaluate(alpha, Re)
            fzero, a, ap = self.__section(phi, r, chord, Vx, Vy, cl, cd)
            k += 1
        return fzero, a, ap, cl, cd
'''),("CCBlade","__errorFunction",'''
    def __errorFunction(self, phi, *section):
        return self.__runBEM(phi, *section)[0]
'''),("CCBlade","__runBEM_inverse",'''
    def __runBEM_inverse(self, phi, r, chord, cl, cd, af, Vx, Vy):
        out = None
        for _ in range(self.iterRe):
            out = self.__section(phi, r, chord, Vx, Vy, cl, cd)
        return out
'''),("CCBlade","__errorFunction_inverse",'''
    def __errorFunction_inverse(self, phi, *section):
        return self.__runBEM_inverse(phi, *section)[0]
'''))
ref("b7",C,PB,("CCBlade","__residualDerivatives",'''
    def __residualDerivatives(self, phi, r, chord, theta, af, Vx, Vy):
        if self.iterRe > 1 or self.iterRe < 1:
            raise ValueError("Analytic derivatives not supplied for case with iterRe > 1")
        PHI, CHORD, THETA, VX, VY, RAD, HUB, TIP, PITCH = seeds = np.eye(9)
        alpha, W, Re = _bem.relativewind(phi, 0.0, 0.0, Vx, Vy, self.pitch, chord, theta, self.rho, self.mu)
        dalpha = PHI - THETA - PITCH
        dRe = self.rho / self.mu * (W * CHORD + chord * (Vx * VX + Vy * VY) / W)
        cl, cd = af.evaluate(alpha, Re)
        cla, clr, cda, cdr = af.derivatives(alpha, Re)
        dcl = cla * dalpha + clr * dRe
        dcd = cda * dalpha + cdr * dRe
        _, dR, _, da, _, dap = _bem.inductionfactors_dv(
            r, RAD, chord, CHORD, self.Rhub, HUB, self.Rtip, TIP, phi, PHI, cl, dcl, cd, dcd, self.B, Vx, VX, Vy, VY, **self.bemoptions
        )
        return dR, da, dap, dcl, dcd
'''))
ref("b8",C,PB,
 ("            a = np.zeros(n)\n" if 0 else "            cn = cl * cphi + cd * sphi  # these expressions should always contain drag\n            ct = cl * sphi - cd * cphi\n\n            q = 0.5 * self.rho * W ** 2\n            Np = cn * q * chord\n            Tp = ct * q * chord\n",
  "            q = 0.5 * self.rho * W * W\n            rot = np.array([[cphi, sphi], [sphi, -cphi]])\n            cn, ct = rot.dot(np.array([cl, cd]))\n            Np, Tp = (c * q * chord for c in (cn, ct))\n"),
 ("                dcn_dx = dcl_dx * cphi - cl * sphi * dphi_dx + dcd_dx * sphi + cd * cphi * dphi_dx\n                dct_dx = dcl_dx * sphi + cl * cphi * dphi_dx - dcd_dx * cphi + cd * sphi * dphi_dx\n",
  "                dcn_dx = dcl_dx * cphi + dcd_dx * sphi - ct * dphi_dx\n                dct_dx = dcl_dx * sphi - dcd_dx * cphi + cn * dphi_dx\n"),
 ("        if Vx != 0.0 and (Vy != 0.0 or not rotating):\n\n            cphi","        calm = Vx == 0.0 or (rotating and Vy == 0.0)\n        if not calm:\n\n            cphi"))
ref("b9",C,PB,
 ("            if self.inverse_analysis == True:\n                args = (self.r[i], self.chord[i], self.cl[i], self.cd[i], self.af[i], Vx[i], Vy[i])\n            else:\n                args = (self.r[i], self.chord[i], self.theta[i], self.af[i], Vx[i], Vy[i])\n\n            if not rotating:  # non-rotating\n\n                phi_star = np.pi / 2.0\n                phi_lower = phi_upper = phi_star\n\n            else:\n",
  "            head = (self.r[i], self.chord[i])\n            tail = (self.af[i], Vx[i], Vy[i])\n            middle = (self.cl[i], self.cd[i]) if self.inverse_analysis else (self.theta[i],)\n            args = head + middle + tail\n\n            if not rotating:  # non-rotating\n\n                phi_star = np.pi / 2.0\n                phi_lower = phi_upper = phi_star\n\n            else:\n") )
ref("b10",C,PB,
 ('''                # set standard limits
                epsilon = 1e-6
                phi_lower = epsilon
                phi_upper = np.pi / 2

                if errf(phi_lower, *args) * errf(phi_upper, *args) > 0:  # an uncommon but possible case

                    if errf(-np.pi / 4, *args) < 0 and errf(-epsilon, *args) > 0:
                        phi_lower = -np.pi / 4
                        phi_upper = -epsilon
                    else:
                        phi_lower = np.pi / 2
                        phi_upper = np.pi - epsilon

                try:
                    phi_star = brentq(errf, phi_lower, phi_upper, args=args)
''','''                phi_lower, phi_upper = self._interval(lambda x: errf(x, *args))

                try:
                    phi_star = brentq(errf, phi_lower, phi_upper, args)
'''),("    # residual\n    def __runBEM(self","""    @staticmethod
    def _interval(f):
        eps = 1e-6
        half = np.pi / 2
        if not f(eps) * f(half) > 0:
            return eps, half
        if f(-np.pi / 4) < 0 < f(-eps):
            return -np.pi / 4, -eps
        return half, np.pi - eps

    # residual
    def __runBEM(self"""))
ref("b11",C,PB,
 ('''            (
                a[i],
                ap[i],
                Np[i],
                Tp[i],
                alpha[i],
                cl[i],
                cd[i],
                cn[i],
                ct[i],
                q[i],
                W[i],
                Re[i],
                dNp_dx,
                dTp_dx,
                dR_dx,
            ) = self.__loads(phi_star, rotating, *args)
''','''            result = self.__loads(phi_star, rotating, *args)
            for store, value in zip((a, ap, Np, Tp, alpha, cl, cd, cn, ct, q, W, Re), result):
                store[i] = value
            dNp_dx, dTp_dx, dR_dx = result[-3:]
'''),
 ('''                a[i] = 0.0
                ap[i] = 0.0
                Np[i] = 0.0
                Tp[i] = 0.0
                alpha[i] = 0.0
''','''                for store in (a, ap, Np, Tp, alpha):
                    store[i] = 0.0
'''),
 ('''                dNp_dy = dNp_dx[0]
                dNp_dx = dNp_dx[1:]
                dTp_dy = dTp_dx[0]
                dTp_dx = dTp_dx[1:]
                dR_dy = dR_dx[0]
                dR_dx = dR_dx[1:]

                # direct (or adjoint) total derivatives
                DNp_Dx = dNp_dx - dNp_dy / dR_dy * dR_dx
                DTp_Dx = dTp_dx - dTp_dy / dR_dy * dR_dx
''','''                dphi = -dR_dx[1:] / dR_dx[0]
                DNp_Dx, DTp_Dx = (g[1:] + g[0] * dphi for g in (dNp_dx, dTp_dx))
'''))
