from lib import ref
C="ccblade/ccblade.py"; S="ccblade/csystem.py"; M="ccblade/ccblade_component.py"
PB=["C04","C05","C07","C08","C10","C11","C12","C14","C15","C16","C25","C26"]
PO=["C06","C14","C23","C24","C27"]
PS=["C13","C09","C15"]
ref("c1",C,PB+PO,("CCBlade","__thrustTorqueDictionary",'''
    def __thrustTorqueDictionary(self, *packed):
        *arrays, npts = packed
        half = len(arrays) // 2
        column = ("dprecone", "dtilt", "dhubHt", "dRhub", "dRtip", "dprecurveTip", "dpresweepTip", "dyaw", "dshear")
        diagonal = ("dUinf", "dOmega", "dpitch")
        vectors = ("dr", "dchord", "dtheta", "dprecurve", "dpresweep")

        def pack(ds, dv):
            d = {name: ds[:, j].reshape(npts, 1) for j, name in enumerate(column)}
            d.update((name, np.diag(ds[:, len(column) + j])) for j, name in enumerate(diagonal))
            d.update(zip(vectors, (dv[:, j, :] for j in range(5))))
            return d

        return tuple(pack(ds, dv) for ds, dv in zip(arrays[:half], arrays[half:]))
'''))
ref("c2",C,PB+PO,("CCBlade","__thrustTorqueDeriv",'''
    def __thrustTorqueDeriv(
        self,
        Np,
        Tp,
        dNp_dX,
        dTp_dX,
        dNp_dprecurve,
        dTp_dprecurve,
        dNp_dr,
        dTp_dr,
        r,
        precurve,
        presweep,
        precone,
        Rhub,
        Rtip,
        precurveTip,
        presweepTip,
    ):
        """derivatives of thrust and torque"""
        seeds = np.eye(5)
        bars = _bem.thrusttorque_bv(
            Np, Tp, r, precurve, presweep, precone, Rhub, Rtip, precurveTip, presweepTip, *seeds
        )
        Npb, Tpb, rb, precurveb, presweepb, preconeb, Rhubb, Rtipb, precurvetipb, presweeptipb = bars
        scalar = {0: np.deg2rad(preconeb), 3: Rhubb, 4: Rtipb}
        row = {0: 6, 1: 7, 2: 8, 3: 3, 4: 4, 7: 9, 8: 10, 9: 12, 10: 13, 11: 14}
        ds, dv = [], []
        for k in range(5):
            total = Npb[k] * dNp_dX + Tpb[k] * dTp_dX
            s = np.zeros(12)
            for j, i in row.items():
                s[j] = total[i].sum()
                if j in scalar:
                    s[j] += scalar[j][k]
            s[5], s[6] = precurvetipb[k], presweeptipb[k]
            ds.append(s)
            v = np.empty((5, len(r)))
            v[0] = dNp_dr @ Npb[k] + dTp_dr @ Tpb[k] + rb[k]
            v[1:3] = total[1:3]
            v[3] = dNp_dprecurve.dot(Npb[k]) + dTp_dprecurve.dot(Tpb[k]) + precurveb[k]
            v[4] = total[5] + presweepb[k]
            dv.append(v)
        return tuple(ds) + tuple(dv)
'''))
ref("c3",C,PB+PO,("CCBlade","evaluate",'''
    _INTEGRATED = ("T", "Y", "Z", "Q", "My", "Mz", "Mb")

    def _azimuths(self):
        return [2 * np.pi * k / self.nSector for k in range(self.nSector)]

    @staticmethod
    def _resolve(parts, B, azimuth, nsec):
        T, Y, Z, Q, M = parts
        ca, sa = np.cos(azimuth), np.sin(azimuth)
        w = B / nsec
        return dict(T=w * T, Y=w * (Y * ca - Z * sa), Z=w * (Z * ca + Y * sa), Q=w * Q,
                    My=w * M * ca, Mz=w * M * sa, Mb=M / nsec)

    def evaluate(self, Uinf, Omega, pitch, coefficients=False):
        geometry = (self.r, self.precurve, self.presweep, self.precone, self.Rhub, self.Rtip,
                    self.precurveTip, self.presweepTip)
        nsec = self.nSector
        Uinf, Omega, pitch = (np.array(v).flatten() for v in (Uinf, Omega, pitch))
        npts, nr = len(Uinf), len(self.r)
        names = self._INTEGRATED
        total = {k: np.zeros(npts) for k in names}
        if self.derivatives:
            ds = {k: np.zeros((npts, 12)) for k in names}
            dv = {k: np.zeros((npts, 5, nr)) for k in names}
        W = None
        for i, (U, Om, pit) in enumerate(zip(Uinf, Omega, pitch)):
            for azimuth in self._azimuths():
                loads, _ = self.distributedAeroLoads(U, Om, pit, np.degrees(azimuth))
                W = loads["W"]
                integrals = _bem.thrusttorque(loads["Np"], loads["Tp"], *geometry)
                for k, v in self._resolve(integrals, self.B, azimuth, nsec).items():
                    total[k][i] += v
                if not self.derivatives:
                    continue
                g = self.__thrustTorqueDeriv(
                    loads["Np"], loads["Tp"], self._dNp_dX, self._dTp_dX, self._dNp_dprecurve,
                    self._dTp_dprecurve, self._dNp_dr, self._dTp_dr, *geometry)
                for k, v in self._resolve(g[:5], self.B, azimuth, nsec).items():
                    ds[k][i] += v
                for k, v in self._resolve(g[5:], self.B, azimuth, nsec).items():
                    dv[k][i] += v

        w = Omega * np.pi / 30.0
        total["P"] = total["Q"] * w
        order = ("T", "Y", "Z", "Q", "My", "Mz", "Mb", "P")
        outputs, derivs = {k: total[k] for k in ("P",) + names}, {}
        outputs["W"] = W

        if self.derivatives:
            ds["P"] = ds["Q"] * w[:, None]
            ds["P"][:, 10] += total["Q"] * np.pi / 30.0
            dv["P"] = dv["Q"] * w[:, np.newaxis, np.newaxis]
            packed = self.__thrustTorqueDictionary(*(ds[k] for k in order), *(dv[k] for k in order), npts)
            derivs.update(("d" + k, v) for k, v in zip(order, packed))

        if coefficients:
            R = self.rotorR
            dyn = 0.5 * self.rho * Uinf ** 2
            A = np.pi * R ** 2
            ref_ = {k: dyn * A for k in ("T", "Y", "Z")}
            ref_.update({k: dyn * A * R for k in ("Q", "My", "Mz", "Mb")})
            ref_["P"] = dyn * A * Uinf
            C = {k: total[k] / ref_[k] for k in order}
            outputs.update({"C" + k: C[k] for k in C})
            if self.derivatives:
                dR = np.zeros((npts, 12))
                dR[:, 0] = np.radians(self.precurveTip * np.cos(self.precone) - self.Rtip * np.sin(self.precone))
                dR[:, 4] = np.cos(self.precone)
                dR[:, 5] = np.sin(self.precone)
                dlog = 2.0 * dR / R
                dlog[:, 9] += 2.0 / Uinf
                cs, cv = {}, {}
                for k in order:
                    extra = dlog.copy()
                    if k == "P":
                        extra[:, 9] += 1.0 / Uinf
                    elif k not in ("T", "Y", "Z"):
                        extra += dR / R
                    cs[k] = ds[k] / ref_[k][:, None] - C[k][:, None] * extra
                    cv[k] = dv[k] / ref_[k].reshape(-1, 1, 1)
                packed = self.__thrustTorqueDictionary(*(cs[k] for k in order), *(cv[k] for k in order), npts)
                for k, v in zip(order, packed):
                    derivs["dC" + k] = v
        return outputs, derivs
'''))
ref("c4",S,PS,("DirectionVector","_rotateAboutZ",'''
    def _rotateAboutZ(self, xstring, ystring, zstring, theta, thetaname, reverse=False):
        sign = -1.0 if reverse else 1.0
        vals = [getattr(self, s) for s in (xstring, ystring, zstring)]
        dx, dy, dz = (getattr(self, "d" + s) for s in (xstring, ystring, zstring))
        ang = np.deg2rad(sign * theta)
        c, s = np.cos(ang), np.sin(ang)
        one = np.ones_like(ang)

        def turn(u, v):
            return u * c + v * s, v * c - u * s

        xnew, ynew = turn(vals[0], vals[1])
        out = ({}, {}, {})
        base = ("dx", "dy", "dz")
        for key in base:
            out[0][key], out[1][key] = turn(dx[key], dy[key])
            out[2][key] = dz[key] * one
        name = "d" + thetaname
        out[0][name] = ynew * np.deg2rad(sign)
        out[1][name] = -xnew * np.deg2rad(sign)
        out[2][name] = 0.0 * one
        for key in filter(lambda k: k not in base, dx):
            a, b = turn(dx[key], dy[key])
            out[0][key] = out[0].get(key, 0.0) + a
            out[1][key] = out[1].get(key, 0.0) + b
            out[2][key] = dz[key]
        return (xnew, ynew, vals[2]) + out
'''),("DirectionVector","__init__",'''
    def __init__(self, x, y, z, dx=None, dy=None, dz=None):
        self.x, self.y, self.z = np.array(x), np.array(y), np.array(z)
        if dx is None:
            comps = {"dx": self.x, "dy": self.y, "dz": self.z}
            dx, dy, dz = [
                {k: (np.ones_like if k == own else np.zeros_like)(comps[k]) for k in comps} for own in comps
            ]
        self.dx, self.dy, self.dz = dx, dy, dz
'''),("DirectionVector","cross",'''
    def cross(self, other):
        v = np.atleast_2d(np.cross(self.toArray(), other.toArray()))
        return DirectionVector(*v.T)
'''),("DirectionVector","airfoilToProfile",'''
    def airfoilToProfile(self):
        return DirectionVector(x=self.y, y=self.x, z=self.z, dx=self.dy, dy=self.dx, dz=self.dz)

    profileToAirfoil_ = airfoilToProfile
'''))
ref("c5",S,PS,("DirectionVector","cross_deriv",'''
    def cross_deriv(self, other, namea="a", nameb="b"):
        def skew(v):
            return [np.r_[0.0, v.z, -v.y], np.r_[-v.z, 0.0, v.x], np.r_[v.y, -v.x, 0.0]]

        da, db = skew(other), skew(self)
        return tuple({namea: p, nameb: -m} for p, m in zip(da, db))
'''),("DirectionVector","__mul__",'''
    def __mul__(self, other):
        return DirectionVector(*(other * getattr(self, k) for k in "xyz"))
'''),("DirectionVector","__add__",'''
    def __add__(self, other):
        if not isinstance(other, DirectionVector):
            return DirectionVector(self.x + other, self.y + other, self.z + other)
        return DirectionVector(*[getattr(self, k) + getattr(other, k) for k in ("x", "y", "z")])
'''))
ref("c6",C,PB+["C02","C09"],("CCBlade","__windComponents",'''
    def __windComponents(self, Uinf, Omega, azimuth):
        n = len(self.r)
        if np.size(Uinf) > 1:
            if np.size(Uinf) != n:
                raise ValueError("Uinf must be a scalar or have one value for each radial location")
            per_station = [self.__windComponents(U, Omega, azimuth) for U in Uinf]
            columns = []
            for k, group in enumerate(zip(*per_station)):
                if k > 1 and not self.derivatives:
                    columns.append(0.0)
                    continue
                full = np.zeros(np.shape(group[0]))
                for i, g in enumerate(group):
                    full[..., i] = g[..., i]
                columns.append(full)
            return tuple(columns)

        angles = (self.precone, self.yaw, self.tilt, azimuth, Uinf, Omega, self.hubHt, self.shearExp)
        V = _bem.windcomponents(self.r, self.precurve, self.presweep, *angles)
        if not self.derivatives:
            return (V[0], V[1]) + (0.0,) * 6
        offset = {"precone": 0, "yaw": 3, "tilt": 1, "azimuth": 5, "Uinf": 6, "Omega": 7, "hubHt": 2, "shearExp": 4}
        I = np.identity(3 * n + 8)
        blocks = np.split(I, [n, 2 * n, 3 * n], axis=1)
        call = [self.r, blocks[0], self.precurve, blocks[1], self.presweep, blocks[2]]
        for value, name in zip(angles, ("precone", "yaw", "tilt", "azimuth", "Uinf", "Omega", "hubHt", "shearExp")):
            call.extend((value, blocks[3][:, offset[name]]))
        _, Vxd, _, Vyd = _bem.windcomponents_dv(*call)
        parts = []
        for D in (Vxd, Vyd):
            dr, dcurve, dsweep, rest = D[:n], D[n : 2 * n], D[2 * n : 3 * n].diagonal(), D[3 * n :]
            parts.append((np.concatenate((np.diagonal(dr)[None, :], dsweep[None, :], rest)), dcurve, dr))
        (wx, cx, rx), (wy, cy, ry) = parts
        return V[0], V[1], wx, wy, cx, cy, rx, ry
'''))
ref("c7",C,PB+PO,("""            # n x 1
            dNp["dRhub"] = dNp_dX[3, :].reshape(n, 1)
            dTp["dRhub"] = dTp_dX[3, :].reshape(n, 1)
            dNp["dRtip"] = dNp_dX[4, :].reshape(n, 1)
            dTp["dRtip"] = dTp_dX[4, :].reshape(n, 1)
            dNp["dprecone"] = dNp_dX[6, :].reshape(n, 1)
            dTp["dprecone"] = dTp_dX[6, :].reshape(n, 1)
            dNp["dtilt"] = dNp_dX[7, :].reshape(n, 1)
            dTp["dtilt"] = dTp_dX[7, :].reshape(n, 1)
            dNp["dhubHt"] = dNp_dX[8, :].reshape(n, 1)
            dTp["dhubHt"] = dTp_dX[8, :].reshape(n, 1)
            dNp["dyaw"] = dNp_dX[9, :].reshape(n, 1)
            dTp["dyaw"] = dTp_dX[9, :].reshape(n, 1)
            dNp["dshear"] = dNp_dX[10, :].reshape(n, 1)
            dTp["dshear"] = dTp_dX[10, :].reshape(n, 1)
            dNp["dazimuth"] = dNp_dX[11, :].reshape(n, 1)
            dTp["dazimuth"] = dTp_dX[11, :].reshape(n, 1)
            dNp["dUinf"] = dNp_dX[12, :].reshape(n, 1)
            dTp["dUinf"] = dTp_dX[12, :].reshape(n, 1)
            dNp["dOmega"] = dNp_dX[13, :].reshape(n, 1)
            dTp["dOmega"] = dTp_dX[13, :].reshape(n, 1)
            dNp["dpitch"] = dNp_dX[14, :].reshape(n, 1)
            dTp["dpitch"] = dTp_dX[14, :].reshape(n, 1)
""","""            names = "Rhub Rtip - precone tilt hubHt yaw shear azimuth Uinf Omega pitch".split()
            for k, name in enumerate(names, start=3):
                if name == "-":
                    continue
                dNp[f"d{name}"] = dNp_dX[k : k + 1, :].T
                dTp[f"d{name}"] = dTp_dX[k : k + 1, :].T
"""),("""            dNp_dw = dNp_dVx * dVx_dw + dNp_dVy * dVy_dw
            dTp_dw = dTp_dVx * dVx_dw + dTp_dVy * dVy_dw

            dNp_dprecurve = dNp_dVx * dVx_dcurve + dNp_dVy * dVy_dcurve
            dTp_dprecurve = dTp_dVx * dVx_dcurve + dTp_dVy * dVy_dcurve
""","""            slopes = {"N": (dNp_dVx, dNp_dVy), "T": (dTp_dVx, dTp_dVy)}
            chain = lambda which, Dx, Dy: np.multiply(slopes[which][0], Dx) + np.multiply(slopes[which][1], Dy)
            dNp_dw, dTp_dw = (chain(k, dVx_dw, dVy_dw) for k in "NT")
            dNp_dprecurve, dTp_dprecurve = map(lambda k: chain(k, dVx_dcurve, dVy_dcurve), ("N", "T"))
"""),("""            dNp_dX = np.vstack((dNp_dz[:-1, :], dNp_dw[1:, :], dNp_dz[-1, :]))
            dTp_dX = np.vstack((dTp_dz[:-1, :], dTp_dw[1:, :], dTp_dz[-1, :]))
""","""            dNp_dX = np.concatenate([dNp_dz[:5], dNp_dw[1:], dNp_dz[5:]], axis=0)
            dTp_dX = np.concatenate([dTp_dz[:5], dTp_dw[1:], dTp_dz[5:]], axis=0)
"""),("""            dNp_dX[ridx, :] *= np.pi / 180.0
            dTp_dX[ridx, :] *= np.pi / 180.0
""","""            scale = np.ones((15, 1))
            scale[ridx] = np.radians(1.0)
            dNp_dX = dNp_dX * scale
            dTp_dX = dTp_dX * scale
"""))
ref("c8",C,PB+PO,("""        dNp_dVx = np.zeros(n)
        dTp_dVx = np.zeros(n)
        dNp_dVy = np.zeros(n)
        dTp_dVy = np.zeros(n)
        dNp_dz = np.zeros((6, n))
        dTp_dz = np.zeros((6, n))
""","""        dNp_dVx, dTp_dVx, dNp_dVy, dTp_dVy = np.zeros((4, n))
        dNp_dz, dTp_dz = (np.zeros((6, n)) for _ in range(2))
"""),("""        a = np.zeros(n)
        ap = np.zeros(n)
        alpha = np.zeros(n)
        cl = np.zeros(n)
        cd = np.zeros(n)
        Np = np.zeros(n)
        Tp = np.zeros(n)
        cn = np.zeros(n)
        ct = np.zeros(n)
        q = np.zeros(n)
        Re = np.zeros(n)
        W = np.zeros(n)

""","""        a, ap, alpha, cl, cd, Np, Tp, cn, ct, q, Re, W = [np.zeros(n) for _ in range(12)]

"""),("""                if errf(phi_lower, *args) * errf(phi_upper, *args) > 0:  # an uncommon but possible case

                    if errf(-np.pi / 4, *args) < 0 and errf(-epsilon, *args) > 0:
                        phi_lower = -np.pi / 4
                        phi_upper = -epsilon
                    else:
                        phi_lower = np.pi / 2
                        phi_upper = np.pi - epsilon

                try:
                    phi_star = brentq(errf, phi_lower, phi_upper, args=args)

                except ValueError:

                    warnings.warn("error.  check input values.")
                    phi_star = 0.0
""","""                residual = lambda x: errf(x, *args)
                if residual(phi_lower) * residual(phi_upper) > 0:
                    windmill_brake = residual(-0.25 * np.pi) < 0 < residual(-epsilon)
                    phi_lower, phi_upper = (-0.25 * np.pi, -epsilon) if windmill_brake else (0.5 * np.pi, np.pi - epsilon)
                phi_star = self._root(residual, phi_lower, phi_upper)
"""),("    def __windComponents(self, Uinf, Omega, azimuth):\n","""    @staticmethod
    def _root(f, lo, hi):
        try:
            return brentq(f, lo, hi)
        except ValueError:
            warnings.warn("error.  check input values.")
        return 0.0

    def __windComponents(self, Uinf, Omega, azimuth):
"""),("""            if np.isnan(Np[i]):
                print(f"NaNs at {i}/{n}: {phi_lower} {phi_star} {phi_upper}")
                a[i] = 0.0
                ap[i] = 0.0
                Np[i] = 0.0
                Tp[i] = 0.0
                alpha[i] = 0.0
""","""            if Np[i] != Np[i]:
                print("NaNs at %d/%d: %s %s %s" % (i, n, phi_lower, phi_star, phi_upper))
                for arr in (a, ap, Np, Tp, alpha):
                    arr[i] = 0.0
"""),("""                DNp_Dx = dNp_dx - dNp_dy / dR_dy * dR_dx
                DTp_Dx = dTp_dx - dTp_dy / dR_dy * dR_dx
""","""                sensitivity = -dR_dx / dR_dy
                DNp_Dx = dNp_dx + dNp_dy * sensitivity
                DTp_Dx = dTp_dx + dTp_dy * sensitivity
"""),("""                zidx = [4, 0, 1, 5, 6, 7]
                dNp_dz[:, i] = DNp_Dx[zidx]
                dTp_dz[:, i] = DTp_Dx[zidx]
""","""                for row, col in enumerate((4, 0, 1, 5, 6, 7)):
                    dNp_dz[row, i], dTp_dz[row, i] = DNp_Dx[col], DTp_Dx[col]
"""))
L15='''[
                "Omega_load",
                "Rhub",
                "Rtip",
                "V_load",
                "azimuth_load",
                "chord",
                "hub_height",
                "pitch_load",
                "precone",
                "precurve",
                "r",
                "theta",
                "tilt",
                "yaw",
                "shearExp",
            ]'''
ref("c9",M,PO+["C05"],("CCBladeLoads","compute",'''
    def _airfoils(self, inputs):
        tables = [inputs["airfoils_" + k][..., 0] for k in ("cl", "cd", "cm")]
        return [CCAirfoil(inputs["airfoils_aoa"], inputs["airfoils_Re"], *(t[i] for t in tables)) for i in range(self.n_span)]

    def compute(self, inputs, outputs, discrete_inputs, discrete_outputs):
        keys = dict(precone="precone", tilt="tilt", yaw="yaw", shearExp="shearExp", hubHt="hub_height",
                    precurveTip="precurveTip", rho="rho", mu="mu")
        kw = {k: inputs[v] for k, v in keys.items()}
        kw.update({k: discrete_inputs[k] for k in ("nSector", "tiploss", "hubloss", "wakerotation", "usecd")})
        kw["precurve"] = inputs["precurve"] if len(inputs["precurve"]) else np.zeros_like(inputs["r"])
        rotor = CCBlade(
            *(inputs[k] for k in ("r", "chord", "theta")),
            self._airfoils(inputs),
            inputs["Rhub"],
            inputs["Rtip"],
            B=discrete_inputs["nBlades"],
            derivatives=True,
            **kw,
        )
        loads, self.derivs = rotor.distributedAeroLoads(
            *[inputs[k + "_load"] for k in ("V", "Omega", "pitch", "azimuth")]
        )
        outputs["loads_r"] = inputs["r"]
        for k, v in {"Px": loads["Np"], "Py": -loads["Tp"], "Pz": np.zeros(self.n_span)}.items():
            outputs["loads_" + k] = v
'''),("CCBladeLoads","compute_partials",'''
    _WRT = {
        "hub_height": "dhubHt", "shearExp": "dshear", "V_load": "dUinf", "Omega_load": "dOmega",
        "pitch_load": "dpitch", "azimuth_load": "dazimuth",
    }

    def compute_partials(self, inputs, J, discrete_inputs):
        square = ("r", "chord", "theta", "precurve")
        column = ("Rhub", "Rtip", "precone", "tilt", "yaw") + tuple(self._WRT)
        for of, sign, d in (("loads_Px", 1.0, self.derivs["dNp"]), ("loads_Py", -1.0, self.derivs["dTp"])):
            for wrt in square:
                J[of, wrt] = sign * d["d" + wrt]
            for wrt in column:
                J[of, wrt] = sign * d[self._WRT.get(wrt, "d" + wrt)].flatten()
'''),("""        self.declare_partials(
            "loads_Px",
            """+L15+""",
        )
        self.declare_partials(
            "loads_Py",
            """+L15+""",
        )
""","""        wrt = "Omega_load Rhub Rtip V_load azimuth_load chord hub_height pitch_load precone precurve r theta tilt yaw shearExp".split()
        self.declare_partials(["loads_Px", "loads_Py"], wrt)
"""))
ref("c10",M,PO,("CCBladeGeometry","compute",'''
    def compute(self, inputs, outputs):
        phi = np.radians(inputs["precone"])
        tip = {k: inputs[k + "_in"][-1] for k in ("precurve", "presweep")}
        for k, v in tip.items():
            outputs[k + "Tip"] = v
        R = inputs["Rtip"] * np.cos(phi) + tip["precurve"] * np.sin(phi)
        outputs["R"], outputs["diameter"] = R, 2.0 * R
'''),("CCBladeGeometry","compute_partials",'''
    def compute_partials(self, inputs, J):
        phi = np.radians(inputs["precone"])
        c, s = np.cos(phi), np.sin(phi)
        for of, k in (("R", 1.0), ("diameter", 2.0)):
            J[of, "precurve_in"] = k * s
            J[of, "Rtip"] = k * c
            J[of, "precone"] = k * np.radians(inputs["precurve_in"][-1] * c - inputs["Rtip"] * s)
'''))
