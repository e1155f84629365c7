from lib import ref
C="ccblade/ccblade.py"; A="ccblade/airfoilprep.py"
TAIL='''
        d = dict.fromkeys(["T_f0", "T_V0", "T_p", "T_VL", "b1", "b2", "b5", "A1", "A2", "A5", "St_sh", "x_cp_bar", "UACutout", "filtCutOff"], "Default")
        d.update((k, 0) for k in "S1 S2 S3 S4 k0 k1 k2 k3 k1_hat".split())
        d["eta_e"] = 1
'''
ref("g1",C,["C37","C23","C29","C17"],("CCAirfoil","eval_unsteady",'''
    @staticmethod
    def _near(alpha, angle):
        return int(np.abs(alpha - angle).argmin())

    @staticmethod
    def _farthest(x, y, i, j, weight):
        """index in [i, j) of the largest weighted departure from the chord through i and j"""
        chord = y[i] + (y[j] - y[i]) / (x[j] - x[i]) * (x[i:j] - x[i])
        dep = weight(y[i:j] - chord)
        if len(dep) == 0:
            return i
        k = np.argmax(dep)
        return i + (k if dep[k] > 0 else 0)

    @staticmethod
    def _last_minimum(v, i, j):
        last = None
        for k in range(i, j):
            left = k == i or v[k] < v[k - 1]
            right = k == j - 1 or v[k] < v[k + 1]
            if left and right:
                last = k
        return last

    def eval_unsteady(self, alpha, cl, cd, cm):
        rad = alpha * np.pi / 180.0
        cn = cd * np.sin(rad) + cl * np.cos(rad)
        lo, hi = self._near(alpha, -30.0), self._near(alpha, 30.0)
        zero = self._near(alpha, 0.0)
'''+TAIL+'''
        if np.any(np.gradient(cl) != 0.0):
            part = slice(lo, hi)
            d["alpha0"], d["Cd0"], d["Cm0"] = (np.interp(0.0, cl[part], v[part]) for v in (alpha, cd, cm))
        else:
            d["alpha0"], d["Cd0"], d["Cm0"] = 0.0, cd[zero], 0.0
        if np.abs(np.gradient(cm)).max() > 1.0e-10:
            i0 = self._near(alpha, d["alpha0"])
            end = self._last_minimum(cm, lo, self._near(alpha, alpha[i0] + 35.0))
            i1 = self._farthest(alpha, cm, i0, end, lambda t: t)
            start = self._near(alpha, 0.5 * (alpha[i0] + alpha[i1]) - 30.0)
            i2 = self._farthest(alpha, cm, start, i0, np.abs)
            ia = self._farthest(alpha, cd, zero, i1, np.negative)
            d["Cn1"], d["Cn2"] = cn[i1], cn[i2]
            d["C_nalpha"] = np.gradient(cn[i0:i1], rad[i0:i1]).max()
            d["alpha1"] = alpha[ia]
        else:
            for k in ("Cn1", "Cn2", "C_nalpha", "alpha1"):
                d[k] = 0.0
        d["alpha2"] = -d["alpha1"]
        d.update(Alpha=alpha, Cl=cl, Cd=cd, Cm=cm)
        self.unsteady = d
'''))
ref("g2",C,["C37","C23"],
 ("""            lin_fit = np.interp(x[idx_low:idx_high], [x[idx_low], x[idx_high]], [y[idx_low], y[idx_high]])
            idx_break = 0
            lin_diff = 0
            for i, (fit, yi) in enumerate(zip(lin_fit, y[idx_low:idx_high])):
                if multi == 0:
                    diff_i = np.abs(yi - fit)
                else:
                    diff_i = multi * (yi - fit)
                if diff_i > lin_diff:
                    lin_diff = diff_i
                    idx_break = i
            idx_break += idx_low
            return idx_break
""","""            best = (0, idx_low)
            for i in range(idx_low, idx_high):
                fit = np.interp(x[i], [x[idx_low], x[idx_high]], [y[idx_low], y[idx_high]])
                gap = abs(y[i] - fit) if not multi else multi * (y[i] - fit)
                if best[0] < gap:
                    best = gap, i
            return best[1]
"""),
 ("""        unsteady["Alpha"] = alpha
        unsteady["Cl"] = cl
        unsteady["Cd"] = cd
        unsteady["Cm"] = cm
""","""        for key, value in zip(("Alpha", "Cl", "Cd", "Cm"), (alpha, cl, cd, cm)):
            unsteady.setdefault(key, value)
"""),
 ("""        unsteady["alpha2"] = -1.0 * unsteady["alpha1"]
""","""        unsteady |= {"alpha2": -unsteady["alpha1"]}
"""))
ref("g3",C,["C37"],
 ("""        # Cn2
        if max(np.abs(np.gradient(cm))) > 1.0e-10:
            aoa_l = np.mean([alpha[idx_alpha0], alpha[idx_Cn1]]) - 30.0
            idx_low = np.argmin(abs(alpha - aoa_l))

            cm_temp = cm[idx_low:idx_high]
            idx_cm_min = [
                i
                for i, local_min in enumerate(
                    np.r_[True, cm_temp[1:] < cm_temp[:-1]] & np.r_[cm_temp[:-1] < cm_temp[1:], True]
                )
                if local_min
            ] + idx_low
            idx_high = idx_cm_min[-1]

""","""        # Cn2
        if varies:
            middle = (alpha[idx_alpha0] + alpha[idx_Cn1]) / 2
            idx_low = np.abs(alpha - (middle - 30.0)).argmin()
"""),
 ("""        # Cn1
        idx_alpha0 =""","""        varies = np.any(np.absolute(np.gradient(cm)) > 1.0e-10)

        # Cn1
        idx_alpha0 ="""),
 ("""            idx_cm_min = [
                i
                for i, local_min in enumerate(
                    np.r_[True, cm_temp[1:] < cm_temp[:-1]] & np.r_[cm_temp[:-1] < cm_temp[1:], True]
                )
                if local_min
            ] + idx_low
            idx_high = idx_cm_min[-1]
""","""            falling = np.concatenate(([True], np.diff(cm_temp) < 0))
            rising = np.concatenate((np.diff(cm_temp) > 0, [True]))
            idx_high = idx_low + np.flatnonzero(np.logical_and(falling, rising))[-1]
"""),
 ("""            unsteady["C_nalpha"] = max(np.gradient(cn[idx_alpha0:idx_Cn1], alpha_rad[idx_alpha0:idx_Cn1]))
""","""            lift_slope = np.gradient(cn[idx_alpha0:idx_Cn1], alpha_rad[idx_alpha0:idx_Cn1])
            unsteady["C_nalpha"] = np.amax(lift_slope)
"""))
ref("g4",C,["C37"],
 ("""        if max(np.abs(np.gradient(cl))) > 0.0:
            unsteady["alpha0"] = np.interp(0.0, cl[idx_low:idx_high], alpha[idx_low:idx_high])
            unsteady["Cd0"] = np.interp(0.0, cl[idx_low:idx_high], cd[idx_low:idx_high])
            unsteady["Cm0"] = np.interp(0.0, cl[idx_low:idx_high], cm[idx_low:idx_high])
""","""        if not np.all(np.gradient(cl) == 0.0):
            for key, values in {"alpha0": alpha, "Cd0": cd, "Cm0": cm}.items():
                unsteady[key] = np.interp(0.0, cl[idx_low:idx_high], values[idx_low:idx_high])
"""),
 ("""        unsteady["S1"] = 0
        unsteady["S2"] = 0
        unsteady["S3"] = 0
        unsteady["S4"] = 0
""","""        unsteady.update({"S%d" % (i + 1): 0 for i in range(4)})
"""),
 ("""        self.unsteady = unsteady
""","""        self.unsteady = dict(unsteady)
"""))
