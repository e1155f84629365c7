from lib import ref
C="ccblade/ccblade.py"; S="ccblade/csystem.py"; M="ccblade/ccblade_component.py"
PO=["C06","C14","C23","C24","C27","C29","C15"]
HELP='''def _read_airfoils(inputs, tab=0):
    """airfoil at every station, built on one of the tabulated data sets"""
    n = inputs["airfoils_cl"].shape[0]

    def at(i):
        cl, cd, cm = (np.take(inputs["airfoils_%s" % k][i], tab, axis=-1) for k in ("cl", "cd", "cm"))
        return CCAirfoil(inputs["airfoils_aoa"], inputs["airfoils_Re"], cl, cd, cm)

    return list(map(at, range(n)))


class CCBladeGeometry(ExplicitComponent):
'''
ref("d1",M,PO,("class CCBladeGeometry(ExplicitComponent):\n",HELP),("CCBladeEvaluate","compute",'''
    def _rotor(self, inputs, discrete_inputs, derivatives):
        precurve = inputs["precurve"]
        if not len(precurve):
            precurve = np.zeros_like(inputs["r"])
        flags = {k: discrete_inputs[k] for k in "tiploss hubloss wakerotation usecd".split()}
        geometry = [inputs[k] for k in ("r", "chord", "theta")]
        state = [inputs[k] for k in ("rho", "mu", "precone", "tilt", "yaw", "shearExp", "hub_height")]
        return CCBlade(
            *geometry,
            _read_airfoils(inputs),
            inputs["Rhub"],
            inputs["Rtip"],
            discrete_inputs["nBlades"],
            *state,
            nSector=discrete_inputs["nSector"],
            precurve=precurve,
            precurveTip=inputs["precurveTip"],
            presweep=inputs["presweep"],
            presweepTip=inputs["presweepTip"],
            derivatives=derivatives,
            **flags,
        )

    def _run(self, inputs, discrete_inputs, derivatives=False):
        point = tuple(inputs[k + "_load"] for k in ("V", "Omega", "pitch"))
        return self._rotor(inputs, discrete_inputs, derivatives).evaluate(*point, coefficients=True)

    def compute(self, inputs, outputs, discrete_inputs, discrete_outputs):
        loads, _ = self._run(inputs, discrete_inputs)
        for k in ("P", "Mb", "CP", "CMb"):
            outputs[k] = loads[k]
        for c in ("", "C"):
            outputs[c + "Fhub"] = np.vstack([loads[c + k] for k in "TYZ"])
            outputs[c + "Mhub"] = np.stack([loads[c + k] for k in ("Q", "My", "Mz")])
'''),("CCBladeEvaluate","compute_partials",'''
    _ROWS = (
        ("P", None, "dP"), ("Mb", None, "dMb"), ("CP", None, "dCP"), ("CMb", None, "dCMb"),
        ("Fhub", 0, "dT"), ("Fhub", 1, "dY"), ("Fhub", 2, "dZ"),
        ("Mhub", 0, "dQ"), ("Mhub", 1, "dMy"), ("Mhub", 2, "dMz"),
        ("CFhub", 0, "dCT"), ("CFhub", 1, "dCY"), ("CFhub", 2, "dCZ"),
        ("CMhub", 0, "dCQ"), ("CMhub", 1, "dCMy"), ("CMhub", 2, "dCMz"),
    )
    _NAMES = {"hub_height": "dhubHt", "shearExp": "dshear", "V_load": "dUinf", "Omega_load": "dOmega",
              "pitch_load": "dpitch"}

    def compute_partials(self, inputs, J, discrete_inputs):
        _, derivs = self._run(inputs, discrete_inputs, derivatives=True)
        wrt = ["r", "chord", "theta", "Rhub", "Rtip", "precone", "tilt", "yaw", "precurve", "precurveTip",
               "presweep", "presweepTip", *self._NAMES]
        for of, row, key in self._ROWS:
            for w in wrt:
                value = derivs[key][self._NAMES.get(w, f"d{w}")]
                if row is None:
                    J[of, w] = value
                else:
                    J[of, w][row, :] = value.ravel()
'''))
ref("d2",M,PO,("class CCBladeGeometry(ExplicitComponent):\n",HELP),("CCBladeTwist","compute",'''
    @property
    def _twist_options(self):
        return self.options["opt_options"]["design_variables"]["blade"]["aero_shape"]["twist"]

    def _target(self, inputs, af, Omega):
        """angle of attack, lift and drag wanted along the span"""
        tab = self.n_tab // 2
        margin = np.degrees(self.options["opt_options"]["constraints"]["blade"]["stall"]["margin"])
        Re = Omega * np.pi / 30.0 * inputs["r"] * inputs["chord"] * inputs["rho"] / inputs["mu"]
        out = np.zeros((3, self.n_span))
        for i, (foil, wanted) in enumerate(zip(af, inputs["aoa_op"])):
            a = wanted
            if np.abs(wanted - np.pi) < 1.0e-4:
                foil.eval_unsteady(
                    inputs["airfoils_aoa"], *(inputs["airfoils_" + k][i, :, 0, tab] for k in ("cl", "cd", "cm"))
                )
                a = np.radians(foil.unsteady["alpha1"] - margin)
            out[0, i] = a
            out[1, i], out[2, i] = foil.evaluate(a, Re[i])
        alpha, cl, cd = out
        first = next(i for i, thk in enumerate(inputs["rthick"]) if thk < 95.0)
        alpha[:first] = alpha[first]
        return alpha, cl, cd

    def compute(self, inputs, outputs, discrete_inputs, discrete_outputs):
        af = _read_airfoils(inputs, self.n_tab // 2 if self.n_tab > 1 else 0)
        rotor = CCBlade(
            inputs["r"], inputs["chord"], 0.0 * inputs["chord"], af, inputs["Rhub"], inputs["Rtip"],
            discrete_inputs["nBlades"],
            hubHt=inputs["hub_height"], nSector=discrete_inputs["nSector"],
            **{k: inputs[k] for k in ("rho", "mu", "precone", "tilt", "yaw", "shearExp", "precurve", "precurveTip",
                                      "presweep", "presweepTip")},
            **{k: discrete_inputs[k] for k in ("tiploss", "hubloss", "wakerotation", "usecd")},
        )
        Omega = 30.0 / np.pi * inputs["tsr"] * inputs["Uhub"] / inputs["r"][-1]
        point = ([inputs["Uhub"]], [Omega], [inputs["pitch"]])
        twist = self._twist_options
        s = (inputs["r"] - inputs["r"][0]) / np.ptp(inputs["r"])
        if not twist["inverse"]:
            rotor.theta = inputs["theta_in"]
        else:
            if twist["flag"]:
                raise Exception("Twist cannot be both optimized and the result of inverting the BEM equations.")
            rotor.inverse_analysis = True
            rotor.alpha, rotor.cl, rotor.cd = self._target(inputs, af, Omega)
            rotor.evaluate(*point)
            cap = np.radians(20.0)
            n = len(rotor.theta)
            for k in range(n - 1, -1, -1):
                if rotor.theta[k] > cap:
                    rotor.theta[: k + 1] = cap
                    break
            if self.options["modeling_options"]["WISDEM"]["RotorSE"]["inn_af"]:
                s_opt = inputs["s_opt_theta"]
                theta_opt = PchipInterpolator(s, rotor.theta.copy())(s_opt)
                rotor.theta = PchipInterpolator(s_opt, theta_opt)(s)
        rotor.inverse_analysis = False

        loads, _ = rotor.distributedAeroLoads(inputs["Uhub"][0], Omega[0], inputs["pitch"][0], 0.0)
        rotor_out, _ = rotor.evaluate(*point, coefficients=True)
        outputs["theta"] = rotor.theta
        for mine, theirs in zip(("P", "T", "Q", "M", "CP", "CM"), ("P", "T", "Q", "Mb", "CP", "CMb")):
            outputs[mine] = rotor_out[theirs][0]
        W = rotor_out["W"]
        outputs["local_airfoil_velocities"] = np.where(np.isnan(W), 0.0, W)
        for k in ("a", "ap", "alpha"):
            outputs[k] = loads[k]
        resample = lambda v: np.interp(inputs["s_opt_theta"], s, v)
        for k in ("Cl", "Cd"):
            outputs[k.lower()] = loads[k]
            outputs[k.lower() + "_n_opt"] = resample(loads[k])
        Px, Py = loads["Np"], -loads["Tp"]
        for k, v in (("Px_b", Px), ("Py_b", Py), ("Pz_b", np.zeros_like(Px))):
            outputs[k] = v
        force = DirectionVector(Px, Py, 0)
        twist_deg = np.degrees(rotor.theta)
        section = force.bladeToAirfoil(twist_deg)
        outputs["Px_af"], outputs["Py_af"], outputs["Pz_af"] = section.x, section.y, section.z
        wind = force.bladeToAirfoil(twist_deg + loads["alpha"] + inputs["pitch"])
        for full, opt, v in (("LiftF", "L_n_opt", wind.x), ("DragF", "D_n_opt", wind.y)):
            outputs[full] = v
            outputs[opt] = resample(v)
'''))
# an inherited base component shared by the two rotor components
ref("d3",M,PO,("class CCBladeLoads(ExplicitComponent):\n",'''class _Rotor(ExplicitComponent):
    """rotor description shared by the rotor components"""

    SIZES = ("n_span", "n_aoa", "n_Re", "n_tab")
    LOSSES = ("tiploss", "hubloss", "wakerotation", "usecd")

    def initialize(self):
        self.options.declare("modeling_options")

    def _sizes(self):
        opt = self.options["modeling_options"]["WISDEM"]["RotorSE"]
        for k in self.SIZES:
            setattr(self, k, opt[k])

    def _add_rotor(self, scalars=()):
        for name in ("airfoils_cl", "airfoils_cd", "airfoils_cm"):
            self.add_input(name, val=np.zeros([getattr(self, k) for k in self.SIZES]))
        self.add_input("airfoils_aoa", val=np.zeros((self.n_aoa)), units="deg")
        self.add_input("airfoils_Re", val=np.zeros((self.n_Re)))
        self.add_discrete_input("nBlades", val=0)
        for name, units in (("rho", "kg/m**3"), ("mu", "kg/(m*s)"), ("shearExp", None)):
            self.add_input(name, val=0.0, units=units)
        self.add_discrete_input("nSector", val=4)
        for name in self.LOSSES:
            self.add_discrete_input(name, val=True)


class CCBladeLoads(_Rotor):
'''),("""        # parameters
        self.add_input("airfoils_cl", val=np.zeros((n_span, n_aoa, n_Re, n_tab)))
        self.add_input("airfoils_cd", val=np.zeros((n_span, n_aoa, n_Re, n_tab)))
        self.add_input("airfoils_cm", val=np.zeros((n_span, n_aoa, n_Re, n_tab)))
        self.add_input("airfoils_aoa", val=np.zeros((n_aoa)), units="deg")
        self.add_input("airfoils_Re", val=np.zeros((n_Re)))

        self.add_discrete_input("nBlades", val=0)
        self.add_input("rho", val=0.0, units="kg/m**3")
        self.add_input("mu", val=0.0, units="kg/(m*s)")
        self.add_input("shearExp", val=0.0)
        self.add_discrete_input("nSector", val=4)
        self.add_discrete_input("tiploss", val=True)
        self.add_discrete_input("hubloss", val=True)
        self.add_discrete_input("wakerotation", val=True)
        self.add_discrete_input("usecd", val=True)
""","""        self._sizes()
        self._add_rotor()
"""),("class CCBladeEvaluate(ExplicitComponent):","class CCBladeEvaluate(_Rotor):"))
