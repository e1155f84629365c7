#!/usr/bin/env python3
"""Writes properties.jsonl (kept as source so the table stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
BEM="ccblade/src/bem.f90"; CC="ccblade/ccblade.py"; OM="ccblade/ccblade_component.py"; CS="ccblade/csystem.py"; AP="ccblade/airfoilprep.py"

p("C01","Section kernel tangents are the exact derivatives of the section kernels",
 "The compiled tangent versions of the two blade-section kernels (induction factors and relative wind) return the same values as the plain kernels and exactly their directional derivatives for any seed directions. This holds in every model regime: momentum, empirical (with its near-singular fallback), propeller brake, extreme induction, and every combination of the drag, tip-loss, hub-loss and wake-rotation switches.",
 ["inputs","configurations"],"All section states and seed directions away from the regime boundaries; all 16 switch combinations.",
 "The finite-difference tests run the default switches on one turbine, whose sections never leave the momentum regime for long; the empirical, propeller-brake and switched-off branches of the tangent code are not exercised.",
 [BEM],[("INDUCTIONFACTORS_DV mirrors inductionFactors",BEM),("RELATIVEWIND_DV mirrors relativeWind",BEM)],observe=["_bem.inductionfactors_dv","_bem.relativewind_dv"])
p("C02","Velocity and curvature tangents are exact",
 "The compiled tangent of the wind-component kernel, and the compiled tangents of the blade-curvature kernel, return the same values as the plain kernels and exactly their directional derivatives with respect to station positions, precurve, presweep, precone, yaw, tilt, azimuth, wind speed, rotor speed, hub height and shear exponent. This includes the first and last station, where one-sided differences are used.",
 ["inputs"],"All blade shapes with distinct stations, all angles, all positive local heights, all seed directions.",
 "Tests difference a few turbines with most angles zero or small; products of angles, sweep and shear are hardly reached, and the second curvature tangent is never called.",
 [BEM],[("WINDCOMPONENTS_DV / DEFINECURVATURE_DV / DEFINECURVATURE_DV2",BEM)],observe=["_bem.windcomponents_dv","_bem.definecurvature_dv","_bem.definecurvature_dv2"])
p("C03","The rotor-integration adjoint is exact",
 "The compiled adjoint of the rotor integration returns, for any weights on thrust, side force, vertical force, torque and flap moment, exactly the gradient of that weighted sum with respect to the section loads, station positions, precurve, presweep, precone, hub and tip radius, and tip precurve and presweep.",
 ["inputs"],"All section loads, blade shapes with distinct stations, cone angles and output weights.",
 "Tests only reach unit weights through one rotor; side and vertical force and sweep terms are nearly zero there.",
 [BEM],[("THRUSTTORQUE_BV and DEFINECURVATURE_BV",BEM)],observe=["_bem.thrusttorque_bv"])
p("C04","Distributed-load derivatives are total derivatives",
 "With derivatives enabled, every entry of the normal- and tangential-load Jacobians returned by the distributed-load analysis is the total derivative of that load with respect to the named input, expressed in the unit in which the user gives that input (degrees, RPM), including the dependence through the solved inflow angle. All documented entries are present with their documented shapes, for rotating and parked rotors and every setting of the loss, drag and wake switches.",
 ["inputs","configurations"],"All rotors whose end stations do not coincide with hub or tip, all operating points with a converged section solution.",
 "Finite-difference tests cover one turbine at a few points with default switches and wide tolerances; six of them fail today.",
 [CC,BEM],[("chain rule in distributedAeroLoads, __loads, __residualDerivatives, __windComponents",CC),("compiled kernels",BEM)],observe=["CCBlade.distributedAeroLoads derivs"])
p("C05","Rotor-level derivatives are total derivatives",
 "With derivatives enabled, every entry of the Jacobians returned by the rotor evaluation (power, thrust, side and vertical force, torque, the three moments, and their coefficients) is the total derivative of that output with respect to the named input in the user's unit. All documented entries are present with their documented shapes, for any number of operating points, sectors and blades.",
 ["inputs","configurations"],"All rotors whose end stations do not coincide with hub or tip, any precone, precurve, presweep, tilt, yaw, shear, sector count; loads and operating point nonzero.",
 "Tests difference one turbine with a loose tolerance and mostly look at P, T, Q; side-force, moment and coefficient Jacobians with precurve, presweep and precone together are sampled at isolated points only.",
 [CC,BEM],[("evaluate, __thrustTorqueDeriv, __thrustTorqueDictionary",CC),("THRUSTTORQUE_BV",BEM)],observe=["CCBlade.evaluate derivs"])
p("C06","OpenMDAO partials match the component outputs",
 "For the rotor-geometry, loads and evaluation components, every analytic partial placed in the Jacobian equals the derivative of the component's own output entry with respect to that input entry in the declared units, with the right sign, row and column. Every output that really depends on a geometric or operating input has that partial declared and supplied.",
 ["inputs","configurations"],"All input values with end stations off hub and tip; fluid properties and airfoil tables are excluded (no analytic partials are provided for them).",
 "check_partials is run on one configuration; row mix-ups between small entries stay below its tolerance.",
 [OM,CC,BEM],[("compute / compute_partials / declare_partials",OM)],observe=["J in compute_partials"])
p("C07","Section equations are the documented BEM model",
 "For any section state the induction kernel returns the published model: normal and tangential coefficients with drag only if requested, Prandtl tip and hub losses only if requested, momentum theory up to k = 2/3 and Buhl's empirical relation above it for positive inflow angles, the propeller-brake relation otherwise, and no tangential induction when wake rotation is off. The residual is sin(phi)/(1-a) - cos(phi)/(lambda_r(1+a')) for positive inflow angle and its propeller-brake form otherwise; relative wind gives angle of attack phi-(theta+pitch), the speed from the two induced velocity components, and Reynolds number rho W c/mu.",
 ["inputs","configurations"],"All section states, all 16 switch combinations, every regime.",
 "One regression test checks power within a few percent with default switches; other regimes and switches are not executed.",
 [BEM,"docs/theory.rst"],[("inductionFactors, relativeWind",BEM)],observe=["_bem.inductionfactors","_bem.relativewind"])
p("C08","The section model is continuous across its regime switches",
 "The axial induction factor and the residual have no jump where the model switches from momentum theory to the empirical relation, nor where the empirical formula is replaced by its limit near its singularity (there the fallback is exactly the limit of the formula).",
 ["inputs","configurations"],"All section states lying on a switching surface with loss factor between 0 and 1.",
 "No test evaluates a state on a switching surface; a jump there only shows as occasional optimizer failure.",
 [BEM],[("threshold and Glauert/Buhl coefficients in inductionFactors",BEM)],observe=["_bem.inductionfactors"])
p("C09","Blade geometry and inflow follow the documented coordinate systems",
 "The velocities at each station are those obtained by taking the sheared wind through the yaw, tilt, azimuth and cone rotations of the coordinate-system classes and subtracting the rotation-induced velocity; heights for shear are taken in the wind-aligned frame. The wind speed may be one value or one value per station. Station coordinates, local cone angle (average of the adjacent segments, one-sided at the ends) and path length come from precurve, presweep and precone in the same frames.",
 ["inputs"],"All blade shapes and all yaw, tilt, azimuth, precone angles and shear exponents.",
 "Tests keep yaw and tilt zero or small and never compare the Fortran kernel with the Python coordinate classes.",
 [BEM,CS],[("windComponents, defineCurvature",BEM),("DirectionVector rotations",CS)],observe=["_bem.windcomponents","_bem.definecurvature"])
p("C10","Rotor integration is the trapezoidal integral with zero end loads",
 "Thrust, side force, vertical force, torque and flap moment of one blade are the trapezoidal integrals, over true blade path length from hub radius to tip radius including tip precurve and presweep, of the section loads resolved by local cone angle and lever arm, with loads going to zero at hub and tip.",
 ["inputs"],"All section loads and blade shapes.",
 "Tests only see power and torque of a straight blade; side force, vertical force and curved-blade contributions have no reference.",
 [BEM],[("thrustTorque",BEM)],observe=["_bem.thrusttorque"])
p("C11","Rotor outputs are azimuth averages, correctly rotated and normalised",
 "Rotor thrust, torque, forces and moments are the number of blades times the mean over equally spaced azimuths of the single-blade quantities rotated into the hub frame; the blade root moment is the mean for one blade; power is torque times rotor speed in rad/s. Coefficients divide by dynamic pressure, rotor area, and radius or wind speed as documented, with the documented rotor radius; one sector is used only when tilt, yaw and shear all vanish and at least four otherwise.",
 ["inputs","configurations"],"All operating-point arrays, blade counts, sector counts and rotor shapes.",
 "The regression test checks three outputs of one rotor with three blades.",
 [CC],[("evaluate; nSector and rotorR in the constructor",CC)],observe=["CCBlade.evaluate outputs"])
p("C12","Section loads follow from the solved inflow with drag always included",
 "At every station the reported normal and tangential loads are the lift and drag coefficients of that station's airfoil at the section's angle of attack and at the Reynolds number of the last Reynolds iteration, resolved by the solved inflow angle with drag included, times dynamic pressure of the reported relative velocity and chord. The entries of the returned dictionary are each other's counterparts at the same station (angle of attack in degrees), and a parked rotor uses zero induction.",
 ["inputs","configurations"],"All stations, operating points with relative wind, airfoils, switch settings and Reynolds-iteration counts.",
 "Tests look at integrated quantities; individual dictionary entries are not checked.",
 [CC],[("__runBEM, __loads, distributedAeroLoads",CC)],observe=["CCBlade.distributedAeroLoads loads"])
p("C13","Coordinate transformations are exact rotations with exact derivatives",
 "Each pair of forward and backward coordinate transformations are exact inverses of each other, preserve lengths and handedness (the airfoil/profile swap is its own inverse), turn about the documented axis in the documented direction, and carry along the exact derivatives of the rotated components with respect to the original components and the rotation angles. Vector algebra (sum, difference, scaling, cross product and its derivatives) is exact component by component.",
 ["inputs"],"All vectors, all angles, all chains of transformations.",
 "The coordinate module has no tests of its own.",
 [CS],[("_rotateAboutZ and its callers; cross_deriv*",CS)],observe=["DirectionVector methods"])
p("C14","Results do not depend on call history",
 "The result of a distributed-load or rotor evaluation depends only on how the rotor was constructed, which analysis mode (normal or inverse, with its requested values) is set, and the arguments of that call: earlier calls, their arguments, order or number cannot change it, and separate rotor, airfoil and polar objects share no state.",
 ["histories"],"All sequences of public calls on all objects.",
 "Each test builds its objects and makes one or two calls in a fixed order.",
 [CC,AP,CS],[("self.pitch and self._dNp_dX are set before use in every call",CC)],observe=["CCBlade.distributedAeroLoads","CCBlade.evaluate"])
p("C15","Caller data is never modified",
 "No constructor or analysis method changes arrays, lists, polars or airfoils handed in by the caller, and preparing a new polar or airfoil leaves the data of the source objects unchanged and independent of the result.",
 ["inputs","histories"],"All public constructors and methods with arrays owned by the caller.",
 "Tests never look at their inputs after a call.",
 [CC,AP,CS],[("copies taken in the constructors",CC),("new objects returned",AP)],observe=["arguments after the call"])
p("C16","Asking for derivatives or coefficients never changes the analysis",
 "Turning derivatives on changes none of the returned loads or rotor outputs, and asking for coefficients changes none of the dimensional outputs; the derivative dictionaries and the coefficient entries appear exactly when requested.",
 ["configurations","inputs"],"All rotors and operating points, all combinations of the two requests.",
 "Gradient tests only compare derivatives; no test compares the two modes.",
 [CC],[("derivatives / coefficients branches",CC)],observe=["CCBlade.distributedAeroLoads","CCBlade.evaluate"])
p("C17","Airfoil evaluation and its derivatives come from the same splines",
 "Lift, drag and (on request, when given) moment coefficients come from splines of the given tables with angles converted from degrees to radians, cubic where there are enough points and with only a small fixed smoothing (0.1 for lift, 0.001 for drag, 0.0001 for moment); the reported derivatives are the exact partial derivatives of those same lift and drag splines at the same point; beyond the table the coefficients keep their end values and their derivatives are zero. Airfoils given at one Reynolds number are Reynolds independent with zero Reynolds derivative.",
 ["inputs","configurations"],"All tables (with or without moment data, one or several Reynolds numbers), all query points.",
 "Tests use one-Reynolds-number tables only and never query derivatives by themselves.",
 [CC],[("CCAirfoil.__init__, evaluate, derivatives",CC)],observe=["CCAirfoil.evaluate","CCAirfoil.derivatives"])
p("C18","Blending polars is affine interpolation",
 "Blending two polars gives, on exactly the merged angles lying in the range covered by both, the affine combination with the given weight of both polars' coefficients and Reynolds number: weight 0 reproduces the first, weight 1 the second. An airfoil's polar at an intermediate Reynolds number is such a blend of the two neighbouring polars at the proportional weight, and the nearest polar outside the covered range; blending airfoils blends at every Reynolds number of either.",
 ["inputs"],"All polars, airfoils, weights and Reynolds numbers.",
 "Tests blend two fixed airfoils at a few weights.",
 [AP],[("Polar.blend, Airfoil.getPolar, Airfoil.blend",AP)],observe=["Polar.blend","Airfoil.getPolar","Airfoil.blend"])
p("C19","Extrapolation keeps the data and covers the full circle continuously",
 "Extrapolating a polar returns strictly increasing angles from -180 to 180 degrees that contain the given angles with their lift and (when given) moment coefficients unchanged (drag only raised to the requested floor), with every added segment given by the flat-plate (Viterna) model fitted to the last data point, mirrored and scaled, so that lift and drag join the data and the neighbouring segments without a jump at the upper end of the data, and with added moment coefficients given by AirfoilPrep's moment model: about the moment at zero lift, the normal force acts at a lever fitted to the last data point, with the tabulated values near 180 degrees and linear variation over tens of degrees. Each stretch filled beyond the data (between the end of the data, 90 degrees either way, the mirrored end and 180 degrees) carries the requested number of evenly spaced angles, its ends included. Angle, lift, drag and moment arrays have matching lengths and order, and no drag value lies below the requested floor.",
 ["inputs"],"All polars with data inside +/-90 degrees, all drag maxima, aspect ratios, floors and point counts.",
 "Tests compare against stored arrays for three polars, all with default options.",
 [AP],[("Polar.extrapolate, __Viterna",AP)],observe=["Polar.extrapolate"])
p("C20","3-D stall correction follows its documented model",
 "The rotational correction adds to lift the Du-Selig fraction of the gap between the linear lift line, fitted over the stated linear range, and the 2-D lift, fading out between the maximum-correction angle and 90 degrees and full below it; it scales drag about the zero-angle drag with the model's drag factor; and it leaves angles, moment coefficients and Reynolds number as they were.",
 ["inputs"],"All polars, radial positions, chord ratios, tip-speed ratios and angle limits.",
 "Tests compare stored arrays for a few polars with default limits.",
 [AP],[("Polar.correction3D",AP)],observe=["Polar.correction3D"])
p("C21","Airfoil operations act polar by polar",
 "Every airfoil-level operation (3-D correction, extrapolation, common-angle interpolation, data grid) applies the corresponding polar operation, with all its parameters passed through, to each polar exactly once and keeps Reynolds numbers paired with their data; polars are kept in increasing Reynolds order; in the data grid, column j of every coefficient table belongs to the j-th Reynolds number and row i to the i-th common angle.",
 ["inputs"],"All airfoils with any number and input order of polars, all parameter values.",
 "Tests use airfoils with one or two polars and default parameters.",
 [AP],[("Airfoil methods",AP)],observe=["Airfoil.correction3D","Airfoil.extrapolate","Airfoil.interpToCommonAlpha","Airfoil.createDataGrid"])
p("C22","AeroDyn files are written in the layout in which they are read",
 "An airfoil written to an AeroDyn file and read back has the same number of tables and, per table, the same Reynolds number and the same angle, lift, drag and moment columns up to the printed digits: the writer emits one record per line in exactly the order and units the reader consumes, each stall parameter in the unit its label states. Malformed data rows are rejected, not silently dropped.",
 ["inputs"],"All airfoils; any number of tables and rows.",
 "No test writes a file.",
 [AP],[("writeToAerodynFile / initFromAerodynFile",AP)],observe=["Airfoil.writeToAerodynFile","Airfoil.initFromAerodynFile"])
p("C23","OpenMDAO components report exactly the solver's answer for their inputs",
 "Each component passes every declared input, converted to the unit the solver expects, to the solver parameter of the same meaning, and each of its outputs is the solver quantity of its documented meaning (blade-frame loads with the tangential sign, hub force and moment vector order, airfoil-frame and lift/drag loads by the stated rotations, coefficients). Every declared output is set by every successful run.",
 ["inputs","configurations"],"All input values and modeling options of the geometry, loads, evaluation and twist components.",
 "One test per component compares a few outputs; swapped inputs that are zero or equal in the test case go unnoticed.",
 [OM,CC],[("compute methods",OM)],observe=["component outputs"])
p("C24","Declared units agree with the computed quantities",
 "Every quantity an OpenMDAO component outputs is a number in the unit declared for it, given inputs that are numbers in their declared units: its physical dimension is the declared one, and its value is the solver's answer in that unit (no factor between degrees and radians, rpm and rad/s, and so on).",
 ["inputs","configurations"],"All outputs of all components with declared units.",
 "OpenMDAO trusts declared units; a wrong one silently rescales or blocks downstream connections.",
 [OM,CC,BEM],[("add_input / add_output units",OM)],observe=["add_output units"])
p("C25","The inflow solver brackets and solves the right residual",
 "For a rotating rotor the inflow angle at each station is the root found by the bracketing solver for that station's own residual, searched in (0, pi/2] first; only if the residual does not change sign there is it searched in [-pi/4, 0) when the residual is negative at -pi/4 and positive just below 0, and otherwise in [pi/2, pi). The accepted bracket, the residual solved and the state from which loads are computed all belong to the same station and call.",
 ["inputs","configurations"],"All stations, operating points and airfoils; forward and inverse analysis.",
 "Test cases almost always solve in the first bracket; the fallback brackets are not exercised.",
 [CC],[("bracket selection in distributedAeroLoads",CC)],observe=["brentq call"])
p("C26","A section without a solution is contained",
 "If the bracketing solver finds no sign change at a station the user is warned and the analysis goes on; if the resulting loads are not a number that station's loads, induction factors and angle of attack are reported as zero, and every other station's results are the same as if nothing had failed. A section without any relative wind contributes zero loads and zero load derivatives. This holds for rotating and parked rotors, with and without derivatives.",
 ["inputs","fault_sequences","configurations"],"Any station failing at any position along the blade, in every mode.",
 "No test makes a section fail.",
 [CC],[("try/except around brentq and the NaN guard",CC)],observe=["CCBlade.distributedAeroLoads"])
p("C27","Unsupported requests are rejected with an error",
 "Requests outside the supported range end in an exception instead of a silently wrong answer: derivatives of a rotating rotor with more than one Reynolds iteration, wind speeds that fit neither one value nor the stations, airfoil tables with fewer than two angles, extrapolation of data beyond +/-90 degrees or with a negative drag floor, AeroDyn rows with missing columns, and twist that is both optimised and inverted.",
 ["inputs","configurations"],"All calls with such arguments.",
 "Tests only make supported requests.",
 [CC,AP,OM],[("raise statements guarding these requests",CC)],observe=["exception raised"])
p("C28","Flap runs use private, fully removed scratch files",
 "Generating flap coordinates writes only scratch files named for that run: in parallel mode every scratch file name contains the process id so that concurrent processes never share one. The control script is complete and closed before the external program starts, stale result files of the same name are removed first, and after a successful run all scratch files are gone.",
 ["histories","schedules"],"All airfoils and flap angles, all numbers of concurrent processes, with and without leftovers of an earlier crashed run.",
 "The method needs the external program and is not tested at all.",
 [CC],[("CCAirfoil.af_flap_coords",CC)],observe=["file system during af_flap_coords"])
p("C29","Inverse analysis returns the twist for the requested angle of attack",
 "In inverse mode the twist at each station is the inflow angle solved for that station's requested lift and drag coefficients minus the requested angle of attack and the pitch, and the loads reported are those of the section at that twist. Loss, drag and wake switches apply as in the normal analysis.",
 ["inputs","configurations"],"All requested coefficient and angle distributions, pitch and operating points.",
 "One OpenMDAO test runs the forward mode only.",
 [CC],[("__errorFunction_inverse, __runBEM_inverse, distributedAeroLoads",CC)],observe=["CCBlade.theta after an inverse evaluation"])
p("C30","Every section problem converges",
 "For every physically admissible section state the bracketing search contains exactly one physically meaningful root and the solver finds it to its tolerance.",
 ["inputs"],"All airfoil tables, section states and switch combinations.","Tests sample a handful of operating points.",
 [CC,BEM],[("bracketing argument of Ning (2013)","docs/theory.rst")])
p("C31","Airfoil splines stay close to the tabulated data",
 "The smoothed splines reproduce the tabulated coefficients within the smoothing tolerance and introduce no spurious oscillation between table points.",
 ["inputs"],"All airfoil tables.","Tests use one family of airfoils and look at rotor power only.",
 [CC],[("RectBivariateSpline smoothing factors",CC)])
p("C32","Predicted rotor performance is physically plausible and accurate",
 "Predicted power and thrust agree with reference data within model accuracy and never exceed physical limits.",
 ["inputs"],"All turbines and operating points.","Tests compare one turbine with reference power and torque.",
 [CC,BEM],[("whole analysis",CC)])
p("C33","Azimuthal averaging converges with the number of sectors",
 "Increasing the number of sectors converges to the azimuthal integral, and four sectors are accurate enough for moderate shear, yaw and tilt.",
 ["inputs","configurations"],"All sector counts and inflow conditions.","Tests use one sector count.",
 [CC],[("nSector",CC)])
p("C34","The rotor that is analysed is the rotor the caller described",
 "A rotor analysis uses exactly the stations, chord, twist, precurve, presweep, tip values and options passed to the constructor, whether given as arrays, lists, tuples or whole numbers. The only change allowed is at the ends: a first station coinciding with the hub radius, a last station coinciding with the tip radius, and a last precurve or presweep value equal to the tip value are moved inwards along the given distribution by the smaller of 1 % of the station span and half the end interval. A blade given without precurve (or presweep) is straight, its tip included. Options left out take their documented defaults: 3 blades, density 1.225, viscosity 1.81206e-5, no cone, tilt or yaw, shear exponent 0.2, hub height 80, 8 sectors, one Reynolds iteration, all loss, wake and drag switches on, no derivatives.",
 ["inputs","configurations"],"All station tables, blade shapes, number types and subsets of optional arguments.",
 "The tests build every rotor from float arrays with one blade shape; whole-number stations, narrow end intervals and left-out options are not exercised.",
 [CC],[("CCBlade.__init__",CC)],state=[("r, precurve, presweep","blade shape used by the analysis","ccblade/ccblade.py CCBlade.__init__")],observe=["CCBlade.distributedAeroLoads","CCBlade.evaluate"])
p("C35","Airfoil operating points belong to the airfoil",
 "CCAirfoil.max_eff returns an angle of attack (rad) at which lift over drag is largest among 201 equally spaced angles from -20 to 40 degrees at the given Reynolds number, together with that efficiency and the lift and drag coefficients which evaluate returns there. CCAirfoil.awayfromstall returns the angle at which lift is largest among the same angles minus the margin in degrees, with the coefficients evaluate returns at that reduced angle and their ratio. For a table whose nearest entries to both limits are the same one (a cylinder) both use zero angle of attack. The airfoil is not changed by asking.",
 ["inputs"],"All airfoil tables, Reynolds numbers and margins.",
 "No test calls these methods.",
 [CC],[("CCAirfoil.max_eff, CCAirfoil.awayfromstall",CC)],observe=["CCAirfoil.max_eff","CCAirfoil.awayfromstall"])
p("C36","Unsteady parameters describe the polar they are asked of",
 "For a polar with at least ten angles and ten different lift values, Polar.unsteadyparam returns, in this order: zero, the upper stall angle (deg), the angle of zero normal force (deg), the slope of normal force per radian, the normal force of the fitted line at the upper and at the lower stall angle, the angle of least drag (deg) and the least drag. Slope and zero are those of the least-squares line through the normal-force coefficient of the table angles between the two given limits (degrees, limits included, -5 and 5 by default); stall is where that line departs by 0.05 from the table, searched by linear interpolation at whole degrees from 0 to 39 and from 5 down to -39. Other polars (cylinders) give eight zeros.",
 ["inputs"],"All polars whose fitted line departs from the table by 0.05 at most once on each side, and all linear ranges holding at least two table angles.",
 "No test calls it except through the file writer, whose numbers are not compared.",
 [AP],[("Polar.unsteadyparam",AP)],observe=["Polar.unsteadyparam"])
p("C37","Unsteady-aerodynamics parameters of an airfoil describe its tables",
 "CCAirfoil.eval_unsteady(alpha in degrees, cl, cd, cm) fills the dictionary `unsteady` (normal force cn = cl cos(alpha) + cd sin(alpha)). alpha0, Cd0 and Cm0 are angle, drag and moment interpolated linearly where lift crosses zero between -30 and 30 degrees (all entries meant are the table's nearest ones). Cn1 is cn at the entry, between the one nearest alpha0 and the last local minimum of the moment within 35 degrees above it, where the moment lies furthest above the straight line joining those two entries. Cn2 is cn at the entry, between the one 30 degrees below the middle of the entries of alpha0 and Cn1 and the one of alpha0, where the moment lies furthest from the line joining them. C_nalpha is the steepest slope of cn per radian (second-order differences) over the entries from that of alpha0 up to, not including, that of Cn1. alpha1 is the angle of the entry, between zero degrees and the entry of Cn1, where the drag lies furthest below the line joining them; alpha2 = -alpha1. Without variation in the moment (up to 1e-10) Cn1, Cn2, C_nalpha, alpha1 and alpha2 are zero; without variation in the lift alpha0 and Cm0 are zero and Cd0 is the drag at zero degrees. Alpha, Cl, Cd, Cm are the tables given; eta_e is one, S1..S4, k0..k3 and k1_hat zero, the other AeroDyn keys 'Default'. Calling it again replaces everything.",
 ["inputs"],"All tables over the whole circle whose lift crosses zero once between -30 and 30 degrees, whose moment has its last minimum at least two entries above the angle of zero lift and whose moment breakpoint lies above zero degrees; and all tables with constant moment, with or without lift.",
 "No test compares these numbers; the inverse twist design takes its stall angle from them.",
 [CC],[("CCAirfoil.eval_unsteady",CC)],observe=["CCAirfoil.unsteady"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
