"""Write /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": "instance state", "meaning": state, "where": E + ":Eigensystem.__init__"}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
E, M, T, PL, LA, IN = ("weac/eigensystem.py", "weac/mixins.py", "weac/tools.py", "weac/plot.py", "weac/layered.py", "weac/inverse.py")
I = ["inputs"]

prop("P01", "The solution satisfies slab equilibrium on every segment",
 "For every layering, weak layer, inclination, surface load and segment layout, the solution vector returned for a solved system satisfies, at every point of every segment, the equilibrium equations of the layered first-order-shear-deformable slab under its own weight and the surface load. Supported segments additionally rest on normal and shear springs of stiffness E/(1-nu^2)/t and E/(2(1+nu))/t; unsupported segments carry no foundation traction.",
 I, "all layerings, weak layers, inclinations, surface loads, segment layouts and positions x",
 "The tests compare shapes and a few stored numbers of one slab; a wrong coefficient that only matters for unsymmetric layerings, surface loads or one eigenvalue regime leaves them green.",
 [E, M], [("system matrix and load vector", E+":Eigensystem.calc_system_matrix/get_load_vector"), ("complementary and particular solutions", E+":Eigensystem.zh/zp/z"), ("eigenvalue classification", E+":Eigensystem.calc_eigensystem")],
 observe="Z returned by z() and rasterize_solution()")
prop("P02", "End conditions of PST and skier systems hold",
 "Without touchdown, the ends of '-pst'/'pst-' systems are free of normal force, bending moment and shear force, whether supported or not. The ends of 'skier'/'skiers' systems have exactly the displacements and rotation of the undisturbed infinite slab. The ends of '-vpst'/'vpst-' systems carry the section forces exerted by the weight of the triangular wedge between a slope-normal and a vertical face, about the slab midplane.",
 I, "all systems, layerings, inclinations of either sign, loads and segment lengths",
 "No test evaluates section forces or displacements at the ends of a solved system, and the wedge terms vanish at zero inclination.",
 [M, T], [("boundary conditions", M+":SolutionMixin.bc"), ("right-hand side at the ends", M+":SolutionMixin.assemble_and_solve"), ("wedge weight", T+":calc_vertical_bc_center_of_gravity")],
 observe="first and last column of the rasterized solution")
prop("P03", "Segments connect continuously; skiers load their own transition",
 "At every transition between segments, displacements and rotation are continuous. The section forces change there exactly by the slope-normal and slope-parallel components (and the moment of the latter about the midplane, as it acts on the top surface) of the skier weight m given for that transition, distributed over the effective ski length, and by nothing else.",
 I, "any number of segments, any skier masses (including zero) at any transitions, supported or not on either side, any inclination",
 "The tests solve fixed two- and four-segment systems and only check the shape of the constants; an index or sign slip with several skiers is invisible to them.",
 [M, E], [("transmission conditions", M+":SolutionMixin.eqs"), ("skier loads on the right-hand side", M+":SolutionMixin.assemble_and_solve"), ("skier load", E+":Eigensystem.get_skier_load")],
 observe="z() at both sides of each transition")
prop("P04", "Weak-layer stresses and end forces balance all applied loads",
 "For every solved system the integrals of the reported weak-layer normal and shear stresses over the supported length, together with the section forces at the two ends, are in force balance with the total slab weight, surface load and skier loads, in slope-normal and slope-parallel direction.",
 I, "all systems, layerings, loads, inclinations and crack configurations, with and without touchdown",
 "Global balance ties weights, units, foundation stiffness, stresses and solution together over whole configurations; the tests look at isolated values.",
 [M, E], [("weak-layer stresses", M+":FieldQuantitiesMixin.sig/tau"), ("section forces", M+":FieldQuantitiesMixin.N/V"), ("loads", E+":Eigensystem.get_weight_load/get_surface_load/get_skier_load")],
 observe="sig, tau, N, V on the rasterized solution")
prop("P05", "Laminate stiffness and center of gravity are those of the layering",
 "Slab thickness, center of gravity and the extensional, coupling, bending and shear stiffnesses used in the model equal the through-thickness integrals (plane strain, about the midplane, shear correction 5/6) of the given layers for any number and order of layers. Splitting a layer into sublayers of the same material changes nothing, reversing the layer order flips the sign of the coupling stiffness and of the center of gravity only, and merely scaling the density scale or modulus constants scales them accordingly.",
 I, "all layerings (number, order, thickness, density), Young's modulus parametrization constants and Poisson's ratios",
 "Tests check one default slab; asymmetric and many-layer slabs exercise index and sign conventions they never reach.",
 [E, T], [("laminate matrix", E+":Eigensystem.calc_laminate_stiffness_matrix"), ("ply coordinates", E+":Eigensystem.get_ply_coordinates"), ("center of gravity", T+":calc_center_of_gravity"), ("slab properties", E+":Eigensystem.set_beam_properties")])
prop("P06", "Mirroring a configuration mirrors its solution",
 "A system and its mirror image (reversed segments and skiers, opposite inclination, '-pst' for 'pst-', '-vpst' for 'vpst-') have mirrored solutions: w, N, M, normal stress and energy release rates are equal at mirrored positions, u, psi, V and shear stress change sign. Touchdown stage and touchdown length are the same for both.",
 I, "all systems, inclinations, layerings, loads and touchdown stages",
 "A relation between two runs on mirrored inputs; no test compares the left-cut and right-cut systems.",
 [M], [("segment assembly per system", M+":SolutionMixin.calc_segments"), ("boundary conditions left/right", M+":SolutionMixin.bc"), ("touchdown right-hand sides", M+":SolutionMixin.assemble_and_solve")])
prop("P07", "Response is linear in the loads and scales with stiffness and weight",
 "For a fixed geometry without touchdown, displacements, section forces and stresses are linear in the loads: the effects of slab weight, surface load and of each skier superpose, and scaling all loads scales them. Multiplying all Young's moduli (slab and weak layer) by a factor divides displacements and energy release rates by it and leaves section forces and stresses unchanged.",
 I, "all load combinations, factors, layerings and segment layouts",
 "Superposition and similarity relate several solved systems on arbitrary inputs; tests only look at single systems.",
 [E, M], [("load vectors", E+":Eigensystem.zp/get_weight_load/get_surface_load/get_skier_load"), ("solution", M+":SolutionMixin.assemble_and_solve")])
prop("P08", "Subdividing segments does not change the solution",
 "Splitting a segment at any point (same foundation, no skier load at the new transition), inserting zero-length segments, or representing a whole slab as one segment yields the same displacements, section forces, stresses and energy release rates as the original segmentation. Segment lists handed in are not modified.",
 I, "all systems solved through assemble_and_solve, all split positions and numbers of splits",
 "Tests never re-segment a system; the relation quantifies over all split points.",
 [M], [("assembly", M+":SolutionMixin.assemble_and_solve"), ("rasterization", M+":AnalysisMixin.rasterize_solution"), ("energy release rates", M+":AnalysisMixin.ginc/gdif")])
prop("P09", "Results depend on current inputs only, not on call history",
 "For any sequence of calls on one instance (property updates with recalculation, surface load changes, segment calculations with other inclinations, crack lengths or touchdown, solving, post-processing), each result equals that of a fresh instance with the same current inputs, and repeating a call repeats its result. No call modifies arrays, lists or dictionaries passed to it, and instances do not influence each other.",
 ["histories"], "all call sequences over the public interface of one or several instances",
 "A test fixes one short call order per fresh instance; stale state shows only after particular multi-step histories.",
 [E, M], [("instance state", E+":Eigensystem.__init__/set_*"), ("touchdown state", M+":SlabContactMixin.set_touchdown_attributes"), ("temporary substitute system", M+":SlabContactMixin.substitute_stiffness")],
 state="attributes of the Layered instance")
prop("P10", "A failing call leaves the model as it was before",
 "If a computation is aborted by an error or interrupt at any point inside calc_segments, substitute_stiffness, assemble_and_solve or a post-processing call, the material properties, system type, foundation stiffnesses and eigensystem of the instance are those before the call. Repeating the call or continuing with other inputs then gives the same results as on a fresh instance.",
 ["crash_points"], "all abort points (each call boundary inside the computation) of all public computations",
 "Tests never abort a computation; the substitute system is swapped into the instance only in a short window inside touchdown computations.",
 [M], [("temporary substitute system", M+":SlabContactMixin.substitute_stiffness"), ("touchdown computation", M+":SlabContactMixin.calc_touchdown_system")],
 state="system, kn, kt, eigenvalues and eigenvectors of the instance")
prop("P11", "Rasterized solutions cover the system and mark unsupported parts",
 "rasterize_solution returns strictly increasing positions that start at 0, end at the total length, contain every transition between (non-zero-length) segments, and resolve each segment with at least its share of the requested number of points. The returned solution vectors are those of the segment the point lies in, and the foundation coordinates equal the positions on supported segments and at crack tips and are NaN exactly at points of unsupported segments otherwise.",
 I, "all segment layouts (including zero-length and adjacent unsupported segments) and all numbers of grid points",
 "Tests check array shapes for one layout; masks and transition points matter for every layout and resolution.",
 [M], [("rasterization", M+":AnalysisMixin.rasterize_solution"), ("segment solution", E+":Eigensystem.z")])
prop("P12", "Differential energy release rate is the weak-layer energy at the tips",
 "gdif equals, for every solved system, the sum over all crack tips (transitions between supported and unsupported segments) of the weak-layer strain energy sigma^2/(2 kn) (mode I) and tau^2/(2 kt) (mode II) at the tip, with tips of interior cracks weighted by one half when several tips exist. The total is the sum of both modes, all are non-negative, zero if there is no crack, and convert between units N/mm, kJ/m^2 and J/m^2.",
 I, "all crack configurations (edge cracks, interior cracks, several cracks), loads, inclinations and units",
 "The test checks type and length of the result only.",
 [M], [("differential ERR", M+":AnalysisMixin.gdif"), ("tip energies", M+":FieldQuantitiesMixin.Gi/Gii")])
prop("P13", "Incremental energy release rate is the crack opening integral",
 "ginc equals, for every pair of uncracked and cracked solutions, half the integral over the newly unsupported segments of uncracked weak-layer stress times cracked weak-layer displacement (mode I normal, mode II shear), divided by the new crack length. The total is the sum of the modes and not negative, and for short cracks it approaches the differential energy release rate.",
 I, "all layouts with new cracks (several, adjacent, interior or edge), loads, inclinations of either sign",
 "The test checks type and length of the result only; sign errors in mode II show only on slopes.",
 [M], [("incremental ERR", M+":AnalysisMixin.ginc"), ("integrands", M+":FieldQuantitiesMixin.int1/int2/eps/gamma")])
prop("P14", "Slab stress fields are in equilibrium with loads and section forces",
 "Through the thickness at any position on a supported segment, Sxx integrates to the reported normal force and bending moment, and Txz and Szz start at the tractions of the surface load on the top face, change by the layer weights and the axial gradient of Sxx, and end at the bottom face at the reported weak-layer shear stress tau and at the normal stress sig - (t/2) dtau/dx that balances the weak layer. This holds up to a discretization error that vanishes with the mesh size dz, for every layering and in every unit; on unsupported segments the bottom face is free of traction.",
 I, "all layerings, mesh sizes dz, inclinations, surface loads, positions and units",
 "No test evaluates slab stresses.",
 [M], [("axial stress", M+":AnalysisMixin.Sxx"), ("shear stress", M+":AnalysisMixin.Txz"), ("transverse stress", M+":AnalysisMixin.Szz"), ("z mesh", M+":AnalysisMixin.get_zmesh")])
prop("P15", "Principal stresses and their normalization are exact",
 "principal_stress_slab and principal_stress_weaklayer return the eigenvalues of the plane stress state formed by the reported slab stresses and by the reported weak-layer stresses (zero axial stress), largest for 'max' and smallest for 'min', in the requested unit. With normalize=True they are divided by the layer tensile strength 240 kPa (rho/917)^2.44 at each grid point, respectively by the given compressive strength in kPa, so that the result is the same for every unit.",
 I, "all stress states, layerings, units, component choices and strengths",
 "No test evaluates principal stresses or normalization.",
 [M, T], [("principal stresses", M+":AnalysisMixin.principal_stress_slab/principal_stress_weaklayer"), ("tensile strength", T+":tensile_strength_slab")])
prop("P16", "Reported quantities follow their definitions in every unit",
 "For any solution, u at height z0 is the midplane displacement plus z0 times the rotation, N, M, V follow from strains, curvature and shear angle with the laminate stiffnesses, and sig and tau are the spring stiffnesses times (negative) normal and relative shear displacement of the weak layer; each unit option is the same quantity times the SI factor. The get_* output functions return positions in cm and those same values at top, middle or bottom, with NaN in (or without, if requested) unsupported parts, leaving their inputs unmodified.",
 I, "all solutions, unit options, locations and masks",
 "Tests check two accessors in two units; all others and their consistency are unchecked.",
 [M], [("field accessors", M+":FieldQuantitiesMixin"), ("exports", M+":OutputMixin.get_*")])
prop("P17", "Touchdown stages follow from crack length thresholds",
 "With touchdown enabled, a PST is in stage A up to the crack length at which the tip of the unsupported cantilever, elastically clamped to the supported part, sags by the collapse height tc = cf t - qn/kn; in stage B up to the length at which it additionally touches tangentially; and in stage C beyond, with thresholds a1 < a2. The touchdown length is the crack length in stages A and B, and in C the unsupported length that touches tangentially against the rotational stiffness of the resting part. Without touchdown the stage is always A.",
 I, "all layerings, weak layers, inclinations, collapse factors, stiffness ratios, column and crack lengths",
 "No test computes a stage; thresholds are roots of polynomials whose coefficients involve every stiffness.",
 [M], [("thresholds", M+":SlabContactMixin.calc_a1/calc_a2"), ("touchdown length", M+":SlabContactMixin.calc_lC"), ("substitute springs", M+":SlabContactMixin.substitute_stiffness"), ("stage", M+":SlabContactMixin.calc_touchdown_mode")])
prop("P18", "Solved touchdown systems rest on the collapsed weak layer",
 "In stage A the solution equals the one without touchdown. In stages B and C the cut end deflects exactly by tc; in B it is free of moment and normal force; in C its moment is that of the rotational spring of the resting part (free bedded beam on the collapsed weak layer, ratio times stiffer) and its normal force holds the weight component of the resting part. The opposite end stays free.",
 I, "all touchdown stages, both cut directions, inclinations, layerings, collapse factors and ratios",
 "No test solves a system in stage B or C.",
 [M], [("touchdown boundary conditions", M+":SolutionMixin.bc"), ("touchdown right-hand sides", M+":SolutionMixin.assemble_and_solve"), ("rotational spring", M+":SlabContactMixin.substitute_stiffness")])
prop("P19", "touchdown_distance agrees with the touchdown stages of long PSTs",
 "touchdown_distance returns the first-contact crack length (stage A to B), the full-contact crack length (stage B to C) and the steady-state touchdown length of a very long PST with the given layering, modulus constants, weak layer and inclination. First contact is shorter than full contact, results are finite and positive, do not depend on the sign of the inclination, and equal those obtained by driving Layered with the same inputs.",
 I, "all layerings (list, array, database name, default), weak-layer moduli and thicknesses, inclinations",
 "No test calls touchdown_distance.",
 [T, M], [("touchdown distance", T+":touchdown_distance"), ("thresholds", M+":SlabContactMixin.calc_a1/calc_a2/calc_lC")])
prop("P20", "Potentials are the stored energy and the work of the loads",
 "For PST systems, internal_potential converges (with the number of grid points) to the strain energy of slab, weak layer and touchdown spring of the given solution, external_potential to minus the work of slab weight and surface load at the inclination passed, and total_potential is their sum. The internal potential is positive.",
 I, "all PST solutions of every touchdown stage, layerings, inclinations and surface loads",
 "No test calls the potentials.",
 [M], [("potentials", M+":OutputMixin.external_potential/internal_potential/total_potential")])
prop("P21", "Ill-posed requests are rejected, valid ones are not",
 "Systems without any supported segment, with inconsistent numbers of segments, foundations and skiers, or (skier systems) with unsupported outer segments raise ValueError, as do unknown system names, unknown database profiles, unknown principal stress components, unavailable normalizations and unknown plot fields. Every other documented input, including minimal ones, is processed without error.",
 I, "all documented option values and (in)consistent segment lists",
 "Tests do not probe invalid input systematically.",
 [M, T, PL], [("segment validation", M+":SolutionMixin.assemble_and_solve"), ("system validation", M+":SolutionMixin.calc_segments"), ("profile database", T+":load_dummy_profile"), ("field validation", PL+":deformed")])
prop("P22", "Solutions stay finite and reach the undisturbed state far away",
 "For slabs of any length, layering and foundation stiffness, all results are finite and no floating-point overflow, invalid operation or division by zero occurs. Far (many characteristic lengths) from skiers, cracks and ends the weak-layer stresses equal the overburden stresses -(weight+surface load) cos(phi) and -(weight+surface load) sin(phi) and the displacements are those of the undisturbed slab, independent of the length of the far segments.",
 I, "all segment lengths up to kilometers, soft and stiff layers, eigenvalue regimes",
 "Tests use one short slab; exponential growth and decay are scaled by segment length and eigenvalue, so instability appears only for long or stiff systems.",
 [E, M], [("stability shifts", E+":Eigensystem.calc_eigensystem/zh"), ("particular solution", E+":Eigensystem.zp")])
prop("P23", "Plots show the computed data",
 "Each plot function draws exactly the documented quantities of the given solution at the given positions (in cm, units as labelled), marks unsupported segments and loaded transitions at their positions, and writes one image of the documented name into ./plots. deformed() draws the requested field on the displaced slab and weak-layer geometry with one colour scale, symmetric about zero, for both, uses its documented defaults for options left out, is dark only when asked to be, and refuses unknown fields with ValueError; plot_data() draws the curves it is given, on the scale they are given for, all in view; plotting leaves the model and its inputs unchanged, the plot style at its defaults and no figure open.",
 I, "all systems, fields, scales, resolutions, plot options and options left out",
 "Tests only check that some file appears for one system.",
 [PL], [("line plots", PL+":plot_data/displacements/section_forces/stresses"), ("contour plot", PL+":deformed"), ("profile plot", PL+":slab_profile"), ("files", PL+":save_plot")])
prop("P24", "Inverse gives the same results as Layered with its parameters",
 "An Inverse model with parameters (C0, C1, Eweak) yields the same segments, solutions, stresses and energy release rates as a Layered model whose beam and foundation properties are set to the same values, for every system and layering.",
 I, "all parameter triples, layerings and systems",
 "No test instantiates Inverse.",
 [IN, LA], [("inverse model", IN+":Inverse.__init__"), ("layered model", LA+":Layered.__init__")])
prop("P25", "Equivalent input representations give identical results",
 "Layerings, segment lists and positions may be given as lists, tuples or arrays, of ints or floats, and scalars as Python or numpy numbers; properties may be set with update=True or followed by calc_fundamental_system(), in any order. Numerically equal inputs give equal results in all of these forms.",
 I, "all representations of the same numeric input and all orders of setting properties",
 "Tests use one representation each.",
 [E, M, LA, T], [("setters", E+":Eigensystem.set_beam_properties/set_foundation_properties"), ("segments", M+":SolutionMixin.calc_segments"), ("list handling", M+":SolutionMixin.assemble_and_solve")])
prop("P26", "Material parametrizations and profile database return documented values",
 "bergfeld, gerling, scapozza and tensile_strength_slab return the documented power laws of density for scalars and arrays, in the requested unit. Each database profile, named directly or as last word of a string in any case, gives the documented layers and moduli. calc_vertical_bc_center_of_gravity returns weight and centroid of the wedge between slope-normal and vertical face for any layering and inclination of either sign.",
 I, "all densities, constants, profile names, layerings and inclinations",
 "Tests check single values of one function.",
 [T, E], [("parametrizations", T+":bergfeld/gerling/scapozza/tensile_strength_slab"), ("database", T+":load_dummy_profile"), ("wedge", T+":calc_vertical_bc_center_of_gravity")])
prop("P27", "calc_segments describes the requested experiment",
 "The segments returned for lengths L and a, skier mass m and system have lengths adding up to L (less the resting part in touchdown stage C) with the crack of length a at the documented place, are supported outside the crack in the cracked and everywhere in the uncracked configuration, and carry m at the model center for 'skier' and no load for PSTs; for 'skiers' they are the given lists. 'crack', 'nocrack' and 'both' agree with each other and are accepted by all downstream functions.",
 I, "all systems, lengths, crack lengths (including zero and full), masses and touchdown stages",
 "Tests compare one configuration per system.",
 [M], [("segment assembly", M+":SolutionMixin.calc_segments")])
prop("P28", "Derivative accessors are spatial derivatives of the solution",
 "On supported segments, dz_dx, dz_dxdx and the derived second and third derivatives of midplane displacement and rotation equal the derivatives with respect to x of the returned solution. On all segments the second, fourth and sixth solution components (and dw_dx, dpsi_dx, du_dx) are the x-derivatives of u, w, psi.",
 I, "all layerings, inclinations, surface loads and positions",
 "Only dw_dx of a constant vector is tested.",
 [M, E], [("derivatives", M+":FieldQuantitiesMixin.dz_dx/dz_dxdx/du0_dxdx/dpsi_dxdx/du0_dxdxdx/dpsi_dxdxdx")])
prop("P29", "Crack growth releases the integral of the differential ERR",
 "For PST and skier systems under fixed loads, the energy released by introducing a crack (crack length times the incremental energy release rate ginc of the uncracked and cracked solutions) equals the integral of the differential energy release rate gdif of all intermediate cracks, grown from zero at the same place. This is exact for weak layers of vanishing thickness (at given foundation stiffnesses) and holds up to a small term of the order of the weak-layer thickness otherwise.",
 I, "all slabs, weak layers, inclinations, surface loads and skier loads (also on the crack path), edge cracks and interior cracks of any length",
 "Ties two public results together over a whole family of solved systems; tests check type and length of either result for one system.",
 [M], [("incremental ERR", M+":AnalysisMixin.ginc"), ("differential ERR", M+":AnalysisMixin.gdif"), ("solutions along the growth", M+":SolutionMixin.assemble_and_solve")])
prop("P30", "Substitute springs are end stiffnesses of a free bedded beam",
 "substitute_stiffness(L, support, dof) returns the resistance per unit rotation ('rot') or deflection ('trans') of the end of an otherwise free slab of length L that rests on the intact weak layer ('supported') or on the collapsed one, whose stiffnesses are the given ratio times larger ('rested'). It is positive, grows with L to the value of the infinite slab, vanishes for vanishing L, does not depend on loads, inclination or the system studied, and leaves the model as it was.",
 I, "all layerings, weak layers, stiffness ratios, lengths from zero to many decay lengths, systems and loads of the instance asked",
 "No test calls it; it is evaluated inside every touchdown computation on a temporarily changed model.",
 [M], [("substitute springs", M+":SlabContactMixin.substitute_stiffness"), ("its boundary conditions", M+":SolutionMixin.bc/assemble_and_solve")])
prop("P31", "Field quantities are evaluated position by position",
 "Every displacement, strain, stress, energy release rate and derivative at a position follows from the solution at that position alone: evaluated for any selection of positions, one at a time, in any order, with repetitions or from any memory layout, the values are the same. The same holds for solution vectors at positions of a segment and for the output functions, where dropping unsupported positions only removes entries.",
 I, "all solutions, selections, orders and memory layouts of positions, all field quantities",
 "Tests evaluate one batch per function and check its shape.",
 [M, E], [("field quantities", M+":FieldQuantitiesMixin"), ("slab stresses", M+":AnalysisMixin.Sxx/Txz/Szz/principal_stress_slab"), ("output", M+":OutputMixin"), ("solution vector", E+":Eigensystem.z")])
prop("P32", "Leaving out an argument means its documented default",
 "Omitting any optional argument of model set-up, segment assembly, solution, evaluation, analysis, output and touchdown functions gives the results of passing the documented default explicitly, also on models that were used with other values before. Models report the documented constants and the properties they were given.",
 I, "all subsets of optional arguments left out, all models, systems and earlier uses",
 "Tests use each function with one set of arguments and do not compare with the documented defaults.",
 [E, M, LA, IN, T], [("set-up", E+":Eigensystem.set_beam_properties/set_foundation_properties"), ("experiments", M+":SolutionMixin.calc_segments"), ("instances", LA+":Layered.__init__"), ("touchdown distance", T+":touchdown_distance")])
prop("P33", "Computations have no side effects outside their model",
 "Valid and failing calls of model, solution, evaluation, analysis and material functions do not modify their arguments or other models, write no files, start no processes or connections, print nothing, and leave global numeric, random, warning and environment state alone. Valid calls emit no warnings, with one exception: solving a skier system whose first or last segment is shorter than 5 m announces that, and only then.",
 ["inputs", "histories"], "all call sequences, argument representations, systems, and failing calls",
 "Tests look at return values only.",
 [E, M, LA, T], [("models", E+":Eigensystem"), ("solution", M+":SolutionMixin"), ("analysis", M+":AnalysisMixin"), ("materials", T)])
prop("P34", "Equivalent descriptions of an experiment give the same answer",
 "An experiment that can be posed in several ways has one solution: 'skier' equals 'skiers' with the same crack and load, vertical and slope-normal faces agree on flat ground, given segments the announced cut side is irrelevant, turning the slope and cutting from the other side mirrors the solution, touchdown makes no difference before first contact, and far from the ends the kind of end does not matter. Field solutions and differential energy release rates agree.",
 I, "all layerings, weak layers, inclinations, loads, segment lists, crack lengths and systems",
 "Tests never compare two systems.",
 [M, E], [("segments", M+":SolutionMixin.calc_segments"), ("boundary conditions", M+":SolutionMixin.bc/eqs"), ("end loads", M+":SolutionMixin.assemble_and_solve")])
prop("P35", "Similar experiments have similar solutions",
 "No result depends on the units or the absolute size of an experiment: when all lengths, moduli, densities and loads are scaled consistently, displacements, rotations, stresses, section forces, energy release rates, slab fields, substitute springs, touchdown stages and lengths scale by their dimensions. Segment lists and evaluation grids scale too.",
 I, "all layerings, weak layers, inclinations, loads, systems, touchdown stages, segment lists, and scale factors",
 "Tests use one size and one set of moduli.",
 [E, M, "weac/tools.py"], [("properties", E+":Eigensystem"), ("segments", M+":SolutionMixin.calc_segments"), ("touchdown", M+":SlabContactMixin"), ("slab fields", M+":OutputMixin/FieldQuantitiesMixin")])
prop("P36", "Special values are no special cases",
 "Results depend continuously on the inputs: flat slopes, equal or symmetric layers and segments, absent loads, vanishing cracks, whole numbers, centred cracks and positions at segment ends give the limits of neighbouring experiments. Only a change of touchdown stage may change the kind of the solution.",
 I, "all special experiments and the neighbours of each",
 "Tests sample a few special values and never their neighbours.",
 [E, M], [("coefficients", E+":Eigensystem"), ("segments", M+":SolutionMixin.calc_segments"), ("boundary conditions", M+":SolutionMixin.bc/eqs"), ("touchdown", M+":SlabContactMixin")])
prop("P37", "Models are independent objects",
 "Deep copies and pickles of a model, prepared or used, give identical results and are independent of the original; experiments on different models running concurrently in threads give the results of running alone.",
 ["inputs", "histories", "schedules"], "all experiments, points of copying, changes afterwards, and thread interleavings",
 "Tests use one model at a time in one thread and never copy it.",
 [E, M, LA, IN], [("state", E+":Eigensystem.__init__"), ("solution", M+":SolutionMixin"), ("touchdown", M+":SlabContactMixin"), ("instances", LA+":Layered.__init__")])
prop("P38", "Plot and environment helpers keep their documented contracts",
 "Midpoint normalization puts the midpoint in the middle of the colour map, orders values and treats both sides alike; outlines walk once around a grid; significant digits, central distributions and lightness changes are as documented, for every argument. The clock runs in milliseconds, notebooks are told from terminals, and figures are shown in the former and written to the plots folder in the latter.",
 I, "all arguments of the helpers and the kinds of interpreter shells",
 "Tests do not call the plot helpers.",
 [PL, T], [("helpers", PL+":MidpointNormalize/outline/significant_digits/tight_central_distribution/adjust_lightness"), ("saving", PL+":save_plot"), ("environment", T+":isnotebook/time")])
prop("P39", "Loads obey reciprocity, and stiffening never increases compliance",
 "For a thin weak layer the work of one load on the displacements of another equals the work of the other on the displacements of the first, and flexibility is positive. Stiffening the weak layer or slab or closing a crack never increases compliance; longer cracks and more distant ends never reduce it (approximately also for thick weak layers).",
 I, "all layerings, thin and thick weak layers, inclinations, segment lists, skier positions and pairs of loadings",
 "Tests never relate two load cases or two stiffnesses.",
 [E, M], [("stiffnesses", E+":Eigensystem.calc_laminate_stiffness_matrix"), ("system", E+":Eigensystem.calc_system_matrix"), ("conditions", M+":SolutionMixin.bc/eqs"), ("loads", M+":SolutionMixin.assemble_and_solve")])
prop("P40", "The coupled-criterion example finds the critical loads and cracks of its system",
 "For any slab, slope, weak layer (E, t), strength envelope and density, the searches of examples/criterion_check.py judge exactly that system, also when they fall back to the dampened variant: the skier stands at the middle; the critical load brings the largest weak-layer stress to the envelope; an anticrack that is returned as coupled solution releases an incremental energy on the toughness envelope, its edges lie on the stress envelope of the uncracked layer, all inside exceeds it and nothing outside does; reported weights, lengths and histories belong together; self-propagation lengths bring the differential rate to the toughness. Segment helpers keep lengths and supports, envelopes agree with each other, inputs are unchanged.",
 I, "all slabs, slopes, weak layers, strengths, and failures of intermediate searches",
 "The examples have no tests.",
 ["examples/criterion_check.py", M], [("critical load", "examples/criterion_check.py:find_minimum_force/find_minimum_force_dampened"), ("nucleation", "examples/criterion_check.py:check_coupled_criterion_anticrack_nucleation/find_new_anticrack_length"), ("propagation", "examples/criterion_check.py:check_crack_propagation_criterion/find_min_crack_length_self_propagation"), ("systems", "examples/criterion_check.py:create_skier_object/split_segments_at_midpoint")])
prop("P41", "The published workflows run and give the results of their system",
 "The code of the demo notebook and of the README runs as published and after exchanging its inputs (profile, lengths, inclination, skier weights, supports). The displacements, rotations, weak-layer stresses and energy release rates it arrives at are those of the system its inputs describe (judged by an independent solution of the beam equations), unsupported parts are marked, every plot is written, and the numbers printed in the notebook are reproduced within the tolerance of its searches.",
 I, "all profiles, lengths, inclinations, skiers and supports put into the published workflows",
 "Tests exercise single functions with one input each, never the documented sequence of steps.",
 [M, E, PL, LA, "demo/demo.ipynb", "README.md"], [("segments", LA+":Layered / "+M+":SolutionMixin.calc_segments"), ("solution", M+":SolutionMixin.assemble_and_solve"), ("rasterization", M+":AnalysisMixin.rasterize_solution"), ("release rates", M+":AnalysisMixin.gdif/ginc"), ("outputs", M+":OutputMixin.get_*")])
prop("P42", "Results do not depend on the process that computes them",
 "The same experiment gives the same results under other interpreter options (-O, -OO, hash seeds, development mode), environments (time zone, locale, working folder, number of BLAS threads), process states (random seeds, print options, garbage collector, profiler, missing stdout), import orders, in forked processes and threads with a small stack, after other experiments, and from a copy of the package in another folder.",
 ["inputs", "configurations", "histories"], "all experiments, touchdown or not, and the listed ways to run a process",
 "Tests run in one process, one environment and one import order.",
 [M, E, T, LA, IN], [("solution", M+":SolutionMixin.assemble_and_solve"), ("outputs", M+":OutputMixin"), ("materials and profiles", T+":load_dummy_profile/bergfeld/tensile_strength_slab"), ("package", "weac/__init__.py")])
prop("P43", "Repeated use accumulates nothing",
 "However long a model, the material functions or the plots are used, and however many models are created, nothing grows with the number of requests: memory, the size of the model, the work done for the same request, live models and figures, open files, threads and containers of the package (caches of bounded size apart).",
 ["histories", "inputs"], "all long sequences of requests",
 "Tests make each request once.",
 [M, E, PL, T, LA], [("state", E+":Eigensystem.__init__"), ("touchdown state", M+":SlabContactMixin.set_touchdown_attributes"), ("solution", M+":SolutionMixin.assemble_and_solve"), ("figures", PL+":plot_data/save_plot"), ("profiles", T+":load_dummy_profile")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P))
