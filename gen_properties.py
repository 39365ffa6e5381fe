"""Writes properties.jsonl (kept as a script so that the list stays in one readable place)."""
import json
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["metku/" + f for f in files],
                          "mechanism": [{"name": n, "where": "metku/" + w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})


INP = ["inputs"]
p("C01", "Steel cross-section parts get the EN 1993-1-1 Table 5.2 class",
  "For every width-to-thickness ratio and every steel with fy from 235 to 960 MPa, the class (1 to 4) the library "
  "gives to an internal part (pure bending, pure compression, or bending with compression), to an outstand flange "
  "and to a circular tube is exactly the class of EN 1993-1-1 Table 5.2. The class is never better when the part "
  "is more slender or the steel stronger.",
  INP, "all c/t ratios, all fy in [235, 960] MPa, all stress distributions (alpha, psi) of Table 5.2",
  "The stable tests classify one or two fixed sections; the thresholds (33/38/42, 72/83/124, 396/456, 9/10/14, 50/70/90 "
  "times epsilon) and their order hold for a continuum of slendernesses.",
  ["eurocodes/en1993/en1993_1_1.py"],
  [("internal_part_in_compression", "eurocodes/en1993/en1993_1_1.py"),
   ("internal_part_comp_bend", "eurocodes/en1993/en1993_1_1.py"), ("CHS_class", "eurocodes/en1993/en1993_1_1.py")])
p("C02", "Steel section resistances follow EN 1993-1-1 chapter 6",
  "For every area, section modulus, shear area and yield strength, the tension, compression, net-section, bending and "
  "shear resistances of a steel section are the EN 1993-1-1 values (6.6), (6.7), (6.10), (6.13)-(6.15), (6.18), with the plastic modulus "
  "used in classes 1 and 2 and the elastic one in class 3. A section's utilisation ratios are the absolute values of "
  "the acting forces divided by these resistances.",
  INP, "all positive section properties, all yield strengths, all signs and sizes of N, V and M",
  "The tests compare the resistances of a handful of catalogue profiles in class 1.",
  ["eurocodes/en1993/en1993_1_1.py", "sections/steel/steel_section.py"],
  [("SteelSection.bending_resistance / compression_resistance / section_resistance", "sections/steel/steel_section.py"),
   ("tension_resistance ... shear_resistance", "eurocodes/en1993/en1993_1_1.py")])
p("C03", "Flexural buckling reduction factor is the EC3 curve: in (0,1], decreasing",
  "For every slenderness and every imperfection factor of curves a0 to d, the buckling reduction factor equals EN 1993-1-1 (6.49), "
  "lies in (0, 1], is 1 up to slenderness 0.2, and never increases when slenderness or imperfection grows; "
  "the buckling resistance therefore never exceeds the squash load or the Euler load.",
  INP, "all slendernesses in [0, 10], all imperfection factors in [0, 1]",
  "No test evaluates the curve; monotonicity and bounds are statements about pairs of real numbers.",
  ["eurocodes/en1993/en1993_1_1.py"],
  [("buckling_reduction_factor", "eurocodes/en1993/en1993_1_1.py"), ("slenderness, buckling_strength", "eurocodes/en1993/en1993_1_1.py")])
p("C04", "Beam-column interaction factors follow EN 1993-1-1 Annex B",
  "For every slenderness, axial utilisation, equivalent moment factor and section class, the interaction factors "
  "kyy, kyz, kzy, kzz equal EN 1993-1-1 Tables B.1 and B.2, and the equivalent uniform moment factor equals Table B.3 for every "
  "combination of end and mid-span moments and loading type. The equivalent uniform moment factor is independent of which member "
  "end is called first and of the sign convention of the moments, and lies in [0.4, 1].",
  INP, "all moment triples (M1, M2, Ms), both load types; all slendernesses, axial utilisations and classes",
  "No stable test covers Annex B; the tables are piecewise over ratios and signs.",
  ["eurocodes/en1993/en1993_1_1.py"],
  [("equivalent_moment_factor", "eurocodes/en1993/en1993_1_1.py"), ("kyy, kzy, kzz, kyz, beam_column_utility", "eurocodes/en1993/en1993_1_1.py")])
p("C05", "Steel member checks compose the EC3 formulas consistently",
  "For every member length, section, steel and internal-force distribution, the member's critical loads are pi^2 E I/(k L)^2, its "
  "slendernesses are sqrt(A fy/Ncr), its buckling resistance is the reduction factor of the section's buckling curve times A fy/gammaM1, and its section "
  "checks and buckling checks report the largest force-to-resistance ratio over all sections of the member.",
  INP, "all lengths, effective-length factors, section properties and force distributions",
  "One stable test evaluates the critical moment of one member.",
  ["structures/steel/steel_member.py"],
  [("SteelMember.ncrit, slenderness, buckling_strength", "structures/steel/steel_member.py"),
   ("SteelMember.check_section(s), check_buckling", "structures/steel/steel_member.py")])
p("C06", "Hollow-section geometry equals the exact geometry of the profile",
  "For every admissible height, width, wall thickness and corner radius, the area, second moments, section moduli, shear areas, torsion constant and "
  "surface area of rectangular and square hollow sections equal those of the EN 10210/10219 shape with rounded corners, and those of circular "
  "hollow sections equal the exact ring values. Exchanging height and width exchanges the y and z properties.",
  INP, "all dimensions with T < min(H, B)/4 and corner radii up to 3T",
  "Tests check a few catalogue profiles with loose tolerances.",
  ["sections/steel/RHS.py", "sections/steel/CHS.py"],
  [("RHS_area, RHS_second_moment, RHS_plastic_modulus, ...", "sections/steel/RHS.py"), ("CHS.__init__", "sections/steel/CHS.py")])
p("C07", "Rolled I-section properties agree with the shape's geometry",
  "For every admissible height, width, flange and web thickness and root radius, the properties of a rolled I section (area, "
  "shear areas, second moments, elastic and plastic moduli, torsion and warping constants, perimeter) equal the "
  "closed-form values of the doubly symmetric I shape with fillets, and the two independent implementations in the library give the same values.",
  INP, "all I-section dimensions with positive web depth and flange overhang",
  "Tests compare one or two catalogue profiles with table values.",
  ["sections/steel/ISection.py", "profiles/steel/isection_formulas.py", "profiles/steel/isections.py"],
  [("cross_section_properties", "sections/steel/ISection.py"), ("isection_formulas", "profiles/steel/isection_formulas.py")])
p("C08", "Welded I-section properties equal the plate-by-plate integrals",
  "For every mono- or doubly symmetric welded I section, area, elastic and plastic neutral axes, second moments, elastic and plastic moduli, "
  "torsion and warping constants and painted perimeter equal those of the three rectangles it is made of; the plastic neutral axis splits the area in "
  "half and the plastic modulus is at least the elastic one.",
  INP, "all plate dimensions, including sections whose plastic neutral axis lies in a flange",
  "Tests use one cross-section; the three neutral-axis cases are separate code.",
  ["sections/steel/wi.py"],
  [("WISection.second_moment, plastic_neutral_axis, plastic_section_modulus", "sections/steel/wi.py")])
p("C09", "A resized section equals a freshly built one",
  "After any sequence of assignments to the dimensions of a rectangular hollow section, custom I section or welded I section, every "
  "derived property equals that of a section newly constructed with the same dimensions; the same holds for a bolt whose "
  "size is reassigned.",
  ["histories", "inputs"], "all sequences of dimension assignments with admissible values",
  "Tests build each object once and never resize it; optimisation does nothing but resize.",
  ["sections/steel/RHS.py", "sections/steel/ISection.py", "sections/steel/wi.py", "eurocodes/en1993/en1993_1_8/en1993_1_8.py"],
  [("RHS.__setattr__ / update_properties", "sections/steel/RHS.py"), ("WISection.__getattribute__", "sections/steel/wi.py")])
p("C10", "Plate buckling follows EN 1993-1-5",
  "For every plate slenderness, stress ratio and geometry, the plate buckling coefficients, reduction factors, effective widths, "
  "shear buckling slenderness and resistance and the patch-loading resistance equal the EN 1993-1-5 expressions; plate "
  "reduction factors lie in (0, 1], the web's shear reduction factor in (0, eta], they do not increase with slenderness (but for the "
  "standard's own step at 1.08 with rigid end posts), and effective widths never exceed the compressed width.",
  INP, "all stress ratios psi in (-3, 1], all slendernesses, plate sizes and yield strengths",
  "Tests evaluate one welded section.",
  ["eurocodes/en1993/en1993_1_5.py"],
  [("buckling_factor_internal, reduction_factor_internal, effective_width_internal", "eurocodes/en1993/en1993_1_5.py"),
   ("shear_buckling_reduction_factor, transverse_force_resistance", "eurocodes/en1993/en1993_1_5.py")])
p("C11", "Steel at elevated temperature follows EN 1993-1-2",
  "For every temperature from 20 to 1200 degrees C, the reduction factors for yield strength, proportional limit, "
  "elastic modulus, bolts and stainless steel 1.4301 interpolate the EN 1993-1-2 tables linearly, are continuous, lie in [0, 1] and (but for k2%) never increase with temperature; "
  "thermal elongation, specific heat, conductivity and the stress-strain curve follow the standard's piecewise formulas.",
  INP, "all temperatures in [20, 1200] and all strains in [0, 0.2]",
  "No stable test covers fire design.",
  ["eurocodes/en1993/en1993_1_2.py"],
  [("reduce_property and the reduction tables", "eurocodes/en1993/en1993_1_2.py"), ("stress / thermal_* functions", "eurocodes/en1993/en1993_1_2.py")])
p("C12", "Bolts, welds and bolted joint components follow EN 1993-1-8",
  "For every bolt size and grade and for all plate thicknesses, strengths and distances, the shear, tension, bearing and punching resistances of bolts, the combined "
  "shear-tension check, block tearing and the full-strength fillet weld throats equal the EN 1993-1-8 expressions (Table 3.4, 3.10.2, 4.5); the T-stub resistances are the "
  "least of the three modes of Table 6.2 with the effective lengths of Tables 6.4-6.6 for single rows and groups, whatever is asked for first; the column web and beam "
  "components follow 6.2.6 with the shear reduction of Table 6.3; and an end plate joint's moment resistance limits the rows, from the top, by their groups and by the "
  "compression side, its initial stiffness follows 6.3.",
  INP, "all catalogue bolt sizes and grades, all plate thicknesses, strengths and distances, groups of two to four rows, joints of up to three rows",
  "No stable test covers connections.",
  ["eurocodes/en1993/en1993_1_8/en1993_1_8.py", "eurocodes/en1993/en1993_1_8/component_method.py", "structures/steel/end_plate_joint.py"],
  [("Bolt, bolt_*_resistance, block_tearing, full_strength_weld_*, BoltRow, BoltRowGroup, TStub*", "eurocodes/en1993/en1993_1_8/en1993_1_8.py"),
   ("min_coeff_w, col_web_*, beam_web_*, column_web_tension, new_alpha, find_alpha", "eurocodes/en1993/en1993_1_8/component_method.py"),
   ("EndPlateJoint.bending_resistance, V_wp_Rd, Sj_ini, zeq_and_keq", "structures/steel/end_plate_joint.py")])
p("C13", "Hollow-section joints, single and in trusses, follow EN 1993-1-8 chapter 7",
  "For every admissible geometry and steel, the chord-face, chord-shear, brace, punching and chord-side-wall resistances of K, N, Y, T and X joints of rectangular "
  "hollow sections equal the EN 1993-1-8 clause 7.5 expressions (with the reduction for high strength steel, face plate and chord-stress factor kn, which never exceeds 1); "
  "design() gives the force over the governing resistance for each brace (for Y, T and X joints interpolated between beta = 0.85 and 1) and for the chord with the larger of its "
  "two forces; gap and eccentricity of a joint correspond to each other; the forces in the gap satisfy equilibrium.",
  INP, "all chord and brace sizes in the validity range, all angles and chord forces",
  "No stable test covers joints.",
  ["eurocodes/en1993/en1993_1_8/rhs_joints.py", "raami/raami_plane_truss.py"],
  [("RHSJoint, RHSKGapJoint, RHSYJoint, RHSXJoint, eccentricity", "eurocodes/en1993/en1993_1_8/rhs_joints.py"), ("TubularJoint, TubularYJoint, TubularKGapJoint", "raami/raami_plane_truss.py")])
p("C14", "Beam, truss and spring elements obey statics and symmetry",
  "For every element length, orientation and section, the stiffness matrix of each finite element is symmetric, gives no force under rigid-body "
  "motion, and its end forces are in equilibrium for every displacement; for the Euler-Bernoulli beam it is the exact beam "
  "stiffness, and the coordinate transformation is orthogonal.",
  INP, "all node coordinates, areas, moments of inertia and moduli, all displacement vectors",
  "The framefem test file does not even parse; equilibrium is a statement about all displacement vectors.",
  ["framefem/elements/ebbeam.py", "framefem/elements/rod.py", "framefem/elements/springs.py", "framefem/elements/eb_semi_rigid_beam.py"],
  [("EBBeam.local_stiffness_matrix, transformation_matrix", "framefem/elements/ebbeam.py"), ("Rod.stiffness_matrix", "framefem/elements/rod.py")])
p("C15", "Element load vectors are statically equivalent to the loads",
  "For every linearly varying line load in global or local axes on a beam element, the equivalent nodal forces have the same resultant force and moment "
  "as the distributed load and are the exact fixed-end forces; they scale linearly with the load and its factor, "
  "several loads on one element add up, and the reported internal forces are in equilibrium with them.",
  ["inputs", "histories"], "all element geometries, load intensities, load factors and numbers of loads per element",
  "No stable test runs the finite-element code.",
  ["framefem/elements/ebbeam.py", "framefem/framefem.py"],
  [("EBBeam.equivalent_nodal_loads", "framefem/elements/ebbeam.py"), ("LineLoad.load_and_dofs", "framefem/framefem.py")])
p("C16", "The frame analysis solves equilibrium and respects supports",
  "For every stable plane frame or truss model, degrees of freedom are numbered bijectively, the global matrix and load vector are the sums of the element "
  "and load contributions, supported displacements are exactly zero, and the computed displacements satisfy K u = p at "
  "every free degree of freedom, for either way of imposing the supports.",
  ["inputs", "configurations"], "all models built from nodes, elements, supports and loads",
  "No stable test runs the finite-element code; the statement quantifies over models.",
  ["framefem/framefem.py"],
  [("FrameFEM.nodal_dofs, global_stiffness_matrix, global_load_vector, linear_statics", "framefem/framefem.py")])
p("C17", "Design variables write what they mean and stay within bounds",
  "Substituting a value into a design variable sets every target property to that value times the variable's scaling (or the catalogue entry it indexes) "
  "and changes nothing else; locked variables never change; substituting a design vector into a problem clips each entry to the bounds of its own "
  "unlocked variable and assigns it to that one, and random or neighbouring designs are admissible.",
  ["inputs", "histories"], "all values, bounds, target lists, scalings and sequences of substitutions",
  "No stable test touches the optimisation core.",
  ["optimization/variables.py", "optimization/structopt.py"],
  [("Variable.substitute and subclasses", "optimization/variables.py"), ("OptimizationProblem.substitute_variables", "optimization/structopt.py")])
p("C18", "Constraints, objectives and feasibility mean what they state",
  "For every design, a linear constraint evaluates to a.x - b and a non-linear constraint to its function value at the whole design (locked variables "
  "included), with the structure, and its structural analyses where required, brought to that design first; a problem reports a design feasible exactly when every "
  "constraint holds in its sense within the tolerance; an objective to be maximised is negated exactly once; penalty functions are zero exactly where constraints "
  "and bounds hold and positive elsewhere, multipliers are updated each from its own constraint or bound, and linearisation returns values, rows and right-hand sides of the "
  "functions at the point and leaves the design there.",
  ["inputs", "histories"], "all coefficient vectors, right-hand sides, constraint types, designs, tolerances and sequences of evaluations",
  "No stable test touches the optimisation core.",
  ["optimization/constraints.py", "optimization/objective.py", "optimization/structopt.py"],
  [("LinearConstraint.__call__, NonLinearConstraint.__call__", "optimization/constraints.py"), ("OptimizationProblem.feasible, eval_cons, linearize, penalty functions", "optimization/structopt.py")])
p("C19", "Convex approximations match value and slope at the expansion point",
  "For every expansion point, function value, gradient and asymptotes, the CONLIN and MMA approximations equal the tangent plus a remainder that vanishes "
  "with its derivative at the expansion point and are convex (between the asymptotes); asymptotes and move limits enclose the iterate and stay within the variable bounds; "
  "an approximated problem keeps linear constraints, approximates the others at the design, and leaves the original problem as it was; "
  "finite-difference gradients of linear functions are exact.",
  INP, "all expansion points, values, gradients and moving asymptotes",
  "No stable test covers the approximations.",
  ["optimization/opt_functions.py", "optimization/structopt.py", "optimization/solvers/mma.py"],
  [("conlin_fun, mma_fun, MMAFunction, NumGrad", "optimization/opt_functions.py"), ("OptimizationProblem.conlin, mma", "optimization/structopt.py"), ("MMAProblem, MMA.take_action", "optimization/solvers/mma.py")])
p("C20", "Load combinations apply the EN 1990 factors",
  "In every frame load combination, permanent loads are multiplied by the permanent factor (1.15 ULS, 1.0 SLS), the leading variable load (the first variable load case "
  "that has loads) by the variable factor (1.5, 1.0) and every other variable load additionally by its combination factor (0.7 imposed and snow, 0.6 wind), once and on top of "
  "the load's own factor, without modifying the original load cases, however often the combination is repeated; self-weight is counted once, and loads reach the FE model with "
  "their factor on every element they cover, two-zone loads and truss zone loads with each zone's value on its own part. The EN 1991 combiners select the governing combination of EN 1990 (STR, characteristic, frequent, quasi-permanent, accidental) and report for every load "
  "identifier and direction the factored sum of its loads, each rounded to two decimals.",
  ["inputs", "histories"], "all sets of load cases, load types, values, consequence classes and repeated combinations",
  "No stable test combines loads.",
  ["raami/frame_loads.py", "eurocodes/en1991/en1991.py"],
  [("Load.factored, LoadCase.combine, LoadCombination.combine_loads", "raami/frame_loads.py"), ("ULSCombiner, SLSCombiner", "eurocodes/en1991/en1991.py")])
p("C21", "Wind pressure follows EN 1991-1-4",
  "For every terrain category, height and basic velocity, the mean velocity, turbulence intensity and peak velocity pressure equal the EN 1991-1-4 "
  "expressions (with the national kr); mean velocity and peak pressure never decrease with height. The wall zones of a rectangular building cover its "
  "side exactly, with the Table 7.1 coefficients interpolated in h/d and, below 10 m2, in the area; flat roof zones (sharp eaves) cover the roof with the Table 7.2 "
  "coefficients; monopitch roof coefficients for wind up and down the slope are those of Table 7.3a, interpolated in the angle.",
  INP, "all heights, categories, velocities and building proportions",
  "No stable test covers wind loads.",
  ["eurocodes/en1991/en1991_1_4.py"],
  [("terrain_roughness, peak_velocity_pressure, rect_building_wall_pressure, flat_roof_pressure, ExternalPressureMonoRoof", "eurocodes/en1991/en1991_1_4.py")])
p("C22", "Timber design values and sections follow EN 1995",
  "For every timber material, service class, load duration and section: k_mod, k_def and gamma_M are the EN 1995-1-1 table values; design strengths are k_mod*f_k/gamma_M with the "
  "size factors k_h (and k_l) where the code prescribes them; charring rates, charring depths (unprotected and behind gypsum or wood cladding, with the doubled rate "
  "after failure of the protection and the 25 mm rule) and the zero-strength layer follow EN 1995-1-2; rectangular, single- and double-tapered sections reduced by charring "
  "have the area and modulus of the remaining rectangle; and the residual section never grows with fire time.",
  INP, "all materials of the library, all dimensions, exposure times, service classes and load durations",
  "No stable test covers timber.",
  ["eurocodes/en1995/en1995_1_1.py", "eurocodes/en1995/en1995_1_2.py", "eurocodes/en1995/fire_protection.py", "sections/timber/timber_section.py", "structures/timber/timber_member.py"],
  [("kmod, get_gammaM, kdef", "eurocodes/en1995/en1995_1_1.py"), ("charring_speed, d_char_n, d_char_0", "eurocodes/en1995/en1995_1_2.py"),
   ("FireProtection classes", "eurocodes/en1995/fire_protection.py"), ("TimberSection and tapered sections", "sections/timber/timber_section.py"), ("TimberMember strengths", "structures/timber/timber_member.py")])
p("C23", "Weights and workshop costs add up",
  "Every cost centre's rates are the labour, equipment (annuity), maintenance and real-estate costs per minute of its data; whatever was made in it before, the cost of a piece is "
  "its own processing and set-up minutes times the rates divided by the utilisation, plus productive minutes times consumption and energy, plus consumables, with times and "
  "consumption from the tables for blasting, cutting, painting, welding and sawing; longer or larger pieces, larger welds and thicker walls (within the range of the tables) never cost less. "
  "Plates, fin-plate joints, truss members, welded joints and trusses order exactly the work their geometry needs and cost the sum of it; member, frame and truss weights are area times length times density, summed.",
  INP, "all lengths, thicknesses, areas, rates and earlier uses of a centre",
  "No stable test covers cost.",
  ["cost/workshop.py", "cost/cost_data.py", "structures/steel/plates.py", "structures/steel/fin_plate_joint.py", "raami/raami_plane_truss.py", "raami/frame_member.py"],
  [("CostCentre and its subclasses, annual_cost, Workshop", "cost/workshop.py"), ("RectPlate.cost", "structures/steel/plates.py"), ("FinPlateJoint.cost", "structures/steel/fin_plate_joint.py"),
   ("PlaneTruss.cost, TrussBrace.sawing_cost, TubularJoint.cost", "raami/raami_plane_truss.py"), ("FrameMember.weight", "raami/frame_member.py")])
p("C24", "Optimisation solvers solve the problem they are given and report the best feasible design",
  "Iterative solvers return the best feasible design they visited and its value, whatever the order of the visits; what they log are the designs visited and the values the problem has there, "
  "and the starting point given is left alone; they stop before the last iteration exactly when the design is feasible and the change of design or objective is within the tolerance; steps keep every variable within its bounds. "
  "The subproblems of SLP and MISLP and the calls to the linear, SLSQP and trust-region solvers hold exactly the problem's (linearised) objective, bounds and constraints with their senses, and discrete variables get values of their lists. "
  "In branch and bound, tightening of bounds and branching never cut off an admissible design that could be better than the incumbent, branches leave the parent alone and exclude its relaxed value, only feasible designs with better values become incumbents, "
  "and a node is dropped only when it is infeasible, cannot be better, or is solved. "
  "Particles move by their velocity within bounds and lists and the swarm keeps its best feasible design; discrete neighbourhood search moves only to feasible, better neighbours within the bounds and ends when there is none; "
  "the fitness of the genetic algorithm is the objective plus the penalty of actual violations; and the second phase of the two-phase solver starts from the nearest listed values.",
  INP + ["histories"], "all objectives and constraints (as unknown functions), bounds, senses, starting points and answers of the external solvers; one or two variables per problem in most contracts",
  "Tests never run a solver.",
  ["optimization/solvers/optsolver.py", "optimization/solvers/slp.py", "optimization/solvers/mislp.py", "optimization/solvers/lp.py", "optimization/solvers/slsqp.py", "optimization/solvers/trust_region.py", "optimization/solvers/bnb.py", "optimization/solvers/pso.py", "optimization/solvers/vns.py", "optimization/solvers/ga.py", "optimization/solvers/two_phase.py"],
  [("OptSolver.solve, step, feasible, stopping_criterion", "optimization/solvers/optsolver.py"), ("SLP.take_action", "optimization/solvers/slp.py"), ("MISLP.take_action", "optimization/solvers/mislp.py"),
   ("LP", "optimization/solvers/lp.py"), ("SLSQP", "optimization/solvers/slsqp.py"), ("TrustRegionConstr", "optimization/solvers/trust_region.py"),
   ("BnB, BnBNode", "optimization/solvers/bnb.py"), ("PSO, Particle", "optimization/solvers/pso.py"), ("DiscreteVNS", "optimization/solvers/vns.py"), ("GA.eval_individual", "optimization/solvers/ga.py"),
   ("TwoPhase.discretize", "optimization/solvers/two_phase.py")])
p("C25", "Exported models reproduce the frame",
  "The Robot, Abaqus and table exports of a frame describe the same nodes, members, sections, supports and loads as the model.",
  INP, "all frames",
  "Tests never export.",
  ["raami/raami.py", "frame2d/frame2d.py"],
  [("to_robot, to_abaqus", "raami/raami.py")])
p("C26", "Timber member checks follow EN 1995",
  "For every timber member: stresses at each section are N/A, M/W, 3V/2A and the torsional stress of the rectangle (within 3 % of theory, whichever side is larger), taken where the forces act; "
  "the axial, shear, bending, torsion and combined utilizations are EN 1995-1-1 6.1-6.2 for forces of either sign, never negative, never smaller than the parts they combine; the shear of beams near supports is that of the last section within the reach of the support; "
  "effective lengths follow the supports of the ends and the lateral supports, slenderness, k_c (6.23-6.28), lateral-torsional buckling (6.30-6.35) and bracing forces (9.34-9.37) follow the code; the design utilization is the worst over all checks and sections; "
  "tapered, curved and pitched-cambered beams use the apex, volume and tapered-edge factors of 6.4 in consistent units.",
  INP, "all dimensions, strengths, lengths and forces of either sign",
  "No stable test covers timber members.",
  ["structures/timber/timber_member.py"],
  [("TimberMember stresses, checks, buckling, bracing and apex factors", "structures/timber/timber_member.py"), ("TimberSection torsion constants", "sections/timber/timber_section.py")])
p("C27", "Frames are modelled, read and designed as described",
  "For every plane frame the finite element model has one node per frame node and equally spaced nodes along each member, one chain of elements per member with the member's current section and material (beam elements for beams, columns and chords, rods for bars and braces), hinges released exactly at hinged ends, supports holding exactly their degrees of freedom and loads in their own cases; a model made again carries nothing over from the old one; moving a node moves everything at it, and changing a section (of a member, a group, a multi-span member or a symmetry pair) changes all its elements and its designed member. "
  "Member forces are those of its elements in the order of its axis; extreme forces are the least and the largest over places and cases with the forces of the same place; every section designed gets the forces of its own place; utilizations are kept per load case, groups and multi-span members take the worst, the resistance check covers all cases. Self-weight added and removed leaves no trace; the optimum design is the first listed profile that meets width, class, slenderness and utilization, and frame optimization analyses again until nothing changes; symmetry pairs exactly the mirrored nodes and members; a frame written for Robot carries its data.",
  INP, "all positions, loads, sections, results of the analysis and orders of changes",
  "Stable tests never build a frame with the raami package.",
  ["raami/raami.py", "raami/frame_member.py", "raami/frame_node.py", "raami/frame_supports.py", "raami/frame_loads.py"],
  [("generate_fem, generate_elements, add, symmetry, optimize_members, to_robot", "raami/raami.py"), ("FrameMember, SteelFrameMember, MultiSpanSteelMember, MemberGroup", "raami/frame_member.py")])
p("C28", "Roof trusses are generated, jointed, loaded and modelled as designed",
  "For every symmetric sloped roof truss, two of the heights and the slope give the third. Every topology (K, N, KT; bottom chord shorter or not; first diagonal up or down; with edge verticals or not) has its top nodes on the roof lines, its bottom nodes on the bottom line, mirrored, in order and with a node at the ridge; chords run from end to end, the braces divide the truss into triangles (statically determinate), and every member has its own section. "
  "There is one joint for every node with braces, of the kind of their number, that knows its members, their sides and whether its chord is bent; hinge and roller are at the ends of the chord that reaches the supports; every point of the chord gets the load of its zone in its case. "
  "At a K joint on a straight or bent chord, moved in any way, the eccentric point, the points where the braces meet the chord face, the nearest points on the chord centre lines, the gap and the brace angles are those of the drawn geometry, and a symmetric pair mirrors each other. Finite element models without eccentricities, by EN 1993 and with eccentricity elements connect every member with its joints, carry all the loads, give mirrored forces and are the same when generated again; the shear force in the gap is that of the gap element.",
  INP, "all sizes, slopes, places of the joints, loads and orders of modelling",
  "Stable tests never build a truss with the raami package.",
  ["raami/raami_plane_truss.py", "raami/frame_loads.py"],
  [("SlopedTruss, generate_topology, generate_joints, generate_supports, generate_uniform_load", "raami/raami_plane_truss.py"), ("TubularKGapJoint, TubularYJoint, TrussBrace", "raami/raami_plane_truss.py")])
with open(__import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
