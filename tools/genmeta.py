"""Writes properties.jsonl and MANIFEST.json from the table below, for the checks that exist."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import glob

SIM, LAY, LAT, GEO = "nannos/simulation.py", "nannos/layers.py", "nannos/lattice.py", "nannos/geometry.py"
EXC, FFT, TAN, JON = "nannos/excitation.py", "nannos/formulations/fft.py", "nannos/formulations/tangent.py", "nannos/formulations/jones.py"
INI, OPT, SAM, PAR, PLO, HEL = ("nannos/__init__.py", "nannos/optimize.py", "nannos/sample.py", "nannos/parallel.py",
                                "nannos/plot.py", "nannos/utils/helpers.py")
I, H, C = "inputs", "histories", "configurations"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note))


PBT = "property-based testing (Hypothesis, shrinking): "
REF = "Assumes the independent solver nnv/ref.py; "
EXPL = "Generated-input search, no proof; numpy, scipy, autograd and torch backends. "

prop("C01", "Efficiencies solve the stated diffraction problem",
     "For every grating (1D or 2D lattice of any shape, any stack of uniform and patterned isotropic layers, any wavelength, incidence and polarization, any set of harmonics), the reflection and transmission efficiencies of every diffraction order, and their sums, are those of the Fourier modal equations of exactly that stack truncated to exactly those harmonics. For mono-periodic gratings this also holds for the 'tangent' formulation with its inverse factorization rule.",
     [I], "all lattices, stacks, permittivity maps, harmonics and incidences with a well-conditioned eigenbasis",
     "the tests solve a handful of fixed structures and mostly check that R+T is close to 1, which most wrong solvers also satisfy",
     [SIM, LAY, LAT, EXC, FFT],
     [("Toeplitz matrices, eigenproblem, S-matrix recursion", SIM + " build_matrix, get_S_matrix, diffraction_efficiencies"), ("modes of a layer", LAY + " solve_uniform, solve_eigenproblem"), ("incident wave", EXC)],
     ["Simulation.diffraction_efficiencies"], "differential testing against an independent reference solver",
     REF + "agreement to 1e-7 per order on every generated problem.")
prop("C02", "Energy is conserved and absorption is a non-negative balance",
     "With lossless layers R + T = 1 for every structure, truncation and incidence, in the 'original' formulation and in the 1D 'tangent' formulation. With absorbing layers 0 <= R, T and R + T <= 1, and the power entering every layer through one face minus the power leaving it through the other equals what it absorbs, which is zero for a lossless layer and never negative.",
     [I], "all lossless and passive stacks, lattices, truncations and incidences",
     "the tests assert it for a few lossless structures at one or two incidences, and never with absorption",
     [SIM, LAY], [("power flow", SIM + " get_z_poynting_flux, diffraction_efficiencies"), ("choice of the square root", LAY + " solve_uniform, solve_eigenproblem")],
     ["Simulation.diffraction_efficiencies", "Simulation.get_field_fourier"], "invariant over generated structures",
     EXPL + "R+T to 1e-7; interface fluxes evaluated from returned fields.")
prop("C03", "Planar stacks give the Fresnel and thin-film formulas",
     "A stack of uniform layers gives exactly the multilayer Fresnel reflection and transmission (efficiencies and complex s/p amplitudes) for dielectrics, absorbers and metals, below and above the critical angle, whatever the lattice, number of harmonics, or whether a layer is given as a number or as a constant map, and in every formulation. Nothing is diffracted into other orders.",
     [I], "all planar stacks, incidences and polarizations, lattices and numbers of harmonics",
     "the tests compare a few slabs at a few angles",
     [SIM, LAY, EXC], [("uniform layers", LAY + " solve_uniform"), ("amplitudes of the incident wave", EXC), ("complex orders", SIM + " _get_complex_orders")],
     ["Simulation.diffraction_efficiencies"], "closed-form oracle (recursive Airy formula)", EXPL + "Independent closed form, tolerance 1e-8.")
prop("C04", "Equivalent descriptions of a stack give the same answer",
     "Splitting a layer in two, inserting a zero-thickness layer, renaming layers, building repeated layers as copies (or copies of copies, placed anywhere in the stack, renamed or with their thickness changed) and changing the thickness of the outer media never changes the diffraction efficiencies.",
     [I, "programs"], "all stacks and all sequences of rewritings of the layer list",
     "the tests use one copied layer in one position",
     [SIM, LAY], [("layer copies", LAY + " copy; " + SIM + " solve, build_matrix"), ("S-matrix recursion", SIM + " get_S_matrix")],
     ["Layer.copy", "Simulation.diffraction_efficiencies"], "metamorphic relations over sequences of rewritings", EXPL + "Compared with the original description, 1e-8.")
prop("C05", "Scattering matrices compose and do not depend on query order",
     "The scattering matrix of layers i..k is the star product of those of i..j and j..k for every split, whatever matrices, fields or efficiencies were requested before and in which order. For lossless stacks the full matrix conserves the power of any combination of waves incoming from both sides.",
     [I, H], "all stacks, sub-ranges and sequences of queries", "the tests request the full matrix once per simulation",
     [SIM], [("recursion and cache of partial products", SIM + " get_S_matrix")], ["Simulation.get_S_matrix"],
     "stateful query sequences against a composition model", EXPL + "Star product written independently.")
prop("C06", "Any layer thickness gives finite and right results",
     "Results stay finite, passive and accurate for layer thicknesses from zero to a million periods: evanescent waves never overflow, what lies behind an opaque absorbing layer has no influence, and a layer whose thickness tends to zero has no effect.",
     [I], "all thicknesses (12 orders of magnitude) of all layers of all generated stacks", "the tests use thicknesses of the order of the wavelength",
     [SIM, LAY], [("decaying exponentials only", SIM + " phasor, get_S_matrix"), ("sign of the eigenvalues", LAY + " solve_eigenproblem")],
     ["Simulation.diffraction_efficiencies", "Simulation.get_field_fourier"], "reference solver and limits over log-uniform thicknesses",
     EXPL + "Tolerances grow with phase x rounding error.")
prop("C07", "Geometric symmetries, rescaling and changes of cell are exact",
     "Efficiencies of every order are unchanged (up to the relabelling of orders) by: scaling all lengths, scaling all permittivities with the squared inverse wavelength, rotating or mirroring structure (tensors included) and incidence, shifting the pattern by whole pixels, exchanging or reversing lattice vectors, another primitive cell, a supercell, describing a 1D grating as a 2D one, and adding full turns to the angles.",
     [I], "all structures and all sequences of these transformations", "no test compares two descriptions of one physical problem",
     [SIM, LAT, EXC, LAY], [("reciprocal vectors and harmonics", LAT), ("wavevectors", SIM + " __init__"), ("incident field", EXC)],
     ["Simulation.diffraction_efficiencies"], "metamorphic relations", EXPL + "Per-order comparison after relabelling, 1e-7.")
prop("C08", "Diffraction channels are reciprocal",
     "For every stack of reciprocal media, lossy or not, the s/p amplitudes from one propagating channel to another (reflected or transmitted) have the same moduli as those of the time-reversed pair of channels, with the efficiencies of the reversed problem computed from the reversed stack.",
     [I], "all stacks of scalar permittivities, incidences and propagating orders", "never tested",
     [SIM, LAY, EXC], [("normalization of amplitudes", SIM + " _get_complex_orders"), ("interfaces", SIM + " _build_Imatrix")],
     ["Simulation.diffraction_efficiencies"], "metamorphic relation (Lorentz reciprocity)", EXPL + "2x2 polarization matrices compared, 1e-6.")
prop("C09", "The response is linear in the incident polarization",
     "For every structure and formulation, complex amplitudes and fields at any polarization angle are the cosine/sine combination of those at 0 (p) and 90 degrees (s), and efficiencies follow the corresponding quadratic form.",
     [I], "all structures, formulations, incidences and polarization angles", "tests use one or two polarization angles",
     [EXC, SIM], [("polarization", EXC)], ["Simulation.diffraction_efficiencies", "Simulation.get_field_fourier"],
     "metamorphic relation (superposition)", EXPL)
prop("C10", "Every diffraction order is reported under its own label",
     "Efficiencies and complex amplitudes come one per retained harmonic; access by index, by pair, by integer in 1D or through the nested dictionaries returns the entry of that very order, reflection and transmission never mixed, and the total is the sum over orders. The squared modulus of the complex amplitude of a propagating order is its efficiency, evanescent orders carry no power, and amplitude vectors are transverse, whatever the layer names.",
     [I, H], "all structures, layer names, orders and sequences of queries", "tests look at the zeroth order and totals",
     [SIM], [("order bookkeeping", SIM + " get_order_index, harmidx_dict"), ("complex amplitudes", SIM + " _get_complex_orders")],
     ["Simulation.diffraction_efficiencies", "Simulation.get_order", "Simulation.get_order_index"], "model-based queries plus reference solver", EXPL)
prop("C11", "Fields in every layer are right and continuous",
     "The field coefficients returned for any layer (designated by index, negative index, name or object) at any depth or list of depths are those of the diffraction problem: tangential and normal-flux components are continuous across every interface, the first layer holds the unit incident wave plus outgoing waves, and the last one outgoing waves only.",
     [I, H], "all structures, layers, depths and sequences of field queries", "tests only call the field functions",
     [SIM, LAY], [("amplitudes inside the stack", SIM + " _solve_int, _translate_amplitudes, get_field_fourier"), ("layer lookup", LAY + " _get_layer")],
     ["Simulation.get_field_fourier", "Simulation.get_field_grid"], "reference solver and interface conditions", REF + "1e-7 relative to the field scale.")
prop("C12", "Fields obey Maxwell's equations and maps are their Fourier sums",
     "In every layer the returned field coefficients satisfy the six curl equations order by order with the layer's permittivity. Real-space maps of E and H, for any layer, depths, shape, field and component selection, are exactly the Fourier sums of those coefficients at the grid points.",
     [I], "all structures, layers, depths, map shapes and component selections", "tests check shapes of maps only",
     [SIM, FFT], [("field reconstruction", SIM + " get_field_fourier, get_field_grid, get_ifft_amplitudes")],
     ["Simulation.get_field_fourier", "Simulation.get_field_grid", "Simulation.get_Efield_grid", "Simulation.get_Hfield_grid"],
     "invariant (curl residuals) and explicit Fourier sums", EXPL + "Derivatives along z by a sixth-order stencil.")
prop("C13", "Power flow and Maxwell stress follow from the fields",
     "The power carried by given forward and backward mode amplitudes, and the integrals of the z components of the Maxwell stress tensor at any depth of any layer (uniform or patterned, scalar or tensor, in every formulation), are the ones their definitions give on the fields. The stress does not depend on depth inside a uniform lossless layer and balances the momentum of the incident and reflected waves.",
     [I], "all structures, layers, depths and mode amplitudes", "tests only call them",
     [SIM], [("flux", SIM + " get_z_poynting_flux"), ("stress", SIM + " get_z_stress_tensor_integral")],
     ["Simulation.get_z_poynting_flux", "Simulation.get_z_stress_tensor_integral"], "definitions evaluated on reference fields", REF)
prop("C14", "The retained harmonics are the documented set",
     "For every lattice and number of harmonics, circular truncation keeps complete shells of the shortest reciprocal vectors (fewer than requested, the zeroth always included), parallelogrammic truncation the largest centred odd square block, and 1D truncation a centred range; user-given harmonics are kept as they are. Sets are distinct, symmetric under inversion, nested when the number grows, and do not depend on rotation or scale of the lattice.",
     [I], "all lattices (shape, orientation, scale), numbers of harmonics and truncations", "tests use square and hexagonal unit lattices",
     [LAT, SIM], [("truncations", LAT + " _circular_truncation, _parallelogramic_truncation, _one_dim_truncation")],
     ["Lattice.get_harmonics", "Simulation.harmonics"], "independent specification of the set", EXPL)
prop("C15", "Lattice geometry: reciprocal vectors, area, grids",
     "For every lattice, the reciprocal vectors are dual to the lattice vectors (2 pi), the area is the positive area of the cell (the period in 1D), the coordinate map sends unit-cell coordinates to the corresponding linear combination of lattice vectors, and the grids and constant arrays have the requested discretization and values.",
     [I], "all lattice vectors, discretizations and points", "tests build two lattices",
     [LAT], [("geometry", LAT + " matrix, reciprocal, area, grid, transform")], ["Lattice.reciprocal", "Lattice.area", "Lattice.grid", "Lattice.transform"],
     "definitions re-evaluated on generated lattices", EXPL)
prop("C16", "Shape masks are the grid points inside the shape",
     "For every lattice, discretization and shape (circle, ellipse, square, rectangle, polygon, arbitrary geometry with holes or several parts, stripe, with rotation and any position, partly or wholly outside the cell), the mask is true exactly at the grid points of the cell lying inside the shape.",
     [I], "all lattices, discretizations, shapes, positions and rotations", "tests draw one shape of each kind on one lattice",
     [GEO, LAT], [("recursive subdivision", GEO + " shape_mask"), ("change of coordinates", GEO + " geometry_mask")],
     ["Lattice.circle", "Lattice.ellipse", "Lattice.rectangle", "Lattice.square", "Lattice.polygon", "Lattice.geometry_mask", "Lattice.stripe"],
     "closed-form inside test at every grid point", EXPL + "Points within 1e-7 of an outline are left out (circles: the polygonal approximation).")
prop("C17", "Fourier transforms and reconstructed permittivity are exact",
     "The forward and inverse transforms are normalised Fourier series (mean value as zeroth coefficient, exact round trip, shift theorem) for any array size, pair of axes and padding. The permittivity reported for a layer is the Fourier series of its map restricted to the retained harmonics, before or after solving, and synthesis of fields from coefficients follows the same convention.",
     [I], "all array shapes and contents, layers and harmonics", "tests transform one array",
     [FFT, SIM], [("transforms", FFT), ("reconstruction", SIM + " get_epsilon, get_ifft")], ["Simulation.get_epsilon", "Simulation.get_ifft"],
     "explicit DFT sums", EXPL)
prop("C18", "Vector formulations apply the factorization rule of their field",
     "In the 'tangent', 'pol' and 'jones' formulations of bi-periodic gratings, the result is that of the modal equations whose permittivity operator uses the direct rule along the (user-given or automatic, real or Jones) tangential field and the inverse rule across it; magnitude and sign of a real field do not matter. A grating invariant along one axis gives the result of the one-dimensional inverse rule for either axis.",
     [I, C], "all structures, fields, formulations and kinds of automatic field", "tests check that R+T is near 1 for one disk",
     [SIM, TAN, JON, LAY], [("projection", SIM + " _get_Peps, _get_nu_hat_inv"), ("choice of the field", LAY + " get_tangent_field")],
     ["Simulation.diffraction_efficiencies", "Simulation.get_field_fourier"], "differential testing against the reference solver", REF + "isotropic layers.")
prop("C19", "Tangential and Jones fields follow the outlines",
     "For any permittivity map the automatic tangential field is real, finite, of the map's shape, of unit length everywhere or of unit largest length as requested, unchanged by a positive gain (and, for the 'fft' kind, an offset) of the map, covariant when the axes are exchanged, and directed along stripes and closed outlines with one sense of rotation. The Jones field of a real field is its documented closed form of unit length; layers give the field of the kind requested, a user-given field is used as it is and uniform layers have none.",
     [I], "all permittivity maps (sizes 6-140, unequal sides), both kinds of field, all numbers of harmonics", "tests compute one field and look at nothing",
     [TAN, JON, LAY], [("fields", TAN + " _get_tangent_field_fft, _get_tangent_field_min"), ("Jones field", JON)],
     ["nannos.formulations.tangent.get_tangent_field", "nannos.formulations.jones.get_jones_field", "Layer.get_tangent_field"],
     "metamorphic relations and closed forms", EXPL + "Tangency is judged on the pixel grid.")
prop("C20", "Tensor permittivity layers give the anisotropic solution",
     "A patterned layer with a tensor permittivity (any in-plane block, z as a principal axis) gives the efficiencies and fields of the anisotropic modal equations: with the direct rule in the 'original' formulation, and with the inverse rule across the tangential field (x for a 1D grating) in 'tangent', 'pol' and 'jones', for maps of any size. A tensor proportional to the identity gives the scalar result in every formulation, Hermitian tensors conserve energy, and a birefringent slab follows the ordinary and extraordinary closed forms.",
     [I], "all tensor maps, structures, incidences", "tests only run one constant diagonal tensor",
     [SIM, LAY, HEL], [("transverse block", SIM + " _get_toeplitz_matrix, build_matrix"), ("detection of tensors", HEL + " is_anisotropic, is_uniform")],
     ["Simulation.diffraction_efficiencies", "Simulation.get_field_fourier"], "reference solver, invariants and closed form", REF)
prop("C21", "All numerical backends give the same results",
     "Lattices, masks, harmonics, efficiencies, complex amplitudes, fields, tangential fields and optimization helpers agree between the numpy, scipy, autograd, torch and jax backends for every input, order by order.",
     [I, C], "all structures, queries and pairs of backends", "the tests run the same assertions per backend without comparing values",
     [INI, SIM, LAT, LAY, GEO, FFT], [("backend switch", INI), ("backend specific branches", LAT + ", " + FFT + ", " + HEL)], ["public API"],
     "differential testing between backends", "One process per backend, compared with numpy; jax has fewer cases (compilation).")
prop("C22", "Gradients are the derivatives of the computed quantities",
     "With the differentiable backends, gradients of efficiencies and other real outputs with respect to wavelength, angles, thicknesses, permittivities and permittivity maps, in every formulation with the 'fft' tangential field, equal the derivatives of the computed value. Optimization helpers are differentiated exactly too.",
     [I, C], "all structures, parameters, formulations; autograd and torch", "the tests only check that a gradient is returned",
     [INI, SIM, LAY, EXC, TAN], [("gradient wrapper", INI + " grad"), ("differentiable operations", SIM + ", " + LAY)], ["nannos.grad"],
     "metamorphic relation against finite differences", "Finite differences of fourth order; tolerance 1e-5 relative.")
prop("C23", "Configuration switches select exactly what they say",
     "After any sequence of backend, precision, device and log-level switches (valid or not), in any order and from any environment default, the reported backend, device and types are the last valid ones requested, messages at or above the last log level are written exactly once and no other, and computations give the same result as in a fresh process with that configuration, to the precision selected.",
     [H, C], "all sequences of switches, environment variables, and structures", "tests switch once between two backends",
     [INI, HEL], [("global flags and module reload", INI + " set_backend, use_gpu, use_32_bit, _reload_package")], ["nannos.set_backend", "nannos.use_32_bit", "nannos.use_gpu", "nannos.get_types"],
     "stateful testing against a model of the configuration", "Each sequence runs in its own process; no GPU here, so only the fall-back to the CPU is explored.")
prop("C24", "Results do not depend on the history of a simulation",
     "Queries (efficiencies, orders, fields, maps, matrices, stress, permittivity) return the same values whatever was asked before, in any order and any number of times, and leave inputs unmodified; solving again, resetting, changing a thickness followed by a reset of the matrices, and reusing lattice, excitation or layers in a later simulation give what a freshly built simulation gives.",
     [H], "all sequences of queries, resets and modifications on all structures", "tests make one query per simulation",
     [SIM, LAY], [("solved flag and caches", SIM + " solve, reset, get_S_matrix, _solve_ext"), ("layer state", LAY + " reset, copy")], ["Simulation", "Layer.reset"],
     "stateful model-based testing against fresh simulations", "One recorded known finding (interleaved simulations sharing layers), see known-findings.txt.")
prop("C25", "Adaptive sampling and parallel loops return what serial evaluation does",
     "The adaptive sampler returns a sorted grid that contains the initial points and stays within their range, the value of the function at exactly each returned point (scalar or multiple outputs), refinement where the curve bends and none closer than the requested spacing; parallel evaluation of it, and parallel loops, return the serial results in order.",
     [I, "schedules"], "all functions, grids, thresholds, worker counts", "tests sample one Lorentzian",
     [SAM, PAR], [("refinement loop", SAM + " adaptive_sampler"), ("parallel map", PAR + " parloop")], ["nannos.adaptive_sampler", "nannos.parloop"],
     "reference model of the contract", EXPL)
prop("C26", "Material interpolation, projection and filtering are exact maps",
     "Interpolation of materials is exact at its end points and nodes and monotonic between two of them, projection maps 0, 1/2 and 1 (and each threshold) as defined and is monotonic for every steepness, their multi-level versions reduce to the two-level ones, and filtering is linear, commutes with translations and exchange of axes, preserves constants and the total amount and stays centred for radii small against the array, with no effect at zero radius.",
     [I], "all densities, permittivities, exponents, steepnesses, thresholds, radii and array sizes", "tests call them once",
     [OPT, HEL], [("interpolation", OPT + " simp, multi_simp, project, multi_project"), ("filter", HEL + " apply_filter")],
     ["nannos.optimize.simp", "nannos.optimize.project", "nannos.optimize.multi_simp", "nannos.optimize.multi_project", "nannos.utils.apply_filter"],
     "closed forms and metamorphic relations", EXPL)
prop("C27", "The topology optimizer honours bounds, budget and stopping rules",
     "For every objective the optimizer only evaluates densities within [0, 1], never returns a point worse than the start of its last stage, returns a point together with the objective's value there, starts each stage from the optimum of the previous one and passes its projection level (powers of two over the range of thresholds) and the other arguments through, calls the callback once per evaluation, respects the evaluation budget and stops as soon as the stop value is reached.",
     [I, H], "all objectives, starting points, methods, thresholds, budgets and stop values", "tests run one optimization",
     [OPT], [("stages", OPT + " TopologyOptimizer.minimize"), ("stop value", OPT + " StopFun")], ["nannos.optimize.TopologyOptimizer"],
     "instrumented objectives with a trace oracle", "autograd and torch; both the scipy and nlopt methods where installed.")
prop("C28", "Invalid input is refused, valid input is not",
     "Unknown formulations, truncations, tangential field kinds, field or component names, layer names, backends and plot components, duplicate layer names, layers on different lattices, negative thicknesses, magnetic or uniform tensor materials, bi-periodic shapes on 1D gratings, formulations not available in 1D, non-integer numbers of harmonics and too coarse discretizations raise an error, wherever they appear in an otherwise valid problem; the same problem without the mistake is accepted.",
     [I], "all valid problems and every single mistake in any position", "tests try one example of some mistakes",
     [SIM, LAY, LAT, TAN, INI, PLO], [("validation", SIM + " __init__, get_field_grid; " + LAY + " __init__; " + LAT + " __init__")], ["public constructors and queries"],
     "fault injection into generated problems", EXPL)
prop("C29", "Plots show the structure that is simulated",
     "Three-dimensional plots of any stack contain one box per non-vacuum uniform layer and, for patterned layers, the cells of each permittivity value in their place, with stacking order, thicknesses, repetitions and lattice vectors respected; two-dimensional layer plots show the real or imaginary permittivity on the lattice grid, repeated as requested.",
     [I], "all stacks, lattices, repetitions and plot options", "tests only call the plot functions",
     [PLO, LAY], [("3D plot", PLO + " plot_structure"), ("2D plot", PLO + " plot_layer")], ["Simulation.plot_structure", "Layer.plot"],
     "recording plotter compared with a model of the scene", EXPL + "Meshes handed to the plotter are compared, not pixels.")
prop("C30", "The plane wave is the documented one",
     "For every wavelength and angles, the wave has the documented wavevector (length 2 pi over the wavelength, polar and azimuthal angles), a real unit polarization orthogonal to it, p in the plane of incidence at 0 degrees and s at 90, and angles given in degrees; in any lossless medium the simulated incident field is that wave, with a magnetic field of unit amplitude.",
     [I], "all wavelengths and angles", "tests build one plane wave",
     [EXC], [("plane wave", EXC)], ["PlaneWave"], "closed forms on generated angles", EXPL)


def main():
    have = {os.path.basename(p)[:3].upper() for p in glob.glob(os.path.join(HERE, "nnv/checks/c[0-9][0-9]_*.py"))}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            if p["id"] not in have:
                continue
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    man = dict(
        version=1, setup_cmd="./setup.sh",
        checks=[dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"./check {p['id']} --tier thorough",
                     evidence_file=f"evidence/{p['id']}.json", technique=PBT + p["technique"], level="exploration",
                     level_note=p["note"].strip()) for p in P if p["id"] in have],
        not_applicable=[],
        notes="No hooks in /repo. nnv/ is the framework: ./check CNN [--tier thorough] [--replay FILE]; see DESIGN.md.",
    )
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(have), "checks")


main()
