#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state))


prop("C01", "Edits of a primitive cell act on one exact table of orbitals and hoppings",
     "After any sequence of adding, changing, removing, trimming, querying, locking and re-gauging operations, the "
     "orbitals and hopping terms a primitive cell reports (objects, arrays, counts, positions, bond vectors) are "
     "exactly those obtained by applying the same operations to a plain table in which a term and its Hermitian "
     "conjugate are one entry. Arrays read after an edit always reflect that edit, and an operation that is rejected "
     "with an error (bad index, malformed coordinate or cell index, diagonal term, locked cell) leaves the cell as it "
     "was.",
     ["histories", "inputs"], "every finite history of edit and query operations with any values, including rejected ones",
     "test_prim.py and test_base.py replay a handful of fixed graphene edits; interleavings, value coincidences and "
     "failed operations followed by reads are not reached.",
     ["tbplas/builder/primitive.py", "tbplas/builder/base.py"],
     [("intra-hopping table with conjugate reduction", "tbplas/builder/base.py:IntraHopping"),
      ("array synchronisation", "tbplas/builder/primitive.py:PrimitiveCell.sync_array"),
      ("locks", "tbplas/builder/base.py:Lockable")],
     ["PrimitiveCell public methods and array properties"],
     "model-based histories vs a dict reference model", "seeded random histories, shrunk; values from small exact sets")

prop("C02", "The Bloch Hamiltonian is the exact Hermitian Fourier sum of the model",
     "For every model and every k-point the dense and the sparse Hamiltonian equal the Fourier sum of on-site energies "
     "and hopping terms with their conjugates in the requested phase convention, are Hermitian, have the same spectrum "
     "in both conventions, and repeat with the reciprocal lattice. Overlap matrices obey the same rules with the stored "
     "overlaps, and the printed analytical Hamiltonian evaluates to the same matrix.",
     ["inputs", "configurations"], "every orbital/hopping table, k-point, phase convention and storage format",
     "The tests compare bands of graphene and MoS2 at a few k-points only.",
     ["tbplas/builder/primitive.py", "tbplas/builder/overlap.py", "tbplas/cython/primitive.pyx", "tbplas/builder/advanced.py"],
     [("Hamiltonian assembly", "tbplas/cython/primitive.pyx:set_ham"),
      ("dense/csr front ends", "tbplas/builder/primitive.py:set_ham_dense,set_ham_csr"),
      ("overlap", "tbplas/builder/overlap.py:Overlap")],
     ["set_ham_dense, set_ham_csr, print_hk"],
     "differential vs an independent Fourier sum; metamorphic k-shifts", "absolute tolerance 1e-10 on O(1) energies")

prop("C03", "Exact diagonalisation returns the true bands, states and DOS",
     "For every model (with or without overlap), k-point list and solver, the returned bands are the complete "
     "eigenvalues at every k-point in the documented order (sparse solvers: the requested number of them), the "
     "returned states are normalised eigenvectors belonging to those energies in the same order, and the path length "
     "is the Cartesian length of the k-path. Results always belong to the current model, also when it is edited "
     "between two uses of one solver. The density of states is the documented broadened sum over those eigenvalues, "
     "weighted by the selected orbitals: non-negative, normalised per orbital, additive over orbitals and the same for "
     "a primitive cell, a sample and a Hamiltonian given as a function.",
     ["inputs", "configurations"], "every model, k-list, solver, broadening, energy range and orbital subset",
     "The tests compare graphene plots and few fixed energies.",
     ["tbplas/diagonal/base.py", "tbplas/builder/primitive.py", "tbplas/builder/sample.py"],
     [("DiagSolver", "tbplas/diagonal/base.py:DiagSolver")],
     ["calc_bands, calc_states, calc_dos"],
     "differential vs numpy eigensolver + eigen-residual invariants", "tolerance 1e-8")

prop("C04", "Enlarging, reshaping or re-gauging a cell never changes the physics",
     "Extending a primitive cell, reshaping it to new lattice vectors, moving its origin, twisting it by an angle "
     "about a centre, or resetting its lattice describes the same crystal: orbital count scales with the volume, every "
     "orbital image keeps its energy, label and Cartesian position relative to the rigid motion, and the spectrum at a "
     "k-point of the new cell is the union of the spectra of the original cell at the k-points that fold onto it. "
     "Cutting the periodicity along a direction removes exactly the terms crossing that boundary. The original cell is "
     "left unchanged.",
     ["inputs"], "every model with orbitals anywhere, every integer extension or non-singular integer reshaping",
     "Tests only extend/reshape graphene and compare a band plot.",
     ["tbplas/builder/advanced.py", "tbplas/builder/primitive.py"],
     [("extend_prim_cell, reshape_prim_cell, spiral_prim_cell, make_hetero_layer", "tbplas/builder/advanced.py"),
      ("apply_pbc, trim, reset_lattice", "tbplas/builder/primitive.py")],
     ["spectra, positions, counts of the transformed cell"],
     "metamorphic band folding + brute-force lattice reference", "tolerance 1e-8")

prop("C05", "Merging cells and finding neighbours is complete and faithful",
     "Merging primitive cells (with inter-cell hopping sets) yields a cell whose Hamiltonian is the block matrix of "
     "the parts plus exactly the given couplings with their conjugates, and leaves the parts unchanged; couplings to "
     "cells that are not merged, indices beyond the merged orbitals and lattices that differ are rejected. The "
     "neighbour list returned for a cell or a pair of cells is exactly the set of orbital pairs within the search "
     "range whose distance does not exceed the limit, each reported once with its true displacement, in ascending "
     "distance. A hopping dictionary added to a cell adds exactly its matrix elements.",
     ["inputs", "histories"], "every pair or triple of cells, every coupling set and every search range",
     "Tests use one twisted bilayer and one merge.",
     ["tbplas/builder/advanced.py", "tbplas/builder/base.py"],
     [("merge_prim_cell", "tbplas/builder/advanced.py"), ("find_neighbors", "tbplas/builder/advanced.py"),
      ("PCInterHopping, HopDict", "tbplas/builder/advanced.py")],
     ["merged cell Hamiltonian, neighbour list"],
     "differential vs brute force and block-matrix references", "distances kept away from the limit by construction")

prop("C06", "Supercell indices are a bijection that skips exactly the vacancies",
     "For every supercell size and vacancy set, orbital indices in primitive-cell form and in supercell form convert "
     "into each other without loss, consecutively numbering exactly the non-vacant orbitals, and the array conversions "
     "agree with the scalar ones. Indices that are malformed, out of range or vacant are rejected with the documented "
     "error, whatever history of vacancy changes (adding, setting, synchronising, locking) came before, and a "
     "supercell too small for its hopping range is rejected.",
     ["inputs", "histories"], "every supercell shape, vacancy history, and valid or invalid index",
     "test_super_core.py samples two shapes with two fixed vacancies.",
     ["tbplas/builder/super.py", "tbplas/cython/super.pyx"],
     [("index conversion", "tbplas/cython/super.pyx"), ("OrbitalSet", "tbplas/builder/super.py")],
     ["orb_id_* conversions, num_orb_sc, vacancies"],
     "differential vs enumerated reference map, stateful vacancy histories", "exact integers")

prop("C07", "A supercell contains exactly the orbitals and bonds of the infinite crystal",
     "For every primitive cell, size, boundary condition, vacancy set and modifier, the supercell's energies, "
     "positions, hopping terms and bond vectors are exactly those found by enumerating the tiled crystal: bonds wrap "
     "only along periodic directions, bonds to vacancies or across open boundaries vanish, hopping modifiers override "
     "or add exactly what they state, and position modifiers change positions and bond vectors alike. Edits of the "
     "primitive cell, vacancies and modifiers show up in arrays read later. Trimming removes exactly the orbitals left "
     "with at most one neighbour.",
     ["inputs", "configurations"], "every model, size, boundary condition, vacancy set and modifier",
     "Tests cover a 3x3 graphene supercell; the fast path and the general path are compared once.",
     ["tbplas/builder/super.py", "tbplas/cython/super.pyx"],
     [("get_orb_eng/get_orb_pos/get_hop/get_dr", "tbplas/builder/super.py:SuperCell"),
      ("native builders", "tbplas/cython/super.pyx")],
     ["SuperCell arrays"],
     "differential vs brute-force tiling", "exact index sets, tolerance 1e-9 on reals")

prop("C08", "A sample assembles its parts into one consistent Hamiltonian",
     "For every list of supercells and inter-supercell hopping sets, the sample's orbital energies, positions, hopping "
     "lists and bond vectors are the concatenation of the parts with indices shifted, its sparse, dense and current- "
     "operator forms all represent that one Hermitian Hamiltonian, and a periodic single-supercell sample has the "
     "spectrum of the equivalent extended primitive cell at every k-point. The data for current operators pairs each "
     "matrix element with its displacement, in either build algorithm and column order. Part lists that are empty, "
     "contain something else or are not closed (a coupling to a supercell that is not in the sample) are rejected.",
     ["inputs", "configurations"], "every set of parts, couplings, k-points and output formats",
     "Tests compare graphene band plots.",
     ["tbplas/builder/sample.py", "tbplas/cython/sample.pyx", "tbplas/builder/super.py"],
     [("Sample.init_*", "tbplas/builder/sample.py"), ("build_ham_*", "tbplas/cython/sample.pyx")],
     ["Sample arrays, build_ham_csr, build_ham_dxy, set_ham_dense/csr"],
     "differential vs brute force + cross-format agreement", "tolerance 1e-9")

prop("C09", "Sample state never goes stale and rescaling is exact and sufficient",
     "Whatever history of model edits, array initialisation, resets, rescalings, saves and loads precedes, the "
     "sample's arrays reflect the model exactly after the documented refresh, and arrays saved to files reload "
     "exactly. The automatically chosen rescaling factor bounds the spectrum, repeated rescaling only ever changes the "
     "overall factor so that factor times scaled Hamiltonian is always the original, and locked parts reject edits "
     "without changing.",
     ["histories", "inputs"], "every history of edits, refreshes, rescalings, saves and loads",
     "Tests exercise each call once on graphene.",
     ["tbplas/builder/sample.py", "tbplas/builder/super.py", "tbplas/builder/primitive.py", "tbplas/builder/base.py", "tbplas/cython/sample.pyx"],
     [("reset/rescale/save/load", "tbplas/builder/sample.py"), ("observer/lock protocol", "tbplas/builder/base.py")],
     ["Sample arrays after each step"],
     "stateful histories vs a freshly built reference", "tolerance 1e-10; save/load exact")

prop("C10", "A magnetic field enters as gauge-invariant Peierls phases",
     "Applying a perpendicular magnetic field multiplies every hopping by a pure phase so that the Hamiltonian stays "
     "Hermitian, the phase accumulated around any closed loop of bonds equals field times enclosed area in flux "
     "quanta, independent of the gauge and of where the sample is placed, and zero field changes nothing. Spectra of "
     "open samples are therefore the same in every supported gauge and even in the "
     "field. In a ribbon, the Landau gauge along the periodic direction keeps the lattice translation, and illegal "
     "gauges are rejected.",
     ["inputs", "configurations"], "every open sample, field strength, gauge and translation",
     "Tests compare Landau-level plots for one gauge.",
     ["tbplas/builder/sample.py", "tbplas/cython/sample.pyx", "tbplas/builder/primitive.py"],
     [("set_mag_field", "tbplas/cython/sample.pyx")],
     ["hopping arrays and spectra after set_magnetic_field"],
     "invariants (loop flux) and metamorphic gauge changes", "tolerance 1e-9 on phases")

prop("C11", "Lattice and k-point utilities are exact geometry",
     "Coordinate conversions between fractional and Cartesian form are mutually inverse, reciprocal vectors are dual "
     "to the lattice, generated lattice vectors have the requested lengths and angles, rotations preserve distances "
     "and have the stated axis and angle about the stated centre, areas and volumes are those of the spanned shape. "
     "k-meshes cover the cell uniformly starting from Gamma and k-paths are the requested straight segments passing "
     "through every given point at the reported indices. Lattice vectors, reciprocal vectors, areas, volumes and sizes "
     "reported by cells, extended cells, supercells, samples and solvers are those of their own lattice. The unit "
     "constants have their physical values.",
     ["inputs"], "every lattice, coordinate set, angle, mesh size and path",
     "Tests use one or two fixed lattices.",
     ["tbplas/base/lattice.py", "tbplas/base/kpoints.py", "tbplas/base/constants.py"],
     [("lattice utilities", "tbplas/base/lattice.py"), ("k-point utilities", "tbplas/base/kpoints.py")],
     ["returned arrays"],
     "round trips, invariants, independent formulas", "relative tolerance 1e-9")

prop("C12", "Slater-Koster integrals obey the rotation rules of the orbitals",
     "For every bond direction, pair of s, p, d orbitals and set of integrals, the hopping equals the two-centre "
     "Slater-Koster value: rotating the bond and both orbitals together leaves it unchanged, along the bond axis only "
     "equal-m pairs couple with the given sigma, pi, delta strength, and exchanging the orbitals while reversing the "
     "bond gives the same value. Unknown labels and vanishing bonds are rejected.",
     ["inputs"], "every displacement, orbital pair and integral set",
     "Tests evaluate only a few directions.",
     ["tbplas/builder/advanced.py"],
     [("SK.eval", "tbplas/builder/advanced.py:SK")],
     ["SK.eval"],
     "differential vs a tensor-rotation oracle", "tolerance 1e-9")

prop("C13", "Spin-orbit tables equal the L.S operator on real orbitals",
     "Every spin-orbit matrix element offered for real s, p and d orbitals equals the matrix element of L.S between "
     "those spin orbitals, in every available implementation and whatever was asked before, so the matrix is "
     "Hermitian, traceless, time-reversal symmetric and has the j = l +- 1/2 spectrum. Mixed angular momenta do not "
     "couple. The printed table lists exactly the non-vanishing elements, and ladder operators act on any combination "
     "of |l,m> states by the textbook rules.",
     ["inputs"], "every pair of orbital and spin labels and every sequence of queries",
     "Tests compare two implementations with each other.",
     ["tbplas/builder/advanced.py"],
     [("SOC, SOCTable, SOCTable2", "tbplas/builder/advanced.py")],
     ["SOC.eval, SOCTable.eval, SOCTable2.eval"],
     "differential vs angular-momentum algebra (exhaustive over labels)", "tolerance 1e-10")

prop("C14", "A Wannier90 model is imported exactly",
     "For every valid set of Wannier90 output files the imported cell has the file's lattice, Wannier centres as "
     "orbital positions and on-site energies, and its Bloch Hamiltonian equals the Fourier sum of all hopping matrices "
     "in the file divided by the degeneracies of their lattice vectors, including those moved by the minimal-image "
     "shift file when that correction is asked for; the energy threshold drops exactly the terms below it. Unknown "
     "units are rejected.",
     ["inputs"], "every set of structurally valid input files and energy threshold",
     "No test covers the importer.",
     ["tbplas/adapter/wannier90.py"],
     [("file parsers and cell construction", "tbplas/adapter/wannier90.py")],
     ["wan2pc"],
     "generated files vs direct Fourier sum", "tolerance 1e-8")

prop("C15", "Dynamic polarisation and dielectric function equal the Lindhard formula",
     "For every model, k-mesh, momentum transfer, frequency, temperature, chemical potential, dimension and back-end, "
     "the dynamic polarisation equals the Lindhard sum over states per area or volume of the cell, momenta on the mesh "
     "and arbitrary momenta agree, the two native back-ends agree, and the dielectric function follows from it with "
     "the documented Coulomb factor. Conversions of momenta between grid, fractional and Cartesian form are mutually "
     "consistent. A cell enlarged by reshaping gives the same response.",
     ["inputs", "configurations"], "every model, mesh, q-point list, energy grid, temperature and back-end",
     "Tests compare with one published graphene curve.",
     ["tbplas/diagonal/lindhard.py", "tbplas/cython/lindhard.pyx", "tbplas/fortran/lindhard.f90"],
     [("Lindhard", "tbplas/diagonal/lindhard.py")],
     ["calc_dyn_pol_regular, calc_dyn_pol_arbitrary, calc_epsilon, conversions"],
     "differential vs a numpy Lindhard sum; back-end differential", "relative tolerance 1e-8")

prop("C16", "Optical conductivity equals the Kubo-Greenwood sum",
     "For every model, k-mesh, component, frequency, temperature, broadening, dimension and back-end the AC "
     "conductivity equals the interband Kubo-Greenwood sum over pairs of different energies with the velocity operator "
     "of the model, and back-ends agree. It scales with spin degeneracy and cell size as documented and does not "
     "depend on how the cell is enlarged by reshaping.",
     ["inputs", "configurations"], "every model, mesh, component, energy grid, temperature and back-end",
     "Tests compare one graphene curve.",
     ["tbplas/diagonal/lindhard.py", "tbplas/cython/lindhard.pyx", "tbplas/fortran/lindhard.f90"],
     [("Lindhard.calc_ac_cond", "tbplas/diagonal/lindhard.py")],
     ["calc_ac_cond"],
     "differential vs numpy Kubo-Greenwood; back-end differential", "relative tolerance 1e-8")

prop("C17", "Spin textures are Pauli expectation values of the requested band",
     "For every spinful model, k-grid, band and spin ordering, the spin texture is the expectation value of each Pauli "
     "matrix in the eigenstate of that band at that k-point, is real, never exceeds unit length, and always belongs to "
     "the current k-grid, band and model, also after the grid or the model has been changed.",
     ["inputs", "histories"], "every model, k-grid, band selection history and spin-ordering convention",
     "Tests only plot it.",
     ["tbplas/diagonal/magnetic.py", "tbplas/diagonal/base.py"],
     [("SpinTexture", "tbplas/diagonal/magnetic.py")],
     ["SpinTexture.eval(component)"],
     "differential vs Pauli expectation; stateful grid/band histories", "tolerance 1e-8, non-degenerate bands")

prop("C18", "Z2 phases are the Wilson-loop phases of the occupied bands",
     "For every model and k-loop the reported phases are the eigen-phases of the Wilson loop of the occupied bands, "
     "closed back to its first point, independent of the arbitrary phases of the eigenvectors; reordering follows "
     "well-separated branches continuously across the boundary of the phase interval, and crossing counts equal the "
     "number of times the branches cross the reference line. The resulting parity is the one of the known phases of "
     "the Kane-Mele model.",
     ["inputs"], "every model, loop discretisation, occupation and reference line",
     "Tests reproduce two published plots.",
     ["tbplas/diagonal/z2.py"],
     [("Z2", "tbplas/diagonal/z2.py")],
     ["calc_phases, count_crossing"],
     "differential vs projector-product Wilson loop", "tolerance 1e-7")

prop("C19", "Wave-packet propagation is exact quantum time evolution",
     "For every sample, rescaling, time step count, number of threads and initial state, the propagated wave function "
     "at every logged time equals the exact evolution under the Hamiltonian, so norms are conserved, and the DOS and "
     "local-DOS correlation functions are the corresponding overlaps of evolved states averaged over the random "
     "states. Quasi-eigenstates and recursion-method local DOS equal their defining formulas on the same states, "
     "identical seeds give identical results, and the sample's rescaling does not change the evolution over the same "
     "physical time. The random states are normalised vectors of independent, identically distributed complex normal "
     "amplitudes.",
     ["inputs", "configurations"], "every sample, state, time grid, seed and site list",
     "Tests only check that a graphene DOS runs.",
     ["tbplas/tbpm/solver.py", "tbplas/fortran/tbpm.f90", "tbplas/fortran/propagation.f90", "tbplas/fortran/csr.F90", "tbplas/fortran/math.F90", "tbplas/fortran/random.f90"],
     [("Solver", "tbplas/tbpm/solver.py"), ("Chebyshev propagation", "tbplas/fortran/propagation.f90")],
     ["calc_psi_t, calc_corr_dos, calc_corr_ldos, calc_quasi_eigenstates, calc_ldos_haydock"],
     "differential vs dense exponentials; spectral-measure fit", "tolerance 1e-6")

prop("C20", "Response correlation functions equal their operator formulas",
     "For every sample and setting the correlation functions for AC conductivity, dynamic polarisation, DC "
     "conductivity and Hall conductivity equal the defining expectation values of current, density, Fermi and "
     "evolution operators in the random states used, for every direction pair, q-point, energy and number of threads.",
     ["inputs", "configurations"], "every sample, temperature, chemical potential, q-point and energy list",
     "Tests never evaluate them against a reference.",
     ["tbplas/tbpm/solver.py", "tbplas/fortran/tbpm.f90", "tbplas/fortran/funcs.f90", "tbplas/fortran/kpm.f90", "tbplas/fortran/fft.F90"],
     [("Solver.calc_corr_*", "tbplas/tbpm/solver.py")],
     ["calc_corr_ac_cond, calc_corr_dyn_pol, calc_corr_dc_cond, calc_hall_mu"],
     "differential vs dense operators on tomographically recovered random states", "tolerance set by expansion truncation")

prop("C21", "Spectra derived from correlation functions follow the stated transforms",
     "For every correlation function and setting, the density of states, local density of states, AC, DC and Hall "
     "conductivities, polarisation, dielectric function and diffusion coefficient equal the documented windowed "
     "transform of the input with its prefactors (spin degeneracy once, volume or area, energy and time step, "
     "temperature), on the documented energy grid. Densities of states integrate to one, and a level of energy E "
     "propagated by the solver shows up as a peak at E.",
     ["inputs", "configurations"], "every correlation array, window, dimension and configuration",
     "Tests never compare numbers.",
     ["tbplas/tbpm/analysis.py", "tbplas/fortran/analysis.f90", "tbplas/fortran/kpm.f90"],
     [("Analyzer", "tbplas/tbpm/analysis.py")],
     ["Analyzer.calc_*"],
     "differential vs direct numpy transforms", "relative tolerance 1e-8")

prop("C22", "Results do not depend on the number of processes",
     "Work distribution over processes assigns every item to exactly one process in order, and every distributed "
     "calculation (bands, states, DOS, response functions, spin texture, phases, stochastic correlation functions) "
     "returns on the documented processes the same result as a serial run for every number of processes, including "
     "more processes than items where ranges are distributed. Stochastic results are the average over the random "
     "states of all processes. Calculations that do not ask for MPI are independent of the other processes of a job.",
     ["configurations", "inputs", "schedules"], "every process count, item count and distribution algorithm",
     "The MPI tests run on one process.",
     ["tbplas/parallel.py", "tbplas/utils.py", "tbplas/diagonal/base.py", "tbplas/diagonal/lindhard.py", "tbplas/diagonal/z2.py", "tbplas/tbpm/solver.py"],
     [("MPIEnv", "tbplas/parallel.py"), ("split_list, split_range", "tbplas/utils.py")],
     ["results on each simulated rank"],
     "differential serial vs simulated n-rank runs", "in-process communicator stands in for MPI")

prop("C23", "Bundled material models have the symmetry and size they advertise",
     "Every bundled material model has the advertised orbitals, positions and lattice, the published on-site energies "
     "and hopping parameters completed by symmetry, and a Hermitian Hamiltonian at every k-point that respects time "
     "reversal and the crystal's point symmetry; alternative constructions of the same material (rectangular, "
     "reshaped, with vanishing spin-orbit coupling, with or without optional terms) have the same spectrum, and model "
     "parameters act as stated.",
     ["inputs", "configurations"], "every material, parameter value and k-point",
     "Tests only plot bands of default parameters.",
     ["tbplas/materials/graphene.py", "tbplas/materials/phosphorene.py", "tbplas/materials/antimonene.py", "tbplas/materials/xs2.py"],
     [("make_* functions", "tbplas/materials")],
     ["spectra of the models"],
     "metamorphic symmetry relations over random k", "tolerance 1e-6")

prop("C24", "Parameter fitting minimises the weighted band deviation it states",
     "The fitting driver evaluates the residual of the current parameters at every k-point and band exactly as "
     "weighted differences to the reference data with weights normalised by their sum, finds the least-squares optimum "
     "when the model is linear in its parameters, recovers the bands that generated the data from nearby starting "
     "points, never returns parameters worse than the initial ones, and raises an error when the minimisation fails.",
     ["inputs"], "every model, reference data set, weight vector and starting point",
     "No test covers fitting.",
     ["tbplas/builder/advanced.py"],
     [("ParamFit", "tbplas/builder/advanced.py:ParamFit")],
     ["ParamFit.fit"],
     "parameter-recovery and residual reference", "tolerance 1e-4 on recovered parameters")

prop("C25", "Output files and plots show exactly the data they claim to show",
     "A wave function written as a volumetric file equals the stated Bloch sum of hydrogen-like orbitals on the stated "
     "grid (normalised and mutually orthogonal atomic orbitals, correct phase for either convention, requested part), "
     "with every atom listed, and plots of scalar fields, vector fields, wave functions, bands and DOS place every "
     "value at its own coordinates, with the model drawn below when asked.",
     ["inputs"], "every model, state, grid, quantum numbers, convention and k-point",
     "Tests only check that plotting does not crash.",
     ["tbplas/visual.py", "tbplas/cython/atom.pyx"],
     [("plot_wfc3d, plot_scalar", "tbplas/visual.py"), ("set_cube", "tbplas/cython/atom.pyx")],
     ["cube file content; arrays handed to matplotlib"],
     "differential vs scipy special functions", "file precision 1e-5")

prop("C26", "Saved configurations and results reload unchanged",
     "A configuration saved to disk loads to the same settings, results the solver writes to disk equal what it "
     "returned, a run with a reloaded configuration reproduces them, and settings are never changed by running a "
     "calculation. Undefined parameters of any section are rejected before any calculation, and nothing is written "
     "when saving is switched off.",
     ["inputs", "histories"], "every configuration and calculation",
     "Tests never reload.",
     ["tbplas/tbpm/config.py", "tbplas/tbpm/solver.py", "tbplas/builder/sample.py"],
     [("Config.save/load", "tbplas/tbpm/config.py"), ("Solver saving", "tbplas/tbpm/solver.py")],
     ["files under the output directory"],
     "round trips", "exact equality")

prop("C27", "Drawings of models show exactly the orbitals, bonds and cells of the model",
     "A drawing of a primitive cell or a sample contains every orbital of the drawn cells at its projected position "
     "with its energy or the colour the caller assigned to it, every bond at or above the cutoff from its start to its "
     "end (and its conjugate when asked), bonds of each supercell and inter-hopping set in their own colours, the "
     "borders of the cells and the lattice vectors, in any of the six views and nothing else. The home cell is always "
     "drawn, an illegal view is rejected, and drawing never changes the model.",
     ["inputs", "configurations"], "every model, sample, view and drawing option",
     "Tests only check that plotting does not crash.",
     ["tbplas/builder/visual.py", "tbplas/builder/primitive.py", "tbplas/builder/super.py", "tbplas/builder/sample.py"],
     [("ModelViewer", "tbplas/builder/visual.py:ModelViewer"), ("PrimitiveCell.plot", "tbplas/builder/primitive.py"),
      ("SuperCell.plot, SCInterHopping.plot", "tbplas/builder/super.py"), ("Sample.plot", "tbplas/builder/sample.py")],
     ["the artists on the axes of the figure"],
     "differential of the drawn artists vs an independent projection of the model", "coordinates rounded to 1e-6 nm")

prop("C28", "Timers, progress reports, banners, seeds and test helpers do what they state",
     "For every history of starting and stopping slots, a timer reports for each slot the length of its last interval "
     "and the sum of all its intervals since the last reset, and refuses to stop a slot that is not running or to "
     "report while one is. A progress bar reports exact counts and percentages each time another share of the tasks "
     "(tasks divided by scales, rounded down) is finished and is silent in between. Banners have the requested width, "
     "borders and centred text, seeds are as many different integers as requested, and the assertion helpers pass "
     "exactly when their stated condition holds.",
     ["inputs", "histories"], "every history of timer calls and every argument of the helpers",
     "No test covers these helpers except as tools of other tests.",
     ["tbplas/utils.py"],
     [("Timer, ProgressBar, TestHelper, gen_seeds, banners", "tbplas/utils.py")],
     ["printed text, returned lists, raised errors"],
     "model-based histories with a controlled clock; direct references", "times compared at the printed precision")

prop("C29", "Calculations answer for the model as it is and leave everything else alone",
     "Whatever history of edits and calculations on shared models, configurations and solver objects precedes, a "
     "calculation (band structures, densities of states, states, response functions, spin textures, Wannier phases, "
     "correlation functions, analyses, derived cells and arrays, drawings) gives the same result as on a new set of "
     "objects that received only the edits. It changes neither the model, nor the configuration, nor any array or list "
     "given to it, results handed out earlier keep their values, and overwriting a result is without effect on any "
     "later one.",
     ["histories", "inputs"], "every history of edits and calculations on a cell, a sample and the solvers on them",
     "Tests run each calculation once on a model of its own.",
     ["tbplas/diagonal/base.py", "tbplas/diagonal/lindhard.py", "tbplas/diagonal/magnetic.py", "tbplas/diagonal/z2.py", "tbplas/tbpm/solver.py",
      "tbplas/tbpm/analysis.py", "tbplas/builder/primitive.py", "tbplas/builder/sample.py", "tbplas/builder/advanced.py"],
     [("DiagSolver matrices, _update_array", "tbplas/diagonal/base.py"), ("Lindhard, SpinTexture, Z2", "tbplas/diagonal"),
      ("Solver, Analyzer", "tbplas/tbpm"), ("PrimitiveCell.sync_array, Sample.init_*", "tbplas/builder")],
     ["results, arguments, model and configuration after each step"],
     "stateful histories; every result vs the same calculation on new objects", "relative tolerance 1e-8; results that move under a perturbation of 1e-11 are not compared")

BUILT = set()


def main():
    for path in (VERIF / "pbt" / "checks").glob("c*_*.py"):
        BUILT.add(path.name.split("_")[0].upper())
    with open(VERIF / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    manifest = {
        "version": 1, "setup_cmd": "/opt/venv/bin/python check.py --setup",
        "checks": [{
            "property": p["id"], "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
            "technique": "property-based testing: " + p["technique"], "level": "exploration",
            "level_note": "Seeded generated-input search with shrinking; no absence proof. " + p["note"]}
            for p in P if p["id"] in BUILT],
        "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P if p["id"] not in BUILT],
    }
    (VERIF / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")


if __name__ == "__main__":
    main()
