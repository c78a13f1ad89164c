#!/opt/venv/bin/python
"""writes properties.jsonl and MANIFEST.json from the table below (run by hand, outputs are committed)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "the suite has 29 tests, mostly end-to-end energies of one or two fixed molecules compared to a loose reference; "
PROPS = []


def P(id, title, statement, over, text, why, files, mech, level="proof", note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note))


P("P01", "Population control conserves the walker ensemble",
  "For every set of walker weights and every random draw, population control returns exactly as many walkers as it was given, conserves their total weight, returns only walkers of the old population with nonnegative weights, and carries in expectation exactly the old weight of each walker (systematic resampling copies a walker the floor or the ceiling of its expected number of times; branching merges the lightest with the heaviest walker as long as that pair lies outside the thresholds). "
  "The alpha, beta and boson parts of a walker and its stored overlap and hybrid energy stay together, copies do not share storage, weights are clipped and the total rescaled to its target at the documented steps only, and the walkers of a run are distributed so that every walker belongs to exactly one rank.",
  ["inputs", "histories"], "all walker counts, weights (including equal, zero and widely spread ones), random draws, spin cases, with and without bosons, all population control methods",
  TESTS + "population control acts on random weights whose branches (several pairs to merge, equal weights, zero weights) are reached by chance, and only the final energy is compared.",
  ["openms/qmc/population_control.py", "openms/qmc/generic_walkers.py"],
  [("resampling methods", "openms/qmc/population_control.py:branching_dp0, comb_resampling, stochastic_reconfiguration"), ("weight control", "openms/qmc/generic_walkers.py:BaseWalkers.weight_control, _pack_walkers, _unpack_walkers"), ("distribution over ranks", "openms/qmc/generic_walkers.py:BaseWalkers.__init__")])
P("P02", "Trial-walker overlap and one-body Green's functions are exact",
  "For every trial determinant and every batch of walkers, the reported overlap of each walker with the trial equals the product of the spin determinants of the overlap matrices with the walker's log-scale divided out, and every (half-rotated or full) one-body Green's function handed to the estimators equals the exact mixed-state transition density built from the inverse overlap matrix. "
  "All alternative implementations of these quantities (plain, compiled, batched; closed and open shell; with and without a boson part) agree, and computing them never alters the walkers or the trial.",
  ["inputs", "configurations"], "all walker counts, basis sizes, electron numbers, spin cases, complex orbitals with nonsingular overlap matrices",
  TESTS + "they never compare an overlap or Green's function to its definition, and never on complex open-shell walkers.",
  ["openms/qmc/trial.py", "openms/qmc/estimators.py"],
  [("overlap and Green's function kernels", "openms/qmc/trial.py:trial_walker_ovlp_*, calc_trial_walker_ovlp*, calc_walker_gf"), ("single-walker Green's function", "openms/qmc/estimators.py:GF, GF_so")])
P("P03", "Local energies equal the exact contraction of the Hamiltonian",
  "For every Hamiltonian and every walker Green's function, the one-body, Coulomb, exchange, boson and electron-boson local energies reported for a walker equal the exact contraction of the (decomposed) Hamiltonian with the walker's Green's functions, whichever implementation, spin case or rotated-integral form is used. "
  "The energy reported for an ensemble is the weight-averaged sum of those walker energies over all processes of a parallel run plus the nuclear repulsion, split consistently into one- and two-body parts.",
  ["inputs", "configurations"], "all walker counts, basis sizes, numbers of decomposition vectors, photon modes and Fock truncations, spin cases, complex Green's functions",
  TESTS + "a kernel that is wrong for a second photon mode, for open shell or for complex orbitals is not exercised.",
  ["openms/qmc/estimators.py", "openms/qmc/trial.py", "openms/qmc/propagators.py"],
  [("energy kernels", "openms/qmc/estimators.py"), ("half rotation of integrals", "openms/qmc/trial.py:half_rotate_integrals"), ("ensemble energy", "openms/qmc/propagators.py:local_energy")])
P("P04", "One imaginary-time step applies exactly the split auxiliary-field propagator",
  "For every set of walkers and every draw of the auxiliary fields, one propagation step multiplies each walker by the half-step one-body propagator, the truncated exponential of the shifted auxiliary-field operator and the half-step one-body propagator again, with the mean-field shift, the force bias (capped at its bound) and the scalar factors of the importance function exactly those of the Hubbard-Stratonovich transformation. "
  "The electron-boson step couples electrons and photons through the same fields for every number of photon modes and every Fock truncation, and every interchangeable implementation of a sub-step gives the same result.",
  ["inputs", "configurations", "histories"], "all walkers, Hamiltonians, field draws, time steps, spin cases, mode counts; Taylor orders enumerated",
  TESTS + "short runs with one seed and a tolerance of the order of the statistical error cannot tell an exact step from a slightly wrong one.",
  ["openms/qmc/propagators.py", "openms/qmc/trial.py"],
  [("step assembly", "openms/qmc/propagators.py:Phaseless*.propagate_walkers"), ("operator exponentials", "openms/qmc/propagators.py:propagate_*"), ("force bias", "openms/qmc/trial.py:get_vbias, get_boson_vbias")])
P("P05", "Walker weights follow the phaseless importance rule and never go negative",
  "After each propagation step the weight of a walker is its old weight times the exponential of minus the time step times its (bounded) hybrid or local energy relative to the energy estimate, times the cosine of the phase rotation, set to zero where that cosine is negative. "
  "Weights therefore stay nonnegative for every draw, the stored overlap and hybrid energy are those of the new walker, and an unknown weighting scheme is rejected rather than silently ignored.",
  ["inputs", "histories"], "all overlaps, field draws, weights, time steps, energy bounds and both schemes",
  TESTS + "the clipping and negative-cosine branches are rarely reached and never observed individually.",
  ["openms/qmc/propagators.py"],
  [("weight update", "openms/qmc/propagators.py:update_weight")])
P("P06", "Integrals and Cholesky vectors represent the Hamiltonian",
  "For every Hamiltonian, the vectors produced by the (full, blocked or shell-chunked) decomposition of the two-electron integrals reproduce them to the requested threshold, each vector is symmetric, and the one-electron integrals handed to the solvers are the core Hamiltonian in the same basis. "
  "The bilinear photon decomposition represents the electron-photon coupling and dipole self-energy exactly for every number of modes, building any of these never changes the caller's integrals, and integrals dumped to a file are read back unchanged.",
  ["inputs", "configurations"], "all basis sizes, numbers of modes, thresholds, positive semidefinite two-electron integrals of full permutational symmetry",
  TESTS + "only small minimal-basis molecules with one mode and the default threshold are decomposed, and the vectors are never compared to the integrals.",
  ["openms/qmc/tools.py", "openms/qmc/qmc.py"],
  [("decompositions", "openms/qmc/tools.py:chols_full, chols_blocked, _compute_eri_chunk, bilinear_decomposition"), ("integral transformation", "openms/qmc/tools.py:get_h1e_chols; openms/qmc/qmc.py:QMCbase.get_integrals")])
P("P07", "A run orthonormalises, accumulates and averages correctly",
  "For every ensemble, re-orthonormalisation leaves every walker's state (determinant times its stored scale factor) unchanged while making its orbitals orthonormal, the energy shift is the weight-averaged hybrid energy of the last accumulation period and accumulators are reset after each period, and the driver performs propagation, orthonormalisation, population control and measurement at the documented intervals. Random streams of a parallel run are derived from the seed and differ between processes, and the options of one run never leak into another. "
  "Photon density matrices and displacements computed for the walkers equal their definitions, and the reported mean, error bar, autocorrelation time and outlier rejection are those of the recorded series.",
  ["inputs", "histories"], "all walker ensembles, periods, series, mode counts and Fock truncations",
  TESTS + "the bookkeeping is only seen through a final energy with a loose tolerance.",
  ["openms/qmc/qmc.py", "openms/qmc/generic_walkers.py", "openms/qmc/tools.py"],
  [("driver", "openms/qmc/qmc.py:QMCbase.kernel, property_stack"), ("orthonormalisation and photon observables", "openms/qmc/generic_walkers.py:Walkers_so"), ("statistics", "openms/qmc/tools.py:get_mean_std, autocorr, analysis_autocorr, remove_outliers")])
P("P08", "QED-HF is the Pauli-Fierz mean field",
  "For every molecule, closed-shell density and set of photon modes, the light-matter couplings are the field-projected dipoles, the one-electron dipole self-energy, mean-field displacement and photon coupling enter the core Hamiltonian, and the self-energy Coulomb and exchange terms enter the potential, such that the Fock matrix is that of the Pauli-Fierz Hamiltonian and the energy is the Hartree-Fock energy plus half the dipole fluctuation of each mode. "
  "Incremental builds of the potential equal full builds, a level shift raises the virtual orbitals only, the photon state is the ground state of the mean-field photon Hamiltonian, and converged energies are stationary, not below bare Hartree-Fock, and independent of the origin.",
  ["inputs", "configurations", "histories"], "all densities, basis sizes, dipole matrices, couplings, mode counts and Fock truncations",
  TESTS + "energies of one molecule with one mode and one polarisation are compared; wrong mode indexing, a wrong derivative or a wrong incremental build passes.",
  ["openms/mqed/qedhf.py", "openms/lib/boson.py"],
  [("mean field", "openms/mqed/qedhf.py:RHF.get_hcore, get_veff, get_jk, get_dse_jk, energy_elec, get_fock"), ("photon object", "openms/lib/boson.py:Photon.add_oei_ao, get_dse_jk, update_boson_coeff, get_bosonic_Ham")])

P("P09", "Variational QED-HF energies and gradients are consistent",
  "For every density, dipole basis, coupling and set of variational parameters, SC- and VT-QED-HF dress the one- and two-electron integrals with the Franck-Condon factors exp(-A^2/2) of the displacement difference of the orbitals, the residual (undressed) coupling enters core Hamiltonian and potential with its square, and the result is back-transformed to the atomic orbital basis unchanged otherwise, with full integrals and with Cholesky vectors alike. "
  "The reported gradients along the orbital displacements, the coupling fraction and the squeezing are the exact derivatives of that energy, and packing the Fock matrix and all optimised parameters into the extrapolation vector and back is lossless for every choice of which parameters are optimised.",
  ["inputs", "configurations"], "all basis sizes, densities, couplings, displacements, squeezing parameters; photon vacuum; one or two modes where the code supports them",
  TESTS + "gradients are never compared to derivatives of the energy, and parameter combinations (squeezing without coupling fraction, Cholesky integrals) are not all run.",
  ["openms/mqed/scqedhf.py", "openms/mqed/vtqedhf.py", "openms/mqed/qedhf.py"],
  [("dressed integrals and potentials", "openms/mqed/scqedhf.py:RHF.get_hcore, get_veff, get_h1e_DO, FC_factor"), ("gradients", "openms/mqed/scqedhf.py:RHF.get_eta_gradient; openms/mqed/vtqedhf.py:RHF.grad_var_params, get_vsq_gradient, grad_var_params_together"), ("parameter packing", "openms/mqed/vtqedhf.py:RHF.set_params, set_var_params, pre_update_var_params")])
P("P10", "Displaced photon states and their densities are exact",
  "For every Fock truncation, displacement and photon density, the displacement-operator blocks and Franck-Condon factors are the documented matrix elements sqrt(n!/m!) (-A)^(m-n) L_n^(m-n)(A^2) (times exp(-A^2/2)) contracted with the photon density of the right mode, and their derivatives along the displacement, the coupling fraction and the squeezing are the exact derivatives by the chain rule. "
  "The photon density and mean occupation of each mode come from that mode's own coefficients, the joint, electron and photon densities in the original representation are those of the displaced state, and packing symmetric photon matrices and unpacking them is lossless.",
  ["inputs", "configurations"], "all displacements, densities and mode sizes; Fock truncations 1 to 4 enumerated; derivatives without coherence between neighbouring Fock states and along eta beyond the vacuum are known findings",
  TESTS + "almost every run keeps the photon vacuum only, where all blocks reduce to a Gaussian.",
  ["openms/lib/boson.py", "openms/mqed/scqedhf.py", "openms/mqed/vtqedhf.py"],
  [("displacement blocks", "openms/lib/boson.py:Photon.displacement_matrix, displacement_exp_val, displacement_deriv*"), ("Franck-Condon factors", "openms/mqed/scqedhf.py:RHF.FC_factor; openms/mqed/vtqedhf.py:RHF.gaussian_derivative_f_vector, gaussian_derivative_sq_vector"), ("photon density and packing", "openms/lib/boson.py:Photon.get_boson_dm, get_boson_occ, pack_symmetric, unpack_symmetric")])

P("P11", "Post-mean-field integrals describe the same system as the mean field",
  "For every converged mean field, the one- and two-electron integrals, photon frequencies and electron-photon couplings that the photon object hands to correlated solvers (spatial or spin orbitals, shifted or unshifted photon representation) are the Pauli-Fierz Hamiltonian in the mean-field orbitals, blocks are slices of the full arrays and antisymmetrised where documented, and evaluating the mean-field energy from them gives back the mean-field energy. "
  "Producing them never changes the mean-field object.",
  ["inputs", "configurations"], "all basis sizes, orbitals, densities, dipoles, couplings; one or two modes; the shifted mean-field energy is a known finding",
  TESTS + "the integrals are never compared to the Hamiltonian, and most accessors are not called by any test.",
  ["openms/lib/boson.py"],
  [("integrals", "openms/lib/boson.py:Photon.fock, g_fock, hf_energy, get_mos, get_gmat_so, gint, mfG, get_I, get_integrals4fci"), ("blocks", "openms/lib/ov_blocks.py:block_diag, make_two_e_blocks, make_two_e_blocks_full")])
P("P12", "QED-FCI diagonalises the electron-photon Hamiltonian",
  "For every set of integrals, couplings, photon frequencies and Fock truncations, applying the contraction routines to a configuration vector is applying the second-quantised one-electron, two-electron, Hubbard, photon and electron-photon operators on the truncated Fock space, the absorbed one-electron part represents the full electronic Hamiltonian, and the kernel returns normalised lowest eigenstates with the core energy counted once, independent of the coherent-state shift in a large Fock space. "
  "The electron and photon density matrices are the expectation values of the corresponding operators.",
  ["inputs", "configurations"], "all integrals, configuration vectors and Fock truncations; orbital, electron and mode numbers enumerated (at most 3 orbitals, 2 modes)",
  TESTS + "one Hubbard-type chain with one mode is diagonalised; several modes, coupled modes, density matrices and spin-resolved integrals are never exercised.",
  ["openms/mqed/qedfci.py"],
  [("contractions", "openms/mqed/qedfci.py:contract_1e, contract_2e, contract_2e_hubbard, contract_bb, contract_eb, contract_all, cre_boson, des_boson"), ("solver", "openms/mqed/qedfci.py:kernel, make_hdiag"), ("density matrices", "openms/mqed/qedfci.py:make_rdm1e, make_rdm12e, make_rdm1p")])

P("P13", "QED-CCSD residuals are the projected Schroedinger equation",
  "For every number of occupied and virtual spin orbitals, photon modes and amplitudes, the T1, T2, S1, S2, U11, U12, U21 and (single mode) U22 residuals returned by the optimised and by the reference coupled-cluster equations equal the projections of exp(-T) H exp(T)|0> of the electron-photon Hamiltonian, "
  "with the boson truncation (1 or 2 photons in S and U) and with or without the double-excitation photon amplitudes; they agree with each other and are symmetric in the photon modes. The orbital blocks they consume are the slices of the integral tensor they are named after.",
  ["inputs", "configurations"], "all orbital and mode numbers, all integrals and amplitudes with their permutational symmetry, all four boson truncations",
  TESTS + "no coupled-cluster residual is compared with an independent result; missing or double-counted terms vanish or are small in the usual start from zero amplitudes and in single-mode problems.",
  ["openms/mqed/myqedcc_equations_opt.py", "openms/mqed/qedcc_equations.py", "openms/lib/ov_blocks.py"],
  [("optimised equations", "openms/mqed/myqedcc_equations_opt.py:new_qedccsd_sn_u2n, Imds.build, qedccsd_T1T2_opt, qedccsd_Sn, qedccsd_U1n_opt, qedccsd_U2n_opt"), ("reference equations", "openms/mqed/qedcc_equations.py:qedccsd_sn_u2n and the functions it calls"), ("orbital blocks", "openms/lib/ov_blocks.py:make_two_e_blocks, make_two_e_blocks_full, block_diag")])
P("P14", "lattice models expose the Hamiltonian they document",
  "For every chain length, filling, interaction, coupling and boundary condition, the Hubbard and Hubbard-Holstein models expose exactly the documented Hamiltonian: nearest-neighbour hopping of -1 on the open or periodic chain, on-site interaction, local or bond electron-phonon couplings displaced by the mean-field density when shifted; their Fock matrices, mean-field energies, orbital-basis one- and two-electron integrals (spin-orbital, antisymmetrised and spin-blocked) and occupied/virtual blocks are those of that Hamiltonian in the given orbitals. "
  "The molecular-aggregate model diagonalises the nearest-neighbour exciton chain it documents, and its linear and two-dimensional spectra are the documented sums of Lorentzians over the requested states.",
  ["inputs", "configurations"], "all chain lengths, fillings, orbitals, couplings, boundary conditions and spin sectors",
  TESTS + "no test builds a lattice model; a wrong block or boundary term changes only particular lengths or fillings.",
  ["openms/models/hubbard.py", "openms/models/hh_model.py", "openms/models/aggregates.py", "openms/lib/ov_blocks.py"],
  [("chain models", "openms/models/hubbard.py:Hubbard1D; openms/models/hh_model.py:HHModel"), ("aggregates", "openms/models/aggregates.py:DMA, linear_spec, tdes")])
P("P15", "Trial states and initial walkers are the states they document",
  "For every molecule, basis and electron number, the mean-field trial holds exactly the occupied orbitals of each spin in the chosen orthonormal basis, with alpha and beta blocks side by side, and every walker starts as that trial with unit weight and overlap factor, its spins split at the number of alpha electrons. "
  "The photon trial is the normalised product of the documented single-mode states for every number of modes and every Fock truncation, and the first-quantised oscillator trials report the value, logarithmic gradient, laplacian and local energy of the Gaussian they document, the local energy vanishing identically for the exact ground state.",
  ["inputs", "configurations"], "all basis sizes, spin cases, oscillator counts, masses, frequencies, shifts; mode numbers and Fock truncations enumerated",
  TESTS + "only closed-shell atomic-orbital trials with a single photon mode are built, and a trial of the wrong occupation or norm only changes the statistical error.",
  ["openms/qmc/trial.py", "openms/qmc/trial_boson.py", "openms/qmc/generic_walkers.py"],
  [("determinant trial", "openms/qmc/trial.py:TrialHF.build, make_trial"), ("photon trials", "openms/qmc/trial.py:initialize_boson_trial_with_z; openms/qmc/trial_boson.py:TrivialFock, TrialQ, TrialP"), ("initial walkers", "openms/qmc/generic_walkers.py:Walkers_so.__init__, initialize_walkers")])

TECH = "contract-based deductive verification: symbolic execution of the current source against pre/postconditions, obligations discharged by exact tensor normal form + z3"
NOTE = ("Each contract is discharged for all dimensions and values by symbolically executing the source in /repo as it is now (loops by exact summaries, callees by their body or contract); "
        "assumes exact arithmetic, the stated contracts of numpy/scipy/pyscf calls and the soundness of vc/. Contracts the engine cannot finish fall back to bounded concrete runs of the real code and are listed as bounded in the evidence. ")
NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                                                          hook_needed=None))) + "\n")
    na = {n["property"] for n in NA}
    m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/selftest.py",
             checks=[dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python check.py {p['id']} --tier quick",
                          thorough_cmd=f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
                          technique=TECH, level=p["level"], level_note=NOTE + p["note"]) for p in PROPS if p["id"] not in na],
             not_applicable=NA)
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
