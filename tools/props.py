NOTES = ("Every check compiles the C extensions of /repo's current tree out of tree into "
         "/verif/build (cached by source hash) and imports the Python of /repo.")
NOT_YET = {}
I, C, S, H = "inputs", "configurations", "schedules", "histories"
EXP = "Held on every execution observed in the run; assumes the oracle in checks/ and harness/ (independent Python/numpy recomputation) and the toy lattice models."


def P(id, title, statement, over, q, why, files, mech, obs, technique, note=EXP):
    return dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files,
                mech=mech, obs=obs, technique=technique, note=note)


PROPS = [
P("C01", "Brillouin-zone grid covers every mesh point and all its boundary images",
  "For every cell and mesh (regular, generalized-regular, shifted), the BZ grid contains every mesh point modulo reciprocal lattice vectors, each listed point has the shortest length among its periodic images, and points on the zone boundary are listed together with all their equivalent shortest images. The maps between mesh-point indices and BZ indices are mutually inverse on that set.",
  [I, C], "all lattices, centrings, integer mesh matrices, shifts, both storage layouts",
  "Tests use a handful of cubic/hexagonal crystals; skewed lattices and non-diagonal meshes are where boundary handling fails.",
  ["phono3py/phonon/grid.py", "c/bzgrid.c", "c/grgrid.c", "c/recgrid.c", "c/niggli.c", "c/snf3x3.c"],
  [("BZGrid", "phono3py/phonon/grid.py"), ("bzg_get_bz_grid_addresses", "c/bzgrid.c")],
  ["BZGrid.addresses", "BZGrid.gp_map", "BZGrid.bzg2grg", "BZGrid.grg2bzg"],
  "runtime monitor: offline oracle over grid objects produced by random lattices"),
P("C02", "Irreducible q-points are exactly the symmetry orbits, rotations act consistently",
  "The irreducible grid points and their weights are exactly the orbits of the mesh under the reciprocal-space point group (with or without time reversal), and weights sum to the number of mesh points. Rotating any grid point by any of the grid's rotations gives the grid point whose q-vector is the rotated q-vector.",
  [I, C], "all lattices, space groups, commensurate meshes, time reversal on/off",
  "Sampled tests compare with stored numbers for a few meshes only.",
  ["phono3py/phonon/grid.py", "c/grgrid.c", "c/bzgrid.c"],
  [("get_ir_grid_points", "phono3py/phonon/grid.py"), ("get_grid_points_by_rotations", "phono3py/phonon/grid.py")],
  ["get_ir_grid_points", "get_grid_points_by_rotations", "BZGrid.rotations"],
  "runtime monitor: orbits recomputed from q-vectors"),
P("C03", "A mesh request yields a grid that is commensurate with the crystal symmetry",
  "Whatever mesh is requested (length, mesh numbers, grid matrix), the resulting grid matrix has a valid Smith normal form (integer unimodular P, Q with D = P G Q, positive D) and every symmetry operation maps the grid onto itself, otherwise the request is refused. A length request gives at least the corresponding density in a deterministic way.",
  [I, C], "all lattices and centrings, requested lengths and mesh numbers, symmetry on/off",
  "Tests check few fixed crystals.",
  ["phono3py/phonon/grid.py", "c/snf3x3.c", "c/grgrid.c"],
  [("GridMatrix", "phono3py/phonon/grid.py"), ("snf3x3", "c/snf3x3.c")],
  ["BZGrid.D_diag", "BZGrid.P", "BZGrid.Q", "BZGrid.grid_matrix"],
  "runtime monitor: algebraic postconditions on produced grids"),
P("C04", "Triplets conserve crystal momentum and count every q1 exactly once",
  "For every grid point q0 the list of triplets satisfies q0+q1+q2 = G for each triplet, with G = 0 whenever zone-boundary images allow it. The weights equal the sizes of the orbits of q1 under the operations that keep q0 (and exchange of q1 and q2), one triplet per orbit, and sum to the number of mesh points.",
  [I, C], "all lattices, meshes, grid points, time-reversal/exchange/symmetry options",
  "Tests compare a few stored lists.",
  ["phono3py/phonon3/triplets.py", "c/triplet_grid.c"],
  [("get_triplets_at_q", "phono3py/phonon3/triplets.py"), ("tpl_get_BZ_triplets_at_q", "c/triplet_grid.c")],
  ["get_triplets_at_q", "get_nosym_triplets_at_q", "get_all_triplets"],
  "runtime monitor: orbits recomputed from q-vectors"),
P("C05", "Brillouin-zone integration weights equal the exact tetrahedron or smearing rule",
  "Tetrahedron weights equal the analytic linear-interpolation result for both the density and the integrated type, and smearing weights equal the (optionally truncated) normalised Gaussian, for single phonons and for each of the three triplet combinations. For frequencies without degeneracy at the sampling point the C and Python routes agree.",
  [I, C], "all lattices, band structures, sampling frequencies, sigma and cutoff",
  "Degenerate vertices and unusual meshes are not enumerated by tests.",
  ["c/tetrahedron_method.c", "c/triplet_iw.c", "phono3py/phonon3/triplets.py", "phono3py/other/tetrahedron_method.py", "phono3py/phonon/func.py"],
  [("thm_get_integration_weight", "c/tetrahedron_method.c"), ("tpi_get_integration_weight", "c/triplet_iw.c")],
  ["get_triplets_integration_weights", "get_integration_weights", "get_tetrahedra_relative_grid_address"],
  "runtime monitor: B-spline closed form oracle"),
P("C06", "Ph-ph interaction strength equals the Fourier-transformed anharmonic coupling",
  "|Phi(q0 j0, q1 j1, q2 j2)|^2 equals the square of the third-order force constants Fourier transformed with the minimum-image multiplicities, contracted with the phonon eigenvectors and divided by masses and frequencies, for every triplet and band, and is zero when a frequency is below the cutoff. Full and compact force constants, all valid r0-averaging choices, grouped degenerate modes and every internal work distribution give the same strengths.",
  [I, C], "crystals, supercells, meshes, triplets, full/compact fc3, r0 average on/off, band subsets, symmetrize_fc3q",
  "Tests compare sums of a few materials with stored numbers.",
  ["c/interaction.c", "c/real_to_reciprocal.c", "c/reciprocal_to_normal.c", "phono3py/phonon3/interaction.py", "phono3py/phonon3/real_to_reciprocal.py", "phono3py/phonon3/reciprocal_to_normal.py"],
  [("itr_get_interaction", "c/interaction.c"), ("r2r_real_to_reciprocal", "c/real_to_reciprocal.c")],
  ["Interaction.interaction_strength"],
  "runtime monitor: brute-force recomputation per triplet"),
P("C07", "Selecting bands, triplets or grid points only slices the full result",
  "Results computed for a subset of band indices, grid points, temperatures, smearing values or frequency points equal the corresponding slice of the result computed for the complete set. This holds for interaction strength, imaginary and real self energies, joint density of states, isotope scattering and mode conductivities.",
  [I, C], "crystals, meshes, band-index groups, grid points, temperature and sigma lists",
  "Tests use one fixed subset; indices coincide when subset starts at zero.",
  ["c/interaction.c", "c/imag_self_energy_with_g.c", "phono3py/phonon3/interaction.py", "phono3py/phonon3/imag_self_energy.py", "phono3py/phonon3/real_self_energy.py", "phono3py/other/isotope.py", "phono3py/conductivity/base.py"],
  [("band_indices", "phono3py/phonon3/interaction.py")],
  ["run_imag_self_energy", "run_real_self_energy", "run_isotope", "run_thermal_conductivity"],
  "runtime monitor: metamorphic slice comparison"),
P("C08", "Low-memory collision path equals the explicit path",
  "Linewidths obtained by on-the-fly accumulation of the collision rates equal those obtained through explicitly stored interaction strengths and integration weights, for every mesh, temperature, smearing, cutoff, full-pp option, N/U separation and fc3 symmetrization choice.",
  [I, C], "crystals, meshes, grid points, band subsets, temperatures, sigmas, tetrahedron, is_N_U, symmetrize_fc3q",
  "Tests compare one or two materials.",
  ["c/pp_collision.c", "c/interaction.c", "c/imag_self_energy_with_g.c", "phono3py/conductivity/rta.py", "phono3py/conductivity/utils.py"],
  [("ppc_get_pp_collision", "c/pp_collision.c"), ("ConductivityRTABase._set_gamma_at_sigmas_lowmem", "phono3py/conductivity/rta.py")],
  ["ConductivityRTA.gamma", "ConductivityRTA.get_gamma_N_U"],
  "runtime monitor: differential between two paths of the product"),
P("C09", "Imaginary self energy obeys the golden rule at every frequency and temperature",
  "Gamma equals the weighted sum over triplets of |Phi|^2 times the occupation factors and the energy-conserving delta functions; it is non-negative, its zero-temperature value keeps only decay processes, per-triplet details sum to the total and the normal and Umklapp parts add up to the total. All run modes (bands, frequency points, tetrahedron, smearing) are consistent with each other.",
  [I, C], "crystals, meshes, grid points, temperatures incl. 0 and extremes, sigma/tetrahedron, cutoff, frequency points, details",
  "Tests compare stored numbers for two materials at 300 K.",
  ["c/imag_self_energy_with_g.c", "phono3py/phonon3/imag_self_energy.py"],
  [("ise_get_imag_self_energy_at_bands_with_g", "c/imag_self_energy_with_g.c"), ("ImagSelfEnergy", "phono3py/phonon3/imag_self_energy.py")],
  ["ImagSelfEnergy.imag_self_energy", "ImagSelfEnergy.detailed_imag_self_energy", "run_imag_self_energy"],
  "runtime monitor: independent golden-rule oracle"),
P("C10", "Results do not depend on the setting of the crystal or on use of mesh symmetry",
  "Thermal conductivity, linewidths, joint DOS and isotope rates on the same q-mesh (averaged over degenerate modes) are the same with and without mesh symmetry for smearing integration, and transform as the corresponding tensors when the crystal is rigidly rotated, translated, its atoms are permuted or its basis vectors are changed by a unimodular matrix.",
  [I, C], "crystals, rotations, translations, permutations, basis changes, meshes, symmetry on/off",
  "Tests use the input files as they are.",
  ["phono3py/conductivity/base.py", "phono3py/conductivity/rta.py", "phono3py/phonon3/interaction.py", "phono3py/phonon/grid.py", "phono3py/phonon3/triplets.py"],
  [("k-star average", "phono3py/conductivity/base.py")],
  ["ThermalConductivity.kappa", "gamma", "mode_kappa"],
  "runtime monitor: metamorphic transformation of inputs"),
P("C11", "RTA conductivity is the sum over modes of C v v tau",
  "The relaxation-time conductivity equals the Brillouin-zone average of heat capacity times group velocity products times lifetime, with lifetime 1/(2*(2*pi)*(ph-ph + isotope + boundary rates)) and modes below the frequency cutoff excluded. The tensor is symmetric, positive semidefinite, invariant under the crystal point group and equals the sum of the reported mode contributions.",
  [I, C], "crystals, meshes, temperatures, isotope, boundary mean free path, cutoff frequency, tetrahedron/smearing",
  "Tests compare six numbers of stored kappa.",
  ["phono3py/conductivity/rta.py", "phono3py/conductivity/base.py", "phono3py/conductivity/utils.py"],
  [("ConductivityRTA", "phono3py/conductivity/rta.py")],
  ["ThermalConductivity.kappa", "mode_kappa", "gamma", "gv_by_gv", "mode_heat_capacities"],
  "runtime monitor: closure recomputed from reported quantities"),
P("C12", "Direct solution of the linearized BTE uses a faithful collision matrix",
  "Each element of the collision matrix equals the sum over all triplets without symmetry reduction (averaged over degenerate modes and symmetrised over the star), the matrix is symmetric for smearing integration, its diagonal part has the linewidths of the RTA calculation, and the irreducible and reducible forms give the same conductivity when modes are not degenerate. The conductivity equals that of an independent eigen-decomposition of the full matrix with the given cutoff for every solver and pseudo-inversion method, has the symmetry of the crystal, and the accompanying relaxation-time value equals that of the RTA calculation (irreducible form) or of the diagonal (reducible form).",
  [I, C], "crystals, meshes, temperatures, pinv cutoff/solver/method, reducible/irreducible, isotope/boundary",
  "Tests compare stored kappa for two materials.",
  ["phono3py/conductivity/direct_solution.py", "phono3py/phonon3/collision_matrix.py", "c/collision_matrix.c", "c/lapack_wrapper.c"],
  [("ConductivityLBTE", "phono3py/conductivity/direct_solution.py"), ("col_get_collision_matrix", "c/collision_matrix.c")],
  ["ConductivityLBTE.collision_matrix", "kappa", "kappa_RTA", "mode_kappa"],
  "runtime monitor: spectral and symmetry invariants + independent solve"),
P("C13", "A conductivity run split into pieces equals the single run",
  "Computing linewidths (or interaction strengths or collision matrices) separately per grid point, band or smearing, writing them to files and collecting them gives the same conductivity as the single run, for every partition and order of the pieces. A missing, truncated or mismatching piece is reported as a failure and never silently replaced by zeros or data of another mesh, temperature set or smearing.",
  [H, C, "fault_sequences"], "partitions of grid points/bands/sigmas, orders, interrupted runs, missing or foreign files",
  "Tests never split a run or lose a file.",
  ["phono3py/conductivity/utils.py", "phono3py/conductivity/rta.py", "phono3py/conductivity/direct_solution.py", "phono3py/file_IO.py"],
  [("set_gamma_from_file", "phono3py/conductivity/utils.py"), ("write_gamma", "phono3py/conductivity/utils.py")],
  ["kappa-*.hdf5", "collision-*.hdf5", "ThermalConductivity.kappa"],
  "runtime monitor: workload distribution with fault injection"),
P("C14", "Computed arrays written to files are read back unchanged",
  "Phonon, interaction-strength, linewidth, collision-matrix and self-energy files reproduce the arrays and metadata they were written from (values, shapes, meshes, temperatures, grid points, compression choices), and a file name always identifies one mesh, grid point, band and smearing setting. Restarting from these files gives the same final result.",
  [I, C, H], "arrays of any valid shape, file name options, compression settings",
  "Tests do not write most files.",
  ["phono3py/file_IO.py", "phono3py/api_phono3py.py", "phono3py/conductivity/utils.py"],
  [("write_kappa_to_hdf5", "phono3py/file_IO.py"), ("read_pp_from_hdf5", "phono3py/file_IO.py")],
  ["file_IO.write_*", "file_IO.read_*"],
  "runtime monitor: write/read trace comparison"),
P("C15", "Saved projects reload to the same model",
  "Crystal cells, supercell and primitive matrices, displacement-force datasets of both types, Born charges and force constants written to phono3py.yaml and the force and force-constant files and loaded back define the same model, with numerically the same phonons and interaction strengths. This holds for compact and full force constants, separate phonon supercells and with or without forces, energies, cutoff pairs and units of the calculators.",
  [I, C, H], "crystals, supercells, dataset types, compact/full, phonon supercells, calculators",
  "Tests load given files only.",
  ["phono3py/interface/phono3py_yaml.py", "phono3py/file_IO.py", "phono3py/cui/load.py", "phono3py/api_phono3py.py"],
  [("Phono3py.save", "phono3py/api_phono3py.py"), ("load", "phono3py/cui/load.py")],
  ["phono3py_params.yaml", "fc3.hdf5", "fc2.hdf5", "FORCES_FC3"],
  "runtime monitor: round-trip comparison"),
P("C16", "Finite-displacement force constants reproduce an exactly cubic crystal",
  "For forces generated from a polynomial potential, the force constants produced from the displacement dataset reproduce the second- and third-order derivatives of the potential up to the finite-displacement error, in full and compact form, with the displacements generated by the code itself and for datasets of random displacements when a fitting backend is available.",
  [I, C], "crystals, supercells, displacement amplitude, diagonal/plusminus options, phonon supercells, full/compact",
  "Tests use stored DFT forces whose exact force constants are unknown.",
  ["phono3py/phonon3/fc3.py", "phono3py/phonon3/displacement_fc3.py", "c/fc3.c", "phono3py/interface/fc_calculator.py", "phono3py/api_phono3py.py"],
  [("get_fc3", "phono3py/phonon3/fc3.py"), ("fc3_distribute_fc3", "c/fc3.c")],
  ["Phono3py.fc3", "Phono3py.fc2"],
  "runtime monitor: exact polynomial-potential oracle"),
P("C17", "Symmetrization of force constants enforces the invariances and nothing else",
  "After symmetrization third-order force constants are invariant under permutation of legs, satisfy the sum rules and, where they did so before, the space-group symmetry; already symmetric force constants are unchanged. Compact and full forms stay consistent under every symmetrization, expansion and cutoff operation.",
  [I, C], "crystals, supercells, perturbed fc arrays, compact/full",
  "Tests compare a few stored numbers.",
  ["phono3py/phonon3/fc3.py", "c/fc3.c", "phono3py/phonon3/dataset.py", "phono3py/api_phono3py.py"],
  [("symmetrize_fc3", "phono3py/api_phono3py.py"), ("set_permutation_symmetry_fc3", "phono3py/phonon3/fc3.py")],
  ["Phono3py.fc3", "set_translational_invariance_fc3", "cutoff_fc3_by_zero"],
  "runtime monitor: invariants on perturbed arrays, compact/full differential"),
P("C18", "Generated displacements are complete and free of duplicates",
  "The generated displacement pairs, together with the crystal symmetry, determine all third-order force constants; every first displacement is symmetry independent, every supercell with displacements matches its dataset entry, plus-minus options and cutoff pair distance select exactly what they say, and random displacement generation has the requested amplitude and is reproducible from a seed.",
  [I, C], "crystals, supercells, distance, plusminus, diagonal, cutoff pair distance, random seeds",
  "Tests count displacements for a few crystals.",
  ["phono3py/phonon3/displacement_fc3.py", "phono3py/api_phono3py.py"],
  [("get_third_order_displacements", "phono3py/phonon3/displacement_fc3.py"), ("direction_to_displacement", "phono3py/phonon3/displacement_fc3.py")],
  ["Phono3py.dataset", "Phono3py.supercells_with_displacements", "Phono3py.phonon_dataset"],
  "runtime monitor: rank/completeness oracle by full symmetry enumeration"),
P("C19", "Displacements, forces and datasets stay consistent in every representation",
  "Setting displacements, forces or a dataset and reading them back returns the same values in the order of the displaced supercells for both dataset types; converting between type-1 and type-2, and writing and parsing force and displacement files, keeps the pairing between displacements and forces. Force-set creation from calculator outputs subtracts only what is requested and attributes each output to its displacement.",
  [I, H, C], "datasets with/without cutoff, partial pairs, both types, orders of setter calls",
  "Tests use complete datasets only.",
  ["phono3py/api_phono3py.py", "phono3py/phonon3/dataset.py", "phono3py/file_IO.py", "phono3py/cui/create_force_sets.py"],
  [("Phono3py.forces", "phono3py/api_phono3py.py"), ("get_displacements_and_forces_fc3", "phono3py/phonon3/dataset.py"), ("parse_FORCES_FC3", "phono3py/file_IO.py")],
  ["Phono3py.displacements", "Phono3py.forces", "FORCES_FC3"],
  "runtime monitor: model-based state comparison"),
P("C20", "Results depend only on the current settings, not on call history",
  "After any sequence of setting changes (mesh, NAC, force constants, masses, band indices, sigmas, cutoffs, phonons) and calculations on one object, a calculation returns what a fresh object with the same final settings returns. Repeating a calculation returns the same result and inputs passed by the caller are not modified.",
  [H], "sequences of public API calls on a shared object",
  "Tests build a fresh object and run one calculation.",
  ["phono3py/api_phono3py.py", "phono3py/phonon3/interaction.py", "phono3py/api_jointdos.py", "phono3py/other/isotope.py"],
  [("Interaction._allocate_phonon", "phono3py/phonon3/interaction.py"), ("Phono3py.mesh_numbers", "phono3py/api_phono3py.py")],
  ["Phono3py.*"],
  "runtime monitor: random API histories vs fresh object"),
P("C21", "Grid phonons are the eigen-solutions of the dynamical matrix",
  "Frequencies and eigenvectors on the grid diagonalise the dynamical matrix built from the force constants with minimum-image phases and (when set) the Gonze-Lee or Wang non-analytical correction incl. the chosen direction at Gamma; eigenvectors are orthonormal, imaginary modes are reported as negative frequencies. The batched C route, the per-point route and the phonopy route agree.",
  [I, C], "crystals, supercells, meshes, NAC methods and directions, full/compact fc2, soft modes",
  "Tests compare a few frequencies.",
  ["c/dynmat.c", "c/phonon.c", "phono3py/phonon/solver.py", "phono3py/phonon3/interaction.py"],
  [("run_phonon_solver_c", "phono3py/phonon/solver.py"), ("phn_get_phonons_at_gridpoints", "c/phonon.c")],
  ["Interaction.get_phonons"],
  "runtime monitor: independent dynamical-matrix oracle, differential to phonopy"),
P("C22", "Group velocities are the derivatives of the phonon frequencies",
  "Group velocities reported with conductivities equal the frequency gradient (averaged consistently over degenerate modes), their outer products summed over the star of q are invariant under the point group, and the velocity operators of the Wigner and Kubo formulations have these as diagonal elements and are Hermitian.",
  [I, C], "crystals, meshes, NAC on/off, degenerate bands, q-lengths",
  "Tests compare a few numbers.",
  ["phono3py/conductivity/base.py", "phono3py/phonon/group_velocity_matrix.py", "phono3py/phonon/velocity_operator.py"],
  [("get_gv_by_gv", "phono3py/conductivity/base.py")],
  ["ThermalConductivity.group_velocities", "gv_by_gv"],
  "runtime monitor: finite-difference oracle"),
P("C23", "Isotope scattering rates follow the mass-variance formula",
  "Phonon-isotope rates equal the mass-variance weighted sum over final modes of eigenvector overlaps times the energy-conserving delta function, with natural-abundance or user mass variances, for tetrahedron and smearing; they are non-negative, vanish for zero variance and scale linearly with it.",
  [I, C], "crystals, meshes, grid points, mass variances, sigma/tetrahedron, band indices",
  "Tests compare stored values of one material.",
  ["phono3py/other/isotope.py", "c/isotope.c", "phono3py/api_isotope.py"],
  [("Isotope", "phono3py/other/isotope.py"), ("iso_get_isotope_scattering_strength", "c/isotope.c")],
  ["Isotope.gamma", "Phono3pyIsotope.gamma"],
  "runtime monitor: independent formula oracle"),
P("C24", "Joint densities of states count two-phonon states",
  "The two joint densities of states at a q-point equal the sums of delta functions over pairs of modes with momentum conservation (sum and difference processes, thermally weighted when temperatures are given); the unweighted sum-process density integrates to the number of mode pairs.",
  [I, C], "crystals, meshes, grid points, frequency ranges, sigma/tetrahedron, temperatures, NAC direction",
  "Tests compare a few stored values.",
  ["phono3py/phonon3/joint_dos.py", "phono3py/api_jointdos.py", "c/triplet_iw.c"],
  [("JointDos", "phono3py/phonon3/joint_dos.py")],
  ["JointDos.joint_dos", "Phono3pyJointDos.joint_dos"],
  "runtime monitor: independent formula oracle"),
P("C25", "Real self energy and spectral function are consistent with the imaginary part",
  "The frequency shift equals the principal-value sum over triplets with the given broadening and temperature; the spectral function built from the real and imaginary parts satisfies its definition, is non-negative where the linewidth is and its real part is the Kramers-Kronig transform of its imaginary part.",
  [I, C], "crystals, meshes, grid points, temperatures, epsilons, frequency points",
  "Tests compare a few stored values.",
  ["phono3py/phonon3/real_self_energy.py", "phono3py/phonon3/spectral_function.py", "c/real_self_energy.c"],
  [("RealSelfEnergy", "phono3py/phonon3/real_self_energy.py"), ("SpectralFunction", "phono3py/phonon3/spectral_function.py")],
  ["run_real_self_energy", "run_spectral_function"],
  "runtime monitor: independent formula oracle"),
P("C26", "Mode Grueneisen parameters are the strain derivatives of frequencies",
  "Mode Grueneisen parameters computed from the third-order force constants equal minus the logarithmic volume (strain) derivative of the frequencies obtained from the harmonic crystal with the strained force constants, independent of full or compact representation and of the sampling mode (mesh, band path, q-points).",
  [I, C], "crystals, supercells, q-points, NAC, ionic relaxation on/off",
  "There is one stored-number test.",
  ["phono3py/phonon3/gruneisen.py", "phono3py/api_phono3py.py"],
  [("Gruneisen", "phono3py/phonon3/gruneisen.py")],
  ["run_gruneisen", "Gruneisen.gruneisen_parameters"],
  "runtime monitor: finite-strain oracle"),
P("C27", "Cumulative quantities integrate to their totals",
  "Cumulative thermal conductivity (over frequency or mean free path), cumulative or differential DOS of linewidths, lifetimes and gv-products computed from a conductivity result end at the total value of that result, are consistent between a quantity and its derivative, and do not depend on whether symmetry was used on the mesh.",
  [I, C], "conductivity files of any crystal, mesh and options; temperatures; grid-symmetry option",
  "Tests cover one tensor of one material.",
  ["phono3py/other/kaccum.py", "phono3py/cui/kaccum_script.py"],
  [("KappaDOSTHM", "phono3py/other/kaccum.py"), ("run_prop_dos", "phono3py/other/kaccum.py")],
  ["phono3py-kaccum output", "get_mfp"],
  "runtime monitor: conservation at the end of the integral"),
P("C28", "Wigner and Kubo conductivities extend RTA by a proper coherence term",
  "In the Wigner formulation the population part equals the relaxation-time conductivity with the same linewidths, the total is the sum of population and coherence parts, the coherence part follows from the velocity operator and linewidths by its definition, is symmetric in modes and positive semidefinite on the diagonal. The Green-Kubo heat-capacity matrix reduces to mode heat capacity on its diagonal.",
  [I, C], "crystals with several branches, meshes, temperatures, scattering options",
  "Tests compare six numbers for one material.",
  ["phono3py/conductivity/wigner.py", "phono3py/conductivity/kubo.py", "phono3py/conductivity/rta.py", "phono3py/phonon/heat_capacity_matrix.py"],
  [("ConductivityWignerRTA", "phono3py/conductivity/rta.py")],
  ["kappa_P_RTA", "kappa_C", "kappa_TOT_RTA"],
  "runtime monitor: closure recomputed from reported quantities"),
P("C29", "SSCHA force constants and supercell utilities follow their definitions",
  "The third- and fourth-order self-consistent correction uses displacement correlations that equal the thermal mean-square displacements, mode contributions sum to total, and the third-order term contraction equals its direct evaluation.",
  [I, C], "crystals, supercells, temperatures",
  "One stored test.",
  ["phono3py/sscha/sscha.py"],
  [("DispCorrMatrix", "phono3py/sscha/sscha.py"), ("ThirdOrderFC", "phono3py/sscha/sscha.py")],
  ["DispCorrMatrix", "SupercellPhonon", "ThirdOrderFC"],
  "runtime monitor: independent formula oracle"),
P("C30", "Native code is free of memory errors and undefined behaviour",
  "For every input accepted by the public Python API the native extensions never read or write outside the arrays they are given, never use freed or uninitialised memory, execute no undefined behaviour, and results do not depend on heap contents.",
  [I, C], "all public workloads: grids, triplets, phonons, interaction, self energies, collision matrices, fc3 symmetrization, isotope, grid utilities",
  "Tests run without sanitizers and only sample a few shapes.",
  ["c", "phono3py/phonon3", "phono3py/conductivity"],
  [("nanobind wrappers", "c/_phono3py.cpp"), ("phono3py.c", "c/phono3py.c")],
  ["sanitizer reports", "results under heap poisoning"],
  "AddressSanitizer + UndefinedBehaviorSanitizer, heap-poison differential",
  "Held on every execution observed; ASan/UBSan instrument the native extensions only (not numpy/BLAS)."),
P("C31", "Results are independent of the number of threads and their scheduling",
  "Parallel sections of the native code contain no data races and every result is the same for any number of threads and any scheduling, up to rounding of sums whose order depends on the reduction.",
  [S, C], "thread counts 1..8, schedules, work distribution branches (over triplets, over bands, over q-points)",
  "Tests run one thread configuration.",
  ["c/interaction.c", "c/pp_collision.c", "c/imag_self_energy_with_g.c", "c/collision_matrix.c", "c/dynmat.c", "c/triplet_iw.c", "c/triplet_grid.c", "c/isotope.c", "c/real_self_energy.c", "c/fc3.c"],
  [("omp parallel for", "c/*.c")],
  ["results per thread count", "race reports"],
  "thread-count differential under injected oversubscription, race monitor"),
P("C32", "Command-line runs give the results of the API",
  "The command-line programs, driven by options or configuration files, produce files with the values that the corresponding API calls compute, options given in either form mean the same, and restarting from written force constants or phonons changes nothing.",
  [C, I, H], "option combinations for crystals and datasets",
  "CLI tests mainly check that files exist.",
  ["phono3py/cui/phono3py_script.py", "phono3py/cui/settings.py", "phono3py/cui/phono3py_argparse.py", "phono3py/cui/create_force_constants.py", "phono3py/cui/load.py"],
  [("main", "phono3py/cui/phono3py_script.py"), ("Phono3pyConfParser", "phono3py/cui/settings.py")],
  ["kappa-*.hdf5", "phono3py.yaml"],
  "runtime monitor: CLI/API differential"),
]
