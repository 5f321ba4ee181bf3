#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the wording lives in one reviewable place)."""
import json, os
P = []
def prop(pid, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, (pid, len(title))
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    anchors.update(kw)
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': anchors})
D = 'src/dga/'
MF, TP, BU, BZ, LF, FP = D+'matsubara_frequencies.py', D+'two_point.py', D+'bubble.py', D+'brillouin_zone.py', D+'local_four_point.py', D+'four_point.py'
LC, EL, PV, WA, OP, CF = D+'lambda_correction.py', D+'eliashberg_equation.py', D+'pairing_vertex.py', D+'wannier.py', D+'optics.py', D+'config.py'
IO, UT, AC, SY, MP, HL, W2, MA = D+'dga_io.py', D+'util.py', D+'analytic_continuation.py', D+'symmetrize.py', D+'mpi_aux.py', D+'high_level_routines.py', D+'w2dyn_aux_dga.py', D+'dga_main.py'

prop('C01', 'Matsubara grids enumerate exactly the right frequencies',
 'For every number of frequencies, inverse temperature, index offset and full/positive-only choice, a fermionic grid lists exactly the consecutive integers (or the energies (2n+1)*pi/beta) of the requested window in ascending order, and a bosonic grid the integers (or 2n*pi/beta), the unshifted full grids being symmetric about zero. '
 'Asking for the grid of an existing array gives the grid that array is stored on, along whichever axis and for half-range storage as well.',
 ['inputs'], 'all n >= 0, all beta > 0, all integer offsets, both range flags, every calling form (count, count+beta, array, array+beta), every axis of arrays of every size',
 'The unit tests evaluate one or two fixed sizes; an offset/flag/axis error that vanishes for the sampled sizes is not seen, and no test compares the calling forms with each other for all sizes.',
 [MF], [('fermionic grid vn and overloads', MF), ('bosonic grid wn and overloads', MF), ('niv_from_mat / niw_from_mat', MF)])

prop('C02', 'Cutting, extending and glueing frequency boxes keeps frequency labels',
 'Cutting an object to a smaller fermionic or bosonic box, keeping only a shell outside a core, extending a vertex by a constant shell, glueing low-frequency cores to tails, selecting a single bosonic frequency, summing over a frequency window and adding bosonic objects of different size never move a value to another Matsubara frequency and never drop or duplicate one. '
 'In particular cutting undoes extending and glueing, core plus shell is the original, and a quantity has the same value at the same frequency in every box that contains it.',
 ['inputs'], 'all box sizes core <= full, all shell widths >= 0, all array contents, every subset of axes incl. negative axis numbers, ranks 1 to 5',
 'Tests cut one fixed 1-d array; the statement is about all pairs of box sizes, axes and ranks, where an off-by-one only shows for particular size combinations (odd shell, empty shell, non-last axis).',
 [MF], [('cut_v / cut_w / inv_cut_v / cut_v_1d_pos / clip_pos_mf_vn', MF), ('append_v_vp_shell, concatenate_core_asmypt', MF), ('add_bosonic, mat_at_w0, get_mat_at_iwn, wn_sum, vn_centered_sum', MF), ('LocalFourPoint.cut_iv/cut_iw/append_shell', LF)])

prop('C03', 'Full-range objects rebuilt from positive frequencies obey X(-w)=X(w)*',
 'Rebuilding a quantity on the full fermionic or bosonic axis from its non-negative frequencies leaves the supplied half unchanged, places the complex conjugate of the value at +w at -w, stores the zero bosonic frequency exactly once, and flips every additional frequency axis that has to be flipped together with it. '
 'Cutting the rebuilt object back to its non-negative half returns the input.',
 ['inputs'], 'all array contents, all numbers of stored frequencies >= 1, all axis positions and all sets of jointly flipped frequency axes',
 'No test fixes the reconstruction for general axis/rank; one sampled array cannot rule out an index error for other sizes or axes.',
 [MF], [('fermionic_full_nu_range', MF), ('bosonic_full_nu_range', MF)])

prop('C04', 'Frequency shifts and channel rotations pick the right frequency argument',
 'A window of a fermionic function shifted by a bosonic frequency contains at position nu the value at nu-omega (or the pair of arguments prescribed by the plus/minus/centre notation, whose difference is always omega), both for core windows and for shell windows around a core. '
 'The particle-hole to particle-particle rotations and the omega -> nu-nu\' map place at (omega,nu,nu\') exactly the element whose frequency arguments the documented relation prescribes, and no rotation ever reads outside the stored box.',
 ['inputs'], 'all box sizes admissible for the requested window, all bosonic indices of either sign, all array contents',
 'Indices are computed from several sizes at once; a wrong sign or off-by-one silently wraps around in numpy (negative index) and needs particular size ratios or negative bosonic indices to show.',
 [MF, OP, PV], [('get_freq_shift', MF), ('wn_slices_gen / wn_slices_shell / cut_iv_with_iw_shift', MF), ('w_to_vmvp, ph2pp*, ph2pp_wc*', MF), ('get_vmw_v_slice', OP), ('reshape_chi, get_omega_condition, get_pp_slice_4pt', PV)])

prop('C05', 'The local bubble is -beta G(nu)G(nu-omega), by every route',
 'For every local Green\'s function the generalised bubble at (omega,nu) is -beta times the product of the Green\'s function at the two frequencies of the chosen notation, the bubble susceptibility is its sum over nu divided by beta^2, and the shortcut that computes only non-negative omega gives the same result as the direct evaluation whenever G(-nu)=G(nu)*. '
 'The high-frequency completion is the analytic sum of the asymptotic expansion minus its finite-window part, so core plus shell plus completion does not depend on where the window is split.',
 ['inputs'], 'all Green\'s functions with the stated symmetry, all beta, all window sizes, all bosonic index lists, the notations plus/minus/centre, both evaluation routes',
 'The bubble tests need data files and sample one Green\'s function on one grid; prefactor, sign or window errors that cancel for that data (or at omega=0) go unnoticed.',
 [BU], [('get_gchi0 / vec_get_gchi0 / get_chi0_sum / vec_get_chi0_sum', BU), ('BubbleGenerator.get_chi0 / get_gchi0 / get_asympt_sum / get_exact_asymptotics', BU)])

prop('C06', 'The momentum-dependent bubble is the zone average of G(k)G(k+q)',
 'For every lattice Green\'s function the bubble at transfer q is -beta times the Brillouin-zone average of G(k,nu) G(k+q,nu-omega) with periodic momentum addition along all three directions, its fermionic sum over beta^2 is the bubble susceptibility, and both depend only on q modulo a reciprocal lattice vector. '
 'For a momentum-independent Green\'s function it equals the local bubble for every q, and the asymptotic completion uses the zone average of the dispersion product at the same q.',
 ['inputs'], 'all Green\'s functions, all grid shapes (equal or unequal numbers of points per direction), all q lists, windows and bosonic lists',
 'Momentum shifts on a symmetric test lattice with q=0 or an inversion-symmetric dispersion hide sign and axis errors; no test varies the grid shape.',
 [BU, BZ], [('get_gchi0_q / vec_get_gchi0_q / get_chi0_q / vec_get_chi0_q', BU), ('shift_mat_by_ind', BZ), ('get_ek_ekpq / get_asympt_sum_q / get_exact_asymptotics_q / get_chi0q_shell', BU)])

prop('C07', 'Irreducible-zone reduction merges only symmetry-equivalent momenta',
 'For every grid size and every supported symmetry list, each momentum of the full zone is represented by exactly one irreducible point that is an image of it under the declared symmetries; multiplicities sum to the number of momenta. '
 'Restricting a symmetric quantity to the irreducible points and mapping it back reproduces it exactly (mesh and list layout), and the weighted irreducible average equals the plain average over the full zone.',
 ['inputs', 'configurations'], 'all grid shapes (odd, even, 1 along any direction, non-square) and all lists of declared symmetries, all symmetric quantities with arbitrary trailing axes',
 'Tests use a few even square grids; wrong pairing of inversion partners on odd or non-square grids, or wrong weights, are consistent with them.',
 [BZ], [('inv_sym / x_y_sym / x_y_inv / apply_symmetries', BZ), ('KGrid.set_fbz2irrk / set_irrk_maps / map_irrk2fbz / map_fbz2irrk / k_mean / symmetrize_irrk', BZ)])

prop('C08', 'Momentum grids, shifts and paths refer to the momenta they claim',
 'The three momentum axes hold 2*pi*i/n, flattening and unflattening between mesh and list layouts are inverse to each other and consistent with the listed momentum indices, a shift by an index vector or by pi is a periodic translation along exactly the named axes, and a slice at a momentum is the grid plane closest to it. '
 'A path through the zone starts at its first corner, advances along straight segments with indices inside the grid, attaches to every path point the momentum of the grid index it visits on each axis, and mapping a quantity to the path evaluates it at those indices.',
 ['inputs', 'configurations'], 'all grid shapes incl. unequal numbers of points per direction, all shift vectors, all corner lists',
 'Existing tests use equal kx/ky sizes and one path; mixing up axes is invisible there.',
 [BZ], [('KGrid.set_k_axes/kmesh/kmesh_ind/get_q_list/map_fbz_mesh2list/map_fbz_list2mesh', BZ), ('shift_mat_by_pi / shift_mat_by_ind / shift_mat_by_q / get_k_slice', BZ), ('KPath.build_k_path / kpath_segment / get_kpath_val / map_to_kpath', BZ)])

prop('C09', 'Work distribution is a partition; scatter/gather are inverse',
 'For every number of tasks and every number of processes the per-process task lists are contiguous, disjoint, ordered, cover every task exactly once and differ in length by at most one. '
 'Scattering a data set and gathering the pieces (to one or to all processes) returns it unchanged for any trailing shape and data type, and a reduction over processes returns the element-wise sum.',
 ['inputs', 'schedules'], 'all task counts >= 0 and process counts >= 1 (incl. fewer tasks than processes), all ranks, all trailing shapes',
 'The tests run in a single process; with one process every partition is trivial.',
 [MP], [('MpiDistributor.distribute_tasks / my_slice / my_tasks / sizes', MP), ('scatter / gather / allgather / allreduce', MP)])

prop('C10', 'Two-particle relations invert each other exactly',
 'Converting between the two-particle Green\'s function and the generalised susceptibility, between the susceptibility and the full vertex, and between the susceptibility and the irreducible vertex (with or without interaction-valued shell) and back returns the starting quantity for every channel, and each direction satisfies its defining equation (disconnected part only in the density channel at omega=0, F = chi0^-1 - chi0^-1 chi chi0^-1, chi^-1 = chi0^-1 + Gamma). '
 'The full vertex obtained from the irreducible vertex satisfies F = Gamma - Gamma chi0 F, a zero-width shell changes nothing, and no conversion modifies its input or the frequency labels.',
 ['inputs'], 'all vertices and bubbles for which the inverses exist, all box sizes, shell widths, frequency lists, both channels, all beta and u',
 'The tests need external data and check one material; signs and beta powers that compensate on that data, or in one channel, are not excluded.',
 [LF], [('gchir_from_g2 / g2_from_chir', LF), ('fob2_from_gchir / gchir_from_fob2', LF), ('gamob2_from_gchir / gchir_from_gamob2 / gamob2_from_gchir_urange / fob2_from_gamob2_urange', LF), ('get_ur / get_sign', LF)])

prop('C11', 'Physical susceptibilities and vertices agree with the full ladder summation',
 'Building the susceptibility from the core-box auxiliary susceptibility and the shell bubble gives exactly the summed solution of the Bethe-Salpeter equation with the irreducible vertex continued by the bare interaction, in each channel and at every (q,omega); the asymptotic completion adds exactly the bubble tail. '
 'The fermion-boson vertex is the inverse bubble times the summed auxiliary susceptibility, the ladder vertex is rebuilt from its two stored components with the channel-dependent sign of the interaction, and every momentum-dependent routine reduces to its local counterpart when the bubble does not depend on momentum.',
 ['inputs'], 'all irreducible vertices, bubbles, interactions, temperatures and box sizes for which the inverses exist; both channels; all numbers of q points',
 'Tests compare a handful of outputs on missing data files; the equality with the full-box solution must hold as an identity for all vertices, not for one vertex to a tolerance.',
 [LF, FP, HL], [('gchi_aux_core_from_gammar(_urange) / chi_phys_urange / chi_phys_asympt / vrg_from_gchi_aux*', LF), ('get_gchir_aux_from_gammar_q / chi_phys_from_chi_aux_q / vrg_from_gchi_aux* / ladder_vertex_from_chi_aux_components', FP), ('construct_vrg_and_chi_q_urange', HL)])

prop('C12', 'The local Schwinger-Dyson equation is evaluated term by term as defined',
 'For every vertex, susceptibility and Green\'s function the local self-energy is the Hartree term U*n/2 plus, per channel, U_r/(2 beta) times the sum over bosonic frequencies of [1-(1-U_r chi) vertex] G(nu-omega) in the core and U^2/(2 beta) chi G(nu-omega) in the shell, with shell frequencies attached outside the core. '
 'The core part does not depend on the shell width, and the form written with the full vertex agrees with the definition U/beta sum F chi0 G(nu-omega).',
 ['inputs'], 'all core/shell sizes and bosonic lists, all array contents, beta, u, n, both channels',
 'Prefactor and window errors at the core/shell seam show only for particular sizes; the tests that touch it need data files and sample one configuration.',
 [LF], [('schwinger_dyson_vrg / schwinger_dyson_shell / schwinger_dyson_core_urange / schwinger_dyson_full / schwinger_dyson_f', LF), ('get_smom0', TP)])

prop('C13', 'The lattice Schwinger-Dyson equation sums every q once with the right weight',
 'For every kernel the lattice self-energy at (k,nu) is 1/(beta N_q) times the sum over all transfers q and bosonic omega of kernel(q,omega,nu) G(k+q,nu-omega) (periodic in momentum), with the kernel being density plus three times magnetic minus double counting, and the shell part using the susceptibilities. '
 'Distributing the q sum over processes and adding the parts gives the same result, multiplicities weight irreducible points like their images, and for momentum-independent input the lattice result equals the local one at every k.',
 ['inputs', 'schedules'], 'all grids, q lists and partitions of them, all box sizes, all array contents',
 'Tests use a small symmetric lattice from missing data files; partial sums over ranks and non-symmetric G are never exercised.',
 [FP, HL], [('schwinger_dyson_kernel_q / schwinger_dyson_full_q / schwinger_dyson_vrg_q / schwinger_dyson_q_shell / schwinger_dyson_dc', FP), ('get_kernel / get_kernel_dc', FP), ('construct_dc_kernel', HL)])

prop('C14', 'Self-energies keep their data and continue with the right high-frequency tail',
 'A self-energy returns its stored data unchanged at every frequency inside its core and smom0 - smom1/(i nu) at every frequency beyond it, for every requested box size, on the full axis with Sigma(-nu)=Sigma(nu)*, from full- or half-range, local or momentum-dependent input. '
 'The requested number of frequencies is always delivered, moments given explicitly are used as given and otherwise equal the mean of the high-frequency data, and a combined self-energy holds the lattice data in the core and the local data in the shell at their own frequencies.',
 ['inputs', 'configurations'], 'all data arrays with the stated symmetry, all box sizes (shorter than, equal to and longer than the stored data), all core sizes, all momentum grids',
 'Tests use one long self-energy; seams between core, stored tail and analytic tail depend on the relation of three sizes.',
 [TP], [('SelfEnergy.__init__ / get_siw / get_asympt / sigma_core / estimate_niv_core', TP), ('fit_smom', TP), ('create_dga_siwk_with_dmft_as_asympt', TP)])

prop('C15', 'Green\'s functions satisfy Dyson\'s equation, filling and mu are consistent',
 'At every momentum and frequency, inside the core and in the tail, the Green\'s function is the inverse of i nu + mu - eps_k - Sigma_k(nu), its local part is the plain zone average, and the real-frequency Green\'s function and spectral function obey the same relation with A = -Im G/pi. '
 'The filling computed for given mu is the model density plus the summed difference to the model, a mu determined for a target filling reproduces that filling to the stated precision, and kinetic and potential energies are the documented sums.',
 ['inputs'], 'all self-energies, dispersions, mu, beta, box and tail sizes, all momentum grids',
 'Tests check one parameter set; a tail built with shifted frequencies or a wrong sign in one half still looks smooth and passes spot checks.',
 [TP], [('build_g / GreensFunction.build_g_core / build_asympt / g_full / set_gloc / k_mean', TP), ('get_fill / update_mu / get_gloc / get_g_model', TP), ('e_kin / e_pot / RealFrequencyGF', TP), ('energies written by the main program', MA)])

prop('C16', 'The lambda correction shifts inverse susceptibilities and restores the sum rule',
 'The corrected susceptibility is 1/(1/chi + lambda) at every momentum and frequency with one lambda per channel that keeps the static susceptibility positive, and when the iteration reports success the momentum- and frequency-averaged susceptibility equals the local sum to the stated tolerance. '
 'Correcting both channels matches each channel\'s own local sum, correcting only the spin channel leaves the density channel untouched and matches the total sum, and switching the correction off returns the input with zero lambdas.',
 ['inputs', 'configurations'], 'all positive ladder susceptibilities, all local sums reachable by the correction, all modes',
 'No test exercises the modes; the sum rule must hold for all susceptibilities, including ones whose ladder value is unphysical (negative) before the correction.',
 [LC], [('get_lambda_start / lambda_correction_single / use_lambda / lambda_correction', LC)])

prop('C17', 'Eliashberg iteration returns eigenpairs of the pairing operator',
 'The operator applied in the power iteration equals 1/norm times the momentum convolution of the pairing vertex with |G|^2 times the gap summed over the inner frequency, each returned pair satisfies the eigenvalue equation to the requested accuracy when converged, and successive gaps are orthogonal to the ones already found. '
 'Symmetrised pairing vertices are exactly even (singlet) or odd (triplet) under reversal of the inner frequency and symmetrising twice changes nothing, and starting gaps have the requested momentum form and frequency parity.',
 ['inputs'], 'all vertices, Green\'s functions, grids, box sizes, symmetry types and numbers of eigenvalues',
 'The tests use two small random matrices and a fixed vertex; they do not compare the transform-based operator with the definition nor the start functions with their parity.',
 [EL], [('EliashberPowerIteration.power_iteration / get_eig', EL), ('gram_schmidt_eliash / proj_eliash', EL), ('symmetrize_gamma / get_gap_start', EL)])

prop('C18', 'Vertices stored per process are reassembled completely and at the right place',
 'Writing the vertex components per (q, omega) from any number of processes and collecting them afterwards yields, for the full, the optical and the pairing vertex, an array holding every component at exactly its (q, omega, nu, nu\') position for negative, zero and positive omega, independent of the number of processes and of the order of the entries. '
 'Each component is beta^2/chi0 (1 - chi_aux/chi0) and U_r gamma gamma, and the assembled vertex is the first plus (1 - U_r chi) times the second with the sign of its channel; singlet and triplet combine 3/2 magnetic - 1/2 density and 1/2 magnetic + 1/2 density.',
 ['inputs', 'schedules', 'histories'], 'all numbers of processes and partitions of q, all box sizes incl. more than ten and more than a hundred bosonic frequencies, all vertex contents',
 'No test writes and re-reads rank files; the index is parsed from a text key and errors appear only for negative bosonic frequencies or several processes.',
 [FP, PV, OP], [('ladder_vertex_from_chi_aux_components / write_vertex_components / load_vertex_from_rank_files / build_vertex_fq', FP), ('write_pairing_vertex_components / load_pairing_vertex_from_rank_files / build_pairing_vertex', PV), ('write_optics_vertex_components / load_optics_vertex_from_rank_files / build_vertex_for_optical_conductivity', OP)])

prop('C19', 'Tight-binding Hamiltonians are the Fourier sums of their hoppings',
 'For every real-space Hamiltonian the momentum-space matrix is the weighted sum of exp(i k.R) H(R), is Hermitian whenever H(-R)=H(R)^dagger, and the light vertex is its exact derivative in the named direction, the built-in one-band models being equal to their closed-form dispersions and the three-band model to its closed form. '
 'Writing a Hamiltonian to file and reading it back returns hoppings, vectors, weights and orbital labels.',
 ['inputs', 'configurations'], 'all hopping tables, weights, numbers of orbitals, grids and directions; all parameters of the built-in models',
 'Tests check a few parameter sets on one grid, one direction and symmetric hoppings.',
 [WA], [('convham / convham2 / light_vertex / WannierHr.get_ek', WA), ('wannier_one_band_2d_* / wannier_emery_model / emery_model_ek / ek_3d / ek_square', WA), ('write_hr_w2k / read_hr_w2k / write_hk_wannier90 / read_hk_w2k', WA)])

prop('C20', 'Optical response sums use the documented momenta, frequencies and weights',
 'The bubble part of the current correlation is -2/beta times the zone average of the two light vertices and the sum over nu of G(k,nu)G(k,nu-omega), and the vertex part is the documented quadruple sum with the light vertices and Green\'s functions at k and k+q and at nu, nu-omega, nu-omega\' and nu-omega-omega\', every q and omega\' counted once with weight 1/N_q. '
 'Splitting the q list over processes and adding the parts gives the same result, and adding bubble and vertex parts of different frequency range adds values of equal frequency.',
 ['inputs', 'schedules'], 'all Green\'s functions, light vertices, vertices, box sizes, frequency lists, grids and partitions of q',
 'No test evaluates the vertex part; frequency arguments that differ by a sign coincide at zero transfer.',
 [OP], [('get_chijj_bubble / vec_get_chijj_bubble', OP), ('get_chijj_vertex / vec_get_chijj_vert', OP), ('get_vmw_v_slice', OP)])

prop('C21', 'Inferred run parameters are complete and mutually consistent',
 'Frequency-box sizes that the user leaves open are completed from the loaded two-particle data so that core sizes never exceed what is available, the full size is core plus shell, the tail is the full size plus twice the bosonic core, and explicitly given sizes are kept or rejected with an error; the optics ranges inferred from them always fit inside the boxes they are used with. '
 'Symmetry names, grids and lattice types are accepted exactly when they are supported, the bosonic grid defaults to the fermionic one, and every unsupported value is rejected with an error.',
 ['configurations', 'inputs'], 'all combinations of given and omitted size parameters, all data sizes, all supported and unsupported names',
 'One default configuration is tested; defaults interact (shell given, core omitted) in combinations no test uses.',
 [CF], [('BoxSizes.__init__ / set_from_lfp / niv_pp', CF), ('OpticsConfig.set_frequency_ranges', CF), ('LatticeConfig.check_symmetries', CF)])

prop('C22', 'Output locations never collide with existing results; saved data reload',
 'Choosing an output location returns a path that did not exist before, whatever files and directories are already present, derived from the requested name, so that no earlier result is overwritten. '
 'Every quantity saved under a name is returned unchanged when loaded under that name (arrays and dictionaries), and removing one name leaves all others intact.',
 ['histories', 'inputs'], 'all prior directory contents and all sequences of create/save/load/remove operations',
 'No test creates a location twice; collision handling depends on the history of earlier runs.',
 [UT, CF, IO], [('uniquify', UT), ('OutputConfig.set_output_path / save_data / load_data / clean_data', CF), ('set_output_path', IO)])

prop('C23', 'Analytic-continuation grids, kernels and data selection are exact',
 'Every real-frequency mesh has the requested number of strictly increasing points and ends exactly at the requested limits; the back-transformation kernels are 1/(i nu - w) and w^2/(w^2+omega^2) with value one at w=omega=0; the Kramers-Kronig completion returns -pi times the spectrum as imaginary part. '
 'From a full-range quantity the continuation uses exactly the non-negative Matsubara frequencies, matched one to one with their frequency values and never more than available, and a failure for one momentum yields zeros for that momentum only.',
 ['inputs', 'fault_sequences'], 'all mesh parameters, grid sizes, spectra, stored box sizes vs. requested number of frequencies; a continuation failure at any subset of momenta',
 'The tests continue one toy spectrum; requests longer than the data, other mesh sizes and failing momenta are not sampled.',
 [AC], [('lorentzian_w_mesh / hyperbolic_w_mesh / linear_w_mesh / tan_w_mesh', AC), ('get_backtransform_kernel / transform_from_real_to_imag / kkt', AC), ('MaxEnt.cut_matrix / get_im_freq / get_model / analytic_continuation', AC)])

prop('C24', 'Impurity-solver data are read and symmetrised without losing components',
 'Packing band and spin indices into a compound index and unpacking it again is the identity for every number of bands and legs, and the spin/orbital symmetrisation adds every sampled component with the documented sign to every equivalent band group of the density and magnetic channel exactly once. '
 'Reading the symmetrised file returns for every stored bosonic frequency, in order, the transposed fermionic matrix, and one-particle data are reduced to their spin average.',
 ['inputs'], 'all numbers of bands, legs and compound indices, all declared orbital equivalences, all numbers of stored frequencies, all contents',
 'No test reads solver files with more than one band; index packing errors are invisible for one band.',
 [SY, W2, IO], [('index2component_general / component2index_band / index2component_band / get_symgroups / read_and_add', SY), ('W2dynG4iwFile.read_g2 / read_g2_full / read_g2_iw / get_niw', W2), ('load_1p_data_w2dyn', IO)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
