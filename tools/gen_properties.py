"""writes /verif/properties.jsonl (the list is kept here for readability)"""
import json
import os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w}
                                    for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': None}})


FC = 'euphonic/force_constants.py'
I = ['inputs']
p('C01', 'Phonons solve the mass-weighted Fourier sum of the force constants',
  'For every q-point, the frequencies and eigenvectors returned without dipole corrections are the eigenpairs of the Hermitian matrix D_ij(q) = sum over unit cells in the supercell and over all equivalent supercell images of fc_ij/(number of images) * exp(+2*pi*i*q.R) / sqrt(m_i*m_j). '
  'Frequencies are sign(lambda)*sqrt(|lambda|) converted from Hartree atomic units to meV (imaginary modes negative), and mode k, atom j, direction a of the eigenvectors is component 3j+a of eigenvector k.',
  I, 'every force constants array, q-point, set of masses, for lattices/supercells within the stated bounds',
  'The tests compare a few materials at a few q-points with stored numbers; a wrong phase, weight, image or mass that cancels there passes.',
  [FC], [('Fourier sum with image-weighted force constants', f'{FC}:_calculate_dyn_mat'),
         ('diagonalisation and sign of imaginary modes', f'{FC}:_calculate_phonons_at_q')],
  ['ForceConstants.calculate_qpoint_phonon_modes', 'ForceConstants.calculate_qpoint_frequencies'])
p('C02', 'The C extension computes exactly what the Python code computes',
  'Calculating phonons with the C extension gives the same dynamical matrices to the eigensolver, and hence the same frequencies, eigenvectors and mode gradients, as the pure Python calculation, with or without the dipole correction, LO-TO splitting, acoustic sum rule and mode gradients. '
  'This holds for every input array regardless of its memory layout or numeric dtype, and for any number of threads and any order in which threads take q-points: no q-point\'s result depends on another q-point\'s work. The extension is used with use_c=True (ImportCError if it is not there), not with use_c=False, and by default if it can be imported (else Python, with a warning), with n_threads threads, else EUPHONIC_NUM_THREADS, else one per CPU.',
  ['inputs', 'schedules', 'configurations'], 'every force constants, Born charges, dielectric tensor, q-points and options; all interleavings of the per-q-point parallel loop',
  'C and Python are compared on stored materials with cubic or diagonal dielectric tensors and contiguous arrays; data races need particular schedules.',
  ['c/_euphonic.c', 'c/dyn_mat.c', 'c/util.c', 'c/py_util.c', FC],
  [('parallel loop over q-points', 'c/_euphonic.c:calculate_phonons'), ('kernels', 'c/dyn_mat.c'),
   ('contiguity of arguments', FC + ':_ensure_contiguous_args')],
  ['use_c=True versus use_c=False'])
p('C03', 'Each q-point in a batch is computed as if it were alone',
  'For any list of q-points the results come back in the order given, one per q-point, each equal to what a calculation on that q-point alone would give, whatever other q-points are in the list, in whatever order, with repeats, and with reduce_qpts on or off. '
  'q-points that differ by a reciprocal lattice vector give the same dynamical matrix, and weights are attached to their q-points.',
  ['inputs', 'configurations'], 'every ordered list of q-points (including duplicates, equivalents and zone centres) up to the stated length',
  'The tests use fixed lists; the reduction merges points by value so coincidences decide the result.',
  [FC], [('q-point reduction and re-expansion', f'{FC}:_calculate_phonons_at_qpts')],
  ['ForceConstants.calculate_qpoint_phonon_modes'])
p('C04', 'The dipole correction is the converged Ewald sum for the charges given',
  'With Born charges and a dielectric tensor, the correction added to the dynamical matrix at q is the Gonze-Lee Ewald sum (real-space plus reciprocal-space terms at q, minus the q=0 on-site sum that restores translational invariance), to numerical convergence independent of the Ewald balance parameter. '
  'It is Hermitian, bilinear in the Born charges and periodic in reciprocal lattice vectors up to the cell-position phase convention; constructing force constants from total force constants plus dipole subtracts exactly the contribution that interpolation adds back, so the total dynamical matrix at commensurate q-points is unchanged, whatever units the inputs are in.',
  I, 'every Born charge tensor; stated lattices, dielectric tensors, Ewald parameters and q-points',
  'Tests only compare stored results of three materials whose dielectric tensors are diagonal or nearly so.',
  [FC], [('q-independent Ewald terms', f'{FC}:_dipole_correction_init'), ('q-dependent sum', f'{FC}:_calculate_dipole_correction'),
         ('short-range conversion', f'{FC}:from_total_fc_with_dipole')],
  ['ForceConstants.calculate_qpoint_phonon_modes(dipole=True)', 'ForceConstants.from_total_fc_with_dipole'])
p('C05', 'LO-TO splitting uses the right direction, formula and weights at gamma',
  'At each zone-centre q-point with splitting on, the non-analytic term added is (4*pi/V) (q.Z_i)_a (q.Z_j)_b / (q.eps.q) with q the direction of the path at that point: the first point of the list takes next minus this, the last takes this minus previous, any other takes next minus this unless the next point is itself a zone centre, in which case this minus previous; it is independent of the length of that step, zero when the step is zero, and no such term is added at other q-points. '
  'With insert_gamma each interior zone-centre point is doubled so that the first copy uses the direction from the preceding and the second that to the following point, and the weights of the copies sum to the original weight; caller arrays are not modified.',
  I, 'every ordered q-point list up to the stated length with any zone-centre positions; every Born and dielectric tensor',
  'Tests cover a few band paths with one interior gamma point.',
  [FC], [('direction selection', f'{FC}:_get_q_dirs'), ('non-analytic term', f'{FC}:_calculate_gamma_correction'),
         ('gamma duplication', f'{FC}:_calculate_phonons_at_qpts')],
  ['ForceConstants.calculate_qpoint_phonon_modes(splitting=True, insert_gamma=...)'])
p('C06', 'The acoustic sum rule makes rigid translations cost no energy',
  'With the real-space acoustic sum rule the force on every atom under any rigid translation of the crystal is exactly zero, so D(q=0) annihilates the three mass-weighted translations; with the reciprocal-space rule the three modes of the zone-centre matrix that carry the largest share of a rigid translation are moved to zero there, every other eigenpair of that matrix is unchanged, and the same correction is subtracted from the matrix at every q. '
  'Force constants that already satisfy the rule are unchanged, the correction never modifies the stored force constants, and results without the option are unaffected by it. If three translation-like modes cannot be identified a warning is given and no correction is made.',
  I, 'every force constants array within bounds', 'Tests check stored corrected arrays of a few materials.',
  [FC], [('real-space rule', f'{FC}:_enforce_realspace_asr'), ('reciprocal-space rule', f'{FC}:_enforce_reciprocal_asr')],
  ['asr option'])
p('C07', 'Every equivalent image of an atom pair at the supercell boundary is used',
  'For every pair of atoms (i in the home cell, j in any cell of the supercell) the images used in the interpolation are exactly the supercell translations that bring j into the Wigner-Seitz cell of the supercell centred on i (for supercell vectors reduced enough that its faces come from the 26 neighbouring supercells), boundary points (within the 0.1 per cent tolerance) included, each once, with the count used as the weight. '
  'The images of the pair (j, i) in the opposite cell are the negatives of those of (i, j).',
  I, 'every position of the atoms and every cell shape within the stated bounds', 'Only the positions of stored materials are tested; boundary multiplicities occur only at special positions.',
  [FC], [('image search', f'{FC}:_calculate_supercell_images')], ['interpolated frequencies'])
p('C08', 'Results depend only on the current object, not on the call history',
  'Calling any calculation repeatedly, in any order and with any options, gives the same result as on a freshly constructed object with the same current attribute values, including after force_constants, born or dielectric have been reassigned or the Ewald parameter changed. '
  'Calculations do not change the object\'s attributes or the arrays passed in.',
  ['histories'], 'every sequence of calculations and attribute assignments up to the stated length',
  'Tests call each calculation once on a fresh object, cached data are never stale.',
  [FC], [('cached image list, dipole data and sum-rule-corrected constants', f'{FC}:_calculate_phonons_at_qpts')],
  ['ForceConstants methods called in sequence'])
p('C09', 'Mode gradients are the derivatives of the frequencies',
  'The mode gradient returned for mode k along Cartesian direction a is the expectation value of dD/dq_a in eigenvector k divided by twice the frequency (Hellmann-Feynman), where dD/dq is the exact derivative of the interpolated (short-range) mass-weighted Fourier sum with respect to Cartesian q and the frequency carries its sign, in units of energy times length of the crystal\'s length unit. '
  'Mode widths computed from gradients are twice the gradient magnitude divided by the cube root of the number of q-points times the cell volume.',
  I, 'every force constants array, q-point and mass', 'Tests compare stored gradients of a few q-points.',
  [FC, 'euphonic/util.py'], [('gradient of the dynamical matrix', f'{FC}:_calculate_dyn_mat'), ('mode widths', 'euphonic/util.py:mode_gradients_to_widths')],
  ['return_mode_gradients=True', 'mode_gradients_to_widths'])
p('C10', 'Lattice geometry is self-consistent',
  'For every right- or left-handed cell the reciprocal vectors satisfy a_i.b_j = 2*pi*delta_ij, the volume is |a.(b x c)| in the cube of the length unit, the enumeration of cell origins over a range (with any step) or a shell visits each lattice point of it exactly once, and a Monkhorst-Pack grid contains exactly the n1*n2*n3 distinct points (2r-n-1)/2n, which map onto themselves under inversion. '
  'The grid chosen for a spacing is the coarsest with every spacing at or below the request, and results do not depend on the units in which the cell is given.',
  I, 'every cell matrix, grid size and spacing within bounds', 'Tests use a handful of crystals.',
  ['euphonic/crystal.py', 'euphonic/util.py', FC], [('reciprocal cell and volume', 'euphonic/crystal.py'), ('mp_grid and origins', 'euphonic/util.py')],
  ['Crystal.reciprocal_cell', 'Crystal.cell_volume', 'Crystal.get_mp_grid_spec', 'mp_grid', 'get_all_origins'])
p('C11', 'Force constants of other codes are re-indexed without loss',
  'Converting force constants from the (atom in supercell, atom in supercell) phase and ordering convention to Euphonic\'s per-cell convention, for any atom ordering in the supercell and any mapping of primitive atoms to their copies, assigns each pair interaction to the unit cell and atoms it belongs to, so the dynamical matrix at every commensurate q-point equals the one defined by the source convention up to the documented per-atom phases. '
  'Cell origins and atom indices returned are consistent with each other, and the cell of the first atom of the unit cell is the origin.',
  I, 'every symbolic force constants array and permutation/ordering within bounds', 'Tests compare a few phonopy examples.',
  ['euphonic/util.py', 'euphonic/readers/phonopy.py'], [('re-indexing', 'euphonic/util.py:convert_fc_phases'), ('relative cell lookup', 'euphonic/util.py:_get_supercell_relative_idx')],
  ['convert_fc_phases', 'ForceConstants.from_phonopy'])
p('C12', 'Densities of states conserve the number of modes',
  'The density of states is per atom: every mode adds 3/(number of modes) times its q-point\'s share of the total q-point weight, divided by the width of the bin, to the single bin that contains its frequency (the lower edge belongs to a bin and the upper one does not; modes outside the bins add nothing), so on bins that cover all frequencies it integrates to 3. The result does not depend on the units of bins or frequencies or on the order of q-points, and a DOS map puts each q-point\'s own unweighted DOS in its own row. '
  'With mode widths, the reference method gives at each bin centre the sum of normalised Gaussians with standard deviations equal to the mode widths (not less than the minimum width) and those same weights; the fast method agrees with it, with each mode moved to the centre of its bin, within the requested error.',
  I, 'all frequencies, weights and bin edges within bounds', 'Tests compare stored histograms.',
  ['euphonic/qpoint_frequencies.py', 'euphonic/spectra.py'], [('histogram and normalisation', 'euphonic/qpoint_frequencies.py:_calculate_dos'), ('map', 'euphonic/qpoint_frequencies.py:calculate_dos_map')],
  ['QpointFrequencies.calculate_dos', 'calculate_dos_map'])
p('C13', 'Partial densities of states add up to the total',
  'For normalised eigenvectors the sum over atoms of the partial densities of states equals the total density of states bin by bin; each atom\'s part is the DOS with each mode weighted by |eigenvector on that atom|^2 divided by the number of atoms, and with neutron weighting that part is multiplied by the atom\'s cross-section (coherent, incoherent or their sum, from the named data set or the given dictionary) times the average atomic mass divided by its own mass, with or without mode widths. '
  'Each line carries its own species and atom index in its metadata, rows follow the atom order, and grouping by species sums exactly the atoms of that species.',
  I, 'all eigenvectors, frequencies, weights, cross sections within bounds', 'Tests compare stored PDOS for one material.',
  ['euphonic/qpoint_phonon_modes.py', 'euphonic/spectra.py'], [('per-atom DOS', 'euphonic/qpoint_phonon_modes.py:calculate_pdos')],
  ['QpointPhononModes.calculate_pdos'])
p('C14', 'The one-phonon structure factor is |F|^2 of the documented formula',
  'For every q-point and mode the structure factor is 1/(2*N_atom*|omega|) |sum over atoms of b_j/sqrt(m_j) (Q.conj(e_j)) exp(+2*pi*i q.r_j) exp(-sum_ab W_j,ab Q_a Q_b)|^2 (returned as an area per atom), with Q the Cartesian q-point, so it is real, non-negative for every frequency, unchanged when an eigenvector is multiplied by any phase factor or when all atoms are translated together, quadratic in the scattering lengths (which may be negative or complex), and independent of the units of the inputs. '
  'The Debye-Waller factor is 1.0 when no Debye-Waller object is given; scattering lengths given by the name of a packaged table or by a species dictionary mean the same thing. The result keeps the q-points, frequencies and q-point weights of the modes, and the temperature of the Debye-Waller object; a Debye-Waller object with another number of atoms is rejected with a ValueError.',
  I, 'all q-points, eigenvectors, positions, masses, scattering lengths and Debye-Waller tensors within bounds', 'The structure-factor tests need data that are absent here, and elsewhere sample a few materials.',
  ['euphonic/qpoint_phonon_modes.py', 'euphonic/structure_factor.py'], [('structure factor', 'euphonic/qpoint_phonon_modes.py:calculate_structure_factor')],
  ['QpointPhononModes.calculate_structure_factor'])
p('C15', 'S(Q,w) maps conserve intensity and obey detailed balance',
  'In the scattering map each mode of a q-point adds (n+1) times its structure factor at energy +omega and n times it at -omega, with n = 1/(exp(|omega|/kT)-1) the Bose factor at the temperature stored in the structure factor or else at the one given (n = 0 at zero temperature), into the energy bin that contains that energy, divided by the bin width, so the two sides are related by exp(omega/kT) (detailed balance); energies outside the bins are left out, bins may be uneven and in any energy unit, and total intensity is conserved for bins that cover all energies. '
  'With calc_bose=False, or with no temperature available, both sides get the structure factor itself; a temperature that disagrees with the stored one is rejected with a ValueError. One-dimensional averages are the weighted means over q-points of the rows of the map, with the weights given or else those of the object.',
  I, 'all frequencies, structure factors, temperatures and bins within bounds', 'Tests compare stored maps.',
  ['euphonic/structure_factor.py', 'euphonic/util.py'], [('binning', 'euphonic/structure_factor.py:_bose_corrected_structure_factor'), ('Bose factor', 'euphonic/structure_factor.py:_bose_factor')],
  ['StructureFactor.calculate_sqw_map', 'StructureFactor.calculate_1d_average'])
p('C16', 'The Debye-Waller exponent is the thermal displacement tensor',
  'Without symmetrisation the Debye-Waller tensor of atom j is the weighted average over the q-points of the sum over modes of hbar/(4 m_j omega) coth(hbar omega/2kT) Re(e_ja e_jb*), leaving out modes with a frequency below frequency_min and with coth = 1 at zero temperature; it is symmetric, positive semi-definite, independent of the order of the q-points and of how many there are (also beyond 1000), and invariant under phase changes of eigenvectors. '
  'Symmetrisation averages R W_j R^T over the symmetry operations R of the crystal, with atom j carried to the atom the operation takes it to, so the result obeys the symmetry of the crystal, leaves tensors that already obey it unchanged and preserves the trace summed over equivalent atoms.',
  I, 'all eigenvectors, frequencies, weights, temperatures within bounds', 'Needs data absent here; tests sample stored tensors.',
  ['euphonic/qpoint_phonon_modes.py', 'euphonic/debye_waller.py'], [('tensor', 'euphonic/qpoint_phonon_modes.py:calculate_debye_waller')],
  ['QpointPhononModes.calculate_debye_waller'])
p('C17', 'Reordering modes only permutes them',
  'Reordering frequencies along a path assigns, at every q-point, each mode to exactly one output branch, moving its frequency and its eigenvector together, so the set of (frequency, eigenvector) pairs at each q-point is unchanged. '
  'The first q-point keeps its order, degenerate or orthogonal eigenvectors included.',
  I, 'all eigenvectors and frequencies within bounds', 'Tests check two materials where overlaps are clear-cut.',
  ['euphonic/qpoint_phonon_modes.py'], [('greedy matching', 'euphonic/qpoint_phonon_modes.py:reorder_frequencies')],
  ['QpointPhononModes.reorder_frequencies'])
p('C18', 'Spectra keep values, axes and units consistent',
  'Reading an axis or data in another unit, or after changing an object\'s unit attribute, always describes the same physical quantity; bin edges and centres derived from each other enclose each other with one more edge than centres; splitting at breakpoints partitions the points in order; addition and multiplication act on the values only; copies share nothing with the original. '
  'Operations never modify their operands except the documented in-place ones.',
  I, 'all axis values, data values, units and split points within bounds', 'Tests sample fixed spectra.',
  ['euphonic/spectra.py', 'euphonic/validate.py'], [('unit-carrying attributes', 'euphonic/spectra.py'), ('bins', 'euphonic/spectra.py:get_bin_edges')],
  ['Spectrum1D', 'Spectrum2D'])
p('C19', 'Spectrum collections are faithful containers of their spectra',
  'Building a collection from spectra and indexing, iterating, slicing or selecting it returns spectra equal in value, axis, unit and metadata to those put in; sum is the sum of the members, group_by partitions the members by the chosen metadata and sums each part, addition concatenates, and metadata common to all members is reported as common. '
  'This holds after unit changes on the members or the collection.',
  ['inputs', 'histories'], 'all data values and metadata assignments within bounds', 'Tests use one-unit data and few metadata layouts.',
  ['euphonic/spectra.py'], [('collections', 'euphonic/spectra.py:SpectrumCollectionMixin')],
  ['Spectrum1DCollection', 'Spectrum2DCollection'])
p('C20', 'Broadening redistributes intensity without creating it',
  'Fixed-width broadening is linear in the data: each sample becomes a Gaussian or Lorentzian of the requested full width at half maximum (converted from the unit it is given in) along the requested axis, symmetric about the sample, its integral preserved up to the tails that leave the axis; other axes, tick labels and metadata are unchanged and the result is a new object. '
  'Unequal bins along a broadened axis raise ValueError in any unit unless method="convolve" is given. Variable-width broadening gives each sample the width its function returns for that sample\'s energy (FWHM or standard deviation as stated), no narrower than the lower limit (by default the bin width), to the stated kernel error; unknown shapes, methods, fits or conventions and errors outside the fit raise ValueError. '
  'Each line of a collection is broadened independently.',
  I, 'all data values; stated widths, axes and shapes', 'Tests compare stored broadened spectra.',
  ['euphonic/broadening.py', 'euphonic/spectra.py'], [('broadening', 'euphonic/broadening.py')],
  ['Spectrum1D.broaden', 'Spectrum1DCollection.broaden', 'Spectrum2D.broaden'])
p('C21', 'Objects survive a round trip through dictionaries and JSON',
  'Converting any Euphonic object to a dictionary or JSON file and back gives an object with the same class, values, shapes, dtypes, units, metadata and defaults, including complex eigenvectors, optional fields and objects whose units were changed; the dictionary holds copies so later changes to it do not reach the object. '
  'Nested crystals, weights, tick labels and offset temperature units are preserved, for arrays of any memory layout; reduction to QpointFrequencies keeps crystal, q-points, frequencies and weights; text files hold the bin centres followed by one column per line in the units of their header.',
  ['inputs', 'histories'], 'all array contents within bounds for every serialisable class', 'Tests round-trip stored objects in default units.',
  ['euphonic/io.py', 'euphonic/crystal.py', 'euphonic/spectra.py', FC], [('serialisation', 'euphonic/io.py')],
  ['to_dict', 'from_dict', 'to_json_file', 'from_json_file'])
p('C22', 'Constructors and setters accept exactly the shapes and units they document',
  'Constructing an object succeeds when every argument has its documented type, shape and a convertible unit. Otherwise, including when dimensions shared by several arguments disagree in any one of them, it raises TypeError (type), ValueError (shape) or DimensionalityError (unit), and no inconsistent object is made. '
  'Assigning a unit attribute or a quantity attribute works exactly for convertible units: the physical values are then unchanged (unit attribute) or those assigned (quantity), in the unit asked for. An assignment in units of another dimension is refused and leaves the object as it was. Frequencies may be given as energies, frequencies, wavenumbers or wavelengths; spectra also convert reciprocals of these.',
  ['inputs', 'configurations'], 'all array sizes within the stated small ranges, every argument, every value', 'Tests try a few wrong shapes and units per class.',
  ['euphonic/validate.py', 'euphonic/crystal.py', 'euphonic/force_constants.py', 'euphonic/qpoint_frequencies.py', 'euphonic/qpoint_phonon_modes.py', 'euphonic/structure_factor.py', 'euphonic/debye_waller.py', 'euphonic/spectra.py'],
  [('shape checks', 'euphonic/validate.py:_check_constructor_inputs'), ('unit checks', 'euphonic/validate.py:_check_unit_conversion')],
  ['constructors', 'unit attributes', 'quantity attributes'])
p('C23', 'Kinematic constraints mask exactly the unreachable region',
  'After applying kinematic constraints for a fixed incident or final energy and an angle range, a (|Q|, energy) bin is kept if and only if both neutron energies are positive at the central energy transfer of the bin and some scattering angle in the range gives a |Q| inside the |Q| bin there. Kept values are unchanged, masked ones are NaN, and the axes, units, labels, metadata and the spectrum given are unchanged. '
  'Results do not depend on the units of the energy and momentum axes, angle ranges may be negative, in either order, shifted by full turns or wider than one, and rounding errors near the elastic line mask nothing that is in reach. Calls with neither or both energies, or axes of other dimensions, are refused.',
  I, 'all incident/final energies, angle ranges and bin positions within bounds', 'Tests sample a few energies.',
  ['euphonic/spectra.py'], [('mask', 'euphonic/spectra.py:apply_kinematic_constraints')],
  ['apply_kinematic_constraints'])
p('C24', 'Spherical sampling returns the requested unit vectors',
  'Every sampling scheme returns points on the unit sphere (or square) within range and the documented number of points, without failing, for every accepted number of points; jitter moves points but keeps them in their cell, on the sphere and in the same number. '
  'Powder-averaged quantities take the sampling scheme by its name in any case, use npts directions (rounded up to 2n^2 for the two grid schemes), calculate phonons once at those directions scaled to the requested |Q| in fractional coordinates, and average over them with equal weight, with energy bins as given or 1000 bins from 0 to 1.05 times the largest energy. '
  'The structure factor uses the Debye-Waller exponent given, or one calculated at the temperature on a Monkhorst-Pack grid when none is given, none when both are None, and refuses an exponent whose temperature differs from the one given; options of the interpolation reach every phonon calculation, that of the grid included.',
  I, 'all requested counts within bounds and all jitter values in [0,1)', 'Tests try a few counts with fixed seeds.',
  ['euphonic/sampling.py', 'euphonic/powder.py'], [('sampling', 'euphonic/sampling.py')], ['euphonic.sampling', 'euphonic.powder'])
p('C25', 'q-point path bookkeeping follows the path',
  'The abscissa of a dispersion, DOS map or S(Q,w) map starts at 0 and increases by exactly the Cartesian distance between consecutive q-points, in the reciprocal of the cell length unit, except between points that differ by a non-zero reciprocal lattice vector (to within 1e-3), where it does not advance. '
  'A point is a zone centre exactly if all its coordinates are integers; the direction has changed at an inner point exactly if |a.b| and |a||b| of the steps before and after differ by more than the tolerance. '
  'Labels are given to the first and last points, points where the direction changes, inner zone centres, and the first of two equal consecutive points, and to no others; a label is the name of the special point there (coordinates may be permuted cyclically), whichever reciprocal lattice vector is added to the q-point and despite rounding errors up to 1e-7, with GAMMA shown as a greek letter, and rounded coordinates if no point of the path has a name.',
  I, 'all q-point paths within bounds', 'Tests use stored paths.',
  ['euphonic/util.py', 'euphonic/cli/utils.py'], [('abscissa', 'euphonic/util.py:_calc_abscissa'), ('labels', 'euphonic/util.py:get_qpoint_labels')],
  ['QpointFrequencies.get_dispersion', 'get_qpoint_labels'])
p('C26', 'Readers store the numbers of the file with the right meaning',
  'For any numeric contents, reading a CASTEP .phonon or .phonon_dos file, or a Phonopy mesh, band or qpoints file (YAML or HDF5; structure in the file or in phonopy.yaml, lengths in angstrom or au), puts every q-point, weight, frequency, eigenvector component, mode gradient, mass, position, species and lattice vector in the documented place with the documented unit; Phonopy eigenvectors get the phase of Euphonic. '
  'Blocks of a repeated CASTEP q-point share its weight equally (average_repeat_points), or only the unsplit one keeps it (prefer_non_loto), or keep the weights of the file. CASTEP DOS files give the total and per-species densities on their energy bins. '
  'Reading force constants from a .castep_bin, phonopy.yaml, FORCE_CONSTANTS or HDF5 file (compact or full) puts each element at its atom and cell indices for any supercell, with cell origins consistent with the atom positions, and Born charges and dielectric tensor (from the file or BORN, with the NAC factor) in the documented units. '
  'Files without what is asked for, or unknown formats, raise the documented errors.',
  I, 'all numeric values in files of the stated structure', 'Tests read fixed files; many of them are absent here.',
  ['euphonic/readers/castep.py', 'euphonic/readers/phonopy.py'], [('readers', 'euphonic/readers')],
  ['from_castep', 'from_phonopy'])
p('C27', 'The command-line tools do what their options say',
  'euphonic-dos, -dispersion, -intensity-map and -powder-map pass every option to the calculation with its stated meaning and unit: asr, dipole parameter, C use and threads to every phonon calculation; --grid, or --grid-spacing in 1/LENGTH_UNIT, as a Monkhorst-Pack grid; temperature to the Debye-Waller exponent and powder average, with no Debye-Waller factor if no temperature is given. '
  'Energy bins are --ebins equal bins in ENERGY_UNIT from --e-min (default: 0 or just below the lowest negative mode) to --e-max (default: 1.05 times the highest mode; 1.2 times in the powder map, or the incident energy), and an empty range is a ValueError. '
  'Broadening options are FWHM, constant or polynomial in the energy (or |q|) in the option units, applied once with the chosen shape; Gaussian instrument broadening is combined in quadrature with adaptive mode widths; --scale multiplies the result; widths given twice are refused. '
  '--weighting selects DOS, PDOS weighting or S(Q,w); --pdos gives the total and one line per species, or only the species named. '
  'Band paths follow the recommended path (interior Gamma points doubled in the dispersion), with labels at its special points and splits where it is discontinuous. Powder maps have ceil((qmax-qmin)/spacing) equal |q| shells sampled at their centres with --npts, or density times q^2 clipped to the limits, points. '
  'Input files are recognised and read by their names and contents as documented, and combinations that lack needed data raise TypeError or ValueError. '
  'Phonons read from a file are used as they are. What is plotted is what is saved with --save-json. The dipole parameter optimisation times every value of its range and returns the fastest; show-sampling shows the points of the sampling named.',
  ['inputs', 'configurations'], 'all numeric option values within bounds, for the stated combinations of options', 'Tests run stored command lines.',
  ['euphonic/cli/utils.py', 'euphonic/cli/dos.py', 'euphonic/cli/dispersion.py', 'euphonic/cli/intensity_map.py', 'euphonic/cli/powder_map.py', 'euphonic/cli/optimise_dipole_parameter.py'],
  [('shared helpers', 'euphonic/cli/utils.py'), ('tools', 'euphonic/cli')], ['euphonic command-line tools'])
p('C28', 'Brille grids hold the force constants\' phonons; results are Brille\'s',
  'BrilleInterpolator.from_force_constants describes the crystal to Brille by its lattice vectors, atom positions, species and symmetry operations, makes the grid of the type asked for with the number or density of points or the settings given, and fills it once with the phonon frequencies (in Hartree) and eigenvectors that the force constants give at exactly the grid\'s q-points with the interpolation options given, except insert_gamma and reduce_qpts, which are off; the caller\'s options are not modified. '
  'calculate_qpoint_phonon_modes and calculate_qpoint_frequencies return what Brille interpolates at exactly the q-points asked for, frequencies converted to meV and component 3j+a of a vector as direction a of atom j. Unknown grid types and grids that do not fit the crystal are refused.',
  ['inputs', 'configurations'], 'every grid point, frequency, eigenvector and interpolated value, for the stated crystals, grid types and settings',
  'The tests need the Brille library and compare a few stored interpolations, whose tolerances hide wrong points or components.',
  ['euphonic/brille.py'], [('grid and filling', 'euphonic/brille.py:from_force_constants'),
                           ('interpolation', 'euphonic/brille.py:_br_grid_calculate_phonons')], ['BrilleInterpolator'])
p('C29', 'The eigensolver returns accurate orthonormal eigenpairs',
  'The eigenvalues and eigenvectors handed back by LAPACK through NumPy or through the C extension are orthonormal eigenpairs of the matrix given to within rounding.',
  I, 'all Hermitian matrices', 'Accuracy of LAPACK is sampled only.',
  [FC, 'c/dyn_mat.c'], [('LAPACK call', 'c/dyn_mat.c:diagonalise_dyn_mat_zheevd')], ['eigenvectors'])
p('C30', 'Plots show the values, axes and labels of the spectra they are given',
  'plot_1d and plot_1d_to_axis draw each line of a spectrum or collection as its y values against its bin centres, complete and in order, in one colour, interrupted exactly where an x value is repeated and named in the legend once (from the labels given, else its own label). The x limits are the ends of the x data, tick labels stand at the x values of their points, and ymin/ymax, titles and line properties are those given. '
  'A sequence is drawn from left to right in subplots whose widths are in the ratio of their x ranges, and spectra in different units are a ValueError. '
  'plot_2d draws each z value at its own bin centres within limits at the outermost bin edges, with one colour scale for all parts that runs from the least to the greatest value of all of them unless vmin or vmax is given.',
  ['inputs', 'configurations'], 'every value of the spectra and limits, for the stated sizes, kinds of bins, repeated points and labels',
  'Tests compare a few stored plots; which line, segment, part or limit is wrong depends on the data.',
  ['euphonic/plot.py'], [('lines', 'euphonic/plot.py:plot_1d_to_axis'), ('maps', 'euphonic/plot.py:plot_2d_to_axis'),
                         ('subplots and colour scale', 'euphonic/plot.py:plot_2d')], ['euphonic.plot.plot_1d', 'euphonic.plot.plot_2d'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
    print(len(P))
