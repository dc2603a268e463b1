#!/opt/venv/bin/python
"""writes properties.jsonl (the texts are kept here, one tuple per property)"""
import json
import os

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': ['CasimirRio/' + f for f in files],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


p('C01', 'Irregular modified spherical Bessel functions are exact at every order',
  'For every positive argument and every requested maximum order, the table of logarithms of the '
  'irregular modified spherical Bessel functions has one row per argument and one column per order '
  '0..lmax, and every entry equals ln[(pi/2) e^-x/x * sum_j (l+j)!/(j!(l-j)!(2x)^j)]; a non-integer '
  'maximum order is rejected.  Entries do not depend on which other arguments are in the same call.',
  ['inputs'], 'all x>0 (arrays, any order of elements), all lmax',
  'tests compare a handful of orders at a few arguments with scipy tables',
  ['bessel_sk.py'], [('lnknu three-term recurrence in log space', 'bessel_sk.py:lnknu'),
                     ('trans_bessels ext_flag', 'bessel_sk.py:trans_bessels')],
  ['bessel_sk.lnknu', 'bessel_sk.trans_bessels', 'bessel_sk.mie_bessels'])

p('C02', 'Regular modified spherical Bessel functions are correct element by element',
  'For every positive argument and order the regular modified spherical Bessel functions returned '
  '(in logarithmic form) agree with sinh(x)/x, (x cosh x - sinh x)/x^2 and the upward orders that obey '
  'the Wronskian with the irregular ones, including the small-argument series regime, and the helpers '
  'for scattering and translation return exactly the requested orders (lmin..lmax, regular for the '
  'interior and irregular for the exterior geometry).  Every element depends only on its own argument: '
  'not on array order, neighbours or array length.',
  ['inputs'], 'all x>0 (mixed small/large arrays in any order), all orders lmin<=lmax within bounds',
  'tests use sorted argument grids and a few orders; they never permute, mix regimes or check the series',
  ['bessel_sk.py'], [('small/large argument split', 'bessel_sk.py:lniknu'),
                     ('continued fraction', 'bessel_sk.py:fnu'),
                     ('slicing', 'bessel_sk.py:mie_bessels')],
  ['bessel_sk.lniknu', 'bessel_sk.mie_bessels', 'bessel_sk.trans_bessels', 'bessel_sk.i_fraction'])

p('C03', 'Mie coefficients at finite frequency solve the boundary conditions',
  'For every imaginary wavenumber k>0, radius, angular momentum and pair of materials with arbitrary '
  'positive permittivity and permeability, the scaled TE and TM scattering coefficients of a sphere '
  '(outside scattering, inside scattering, and both for a perfectly conducting body), multiplied by the '
  'exponential of the returned scaling, are the coefficients that make tangential E and H continuous.  '
  'The result has shape (3, number of k, lmax-lmin+1) and asking for lmin>1 gives the same numbers as '
  'slicing the lmin=1 result.',
  ['inputs', 'configurations'], 'all k>0, R>0, eps,mu>0, all 1<=lmin<=lmax within bounds',
  'tests compare three materials at a few points with tables computed by the same formula',
  ['scattering.py'], [('mie', 'scattering.py:scattering.mie'),
                      ('mie_internal', 'scattering.py:scattering.mie_internal'),
                      ('miePEC, miePEC_internal', 'scattering.py')],
  ['scattering.scattering.mie', 'scattering.scattering.mie_internal'])

p('C04', 'Mie coefficients respect physical symmetries and limits',
  'Scattering vanishes identically when sphere and medium have the same permittivity and permeability; '
  'exchanging permittivities with permeabilities exchanges TE and TM coefficients; a sphere of unbounded '
  'permittivity reproduces the perfect-conductor coefficients; the coefficients depend on wavenumber and '
  'radius only through their product for dispersion-free media, and the sign of every coefficient follows '
  'the material contrast (denominators never vanish).',
  ['inputs', 'configurations'], 'all k>0, R>0, eps,mu>0, all l within bounds',
  'no test checks an identity; only point values',
  ['scattering.py'], [('mie family', 'scattering.py')],
  ['scattering.scattering.mie', 'scattering.scattering.mie_internal'])

p('C05', 'Zero-frequency Mie coefficients are the limit of the finite ones',
  'For every class of sphere material (perfect conductor, plasma, Drude-like conductor, dielectric, each '
  'optionally magnetic) in a dielectric medium, the static scattering coefficients equal the limit k->0 of '
  'the finite-frequency coefficients divided by (n k R)^(2l+1), with the returned common logarithmic factor; '
  'a conducting medium is refused.  They depend on lmin only by slicing and on the length unit only through '
  'the plasma frequency.',
  ['inputs', 'configurations'], 'all radii, plasma frequencies, static eps and mu, orders within bounds',
  'tests sample three materials at one radius', ['scattering.py'],
  [('mie_k0 branches', 'scattering.py:scattering.mie_k0'), ('flags', 'materials.py')],
  ['scattering.scattering.mie_k0'])

p('C06', 'Zero-frequency interior Mie coefficients are the limit of the finite ones',
  'For every class of outer material (perfect conductor, plasma, Drude-like conductor, dielectric, magnetic) '
  'around a dielectric cavity, the static interior scattering coefficients equal the limit k->0 of the '
  'finite-frequency interior coefficients multiplied by (n k R)^(2l+1), with the returned common logarithmic '
  'factor; a conducting cavity medium is refused.  They depend on lmin only by slicing.',
  ['inputs', 'configurations'], 'all radii, plasma frequencies, static eps and mu, orders within bounds',
  'no test calls the interior static coefficients for a plasma or with lmin>1', ['scattering.py'],
  [('mie_internal_k0 branches', 'scattering.py:scattering.mie_internal_k0')],
  ['scattering.scattering.mie_internal_k0'])

p('C07', 'Coated and stratified spheres reduce correctly and leave inputs untouched',
  'The coefficients of a sphere with any number of concentric layers solve the layered boundary-value '
  'problem: a coating of the core material, a coating of the medium material, or two equal adjacent layers '
  'give exactly the coefficients of the simpler sphere, and the single-coating and many-layer routines '
  'agree.  Lists of materials and radii passed in are never modified, and repeated calls return the same '
  'values.',
  ['inputs', 'configurations', 'histories'], 'all k>0, radii, eps, mu, 1-3 layers, orders within bounds',
  'tests check one configuration each, once', ['scattering.py', 'stratified_sphere_scattering.py'],
  [('mie_coated', 'scattering.py:coated_miescattering'),
   ('mie_stratified recursion', 'stratified_sphere_scattering.py')],
  ['coated_miescattering.mie_coated', 'StratifiedMieScattering.mie_stratified'])

p('C08', 'Gaunt coefficients are the exact triple spherical-harmonic integrals',
  'For all angular momenta l, l\' and projections m (of either sign) the returned coefficients are the '
  'integrals of Y_l\'\'^0 Y_l^m Y_l\'^-m for l\'\' = |l-l\'|, |l-l\'|+2, ..., l+l\' in that order, zero when '
  '|m| exceeds either angular momentum; hence symmetric under exchange of l and l\' and under m -> -m.',
  ['inputs'], 'all l, l\', m within bounds',
  'tests compare a few coefficients with tables', ['cython_gaunt.pyx'],
  [('Xu recurrence', 'cython_gaunt.pyx:gaunt')], ['cython_gaunt.gaunt'])

p('C09', 'Finite-frequency translation coefficients obey the addition theorem',
  'For every k>0, distance, medium permittivity and permeability, projection m and pair of angular momenta, the scaled '
  'translation coefficients times the exponential of their common scaling equal the Gaunt-sum form of the '
  'vector addition theorem at the argument n k L (n the refractive index of the medium, sqrt(eps mu)) '
  'for exterior (irregular) and interior (regular) geometry; translating in the '
  'opposite direction multiplies the polarisation-conserving part by (-1)^(l+l\') and the mixing part by '
  '-(-1)^(l+l\'); polarisation mixing vanishes for m=0 and is linear in m.  Results have shape '
  '(number of k, lmax-lmin+1, lssmax-lmin+1) with lmin=max(1,m).',
  ['inputs', 'configurations'], 'all k, L, eps>0, mu>0, l1, l2, m within bounds',
  'tests compare single elements with tables', ['translation.py', 'bessel_sk.py', 'cython_gaunt.pyx'],
  [('get_vl1l2', 'translation.py'), ('get_scaled_bessels', 'translation.py')],
  ['translation.translation.trans_ab'])

p('C10', 'Zero-frequency translation coefficients are the limit of the finite ones',
  'The static polarisation-conserving translation coefficients (sign and logarithm) equal the limit k->0 of '
  'the finite-frequency coefficients after removing the power of (n k L) they are documented to remove, for '
  'exterior and interior geometry, all angular momenta and projections; mixing vanishes in that limit.',
  ['inputs', 'configurations'], 'all l1, l2, m within bounds, all L and eps',
  'tests compare a few elements numerically', ['translation.py', 'helper_functions.py'],
  [('trans_k0_ext', 'translation.py'), ('trans_k0_int', 'translation.py')],
  ['translation.translation.trans_ab'])

p('C11', 'Round-trip blocks are reflection-translation products up to a similarity',
  'For every m and wavenumber array the four round-trip blocks are the products of the reflection '
  'coefficients of both bodies and the two translations with the right polarisation at each step, and the '
  'rescaling applied for numerical balance is a diagonal similarity, so traces and determinants are those '
  'of the unscaled operator; the channel-resolved variant adds up to the same blocks and the debugging '
  'variant agrees on the polarisation-conserving ones.  '
  'Wavenumbers are spectators: each slice depends on its own wavenumber only.',
  ['inputs', 'configurations'], 'all k, radii, distances, materials, m, lmax, lssmax within bounds',
  'tests check single numbers for perfect conductors', ['geometry.py'],
  [('blockmatrices', 'geometry.py'), ('dynamic_scaling/single_k_scale', 'geometry.py')],
  ['SphereSphere.blockmatrices', 'blockmatrices_channels', 'blockmatrices_debug'])

p('C12', 'Zero-frequency round-trip blocks are the limit of the finite-frequency ones',
  'For exterior and interior geometry and all non-layered materials, the static TE and TM round-trip blocks '
  'are available, have the dimension lmax-max(1,m)+1 for every m, and equal (up to a diagonal similarity) the '
  'k->0 limit of the finite-frequency diagonal blocks; the static contribution to the log-determinant is the '
  'sum of both blocks with m-weights 1 and 2.',
  ['inputs', 'configurations'], 'all radii, distances, static responses, m, lmax, lssmax within bounds',
  'the static path is not covered beyond a few values',
  ['geometry.py', 'scattering.py', 'translation.py'],
  [('blockmatrices_k0_ext/int', 'geometry.py'), ('mSumme_k0', 'geometry.py')],
  ['SphereSphere.blockmatrices_k0', 'SphereSphere.mSumme_k0'])

p('C13', 'The m-sum of log-determinants has weights 1,2,2,... and a safe early stop',
  'For every wavenumber array the energy integrand returned per wavenumber is ln det(1-M(0)) + 2 sum_{m>=1} '
  'ln det(1-M(m)), truncated only after the last added term changed the dominant entry by less than a tenth '
  'of the requested precision; a leading zero wavenumber is answered by the static evaluation and prepended.',
  ['inputs', 'configurations'], 'all round-trip block values, precisions, lmax and number of k within bounds',
  'tests only compare a few end numbers', ['geometry.py'],
  [('mSumme', 'geometry.py'), ('single_m', 'geometry.py'), ('mSumme_k0', 'geometry.py')],
  ['SphereSphere.mSumme', 'SphereSphere.single_m', 'SphereSphere.mSumme_k0', 'SphereSphere.mSum_oneRoundtrip'])

p('C14', 'Block linear algebra and balancing preserve determinants, inverses and traces',
  'Matrix products, inverses, block inverses, traces of (1-A)^-1 B, block assembly and log-determinants over '
  'stacks of matrices are exact per stack element; the balancing used before determinants is a diagonal '
  'similarity by powers of two, so it terminates with the same diagonal, determinant and spectrum for every '
  'matrix; malformed shapes are rejected.',
  ['inputs'], 'all real matrices (sizes within bounds)',
  'tests use a few fixed small matrices', ['geometry.py', 'matrix_balancing.pyx'],
  [('balance', 'matrix_balancing.pyx'), ('inv_3d_blockmatrix', 'geometry.py'),
   ('trace_dot_3d', 'geometry.py'), ('sln_det_3d', 'geometry.py')],
  ['geometry.inv_3d_blockmatrix', 'geometry.trace_dot_3d', 'geometry.balanced_slogdet', 'matrix_balancing.balance'])

p('C15', 'The trace expansion is the truncated log-determinant series',
  'For every round-trip matrix and order N, the trace evaluation returns -sum_{n=1..N} Tr M^n / n per '
  'wavenumber, summed over m with weights 1,2,2,...; with automatic order it adds terms until the last one '
  'changes no wavenumber by more than the precision, and the number of round trips used is recorded per m.',
  ['inputs', 'configurations'], 'all matrices (size within bounds), orders, precisions',
  'one end value is tested', ['geometry.py'],
  [('arbitrary_roundtrips', 'geometry.py'), ('mSum_roundtrips', 'geometry.py')],
  ['SphereSphere.arbitrary_roundtrips', 'SphereSphere.mSum_roundtrips'])

p('C16', 'Results do not depend on the history of calls',
  'Reflection and translation elements, round-trip blocks and energies returned by a geometry object for '
  'given (m, wavenumbers) are the same whatever was computed before on that object: any order of m, any '
  'previous wavenumber arrays, static before or after finite frequencies.  Arrays handed in are not modified.',
  ['histories', 'inputs'], 'all call sequences within bounds (m in 0..lmax, different k arrays)',
  'tests call each method once, in one order', ['geometry.py'],
  [('Mie caches keyed by wavenumbers', 'geometry.py:roundTrip_elements'),
   ('static cache', 'geometry.py:roundTrip_elements_k0')],
  ['SphereSphere.roundTrip_elements', 'SphereSphere.roundTrip_elements_k0', 'SphereSphere.blockmatrices'])

p('C17', 'Material response functions follow the oscillator model',
  'At every imaginary wavenumber the permittivity is 1 plus the sum of the oscillator terms '
  'wP^2/(wR^2+k^2+gamma k) (or the Drude-Smith form) and the permeability 1+(mu0-1)/(1+k/wM), with frequencies '
  'measured in c/micron; both have the shape of k, are >= 1 for mu0 >= 1 and decrease monotonically with k, and '
  'evaluating them never changes the material or the argument.  Every predefined material keeps its published '
  'oscillator parameters.',
  ['inputs'], 'all k>0 (scalars and arrays), all oscillator parameters (1-3 oscillators) and every predefined material',
  'tests sample a few values', ['materials.py'],
  [('LorentzMaterial.epsilon/mu', 'materials.py'), ('LorentzSmithMaterial', 'materials.py')],
  ['materials.LorentzMaterial', 'materials.LorentzSmithMaterial'])

p('C18', 'Material classification matches the static response',
  'A material is classified dielectric exactly when no oscillator of nonzero strength sits at zero frequency '
  '(equivalently its static permittivity is finite), as having finite conductivity exactly when every such '
  'oscillator is damped, and as magnetic exactly when a nonzero static permeability is given; every predefined '
  'material carries flags consistent with its parameters.',
  ['inputs', 'configurations'], 'all oscillator lists (up to 3) and magnetic parameters',
  'tests use hand-picked lists', ['materials.py'],
  [('is_sigma_finite', 'materials.py'), ('is_dielectric', 'materials.py'), ('is_magnetic', 'materials.py')],
  ['materials.is_sigma_finite', 'materials.is_dielectric', 'materials.is_magnetic'])

p('C19', 'Fresnel coefficients satisfy the interface conditions and bounds',
  'For every parallel wavenumber, frequency and pair of media the TE and TM plane reflection coefficients are '
  'those of the interface, lie strictly between -1 and 1, vanish for identical media, change sign when the '
  'media are exchanged, exchange roles when permittivity and permeability are exchanged, and tend to -1 and +1 '
  'for the perfect conductor.',
  ['inputs', 'configurations'], 'all k_perp>=0, k>0, eps, mu>0',
  'tests sample a few points', ['scattering.py'], [('fresnel, fresnelPEC', 'scattering.py')],
  ['scattering.scattering.fresnel'])

p('C20', 'Plane-plane free energy and pressure follow the Lifshitz formula',
  'For every temperature, separation and material triple the plane-plane free energy is the Matsubara sum '
  '(half weight at n=0) of the Lifshitz integrand with the documented prefactor, the zero and infinite '
  'temperature cases are the corresponding integral and n=0 term, a shielded n=0 term contributes nothing, '
  'and the pressure integrand is minus the derivative of the energy integrand with respect to the separation.',
  ['inputs', 'configurations'], 'all T, L, k_perp, materials (quadrature nodes symbolic); Matsubara terms within bounds',
  'tests compare two limits numerically', ['PFA.py'],
  [('roundTrip(s)', 'PFA.py'), ('pressureRoundTrip(s)', 'PFA.py'), ('planeplane*', 'PFA.py')],
  ['PFA.SphereSpherePFA'])

p('C21', 'Proximity-force quantities for two spheres use the right geometry',
  'For separated spheres and for a sphere inside a larger one, in either order of the two bodies, the local '
  'gap is the distance between facing surfaces, the proximity energy integrates 2 pi rho times the plane-plane '
  'energy over the overlap disc of the smaller sphere, the force is 2 pi R_eff times the plane-plane energy at '
  'closest approach, both honour n=0 shielding, and exchanging the bodies (with their materials) changes nothing.',
  ['inputs', 'configurations'], 'all radii, distances, rho, temperatures',
  'tests use one radius pair', ['PFA.py'],
  [('distance', 'PFA.py'), ('spheresphereEnergy', 'PFA.py'), ('spheresphereForce', 'PFA.py')],
  ['PFA.SphereSpherePFA'])

p('C22', 'The two proximity-force modules agree',
  'The leading-order module and the full module return the same plane-plane integrands, free energies, '
  'pressures and sphere-sphere forces for the same physical situation (the leading-order module lists the '
  'Matsubara terms unweighted and works at finite temperature), and neither changes its arguments.',
  ['inputs', 'configurations'], 'all T, L, k_perp, radii, materials within bounds',
  'the leading-order module has no tests', ['PFA.py', 'raw_PFA.py'],
  [('raw_PFA.SphereSpherePFA', 'raw_PFA.py')], ['raw_PFA.SphereSpherePFA'])

p('C23', 'Thermodynamic quantities are the documented Matsubara sums',
  'For every temperature step, the terms n=0..nmax are computed once each, in order, whatever the slice '
  'length, with half weight for n=0 (taken from the static evaluation or its k->0 stand-in); the free energy '
  'is given at the temperatures dT, 2 dT, ... up to Tmax and at the i-th one is i dT times the sum of every i-th term, the entropy is minus its numerical '
  'temperature derivative, the T=0 energy the integral of the same integrand, and asking again or in another '
  'order gives the same numbers.',
  ['inputs', 'configurations', 'histories'], 'all integrand values, temperatures, nmax, slice lengths within bounds',
  'tests use one geometry', ['thermodynamics.py'],
  [('free_energy', 'thermodynamics.py'), ('slicewise_eval', 'thermodynamics.py'),
   ('F_alle', 'thermodynamics.py')], ['thermodynamics.finiteT', 'thermodynamics.slicewise_eval'])

p('C24', 'Automatic truncation orders are valid, symmetric and monotone',
  'Automatically chosen maximum angular momenta and Matsubara numbers are positive integers, do not depend on '
  'the order in which the spheres are given, do not decrease when higher precision is requested or (for '
  'angular momenta) when the gap shrinks, include the user\'s offset (except at gaps of 30 smaller radii and more, where '
  'dipoles suffice), and values given explicitly are used unchanged; the exterior/interior decision follows from comparing the distance with the sum of outer radii.',
  ['inputs', 'configurations'], 'all radii, distances, precisions, offsets, temperature steps',
  'tests check single configurations', ['geometry.py', 'thermodynamics.py'],
  [('get_lmax', 'geometry.py'), ('SphereSphere.__init__', 'geometry.py'), ('finiteT.__init__', 'thermodynamics.py')],
  ['geometry.get_lmax', 'geometry.SphereSphere', 'thermodynamics.finiteT'])

p('C25', 'A job computes what its configuration says and never destroys results',
  'Running a job file builds exactly the geometry, truncation, precision, materials and thermodynamic request '
  'written in it (a distance given on the command line wins), writes a header describing that job followed by '
  'the numbers of the requested quantity, and never overwrites an existing result file, however many runs came '
  'before.',
  ['configurations', 'histories'], 'all numeric configuration values, present/absent optional keys, pre-existing output files',
  'there is no test of the command-line program', ['worker.py'],
  [('return_geometry', 'worker.py'), ('do_calculation', 'worker.py'), ('save_result', 'worker.py')],
  ['worker.py'])

p('C26', 'Numerical helpers are exact where they promise to be',
  'The logarithmic factorial and double factorial are exact for every integer; the numerical derivative is '
  'linear in the data, exact for polynomials of degree four at interior points, two at next-to-edge points and '
  'one at the edges, has the shape of its input, rejects non-increasing grids, and its refined variant returns '
  'values on the original grid, reproduces power laws and scales with the data, sign included.',
  ['inputs'], 'all data values and grid spacings, sizes within bounds',
  'tests use sample functions', ['helper_functions.py'],
  [('num_derivative', 'helper_functions.py'), ('ln_2dbl', 'helper_functions.py'), ('lfac', 'helper_functions.py')],
  ['helper_functions'])

p('C27', 'Tabulated optical data are interpolated inside and Drude-extended outside',
  'For an increasing frequency grid reaching beyond a table on both sides, the returned permittivity has one '
  'value per requested frequency, in order: linear interpolation of the table inside its range and the fitted '
  'Drude law outside; the Drude law itself is 1+wp^2/(w^2+w gamma), and a single frequency gets that of gold.  '
  'Tables of oscillator strengths are converted to wP^2 = C wR^2 in rad/s.  Given data are never changed.',
  ['inputs'], 'all table values and frequency grids (sizes within bounds)',
  'this module has no tests', ['data_inter_extrapolation.py', 'materials_converter.py'],
  [('transform', 'materials_converter.py'), ('interpolate', 'data_inter_extrapolation.py'), ('get_drude_data', 'data_inter_extrapolation.py')],
  ['data_inter_extrapolation.data_interp_extrap'])

p('C28', 'Energies are independent of labelling and of the unit of length',
  'Exchanging the two separated spheres (radii and materials together, with the same truncation on both sides) '
  'leaves traces and determinants of the round trip unchanged, and scaling all lengths by a common factor while '
  'dividing wavenumbers by it leaves them unchanged for scale-free materials.',
  ['inputs', 'configurations'], 'all radii, distances, k, materials within bounds',
  'no test compares two equivalent configurations', ['geometry.py', 'translation.py', 'scattering.py'],
  [('blockmatrices', 'geometry.py'), ('translation signs', 'translation.py')],
  ['SphereSphere.blockmatrices', 'SphereSphere.mSumme'])

p('C29', 'Only contrasts matter, and electric and magnetic response are dual',
  'Exchanging permittivity and permeability of all bodies and of the medium exchanges the TE and TM results and changes nothing '
  'else; dividing the response of all bodies by that of the medium and measuring wavenumbers inside the medium (n k instead of '
  'k) changes nothing at all.  Both hold for Mie coefficients of plain, coated and stratified spheres, for scattering from '
  'inside, for their zero-frequency limits, for Fresnel coefficients, proximity-force integrands, translation coefficients, '
  'round-trip blocks and their sum over m.',
  ['inputs', 'configurations'], 'all k, radii, distances, eps>0, mu>0 of every body and of the medium, l and m within bounds',
  'tests use non-magnetic media and never compare two equivalent material configurations',
  ['scattering.py', 'stratified_sphere_scattering.py', 'translation.py', 'geometry.py', 'PFA.py', 'raw_PFA.py'],
  [('mie, mie_internal, mie_k0, fresnel', 'scattering.py'), ('argument n k L', 'translation.py'),
   ('roundTrips', 'PFA.py'), ('blockmatrices', 'geometry.py')],
  ['scattering.scattering.mie', 'scattering.scattering.fresnel', 'SphereSphere.blockmatrices', 'SphereSpherePFA.roundTrips'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
