"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None,
      state=None):
    assert len(title) <= 80, title
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = state
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


K = 'empymod/kernel.py'
M = 'empymod/model.py'
U = 'empymod/utils.py'
T = 'empymod/transform.py'
I = 'empymod/io.py'
F = 'empymod/filters.py'
TT = 'empymod/scripts/tmtemod.py'
FD = 'empymod/scripts/fdesign.py'

p('C01', 'Layered fields are continuous across every interface',
  'For every layered VTI model, source and source-receiver component pair, '
  'the horizontal electric and magnetic field components and the vertical '
  'current and flux densities (eta_v Ez, zeta_v Hz) computed just above an '
  'interface equal those computed just below it.',
  ['inputs', 'configurations'],
  'all 36 component pairs, all layer media (VTI in eta and zeta), '
  'wavenumbers, source depths and interfaces of the model',
  'Tests compare a handful of concrete models with stored numbers; continuity '
  'must hold for every medium, depth and wavenumber.',
  [K], [('wavenumber, greenfct', K), ('reflections', K), ('fields', K)],
  ['model.dipole_k', 'kernel.wavenumber'])

p('C02', 'Layered fields satisfy Maxwell equations inside every layer',
  'Away from the source the computed electric and magnetic fields satisfy '
  'the source-free Maxwell equations (Faraday and Ampere, VTI medium) in '
  'every layer, in every horizontal direction, and decay away from the '
  'source in the upper and lower half-spaces.',
  ['inputs', 'configurations'],
  'all 36 component pairs, media, wavenumbers, azimuths, source and '
  'receiver layers and depths',
  'Regression numbers cannot show that a field is a solution of the '
  'governing equations for models that were never stored.',
  [K], [('wavenumber, greenfct', K), ('fields', K), ('angle_factor', K)],
  ['model.dipole_k'])

p('C03', 'The field jumps at the source like a unit electric/magnetic dipole',
  'Crossing the source level, the computed layered field jumps exactly as '
  'Maxwell\'s equations demand for a unit electric or magnetic dipole of the '
  'requested direction, whichever layer and medium the source sits in; the '
  'components that must not jump do not.',
  ['inputs', 'configurations'],
  'all 36 component pairs, media, wavenumbers, azimuths, source layers',
  'Amplitude and sign of every component pair are only tested for stored '
  'models.',
  [K], [('wavenumber, greenfct', K), ('angle_factor', K)],
  ['model.dipole_k'])

p('C04', 'Exchanging source and receiver obeys electromagnetic reciprocity',
  'Exchanging positions and components of source and receiver in the same '
  'model leaves an electric-electric or magnetic-magnetic response '
  'unchanged, and changes the sign of an electric-magnetic response.',
  ['inputs', 'configurations'],
  'all 36 component pairs, layered VTI models, any two layers, any azimuth; '
  'layered, full-space and half-space solutions',
  'The existing tests compare a few component pairs for single models.',
  [K, U], [('wavenumber, greenfct', K), ('angle_factor', K),
           ('fullspace', K), ('check_ab', U)],
  ['model.dipole', 'model.dipole_k'])

p('C05', 'Interfaces between identical media are invisible',
  'Inserting an interface anywhere in a layer (the new layers having the '
  'same properties), or describing a whole space as several layers, does not '
  'change the response; an interface between different media is never '
  'treated as invisible.',
  ['inputs', 'configurations'],
  'all component pairs, any layer incl. the half-spaces, any position '
  'relative to source and receiver; both direct-field treatments',
  'Tests have a few concrete full-space comparisons.',
  [K, U, M], [('reflections, fields, greenfct', K),
              ('check_model (full-space detection)', U), ('fem', M)],
  ['model.dipole_k', 'model.dipole'])

p('C06', 'Responses depend on relative depths only, in either z convention',
  'Shifting source, receiver and all interfaces by the same vertical '
  'distance, listing interfaces in reversed order, giving the first '
  'interface as -infinity explicitly, or mirroring the whole model '
  'vertically (with the sign changes of axial/vertical components), '
  'describes the same physical situation and gives the same response.',
  ['inputs', 'configurations'],
  'all models, both coordinate systems (z down, z up), all component pairs',
  'Tests check single concrete models for the left/right-handed systems.',
  [U, K], [('check_model', U), ('get_layer_nr', U), ('greenfct', K)],
  ['model.dipole', 'utils.check_model'])

p('C07', 'Electric-magnetic duality',
  'A model with (eta, zeta) exchanged gives for the dual (electric<->'
  'magnetic) component pair the response of the original, with the sign '
  'prescribed by the symmetry of Maxwell\'s equations.',
  ['inputs', 'configurations'],
  'all component pairs, layered VTI models and full spaces',
  'No test compares a model with its dual.',
  [K, U], [('greenfct', K), ('fullspace', K), ('check_ab', U)],
  ['model.dipole_k'])

p('C08', 'The full-space closed form is the field of a unit dipole',
  'For every VTI full space (eta, zeta), component pair and '
  'source-receiver vector, the closed-form full-space solution satisfies '
  'Maxwell\'s equations away from the source, in the frequency and Laplace '
  'domains, and reduces to the isotropic dyadic Green\'s function of a unit '
  'dipole for isotropic media.',
  ['inputs'],
  'all 36 pairs, all positive eta/zeta, all source-receiver vectors with '
  'non-zero offset',
  'Tests compare stored numbers for a few points.',
  [K, M], [('fullspace', K), ('analytical', M)],
  ['model.analytical(solution="fs")'])

p('C09', 'Direct-field treatments are consistent',
  'Computing the direct field in the wavenumber domain, or leaving it out '
  'of the layered solution and adding the analytical full-space field of '
  'the source layer, gives the same total; the option to return only the '
  'scattered field returns exactly total minus direct.',
  ['inputs', 'configurations'],
  'all component pairs, models, and layers; the three values of the option',
  'Tests check the option on single models.',
  [K, M], [('greenfct', K), ('fem', M)],
  ['model.dipole', 'model.bipole'])

p('C10', 'Diffusive half-space solutions are mutually consistent',
  'The returned parts (direct, reflected, airwave; TE and TM) of the '
  'diffusive half-space solution sum to the total, the direct part is the '
  'diffusive full-space field, the impulse response is the time derivative '
  'of the switch-on response, vertical current vanishes at the surface, and '
  'switch-off equals DC minus switch-on.',
  ['inputs', 'configurations'],
  'all electric component pairs, resistivities, anisotropies, positions, '
  'times and frequencies',
  'Stored numbers for a few points only.',
  [K, M], [('halfspace', K), ('analytical', M)],
  ['model.analytical(solution="dhs","dsplit","dtetm","dfs")'])

p('C11', 'Arbitrarily oriented dipoles are projections of axis-aligned ones',
  'The response of arbitrarily rotated electric or magnetic point '
  'sources and receivers equals the direction-cosine combination of the '
  'axis-aligned component responses (azimuth anticlockwise from x, dip '
  'downwards positive), for every orientation including multiples of 90 '
  'degrees where components are skipped.',
  ['inputs', 'configurations'],
  'all azimuths and dips of source and receiver, all four source/receiver '
  'type combinations',
  'Tests sample a few angles.',
  [U, M], [('get_abs', U), ('get_geo_fact', U), ('bipole ab-loop', M)],
  ['model.bipole'])

p('C12', 'Batched calls equal individual calls',
  'For every number of sources, receivers and frequencies, and any mix of '
  'common and individual source/receiver depths, each entry of the '
  'result of one call is the response of the corresponding single source, '
  'receiver and frequency, in the documented order and shape.',
  ['inputs', 'configurations'],
  'all shapes of src/rec/frequency input of bipole, dipole and analytical, '
  'with and without squeeze',
  'Tests cover some shapes with numbers; the index arithmetic has to be '
  'right for all.',
  [M, U], [('bipole loops', M), ('dipole reshape', M), ('get_off_ang', U),
           ('check_bipole, check_dipole', U)],
  ['model.bipole', 'model.dipole', 'model.analytical'])

p('C13', 'Finite-length bipoles are length-weighted sums of point dipoles',
  'A finite bipole is evaluated at points on its own segment, symmetric '
  'about the centre, with weights that sum to one (or to its strength times '
  'length when a strength is given); reversing the electrodes flips the sign, '
  'and the result is the same however many receivers share the call.',
  ['inputs', 'configurations'],
  'all electrode positions, 1 to 5 integration points, all strengths',
  'Tests sample a few geometries.',
  [U, M], [('get_azm_dip', U), ('bipole integration loops', M)],
  ['model.bipole', 'utils.get_azm_dip'])

p('C14', 'Every point is evaluated with the properties of its own layer',
  'A source or receiver at depth z is assigned to the unique layer whose '
  'upper interface lies above it and whose lower interface is at or below '
  'it; points exactly on an interface belong to the upper layer, for point '
  'dipoles, bipoles and any number of points.',
  ['inputs'],
  'all interface lists (up to the stated length) and all depths including '
  'depths equal to an interface',
  'Tests sample few depths.',
  [U], [('get_layer_nr', U)], ['utils.get_layer_nr', 'model.bipole'])

p('C15', 'Medium parameters follow their definitions at every frequency',
  'For each frequency and layer the admittivity and impedivity used are '
  'eta = 1/res + s eps0 eps_r and zeta = s mu0 mu_r with s = 2 pi i f (or '
  's = -f for the Laplace domain), the vertical conductivity being the '
  'horizontal one divided by the squared anisotropy; defaults are isotropic '
  'media with unit relative permittivity and permeability.',
  ['inputs', 'configurations'],
  'all resistivities, anisotropies, permittivities, permeabilities, '
  'frequencies (both signs), all combinations of omitted optional arguments',
  'Tests sample a few values.',
  [U], [('check_frequency', U), ('check_model', U)],
  ['utils.check_frequency', 'model.bipole hooks'])

p('C16', 'The digital linear filter transform is the filter sum it documents',
  'For every kernel, the Hankel DLF result at each offset is the sum of '
  'kernel values at base/offset times filter weights divided by the offset, '
  'with angle factor and J2 recursion applied as documented; the lagged '
  'variant shifts one common set of points and the splined variant only '
  'interpolates between common points.',
  ['inputs', 'configurations'],
  'all kernels (arbitrary values), offsets, angle factors, component '
  'pairs, and short filters; standard, lagged and splined variants',
  'Tests check stored numbers.',
  [T], [('dlf', T), ('get_dlf_points', T), ('hankel_dlf', T)],
  ['transform.dlf', 'transform.get_dlf_points'])

p('C17', 'Frequency-to-time conversion has the documented sign and scale',
  'The time-domain result is linear in the frequency-domain field; switch-on '
  'and switch-off responses are transforms of the field divided by plus and '
  'minus 2 pi i f, the sine and cosine variants use the imaginary and real '
  'parts with the documented signs, and offsets are transformed '
  'independently of each other.',
  ['inputs', 'configurations'],
  'all frequency-domain values, times, signals, and filter variants',
  'Tests compare single models.',
  [M, T], [('tem', M), ('fourier_dlf', T), ('fourier_fft', T),
           ('fourier_fftlog', T)],
  ['model.tem', 'transform.fourier_dlf'])

p('C18', 'Adaptive quadrature sums are exact for geometric series',
  'The quadrature-with-extrapolation routine returns the exact limit for '
  'every sequence of interval contributions that is geometric, results for '
  'one offset or time do not depend on the others computed in the same '
  'call, and convergence is reported only if every entry met the tolerance '
  'before the interval limit.',
  ['inputs', 'histories'],
  'all first terms and ratios, tolerances, interval limits, and batches',
  'Tests cover single kernels.',
  [T], [('qwe', T)], ['transform.qwe'])

p('C19', 'Waveform responses are the convolution with the given current',
  'For any piecewise-linear current waveform the response is minus the sum '
  'over its segments of (change of current per time) times the integral of '
  'the step or impulse response over the times elapsed since the segment '
  '(cut at the observation time; Gauss quadrature of the requested number of '
  'points per segment). It is linear in the amplitudes, segments after the '
  'observation time or without change of current do not contribute, '
  'receivers and times are independent of each other, and inserting a node '
  'on a segment does not change the result for polynomial responses up to '
  'the degree the quadrature integrates exactly.',
  ['inputs', 'configurations'],
  'all nodes, amplitudes and observation times up to the stated sizes, all '
  'three base signals',
  'Tests cover single waveforms.',
  [U, M], [('check_waveform', U), ('tem', M)],
  ['utils.check_waveform', 'model.bipole'])

p('C20', 'Saved files load back to what was saved',
  'Inputs and data saved to json or npz files are loaded back as the same '
  'values, types and shapes, and data saved to text files as the same '
  'complex numbers; saving never alters its arguments.',
  ['inputs'],
  'all supported shapes and dictionaries, complex and real data, all file '
  'formats',
  'Tests sample one or two dictionaries.',
  [I], [('save_input, load_input', I), ('save_data, load_data', I)],
  ['io.save_data', 'io.load_data', 'io.save_input', 'io.load_input'])

p('C21', 'Inputs below the minimum are raised to it, never produce 0/0',
  'Frequencies, times, offsets, resistivities and anisotropies below the '
  'adjustable minima are replaced by the minimum (keeping larger values and '
  'the angle of the point untouched), setting one minimum leaves the others '
  'unchanged, and the value in force is the one reported.',
  ['inputs', 'histories'],
  'all input values (incl. zero, tiny and negative) and all minimum settings',
  'Tests sample single values.',
  [U], [('_check_min', U), ('get_off_ang', U), ('set_minimum', U)],
  ['utils.get_minimum', 'model.dipole'])

p('C22', 'Calls do not modify their inputs and can be repeated',
  'No modelling routine changes the arrays, lists or dictionaries passed to '
  'it, and repeating a call gives the same result.',
  ['inputs', 'histories'],
  'all argument arrays and option dictionaries of the public routines',
  'Tests do not compare arguments before and after the calls.',
  [M, U, T], [('argument checks', U), ('modelling routines', M)],
  ['model.bipole', 'model.dipole'])

p('C23', 'The wavenumber-domain routine is the integrand of the dipole call',
  'For every component pair the wavenumber-domain kernels returned for '
  'given source, receiver and model are the integrands of the '
  'frequency-domain response: transforming them with J0 and J1 gives the '
  'result of the dipole routine with the direct field in the wavenumber '
  'domain.',
  ['inputs', 'configurations'],
  'all 36 component pairs, models, offsets, azimuths, wavenumber arrays',
  'Only a few electric pairs are tested.',
  [M, T, K], [('dipole_k', M), ('hankel_dlf', T), ('angle_factor', K)],
  ['model.dipole_k', 'model.dipole'])

p('C24', 'TM/TE and up/down split parts sum up to the total field',
  'The direct, up-going and down-going TM and TE parts returned by the '
  'TM/TE split routine add up to the field of the normal routine, and '
  'are independent of the vertical origin of the coordinate system.',
  ['inputs', 'configurations'],
  'all VTI layered models with source and receiver in one layer that is not '
  'an outer half-space, all positions',
  'Tests cover single models at one origin.',
  [TT, K], [('dipole, greenfct, fields', TT)], ['scripts.tmtemod.dipole'])

p('C25', 'Loop strategies give the same result',
  'Looping over frequencies, over offsets, or vectorising both gives the '
  'same frequency-domain field for every Hankel transform setting that '
  'allows the choice.',
  ['configurations', 'inputs'],
  'all numbers of frequencies/offsets within the bound, all kernel values',
  'Tests cover one configuration each.',
  [M, U, T], [('fem', M), ('check_loop', U)], ['model.fem'])

p('C26', 'Magnetic flux and current-density receivers/sources are scaled '
  'fields',
  'Choosing a flux-type (b) source or receiver, or a current-density (j) '
  'receiver, gives the corresponding H or E response times i omega mu or '
  'the complex conductivity of the layer the source or receiver is in, per '
  'frequency.',
  ['inputs', 'configurations'],
  'all media, frequencies, layer positions, type combinations',
  'Tests sample single values.',
  [M, U], [('bipole scaling', M), ('check_bipole', U)], ['model.bipole'])

p('C27', 'Amplitude and phase accessors are the polar form of the field',
  'Amplitude and phase returned for a response (in degrees or radians, lag '
  'or lead, wrapped or not) reproduce the complex field, and shapes are '
  'kept.',
  ['inputs'],
  'all complex values and options',
  'Tests sample a few values.',
  [U], [('EMArray', U)], ['utils.EMArray'])

p('C28', 'Component selection maps and rejects source-receiver codes',
  'For all 36 source-receiver codes the calculation flags identify electric '
  'and magnetic sources/receivers correctly, the two components that are '
  'identically zero return zero, and every other integer is rejected.',
  ['inputs'],
  'all integers',
  'Tests sample some codes.',
  [U, M], [('check_ab', U), ('fem', M)], ['utils.check_ab', 'model.dipole'])

p('C29', 'Inconsistent or impossible input is rejected, never computed',
  'Interfaces in neither increasing nor decreasing order, parameters whose '
  'length does not fit the number of layers, source or receiver coordinates '
  'whose sizes do not fit each other, finite bipoles without length, unknown '
  'transforms, solutions, filters, field types and keywords, filters lacking '
  'coefficients, signals (also of waveforms) other than -1, 0, 1, and '
  'waveforms with different numbers of nodes and amplitudes raise an error; '
  'what is documented is accepted, and every accepted name denotes exactly '
  'the documented method.',
  ['inputs', 'configurations'],
  'all interface lists up to the bound, all strings, all real signals, all '
  'sets of filter attributes',
  'Tests sample a few bad inputs.',
  [U], [('check_model', U), ('check_bipole, check_dipole', U),
        ('check_hankel, check_time, check_time_only, check_waveform', U),
        ('check_solution', U), ('get_kwargs', U)],
  ['model.bipole', 'model.dipole', 'model.analytical', 'utils.check_hankel'])

p('C30', 'Filter-design results survive a save and a load',
  'A filter saved by the design tool, with or without its inversion '
  'result, loads back with the same base, weights and factor, for every '
  'filter length and any number of spacing and shift values.',
  ['inputs'],
  'all filter lengths and all sizes of the inversion grid within the bound',
  'Tests cover one grid.',
  [FD, F], [('save_filter, load_filter', FD), ('tofile, fromfile', F)],
  ['scripts.fdesign.load_filter'])

p('C31', 'In-phase/quadrature is the scaled ratio secondary over primary',
  'The in-phase and quadrature values are real and imaginary part of scale '
  'times scattered field over the co-planar primary full-space field of the '
  'source, for every magnetic component pair and however the code is given.',
  ['inputs', 'configurations'],
  'all nine magnetic pairs (numbers or strings), all field values',
  'Tests cover few pairs.',
  [M], [('ip_and_q', M)], ['model.ip_and_q'])

p('C32', 'Numerical quadrature reports non-convergence',
  'The quadrature transforms return the sum of the six real integrals with '
  'the documented angle factor, and flag non-convergence whenever any of '
  'the underlying integrations reports a problem.',
  ['inputs', 'fault_sequences'],
  'all integration outcomes (values and success or failure of each integral)',
  'Tests trigger one failure only.',
  [T], [('quad', T), ('hankel_quad', T)], ['transform.quad'])

p('C33', 'User hooks and GPR post-processing act as documented',
  'A band-pass hook acts on the frequency-domain field before the time '
  'transform, medium hooks replace eta or zeta, and the GPR gain scales '
  'with one plus time (ns) to the gain power, no gain leaving the data '
  'unscaled.',
  ['inputs', 'configurations'],
  'all field values, gains, times',
  'Tests cover one configuration each.',
  [M], [('bipole, dipole, gpr', M)], ['model.gpr', 'model.bipole'])

p('C34', 'Hankel transforms reach the stated accuracy of the true integral',
  'For smooth kernels the numerical Hankel and Fourier transforms '
  'approximate the true integral transforms to the documented accuracy.',
  ['inputs'],
  'all smooth kernels, offsets and times',
  'Tests compare a few analytical transform pairs.',
  [T, F], [('hankel_*', T), ('fourier_*', T), ('filter weights', F)],
  ['model.dipole'])

p('C35', 'The command line gives the same result as the library call',
  'Running a routine from the command line with an input file gives the '
  'saved result of the library call with the same arguments.',
  ['inputs', 'configurations'],
  'all routines and arguments that can be stored in an input file',
  'Tests run single examples.',
  ['empymod/__main__.py', I], [('run', 'empymod/__main__.py')],
  ['empymod.__main__.run'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                   'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
print(len(P))
