p('G01', 'Link geometry: distances and line-of-sight angles',
  'For every topology, the horizontal distance, slant range and line-of-sight departure/arrival angles of each '
  'satellite-terminal link follow from the positions of that satellite and that terminal, the satellite height and the '
  'elevation angle (spherical earth of radius 6371 km). Arrival directions are the opposite of departure directions and '
  'all angles are in degrees within [0, 360).',
  ['inputs'], 'all positions, batch sizes, numbers of satellites and terminals, elevation angles, scenario classes',
  'Tests compute a handful of seeded topologies with one satellite and compare aggregated statistics only.',
  [SL] + SCF, [('distances and angles', SL + ': _compute_distance_2d_3d_and_angles')],
  observe=['scenario distance_2d/distance_3d/los_* properties'])
p('T01', 'Each link uses the parameters of its own table',
  'Every tabulated model parameter used for a link is the entry of the table belonging to the scenario class, the link '
  'direction, the carrier band (S or Ka) and the propagation state (LoS or NLoS) of that link, taken for the elevation '
  'angle rounded to the nearest tabulated ten degrees. The numbers of clusters and rays offered to the ray generator '
  'come from those tables too.',
  ['configurations', 'inputs'], 'all scenario classes, directions, carrier frequencies, elevation angles, link states '
  'and parameter names', 'Tests check some parameters for some angles against hard coded values in fixed topologies.',
  [SL] + SCF, [('get_param and table loading', SL + ': get_param, _load_params'),
               ('file selection', 'OpenNTN/dense_urban_scenario.py: los_parameter_filepath')])
p('S02', 'Line-of-sight and indoor state of each link',
  'Without a request, every outdoor link is independently in line of sight with exactly the tabulated probability of '
  'its elevation angle and indoor links never are; a requested state applies to every outdoor link. Indoor distances '
  'are zero outdoors, and indoor plus outdoor parts always add up to the full distance.',
  ['inputs', 'configurations'], 'all topologies, indoor states, requests, elevation angles, random draws',
  'Tests estimate averages over few drops; they cannot see a wrong table, sign or per-link mix-up for every link.',
  [SL] + SCF, [('state sampling', SL + ': _sample_los, _sample_indoor_distance'),
               ('probabilities', 'OpenNTN/urban_scenario.py: los_probability')])
p('S03', 'Statistics of the large-scale parameters per link',
  'The mean and standard deviation of every large-scale parameter (delay spread, angular spreads, shadow fading, '
  'K-factor) of a link are the tabulated ones for its state, in a fixed order and unit, with zero-mean shadow fading. '
  'The elevation departure offset is zero in line of sight and follows the height geometry otherwise.',
  ['inputs', 'configurations'], 'all links, states, bands, directions and elevation angles',
  'Tests compare sample statistics of single configurations within wide tolerances.',
  [SL] + SCF, [('means and deviations', 'OpenNTN/dense_urban_scenario.py: _compute_lsp_log_mean_std')])
p('P01', 'Free-space and basic path loss',
  'For every link the basic path loss is the free-space loss of its slant range and carrier frequency (GHz, metres, dB) '
  'plus, unless shadow fading is disabled, zero-mean Gaussian shadow fading of the tabulated deviation, plus the tabulated clutter loss if and only if the '
  'link is not in line of sight.',
  ['inputs', 'configurations'], 'all distances, carrier frequencies, elevation angles, states and draws',
  'Tests check a few seeded links against tolerances wider than many plausible errors.',
  SCF + [SL], [('path loss', 'OpenNTN/dense_urban_scenario.py: _compute_pathloss_basic')])
p('P02', 'Gas attenuation',
  'The atmospheric absorption added to every link is that of ITU-R P.676 (oxygen and water vapour, equivalent heights) '
  'for the configured temperature, pressure, water vapour density and carrier frequency on the slant path at the '
  'elevation angle. Parameters that were not configured take the documented defaults.',
  ['inputs', 'configurations'], 'all weather parameters, carrier frequencies and elevation angles',
  'Tests fix the weather and compare single numbers.',
  SCF + [SL], [('gas path loss', 'OpenNTN/dense_urban_scenario.py: _compute_pathloss_gas')])
p('P03', 'Scintillation loss',
  'Below 6 GHz the scintillation loss is the scaled ionospheric value, above it is the tropospheric one of ITU-R P.618 '
  'computed from temperature, humidity, antenna diameter, antenna efficiency, carrier frequency and elevation angle.',
  ['inputs', 'configurations'], 'all weather and antenna parameters, carrier frequencies, elevation angles',
  'Tests fix the parameters and compare single numbers.',
  SCF + [SL], [('scintillation', 'OpenNTN/dense_urban_scenario.py: _compute_pathloss_scintillation')])
p('L01', 'Correlated large-scale parameters',
  'Large-scale parameters of a link are jointly Gaussian in the log domain with the tabulated cross-correlations, and '
  'across terminals of the same satellite they decorrelate exponentially with the tabulated distance of each parameter, '
  'only between terminals in the same propagation state. Azimuth spreads never exceed 104 degrees and zenith spreads '
  '52 degrees.',
  ['inputs', 'configurations'], 'all topologies, states, tables, draws',
  'Tests estimate correlations by sampling in a few configurations with wide tolerances.',
  ['OpenNTN/lsp.py'], [('correlation matrices', 'OpenNTN/lsp.py: _compute_cross_lsp_correlation_matrix'),
                       ('sampling', 'OpenNTN/lsp.py: LSPGenerator.__call__')])
RAYS = 'OpenNTN/rays.py'
for i, t, st, m in (
        ('R01', 'Cluster delays',
         'Cluster delays of every link are exponential with the tabulated scaling of its delay spread, sorted ascending, '
         'start at zero, and are divided by the K-factor polynomial only in line of sight.', '_cluster_delays'),
        ('R02', 'Cluster powers',
         'Cluster powers of every link follow the exponential power delay profile with per-cluster shadowing, are zero '
         'for clusters that the link does not have, and sum to one; the line-of-sight term of the K-factor enters only '
         'the powers used for angle generation.', '_cluster_powers'),
        ('R03', 'Ray angles of arrival and departure',
         'Ray angles of every link follow from its angular spreads and cluster powers: cluster angles centred on the '
         'line-of-sight direction (exactly on it for the first cluster in line of sight), 20 tabulated ray offsets scaled '
         'by the tabulated cluster spread, zenith angles folded into [0, 180] and azimuth angles into (-180, 180]. '
         'Departure and arrival rays are coupled by independent random permutations within a cluster.',
         '_azimuth_angles, _zenith_angles, _random_coupling'),
        ('R04', 'Cross-polarization power ratios',
         'Each ray has its own log-normal cross-polarization power ratio with the tabulated mean and deviation of its '
         'link state.', '_cross_polarization_power_ratios')):
    p(i, t, st, ['inputs', 'configurations'], 'all links, states, large-scale parameters, tables, draws',
      'Tests draw a few seeded samples and compare distributions (K-S) for selected configurations.',
      [RAYS], [('ray generation', RAYS + ': ' + m)])
p('C01', 'Channel coefficients and delays of every path',
  'For every link, antenna pair, path and time sample the coefficient is that of the ray-sum model: antenna field '
  'patterns rotated by both orientations, random initial phases with cross-polarization ratio, antenna position phases, '
  'terminal Doppler, and the K-factor weighted direct path in line of sight. For satellites (600 km and above) the '
  'polarization is additionally rotated by the ionosphere and, if enabled, the orbital Doppler of a circular orbit is '
  'added; otherwise neither occurs. With sub-clustering the two strongest clusters are split into three delayed '
  'sub-clusters with the tabulated ray subsets, and paths are sorted by delay.',
  ['inputs', 'configurations'], 'all links, antenna arrays, polarizations, orientations, velocities, rays, sample times',
  'Tests compare selected intermediate matrices for one seeded topology.',
  ['OpenNTN/channel_coefficients.py'],
  [('coefficient generation', 'OpenNTN/channel_coefficients.py: ChannelCoefficientsGenerator._step_11'),
   ('satellite speed', 'OpenNTN/channel_coefficients.py: Topology')])

SLC = 'OpenNTN/system_level_channel.py'
p('S04', 'Topology updates are complete and persistent',
  'After any sequence of set_topology calls, every topology, geometry, propagation-state, statistics and path-loss '
  'quantity of the scenario equals what one call with the latest value of every parameter gives: a parameter that a '
  'call does not mention (including weather parameters and a requested line-of-sight state) keeps its last value, and '
  'nothing computed from an older topology survives.',
  ['histories', 'inputs'], 'sequences of full and partial topology updates, all scenario classes and topologies',
  'Tests set every topology exactly once.',
  [SL] + SCF, [('set_topology', SL + ': set_topology')], observe=['public scenario properties after each update'])
p('M01', 'Channel models compose their parts with the right roles',
  'The impulse response returned by a channel model is that of the ray model for the current topology, with satellite '
  'and terminal in the transmitter and receiver roles of the link direction (arrays, orientations, angles, moving '
  'terminal), scaled by the total path loss (basic + gas + scintillation + building entry, dB) and by the shadow '
  'fading of the link if and only if those are enabled, with the tabulated cluster delay spread in nanoseconds. '
  'Coefficients are [batch, receiver, receiver antenna, transmitter, transmitter antenna, path, time] and delays '
  '[batch, receiver, transmitter, path].',
  ['inputs', 'configurations'], 'all scenario classes, both directions and bands, flags, topologies, large-scale and '
  'ray parameters, sample counts and rates', 'Tests look at intermediate steps; no test compares an end-to-end '
  'impulse response, least of all in the uplink.',
  [SLC, 'OpenNTN/channel_coefficients.py', 'OpenNTN/lsp.py'] + SCF,
  [('composition', SLC + ': SystemLevelChannel.__call__'), ('gains', SLC + ': _step_12')])
p('M02', 'Lifetime of large-scale parameters',
  'Every call of a channel model draws new rays. Large-scale parameters are redrawn at every call when '
  'always_generate_lsp is set, and otherwise only when the topology changes in a way that affects the links; the '
  'response of a call always uses one and the same large-scale sample and the current topology. The call form with a '
  'leading batch size behaves like the form without.',
  ['histories', 'configurations'], 'sequences of calls and topology updates', 'Tests call a model once per topology.',
  [SLC], [('sampling', SLC + ': SystemLevelChannel.set_topology, __call__')])
ANT, UT = 'OpenNTN/antenna.py', 'OpenNTN/utils.py'
p('A01', 'Antenna element patterns',
  'The power gain of each element pattern (omnidirectional, TR 38.901, circular aperture of TR 38.811 and the '
  'directional-linear terminal pattern) is the documented function of zenith and azimuth in every direction, and the '
  'field components are its square root projected on zenith and azimuth by the polarization slant angle.',
  ['inputs', 'configurations'], 'all directions, slant angles and patterns',
  'Tests look at directivity integrals or maximum gains of single patterns on a grid.',
  [ANT], [('patterns', ANT + ': AntennaElement')])
p('A02', 'Panels and arrays of antennas',
  'Panels and arrays of every size and polarization place each element at its documented position in wavelengths, '
  'centred on the array, number the elements of the first polarization before those of the second, use the slant angles '
  'of the polarization type (V 0, H and the second of VH 90 degrees, cross +-45 degrees) and one and the same element '
  'pattern, and report the right number of antennas and wavelength.',
  ['configurations', 'inputs'], 'polarizations, patterns, spacings and carrier frequencies; panel and array dimensions '
  'for eight representative combinations', 'Tests build a few arrays and compare positions of some of them.',
  [ANT], [('arrays', ANT + ': PanelArray, AntennaPanel, AntennaArray, Antenna')])
p('D01', 'Satellite speed and Doppler shift helpers',
  'The satellite speed is that of a circular orbit at the given height, and the Doppler shift that of TR 38.811 for '
  'height, elevation angle and carrier frequency, element by element.',
  ['inputs'], 'all heights, elevation angles, carrier frequencies', 'Tests check two heights.',
  [UT], [('orbit', UT + ': compute_satellite_speed, compute_stallite_doppler')])
p('U01', 'Channel responses in time and frequency',
  'The OFDM frequency response is the sum over paths of coefficient times exp(-j 2 pi f tau), the discrete-time '
  'response the sinc-filtered sum over paths for every lag, both for per-link and per-antenna-pair delays; '
  'normalization gives unit average energy over antennas, time and frequency (or per time step summed over lags). '
  'Frequency grids are centred at zero, lags span -6 to ceil(W tau_max)+6, and the response of an OFDM symbol computed '
  'from taps is the centred DFT of the taps at the first sample after its cyclic prefix, each tap at its own lag.',
  ['inputs', 'configurations'], 'all coefficients, delays, dimensions, grids, bandwidths and normalization flags',
  'Tests transmit over a few random channels.',
  [UT], [('responses', UT + ': cir_to_ofdm_channel, cir_to_time_channel, subcarrier_frequencies, '
          'time_frequency_vector, time_lag_discrete_time_channel, time_to_ofdm_channel')])
p('U02', 'Generated topologies',
  'A generated single-sector topology drops every terminal independently and uniformly in the square of side isd around '
  'a point that sees the satellite at the elevation angle, with height and horizontal speed uniform in the requested '
  'ranges and uniform heading, all outdoor; the satellite is at its height above the origin and arrays face each '
  'other. Parameters that are not given take the defaults of the scenario. Terminals of a cell are rotated into the given '
  'or a random one of its three 120-degree sectors and moved to the cell centre.',
  ['inputs', 'configurations'], 'all batch sizes, numbers of terminals, scenarios, parameters and draws',
  'Tests generate single topologies and look at shapes or one distance.',
  [UT], [('topology', UT + ': gen_single_sector_topology, generate_uts_topology, drop_uts_in_sector, relocate_uts, '
          'set_3gpp_scenario_parameters')])
p('U03', 'Spatial correlation matrices',
  'Exponential and one-ring correlation matrices have the documented entries for every index pair, are Hermitian with '
  'unit diagonal and keep batch dimensions.',
  ['inputs'], 'all correlation coefficients, angles, spreads, spacings, sizes and batch shapes',
  'Tests (in Sionna) check single sizes.',
  [UT], [('matrices', UT + ': exp_corr_mat, one_ring_corr_mat')])
p('U04', 'Angle conversions and random states',
  'Degrees and radians are converted by pi/180 in either direction, wrapped angles differ from the given ones by a '
  'multiple of 360 degrees and lie in [0, 360), and random binary states are true with the given probability, '
  'independently for every entry of the requested shape.',
  ['inputs'], 'all angles, probabilities, shapes and precisions',
  'Tests (in Sionna) check single angles; the helpers here are copies that are not tested.',
  [UT], [('helpers', UT + ': deg_2_rad, rad_2_deg, wrap_angle_0_360, sample_bernoulli')])
TYPE_NOTE = ('Types are inferred for every operation reachable from the public entry points, with all branches, for four '
             'combinations of global and own precision; nothing is executed. Values whose type the analysis cannot know raise '
             'no alarm; assumes the type rules of the TensorFlow operations used.')
RULE_NOTE = 'Decided on the current source and tables by enumeration of every entry / call site; no execution.'
p('T02', 'Shipped parameter tables are those of TR 38.811',
  'Every parameter table shipped with the package (3 scenarios, LoS/NLoS, S/Ka band, uplink/downlink) has every parameter '
  'for all elevation angles from 10 to 90 degrees with the value of TR 38.811; probabilities and deviations are in '
  'range, cluster numbers are positive integers and the cross-correlations of the large-scale parameters are positive '
  'definite at every angle.',
  ['inputs', 'configurations'], 'all tables, parameters and elevation angles',
  'Tests read a few entries of a few tables.',
  ['OpenNTN/models/Dense_Urban_LOS_S_band_DL.json', 'OpenNTN/models/Urban_LOS_S_band_DL.json'],
  [('tables', 'OpenNTN/models')], technique='enumeration of all table entries against a transcription, with a positive '
  'definiteness proof per correlation matrix', note=RULE_NOTE + ' Assumes the transcription in data/ of TR 38.811 is right.')
p('T03', 'Tapped delay line models',
  'A TDL model A-D has the taps of TR 38.811 (A30, B100 and C300 those of their fixed delay spread) with unit total power and '
  'delays scaled by the current delay spread. Each tap of each antenna pair is an independent sum of sinusoids with one random '
  'Doppler shift per drop between those of the lowest and highest speed (plus that of the orbit), the first tap of C and D '
  'has the specular component, and antennas are correlated by the given matrix or by the Kronecker product of receive and '
  'transmit matrix. Powers, delays and K-factor reported are those used, and exactly the existing models, heights of at least '
  '160 km, elevation angles in [0, 90] degrees and ordered speeds are accepted.',
  ['inputs', 'configurations'], 'all models, correlations, numbers of antennas, sinusoids, speeds and time steps',
  'There is no test of the tapped delay line models.', ['OpenNTN/tdl.py', 'OpenNTN/models/TDL-A.json'],
  [('TDL.__call__', 'OpenNTN/tdl.py'), ('TDL._load_parameters', 'OpenNTN/tdl.py'), ('TDL._compute_doppler', 'OpenNTN/tdl.py')])
p('S01', 'Exactly the valid configurations are accepted',
  'A scenario or channel model can be constructed if and only if the direction is uplink or downlink, the carrier is in '
  'the S (1.9-4 GHz) or Ka band (19-40 GHz), the elevation angle is in [10, 90] degrees and both arrays are panel arrays '
  'made for that carrier wavelength. A first topology needs all its parts. Antenna elements, panels and arrays accept exactly the documented patterns and '
  'polarizations and no overlapping panels; topology helpers exactly the three scenarios.',
  ['inputs', 'configurations'], 'all carrier frequencies, elevation angles, directions, wavelengths, spacings; the '
  'documented and some undocumented names', 'Tests try single invalid values.',
  [SL, ANT, UT], [('constructor', SL + ': SystemLevelScenario.__init__, set_topology'),
                  ('antennas', ANT + ': PanelArray, AntennaElement')],
  technique='abstract interpretation; equivalence of the derived reject conditions with the specified ones')
p('I01', 'Objects are independent of each other',
  'Scenarios, samplers and antenna arrays share no hidden state: whatever one of them was configured with, updated to '
  'or asked for never changes the results of another, in any order of construction, update and use.',
  ['histories', 'configurations'], 'pairs of scenarios of all classes with different directions, bands, arrays, '
  'elevations and topologies, their samplers, and pairs of arrays',
  'Tests use one object at a time or compare within one configuration.',
  [SL, 'OpenNTN/rays.py', 'OpenNTN/lsp.py', ANT] + SCF,
  [('state', SL + ': SystemLevelScenario'), ('samplers', 'OpenNTN/rays.py: RaysGenerator')],
  technique='abstract interpretation over a shared heap (class attributes, module globals and memoization included); '
  'equality of value-flow normal forms with and without the other object')
p('N01', 'Random draws are fresh and reproducible',
  'Every random number of the package is drawn at the time of use from the generators a user can seed '
  '(tf.random.set_seed, sionna.phy.config.seed); the package never seeds a generator, fixes the seed of a draw or draws '
  'at import, so drops differ from each other yet repeat after reseeding.',
  ['histories', 'schedules'], 'all random draws of all modules', 'Tests seed the generators themselves.',
  ['OpenNTN/rays.py', 'OpenNTN/lsp.py', UT, 'OpenNTN/channel_coefficients.py', SL],
  [('draws', 'OpenNTN/rays.py: RaysGenerator'), ('draws', UT + ': sample_bernoulli, drop_uts_in_sector')],
  technique='lint over the syntax trees of all modules (origin of every random call)', note=RULE_NOTE)
p('P04', 'Building entry loss',
  'No link has a building entry loss, since all supported terminals are outdoors: it is zero for every link.',
  ['inputs', 'configurations'], 'all scenarios, directions and topologies', 'Tests look at one topology.',
  SCF + [UT], [('entry loss', UT + ': compute_pathloss_entry')])
p('P05', 'Shadow fading is applied once, and only if enabled',
  'The gain of a link contains one shadow fading contribution if shadow fading is enabled and none otherwise.',
  ['configurations'], 'all scenarios, directions, bands and flags', 'Tests look at the path loss and the large-scale '
  'parameters separately.', ['OpenNTN/system_level_channel.py', UT],
  [('gain', 'OpenNTN/system_level_channel.py: _step_12'), ('path loss', UT + ': compute_pathloss_basic')],
  technique='abstract interpretation; dependence of the gain on the sources of shadow fading')
p('E01', 'Every path of the package can run',
  'No path of the package, however rarely taken, refers to a name, module member or object attribute that does not '
  'exist or calls a function, method or class of the package with arguments that its signature does not accept.',
  ['inputs', 'configurations'], 'all modules, functions, branches and call sites',
  'Tests execute only some branches of some functions, and Python resolves names and arguments at run time.',
  ['OpenNTN/utils.py', 'OpenNTN/system_level_channel.py', SL, ANT],
  [('whole package', UT + ': all functions'), ('classes', SL + ': SystemLevelScenario')],
  technique='lint over the syntax trees of all modules: scope analysis, class hierarchy, call signatures', note=RULE_NOTE)
p('D02', 'Everything computes in the configured precision',
  'Whatever precision is configured ("single" or "double", globally or by the precision argument of a class or function, '
  'which takes precedence), every public function, antenna, scenario and channel model works with it: no operation mixes '
  'floating-point types, and all floating-point results (coefficients, delays, topologies, parameters, responses) have the '
  'configured type, without passing through a narrower one.',
  ['inputs', 'configurations'], 'all public entry points, configurations of global and own precision, and paths',
  'Tests run in single precision only.',
  [UT, SL, ANT, 'OpenNTN/channel_coefficients.py'],
  [('helpers', UT + ': all public functions'), ('topology', SL + ': SystemLevelScenario.set_topology'),
   ('fields', ANT + ': AntennaElement.field'), ('coefficients', 'OpenNTN/channel_coefficients.py: ChannelCoefficientsGenerator')],
  technique='abstract interpretation over number types (type inference through all calls and branches)', note=TYPE_NOTE)
na('Z01', 'Sampled statistics match the standard',
   'Empirical distributions of parameters over many drops match those of TR 38.811.', ['inputs'],
   'all configurations', 'Finite samples.', [RAYS, 'OpenNTN/lsp.py'],
   'The distribution that every draw is taken from is decided symbolically (L01, R01-R04, S02, S03); whether the pseudo '
   'random generator of TensorFlow realises it is a run-time, statistical question outside of this source.')
na('Z02', 'Numerical accuracy',
   'Results are accurate to the precision of the configured floating-point type.', ['inputs'], 'all inputs',
   'Rounding depends on values.', [UT],
   'Rounding errors of TensorFlow kernels depend on run-time values and back ends; the analysis works over the reals.')
na('Z03', 'CDL models', 'CDL models follow TR 38.811.', ['configurations'], 'all models',
   'Not tested.', ['OpenNTN/cdl.py'],
   'The README declares the module an unimplemented template copied from Sionna; every call of it raises (known findings of E01), so there is '
   'no behaviour to decide.')
na('Z04', 'Graph mode and XLA give the eager results',
   'Results do not depend on eager, graph or XLA execution.', ['configurations'], 'all execution modes',
   'Tests run eagerly.', ['OpenNTN/system_level_channel.py'],
   'Depends on TensorFlow tracing and compilation, not on a property of the package source that this analysis models.')
na('Z05', 'Installation into Sionna', 'Installing twice leaves one import line and the rest of Sionna unchanged.',
   ['histories', 'crash_points'], 'all Sionna versions and interruptions', 'The installer is not tested.',
   ['post_install.py', 'install.sh'],
   'The outcome depends on files of another package, pip and the network at install time.')
