p('P01', 'Vortex line, ring and horseshoe velocities follow Biot-Savart',
  'The velocity induced by a straight finite vortex filament equals the Biot-Savart integral, that of a semi-infinite filament equals its limit, both are exactly zero when the evaluation point lies inside the vortex core, and rings and horseshoes are exactly the sum of their filaments taken once each in circulation order.',
  ['inputs'], 'every evaluation point, every filament end points and direction, every circulation, including points on or near the filament and its extension',
  'Tests compare a few fixed points; the identity must hold for every geometry and on both sides of the core cut-off.',
  [S + 'velocity.py'], [('finite segment', S + 'velocity.py vortex_line'), ('semi-infinite line', S + 'velocity.py vortex_infinite_line'), ('ring', S + 'velocity.py vortex_ring'), ('horseshoes', S + 'velocity.py vortex_horseshoe, vortex_horseshoe_v2')],
  'Rings and horseshoes are proved against the contracts of the filaments.')
p('P02', 'Influence matrices and induced velocities pair every point with every vortex',
  'Entry (i,j) of the influence data is the velocity at control point i of vortex j with the given strength, a closed ring, or one open to infinity along the wind at panel j for a trailing-edge panel, and the coefficient is its component along normal i. Induced velocity at i is the sum over all j of unit velocity (i,j) times circulation j; the total velocity adds the onset velocity and leaves the inputs unchanged.',
  ['inputs', 'configurations'], 'every number of panels, geometry, wind field, circulation vector and set of trailing-edge panels',
  'Tests use one or two small fixed grids with one pattern of trailing edges and nearly uniform wind.',
  [S + 'coefs.py', S + 'velocity.py'], [('influence matrix', S + 'coefs.py calc_velocity_coefs'), ('induced velocity', S + 'velocity.py calc_induced_velocity'), ('total velocity', S + 'velocity.py calculate_app_fs')], '')
p('P03', 'Solved circulation lets no air through the sails; suspicious results are rejected',
  'With the circulation returned by the solver, the total velocity (onset plus induced) at every control point has no component along the panel normal. A result is accepted exactly when every panel area is at least 1e-14 and every remaining normal velocity is at most 1e-12 in size; otherwise an error is raised.',
  ['inputs', 'configurations'], 'every panel count, geometry, wind field and trailing-edge set with a regular influence matrix; every area and velocity array for the acceptance test',
  'Tests check one solved grid; a sign or pairing error in assembly cancels on symmetric cases, and rejection is tested with one bad value only.',
  [S + 'coefs.py', S + 'forces.py', S + 'velocity.py'], [('right-hand side', S + 'coefs.py calculate_RHS'), ('solve', S + 'coefs.py solve_eq'), ('acceptance', S + 'forces.py is_no_flux_BC_satisfied')],
  'numpy.linalg.solve is an assumed contract (A x = b). Rejection of not-a-number values is a bounded CPython check (sampled positions).')
p('P04', 'Panel forces obey the Kutta-Joukowski law with the net bound circulation',
  'The force on each panel is density times (velocity at its centre of pressure cross bound vortex vector) times net circulation, where net circulation is the difference from the panel just upstream, or the panel\'s own circulation at a leading edge or if there are no leading edges. The total uses onset plus induced velocity, the lift part only onset and the drag part only induced velocity; any other requested force name ends the run.',
  ['inputs', 'configurations'], 'every panel count, number of chordwise rows and spanwise columns, geometry, circulation, wind, trailing/leading-edge marks',
  'Tests have one fixed grid per case; wrong upstream indices or edge handling need other grid shapes.',
  [S + 'forces.py'], [('force assembly', S + 'forces.py calc_force_wrapper')], '')
p('P05', 'Panel pressure and pressure coefficient are force per area over dynamic pressure',
  'Panel pressure is the force component along the panel normal divided by the panel area. The pressure coefficient is the pressure divided by half the density times the squared local onset speed of that panel.',
  ['inputs'], 'every panel count, force, normal, positive area, density and non-zero local wind vector', 'Tests check a single flat case with equal areas and uniform wind.',
  [S + 'forces.py'], [('pressure', S + 'forces.py calc_pressure'), ('coefficient', S + 'forces.py calc_pressure_coeff')], '')
p('P06', 'Panels tile the mesh in order and edges are marked correctly',
  'Cutting a rectangular mesh yields exactly one panel per cell, in row order, each with the four corners of its cell in the same orientation; the last chordwise row, and only it, is marked as trailing edge and the first row, if there are at least two, as leading edge. The area of a panel is the sum of the two triangles formed by its successive edges.',
  ['inputs', 'configurations'], 'every number of chordwise and spanwise points and every point position', 'Tests use one or two mesh sizes.',
  [S + 'panels.py'], [('panelling', S + 'panels.py make_panels_from_mesh_spanwise'), ('area', S + 'panels.py get_panels_area')], '')
p('P07', 'Control points, normals and vortex rings sit on the quarter lines of their panels',
  'For every panel the normal is the unit vector perpendicular to both diagonals, the control point lies at 3/4 and the centre of pressure at 1/4 of the mid line, and the bound vortex lies on the quarter line. The aft side of its ring is the bound vortex of the panel behind it on the same surface, or a quarter panel behind its trailing edge, so that rings of neighbouring panels join without a gap.',
  ['inputs', 'configurations'], 'every number of surfaces, chordwise rows, spanwise columns and panel corner positions', 'Tests use one fixed grid; joining across rows and surfaces needs arbitrary counts.',
  [S + 'coefs.py'], [('panel data', S + 'coefs.py calculate_vlm_variables'), ('stand-alone variant', S + 'coefs.py calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points')], '')
p('P08', 'Rotations turn points about an axis or line by the right angle',
  'Rotating points about an axis through the origin, or about any line given by two points, is the right-handed rotation by the given angle (Rodrigues): distances are kept, points on the axis stay, and angles have the right sign and size.',
  ['inputs'], 'every axis or line (for the arbitrary line: not parallel to the x axis), point and angle', 'Tests rotate a few points by 90 degrees about the coordinate axes.',
  ['pySailingVLM/rotations/geometry_calc.py'], [('matrix', 'pySailingVLM/rotations/geometry_calc.py rotation_matrix'), ('about origin axis', 'rotate_points_around_origin_axis'), ('about a line', 'rotate_points_around_arbitrary_axis')], '')
p('P09', 'Heel and leeway transform is a mirrored rigid motion and its reverse undoes it',
  'Points above the water are turned by minus the heel about x and then by the leeway about z, points below by plus the heel and then the leeway, so that mirror images stay mirror images and lengths are kept. The reverse transform brings every point that stays on its side of the water back, and centre-line components of force and moment vectors are each turned about z only, with totals taken over the above-water half.',
  ['inputs'], 'every heel and leeway angle, every point and every vector array with an even number of rows', 'Tests check a few points at one or two angles.',
  ['pySailingVLM/rotations/csys_transformations.py'], [('transform', 'pySailingVLM/rotations/csys_transformations.py rotate_point_with_mirror'), ('reverse', 'reverse_rotations_with_mirror'), ('centre line', 'from_xyz_to_centerline_csys, calc_centerline_moments')], '')
p('P11', 'Wind profiles follow their laws and pass through the reference wind',
  'The wind blows horizontally from the given angle; its speed is constant with height for the flat profile, proportional to ln(z/roughness) for the logarithmic one and to ((z - water level)/reference height) to the exponent for the exponential one, and equals the reference speed at the reference height. The apparent wind is the true wind plus the boat speed along x; default parameters are those of the signature.',
  ['inputs', 'configurations'], 'every wind angle and speed, boat speed, height above the water, roughness, exponent, reference height and water level in the physical range',
  'Tests look at one or two heights for one parameter set.',
  ['pySailingVLM/inlet/winds.py'], [('profiles', 'pySailingVLM/inlet/winds.py FlatWindProfile, LogWindProfile, ExpWindProfile'), ('apparent wind', 'WindBase.get_app_infs_at_h')], '')
p('P12', 'Each panel sees the wind at its own height and the mirror image sees the same wind',
  'For every panel the true wind is that of the profile at the absolute height of its centre of pressure, the apparent wind adds boat speed along x, and lengths and angles are those of these vectors. Every column of the inlet table and every row of the reference-wind summary holds the quantity of its name, with centre-line angles reduced by leeway.',
  ['inputs', 'configurations'], 'every number of panels and their positions on either side of the water, every profile, leeway and boat speed',
  'Tests use a single grid and profile; swapped columns or a missing mirror show only for particular values.',
  ['pySailingVLM/inlet/inlet_conditions.py', 'pySailingVLM/inlet/winds.py'], [('inlet conditions', 'pySailingVLM/inlet/inlet_conditions.py InletConditions'), ('summary', 'pySailingVLM/inlet/winds.py ExpWindProfile.to_df_integral')], '')
p('P13', 'Moments, totals, centre of effort and keel moment agree with the panel forces',
  'The moment of each panel is its arm from the reference point (mirrored reference level below the water) cross its force. Totals, for the set and for each sail, sum over the above-water half only; centre-line values are the same vectors turned by leeway; the centre of effort is recovered from dot and cross products with the total force; the keel moment is that of the opposite total force.',
  ['inputs', 'configurations'], 'every number of sails and panels, panel position, force, heel, leeway and reference point',
  'Tests use fixed arrays; slicing, pairing and mirror errors need other sizes and points on both sides of the water.',
  [S + 'forces.py', 'pySailingVLM/results/inviscid_flow.py', 'pySailingVLM/rotations/csys_transformations.py'],
  [('moments', S + 'forces.py calc_moments, calc_moment_arm_in_shifted_csys, determine_vector_from_its_dot_and_cross_product'), ('totals', 'pySailingVLM/results/inviscid_flow.py InviscidFlowResults')],
  'The number of sails is enumerated from 1 to 3 (all rigs the program can build); panel counts are unbounded.')
p('P14', 'Section data are interpolated at equal relative girths and mirrored in reverse order',
  'Section i of N gets the interpolated value at relative girth i/(N-1) (piecewise linear, or a cubic interpolating spline). The mirror half is the reversed above-water half, the jib precedes the main sail, each sail uses its own girths, and any other interpolation type is an error.',
  ['inputs', 'configurations'], 'every number of data points and sections, every increasing girth sequence and value sequence, both interpolation types',
  'Tests use one table with symmetric values in which reversed or swapped data hide.',
  [S + 'interpolator.py'], [('interpolation', S + 'interpolator.py Interpolator.interpolate_girths'), ('mirror and two sails', 'interpolate_and_mirror_girths, interpolate_data_for_sections')],
  'numpy.interp is specified exactly; scipy splrep/splev (k=3, s=0) are an assumed contract (the interpolating not-a-knot spline).')
p('P15', 'Airfoil sections have the four-digit camber line and thickness and reject bad parameters',
  'Stations are equally spaced from 0 to 1; camber is the two-parabola four-digit line with zero ends and its maximum at the given position; thickness follows the four-digit polynomial laid off perpendicular to the camber line. Camber outside 0..0.3, position outside 0..0.9 or thickness outside 0..0.4 end the run.',
  ['inputs'], 'every camber, positive camber position, thickness and number of stations', 'Tests check a handful of stations of one airfoil.',
  ['pySailingVLM/thin_airfoil/vlm_airfoil.py'], [('airfoil', 'pySailingVLM/thin_airfoil/vlm_airfoil.py VlmAirfoil')], '')
p('P18', 'Every column and row of the reported tables holds the quantity of its name',
  'The panel table has one row per panel and each column holds that component of that quantity, the apparent wind angle at the panel in all four quadrants. The summary holds totals for the set and for each sail in course and centre-line axes, the yaw moment in both sign conventions and, when a keel moment was estimated, the keel moment and the sum of sail and keel moments.',
  ['inputs', 'configurations'], 'every number of panels, 1 to 3 sails, every force, position, velocity, leeway and reference point, with and without keel',
  'Tests check totals on one case; labels swapped with values need distinct values in all entries.',
  ['pySailingVLM/results/inviscid_flow.py'], [('tables', 'pySailingVLM/results/inviscid_flow.py to_df_full, to_df_integral')],
  'The number of sails is enumerated from 1 to 3.')
Y = 'pySailingVLM/yacht_geometry/'
p('P10', 'Sails stand where the rig puts them and the underwater half is their mirror image',
  'Panel (i,j) of a sail has the corners given by the mesh between tack and head (chord, camber and camber position of its section), heeled, turned by leeway and then twisted about the rotated luff by the section twist chosen by the twist mode (the section\'s own, the mean, or the smallest). Underwater panels are the mirror images in the water surface. A set of sails lists all above-water panels and marks before all underwater ones, sail by sail.',
  ['inputs', 'configurations'], 'every number of strips and sections, tack, head, chords, camber, camber position, twist, heel, leeway and each twist mode',
  'Tests use one flat sail or a rig with constant camber; mirror and ordering errors need sections that differ.',
  [Y + 'sail_geometry.py'], [('sail', Y + 'sail_geometry.py SailGeometry'), ('set', Y + 'sail_geometry.py SailSet')],
  'Callees are used through their contracts, proved under P08, P09 and P16; sails are taken strictly above the water and in the centre plane, camber position > 0.')
p('P16', 'Meshes are equally spaced and follow the camber line of each section',
  'Points of a segment are equally spaced including both ends. A flat mesh interpolates linearly between its leading and trailing edge. In the sail mesh, station j of section i lies at j/n of the section chord behind the luff point, offset sideways by chord times camber of that section.',
  ['inputs', 'configurations'], 'every number of chordwise and spanwise points, end points, chords, camber and camber position per section', 'Tests use one mesh size and constant camber.',
  [S + 'mesher.py'], [('meshes', S + 'mesher.py discrete_segment, make_point_mesh, make_airfoil_mesh')], '')
p('P19', 'Strip and wing coefficients are force over dynamic pressure times area',
  'The coefficient of a chordwise strip is the sum over its panels of force size over dynamic pressure (half density times squared onset speed of the panel), divided by the area of the strip; the plot data relate strip coefficients to the area-weighted mean of their sail and give the mean height of each strip. Wing coefficients are total force components over half density, squared speed and area, and the expected wing coefficients follow the lifting-line formulas.',
  ['inputs', 'configurations'], 'every number of strips, panels per strip, force, area, wind and height; 1 and 2 sails', 'Tests have no strip data with unequal areas or several rows.',
  [S + 'coefs.py'], [('strip', S + 'coefs.py get_C'), ('plot data', S + 'coefs.py get_data_for_coeff_plot'), ('wing', S + 'coefs.py get_CL_CD_free_wing, get_vlm_CL_CD_free_wing, get_vlm_Cxyz')], '')
p('P17', 'Mast, forestay and hull place the sails where the rig parameters say',
  'The main sail tack stands on the raked mast at sheer height plus boom height measured along the mast, its head one luff length further up. The jib tack stands the foretriangle base (plus the mast profile length across the mast) ahead of the mast at deck level, its head one luff length along the line to the mast point at foretriangle height. Girth data, counts, name and twist mode reach the sail unchanged. The deck outlines are mirrored in the water; the centre of lateral resistance turns rigidly with the hull.',
  ['inputs', 'configurations'], 'every rake, sheer, luff, boom, foretriangle size, heel, leeway, girth data, mesh size and twist mode',
  'Tests use one rig with a nearly vertical mast, where sine and cosine errors and the offset of the mast profile vanish.',
  [Y + 'sail_factory.py', Y + 'hull_geometry.py'], [('sails', Y + 'sail_factory.py SailFactory.make_main_sail, make_jib'), ('hull', Y + 'hull_geometry.py HullGeometry')],
  'SailGeometry is used through its contract (P10). Deck outlines are compared at 5 of their 51 points.')
p('P20', 'The water surface is a mirror: mirrored configurations give mirrored flows',
  'Mirroring points, vortex lines, rings, horseshoes and onset flow in the water plane mirrors the induced velocities and panel forces and leaves influence coefficients and right-hand side unchanged. A ring or horseshoe together with its mirror image induces no velocity across the water surface.',
  ['inputs', 'configurations'], 'every point, panel corner position, onset flow, circulation, trailing-edge pattern and number of panels',
  'Tests compare numbers for one rig; the symmetry relates two whole runs over all positions.',
  [S + 'velocity.py', S + 'coefs.py', S + 'forces.py'],
  [('vortices', S + 'velocity.py vortex_line, vortex_infinite_line, vortex_ring, vortex_horseshoe_v2'), ('system', S + 'coefs.py calc_velocity_coefs, calculate_RHS, calculate_vlm_variables'), ('forces', S + 'forces.py calc_force_wrapper')],
  'That the solved circulation is mirrored follows from the invariance of the system by uniqueness of its solution (argument, not an obligation).')
p('P22', 'The run uses the selected wind profile and sails, and incomplete input ends it',
  'The profile of the conditions selects the flat, logarithmic or exponential law with the given settings; a missing setting of that law ends the run, one of another law does not. The sail definition selects main sail, jib or both (jib first), each placed by the rig, with its own section data interpolated at equal relative girths; a missing rig or sail measurement, or section data of different length, ends the run.',
  ['inputs', 'configurations'], 'every profile, sail definition, interpolation type and twist mode, rig, section table, mesh size, heel and leeway',
  'Tests never build the rig from containers; each combination of missing entries and choices is a separate path.',
  ['pySailingVLM/runner/sail.py', S + 'interpolator.py', Y + 'sail_factory.py'], [('wind', 'pySailingVLM/runner/sail.py Wind'), ('sails', 'pySailingVLM/runner/sail.py Sail')],
  'SailGeometry is used through its contract (P10). Names of profiles and sails are enumerated. scipy splrep/splev are an assumed contract.')
p('P25', 'Reported positions: upright points, relative girths and the above-water rows of each sail',
  'Reported heights are those of the panel points turned back to the upright boat. The girth of a point is its height above the tack of its own sail over that of the highest point of this sail. The reported table has the above-water panels only, in panel order, each with the name of its sail and its own flow and inlet data; it is written with both summaries into the requested directory.',
  ['inputs', 'configurations'], 'every number of panels, position, tack, heel and leeway; 1 and 2 sails',
  'Tests check one set; pairing of rows with sails needs several sails with different tacks.',
  [S + 'additional_functions.py', 'pySailingVLM/results/save_utils.py'], [('girths', S + 'additional_functions.py get_cp_z_as_girths_all, get_cp_z_as_girths_all_above, cp_to_girths, get_cp_strainght_yacht'), ('table', 'pySailingVLM/results/save_utils.py save_results_to_file')],
  'The assembly of the table with pandas and the workbook (save_results_to_file) is a bounded check on CPython, not counted as proved; the functions it calls are proved.')

p('P21', 'One calculation is consistent: geometry, wind, circulation, forces, pressures and coefficients of a Vlm belong to the same panels',
  'For panels in any of the wind profiles, a Vlm reports the panel data and areas of its own panels, the onset velocity of the wind at the height of each centre of pressure, a circulation for which no flow passes any panel at its control point, induced and total velocities from exactly this circulation, the panel forces (total, lift and drag part) of these velocities, the pressure as normal force over panel area and the pressure coefficient as pressure over dynamic pressure of the onset flow. No degenerate panel (area below 1e-14) is accepted.',
  ['inputs', 'configurations'], 'every number of grids, strips and panels, panel corner position, edge pattern, wind profile, wind angle and speed, boat speed, density and vortex orientation',
  'Tests compare a few numbers of one rig; a quantity taken from other panels, another wind or another circulation needs unequal panels and a sheared wind to show.',
  [S + 'vlm.py', S + 'coefs.py', S + 'forces.py', S + 'velocity.py', 'pySailingVLM/inlet/inlet_conditions.py'],
  [('calculation', S + 'vlm.py Vlm.__post_init__'), ('onset flow', 'pySailingVLM/inlet/inlet_conditions.py InletConditions'), ('forces', S + 'forces.py calc_force_wrapper, calc_pressure, calc_pressure_coeff')],
  'Influence coefficients and superposition are used through their contracts (P02). Heights below 0.01 m are excluded. Edge marks are taken as the panel makers give them (last rows trailing, first rows all or none leading).')
p('P23', 'The command line run uses the settings of the user and hands its results to workbook and plots',
  'A setting that is given is kept, every other one has its documented default, containers share no data, and a sail without twist gets the linear twist along its own girths. The command line run builds sails, wind, transformation, hull and calculation from the settings of the given directory, estimates the keel moment before the results are saved, saves them under the requested names together with a copy of the settings, and plots pressure coefficients, section lift and section drag of this calculation.',
  ['inputs', 'configurations', 'histories'], 'every numeric setting, mesh size, section table length, wind profile and sail definition, and every choice of one given setting per container',
  'No test runs the command line; a default shared between containers, a setting that is dropped or results handed to the wrong place show only in such a run.',
  ['pySailingVLM/runner/cli.py', 'pySailingVLM/runner/container.py'], [('settings', 'pySailingVLM/runner/container.py'), ('run', 'pySailingVLM/runner/cli.py main, parse_cli, load_variable_module')],
  'Callees (Sail, Vlm, HullGeometry, InviscidFlowResults, save_results_to_file, plots) are replaced by recording contracts in the proof; the CPython samples run the real program in a scratch directory with the drawing functions recorded.')
p('P24', 'The free wing reports the forces, pressures and coefficients of a rectangular wing at its angle of attack',
  'The wing spans along z and is turned about the span by the angle of attack. Its panel forces follow Kutta-Joukowski for the circulation that solves the no-penetration system of these panels and the given onset flow; pressure is normal force over area; drag, lift and side coefficients are the force components along x, y and z over dynamic pressure times span times chord; expected lift and drag follow the lifting-line formulas for its aspect ratio.',
  ['inputs', 'configurations'], 'every number of spanwise and chordwise panels, chord, span, angle of attack, onset velocity, density and vortex orientation',
  'Tests print the coefficients of one wing and check only the drag component; the lift was read along the span and was always zero.',
  ['pySailingVLM/runner/aircraft.py', S + 'coefs.py', S + 'panels.py', S + 'forces.py'], [('wing', 'pySailingVLM/runner/aircraft.py Aircraft.__init__'), ('coefficients', S + 'coefs.py get_vlm_Cxyz, get_CL_CD_free_wing')],
  'Panel data (P07), influence coefficients and superposition (P02), the linear solver (P03), panel forces (P04) and the acceptance check (P03) are used through their contracts; the linear system itself is checked against the panels.')
