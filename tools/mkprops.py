import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
B='bicycleparameters/'
p('C01','Canonical matrices are the Meijaard 2007 linearised Whipple equations',
 'For every benchmark parameter set with non-zero masses, wheel radii and wheelbase, the mass, damping and two stiffness matrices computed from it are exactly those of the linearised Whipple bicycle of Meijaard et al. (2007), including the symmetry of M and K0 and the zero first column of K2 and zero roll-roll damping. The same matrices come out of the plain function, of the model object and of the measured-bicycle object.',
 ['inputs'],'all real values of the 25 benchmark parameters the matrices depend on',
 'Existing tests compare one or two published parameter sets to about ten digits; a wrong term whose coefficient is zero, symmetric or tiny on those sets is invisible.',
 [B+'bicycle.py',B+'models.py',B+'main.py'],[('benchmark_par_to_canonical',B+'bicycle.py'),('Meijaard2007Model.form_reduced_canonical_matrices',B+'models.py'),('Bicycle.canonical',B+'main.py')],observe=['returned M, C1, K0, K2'])
p('C02','State matrices realise M q\'\' + v C1 q\' + (g K0 + v^2 K2) q = T',
 'For every invertible mass matrix, damping and stiffness matrices, speed and gravity, the state and input matrices A and B describe exactly the first order form of the canonical second order equations with states roll angle, steer angle, roll rate, steer rate and inputs roll torque, steer torque. The model object and the measured-bicycle object use their own speed and gravity for this, and the measured-bicycle eigenvalues at each requested speed are those of that A.',
 ['inputs'],'all real 2x2 matrices with non-zero determinant, all speeds and gravities, speed lists of any length',
 'Tests check one bicycle at a handful of speeds with g=9.81.',
 [B+'bicycle.py',B+'models.py',B+'main.py'],[('ab_matrix',B+'bicycle.py'),('Meijaard2007Model.form_state_space_matrices',B+'models.py'),('Bicycle.state_space, Bicycle.eig',B+'main.py')],observe=['returned A, B, evals, evecs'])
p('C03','Array valued overrides equal the scalar result at every index',
 'For every model (Meijaard 2007, with feedback, rider lean 2012) and every combination of parameters overridden by arrays and scalars, entry i of the returned canonical matrices, state space matrices and eigenvalues/eigenvectors is the result obtained when each array is replaced by its i-th value. A scalar override gives the result of a model built from a parameter set that holds that value.',
 ['inputs','configurations'],'every array length, every index, every choice of overridden parameters',
 'Tests try arrays of one length for one or two parameters.',
 [B+'models.py'],[('_parse_parameter_overrides, form_reduced_canonical_matrices, form_state_space_matrices, calc_eigen',B+'models.py')],observe=['shapes and entries of the returned arrays'])
p('C04','Evaluating a model never changes it or its arguments',
 'Computing matrices, eigenvalues, simulations or conversions leaves the parameter dictionaries, arrays and initial conditions passed in unchanged and leaves the stored parameters unchanged, so the same call repeated after any history of other calls gives the same answer. Overrides naming unknown parameters are ignored with a warning, and array overrides of unequal length are rejected with a ValueError.',
 ['inputs','histories'],'every sequence of calls with every overrides; every parameter name',
 'Tests create fresh objects and never look at arguments afterwards.',
 [B+'bicycle.py',B+'models.py',B+'inertia.py',B+'geometry.py',B+'parameter_sets.py',B+'main.py'],[('_parse_parameter_overrides',B+'models.py'),('benchmark_par_to_canonical',B+'bicycle.py'),('Bicycle.canonical/state_space/eig',B+'main.py')],
 state=[('ParameterSet.parameters','the stored parameter values',B+'parameter_sets.py'),('Bicycle.parameters','benchmark and measured parameters',B+'main.py')],observe=['argument and attribute contents before and after'])
p('C05','Feedback closes the loop as A - B K with the documented gains',
 'For every parameter set and every eight gains, the feedback model returns A - B K and B, where A and B are those of the plain model and K holds the roll torque gains in its first row and the steer torque gains in its second, in the order roll, steer, roll rate, steer rate. With all gains zero it is the plain model, and gains may vary along an array like any other parameter.',
 ['inputs','configurations'],'all real gains, parameters, arrays lengths and combinations of array gains',
 'The test uses one gain set.',
 [B+'models.py',B+'parameter_sets.py'],[('Meijaard2007WithFeedbackModel.form_state_space_matrices',B+'models.py'),('Meijaard2007ParameterSet.to_parameterization',B+'parameter_sets.py')],observe=['returned A, B'])
p('C06','Eigen analysis returns eigenpairs of the right matrix',
 'For every model and override, the returned eigenvalues and column eigenvectors satisfy A v = lambda v, and with left requested they satisfy A^T v = lambda v, for the A of the same overrides; the modal controllability angles are the angles between the left eigenvectors and the columns of B.',
 ['inputs','configurations'],'all parameter values and overrides, all indices of array overrides',
 'Doctest shows one array.',
 [B+'models.py'],[('_Model.calc_eigen, _calc_modal_controllability',B+'models.py')],observe=['returned evals, evecs, angles'])
p('C07','Mode sorting only reorders, keeping eigenpairs together',
 'For every sequence of eigenvalue sets and eigenvectors, sorting returns, for each element of the sequence, a permutation of exactly the eigenvalues given there, with each eigenvector column still paired with its own eigenvalue; no mode is lost or duplicated. The first element keeps its order, and the weave, capsize and caster split is a partition of those sorted modes.',
 ['inputs'],'all complex eigenvalues including repeated and colliding ones, all sequence lengths and mode counts',
 'The test sorts one smooth root locus where nearest neighbours never collide.',
 [B+'bicycle.py'],[('sort_eigenmodes',B+'bicycle.py'),('sort_modes',B+'bicycle.py')],observe=['returned arrays'])
p('C08','Converting person-and-bicycle parameters preserves the rigid bodies',
 'Converting the Moore 2019 principal parameters to the Meijaard 2007 benchmark parameters keeps the total mass, mass centre and central inertia tensor of person plus rear frame, the principal radii and orientation of the front frame, and the wheel inertias, geometry, gravity and speed; the required Moore 2019 parameters alone suffice, and the benchmark and feedback conversions agree.',
 ['inputs','configurations'],'all positive masses, all radii of gyration, angles and positions',
 'One fixed parameter set is compared with stored numbers.',
 [B+'conversions.py',B+'parameter_sets.py'],[('_convert_principal_to_benchmark, _rotate_inertia_about_y, _sum_central_inertias',B+'conversions.py'),('Moore2019ParameterSet.to_parameterization',B+'parameter_sets.py')],observe=['converted parameter values'])
p('C09','Mass centres and inertia tensors reported by parameter sets are right',
 'For every parameter set and every non-empty selection of its bodies, the reported combined mass centre is the mass weighted mean of the bodies\' mass centres, and each body\'s mass centre vector and inertia tensor hold the stored parameters, with wheels centred on their axles and laterally symmetric.',
 ['inputs','configurations'],'all parameter values, all subsets and orders of bodies, any number of objects',
 'Tests check a single pair of bodies.',
 [B+'com.py',B+'parameter_sets.py'],[('total_com',B+'com.py'),('mass_center_of, form_mass_center_vector, form_inertia_tensor',B+'parameter_sets.py')],observe=['returned vectors and tensors'])
p('C10','Inertia tensors transform as tensors',
 'Parallel axis shifts add m(|d|^2 I - d d^T), rotations about the lateral axis are R I R^T and preserve trace, determinant, lateral moment and invert when the angle is negated, and the principal moments and axes of a tensor reproduce it and are sorted ascending. A part tensor is assembled symmetrically from its parameters, with wheel and flywheel Izz equal to Ixx.',
 ['inputs'],'all symmetric tensors, offsets, masses and angles',
 'Only indirect numerical use with one bicycle.',
 [B+'inertia.py',B+'conversions.py',B+'parameter_sets.py'],[('parallel_axis, rotate_inertia_tensor, part_inertia_tensor, principal_axes',B+'inertia.py'),('_rotate_inertia_about_y, _sum_central_inertias',B+'conversions.py'),('_planar_principal_radii_of_gyration',B+'parameter_sets.py')],observe=['returned tensors'])
p('C11','Adding a rider conserves mass, moment and inertia, once',
 'For every rider, laterally centred or not, and every bicycle, the combined rear body has the sum of masses, the mass weighted mean centre and the sum of both inertia tensors shifted to that centre, and every other benchmark parameter is unchanged. The rider is the saved one, or computed from the seated human where there is none saved or a new calculation or a drawing is asked for. A bicycle takes at most one rider: a second request leaves all parameters as they are.',
 ['inputs','histories'],'all rider and bicycle rear body parameters; every sequence of add rider calls',
 'No reliable test adds a rider.',
 [B+'inertia.py',B+'main.py',B+'rider.py'],[('combine_bike_rider',B+'inertia.py'),('Bicycle.add_rider',B+'main.py'),('configure_rider, yeadon_vec_to_bicycle_vec',B+'rider.py')],
 state=[('Bicycle.hasRider','whether a rider has been added',B+'main.py')],observe=['Bicycle.parameters, Bicycle.riderPar'])
p('C12','Steer assembly inertia agrees with the dynamics model',
 'The inertia of the steer assembly about the steer axis equals the I_A-lambda-lambda that the canonical equations use, for handlebar with fork with or without the wheel; with every choice of parts the tensor is the sum of the chosen parts\' tensors about their common mass centre, expressed in the steer axis frame.',
 ['inputs','configurations'],'all front assembly parameters and all part selections',
 'No reliable test calls it.',
 [B+'main.py',B+'geometry.py',B+'inertia.py'],[('Bicycle.steer_assembly_moment_of_inertia',B+'main.py'),('distance_to_steer_axis, point_to_line_distance',B+'geometry.py')],observe=['returned tensor'])
p('C13','Geometry conversions satisfy the Euclidean relations they name',
 'For every bicycle, trail, mechanical trail, wheelbase, steer axis offsets, the fork and handlebar offsets, two link angles, point to line and point to steer axis distances and line projections satisfy the planar geometry that defines them: wheel centres sit on wheel radius above the ground, offsets are perpendicular to the steer axis, and angle and distance results reproduce the triangle they were computed from.',
 ['inputs'],'all admissible lengths and angles, both the direct and the indirect measurement set',
 'Tests check trail and a couple of distances for one bicycle.',
 [B+'geometry.py',B+'bicycle.py'],[('calculate_benchmark_geometry, calculate_abc_geometry, calculate_l1_l2, fwheel_to_handlebar_ref, calc_two_link_angles, fundamental_geometry_plot_data, distance_to_steer_axis, point_to_line_distance, project_point_on_line, vec_angle, vec_project',B+'geometry.py'),('trail, lambda_from_abc',B+'bicycle.py')],observe=['returned lengths, angles, points'])
p('C14','Pendulum reductions invert the pendulum equations',
 'For every body, the compound pendulum, torsional pendulum, rod and planar inertia reductions return exactly the inertia that would produce the given periods, the calibration stiffness and tor inertia are mutual inverses, and the hanging lines of a body in any two or more orientations intersect at its mass centre, which is what is returned; when measured lines do not meet in one point, every pair of orientations counts equally.',
 ['inputs'],'all inertias, masses, lengths, periods; all numbers and angles of orientations',
 'Only one measured bicycle exercises these.',
 [B+'inertia.py',B+'com.py'],[('compound_pendulum_inertia, torsional_pendulum_stiffness, tor_inertia, tube_inertia, inertia_components',B+'inertia.py'),('com_line, part_com_lines, center_of_mass, cartesian',B+'com.py')],observe=['returned inertias and coordinates'])
p('C15','Measuring a known bicycle and reducing gives that bicycle back',
 'If the raw measurements are those an ideal bicycle would produce (rollout distances, steer axis geometry, hanging angles and distances, compound and torsional pendulum periods), the reduction to benchmark parameters returns that bicycle\'s masses, mass centres and inertias for wheels, frame and front assembly, whether the fork and handlebar were measured together or separately and with or without a flywheel.',
 ['inputs','configurations'],'every physical bicycle, every hanging orientation angles, split and non-split forks, with and without flywheel',
 'No reliable test runs the reduction; it needs an inverse model of the measurement.',
 [B+'main.py',B+'com.py',B+'geometry.py',B+'inertia.py'],[('calculate_benchmark_from_measured, is_fork_split',B+'main.py')],observe=['returned parameter dictionary'])
p('C16','Saved parameters load back as they were',
 'Every parameter set, with or without uncertainties, written to a parameter text file is read back with the same names and values (plain numbers exactly, values with an uncertainty to the digits that its deviation makes significant), comments, blank lines and multiple comma separated measurements are handled as documented (averaged), an existing file is only overwritten after consent and otherwise stays byte for byte, and a bicycle saves each of its parameter sets to its own correctly named file, from which a bicycle of that name loads them; without its directory there is no bicycle.',
 ['inputs','histories'],'all parameter names and float values, all answers to the overwrite question, any number of parameter sets',
 'Existing reliable tests do not write parameter files.',
 [B+'io.py',B+'main.py'],[('load_parameter_text_file, write_parameter_text_file, remove_uncertainties',B+'io.py'),('Bicycle.save_parameters, Bicycle.__init__',B+'main.py')],observe=['file contents, loaded dictionaries'])
p('C17','Updating periods rewrites only the periods',
 'Writing computed periods into a raw measurement file keeps every non-period line unchanged and in order and leaves exactly the given periods, each on its own line, so that loading the file gives the old non-period values and the new periods, however often it is repeated and whether or not the file ended in a newline.',
 ['inputs','histories'],'all file contents, all period sets, repeated updates',
 'No test updates a measurement file.',
 [B+'io.py'],[('write_periods_to_file',B+'io.py')],observe=['file contents'])
p('C18','Periods come from the fitted oscillation, filed under the right key',
 'The function fitted to a pendulum recording is a constant plus a damped sinusoid whose reported sensitivities are its exact partial derivatives, the reported period is two pi over its damped frequency, every recording is filed under the key made of pendulum type, part and orientation, and repeated recordings of the same key are averaged.',
 ['inputs','configurations'],'all fit parameters and times; every part, pendulum, orientation, rod naming and fork configuration',
 'No reliable test fits a period.',
 [B+'period.py'],[('get_period, jac_fitfunc, get_period_key, calc_periods_for_files, check_for_period, fit_goodness, get_sample_rate',B+'period.py')],observe=['returned periods, keys'])
p('C19','Parameter sets accept exactly complete float parameters and convert faithfully',
 'A parameter set can be created exactly when all its required parameters are present with float values; converting to its own parameterization returns itself, to an unknown one raises a ValueError, to the feedback one adds eight zero gains and changes nothing else; and saving any set to YAML and loading it gives the same values. A model has the parameters of the set it is made of, in its own parameterization; an INI file and the listing of a set show each parameter once with its value.',
 ['inputs','configurations'],'every parameterization, every missing or mistyped key, all values',
 'Tests try one missing key and two conversions.',
 [B+'parameter_sets.py'],[('ParameterSet._check_parameters, to_parameterization, to_yaml, _from_yaml',B+'parameter_sets.py')],observe=['exceptions, returned sets, files'])
p('C20','Simulation integrates the model it was given',
 'A simulation integrates x\' = A x + B u(t, x) with the A and B of the overrides, from the given initial conditions over exactly the given times, and returns the states and the inputs evaluated at those times, zero without an input function; mode simulations start from the real part of each eigenvector. Array valued overrides are rejected with a ValueError.',
 ['inputs','configurations'],'all states, times, input functions, overrides and models',
 'Tests at most check that plots are produced.',
 [B+'models.py'],[('_Model.simulate, _Model.simulate_modes, MooreRiderLean2012Model.simulate',B+'models.py')],observe=['returned trajectories and inputs'])
p('C21','Bode comparison shifts phase only by whole turns into one branch',
 'Aligning Bode phase curves of several bicycles or speeds shifts each curve by a whole multiple of 360 degrees, leaving its shape, such that its first value lies within [-180, 180], and the curves plotted are those of the requested input and output channel.',
 ['inputs'],'all phase curves, speeds and channels',
 'No reliable test plots Bode diagrams.',
 [B+'plot.py',B+'main.py'],[('compare_bode_bicycles',B+'plot.py'),('Bicycle.compare_bode_speeds, plot_bode',B+'main.py')],observe=['line data'])
p('C22','Parameter tables show every value to its uncertainty',
 'A parameter table lists every parameter of the chosen source of every bicycle exactly once with the value and uncertainty rounded consistently to the uncertainty\'s leading digit and NA where a bicycle lacks it; rendering it is repeatable and never changes the table or the bicycles.',
 ['inputs','histories'],'all parameters, values and uncertainties, repeated rendering',
 'No test covers tables.',
 [B+'tables.py'],[('Table.generate_table_data, create_rst_table, uround, to_latex',B+'tables.py')],observe=['table data and text'])
p('C23','The web app plots the parameters shown in its tables',
 'For every bundled bicycle and every edit of the tables, the app evaluates the bicycle with exactly the table values, the steer tilt being shown in degrees and used in radians, so that unedited tables reproduce the bundled bicycle, after any sequence of choices, edits, resets and options and whatever other visitors do; the figures draw that bicycle: its wheels, mass centres, steer axis and trail, inertia ellipses along the principal axes, the seated rider, the eigenvalues at the speeds of the axis and the speeds at which every mode is stable.',
 ['inputs','configurations','histories'],'all bundled bicycles, all table edits, all sequences of visitors\' actions',
 'There are no tests of the app.',
 [B+'app.py'],[('populate_wheel_data, plot_update, new_par',B+'app.py'),('Bicycle._plot_bicycle_geometry_plotly, _plot_eigenvalues_vs_speed_plotly, plot_bicycle_geometry',B+'main.py')],observe=['table data, parameters used for the plots'])
p('C24','The rider lean model is the linearised motion of bicycle and leaning rider',
 'For all rider lean parameters and speeds, the state and input matrices are those of the mechanical system described by the parameters, linearised about upright straight riding: the benchmark bicycle with the rider as part of the rear frame, plus a body that leans about a horizontal axis against a spring and a damper, with torques on roll, steer and lean; the wheels roll, the rear contact moves and the frame yaws as the wheels steer it, and the forward speed stays constant.',
 ['inputs'],'all rider lean parameters and speeds','Tests check shapes and one set of numbers.',
 [B+'_mooreriderlean2012.py',B+'models.py'],[('eval_linear',B+'_mooreriderlean2012.py'),('MooreRiderLean2012Model.form_state_space_matrices',B+'models.py')],observe=['A, B'])
p('C25','Computed rider posture keeps hands and feet on the bicycle',
 'For every rider and bicycle for which the equations of the posture are solved (and they are for a bicycle made to fit a rider in a usual riding posture), the configured human sits at the upper end of the seat post with both feet at the bottom bracket, the hands a handlebar width apart at the measured distances from both wheel centres, the axes of the elbows level and the given somersault angle kept; configuring the rider changes no measurement, and the human is drawn exactly when asked for.',
 ['inputs'],'all rider and bicycle measurements','No reliable test configures a rider.',
 [B+'rider.py'],[('rider_on_bike',B+'rider.py')],observe=['human configuration'])
p('C26','Reported uncertainties are the first order propagated uncertainties',
 'When measurements carry uncertainties, every benchmark parameter, part mass centre, moment of inertia, model matrix, handlebar assembly inertia and bicycle with rider parameter computed from them carries the first order propagation of exactly those uncertainties, correlations included, around the value the nominal measurements give; nominal=True gives plain numbers; repeated readings count as the mean of independent readings.',
 ['inputs','configurations'],'all measured values and uncertainties, all part configurations','Tests ignore uncertainties.',
 [B+'main.py',B+'bicycle.py',B+'com.py',B+'geometry.py',B+'inertia.py',B+'rider.py',B+'io.py'],[('calculate_benchmark_from_measured, Bicycle.canonical, state_space, steer_assembly_moment_of_inertia',B+'main.py'),('lambda_from_abc',B+'bicycle.py'),('combine_bike_rider',B+'rider.py'),('load_parameter_text_file',B+'io.py')],observe=['nominal_value and std_dev of results'])
p('C27','Drawings of a parameter set depict its geometry and inertia',
 'The drawings of a parameter set show that bicycle to scale: wheels of the given radii standing on the ground a wheelbase apart, the steer axis at the given tilt and trail, a mass centre symbol at each body\'s mass centre, principal radii of gyration along the principal axes, and uniform ellipsoids that have each body\'s mass, mass centre and central inertia; the person is a diamond with the given mass, centre and inertia. Drawing changes no parameter.',
 ['inputs','configurations'],'all physically possible values of both parameterizations, all bodies, given or new axes',
 'Tests only draw a few sets without looking at what was drawn.',
 [B+'parameter_sets.py'],[('Meijaard2007ParameterSet.plot_*',B+'parameter_sets.py'),('Moore2019ParameterSet.plot_*',B+'parameter_sets.py'),('_plot_geometry_from_benchmark',B+'parameter_sets.py')],observe=['artists on the axes'])
p('C28','Figures of models and bicycles show the quantities computed',
 'Each figure of a model or a measured bicycle shows the computed quantity against the right parameter value, under the right name and unit: real and absolute imaginary parts of each mode over the varied parameter with the stable range shaded and only zeros hidden, each eigenvector\'s components as phasors scaled to the largest, every input and state trajectory once, every mode\'s simulation, every gain and every modal controllability angle.',
 ['inputs','configurations'],'all parameter values and overrides, trajectories, eigenvalues and eigenvectors, and plot options',
 'Tests only check that some of the plots are produced.',
 [B+'models.py',B+'main.py',B+'plot.py'],[('plot_eigenvalue_parts, plot_eigenvectors, plot_mode_simulations, plot_simulation, plot_gains, _plot_modal_controllability',B+'models.py'),('Bicycle.plot_eigenvalues_vs_speed',B+'main.py'),('plot_eigenvalues',B+'plot.py')],observe=['artists on the axes'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80
print(len(P))
