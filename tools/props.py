import json
P=[]
def add(id,title,st,over,q,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=hook)))
B='moirae/models/base.py'; E='moirae/models/ecm/'
add('C01','Names, order, count and values of health parameters always agree',
 'For a health description of any nesting, the list of parameter names, the list of updatable names, the number of updatable values, the expansion of names, and the vectors of values which are read by default or by name all describe the same parameters in the same (depth-first, declaration) order: value k of a vector belongs to expanded name k, and names resolve to the parameter they spell. Exactly the parameters for which every field along the path is marked as updatable are listed as updatable, after any sequence of marking and unmarking. The batch size is the largest one of any parameter, and reading values repeats unbatched ones for every member.',
 ['inputs','histories','configurations'],'every tree of nested, tuple and dictionary descriptions with arbitrary names, batch sizes and widths; every sequence of marking, unmarking and reading; every list of names',
 'The tests read a handful of names from two hand-written classes; agreement between the listing, expanding, counting and reading code must hold for every nesting and marking.',
 [B],[('iteration over parameters','HealthVariable.iter_parameters'),('expansion of names','HealthVariable.expand_names'),('resolution of names','HealthVariable._get_model_chain'),('reading','HealthVariable.get_parameters')],
 [('updatable','names of the fields marked as updatable','HealthVariable.updatable')],['updatable_names','all_names','num_updatable','expand_names','get_parameters','batch_size'])
add('C02','Writing parameters changes exactly the named ones, or nothing',
 'Writing a vector or matrix of values sets precisely the named (or, by default, the updatable) parameters to the matching slices, for every batch member, and leaves every other parameter of that description and all parameters of other descriptions, copies and templates unchanged. A request that has the wrong number of values or names a parameter which is not updatable is refused and changes nothing. Descriptions and copies never share storage with one another or with the arrays they were given.',
 ['inputs','histories'],'every tree, marking, order of names, batch size and interleaving of writing to several descriptions, copies and shared templates, including refused requests',
 'Tests write two or three parameters once; aliasing and partial writes only show through sequences of writes to several objects which tests do not enumerate.',
 [B,E+'advancedSOH.py'],[('writing many','HealthVariable.update_parameters'),('writing one','HealthVariable.set_value'),('copying','HealthVariable.make_copy'),('templates','ECMASOH.provide_template')],
 [('values','arrays held by every parameter','HealthVariable fields')],['attribute values of all descriptions after each operation'])
add('C03','State containers pack and unpack without loss',
 'Packing a container of inputs, states or outputs to an array and unpacking it yields the same values: present fields in order of declaration, absent optional fields are skipped in names, lengths and columns, and unbatched fields are repeated for every batch member. Unpacking an array changes only that container, copying leaves the original as it was, and neither keeps a reference to the array. Names, expanded names, lengths and number of columns always agree.',
 ['inputs','histories'],'every combination of scalar, list and absent fields, batch sizes 1..n per field, and sequences of packing, unpacking, copying and mutating arrays',
 'Tests cover one or two layouts; the packing must be a bijection for every layout and batch size and stay free of aliasing in any history.',
 [B,E+'ins_outs.py',E+'transient.py'],[('packing','GeneralContainer.to_numpy'),('unpacking','GeneralContainer.from_numpy'),('copy','GeneralContainer.make_copy')],[('fields','values of the container','GeneralContainer')],['to_numpy','all_names','expand_names','len','fields'])
add('C04','Charge bookkeeping is conserved and only charging loses charge',
 'Over every step of the circuit model the state of charge changes by exactly the charge that passed divided by the capacity, multiplied by the coulombic efficiency only while charging and never while discharging; the charge of the series capacitor (if there is one) changes by exactly the charge that passed. Charge passed is current of the start of the step times duration in the constant-current mode and the trapezoid of both currents in the linear mode; a step counts as charging by the sign of the current at its start or, if it ramps from rest, at its end. A full sequence therefore telescopes: splitting a constant-current step into smaller ones, or at rest, changes nothing.',
 ['inputs','histories'],'every sequence of steps of any duration (including zero) and current signs in both current modes, any capacity, efficiency and initial charge',
 'Tests check a couple of charge/discharge cycles with efficiency 1; conservation has to hold for every sequence and across sign changes.',
 [E+'__init__.py',E+'components.py'],[('charge integration','EquivalentCircuitModel.update_transient_state'),('capacity units','MaxTheoreticalCapacity.value')],[('soc','state of charge','ECMTransientVector.soc'),('q0','charge of series capacitor','ECMTransientVector.q0')],['update_transient_state'])
add('C05','RC currents and hysteresis follow their exact, bounded solutions',
 'Each RC branch current is (for positive time constants) the exact solution of its first-order relaxation over the step, for constant and for linearly-varying current, and never leaves the range spanned by its start and the applied currents. The hysteresis voltage moves from its start towards the asymptote of the direction of the current by the exact exponential of the charge passed, never overshoots, and is unchanged at rest. A step of zero duration leaves the whole state unchanged, and a linear step between equal currents equals a constant-current step.',
 ['inputs','histories'],'every number of RC branches, time constant, duration (zero, tiny, huge), sequence of currents including sign changes and rests, both current modes',
 'Tests compare a few simulated points to loose tolerances or plots; the closed forms must hold for every duration and sign pattern.',
 [E+'__init__.py',E+'utils.py',E+'components.py'],[('RC relaxation','EquivalentCircuitModel.update_transient_state'),('hysteresis solver','hysteresis_solver_const_sign')],[('i_rc','currents of RC branches','ECMTransientVector.i_rc'),('hyst','hysteresis voltage','ECMTransientVector.hyst')],['update_transient_state'])
add('C06','Terminal voltage is the sum of its circuit elements',
 'The terminal voltage equals the open-circuit voltage at the present state of charge and temperature plus the ohmic drop, the series-capacitor voltage (if present), the RC drops and the hysteresis voltage, whichever elements are configured. Every state-of-charge-dependent quantity passes through its tabulated points, follows its declared interpolation between them and its declared extension beyond them, and resistances and open-circuit voltage follow their declared temperature laws. The theoretical energy of a description is the capacity times the integral of the open-circuit voltage over the requested range.',
 ['inputs','configurations'],'every combination of circuit elements, interpolation style, pinpoints, temperature, state and current, inside and outside the tabulated range',
 'Tests evaluate few points of default templates; composition and interpolation have to be right for every configuration.',
 [E+'__init__.py',E+'utils.py',E+'components.py',E+'advancedSOH.py'],[('sum','EquivalentCircuitModel.calculate_terminal_voltage'),('interpolation','SOCInterpolatedHealth.get_value'),('temperature','Resistance.get_value, OpenCircuitVoltage.get_value')],[],['calculate_terminal_voltage','get_value of components','get_theoretical_energy'])
add('C07','A batch behaves as independent single cells',
 'Evaluating the circuit model with a batch of states and/or a batch of health parameters gives, for every member, the result of evaluating that member alone; which parameters are batched and which are shared never matters. No member influences another, through states, voltages or parameters.',
 ['inputs','configurations'],'every assignment of batch sizes (1 or n) to every parameter and state, every circuit configuration, both current modes',
 'Tests batch one or two parameters at a time; independence must hold for all 2^k combinations.',
 [E+'__init__.py',E+'utils.py',E+'components.py',B],[('broadcasting','EquivalentCircuitModel'),('interpolation of batches','SOCInterpolatedHealth.get_value')],[],['update_transient_state','calculate_terminal_voltage'])
add('C08','The simulator executes exactly the sequence of model steps',
 'A simulator starts from copies of what it is given, and each step updates the transient state, then predicts the measurement from the new state, then applies degradation, each with the inputs, states and parameters of that moment. When the history is kept, record k of every history is what step k produced (record 0 is the initial one) and is never altered later; evolving over a list equals single steps, and keeping the history never changes results.',
 ['histories','inputs'],'every interleaving of step and evolve, with and without history, any model and degradation model, any later mutation of the objects passed in',
 'Tests run a single fixed cycle without degradation; ordering, ownership and history faults only appear in longer histories with changing parameters.',
 ['moirae/simulator.py','moirae/models/utils.py'],[('step','Simulator.step'),('sequence','Simulator.evolve')],[('histories','inputs, transients, measurements per step','Simulator.*_history')],['step','evolve','histories'])
add('C09','Tables made from a simulation keep every record',
 'The table of a simulation has exactly one row for each recorded time and batch member, labelled with that member, holding its own input, state and output values in named columns. The per-member datasets hold the same records with the standard column names, in the order in which they were recorded, and leaving out extra columns loses nothing else; when extra columns are asked for, every column is described.',
 ['histories','configurations'],'every number of steps, batch size, and layout of inputs, states and outputs, including multi-valued fields',
 'Tests check a few columns of an unbatched run; labels and values can be permuted without being noticed.',
 ['moirae/simulator.py'],[('table','Simulator.to_dataframe'),('datasets','Simulator.to_batdata')],[],['to_dataframe','to_batdata'])
add('C10','Distributions and coordinate conversions are consistent',
 'Converting samples forward and back returns the samples wherever the conversion can be inverted; converting a distribution transforms its mean as a sample and its covariance by the linear (or linearised) rule of that conversion, so the result stays symmetric positive semi-definite. Combining distributions stacks their means in order and places their covariances in blocks without cross terms. Distributions keep their own copies, and conversions never alter what they are given.',
 ['inputs'],'every dimension, bias, matrix (scalar, vector or full), pivot sign, sample batch, and list of combined distributions',
 'Tests use two or three matrices; the algebraic laws quantify over all of them.',
 ['moirae/estimators/online/filters/conversions.py','moirae/estimators/online/filters/distributions.py'],[('linear conversion','LinearConversionOperator'),('absolute value','AbsoluteValueConversionOperator'),('distribution','MultivariateGaussian, DeltaDistribution')],[],['transform_*','inverse_transform_*','convert','combine_with'])
add('C11','Every filter step is the unscented Kalman update of the model',
 'Each step of the filter yields the mean and covariance that the scaled unscented transform and the Kalman gain define for the model, tuning parameters and noise it was given, for the hidden state and the predicted output; on a linear model this is the exact Kalman filter. Covariances stay symmetric and positive semi-definite, and the projection used to enforce it leaves valid matrices unchanged and otherwise moves to the nearest valid one. Controls, state and noise are carried from step to step without mixing.',
 ['inputs','histories'],'every dimension, model, tuning parameter, noise, and sequence of inputs and measurements',
 'Tests check convergence on one or two problems with tolerances that hide wrong weights or orderings; the update rule is a formula over all of them.',
 ['moirae/estimators/online/filters/kalman/unscented.py','moirae/estimators/online/filters/kalman/utils.py'],[('step','UnscentedKalmanFilter.step'),('sigma points','build_sigma_points'),('weights','mean_weights, cov_weights'),('projection','ensure_positive_semi_definite')],[('hidden','state distribution','UnscentedKalmanFilter.hidden'),('controls','previous inputs','UnscentedKalmanFilter.controls')],['step','hidden','build_sigma_points'])
add('C12','Estimates do not depend on the coordinates of the filter',
 'Running an estimator on a model through converted coordinates gives the same estimates, in the units of the physical model, as running it without conversion: for scaling and shifting of each hidden variable, for any invertible affine conversion of controls and outputs, and for any such conversion of the hidden state where the model is linear. Noise given in physical units, normalisation of parameters, and reading back of states, covariances and predicted measurements all undergo the same conversion. This holds for joint and dual estimation at every step.',
 ['inputs','configurations','histories'],'every invertible affine conversion of each quantity, every normalisation of health parameters, every number of steps',
 'Tests never compare converted with unconverted runs except for the trivial conversion.',
 ['moirae/estimators/online/utils/model.py','moirae/estimators/online/joint.py','moirae/estimators/online/dual.py','moirae/estimators/online/filters/conversions.py'],[('conversions','BaseCellWrapper.converters'),('normalisation','normalize_asoh'),('reading back','JointEstimator.state, DualEstimator.state')],[],['step','state','get_estimated_state'])
add('C13','Joint estimation maps names, vectors and objects consistently',
 'In joint estimation the reported state vector is the transient state followed by the selected health parameters, in the order of the reported names; building objects from the vector and the vector from objects are inverse to each other. Each hidden sample is evolved as the physical model would evolve a cell with precisely those states and parameters, including degradation, and parameters which are not selected keep their given values for ever.',
 ['inputs','configurations','histories'],'every selection and order of health parameters, circuit layout, batch of samples, and sequence of steps',
 'Tests use one selection; permutations and optional fields decide whether columns are mixed up.',
 ['moirae/estimators/online/joint.py','moirae/estimators/online/utils/model.py','moirae/estimators/online/__init__.py'],[('mapping','JointCellModelWrapper'),('initialisation','JointEstimator.initialize_unscented_kalman_filter'),('names','OnlineEstimator.state_names')],[],['state_names','state','get_estimated_state','step'])
add('C14','Dual estimation exchanges the latest estimates between its two filters',
 'In every step of dual estimation, both filters run on the estimate which the other one had after the previous step, with the same inputs and measurements: states are estimated for the latest estimated parameters, and parameters for the latest estimated state. The reported state is the transient estimate followed by the selected parameters without cross terms, and parameters which are not selected never change. The predicted output reported is that of the transient filter.',
 ['inputs','configurations','histories'],'every selection of parameters, circuit layout and sequence of steps',
 'Tests only look at the convergence of one selection of all parameters; stale or early exchange changes results by too little to be noticed.',
 ['moirae/estimators/online/dual.py','moirae/estimators/online/utils/model.py'],[('exchange','DualEstimator.step'),('wrappers','CellModelWrapper, DegradationModelWrapper')],[('asoh','parameters used by the transient filter','CellModelWrapper.asoh'),('transients','state used by the parameter filter','DegradationModelWrapper.transients')],['step','state','get_estimated_state'])
add('C15','Online estimation gives one aligned estimate per row of data',
 'Running an online estimator over a dataset yields exactly one row per measured row, in order, where row k holds the estimate after the estimator has seen rows up to k, exactly as stepping the estimator by hand does. Means are the estimated values and columns named as standard deviations are square roots of variances; columns of outputs hold the predicted measurement. Running with data in memory, streamed from a file, or without storing results leaves the estimator in the same state.',
 ['inputs','histories','configurations'],'every dataset (any length, columns, index, cycle numbers), estimator, and source of data',
 'The tests check shapes and rough convergence on one dataset; off-by-one and alignment faults survive that.',
 ['moirae/interface/__init__.py'],[('driver','run_online_estimate'),('row conversion','row_to_inputs')],[],['run_online_estimate'])
add('C16','Stored estimates are exactly the ones that were produced',
 'Whatever sequence of steps, cycles and times is written to a file, with any level of detail per step and per cycle, reading it back gives each written step in order and the first one of every cycle, value for value and with its time, whether the storage was sized in advance or grows. Detail that was not requested is not stored and reading it is refused; if writing is refused or interrupted, the file still holds exactly the steps written before. The metadata describes the estimator, its names and its starting point so that files can be interpreted alone.',
 ['histories','crash_points','configurations'],'every sequence of cycle numbers (repeats, gaps, any start), storage options, chunk boundaries, sizes, refused writes, and exceptions between writes',
 'Tests write one regular sequence; gaps, repeats, growth and interruption are combinations they do not visit.',
 ['moirae/interface/hdf5.py','moirae/interface/__init__.py'],[('append','HDF5Writer.append_step'),('layout','HDF5Writer.prepare'),('reading','read_state_estimates')],[('position','number of steps written','HDF5Writer.position')],['read_state_estimates','datasets and attributes of the file'])
add('C17','The offline loss measures the model against the data, row by row',
 'The loss of a parameter vector is the mean squared difference between the measured and simulated outputs of every row, when the initial state and health parameters given by the vector are simulated through the inputs of the data from the first row on; a batch of vectors gives the loss of each alone. Evaluating the loss never changes the objects it was built from, so repeated evaluation agrees. The vector is the initial state followed by the updatable parameters, and the minimiser returns objects which carry the reported optimum, with everything else as it was.',
 ['inputs','configurations'],'every dataset, selection of parameters, batch of vectors, and order of evaluations',
 'Tests only check that a near-perfect guess stays near perfect.',
 ['moirae/estimators/offline/loss.py','moirae/estimators/offline/scipy.py','moirae/estimators/offline/__init__.py'],[('loss','MeanSquaredLoss'),('layout','BaseLoss.get_x0'),('minimiser','ScipyMinimizer.estimate')],[],['loss(x)','get_x0','estimate'])
add('C18','Extractors read the quantities that the data contain',
 'The extracted capacity is the largest measured cycle capacity, and the extracted open-circuit voltage is the weighted least-squares spline of voltage against normalised capacity of the cycle with the requested capacity and points, in which the slowest rows weigh most. Extraction is a function of the measurements: it does not alter the measurements, and rescaling current or capacity consistently does not change the curve. Data which miss required tables, columns or range of charge are refused.',
 ['inputs'],'every dataset of cycles, numbers of interpolation points, current profile, and missing columns',
 'Tests use one file with loose tolerances.',
 ['moirae/extractors/ecm.py','moirae/extractors/base.py'],[('capacity','MaxCapacityExtractor'),('OCV','OCVExtractor.interpolate_ocv'),('validation','BaseExtractor.check_data')],[],['extract','check_data'])
add('C19','Serialised objects come back equal and behave the same',
 'Writing health descriptions, states, inputs and outputs to JSON and reading them back reproduces every value, shape, name, updatable marking and option, at any time of their life. The object read back behaves as the original: it evaluates, simulates, and can be updated with the same results. Serialising never alters the object.',
 ['inputs','histories'],'every circuit configuration, batch size, interpolation option and point of life (fresh, evaluated, updated)',
 'Tests round-trip a fresh default object and only compare few fields.',
 [B,E+'utils.py',E+'components.py'],[('parsing and serialising arrays','NumpyParameter types in HealthVariable and GeneralContainer'),('SOC pinpoints','SOCInterpolatedHealth')],[],['model_dump_json','model_validate_json'])
add('C20','Working on a cell never changes the objects that were handed in',
 'Simulating, evaluating voltages, initialising and stepping estimators, and computing losses never modify the health descriptions, states, inputs, measurements and distributions the caller passed in, and what the caller does to those objects afterwards never changes a running simulator or estimator. Two simulators or estimators built from the same objects evolve as if the other did not exist.',
 ['histories','schedules'],'every interleaving of operations of two or more users of the same objects with mutations of those objects between operations',
 'Tests never mutate what they passed in, nor run two estimators from the same objects.',
 ['moirae/simulator.py','moirae/estimators/online/utils/model.py','moirae/estimators/online/filters/kalman/unscented.py','moirae/estimators/offline/loss.py',E+'__init__.py'],[('copies on entry','Simulator.__init__, BaseCellWrapper.__init__, UnscentedKalmanFilter.__init__'),('fresh results','EquivalentCircuitModel')],[],['all objects before and after each operation'])
add('C21','The physics-library adapter hands over and returns the right cell',
 'For each batch member the adapter to the external Thevenin solver passes exactly that member\'s state of charge, ambient temperature, branch voltages and parameters, with the load current of that step with opposite sign and its duration, and stores the solution back in the same member. Parameter polynomials evaluate to the sum of their coefficients times powers of state of charge (and temperature offset), for the coefficients of that member. The terminal voltage it reports is the open-circuit voltage plus ohmic drop minus branch voltages.',
 ['inputs','configurations'],'every batch size of states and parameters, number of branches, polynomial order, current and duration',
 'The external solver is not installed where the reliable tests run, so none of them reaches the adapter.',
 ['moirae/models/thevenin/__init__.py','moirae/models/thevenin/components.py','moirae/models/thevenin/state.py'],[('adapter','TheveninModel'),('polynomials','SOCPolynomialVariable, SOCTempPolynomialVariable')],[],['update_transient_state','calculate_terminal_voltage','parameter functions'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
