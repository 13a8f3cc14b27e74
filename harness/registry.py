"""Which function decides which property"""
CHECKS = {
    'C01': ('d_params', 'c01'),
    'C02': ('d_params', 'c02'),
    'C03': ('d_containers', 'c03'),
    'C04': ('d_ecm', 'c04'),
    'C05': ('d_ecm', 'c05'),
    'C06': ('d_ecm', 'c06'),
    'C07': ('d_ecm', 'c07'),
    'C08': ('d_sim', 'c08'),
    'C09': ('d_sim', 'c09'),
    'C10': ('d_filters', 'c10'),
    'C11': ('d_filters', 'c11'),
    'C12': ('d_estim', 'c12'),
    'C13': ('d_estim', 'c13'),
    'C14': ('d_estim', 'c14'),
    'C15': ('d_online', 'c15'),
    'C16': ('d_online', 'c16'),
    'C17': ('d_loss', 'c17'),
    'C18': ('d_extract', 'c18'),
    'C19': ('d_serial', 'c19'),
    'C20': ('d_isolate', 'c20'),
    'C21': ('d_thevenin', 'c21'),
}

# What each check assures (for MANIFEST.json)
NOTES = {
    'C01': 'Params.tla: TLC explores every sequence of marking/writing on a small tree (agreement of names, order, counts, values is an invariant), '
           'then replays histories taken from that state graph and seeded random trees/markings on the real classes; observations must equal the specification exactly. '
           'Bounded by the sampled trees and histories.',
    'C02': 'Params.tla: TLC explores all sequences of writes, refusals and copies on a small tree, then replays generated and seeded random histories over several '
           'descriptions (including shared templates) on the real classes, comparing every stored value of every description exactly after each action. '
           'Bounded by the sampled trees and histories.',
    'C03': 'Containers.tla: TLC explores packing, unpacking, copying and mutation of a small container (round trip and isolation are invariants), then replays '
           'generated and seeded random histories of real containers and compares them exactly. Bounded by the sampled layouts and histories.',
    'C04': 'Ecm.tla: TLC explores a small circuit with exact rational-like arithmetic (conservation and telescoping are invariants), then replays recorded sequences of '
           'steps of random real circuits; charges must equal those of the specification within 1e-9. Bounded by the sampled circuits and sequences.',
    'C05': 'Ecm.tla: closed-form relaxation and hysteresis evaluated in 40-digit arithmetic; TLC checks boundedness and the zero-duration and equal-current laws on a small '
           'circuit and replays recorded steps of random real circuits. Bounded by the sampled circuits and sequences.',
    'C06': 'Ecm.tla and Interp.tla: tables (every interpolation style and extension), temperature laws, sum of elements and energy are evaluated by the specification for '
           'recorded evaluations of random real circuits. Bounded by the sampled circuits and states.',
    'C07': 'Batch.tla: results of the real code for each member alone are replayed as the specification of the batch; every assignment of batched or shared '
           'quantities is sampled. Relational: the single-cell results are decided by C04-C06.',
    'C08': 'Simulator.tla: TLC explores simulators of a small integer model exhaustively (histories grow, records consistent), then replays generated and random histories '
           'of the real Simulator with the same model, compared exactly, and relational histories of real circuits.',
    'C09': 'Simulator.tla defines the table and the datasets of a history; recorded tables of the real Simulator must be the same, exactly.',
    'C10': 'Gauss.tla: TLC explores chains of conversions and combinations of small distributions (round trips, linear and linearised rules, blocks are invariants), then '
           'replays generated histories of the real distributions and operators in 40-digit arithmetic. Bounded by the sampled operators and chains.',
    'C11': 'Ukf.tla: the scaled unscented transform in 40-digit arithmetic; TLC checks on small models that it is the exact Kalman filter for linear ones and keeps '
           'covariances valid, then replays every step of recorded real filters of random polynomial models. Bounded by the sampled models, tunings and sequences.',
    'C12': 'Estimator.tla: TLC runs joint and dual estimators in several coordinate systems side by side (equal estimates in physical units is an invariant), then replays '
           'recorded real estimators of a non-linear toy cell with random converters, step by step. Bounded by the sampled converters and sequences.',
    'C13': 'Estimator.tla: joint estimation of a non-linear toy cell with ageing (names, vectors and objects agree, unselected parameters stay: invariants); recorded real '
           'estimators, wrappers and objects are replayed in 40-digit arithmetic. Bounded by the sampled selections and sequences.',
    'C14': 'Estimator.tla: dual estimation of a non-linear toy cell with ageing; recorded real estimators are replayed step by step in 40-digit arithmetic, including which '
           'estimate each filter runs on. Bounded by the sampled selections and sequences.',
    'C15': 'Online.tla: TLC runs the driver row by row next to an estimator stepped by hand, with a failure after any row (alignment and completeness are invariants); '
           'recorded runs of the real driver with the integer estimator of the specification (in memory, streamed, failing) are replayed exactly, and real joint and dual '
           'estimators are compared with stepping by hand. Bounded by the sampled datasets.',
    'C16': 'Store.tla: TLC explores every history of one or two writers (sizes, refusals, cycles in any order; exactness of steps and first-of-cycle are invariants), then '
           'replays generated and random histories of real files, and interrupted runs, comparing what is on disk and what readers get exactly. Bounded by the sampled histories.',
    'C17': 'Loss.tla: losses of a toy cell as functions of a vector; TLC checks on simulated data that the truth is best, offsets are squared, values do not depend on '
           'earlier evaluations; recorded batches, minimisations and writes of the caller are replayed in 40-digit arithmetic, and losses of real circuits are '
           'compared with predictions of the model itself. Bounded by the sampled datasets and vectors.',
    'C21': 'Thevenin.tla: what is handed over per member, for an arbitrary solver; TLC runs batches next to their members alone (equality and charge are invariants); '
           'recorded runs of the real adapter against a stand-in for the solver, and of the polynomials, are replayed in 40-digit arithmetic. The solver itself is not covered.',
    'C18': 'Extract.tla: the weighted least-squares spline and the capacity of cycles in 40-digit arithmetic; TLC adds rows one by one (exactness on splines, scaling, '
           'order and weights are invariants); recorded extractions from random datasets, refused ones included, are compared. Bounded by the sampled datasets.',
    'C19': 'Serial.tla: TLC runs every history of marking, evaluating, writing and reading back of a small tree (the copy says and does the same, and is on its own: '
           'invariants), then random histories of real trees, circuits, states, inputs and outputs are replayed: what is read back must have every value, shape, mark and '
           'option, evaluate and simulate the same, and live on independently. Bounded by the sampled objects and histories.',
    'C20': 'Isolate.tla: objects of a caller in versions, and users whose answers are functions of the versions they were given; TLC shows that copying on entry ensures it and '
           'that sharing does not. Recorded worlds (simulators, estimators, filters, losses, models on the same objects, changed in between) must show objects changed by nobody '
           'else, and the same answers when each user is run again alone. Bounded by the sampled worlds.',
}
