from driver import Unit
PROPS = {
 'C01': dict(note='Projection, side and distance contracts of all three boundary classes proved for every input (unbounded); configuration constructors included through a trusted configuration map.',
     units=[Unit('C01_boundary.cpp')]),
 'C02': dict(note='Parameters in range, first-order optimality, convexity lemma and point/distance consistency proved on every path for all segments; machine-epsilon thresholds are infinitesimals.',
     units=[Unit('C02_segseg.cpp', harnesses=['segseg', 'segseg_points', 'kkt']),
                    Unit('C02_segseg.cpp', harnesses=['segseg_overload'], tag='_ov',
                         contracts=[(r'DCPQuery<.*>::operator\(\)\(.*double&, double&\)', 'ct_query')])]),
 'C03': dict(note='Foot on segment, distance and optimality proved for all points and segments.',
     units=[Unit('C03_pointseg.cpp')]),
 'C12': dict(note='All pairs; the closest-point queries are used through the contracts proved for C02/C03 and the stress kernel through that of C19.',
     units=[Unit('C12_pair.cpp', contracts=[(r'^DCPQuery<.*>::operator\(\)\(.*double&, double&\)', 'ct_seg3'), (r'^DCPQuery<.*>::operator\(\)', 'ct_seg3b'), (r'^double DistPointSeg<', 'ct_point3'), (r'CalcSylinderNearForce::collideStress', 'ct_stress')])]),

 'C13': dict(note='The real pair loop with recording contracts for the three pair functions; proved for particle lists of every length (loops cut by recurrence summaries).', units=[Unit('C13_loop.cpp', harnesses=['pairloop'], contracts=[(r'CalcSylinderNearForce::sp_sp\(', 'ct_spsp'), (r'CalcSylinderNearForce::sp_sy\(', 'ct_spsy'), (r'CalcSylinderNearForce::sy_sy\(', 'ct_sysy'), (r'std::deque<ConstraintBlock.*>::(push_back|emplace_back)', 'ct_push')])]),
 'C16': dict(note='Search radius and copied data for all particle sizes and orientations.', units=[Unit('C13_loop.cpp', harnesses=['particle', 'search'])]),
 'C14': dict(note='All positions, unit quaternions, velocities and time steps; sin/cos are uninterpreted functions with the Pythagorean identity.', units=[Unit('C14_kinematics.cpp')]),
 'C15': dict(note='All random numbers and radii.', units=[Unit('C15_random.cpp')]),
 'C19': dict(note='Tensor assembly proved against arbitrary positive moment tensors; the moment tensors themselves against direct integration formulas.', units=[Unit('C19_stress.cpp', contracts=[(r'CalcSylinderNearForce::InitializeSyN\(', 'ct_N'), (r'CalcSylinderNearForce::InitializeSyGA\(', 'ct_G')], harnesses=['assembly'], tag='_a'), Unit('C19_stress.cpp', harnesses=['moments'])]),
 'C18': dict(note='All boxes, positions and targets, any number of periods away (loops cut).', units=[Unit('C18_pbc.cpp')]),
 'C22': dict(note='All particle numbers (loops cut) and values.', units=[Unit('C22_forces.cpp')]),
 'C21': dict(note='All sizes and viscosities (log uninterpreted).', units=[Unit('C21_drag.cpp')]),
 'C20': dict(note='All particle numbers, shapes, orientations and distributions over processes (loops cut; drag coefficients through the contract of C21, offsets of the distribution arbitrary).', units=[Unit('C20_mobility.cpp', harnesses=['mobility'], contracts=[(r'Sylinder::calcDragCoeff', 'ct_drag')]), Unit('C20_mobility.cpp', harnesses=['maps', 'twoblock', 'fromvector'], tag='_m')]),
 'C24': dict(note='All particle numbers (loop cut), shapes and positions and two arbitrary boundaries (through the contract of C01); std::deque of blocks replaced by a recording contract.', units=[Unit('C24_boundary.cpp', harnesses=['two'])]),
 'C07': dict(note='Any number of blocks in two queues (loops cut); std::deque of blocks and the Tpetra containers are stand-ins, sort/unique through a library contract.', units=[Unit('C07_collector.cpp', contracts=[(r'^void std::sort<', 'ct_sort'), (r'std::unique<', 'ct_unique'), (r'^std::vector<int, .*::push_back', 'ct_pushint')])]),
}

NA = {
 'C30': 'the search is the tree code of a third-party template library (FDPS) over MPI and Boost-like metaprogramming, outside the reach of the VC generator; the part decided by this repository (search radius, data copied) is C16, the pair loop C13',
 'C31': 'convergence is a statement about limits of sequences over unboundedly many iterations; no pre/postcondition within reach of the back ends expresses it (C08 states what holds whenever an iteration stops)',
 'C32': 'the verified IR is the sequential meaning of the OpenMP regions; the contract logic has no ownership or interleaving semantics for OpenMP, so race freedom cannot be stated as an obligation',
}
PROPS['C10'] = dict(note='All sizes, vectors (one or two columns), alpha and beta; the three linear operators are abstract.', units=[Unit('C10_operator.cpp', harnesses=['apply'])])
PROPS['C11'] = dict(note='All constraint numbers and values (operators abstract, constraint collector through the contract of C07, both iterative solvers through the part of C08 used here).', units=[Unit('C10_operator.cpp', harnesses=['solve'], tag='_s', contracts=[(r'ConstraintCollector::buildConstraintMatrixVector', 'ct_build'), (r'ConstraintCollector::writeBackGamma', 'ct_wb'), (r'BCQPSolver::solveBBPGD', 'ct_bbpgd'), (r'BCQPSolver::solveAPGD', 'ct_apgd')])])
P_ = (r'^std::deque<std::array<double, 6.*>::(push_back|emplace_back)', 'ct_push')
I_ = [P_, (r'Tpetra::Vector<.*>::dot\(', 'ct_dot'), (r'Tpetra::Vector<.*>::(norm2|norm1|normInf)\(', 'ct_norm'), (r'BCQPSolver::checkProjectionResidual', 'ct_residual'), (r'BCQPSolver::boundProjection', 'ct_project')]
PROPS['C08'] = dict(note='Projection, residual, default bounds: all sizes and values. BBPGD: any iteration limit and number of iterations (loop cut), one arbitrary component followed, products and norms arbitrary. APGD: bounded native runs only.',
    units=[Unit('C08_bcqp.cpp', harnesses=['defaults', 'project', 'residual'], contracts=[P_]), Unit('C08_bcqp.cpp', harnesses=['bbpgd'], tag='_i', contracts=I_), Unit('C08_bcqp.cpp', harnesses=['apgd'], tag='_a', opts=dict(native_only=True), native_n=(6000, 100000))],
    bounded=['apgd: solveAPGD is not proved; its contract is run natively on random problems of 1 to 5 unknowns and 1 to 60 iterations'])
PROPS['C26'] = dict(note='All orientations, drag coefficients, temperatures and time steps; layout, immovable particles and frame for any number of particles, covariance for one generic particle. The Cholesky factorisation and the drag coefficients enter through contracts.',
    bounded=['moving: the covariance is proved symbolically for a system of one particle (natively for 1 to 4); its entries in the vector for any number of particles are in layout'], units=[Unit('C26_brown.cpp', contracts=[('Sylinder::calcDragCoeff', 'ct_drag'), (r'Eigen::LLT<.*>::compute<', 'ct_llt'), ('EquatnHelper::rotateEquatn', 'ct_rot')])])
