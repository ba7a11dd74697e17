p('C01', 'Boundary projection: nearest surface point and push direction',
  "For every spherical, planar or tubular boundary and every query point whose nearest surface point is unique, the projection returned is the nearest point of that surface; plane normals and tube axes of any non-zero length are accepted and act as directions only. The returned displacement has length equal to the distance between query and projection and points along the surface normal towards the side where particles are allowed, whichever side the query is on. The same holds whether the boundary is built from explicit parameters or from a configuration.",
  'input', 'all centres, radii, normals/axes, sides and query points with a unique nearest surface point',
  'the unit test samples random queries for a few hand-picked boundaries; a wrong side, a missing normalisation or a special region of space needs specific geometry',
  ['Boundary/Boundary.cpp', 'Boundary/Boundary.hpp'],
  [('project', 'Boundary/Boundary.cpp SphereShell/Wall/Tube::project'), ('initialize', 'Boundary/Boundary.cpp *::initialize')],
  observe=['project/delta arguments of Boundary::project'])
p('C02', 'Segment-segment query returns a globally closest pair of points',
  "For every two line segments in 3D, including parallel, intersecting, touching and zero-length ones, the query returns parameters in [0,1], the points at these parameters on the two segments, and their distance. No other pair of points of the two segments is closer. The variant that does not return the parameters gives the same points and distance.",
  'input', 'all pairs of segments (12 real coordinates), degenerate ones included',
  'tests sample random segments; each of the many region/edge cases of the algorithm (parallel, degenerate, clamped on each of four edges) has its own code and most have measure zero or small volume',
  ['Collision/DCPQuery.hpp'],
  [('closest-point search on the unit square', 'Collision/DCPQuery.hpp DCPQuery::operator(), GetClampedRoot, ComputeIntersection, ComputeMinimumParameters')],
  observe=['return value, Ploc, Qloc, s, t'])
p('C03', 'Point-segment query returns the closest point of the segment',
  "For every point and every segment, including zero-length segments, the query returns a point that lies on the segment and the distance to it. No other point of the segment is closer to the query point.",
  'input', 'all points and segments', 'tests sample a few; end-point regions and degenerate segments are special cases',
  ['Collision/DCPQuery.hpp'], [('DistPointSeg', 'Collision/DCPQuery.hpp DistPointSeg')], observe=['return value, pointPerp'])
p('C12', 'Every close pair of particles yields one correct constraint block',
  "For every pair of particles (spheres, spherocylinders or one of each) the pair function reports a constraint exactly when the separation of the two collision surfaces is smaller than the sum of the two collision buffers (effective collision radius times buffer fraction). A reported block holds the surface separation as its initial value, the overlap depth (0 if separated) as its initial force guess, opposite unit normals along the line between the closest points of the two axes pointing away from the other particle, contact points given both in the lab frame and relative to the particle centres, the global ids and matrix indices of the two particles on their own sides, and is two-sided, unilateral and spring-free. The block stores, row by row, the stress (C19) of the pair's collision shapes (a sphere-like particle being a sphere of its effective radius) at its contact points for unit density.",
  'input', 'all positions, orientations, sizes and buffers of two particles, both argument orders of the mixed pair',
  'the regression tests exercise a handful of configurations; wrong sides, swapped arguments or wrong region decisions need particular relative geometry',
  ['Sylinder/SylinderNear.hpp', 'Constraint/ConstraintBlock.hpp', 'Collision/DCPQuery.hpp'],
  [('pair functions', 'Sylinder/SylinderNear.hpp CalcSylinderNearForce::sp_sp, sp_sy, sy_sy')], observe=['ConstraintBlock filled in and returned flag'])
p('C13', 'Near pairs are evaluated exactly once and collisions are collected',
  "For every list of target and source particles, of any lengths, each (target, source) combination in which the target has the smaller global id is evaluated exactly once by the pair function matching the shapes of the two particles, and no other combination is evaluated. Exactly the pairs reported as collisions are added to the collector, once each, and the force and torque accumulators of all targets are cleared.",
  'input', 'all particle lists of every length, all shape and id combinations',
  'tests use a few small lists; a pair lost or duplicated depends on particular id order and shape combinations',
  ['Sylinder/SylinderNear.hpp'],
  [('pair loop', 'Sylinder/SylinderNear.hpp CalcSylinderNearForce::operator()')], observe=['pair functions called, blocks in the pool'])
p('C14', 'Rigid-body Euler step: translation, rotation and preserved state',
  "For every particle state with a unit quaternion and every time step, the Euler step moves the centre by velocity times dt and rotates the orientation by the rotation vector omega times dt applied in the lab frame; the orientation stays a unit quaternion and is unchanged when the angular velocity is negligible. Nothing else in the particle (sizes, ids, group, velocities, forces) changes. A new particle starts with zero velocities and forces and, by default, at the origin with identity orientation; clearing a particle zeroes its velocities and forces only.",
  'input', 'all positions, unit quaternions, velocities, angular velocities and time steps', 'tests sample a few rotations; component order, handedness and the small-rotation branch need specific values',
  ['Sylinder/Sylinder.cpp', 'Sylinder/Sylinder.hpp', 'Util/EquatnHelper.hpp'],
  [('Euler step', 'Sylinder/Sylinder.cpp Sylinder::stepEuler'), ('rotation', 'Util/EquatnHelper.hpp EquatnHelper::rotateEquatn')], observe=['position and orientation after the step'])
p('C15', 'Random placement helpers map random numbers onto their exact sets',
  "For all random numbers in [0,1] the random orientation is a unit quaternion (with the weights and phases of the uniform distribution), the random point in a circle of radius R lies inside it with radius growing as the square root of its random number, and the random point on a sphere of radius R lies on the sphere with height uniform in its random number; polar angles are 2 pi times the random number.",
  'input', 'all random numbers in [0,1] and all radii', 'statistical tests see only averages; an exact identity for each random number cannot be sampled',
  ['Util/EquatnHelper.hpp', 'Util/GeoUtil.hpp'],
  [('random orientation', 'Util/EquatnHelper.hpp setUnitRandomEquatn'), ('random points', 'Util/GeoUtil.hpp getRandPointInCircle, getRandPointOnSphere')], observe=['returned quaternion or point'])
p('C16', 'Neighbour search radius covers every pair in contact; data copied intact',
  "For any two particles with the same collision buffer whose collision surfaces overlap, touch or are closer than the sum of their collision buffers (effective collision radius times buffer fraction), their centre distance is not larger than the larger of the two search radii, so the symmetric neighbour search presents the pair. The neighbour-search copy of a particle holds its position, collision and physical sizes, ids, rank, buffer, and the direction its orientation rotates the z axis to; moving either copy sets its position.",
  'input', 'all particle sizes, positions and orientations', 'tests use one size and shape; a radius that is too small only shows with particular mixtures of sizes',
  ['Sylinder/SylinderNear.hpp', 'Sylinder/Sylinder.hpp'],
  [('search radius', 'Sylinder/SylinderNear.hpp SylinderNearEP::getRSearch'), ('copy', 'Sylinder/SylinderNear.hpp SylinderNearEP::copyFromFP')], observe=['getRSearch, copied members'])
p('C19', 'Collision stress kernel equals virial plus rotational part of both bodies',
  "For every pair of spherocylinders in contact, the stress of a unit contact force equals the sum over both bodies of centre times force plus the moment tensor contracted with the angular acceleration caused by the contact torque, where the moment and inertia tensors are those of a solid spherocylinder of the given radius, cylinder length and density.",
  'input', 'all directions, centres, contact points, radii, lengths, densities', 'tests print values only; a wrong coefficient, sign or index changes no test verdict',
  ['Sylinder/SylinderNear.hpp'],
  [('stress kernel', 'Sylinder/SylinderNear.hpp CalcSylinderNearForce::collideStress, InitializeSyN, InitializeSyGA')], observe=['stress matrix'])
p('C21', 'Drag coefficients: Stokes for spheres, slender-body for rods',
  "For every particle size and viscosity, a particle whose length is less than its diameter has the Stokes translational and rotational drag of a sphere with radius R + L/2, and any longer one the slender-body drags with the logarithm of its aspect ratio; parallel, perpendicular and rotational coefficients are returned in that order. The sphere test uses the physical sizes by default and the collision sizes on request.",
  'input', 'all radii, lengths and viscosities', 'no test checks drag values; a wrong coefficient shows only as a wrong speed in a simulation',
  ['Sylinder/Sylinder.cpp'], [('drag', 'Sylinder/Sylinder.cpp Sylinder::calcDragCoeff, isSphere')], observe=['dragPara, dragPerp, dragRot'])
p('C18', 'Periodic images: wrap into the box and nearest image of a target',
  "For every interval with lower bound below upper bound and every position, however many periods away, wrapping gives a position in the half-open interval that differs from the original by a whole number of periods, and leaves a position already inside unchanged. The nearest-image search wraps the target into the interval and gives an image of the position that differs from it by a whole number of periods and is at most half a period away from the wrapped target.",
  'input', 'all intervals, positions and targets', 'a test samples positions at most a period or two away in one box; a non-zero lower bound or an exact tie needs specific values',
  ['Util/GeoUtil.hpp'], [('image search', 'Util/GeoUtil.hpp findPBCImage')], observe=['image of the position, image of the target'])
p('C22', 'Velocity and force bookkeeping between solver vectors and particles',
  "For any number of particles, the total velocity of each particle is the sum of its non-Brownian, Brownian, collision and bilateral velocities and its total force the sum of its non-Brownian, collision and bilateral forces; the collision and bilateral parts stored in a particle are the six entries belonging to it in the unilateral and bilateral solver results. The velocity without constraints is mobility times the given force plus the given velocity plus the Brownian velocity, the first two being stored as the particle's non-Brownian velocity and the given force as its non-Brownian force; values given from outside are kept in particle order, six per particle. In monolayer mode the velocity without constraints has no out-of-plane translation and no in-plane-axis rotation and no such part enters a particle's total velocity.",
  'input', 'all particle numbers, all values, with and without given forces, velocities, Brownian motion and monolayer mode', 'the system tests are not run; a swapped component or a dropped part shows only as a slightly wrong trajectory',
  ['Sylinder/SylinderSystem.cpp', 'Trilinos/TpetraUtil.cpp'],
  [('velocity without constraints', 'Sylinder/SylinderSystem.cpp calcVelocityNonCon'), ('constraint results', 'Sylinder/SylinderSystem.cpp saveForceVelocityConstraints'), ('sum', 'Sylinder/SylinderSystem.cpp sumForceVelocity'), ('given values', 'Sylinder/SylinderSystem.cpp setForceNonBrown, setVelocityNonBrown')], observe=['velocity and force members of the particles, velocity without constraints'])

p('C20', 'Mobility matrix: slender-body resistance law of each particle',
  "For any number of particles with unit orientations and any distribution over processes, the mobility operator has six rows and columns per local particle and couples no two particles; a particle's velocity is its force projected on its axis divided by the parallel drag plus the rest divided by the perpendicular drag, its angular velocity the torque divided by the rotational drag, and an immovable particle gets zero velocity. The global index of a particle counts the particles of all processes in order. Two block vectors are joined block by block, with the first block's global indices first.",
  'input', 'all particle numbers, shapes, orientations, immovable flags and distributions', 'the tests never build a mobility matrix; a wrong row pattern or a wrong drag for one shape shows only as a wrong trajectory',
  ['Sylinder/SylinderSystem.cpp', 'Trilinos/TpetraUtil.cpp'],
  [('mobility', 'Sylinder/SylinderSystem.cpp calcMobMatrix, calcMobOperator, updateSylinderMap'), ('maps and block vectors', 'Trilinos/TpetraUtil.cpp getTMAPFromLocalSize, getTMAPFromTwoBlockTMAP, getTVFromTwoBlockTV, getTVFromVector')], observe=['entries of the mobility matrix, globalIndex, joined vectors'])

p('C24', 'Every particle end beyond or near a boundary yields one constraint',
  "For any number of particles and each boundary in the list, a particle that is a sphere for collisions is tested at its centre with radius R + L/2 and any other at both end points with radius R (collision sizes); exactly the tested points that are outside the boundary or closer to it than radius times (1 + 2 times the collision buffer) yield one constraint each. It is one-sided and unilateral with zero initial force, carries the particle's global id and index, the signed distance minus the radius as separation, the unit direction towards the allowed side, the tested point and its projection as contact points and the lever arm from the centre. The tested points lie at a non-zero distance from the boundary surface.",
  'input', 'all particle numbers, shapes and positions, two arbitrary boundaries', 'no test collects boundary collisions; a missed end or a wrong sign shows only for particular poses and shapes',
  ['Sylinder/SylinderSystem.cpp', 'Constraint/ConstraintBlock.hpp'],
  [('boundary collisions', 'Sylinder/SylinderSystem.cpp collectBoundaryCollision')], observe=['blocks added to the constraint pool'])
p('C07', 'Constraint blocks become exactly their rows, entries and forces, and back',
  "For two queues holding any numbers of constraint blocks, the assembled problem has exactly one row per block in queue order: six entries for body I (normal and lever arm cross normal) and, unless one-sided, six for body J, in the columns of the bodies' velocity components, together with separation, initial force, bilateral flag and inverse spring constant (zero for rigid or unilateral constraints). Writing the solution back gives every block its own force, scales its stress by it and leaves everything else unchanged. The stress sums are those over exactly the unilateral and the bilateral blocks, one-sided ones only on request, and counts and start indices of the queues are exact, and zero after clearing.",
  'input', 'any number of blocks in two queues with arbitrary content', 'tests build only a few fixed constraints; an index shift shows only for particular queue sizes and kinds of constraint',
  ['Constraint/ConstraintCollector.cpp', 'Constraint/ConstraintCollector.hpp', 'Constraint/ConstraintBlock.hpp'],
  [('matrix and vectors', 'Constraint/ConstraintCollector.cpp buildConstraintMatrixVector'), ('write back', 'ConstraintCollector.cpp writeBackGamma'), ('stress sums', 'ConstraintCollector.cpp sumLocalConstraintStress')], observe=['matrix rows, vectors, block contents'])

p('C08', 'Bound-constrained solver: feasible result with its own recorded residual',
  "For every problem size, vector and pair of bounds with lower <= upper, projection moves each entry to the nearest value within its bounds, bounds not set mean no bound, and the residual is the norm of the projected gradient (the gradient with the components removed that point out of the bounds at an entry that is at its bound). From every initial guess within the bounds an iterative solve returns one value per unknown within the bounds, never uses more iterations than allowed, and stops early only on convergence or reported stagnation. The residual recorded last is the one of the vector returned, so a recorded residual below the tolerance means that the vector returned meets the optimality conditions to that tolerance.",
  'input', 'all sizes, bounds, right-hand sides, initial guesses, tolerances, iteration limits and operators',
  'the tests solve a few well-conditioned random problems to convergence; entries exactly at a bound, a limit reached, stagnation or a mismatch between returned and recorded iterate do not occur there',
  ['Constraint/BCQPSolver.cpp', 'Constraint/BCQPSolver.hpp'],
  [('projection and residual', 'Constraint/BCQPSolver.cpp boundProjection, checkProjectionResidual, setDefaultBounds'), ('iterations', 'Constraint/BCQPSolver.cpp solveBBPGD, solveAPGD')],
  observe=['solution vector, residual history, return code'])
p('C10', 'Constraint operator: Y = alpha (D^T M D + K^-1) X + beta Y',
  "For every number of constraints and degrees of freedom, every vector X and Y (also several columns) and every alpha and beta, applying the constraint operator gives alpha times (transpose of D applied to the mobility applied to D applied to X, plus the inverse stiffnesses times X) plus beta times Y, and does not change X. The force and velocity it reports are D applied to the vector of the last application and the mobility applied to that force.",
  'input', 'all sizes, vectors, columns, scalars and operators', 'no test covers the operator; wrong factors, a missing or misplaced term, or a result of the wrong column are numeric and silent',
  ['Constraint/ConstraintOperator.cpp', 'Constraint/ConstraintOperator.hpp'], [('apply', 'Constraint/ConstraintOperator.cpp ConstraintOperator::apply')], observe=['Y, getForce, getVel'])
p('C11', 'Constraint solve: correct problem posed, forces match the solution',
  "For every set of constraints and free motion the problem posed to the quadratic solver has as linear term the separations divided by the time step plus the normal velocities of the free motion, as operator the constraint operator, non-negative unknowns for one-directional constraints and unrestricted unknowns for bidirectional ones, and as initial guess the constraints' own magnitudes. The forces and velocities reported afterwards, split into one-directional and bidirectional parts, are those of the returned solution, whatever iterate the solver stopped at; the parts add up to the total. The solution is written back to exactly the constraints that were solved.",
  'input', 'all constraint sets, free velocities, time steps, solver choices, iteration limits and solver results',
  'no test covers the constraint solver; a wrong sign or a force belonging to another iterate changes trajectories silently, and only when the solver stops early',
  ['Constraint/ConstraintSolver.cpp', 'Constraint/ConstraintSolver.hpp'], [('setup', 'Constraint/ConstraintSolver.cpp setup, setControlParams'), ('solve', 'Constraint/ConstraintSolver.cpp solveConstraints, writebackGamma')],
  observe=['problem passed to the solver, getForceUni/Bi, getVelocityUni/Bi, written magnitudes'])

p('C26', 'Brownian velocities satisfy the fluctuation-dissipation relation',
  "For every particle that is not immovable and independent standard normal draws, the Brownian velocity has the covariance 2 kBT/dt times the mobility of that particle (translation 1/parallel drag along the axis and 1/perpendicular drag across it, rotation 1/rotational drag, no coupling between the two); immovable particles get none. For any number of particles the vector of Brownian velocities holds the six entries of each particle in particle order, and bodies, forces and other velocity parts are unchanged.",
  'input', 'all orientations, drag coefficients, temperatures, time steps and particle numbers', 'no test runs it; a wrong prefactor or swapped coefficient changes only the statistics of long trajectories',
  ['Sylinder/SylinderSystem.cpp'], [('Brownian velocity', 'Sylinder/SylinderSystem.cpp calcVelocityBrown')], observe=['velBrown, omegaBrown, vector of Brownian velocities'])

p('C30', 'Neighbour search presents every pair within the search radius',
  "For every distribution of particles over processes and every periodic box, the neighbour search presents to the pair function every pair of particles (or their periodic images) whose centres are closer than the larger of their search radii.",
  'schedule', 'all particle distributions, boxes and process counts', 'tests use a few hundred particles in one box', ['Sylinder/SylinderSystem.cpp'], [('neighbour search', 'Sylinder/SylinderSystem.cpp collectPairCollision, updatesylinderNearDataDirectory; FDPS/')], observe=['pairs presented'])
p('C31', 'Iterative solvers converge on convex problems',
  "For every symmetric positive definite operator and feasible bounds the iterative solvers reach any positive tolerance if allowed enough iterations.",
  'input', 'all convex problems', 'tests use a few problem sizes', ['Constraint/BCQPSolver.cpp', 'Constraint/CPSolver.cpp'], [('iterations', 'Constraint/BCQPSolver.cpp, Constraint/CPSolver.cpp')], observe=['residual history'])
p('C32', 'Results do not depend on the thread schedule',
  "For every number of threads and every interleaving, the parallel loops over particles and constraints are free of data races and give the result of sequential execution up to the order of summation and of the constraint queues.",
  'schedule', 'all thread counts and interleavings', 'tests run a handful of schedules', ['Sylinder/SylinderSystem.cpp', 'Constraint/ConstraintCollector.cpp'], [('parallel loops', 'all omp parallel regions')], observe=['positions and forces after a step'])
