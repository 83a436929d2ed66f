"""Source of properties.jsonl and MANIFEST.json (bin/mkmeta.py writes both)."""
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, level_note, claimed=True, level='model_checking', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, level_note=level_note, level=level, na=na))
SEQ = 'exhaustive enumeration of operation sequences on the real library, compared with a reference model after each operation'
prop('C01', 'Body container: ids, slots and liveness',
 'Each body gets the smallest fresh id on append, keeps that id for life, is found under it and under no other, and is iterated exactly once in id order; insertion at an id works only for a free slot inside the container. After erase the id is vacant, lookups and erases of vacant or non-existing ids are refused without side effects, and a body that is already in the container is refused. The count, membership test, iteration and lookup agree after any history.',
 ['histories', 'inputs'], 'all sequences of append, list append, insert-at-id, erase, re-append, clear and step up to the depth bound, including ids out of range',
 'tests append a handful of bodies in one order; slot reuse and refused operations after arbitrary erase histories are not sampled',
 ['core/BodyContainer.cpp', 'core/BodyContainer.hpp', 'py/wrapper/yadeWrapper.cpp'],
 [('insert/insertAtId/erase', 'core/BodyContainer.cpp'), ('O.bodies', 'py/wrapper/yadeWrapper.cpp')], SEQ,
 'bounded-exhaustive on the real container; assumes single-threaded use and spheres')
prop('C02', 'Interaction container: all views agree over any history',
 'There is at most one interaction for a pair of bodies, found under both orders of the pair; the count, indexed access, iteration, membership test, pair lookup and the lists of both bodies show the same set of interactions. After a body is erased, replaced at its id or re-inserted, or interactions are reset, purged or cleared, none of the views shows a stale interaction, nothing is lost, and new contacts of a body that took over a freed id are detected in the next step.',
 ['histories'], 'all sequences of contact creation and reset, purge, clear, body erase / insert-at-id / append / re-append and steps up to the depth bound, on 4-5 bodies, with and without collider',
 'tests create and delete interactions in a few fixed orders; consistency of the redundant views depends on the history of swaps and id reuse',
 ['core/InteractionContainer.cpp', 'core/InteractionContainer.hpp', 'core/BodyContainer.cpp', 'core/Body.cpp'],
 [('insert/erase/requestErase/eraseNonReal/find', 'core/InteractionContainer.cpp'), ('Body::intrs', 'core/Body.hpp')], SEQ,
 'bounded-exhaustive on the real containers; single-threaded')
prop('C03', 'Clumps: membership and aggregate mass properties',
 'Every body is standalone, a clump, or a member of exactly one live clump, and the clump and its members agree about this after any sequence of clumping, adding, releasing and erasing. The mass, centre, inertia and orientation of a clump are those of the rigid body made of its (non-overlapping) members, bodies change neither position nor orientation by the operation itself, released bodies are as before clumping, and when the clump moves, its members follow rigidly.',
 ['histories', 'inputs'], 'all sequences of clump, add to clump, release, erase of members and clumps, append clumped, property update and kick+step up to the depth bound from three start scenes',
 'tests build one clump from a fixed list of spheres; regrouping histories, non-spherical members and left-handed principal axes are not sampled',
 ['core/Clump.cpp', 'core/Clump.hpp', 'py/wrapper/yadeWrapper.cpp', 'core/BodyContainer.cpp'],
 [('Clump::add/del/updateProperties/moveMembers', 'core/Clump.cpp'), ('O.bodies.clump/addToClump/releaseFromClump/erase', 'py/wrapper/yadeWrapper.cpp')], SEQ,
 'bounded-exhaustive on the real library with a rigid-body oracle; members do not overlap')
prop('C04', 'Forces: every contribution counted once, in any order',
 'The force and torque read for a body are the sum of all contributions since the last reset plus its permanent load, whatever the order of additions, reads, synchronisations, resets and growth of the scene, and the same holds for imposed moves and rotations. A reset forgets everything except permanent loads, a full reset those too, and contributions of one body never show up at another.',
 ['histories'], 'all sequences of additions, permanent loads, moves, resets, synchronised reads, steps and scene growth up to the depth bound, for dense and widely spaced ids',
 'tests add forces to one or two small ids; the lazily resized and synchronised storage behaves differently for other ids and histories',
 ['core/ForceContainer.hpp', 'py/wrapper/yadeWrapper.cpp', 'pkg/common/ForceResetter.hpp'],
 [('addForce/sync/reset/resize/setPermForce', 'core/ForceContainer.hpp'), ('O.forces', 'py/wrapper/yadeWrapper.cpp')], SEQ,
 'bounded-exhaustive; exact (dyadic) arithmetic')
prop('C05', 'Contact detection is complete and exact (no periodicity)',
 'After each step the real contacts are exactly the pairs of bodies that overlap geometrically, may collide according to their masks and clumps, and have a contact geometry, each with the right overlap. This holds for any motion, insertion, removal and id reuse, for every sort axis, and when detection is deferred (sweep distance, target interval) as long as bodies move by their velocities.',
 ['histories', 'configurations'], 'all bounded histories of jumps, erases, insertions and contact resets on lattice positions, and of piecewise constant velocities with deferred detection, over 13 scenes and 10 collider settings',
 'tests run a few packings where a missed contact is invisible; which bounds invert, and when detection may be skipped, depends on the whole history',
 ['pkg/common/InsertionSortCollider.cpp', 'pkg/common/InsertionSortCollider.hpp', 'pkg/common/Collider.cpp', 'pkg/common/Dispatching.cpp', 'pkg/common/Bo1_Aabb.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'pkg/common/InteractionLoop.cpp'],
 [('insertionSort/isActivated/action', 'pkg/common/InsertionSortCollider.cpp'), ('mayCollide', 'pkg/common/Collider.cpp'), ('BoundDispatcher::processBody', 'pkg/common/Dispatching.cpp'), ('saveMaximaDisplacement', 'pkg/dem/NewtonIntegrator.cpp')],
 'exhaustive enumeration of bounded motion histories on the real engines, each step compared with brute-force geometry',
 'bounded-exhaustive; at most 6 bodies; exact tangency excluded')
prop('C06', 'Contact detection in periodic, sheared and deforming cells',
 'In a periodic cell of any shape the real contacts after each step are exactly the pairs whose nearest periodic images overlap, with the image offset and overlap of that nearest image. This holds whatever images the bodies are in, while they cross the boundaries, while the cell deforms or is flipped, after insertions and removals, and when detection is deferred.',
 ['histories', 'configurations'], 'all bounded histories of moves, erases, appends and cell strain in 6 cell shapes, and of velocities, cell velocity gradients and cell flips with 5 settings of deferred detection, contacts of facets and spheres in all orders of ids and images, floors larger than the period, bodies appended around the corner of the cell',
 'tests use one orthogonal and one slightly sheared cell; boundary crossings combine with image counters and sort order in ways only long histories reach',
 ['pkg/common/InsertionSortCollider.cpp', 'core/Cell.cpp', 'core/Cell.hpp', 'pkg/common/Bo1_Aabb.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'pkg/dem/Shop_02.cpp'],
 [('insertionSortPeri/spatialOverlapPeri/handleBoundInversionPeri', 'pkg/common/InsertionSortCollider.cpp'), ('flipCell', 'pkg/dem/Shop_02.cpp'), ('shear/unshear', 'core/Cell.hpp')],
 'exhaustive enumeration of bounded motion histories on the real engines, each step compared with brute-force nearest images',
 'bounded-exhaustive; bodies smaller than half of the cell; moves below 0.15 cell per step')
prop('C07', 'Life of a contact: made, kept, ended and made anew',
 'A contact becomes real in the step in which its bodies come to overlap and records that step; while they overlap it stays the same contact and keeps its physics (also values changed by the user), and in the step in which they part, or in which one of them is erased, it is gone. A contact that was reset, cleared or purged comes back in the next step, with fresh physics, if the bodies still overlap. Normal, overlap, contact point, stiffness and normal force follow the current positions, and the force on each body is the sum over its contacts.',
 ['histories'], 'all sequences of moves, contact resets, clears and purges, user changes of contact physics, body erase and re-insertion, mask changes and save+load up to the depth bound, in 7 scenes (spheres, facet, wall, box, clump, reversed ids, enlarged detection)',
 'tests look at one contact while it exists; what is remembered, forgotten and re-created depends on the history of meetings and partings',
 ['pkg/common/InteractionLoop.cpp', 'core/InteractionContainer.cpp', 'core/Interaction.cpp', 'pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp', 'pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp', 'pkg/dem/ElasticContactLaw.cpp', 'pkg/dem/FrictPhys.cpp', 'pkg/dem/ScGeom.cpp'],
 [('InteractionLoop::action', 'pkg/common/InteractionLoop.cpp'), ('requestErase/eraseNonReal/clear', 'core/InteractionContainer.cpp'), ('precompute', 'pkg/dem/ScGeom.cpp')], SEQ,
 'bounded-exhaustive; FrictMat contacts; exact tangency excluded')
prop('C08', 'Engine loop: order, sub-steps, replacement of engines, time',
 'In each step every engine that is not dead runs exactly once, in the order of the engine list in force at the start of the step; a list assigned during a step takes effect from the next one. The step number grows by one and the time by the time step, the periodic cell is updated once per step, and running a step as sub-steps, or switching sub-stepping on or off at any moment, gives exactly the same. A background run stops after the step that reaches the requested step number or time.',
 ['histories'], 'all sequences of steps, sub-steps, sub-stepping switches, engine (de)activation and replacement from outside and inside the loop, time step changes, time resets and bounded background runs up to the depth bound',
 'tests step a simulation normally; replacement of engines in the middle of a (sub-)step and stop conditions are not sampled',
 ['core/Scene.cpp', 'core/SimulationFlow.cpp', 'py/wrapper/yadeWrapper.cpp', 'core/ThreadRunner.cpp'],
 [('moveToNextTimeStep', 'core/Scene.cpp'), ('singleAction', 'core/SimulationFlow.cpp'), ('engines_set', 'py/wrapper/yadeWrapper.cpp')], SEQ,
 'bounded-exhaustive; background runs under the schedule of the system')
prop('C09', 'A saved and loaded simulation is the same simulation',
 'A simulation saved between two steps and loaded again (XML or binary, plain or compressed, in memory, or memory dumped to a file) has the same bodies, materials and their sharing, contacts with their state, cell, engines, tags, energies, time and step, and continues exactly as the simulation that was never saved would, at whatever point of its history and however many times this is done.',
 ['histories', 'crash points'], 'a save+load after every operation of every bounded history (steps, kicks, erase, append, insert at a freed id, engine switched off, contact deleted, time reset), in 9 formats, for 6 scenes (basic, clumps, periodic, cohesive, facets with adaptive time step, tracked energy); for each contact law every sequence of 3 moves with save+load before each',
 'tests save and load one fresh scene and look at a few values; state which is lost shows only in what the simulation does later',
 ['lib/serialization/ObjectIO.hpp', 'core/Scene.cpp', 'core/Omega.cpp', 'core/InteractionContainer.cpp', 'core/BodyContainer.hpp', 'core/Cell.hpp', 'pkg/common/PeriodicEngines.hpp', 'pkg/dem/GlobalStiffnessTimeStepper.hpp', 'pkg/dem/CohesiveFrictionalContactLaw.hpp'],
 [('saveSimulation/loadSimulation', 'core/Omega.cpp'), ('ObjectIO', 'lib/serialization/ObjectIO.hpp'), ('postLoad', 'core/Scene.cpp')],
 'exhaustive enumeration of bounded histories; each is executed with and without save+load on the real library and the complete state is compared',
 'bounded-exhaustive; differential (the uninterrupted run is the oracle)')
prop('C10', 'Every attribute of every class survives storage',
 'For every class available to the user, every attribute and every value of its type that can be set reads back as it was set, and is unchanged after the object was stored and read back: in a simulation file of any format, in memory, pickled, or rebuilt from its dictionary. Numbers come back bit by bit, strings with any characters, sequences with their length, nested objects with their class.',
 ['inputs'], 'all classes x attributes x a per-type value set x 9 ways of storing; thorough: also all pairs of attributes',
 'tests store a few objects of a few classes; the set of attributes is generated by macros and any of ~2300 may be dropped',
 ['lib/serialization/Serializable.hpp', 'lib/serialization/Serializable.cpp', 'lib/serialization/ObjectIO.hpp', 'py/wrapper/customConverters.cpp', 'lib/base/openmp-accu.hpp', 'pkg', 'core'],
 [('_REGISTER_ATTRIBUTES_DEPREC', 'lib/serialization/Serializable.hpp'), ('custom converters', 'py/wrapper/customConverters.cpp')],
 'exhaustive enumeration of the finite space classes x attributes x values x storage formats on the real library',
 'exhaustive within the value sets; attributes not saved by design are listed in vf/data/nosave.json')
prop('C14', 'Firing schedule of periodic engines',
 'A periodic engine runs in exactly those steps in which one of its periods (steps, simulated time, wall clock) has elapsed since its last run, at most the prescribed number of times, and never while it is dead. Its first visit only starts the counting, unless an initial run or a first step is requested; a reset of time starts the schedule again. This holds whenever the engine is added and however the time step, the periods or the state of the engine change.',
 ['histories', 'configurations'], 'all sequences of steps, engine dead/alive, time step changes, time resets, wall-clock lapses and period changes up to the depth bound, for 210 engine settings at once',
 'tests run one engine with one period from the start',
 ['pkg/common/PeriodicEngines.hpp', 'pkg/common/PyRunner.hpp'],
 [('isActivated', 'pkg/common/PeriodicEngines.hpp')], SEQ,
 'bounded-exhaustive; dyadic times; the wall clock enters through the time of the last run')

prop('C11', 'Measures of the packing equal their definition',
 'Measures evaluated on a packing (kinetic energy, momentum, volumes, porosity, stress tensors, coordination numbers, forces on groups of bodies, unbalanced force, critical time step, contacts of a body, elastic energy, fabric, groups by mask) equal their documented definition summed over the bodies and contacts that exist at that moment. Erased bodies count nowhere, each clump counts once, and the value depends only on the present state, not on how the packing got there.',
 ['histories'], 'all sequences of steps, erases, appends, clumping and release, velocity and mask changes, growth and friction changes up to the depth bound, in 4 scenes; 30 measures after each operation',
 'tests evaluate a few measures on one fresh packing; holes left by erased bodies, clump members and stale contacts appear only after longer histories',
 ['pkg/dem/Shop_01.cpp', 'pkg/dem/Shop_02.cpp', 'py/_utils.cpp', 'py/utils.py'],
 [('Shop', 'pkg/dem/Shop_01.cpp'), ('Shop', 'pkg/dem/Shop_02.cpp'), ('utils', 'py/_utils.cpp')], SEQ, 'bounded-exhaustive; frictional spheres')
prop('C12', 'Contact laws: forces balance and are objective',
 'The forces which a contact exerts on its two bodies are opposite and their moments balance, in every step. A common rotation of the bodies turns the forces along. What a contact law gives does not depend on the frame: not on the orientation of the pair in space, a common velocity, a common rotation, the order of the two bodies, or whether the contact goes across a periodic boundary, also while the cell deforms and the bodies are many periods apart. The shear force never exceeds the Coulomb limit of frictional laws, and the linear law gives the elastic response with friction.',
 ['histories', 'configurations'], 'all sequences of approach, withdrawal, shear, spin, common rotation and change of the velocity gradient up to the depth bound, for 35 contact laws and variants (also between different materials) between spheres (open and periodic scene), one between sphere and grid connection, and 10 between sphere and facet, box (also with the centre of the sphere inside) or wall',
 'tests load a few laws along one axis in one frame; wrong signs for other orders, orientations and images cancel there',
 ['pkg/dem/ScGeom.cpp', 'pkg/dem/ElasticContactLaw.cpp', 'pkg/dem/HertzMindlin.cpp', 'pkg/dem/CohesiveFrictionalContactLaw.cpp', 'pkg/dem/ViscoelasticPM.cpp', 'pkg/dem/ConcretePM.cpp', 'pkg/dem/JointedCohesiveFrictionalPM.cpp', 'pkg/dem/L3Geom.cpp', 'pkg/dem/LudingPM.cpp', 'pkg/dem/Lubrication.cpp', 'pkg/dem/FrictViscoPM.cpp', 'pkg/dem/MortarMat.cpp', 'pkg/dem/ScGeom.hpp'],
 [('precompute/rotate/getIncidentVel', 'pkg/dem/ScGeom.cpp'), ('Law2 functors', 'pkg/dem/ElasticContactLaw.cpp'), ('intrShiftVel/intrShiftPos', 'core/Cell.hpp')], SEQ,
 'bounded-exhaustive; the copies of a pair are each other\'s oracle, the linear law also has a reference')
prop('C13', 'Laws of motion under every constraint and setting',
 'In each step every free body changes its velocity by the acceleration that its load, gravity and the numerical damping give, and its position and orientation by its new velocity; blocked degrees of freedom, bodies outside of the mask and clump members follow their rules (prescribed velocity kept, not integrated, moved with the clump). Aspherical bodies keep their angular momentum without load, clumps receive the loads of all members, bodies in a periodic cell follow its deformation, and gravity work and kinetic energies are tracked as defined. Orientations stay unit quaternions.',
 ['histories', 'configurations'], 'all sequences of load, gravity, damping, blocked DOF, mask, time step, velocity and velocity gradient changes up to the depth bound, in 7 settings, on a scene with all 64 sets of blocked DOFs, aspherical bodies and clumps',
 'tests follow one falling or rotating body with one setting; the integrator branches on combinations of shape, constraints, damping, mask, clump and cell settings',
 ['pkg/dem/NewtonIntegrator.cpp', 'pkg/dem/NewtonIntegrator.hpp', 'core/State.hpp', 'core/State.cpp', 'core/Clump.hpp', 'core/Cell.cpp'],
 [('action/leapfrogTranslate/leapfrogSphericalRotate/leapfrogAsphericalRotate', 'pkg/dem/NewtonIntegrator.cpp'), ('blockedDOFs', 'core/State.cpp'), ('addForceTorqueFromMembers/moveMembers', 'core/Clump.hpp')], SEQ, 'bounded-exhaustive; reference integrator written from the documentation; bodies do not touch')
prop('C15', 'Cohesive bonds: strength, breakage, moments and energies',
 'A bond between two bodies (cohesive frictional law with moments, jointed cohesive law) exists exactly when the settings say so: for contacts made while cohesion is assigned to new contacts, or all or single contacts at the moment it is assigned, between cohesive materials. It is elastic up to its strength; a fragile bond breaks in the step in which tension or shear exceeds the strength, never earlier, and stays broken (tension: contact lost; compression: friction remains) unless cohesion is assigned again; a ductile one yields at the strength up to its limit. Forces, bending and twisting moments, rolling limits, creep, counted cracks and damage, elastic energies and dissipation follow the documented law, whatever the sequence of motions and the order of the bodies.',
 ['histories', 'configurations'], 'all sequences of approaches, separations, shear, twist, rolling and assignments of cohesion up to the depth bound, for 19 combinations of materials and settings and both orders of the bodies',
 'tests pull one bond once along one axis',
 ['pkg/dem/CohesiveFrictionalContactLaw.cpp', 'pkg/dem/CohesiveFrictionalContactLaw.hpp', 'pkg/dem/JointedCohesiveFrictionalPM.cpp', 'pkg/dem/ScGeom.cpp'],
 [('Law2_ScGeom6D_CohFrictPhys_CohesionMoment::go, Ip2_CohFrictMat...::go', 'pkg/dem/CohesiveFrictionalContactLaw.cpp'), ('Law2_ScGeom_JCFpmPhys_...::go', 'pkg/dem/JointedCohesiveFrictionalPM.cpp')], SEQ,
 'bounded-exhaustive on the real laws with an independent evaluation of the documented law as oracle')
prop('C16', 'Results do not depend on threads and their schedule',
 'With any number of OpenMP threads, whichever thread executes which iteration and however their memory accesses interleave, a step has the effects it has with one thread: the same contacts, forces, motion and contact state, the same tracked energies up to rounding of sums, no lost or doubled contribution and no crash. This includes bodies and contacts created or erased meanwhile and storage that has to grow inside of a parallel section.',
 ['schedules', 'configurations'], 'all schedules with a bounded number of deviations from the default one, switching at loop iterations, locks and accesses to shared memory, for 14 scenes (contact laws, clumps, periodic cell, facets and walls, kinematic engines, time stepper, growth, erase, parallel sort) and 2 or 3 threads',
 'tests run with one schedule chosen by the system, mostly with one thread; races show in rare interleavings only',
 ['core/ForceContainerParallel.cpp', 'core/InteractionContainer.cpp', 'pkg/common/InteractionLoop.cpp', 'pkg/common/InsertionSortCollider.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'pkg/common/Dispatching.cpp', 'lib/base/openmp-accu.hpp', 'core/EnergyTracker.hpp', 'pkg/dem/ElasticContactLaw.cpp', 'pkg/dem/CohesiveFrictionalContactLaw.cpp', 'pkg/dem/HertzMindlin.cpp', 'pkg/dem/GlobalStiffnessTimeStepper.cpp', 'pkg/common/KinematicEngines.cpp'],
 [('addForce/sync/resize per thread', 'core/ForceContainerParallel.cpp'), ('parallel contact loop', 'pkg/common/InteractionLoop.cpp'), ('accumulators', 'lib/base/openmp-accu.hpp')],
 'stateless exploration of the real code under a controlled OpenMP runtime: every schedule within the deviation bound is executed and compared with the single-threaded run',
 'bounded-exhaustive; sequentially consistent memory')
prop('C17', 'Scenes, in-memory saves, resets and labels do not mix',
 'Each scene behaves as if it were alone: adding scenes, switching between them and to the other simulation, saving and loading in memory under names or as bytes, and resets change only what they say, and each scene continues from where it was. Saved states stay as saved. Loads of unknown names and switches to unknown scenes are refused without effect. Labels of engines and functors refer to the objects that are in force after engines are assigned (also during a step) or a simulation is loaded.',
 ['histories'], 'all sequences of steps, bodies appended and erased, engines assigned (also during a step), scenes added and switched, in-memory saves and loads, conversions to bytes and back, and the three kinds of reset up to the depth bound',
 'tests never use more than one scene',
 ['core/Omega.cpp', 'core/Omega.hpp', 'core/Scene.cpp', 'py/wrapper/yadeWrapper.cpp'],
 [('switchToScene, addScene, resetAllScenes, loadSimulation', 'core/Omega.cpp'), ('engines_set, loadTmp, switchScene, mapLabeledEntitiesToVariables', 'py/wrapper/yadeWrapper.cpp')], SEQ,
 'bounded-exhaustive on the real library; oracle: the same operations on a scene alone')
prop('C18', 'A distributed (MPI) run equals the serial run',
 'A simulation run on several MPI ranks (yade.mpy: mpirun, mergeScene) gives the state of bodies, contacts, and forces on the bodies of the master which the serial run gives at the same step, for every assignment of bodies to ranks, every communication mode, and whether sends are buffered or synchronous. All ranks stay at the same step, no message is lost or taken for another, no order of messages blocks the run, and this continues over redistributions, merging, changes made to the merged scene, erased bodies and repeated runs. Contact history (friction) is only followed up to the first redistribution.',
 ['configurations', 'histories', 'schedules'], 'all assignments of 4-5 bodies to 2 and 3 ranks x buffered / synchronous sends x communication modes x command histories; orders of ranks within the deviation bound',
 'the test suite has no distributed run at all; which bodies are exchanged when depends on the assignment and on who moves how far, and lost or stale messages need particular encounters',
 ['py/mpy.py', 'core/Subdomain.hpp', 'core/Subdomain.cpp', 'pkg/common/Collider.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'pkg/common/InteractionLoop.cpp', 'pkg/common/InsertionSortCollider.cpp'],
 [('splitScene/mergeScene/sendRecvStates/isendRecvForces', 'py/mpy.py'), ('mpiSendStates/setStateValuesFromIds', 'core/Subdomain.hpp')],
 'exhaustive enumeration of assignments, send modes, command histories and bounded orders of ranks: the real Python and C++ code of each rank runs as a process under a controlled MPI implementation, compared with the serial run',
 'bounded-exhaustive; MPI replaced by a controlled implementation of its semantics')
prop('C19', 'Engines that prescribe motions and loads do exactly that',
 'Engines imposing translations, rotations, helices, interpolated, harmonic or combined motions give every existing body of their list exactly the velocity and spin of their parameters, the time and the position, and no other body. Engines adding forces, torques, constant, central or axial gravity, radial, drag or interpolated loads add exactly the value of their formula to the bodies they select by id or mask, each once per step; a body displaced per step moves by the given amount; a domain limiter deletes exactly the free bodies and clumps outside of its box and counts them. This holds after bodies are erased, appended or regrouped, lists, parameters or time steps change, engines are switched off and on, or the simulation is saved and loaded.',
 ['histories', 'inputs'], 'all sequences of steps, changes of the time step, time resets, moved bodies, changed parameters and id lists, engines switched, bodies erased, masked and appended, save+load up to the depth bound, for 25 engines x 7 bodies (plain, central, fixed, clump, members, of another group)',
 'tests run two of these engines once with one setting',
 ['pkg/common/KinematicEngines.cpp', 'pkg/common/ForceEngine.cpp', 'pkg/common/GravityEngines.cpp', 'pkg/common/StepDisplacer.hpp', 'pkg/dem/DomainLimiter.cpp', 'lib/smoothing/LinearInterpolate.hpp'],
 [('KinematicEngine::action, *::apply', 'pkg/common/KinematicEngines.cpp'), ('ForceEngine, RadialForceEngine, DragEngine ...', 'pkg/common/ForceEngine.cpp'), ('GravityEngine ...', 'pkg/common/GravityEngines.cpp'), ('DomainLimiter', 'pkg/dem/DomainLimiter.cpp')], SEQ,
 'bounded-exhaustive on the real engines with formulas as oracle; engines with feedback (servo, recorders) and wind are not covered')
prop('C20', 'Periodic cell: shape, transformation and strain in any history',
 'After any sequence of steps and assignments the cell matrix, its sizes, its volume, its accumulated transformation and the measures derived from it (strains, rotation, polar decomposition, spin, shear transformations, wrapping of points) are consistent with each other: steps multiply the cell and the transformation by the increment of the velocity gradient, assigned sizes keep directions, assigned boxes reset the transformation, and points are wrapped to the cell by whole base vectors only.',
 ['histories', 'inputs'], 'all sequences of steps, changes of velocity gradient, time step, box, base vectors, lengths, reference lengths or transformation, steps without periodicity and save+load up to the depth bound, from 3 cells',
 'tests deform one cell with one gradient',
 ['core/Cell.cpp', 'core/Cell.hpp', 'pkg/dem/NewtonIntegrator.cpp', 'py/wrapper/yadeWrapper.cpp'],
 [('integrateAndUpdate', 'core/Cell.cpp'), ('setBox/setHSize/setSize/setTrsf/wrap', 'core/Cell.hpp')], SEQ,
 'bounded-exhaustive on the real cell with matrix algebra as oracle')
prop('C21', 'Packings and solids: generated and transformed spheres are the right ones',
 'A sphere packing keeps its spheres, clumps and period through any sequence of construction, translation, rotation, scaling, repetition and filling of the period, filtering, saving and loading, and transfer to and from a simulation. A sphere is accepted by a solid (primitives combined by intersection, union, difference and symmetric difference) with a margin exactly if it lies inside with that margin, and the box of the solid contains it. Generated packings contain the requested number of spheres with the requested sizes, inside of the given box or period, without overlaps, and regular packings keep their spacing inside of the solid.',
 ['histories', 'inputs'], 'all sequences of packing operations up to the depth bound; all pairs (and triples) of primitives under all boolean operations on a grid of points with 4 margins; 46 settings of the generators',
 'tests build one packing from one predicate',
 ['py/pack/pack.py', 'py/pack/_packPredicates.cpp', 'py/pack/_packSpheres.cpp', 'pkg/dem/SpherePack.cpp', 'pkg/dem/SpherePack.hpp'],
 [('SpherePack', 'pkg/dem/SpherePack.cpp'), ('predicates', 'py/pack/_packPredicates.cpp'), ('filterSpherePack, regularOrtho, regularHexa', 'py/pack/pack.py')], SEQ,
 'bounded-exhaustive for operations and solids; random generators: each setting 3 times (the random positions are sampled); GTS surfaces, randomDensePack and the packing database not covered')
prop('C22', 'The automatic time step follows the contacts',
 'With the global stiffness time stepper active, at each update the time step is the given safety fraction of the smallest eigenperiod of the dynamic bodies (from mass, inertia and the stiffness, and on request viscosity, of their contacts; clumps as wholes), it never grows by more than 5 percent per update and never exceeds the given maximum; without contacts the default is used; bodies at rest, erased bodies and contacts which were lost do not count. With density scaling the time step is the target and each body is scaled so that it is stable. It holds after contacts come and go, bodies are erased, appended or blocked, settings change, the stepper is switched off and on, or the simulation is saved and loaded.',
 ['histories', 'inputs'], 'all sequences of steps, contacts made and lost, bodies erased, appended and blocked, stiffness and settings changed, stepper switched, save+load up to the depth bound in 7 scenes',
 'tests never compare an automatic time step with a value',
 ['pkg/dem/GlobalStiffnessTimeStepper.cpp', 'pkg/dem/GlobalStiffnessTimeStepper.hpp', 'core/TimeStepper.hpp', 'core/Scene.cpp', 'pkg/dem/Shop_01.cpp', 'pkg/dem/NewtonIntegrator.cpp'],
 [('computeTimeStep, computeStiffnesses, findTimeStepFromBody', 'pkg/dem/GlobalStiffnessTimeStepper.cpp'), ('timeStepperActivate', 'core/Scene.cpp')], SEQ,
 'bounded-exhaustive on the real engine with the documented formula as oracle (tolerance 0.3 percent)')
prop('C24', 'Functors and engines in use are the configured ones',
 'For bodies, materials and contacts of any types a dispatcher uses the functor declared for the nearest types in their class hierarchies (for the pair in the other order too where order does not matter), uses none if no functor applies, and refuses two different ones at the same distance. The answer depends only on the functors given, not on what was looked up before or on functors which have been replaced. Functors, contact loops, colliders, integrators and engine lists replaced or changed between steps of a running simulation are in effect from the next step on, for existing contacts as for new ones; existing contacts keep the material parameters they were created with.',
 ['histories', 'configurations'], 'all sets of up to 2 (3) functors of each of the four kinds in all orders, all pairs of lookups of types they apply to and lookups after replacement; all sequences of steps, approaches, separations, exchanges of functors, loops, integrators, colliders or engine lists, and save+load up to the depth bound in 3 scenes',
 'tests set up the engines once and never look up types in another order or replace functors in a run',
 ['lib/multimethods/DynLibDispatcher.hpp', 'lib/multimethods/Indexable.hpp', 'core/Dispatcher.hpp', 'pkg/common/Dispatching.cpp', 'pkg/common/Dispatching.hpp', 'pkg/common/InteractionLoop.cpp', 'pkg/common/InsertionSortCollider.cpp', 'core/Scene.cpp'],
 [('locateMultivirtualFunctor1D/2D, add1DEntry/add2DEntry', 'lib/multimethods/DynLibDispatcher.hpp'), ('InteractionLoop::action', 'pkg/common/InteractionLoop.cpp'), ('isActivated', 'pkg/common/InsertionSortCollider.cpp')], SEQ,
 'bounded-exhaustive on the real dispatchers and engines; oracle: the class hierarchy seen from Python')
prop('C25', 'Contact geometry: nearest points in every relative position',
 'A sphere and a sphere, facet, box, wall or grid connection are in contact exactly if they overlap, and then penetration, normal and contact point are those of the nearest point of the shape (of its face, edge or corner; the nearest face for a centre inside of a box), whatever their relative position, orientation, the order of their ids, the periodic image of either, and the contact they had before. The resulting forces and moments balance.',
 ['inputs', 'histories'], 'a lattice of relative positions (340-1452 per shape) x earlier positions x orientations x orders x periodic images, for 9 shapes',
 'tests place spheres on a few faces',
 ['pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp', 'pkg/dem/Ig2_Box_Sphere_ScGeom.cpp', 'pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp', 'pkg/common/Grid.cpp', 'pkg/dem/ScGeom.cpp'],
 [('Ig2_Facet_Sphere_ScGeom::go', 'pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp'), ('Ig2_Box_Sphere_ScGeom::go', 'pkg/dem/Ig2_Box_Sphere_ScGeom.cpp')],
 'exhaustive enumeration of relative positions, orientations, images, orders and earlier contacts within bounds on the real functors',
 'bounded-exhaustive on a lattice; oracle: nearest point of the shape')
