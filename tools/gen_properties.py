#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as a script so the long texts stay readable."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))
W='src/private/dynamics/b2_world.rs'; B='src/private/dynamics/b2_body.rs'; CM='src/private/dynamics/b2_contact_manager.rs'
C='src/private/dynamics/b2_contact.rs'; F='src/private/dynamics/b2_fixture.rs'; BP='src/b2_broad_phase.rs'; DT='src/b2_dynamic_tree.rs'
ISL='src/private/dynamics/b2_island_private.rs'; CS='src/private/dynamics/b2_contact_solver_private.rs'

p('C01','World object graph always matches the history of creations and destructions',
  'After any sequence of creating, destroying, enabling and stepping, the world and every body list exactly the live bodies, fixtures, joints and contacts, each exactly once, and the reported counts equal those lists. Every back-reference agrees with the forward one: a fixture names the body that lists it, a joint and a contact are listed by exactly their two bodies, and the number of broad-phase proxies is the number of child shapes on enabled bodies. No API call of a legal history fails.',
  ['histories'],'every legal history of body, fixture, joint and contact creation and destruction, enabling, type change and stepping',
  'The lists are intrusive and shared by several owners; a broken link only shows after a particular order of insertions and removals, so single scripted histories do not settle it.',
  [W,B,F,CM,'src/b2rs_double_linked_list.rs','src/b2rs_linked_list.rs'],
  [('bodies','live bodies','world body list'),('fixtures','live fixtures with owner','body fixture list'),('joints','live joints with both bodies','world joint list and per-body joint edges'),('contacts','live contacts with both fixtures','world contact list and per-body contact edges')],
  [('create_body/destroy_body/create_joint/destroy_joint',W),('create_fixture/destroy_fixture/set_enabled/set_type',B),('add_pair/destroy',CM)],
  ['B2world lists and counts','B2body lists','B2fixture::get_body','B2world::get_proxy_count'])
p('C02','Contacts exist exactly for eligible pairs whose fattened boxes overlap',
  'After a completed time step, two fixture children have a contact object if and only if they are on different enabled bodies of which at least one is dynamic, they are allowed to collide, a collision routine exists for their shapes and their stored fattened boxes overlap (a contact whose boxes ceased to overlap goes at the next step that finds one of its bodies awake); there is never more than one contact for a pair. Pairs are picked up no matter which of the two moved, was created, was enabled, changed type or was refiltered.',
  ['histories','inputs'],'every reachable world state and every placement of shapes, after a step with positive time step (sleeping pairs may keep a stale contact)',
  'Missing or duplicated pairs depend on the order of moves, proxy reuse and the buffered broad-phase updates; a test sees one arrangement.',
  [CM,BP,DT,B,F],[('contacts','set of contact objects keyed by fixture children','world contact list'),('boxes','fattened box of each child shape','broad phase')],
  [('find_new_contacts/add_pair/collide',CM),('update_pairs/move_proxy/touch_proxy',BP),('synchronize',F)],
  ['B2world::get_contact_list after step','B2broadPhase::get_fat_aabb'])
p('C03','Touching state follows real overlap and begin/end events alternate',
  'A contact (including one with a sensor) reports touching exactly when the two shapes really overlapped at its last update, and every change of that state is announced by exactly one begin-contact or end-contact call, begin first, strictly alternating per contact. When a touching contact is destroyed for any reason (separation, filtering, disabling, destruction of fixture or body) its end-contact is delivered before it disappears.',
  ['histories','inputs'],'every history of motion and API calls; every pair of shapes, with a margin of the collision tolerance around exact touching',
  'The balance is a property of the whole event history, and the destruction paths that must emit the final event are many.',
  [C,CM,B,W],[('touching','last reported touching state per contact','contact flag'),('events','begin/end history per contact','contact listener')],
  [('update',C),('destroy',CM),('set_enabled/set_type/destroy_fixture',B),('destroy_body',W)],
  ['B2contactListener::begin_contact/end_contact','B2contact::is_touching'])
p('C04','Pre/post-solve notifications and per-step contact disabling',
  'Within a step, pre-solve is delivered for a contact only while it is touching, solid (no sensor) and with an awake body, after its begin-contact; post-solve is delivered only for contacts that were solved, never for a sensor and never for a contact disabled during pre-solve. A contact disabled by the listener produces no collision response in that step and is enabled again at its next update. Pre-solve hands over the manifold of the previous update, and points that persist keep the impulses of their last solution.',
  ['histories','schedules'],'every history and every pattern of per-contact disabling by the listener',
  'It constrains the relative order of callbacks over every step and every listener behaviour.',
  [C,CM,W,ISL],[('enabled','per-step enabled state of a contact','contact flag')],
  [('update',C),('solve/solve_toi',W),('report',ISL)],
  ['B2contactListener callbacks','B2contact::is_enabled','body velocities'])
p('C05','Collision filtering decides which fixtures may interact',
  'With the default filter two fixtures may interact exactly by the documented rule (equal non-zero group index decides by sign, otherwise both category/mask tests must pass), and a user filter replaces that rule. After filter data is changed, existing contacts that are no longer allowed are gone and newly allowed overlapping pairs exist once the next step has completed.',
  ['inputs','histories'],'every pair of filter settings (16-bit masks, signed groups) and every moment of changing them',
  'The rule has to hold for all mask/group combinations and at each of the three places it is consulted (pair creation, contact refresh, continuous collision).',
  ['src/private/dynamics/b2_world_callbacks.rs',CM,F,W],[('filter','category, mask and group of a fixture','fixture')],
  [('should_collide','src/private/dynamics/b2_world_callbacks.rs'),('refilter',F),('collide',CM)],
  ['B2contactFilter::should_collide','B2world::get_contact_list'])
p('C06','A joint with collide_connected=false suppresses contacts between its bodies',
  'While at least one joint that forbids collision connects two bodies, no contact between any of their fixtures survives a completed step in which they are awake, and no new one is created; joints that allow collision never suppress contacts. Destroying the last forbidding joint lets contacts between them be created again as soon as either body moves.',
  ['histories'],'every history of joint creation/destruction with either flag between any bodies',
  'Several joints can connect the same bodies; only the combination and order of creation/destruction exposes errors.',
  [W,B,CM],[('joints','joints with their flag per body pair','joint list')],
  [('create_joint/destroy_joint',W),('should_collide',B),('collide',CM)],['B2world::get_contact_list after step'])
p('C07','Destruction cascades completely and notifies implicit destruction exactly once',
  'Destroying a body destroys exactly its fixtures, the joints attached to it and all their contacts; the destruction listener is told exactly once about each joint and fixture destroyed this way and never about objects destroyed explicitly. Destroying a fixture or joint removes exactly that object and its contacts, leaving all other objects unchanged.',
  ['histories'],'every world state and every choice of object to destroy',
  'The cascade depends on the graph of joints, fixtures and contacts around the destroyed object.',
  [W,B],[('listener log','goodbye notifications','destruction listener')],
  [('destroy_body',W),('destroy_fixture',B),('destroy_joint',W)],['B2destructionListener::say_goodbye_*','lists after the call'])
p('C08','Disabled bodies are out of the simulation and enabling restores them',
  'A disabled body has no contacts, no broad-phase presence (queries and ray casts skip it), does not move, receives no events, and joints attached to it are not simulated; enabling it again makes it collide from the next step on. Setting the current state again changes nothing, and a body created disabled behaves like one disabled later. Changing a body\'s type removes its contacts, wakes it, and stops it if it becomes static.',
  ['histories'],'every history of enabling, disabling and type changes interleaved with stepping and fixture creation/destruction',
  'The interaction of the flag with fixture creation, proxies, joints, contacts and sleeping only shows in histories.',
  [B,W,F],[('enabled','enabled flag','body'),('type','static/kinematic/dynamic','body')],
  [('set_enabled/set_type/create_fixture',B),('solve',W)],['B2body::is_enabled','positions across steps','proxy count'])
p('C09','Connected bodies sleep and wake together; sleeping bodies do not move',
  'Bodies connected through solid touching enabled contacts or joints (not through static bodies) form an island: after a step either every moving-type body of the island is awake or every one is asleep, and an island falls asleep only if sleeping is allowed for the world and all its bodies and all have been nearly at rest for the required time. A body that falls asleep has zero velocity, a sleeping body does not move during a step unless something touching it or attached to it wakes it, and a solid contact that begins or ends touching wakes both its bodies.',
  ['histories','inputs'],'every contact/joint graph and history',
  'The partition into islands is a closure over the contact graph, computed incrementally each step.',
  [W,ISL,B],[('awake','awake flag','body'),('islands','connected components','solver')],
  [('solve (island search)',W),('solve (sleep timers)',ISL)],['B2body::is_awake','velocities and positions across steps'])
p('C10','Bodies are woken by exactly the documented events',
  'Outside of stepping, exactly the documented calls wake a body: set_awake(true), non-zero velocity set, force/impulse with the wake flag on dynamic bodies, type change, sensor toggle, destruction of an attached joint or of a touching solid contact, changes of joint motor/limit/target settings, and disallowing sleep. Calls without the wake flag have no effect on a sleeping body, set_awake(false) zeroes velocity and forces, static bodies are never awakened, and other calls leave the flag alone.',
  ['histories'],'every call on every body state',
  'It is a table of every mutating call against every body state; a missing or spurious wake is silent.',
  [B,'src/b2_body.rs',W,F],[('awake','awake flag','body')],
  [('set_awake/set_linear_velocity/apply_*','src/b2_body.rs'),('set_sleeping_allowed','src/b2_body.rs'),('destroy_joint/set_allow_sleeping',W)],['B2body::is_awake before and after each call'])
p('C11','Free bodies follow the documented integration; static bodies never move',
  'A step moves each awake body without constraints by exactly the documented rule: velocity gains dt*(gravity*scale + force/mass) and angular dt*torque/inertia, is then damped by 1/(1+dt*damping), motion per step is limited to 2 m and 90 degrees, and the centre of mass moves by dt times the new velocity. Kinematic bodies move by their velocity only, static bodies never move, and a zero time step moves nothing.',
  ['inputs','histories'],'every state, force, damping, gravity scale, time step and body type',
  'The rule holds for every combination of continuous parameters; tests sample one trajectory.',
  [ISL,W,B],[('motion state','centre, angle, velocities, forces','body')],
  [('solve (integration)',ISL),('step',W)],['body transform and velocity before/after step'])
p('C12','Forces and impulses accumulate, act once and are cleared as configured',
  'Forces and torques applied to a dynamic body add up until the next step, act on it exactly once (or on every step when automatic clearing is off, until cleared explicitly), and impulses change velocity immediately by impulse/mass and the angular velocity by the moment about the centre of mass. Static and kinematic bodies ignore them.',
  ['histories','inputs'],'every sequence of force/impulse/clear calls and steps, any point of application',
  'It is about sums over histories with configuration switches.',
  ['src/b2_body.rs',W],[('force accumulators','accumulated force and torque','body')],
  [('apply_force/apply_torque/apply_linear_impulse/apply_angular_impulse','src/b2_body.rs'),('clear_forces/set_auto_clear_forces',W)],['velocity changes across calls and steps'])
p('C13','Body mass data equals the sum of its fixtures',
  'For any history of fixture creation/destruction, density change with mass reset, type and fixed-rotation change, a dynamic body\'s mass, centre and rotational inertia equal the density-weighted sum over its fixtures (zero inertia with fixed rotation), static and kinematic bodies have zero mass, and an explicit override lasts until the next recomputation. Moving the centre of mass keeps the body origin in place and adjusts linear velocity consistently.',
  ['inputs','histories'],'every set of shapes, densities and order of changes',
  'Order of changes and the parallel-axis terms matter for arbitrary shapes.',
  [B,'src/private/collision/b2_polygon_shape.rs','src/private/collision/b2_circle_shape.rs'],[('mass data','mass, centre, inertia','body')],
  [('reset_mass_data/set_mass_data/get_mass_data',B),('compute_mass','shape implementations')],['B2body::get_mass_data','B2body::get_world_center'])
p('C14','Contacts and joints act by equal and opposite impulses',
  'In any step the total linear momentum of bodies that interact only with each other changes only by gravity, applied forces and damping (pulley and mouse joints, which also pull on the world, excepted), and contacts and joints that join two bodies at common points keep their total angular momentum; correcting positions does not move their common centre of mass (pulleys excepted). The impulses reported to post-solve account for the velocity change of each body that is not jointed.',
  ['inputs','histories'],'every configuration of touching and jointed bodies',
  'Global balance over all solver paths (one- and two-point blocks, friction, each joint type).',
  [CS,ISL,'src/private/dynamics/joints'],[('momentum','mass-weighted velocities','bodies')],
  [('solve_velocity_constraints',CS),('joint solvers','src/private/dynamics/joints')],['velocities, masses, reported impulses'])
p('C15','Contact response respects materials: no pulling, friction cone, bounce',
  'Contact impulses never pull, and once the solver has converged friction does not exceed the friction coefficient times the normal impulse and stops sliding if it stays below that bound; the pair coefficients are the documented mix of the fixtures (geometric mean, maximum, minimum threshold) or the per-contact override until reset. Resting bodies do not sink, and an impact above the threshold speed rebounds with the restitution coefficient, below it does not.',
  ['inputs','configurations'],'every material combination and impact state',
  'Inequalities over every reported impulse for every material combination.',
  [CS,C,'src/b2_contact.rs'],[('material','friction, restitution, threshold','fixture and contact')],
  [('initialize/solve_velocity_constraints',CS),('mix functions','src/b2_contact.rs')],['post-solve impulses','contact getters','velocities'])
p('C16','Fast bodies do not tunnel',
  'With continuous collision on, a dynamic body does not pass through thin static or kinematic geometry within a step regardless of its speed, and a bullet does not pass through other dynamic bodies either, unless filtered, sensor or disabled by the listener (up to the limit of eight sub-steps per contact and step). A body that meets nothing moves exactly by its velocity, and an impact without friction does not slow its motion along the wall; with continuous collision off, collisions are only found at step boundaries. With sub-stepping one event is processed per call and the completed step keeps the same guarantee.',
  ['inputs','schedules'],'every speed, direction, shape and time step up to the documented speed limit',
  'Needs all relative positions at the step boundary; tests usually hit only slow cases.',
  [W,'src/private/collision/b2_time_of_impact.rs',ISL],[('sweep','motion during a step','body')],
  [('solve_toi',W),('b2_time_of_impact','src/private/collision/b2_time_of_impact.rs')],['positions before/after the step'])
p('C17','Joints hold their constraints, limits and motor bounds',
  'Bodies connected by a joint keep the joint\'s relation (common point, distance range, axis, relative angle, gear ratio, pulley length, target) within solver tolerance in steady state, limits are not exceeded, and motors reach their speed when the load allows and never apply more than the configured force or torque. Reaction force and torque report what the joint applied in the last step.',
  ['inputs','histories'],'every joint type and parameter combination, anchors and axes',
  'Ten joint types with several modes each; the relation must hold at every step.',
  ['src/private/dynamics/joints','src/joints'],[('joint coordinates','translation, angle, length, speed','joint getters')],
  [('solver functions','src/private/dynamics/joints')],['anchors, angle/translation getters, reaction force/torque'])
p('C18','Joint settings read back as set, and definitions initialise consistently',
  'Each joint setter changes exactly its own setting, as read by the getter, with documented clamping, and takes effect without touching other settings; settings that affect the motion wake both bodies only if the value really changes. A joint made from world anchors reports these anchors, zero initial displacement and the definition values back.',
  ['histories','inputs'],'every joint type, every setter sequence, every initial placement',
  'A table over ten types and tens of setters; a crossed or missing update is silent.',
  ['src/joints','src/private/dynamics/joints'],[('settings','limits, motors, springs, lengths, targets','joint')],
  [('setters and initialize','src/joints')],['joint getters','B2body::is_awake'])
p('C19','Broad phase reports every overlapping pair and query hit after any history',
  'After any sequence of creating, moving, touching and destroying proxies, a box query visits exactly the live proxies whose stored box overlaps it, each once and stopping when told; a stored box always contains the tight box given last; a pair update reports every overlapping pair in which a proxy was created, touched or re-inserted since, and no pair that does not overlap. The tree keeps its structural invariants and logarithmic height.',
  ['histories','inputs'],'every sequence of proxy operations',
  'Tree rotations, free-list reuse and lazy updates depend on the whole operation history.',
  [BP,DT,'src/private/collision/b2_broad_phase.rs','src/private/collision/b2_dynamic_tree.rs'],[('proxies','live proxy ids with stored boxes','tree nodes'),('move buffer','proxies to be re-paired','broad phase')],
  [('insert_leaf/remove_leaf/balance/move_proxy',DT),('update_pairs',BP)],['query, update_pairs, get_fat_aabb, get_tree_* '])
p('C20','World queries and ray casts see exactly the right fixtures',
  'A world box query reports exactly the child shapes of enabled bodies whose stored boxes overlap the box and stops when told to. A ray cast reports only real hits with the true point, normal and fraction, obeys the returned control value (ignore, terminate, clip, continue), and with clipping ends with the closest hit of all fixtures.',
  ['inputs','histories'],'every ray, box and control-value policy on every world',
  'Correct pruning must be shown for all rays and callback policies.',
  [W,DT,'src/b2_world.rs'],[('fixtures','shapes and transforms','bodies')],
  [('query_aabb/ray_cast',W),('ray_cast',DT)],['callback sequence'])
p('C21','Shape queries agree with exact geometry',
  'For every shape and placement, point containment, ray intersection, bounding box, area, centroid and inertia agree with exact geometry; a polygon built from points is their convex hull (welded, counter-clockwise, at most eight vertices), and chain children are the consecutive edges with the right neighbours.',
  ['inputs'],'every point set, transform, point and ray in range',
  'Universally quantified over input geometry.',
  ['src/shapes','src/private/collision'],[('vertices','shape geometry','shape')],
  [('set/compute_mass/test_point/ray_cast/compute_aabb','src/private/collision')],['shape methods'])
p('C22','Distance, overlap, shape cast and time of impact agree with exact geometry',
  'The reported distance of two convex shapes is the true minimum distance with witness points on the shapes, overlap is reported exactly when it is zero, with or without cached results; a shape cast reports the first contact fraction, and time of impact returns a time before which the shapes are separated by the target distance and at which they reach it, or separated if they never do.',
  ['inputs'],'every pair of convex shapes, transforms, sweeps',
  'Iterative algorithms with many degenerate branches.',
  ['src/private/collision/b2_distance.rs','src/private/collision/b2_time_of_impact.rs'],[('simplex cache','warm start','caller')],
  [('b2_distance_fn/b2_shape_cast/b2_test_overlap_shapes','src/private/collision/b2_distance.rs'),('b2_time_of_impact','src/private/collision/b2_time_of_impact.rs')],['function outputs'])
p('C23','Contact manifolds describe the true contact and are symmetric',
  'For every pair of overlapping shapes the manifold has one or two points, a unit normal pointing from the first to the second shape along a direction of minimal penetration, points within the overlap and separations matching the geometry; it is empty when shapes are apart. Contact ids persist while features stay in contact, so point states add, persist and remove exactly describe the change between consecutive manifolds.',
  ['inputs','histories'],'every pair of shapes and relative placement',
  'Universally quantified over geometry, with branch-heavy feature selection.',
  ['src/private/collision/b2_collide_circle.rs','src/private/collision/b2_collide_edge.rs','src/private/collision/b2_collide_polygon.rs','src/private/collision/b2_collision.rs'],[('manifold','points, normal, ids','contact')],
  [('b2_collide_*','src/private/collision'),('b2_get_point_states','src/private/collision/b2_collision.rs')],['manifold, world manifold'])
p('C24','Shifting the origin is a pure change of coordinates',
  'Shifting the world origin by a vector subtracts it from every body position, joint world anchor or target and broad-phase box and changes nothing else: no events, no wake-ups, same contacts, same local geometry and velocities. Simulation continues as it would have without the shift, and queries return the shifted results.',
  ['histories','inputs'],'every world state and shift vector',
  'Needs all stored world-space values to be shifted, including ones visible only in later steps.',
  [W,DT,'src/joints'],[('world coordinates','positions, ground anchors, targets, tree boxes','bodies, joints, tree')],
  [('shift_origin',W)],['positions, anchors, queries before/after, later steps'])
p('C25','Simulation is deterministic and worlds are independent',
  'Two worlds built by the same calls and stepped with the same parameters have bit-identical states and event sequences at every step, no matter what other worlds exist or are stepped in between, and reading any state, drawing or querying in between does not influence the simulation.',
  ['histories','schedules'],'every history, every interleaving with read-only calls and other worlds',
  'Hidden dependence on addresses, global state or read-side effects appears only in comparison runs.',
  [W,CM,DT,'src/private'],[('all state','whole world','world')],
  [('step',W)],['full state digests of paired runs'])
p('C26','Saving and loading a world preserves its scene',
  'Loading a saved world gives the same gravity and the same bodies with their definition state (type, placement, velocities, damping, flags, user data), fixtures (shape, density, material, filter, sensor) and joints (type, the same two bodies, anchors, parameters, gear references), in every supported format; mouse joints are left out. Saving changes nothing in the saved world and saving the loaded world again reproduces the same scene.',
  ['histories','configurations'],'every world state, all shape and joint types, text and binary formats',
  'Index-based references depend on list order, joint mix and history.',
  ['src/serialize','src/joints/serialize'],[('scene','bodies, fixtures, joints','serialized form')],
  [('Serialize/Deserialize for world','src/serialize/serialize_b2_world.rs')],['loaded world getters'])
p('C27','Rope simulation keeps its anchors, lengths and reset state',
  'A rope\'s fixed points follow the given position exactly, free points move by the documented integration with gravity and damping, stiff stretching holds segment lengths near rest length, reset restores the initial shape at the given position with zero velocity, and a zero time step changes nothing. Every stretching and bending model moves the points by its documented correction, and positions stay finite as long as the motion per step is moderate.',
  ['inputs','histories','configurations'],'every rope definition, tuning model and history of steps and resets',
  'Combination of models and parameters over long histories.',
  ['src/b2_rope.rs','src/private/rope'],[('points','positions of rope vertices','rope')],
  [('step/reset/create','src/private/rope')],['drawn points'])
p('C28','Debug drawing shows exactly the current world',
  'Debug drawing emits exactly the primitives selected by the flags: every fixture shape of every body at its current transform with the colour of the body\'s state, every joint, every contact pair, every stored box of enabled bodies and every centre-of-mass frame; it shows nothing twice, nothing for cleared flags and changes nothing.',
  ['histories','configurations'],'every world state and flag combination',
  'Depends on the complete world state and on all flag combinations.',
  [W,'src/b2_draw.rs'],[('draw flags','selected categories','draw object')],
  [('debug_draw/draw_shape',W)],['B2drawTrait calls'])
p('C29','Objects are what their definitions and later settings say',
  'A body, fixture, joint or world created from a definition reports exactly the values of that definition (its documented defaults where nothing was set), every setter changes exactly the value it names and everything else stays, and definitions and shapes may be changed or reused after creation without affecting what was created from them.',
  ['inputs','histories'],'every definition with any combination of fields, objects created in any number from the same kept definition, every order of setters, steps and destructions in between',
  'Unit tests read back a handful of fields once; the guarantee is about all fields of all object kinds under any interleaving of creations, setters and steps.',
  ['src/b2_body.rs','src/b2_fixture.rs','src/b2_joint.rs','src/b2_world.rs','src/private/dynamics/b2_body.rs','src/private/dynamics/b2_fixture.rs'],
  [('definition values','B2bodyDef/B2fixtureDef/joint definitions copied at creation','b2_body.rs, b2_fixture.rs, b2_joint.rs'),('flags','bullet, fixed rotation, sleeping allowed, world switches','b2_body.rs, b2_world.rs')],
  [('constructors','src/private/dynamics/b2_body.rs'),('setters and getters','src/b2_body.rs')],['getters of bodies, fixtures, joints, worlds','Default of the definitions'])
p('C30','The mathematics obeys its laws, and body coordinates agree with it',
  'Vector, matrix, rotation, transform, sweep, box and number helpers compute what their names and documentation say (solving inverts multiplying, transposed products invert rotations and transforms, a sweep interpolates and advances without changing its end, clamping respects both bounds). A body converts points, vectors and velocities between world and body coordinates by the same laws, the stack returns values last-in first-out however it grew, and the stiffness helpers give the spring of the requested frequency and damping for the reduced mass.',
  ['inputs'],'all arguments in range including singular matrices, null vectors, whole turns, touching and flat boxes, and all push/pop sequences',
  'Algebraic laws hold for all arguments; sampling single values cannot show that two operations are inverses of one another.',
  ['src/b2_math.rs','src/b2_collision.rs','src/b2_growable_stack.rs','src/b2_body.rs','src/b2_joint.rs','src/private/collision/b2_collision.rs'],
  [('sweep','centres and angles at both ends of a step','b2_math.rs B2Sweep'),('stack','inline array and overflow','b2_growable_stack.rs')],
  [('operators and free functions','src/b2_math.rs'),('b2_linear_stiffness/b2_angular_stiffness','src/b2_joint.rs')],['return values'])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
