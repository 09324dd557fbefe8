HEAD = r'''# Verification of box2d-rs with an explicit TLA+ specification

## 1. Technique

TLA+ with TLC, for every property. TLA+ was chosen over Quint because the
binding to the code is *trace validation*: executions of the library are
recorded as JSON and checked as behaviours of the specification. TLC reads JSON
directly (CommunityModules `Json`, `IOUtils`), evaluates recursive operators
over the recorded state and runs in one JVM without network. The closed models
use the same operators, so there is one specification and not two.

The specification lives in `spec/`:

* **Rule modules**: the state a user sees and pure operators for its
  transitions. `World` (who may collide, who is woken, islands, cascades, what a
  step may report), `Geom` (three-valued overlap of placed shapes), `Fix`
  (fixed-point arithmetic: products, quotients, roots, sine and cosine), `Motion`
  (integration, forces, mass), `Broad` (boxes and pairs), `Ray`, `Draw`, `Convex`
  (hulls, distance, separation), `Joint`, `Contact`, `Toi`, `Rope`, `Algebra`,
  `Defs`.
* **Closed models** (`MCWorld`, `MCBroad`): small constants and an
  unconstrained environment. The engine's shortcuts are modelled (enlarged
  boxes, move buffer, filter flags, sleeping pairs, deferred re-filtering) and the
  invariants, stated without reference to those shortcuts, say that they do not
  show. TLC enumerates every reachable state.
* **Generated behaviours**: the same closed models, with the history of calls as
  part of the state, print every history of a given length (exhaustive) and
  random walks (`-simulate`). `run/hist.py` turns them into scripts, the harness
  executes them on the real library, and the log is judged by the trace module.
* **Trace modules** (`Trace*.tla`): the binding. The harness (`harness/`, a crate
  with a path dependency on /repo) drives the public API with generated
  programs and logs each call with the complete observable state after it. TLC
  replays the log: each event must be a step of the specification. Every property
  owns named clauses; a check judges only the clauses of its property. State that
  belongs to other properties is adopted from the log, so that a defect elsewhere
  does not raise a foreign alarm. History variables (who exists, begin/end
  balance, accumulated forces, definition values, buffered proxies) are carried
  by the specification, not read from the log.

Floats are logged as scaled integers (and, where equality is the claim, as
order-preserving bit patterns). Geometric judgements are three-valued
(must / may / must not) with margins above the library's tolerances, so rounding
never decides a verdict. Nothing depends on private items, list order, names or
text of the sources; there are no hooks.

A panic of the code under test is recorded as the result of the call and violates
the property being exercised (clause `cNN_panic`) when the call was legal.

## 2. How a check runs

`./check.sh Cnn` → `run/check.py`: rebuilds the harness against the working tree
of /repo (content hash, so stale time stamps do not matter), runs the jobs listed
in `run/jobs.py` with `VERIF_WORKERS` (default 7) in parallel, writes
`evidence/Cnn.json` and prints at most one `VIOLATION` line with the recorded
trace that shows it (`replay/…`). The seed of a shard is
`VERIF_SEED*1000 + shard + salt*97`; equal seeds give equal traces. The thorough
tier multiplies events by 3, shards by 5 and uses the larger model constants.
Exit 2 is used for failures of the machinery (build error, TLC error, arithmetic
overflow in the specification).

Every check takes 20–60 s with the machine to itself (quick tier). The bounds
given below are those of the quick tier.

What the evidence counts: `states` and `transitions` are those TLC reports for the
closed model (or for walking the recorded traces when there is none),
`traces_validated_against_impl` the recorded executions accepted as behaviours,
`trace_events_judged` their events, `event_counts` how often each call occurred,
`samples` a few of the judged histories. All are counted during the run.

## 3. Per property

Oracle, enumeration and bounds. "Histories" are seeded random call sequences of
the named driver profile, with generation weights that favour the situations the
property speaks about; "why tests cannot" is in `properties.jsonl`. C01-C10 also
record crowds: nine to sixteen bodies in rows, chains of hinged bodies, or one body
with as many fixtures, left alone until they sleep (4 shards × 600 events). The
recordings of C20, C24, C26 and C28 contain such scenes as well.

'''
P = {}
P['C01'] = ('World, TraceWorld, MCWorld', 'The specification keeps the set of live bodies, fixtures and joints from the calls alone; after every event the lists of the world and of each body, the counts, all back-references and the proxy count must describe exactly that set (`c01_bodies/fixtures/joints/contacts/refs/proxies`). MCWorld invariant `Graph`.', '12 shards × 1500 events over five profiles; all MCWorld histories of length 3 (sampled 400 per start state) and walks of length 12.')
P['C02'] = ('World, Geom, TraceWorld, MCWorld', 'After a completed step the pairs are computed from types, enabled flags, filters, joints, shapes and the *stored* boxes; contacts must be exactly those (`c02_must`, `c02_only`, `c02_keep`, `c02_unique`), and the stored boxes must contain the swept shapes (`c02_boxes`) as well as the shapes where they are now (`c02_fat`). MCWorld invariants `Pairs`, `NoOther`, `Boxes` show that the move buffer and the deferred filtering lose no pair.', 'as C01, profiles mix, overlap, enable, pile, filter.')
P['C03'] = ('World, Geom, TraceWorld, MCWorld', 'Three-valued overlap of the placed shapes decides touching (`c03_truth`); the begin/end log is folded in the specification and must agree with the reported flag at every event (`c03_fold`, `c03_alternate`, `c03_new`, `c03_np`). What was created, enabled or moved before a step takes part in that step (`c03_birth`). MCWorld invariant `Events`.', '15 shards × 1500 events, with and without continuous collision, plus histories.')
P['C04'] = ('World, Contact, TraceWorld, TraceContact, MCWorld', 'Order and eligibility of pre/post notifications per contact and step, the effect of disabling (no response, `c04_free`), re-enabling, the manifold handed to pre-solve (`c04_old`) and the impulses of persisting points (`c04_carry`).', '12 shards of worlds, 3 shards of contact scenes, histories.')
P['C05'] = ('World, TraceWorld, MCWorld', 'The rule of categories, masks and groups is evaluated with `Bitwise` on the recorded filter data (`c05_no`, `c05_must`, `c05_event`, `c05_data`); a user filter is a known function of the fixture ids.', '9 + 3 shards; histories with set_filter/refilter.')
P['C06'] = ('World, TraceWorld, MCWorld', 'From the set of live joints: no contact between bodies a live joint forbids to collide (`c06_no`), contacts come back once released and moved (`c06_must`). MCWorld keeps the debt of released pairs (`dc`).', '12 shards; histories with two joints between the same bodies.')
P['C07'] = ('World, TraceWorld, MCWorld', '`JointsDropped`, `FixturesDropped`, `ContactsDropped` give exactly what each destruction removes and announces (`c07_exact`, `c07_bye`, `c07_others`).', '12 shards with several joints per body, multi-child fixtures.')
P['C08'] = ('World, TraceWorld, MCWorld', 'Absence of disabled bodies from contacts, queries, ray casts, motion and events (`c08_absent`, `c08_still`, …); enabling restores them by the next step (`c08_present`, `c08_restore`); type changes (`c08_type`). MCWorld `Absent`, `Static`.', '12 shards; set_enabled/set_type histories.')
P['C09'] = ('World, TraceWorld, MCWorld', 'Islands are computed in the specification as connected components over solid touching enabled contacts and joints; sleep must be uniform in each (`c09_uniform`), only after the time to sleep with speeds below the tolerance (`c09_fall`, `c09_must`), and sleepers must not move (`c09_still`, `c09_idle`, `c09_wake`). MCWorld `Islands`.', '10 + 3 shards, sleep profile with chains over static and kinematic bodies.')
P['C10'] = ('World, TraceWorld, MCWorld', '`AwakeAfter(state, call)` gives the awake flag of every body after every call outside stepping; reports must agree (`c10_awake`), velocity and force rules for ignored calls.', '9 + 3 shards, all joint setters and body calls, with and without wake flag.')
P['C11'] = ('Motion, Fix, TraceMotion', 'The integration rule is recomputed in fixed point from gravity, scale, accumulated force, damping, speed limits; velocity, centre, angle, transform must match within rounding (`c11_velocity/position/rotation/transform`).', '10 shards × 2500 events of unconstrained bodies with extreme values.')
P['C12'] = ('Motion, Fix, TraceMotion', 'The specification accumulates forces and torques over calls and applies them at the step (`c12_step`, `c12_deferred`); impulses act at once about the centre (`c12_impulse`); static, kinematic and sleeping bodies ignore them.', 'as C11.')
P['C13'] = ('Motion, Fix, TraceMotion', 'Mass, centre and inertia are summed in the specification over the live fixtures from exact polygon formulas (`c13_mass/centre/inertia`); override until the next recomputation; origin fixed, velocity of the new centre consistent (`c13_origin`, `c13_velocity`).', 'as C11, shapes with offsets, fixtures of density 0, type and rotation changes.')
P['C14'] = ('Contact, Joint, TraceContact, TraceJoint', 'Total momentum over each interacting group before and after a step, minus gravity, forces and damping (`c14_linear`, `c14_angular`); displacements beyond velocity × time must cancel when weighted with mass (`c14_centre`) and turn nothing as a whole (`c14_turn`); reported impulses account for each body (`c14_impulse`).', '8 shards of contact scenes and 4 of joint scenes.')
P['C15'] = ('Contact, TraceContact', 'No negative normal impulse at all; cone, sticking, approach and restitution are judged only when a twin world with seven more velocity iterations agrees, that is when the solver has converged (`c15_pull/friction/slick/normal/rest`). Coefficients are computed from the fixtures and overrides (`c15_coef`). Depth bounds for resting bodies (`c15_deeper`, `c15_recover`).', '12 shards × 2000 events.')
P['C16'] = ('Toi, TraceToi', 'A body thrown at thin walls must stay on its side (`c16_side`); free motion is by its velocity (`c16_free`); a frictionless impact keeps the tangential speed (`c16_slide`); sub-stepping is judged at the completed step; bullets against dynamic bodies (`c16_together`).', '12 shards × 3000 events: walls as edge, chain, box; static, kinematic, dynamic; channels, repeated throws, walls made later, origins far from centres, kinematic plates swung at sleeping bodies.')
P['C17'] = ('Joint, Fix, TraceJoint', 'Relations of each of the eleven kinds of joint are evaluated on the transforms after the step (`c17_hold`, `c17_range`, `c17_limit`, `c17_gear`, `c17_follow`, `c17_rigid`); motor and friction bounds; reactions must equal the momentum the joint gave (`c17_reaction`); springs against the implicit formula (`c17_spring`); errors put there by `set_transform` are closed by the position iterations (`c17_settle`). Loaded limits, motors and springs are also switched off while they push and must then push no more (`c17_slack`). Converged laws only with ≥ 400 iterations.', '12 shards × 3000 events.')
P['C18'] = ('Joint, TraceJoint', 'A record of settings is kept per joint from its definition and setter calls with clamping; getters must report it (`c18_set`, `c18_read`, `c18_define`, `c18_frame`, `c18_place`); wake-ups exactly when a value changed (`c18_wake`).', '12 shards × 3000 events, all joint types.')
P['C19'] = ('Broad, TraceTree, MCBroad', 'The set of live proxies with stored boxes and the set of buffered proxies are kept in the specification; queries, ray casts, pair updates, heights and structure are judged after each call. MCBroad enumerates all states of three proxies on a line of cells (177 190 states) and its histories are replayed. A second tree is used on its own, beside the broad phase, and judged the same way.', '9 shards × 2500 events; 44 341 histories of length 3 enumerated, 1500 replayed; 400 walks of 14.')
P['C20'] = ('Ray, TraceView', 'Exact ray/shape intersection in fixed point for each fixture; hits must be real, complete and obey the control values (`c20_real`, `c20_all`, `c20_control`, `c20_point`); box queries by stored boxes (`c20_query`).', '12 shards × 1500 events.')
P['C21'] = ('Convex, Ray, TraceGeo', 'Containment, ray, box, area, centroid, inertia, hull and chain children from the definition points (`c21_*`).', '12 shards × 4000 events: circles, boxes, random hulls with welded and collinear points, edges, chains, loops.')
P['C22'] = ('Convex, TraceGeo', 'True distance of convex sets from vertices and edges; witness points on the shapes; overlap; first contact fraction of a cast bracketed by distances; TOI bracketed by separation before and at the time (`c22_*`).', '12 shards × 2500 events, cached and fresh, rotating sweeps.')
P['C23'] = ('Convex, TraceGeo', 'Count, unit normal, minimal penetration, points inside both shapes, separations, symmetry, ids that name the touching features and persist, point states (`c23_*`).', '12 shards × 4000 events over all routine pairs, one-sided edges included.')
P['C24'] = ('TraceView, TraceTwin', 'Snapshot after the shift equals the snapshot before minus the vector (`c24_place/box/joint/same/events`), queries included; a twin world that was not shifted continues alike (`c24_follow`, `c24_life`, `c24_outcome`).', '9 + 4 shards.')
P['C25'] = ('TraceTwin', 'The same program in two worlds, with other worlds and readers in between in one of them: bit patterns and events must be equal at every step.', '12 shards × 3000 events.')
P['C26'] = ('TraceView', 'Scene as a bag of definition records before saving and after loading, in each format (`c26_load`), saving is pure and repeatable (`c26_pure`, `c26_again`).', '12 shards × 1500 events with every shape and joint type.')
P['C27'] = ('Rope, Fix, TraceRope', 'The whole rope step is specified in fixed point (2^16): integration, each stretching and bending model; recorded points must follow (`c27_step`), fixed points, lengths, reset, draw. Guard `Calm`: states that are about to blow up numerically are not judged.', '12 shards × 3000 events.')
P['C28'] = ('Draw, TraceView', 'The bag of primitives demanded by flags and snapshot equals the recorded bag (`c28_count/missing/extra`), and the world is unchanged.', '12 shards × 1500 events.')
P['C29'] = ('Defs, TraceDefs', 'A table of documented default values and, per object, a record of the definition it was made from, with later setter calls applied; every getter must report that record and nothing else may change. Kept definitions and shapes are changed and reused between creations, so sharing instead of copying shows.', '12 shards × 5000 events.')
P['C30'] = ('Algebra, Fix, TraceAlg', 'Each function of the mathematics, box and stack modules evaluated in integer arithmetic on inputs that are exact in both; solving is checked as the inverse of multiplying (cofactors), transposed products as inverses of rotations and transforms; sweeps, body conversions and springs in fixed point. The stack is a sequence and the drawing flags a set kept by the specification; colours, support points and support indices are compared with their definition.', '8 shards × 20000 events.')

CAUGHT = [  # planted bug, property, deciding clauses
    ('fixture-contacts-left', 'C07', 'c07_exact'), ('pair-child-index', 'C02', 'c02_must'), ('end-only-enabled', 'C03', 'c03_fold'),
    ('first-joint-decides', 'C06', 'c06_no'), ('kinematic-stops-island', 'C09', 'c09_wake'), ('nosleep-does-not-wake', 'C10', 'c10_awake'),
    ('type-no-touch', 'C08', 'c08_present'), ('asleep-fixture-proxies-stay', 'C01', 'c01_proxies'), ('impulses-by-position', 'C04', 'c04_carry'),
    ('negative-group-uses-masks', 'C05', 'c05_no'), ('clockwise-spin-unclamped', 'C11', 'c11_velocity'),
    ('impulse-lever-from-origin', 'C12', 'c12_impulse'), ('mass-data-keeps-velocity', 'C13', 'c13_velocity'),
    ('rope-limit-one-sided-spin', 'C14', 'c14_angular'), ('friction-bound-first-point', 'C15', 'c15_friction'),
    ('restitution-threshold-larger', 'C15', 'c15_coef'), ('pulley-position-drops-ratio', 'C17', 'c17_hold'),
    ('limits-need-both-changed', 'C18', 'c18_set'), ('unbuffer-first-only', 'C19', 'nopair'), ('ray-stops-on-ignore', 'C20', 'c20_all'),
    ('chain-box-without-skin', 'C21', 'c21_box'), ('polygon-ray-inside', 'C21', 'c21_ray'), ('distance-first-radius-only', 'C22', 'c22_witness'),
    ('cast-point-without-skin', 'C22', 'c22_cast'), ('flipped-ids-not-swapped', 'C23', 'c23_features'),
    ('second-ground-anchor-stays', 'C24', 'c24_joint'), ('previous-step-shared', 'C25', 'c25_state'), ('rope-reset-keeps-speed', 'C27', 'c27_step'),
    ('draw-first-child-box', 'C28', 'c28_count, c28_missing'), ('bullet-lost-with-type', 'C29', 'c29_body'),
    ('inverse-needs-positive-det', 'C30', 'c30_matrix'), ('negative-turns-kept', 'C30', 'c30_sweep'),
    ('loaded-group-dropped', 'C26', 'c26_load'), ('saved-hinge-angle-recomputed', 'C26', 'c26_load'),
    ('moving-wall-passes-sleeper', 'C16', 'c16_side'),
]

TAIL = r'''
## 4. Planted bugs

Each is a patch of the original sources that compiles and passes the tests. The
last column names the clause that reported it.

%s

Beyond these, random mutants of the sources (one operator, constant or statement
changed) were run against the checks of the file's properties while the
machinery was written; the survivors that are not equivalent led to clauses
`c04_carry`, `c15_coef`, `c18_read`, `c23_features`, `c11_transform`, the channel and
repeated-throw scenes of C16, and others.

## 5. Defects found and repaired

Listed in `known_findings.txt` with the commits in /repo. There are no unrepaired
known findings.

## 6. False alarms met, and what they changed

* C02 first demanded a contact as soon as two *shapes* overlap. A contact is only
  promised for overlapping stored boxes after the step in which the pair was
  found; the statement and the clause were corrected.
* C16 demanded that a body never ends beyond a wall. Shapes that overlap at the
  start of a step, and worlds in which continuous collision was switched off while
  a sub-step was unfinished, are outside the promise; they are recognised from
  the history and not judged.
* C15 judged friction and approach on unconverged solutions. They are now judged
  only when a twin world with more iterations agrees.
* C27 judged ropes that were about to blow up (explicit springs with large steps
  are unstable by nature); see guard `Calm`.
* C23 took the direction of a one-sided edge as final in deep overlap; both signs
  are allowed there.
* C30: the side on which a ray meets a box without thickness is not defined.

## 7. Limits

* Floats are compared with tolerances, stated in the modules next to their use
  (typically 2^-10 of a metre, 2^-12 of a radian). Deviations below are not seen.
* Laws that hold only for converged solvers are judged only there; the iteration
  counts users choose are covered by the laws that always hold (momentum, signs,
  clamps, bounds).
* Closed models use two or three bodies / proxies on a small grid. Larger worlds
  are covered by recorded executions only.
* Mutants known to survive because no user can tell: the block solver's third case
  uses a matrix entry multiplied by zero; initial values overwritten before use
  (`damper` of rope constraints, inverse inertia in `reset_mass_data`); factors of
  one (`B2_LENGTH_UNITS_PER_METER`).
* Timing (profile values) is not specified.
'''


def main():
    import json, os, re
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    clauses = {}
    for f in sorted(os.listdir(root + '/spec')):
        if f.startswith('Trace') and f.endswith('.tla'):
            t = open(root + '/spec/' + f).read()
            for m in re.finditer(r'(C\d\d) *\|-> *\{([^}]*)\}', t):
                clauses.setdefault(m.group(1), []).extend(re.findall(r'"(\w+)"', m.group(2)))
    props = [json.loads(x) for x in open(root + '/properties.jsonl')]
    clauses['C19'] = re.findall(r'n = "(\w+)" ->', open(root + '/spec/TraceTree.tla').read())
    out = HEAD
    for p in props:
        mods, oracle, bounds = P[p['id']]
        cl = sorted(set(clauses.get(p['id'], [])))
        out += '### %s %s\n\n* Modules: %s\n* Oracle: %s\n* Bounds (quick): %s\n* Clauses: %s\n\n' % (
            p['id'], p['title'], mods, oracle, bounds, ', '.join('`%s`' % c for c in cl) or '-')
    table = '| bug | property | clause |\n|---|---|---|\n' + '\n'.join('| %s | %s | %s |' % c for c in CAUGHT)
    out += TAIL.lstrip() % table
    open(root + '/DESIGN.md', 'w').write(out)


main()
