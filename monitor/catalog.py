"""Catalogue of the properties: the single source of properties.jsonl and MANIFEST.json (see gen.py)."""

S = "safe_autonomy_dynamics/"
BM = S + "base_models.py"
PM = S + "cwh/point_model.py"
RM = S + "cwh/rotational_model.py"
SD = S + "cwh/sixdof_model.py"
SUN = S + "cwh/sun_model.py"
DU = S + "dubins.py"
IN = S + "integrators.py"
UT = S + "utils.py"
AB = S + "external/aerobench/"
LL = AB + "lowlevel/"

CATALOG = []


def P(pid, module, title, statement, over, otext, why, files, mechanism, observe, technique, note, budget=None):
    CATALOG.append(dict(
        id=pid, module=module, title=title, statement=statement, over=over, otext=otext, why=why, files=files,
        mechanism=mechanism, observe=observe, technique=technique, note=note, budget=budget or {}))


P("C01", "dyn_cwh", "Spacecraft translation follows the Clohessy-Wiltshire equations",
  "For the point-mass, planar-rotating and six-degree-of-freedom spacecraft, any mass, mean motion, position, velocity, attitude, constant "
  "thrust within limits and step length, the position and velocity after a step are the solution of the Clohessy-Wiltshire equations with "
  "that thrust (expressed in Hill's frame) divided by the mass, to integrator accuracy, and the reported derivative is their right-hand side "
  "at the end of the step. In-plane and out-of-plane motion do not disturb each other and drift-free, unforced orbits stay closed.",
  ["inputs", "configurations", "histories"],
  "every mass, mean motion, state, thrust, step length and step history, for three spacecraft kinds and each integration method they offer",
  "Tests step two spacecraft kinds from a handful of states with default mass and mean motion; the rotating planar spacecraft's tests do not "
  "even load on this Python.",
  [PM, RM, SD],
  [("linear CW system and input matrices", PM), ("translational block of the planar-rotation model", RM), ("translational block of the 6-DOF model", SD)],
  ["entity state after each step", "entity.state_dot"],
  "online trace monitor against an independent closed-form/high-order Clohessy-Wiltshire reference model",
  "Every step of randomised multi-step histories is compared with matrix-exponential or DOP853 solutions of independently written equations; "
  "assurance covers the sampled configurations, tolerances are the solver's own measured error x10.")

P("C02", "dyn_attitude", "Rigid-body attitude follows quaternion kinematics and Euler's equations",
  "For the six-degree-of-freedom spacecraft, any principal inertias, attitude, body rates and moments within limits, the attitude quaternion "
  "and body rates evolve by quaternion kinematics and Euler's rotational equations to integrator accuracy: the attitude stays a unit "
  "quaternion, it turns by exactly the body rates, and rates change only by the applied moments and gyroscopic coupling. Without moments and "
  "away from the rate limits, kinetic energy and angular momentum in Hill's frame are conserved; a spacecraft given no attitude starts at the "
  "identity attitude.",
  ["inputs", "configurations", "histories"],
  "every principal inertia triple, unit quaternion, body rate and moment vector, step length and step history",
  "Tests compare single steps at default (spherical) inertia, where the gyroscopic terms vanish and most quaternion terms are zero.",
  [SD], [("quaternion derivative and Euler equations", SD + " state_transition_system"), ("moment input", SD + " state_transition_input")],
  ["entity quaternion and angular velocity after each step", "entity.state_dot"],
  "online trace monitor: conservation invariants plus independent rigid-body reference integration",
  "Unit norm, energy and momentum invariants and the reference trajectory are checked at every step of sampled histories.")

P("C03", "dyn_thrust", "Thrust acts along the spacecraft's own axes and moments about them",
  "For spacecraft with an attitude, thrust commanded on a body axis accelerates the craft along that body axis' direction in Hill's frame "
  "with magnitude thrust over mass, for every attitude, and a six-degree-of-freedom craft configured for Hill-frame thrust is accelerated "
  "along Hill's axes whatever its attitude. In the planar craft the heading angle turns at the body rate and the body rate changes by moment "
  "over inertia; attitude and rates are unaffected by thrust and translation is unaffected by moments except through attitude.",
  ["inputs", "configurations", "histories"],
  "every attitude, mass, inertia, thrust and moment combination, backend and step history",
  "Tests use attitudes aligned with an axis or zero thrust; Hill-frame thrust and the planar craft are not exercised by tests that run here.",
  [RM, SD], [("body-to-Hill thrust rotation (planar)", RM + " state_transition_input"), ("body-to-Hill thrust rotation (quaternion)", SD + " apply_quat/state_transition_input")],
  ["change of velocity over short steps relative to the unforced step", "published input matrix", "entity.orientation"],
  "differential runtime monitor: forced minus unforced motion against the orientation the entity reports",
  "The oracle uses rotation matrices built independently of the code's quaternion products; sampled attitudes, forces and frames.")

P("C04", "dyn_dubins", "Dubins aircraft follow the kinematics of coordinated flight",
  "For 2D and 3D Dubins aircraft, any state within limits, controls within limits and step length, position changes by the velocity given by "
  "speed, heading and flight-path angle, heading turns at the commanded rate (2D) or at g/v*tan(roll) (3D), and speed, flight-path angle and "
  "roll change at the commanded rates until they reach their limits, where they stay while still being commanded outward. The state after a "
  "step and the reported derivative agree with these equations to integrator accuracy, whatever the configured limits.",
  ["inputs", "configurations", "histories"],
  "every state, control, limit configuration, step length and step history for both aircraft kinds",
  "Tests check a few single steps at default limits, mostly straight and level flight without saturation.",
  [DU, BM], [("2D and 3D state equations", DU), ("rate clipping at state limits", BM + " compute_state_dot")],
  ["entity state after each step", "entity.state_dot"],
  "online trace monitor against an independent saturating kinematic reference model",
  "Reference integrates with exact saturation switching; tolerance is the solver's measured error x10 plus a floor.")

P("C05", "dyn_integrator", "Point-mass integrators obey damped Newtonian motion axis by axis",
  "For 1D, 2D and 3D point-mass integrators, any mass, damping, state, thrust within limits and step length, each axis' velocity changes by "
  "thrust over mass minus damping times velocity and its position by the velocity, to integrator accuracy. Each named thruster acts on its "
  "own axis only, and axes never influence one another.",
  ["inputs", "configurations", "histories"],
  "every mass, damping, state, thrust, dimension, step length and step history",
  "No test exercises these entities at all.",
  [IN], [("dynamics matrices", IN + " generate_dynamics_matrices"), ("actuator names", IN + " control_map")],
  ["entity state after each step", "entity.state_dot"],
  "online trace monitor against closed-form damped motion",
  "Closed-form solution per axis compared on every step of sampled histories.")

P("C06", "saturation", "Controls beyond actuator limits act exactly as the nearest limit",
  "For every entity kind, configuration and action form, stepping with a control outside the actuator limits gives the same result as stepping "
  "with that control clipped, component by component, to the documented or configured limits, and controls inside the limits act unclipped. "
  "A warning is issued when, and only when, some component exceeds its limit.",
  ["inputs", "configurations", "histories"],
  "every control vector (inside, on and outside the limits, per component and jointly), every configured limit pair, every entity kind",
  "Tests check default limits on a few entities with one out-of-range value, and never the warning.",
  [BM, PM, RM, SD, DU, IN], [("control clipping and warning", BM + " BaseEntity.step"), ("limit configuration", "entity constructors")],
  ["entity state and state_dot after twin runs", "warnings raised"],
  "twin-run (metamorphic) monitor with limits known from configuration, plus warning observer",
  "Clipped and unclipped twins are compared on sampled controls for every kind; the limits are the oracle's own, not read from the entity.")

P("C07", "wheels", "Rotation limits honour both the craft's and its reaction wheel's capability",
  "For spacecraft with reaction wheels, any inertias, wheel inertia, wheel rate and acceleration limits and craft rate and acceleration limits "
  "(one number, or per axis where supported, as list or array), the moment that can be applied about an axis is the smaller of the craft's "
  "angular-acceleration limit and the wheel's acceleration capability (wheel inertia times wheel limit over craft inertia) times the craft's "
  "inertia, and the body rate never exceeds the smaller of the craft's rate limit and the wheel's rate capability. Whatever the history of "
  "moments, each axis can be driven up to, and back from, its limits in both directions.",
  ["inputs", "configurations", "histories"],
  "every combination of craft and wheel parameters, scalar or per-axis, and every history of moments",
  "Tests only run default wheel parameters, where one particular limit is always the active one; the planar craft's tests do not load here.",
  [RM, SD, UT], [("combined limits", RM), ("combined limits per axis", SD), ("per-axis limit parsing", UT)],
  ["body rates and moments realised over histories"],
  "state-bound monitor over adversarial moment histories with independently computed capability",
  "Both which limit is active and per-axis asymmetry are sampled; saturating moments drive every axis to both bounds and back.")

P("C08", "actions", "Equivalent ways of giving an action have the same effect",
  "For every entity kind, no action equals the neutral control, and a control given as a dictionary of actuator names (missing names neutral, any "
  "order), a list, a NumPy array or a JAX array of the same values leads to the same next state, to single precision for lists and JAX. "
  "Every actuator name addresses its documented actuator, an unknown name or an unsupported action type is refused with an error without "
  "changing the entity, and one step's action never carries over into a later step.",
  ["inputs", "histories", "configurations"],
  "every control vector, every subset and order of actuator names, every action container and dtype, every history of mixed forms",
  "Tests pass each form on one or two entities with one value and never mix forms over a history.",
  [BM, PM, RM, SD, DU, IN], [("action unpacking", BM + " BaseEntity.step"), ("actuator name maps", "entity constructors")],
  ["next states of twins fed different forms", "exceptions"],
  "twin-run monitor over mixed-form histories",
  "All subsets of actuator names up to the sampled histories; results of each form compared with a reference twin fed arrays.")

P("C09", "statelimits", "States never leave their limits and can always return from them",
  "Whatever the controls, step lengths, initial state and history, after every step each limited state component (speeds, flight-path angle, "
  "roll, body rates, and any user-configured limit of library dynamics, scalar or per component, one- or two-sided) lies within its limits, "
  "and unlimited components are never clipped. A component at its limit does not move further outward, leaves the limit as soon as it is "
  "commanded inward, and while it is held at the limit the rest of the motion uses the limited value.",
  ["inputs", "configurations", "histories"],
  "every limit configuration, control history, step length and initial state, including ones outside the limits, for every integration method",
  "Tests check a few saturating steps at default limits with one integration method.",
  [BM, DU, RM, SD], [("state clipping", BM + " BaseDynamics.step"), ("derivative clipping at limits", BM + " compute_state_dot")],
  ["entity state, state_dot after each step"],
  "invariant monitor over adversarial histories, plus saturation reference",
  "Bounds are checked after every step of saturating histories for built-in entities and custom dynamics with sampled limits.")

P("C10", "wrapping", "Wrapped angles stay in range without changing what they mean",
  "After every step each angle configured to wrap lies within pi of its wrap centre and is congruent, modulo a full turn, to the angle that "
  "motion without wrapping would have reached, for any centre, starting angle and number of turns. No other state component is altered by "
  "wrapping, and motion across the wrap boundary is the same as away from it.",
  ["inputs", "configurations", "histories"],
  "every wrap centre, starting angle, turn rate and number of turns within a step, and every history crossing the boundary",
  "Tests wrap once or twice with centre zero; nonzero centres and multi-turn histories are never run.",
  [BM, DU, RM], [("angle wrapping", BM + " _wrap_angles"), ("wrap configuration", DU), ("wrap configuration", RM)],
  ["entity state after each step of wrapped and unwrapped twins"],
  "twin-run monitor: wrapped dynamics against unwrapped twin, congruence and range invariants",
  "Sampled centres, angles and rates over multi-turn histories, for library entities and custom dynamics.")

P("C11", "statedot", "The reported state derivative is the one at the end of the step",
  "After every step the reported state derivative equals the model's right-hand side at the new state under the applied (limited) control, for "
  "every entity kind and integration method, with rate limits applied and no outward component for states at their limits. It is zero before "
  "the first step, and it never exceeds configured rate limits.",
  ["inputs", "configurations", "histories"],
  "every state, control, rate- and state-limit configuration, integration method, backend and history",
  "Tests compare it in a handful of single steps, never with Euler or JAX integration and never with rate limits.",
  [BM], [("end-of-step derivative", BM + " _step"), ("rate limits", BM + " compute_state_dot")],
  ["entity.state_dot after each step"],
  "online trace monitor against independent right-hand sides",
  "Every kind's derivative is recomputed independently at the state the entity reports.")

P("C12", "affine", "Published control-affine models agree with the motion",
  "For every control-affine model, at any state inside its limits the published drift term plus the published input matrix times any control "
  "equals the published derivative of the state (where no rate limit is active), does not depend on time, and equals the derivative actually "
  "realised by short steps. The published derivative is therefore affine in the control, and linear models publish exactly the matrices they "
  "were given.",
  ["inputs", "configurations"],
  "every state, control, parameter set and backend of every control-affine model, built-in or user-defined",
  "Tests never compare the published terms with the motion; safety filters built on them rely on it everywhere.",
  [BM, PM, RM, SD, DU, IN], [("derivative from drift and input terms", BM + " BaseControlAffineODESolverDynamics"), ("drift and input terms", "each dynamics class")],
  ["state_transition_system", "state_transition_input", "compute_state_dot", "short-step motion"],
  "consistency monitor over published model terms and realised motion",
  "Algebraic agreement to rounding and finite-difference agreement at sampled states and controls.")

P("C13", "composition", "Steps compose and the dynamics do not depend on absolute time",
  "Splitting a step into consecutive shorter steps under the same control reaches the same state to integrator accuracy, a zero-length step "
  "leaves the state unchanged, and the outcome of a step depends only on the current state, control and step length, not on how many steps or "
  "how much time came before. The evolution advances for the full requested duration, however long or short.",
  ["inputs", "histories", "configurations"],
  "every split of every step length, every entity kind and every history leading to the state",
  "Tests take isolated steps; none compare one long with several short ones.",
  [BM], [("integration over exactly the step", BM + " _step")],
  ["entity states of split and unsplit twins"],
  "twin-run monitor over randomly split schedules",
  "Tolerance from the measured solver error of an independent reference x10.")

P("C14", "methods", "Integration methods and numeric backends agree",
  "For the same model, state, control and step, the accurate methods on either numeric backend (NumPy or JAX, including limits and wrapping) reach "
  "the same state within their stated accuracy, and the Euler method takes exactly one explicit Euler step of the limited derivative. An "
  "unknown method, or the JAX method without the JAX backend, is refused without changing the entity.",
  ["inputs", "configurations", "histories"],
  "every model offering the methods and backends, with every limit, wrap and parameter configuration, over histories",
  "No test that runs uses Euler or JAX integration.",
  [BM, RM, SUN], [("method dispatch", BM + " _step"), ("backend selection", BM + " BaseDynamics.__init__")],
  ["entity states and derivatives of twins using different methods and backends"],
  "differential monitor across methods and backends",
  "Cross-method differences bounded by single precision for JAX and by explicit formula for Euler, on sampled models and histories.")

P("C15", "trajectory", "Sampled trajectories cover the step evenly and end where it ends",
  "When N trajectory samples are requested, each step stores exactly N states at evenly spaced times ending at the step length, each the state "
  "the entity would have reached at that time, the last being the end of the step. Requesting samples does not change the result of the "
  "step beyond integrator accuracy, every step replaces the previous samples, and methods that cannot sample refuse to.",
  ["inputs", "configurations", "histories"],
  "every N, step length, entity kind, control and history",
  "No test requests trajectory samples.",
  [BM], [("sample times and storage", BM + " _step")],
  ["dynamics.trajectory", "dynamics.trajectory_t", "entity state"],
  "trace monitor comparing samples with an independently integrated path",
  "Sample count, spacing, endpoint and intermediate states for sampled N and histories.")

P("C16", "isolation", "Entities are isolated: no aliasing, hidden state or shared history",
  "Stepping or modifying one entity never affects another, whatever the interleaving, and equal histories give equal results every time. "
  "Arrays passed to an entity or model (actions, states, matrices) are never modified and may be changed afterwards without effect, and "
  "states, positions and velocities read from an entity are snapshots that neither change later nor let the reader change the entity. An "
  "entity's future depends only on its current state and parameters, not on how it got there.",
  ["histories", "inputs", "configurations"],
  "every interleaving of operations on several entities, every mutation of passed or returned arrays, every history leading to the same state",
  "Tests use one entity at a time and never mutate inputs or outputs.",
  [BM, PM, RM, SD, DU, IN], [("state getter/setter copies", BM), ("control copies", BM + " BaseEntity.step"), ("matrix copies", BM + " BaseLinearODESolverDynamics")],
  ["entity states, passed and returned arrays before and after"],
  "history monitor: interleaved run against solo replays, with mutation of every exchanged array",
  "Interleaved multi-entity histories replayed solo must agree to rounding; all exchanged arrays are poisoned after use.")

P("C17", "atomicity", "A failed step is reported and leaves the entity as it was",
  "If a step cannot be carried out (unknown actuator, unsupported or ill-shaped action, a model that raises at any point of the integration, or, "
  "for the adaptive NumPy integrator, a non-finite derivative or a solution that blows up) an error is raised in bounded time, and the entity's "
  "state, reported derivative and neutral control are exactly as before. The next valid step then behaves as if the failed one had never been "
  "asked for, and a step is never silently cut short.",
  ["fault_sequences", "inputs", "histories", "crash_points"],
  "every failing evaluation of the model within a step, every kind of invalid action, at every point of a history",
  "Tests check two error types on fresh entities and never what is left behind, or a failing model.",
  [BM], [("action validation before integration", BM + " BaseEntity.step"), ("solver failure handling", BM + " _step")],
  ["exceptions", "entity state and derivative before and after"],
  "fault-injection monitor: failures at every model evaluation of a step, with twin never asked to fail",
  "Faults are enumerated at each evaluation index of sampled steps (via user-defined models) and by invalid actions on every kind.")

P("C18", "unitsin", "Initial conditions mean the same in any unit, and bad ones are refused",
  "Any entity's initial condition may be given as a plain number in the entity's documented units or as a quantity in any compatible unit, with "
  "the same resulting state (to single precision), each condition setting only its own state component and missing ones taking documented "
  "defaults. A quantity of the wrong dimension, a value that is not a number, an unknown condition or a missing name is refused.",
  ["inputs", "configurations"],
  "every initial condition of every entity kind, every compatible unit, magnitude and sign, and every incompatible unit",
  "Tests convert a few conditions with one unit each.",
  [BM, PM, RM, SD, SUN, DU, IN], [("unit conversion and validation", BM + " build_unit_conversion_validator_fn"), ("validators", "entity validators")],
  ["entity state after construction", "exceptions"],
  "construction monitor with independent conversion table",
  "All conditions of all kinds times a table of independently coded unit factors, sampled magnitudes.")

P("C19", "unitsout", "Quantities read with units agree with the plain readings",
  "Every reading with units has the magnitude of the plain reading and the entity's documented unit (metres, feet, seconds, radians and their "
  "combinations), at every point of any history, so converting it to another unit gives the physically equal value.",
  ["histories", "inputs", "configurations"],
  "every with-units reading of every entity kind at every state of a history, converted to any compatible unit",
  "Tests read a few of them on fresh entities.",
  [BM, PM, RM, SD, DU], [("with-units accessors", BM), ("unit systems", BM + " BaseUnits")],
  ["all with-units readings"],
  "observer comparing readings with independent unit factors over histories",
  "Every published with-units reading is observed along sampled histories.")

P("C20", "observables", "Position, velocity, acceleration and attitude readings agree with the motion",
  "At every point of any history, the position, velocity, speed, acceleration, attitude angles, quaternion, orientation and angular-velocity "
  "readings of every entity kind describe the same state: velocity is the time derivative of position, the orientation maps the body x axis to "
  "the direction of flight for aircraft and rotates by exactly the reported angles, quaternions are unit and describe that orientation, "
  "acceleration is the rate of change of speed along the direction of flight, and component readings match the vectors. This also holds right "
  "after setting individual state components, and point masses always report the identity orientation.",
  ["histories", "inputs", "configurations"],
  "every state of every entity kind along every history, including directly set states",
  "Tests read them on a few initial states.",
  [BM, PM, RM, SD, DU, IN], [("accessors", "entity classes")],
  ["all readings of an entity", "finite differences of position"],
  "cross-reading consistency monitor over histories",
  "Readings are recomputed from the state vector by independent formulas and from motion by finite differences.")

P("C21", "equality", "Entities compare equal exactly when their kinematic states are equal",
  "For every entity kind except the Sun, two entities of the same kind compare equal when their kinematic states (for aircraft including the current "
  "acceleration) agree, whatever their names or parameters, and unequal when any position, velocity, attitude or rate component differs by any "
  "amount the readings can resolve. Equality is "
  "reflexive and symmetric, never holds between different kinds or with other objects, and follows the entities as they move apart or together.",
  ["inputs", "histories"],
  "every pair of states, differing in any one component or none, every pair of kinds, along histories",
  "Tests compare a few fresh entities; 2D and 3D integrators are never compared.",
  [PM, RM, SD, DU, IN, SUN], [("equality operators", "entity classes")],
  ["== and != results in both directions"],
  "relational monitor over pairs of entities with single-component perturbations",
  "Every component of every kind is perturbed at random states; all kind pairs compared.")

P("C22", "relative", "Relative position and velocity are consistent between observers",
  "A spacecraft's reading of another entity's relative position or velocity in its simulation is the other's position or velocity minus its own at "
  "that moment, so readings are antisymmetric between two craft, add up along chains, are zero for itself, and change with either craft's "
  "motion. An entity that is not part of the simulation is refused, and the simulation may be given at construction or replaced later. "
  "A registered lead or partner is that very entity as it moves, and registering one influences nobody's motion.",
  ["histories", "inputs", "configurations"],
  "every set of craft of any kinds and their histories",
  "Tests read one pair of fresh spacecraft.",
  [PM, RM, SD, DU], [("relative readings", PM), ("relative readings", RM), ("relative readings", SD), ("leads", SD), ("partners", DU)],
  ["relative readings of all ordered pairs after every step"],
  "relational monitor over multi-craft histories",
  "Antisymmetry, chain additivity and direct difference for all ordered pairs at each step of sampled histories.")

P("C23", "customlinear", "User-defined dynamics evolve by their own equations under the configured limits",
  "A user-defined linear model evolves by dx/dt = Ax + Bu, and a user-defined control-affine or general model, or a library model given limits of "
  "the user's own, by its own right-hand side, with state limits, rate limits (scalar or per component, one- or two-sided) and wrap centres "
  "applied exactly as configured, on either backend and any method. Matrices of mismatched shape are refused, and the given ones are copied.",
  ["programs", "inputs", "configurations", "histories"],
  "every A and B of matching shape, right-hand side, limit and wrap configuration, method, backend and history",
  "Tests run a few small linear systems without rate limits.",
  [BM], [("linear and affine solver dynamics", BM)],
  ["model step results over histories"],
  "online trace monitor against matrix-exponential and DOP853 reference of the same user model",
  "Random stable and unstable systems up to dimension 6 with sampled limits.")

P("C24", "sun", "The Sun turns at the mean motion",
  "For any mean motion, initial angle, step length and history, integration method and backend, the Sun's angle changes by the mean motion times "
  "the elapsed time and its reported derivative is the mean motion, with or without wrapping-free accumulation over many turns.",
  ["inputs", "histories", "configurations"],
  "every mean motion, initial angle and unit, schedule of steps, method and backend",
  "No test runs the Sun model.",
  [SUN], [("sun dynamics", SUN)],
  ["sun angle and derivative after each step"],
  "online trace monitor against the closed form",
  "Closed form compared after each step of sampled schedules.")

P("C25", "f16_rigid", "The F-16 model obeys rigid-body flight mechanics",
  "For both aerodynamic models, any state in the flight envelope and any controls, the F-16 state derivative equals rigid-body flight mechanics: "
  "ground velocity is the airspeed vector rotated by the attitude, Euler-angle rates follow the body rates, airspeed, angle of attack and "
  "sideslip change by aerodynamic force, thrust and gravity with rotation, body rates by aerodynamic moments, inertia and engine momentum, and "
  "power by the engine lag. The derivative is unaffected by horizontal position and, apart from the direction of ground velocity, by heading; "
  "the reported load factors are the sensed accelerations over g, and the given state is not modified.",
  ["inputs"],
  "every state in the flight envelope, every control vector, both models, with and without accelerometer offset",
  "No test runs the F-16 model.",
  [LL + "subf16_model.py", LL + "pdot.py", LL + "adc.py"], [("state equations", LL + "subf16_model.py")],
  ["state derivative and load factors"],
  "invariant monitor plus independent vector-form rigid-body reference model",
  "Vector-form equations of motion written independently with rotation matrices; coefficients re-tabulated.")

P("C26", "f16_aero", "F-16 aerodynamic and engine data are interpolated faithfully",
  "Throughout the flight envelope every aerodynamic coefficient, damping derivative, thrust, throttle gearing, engine lag and atmosphere value equals "
  "the piecewise-linear (or documented closed-form) interpolation of the published data, exactly at the data points and continuously between "
  "them, with the published symmetries in sideslip. The polynomial model saturates its inputs at the ends of its validity range and changes "
  "continuously with all of its inputs.",
  ["inputs"],
  "every angle of attack, sideslip, surface deflection, altitude, Mach number, power and rate in the envelope, on and between data points",
  "No test runs the F-16 model.",
  [LL + f for f in ("cx.py", "cy.py", "cz.py", "cl.py", "cm.py", "cn.py", "dlda.py", "dldr.py", "dnda.py", "dndr.py", "dampp.py", "thrust.py", "tgear.py", "rtau.py", "pdot.py", "adc.py", "morellif16.py")],
  [("table interpolation", LL), ("polynomial model", LL + "morellif16.py")],
  ["coefficient values"],
  "differential monitor against independent grid interpolation of the published tables, with continuity and symmetry invariants",
  "All grid nodes, cell midpoints and edges are visited, plus random points.")

P("C27", "f16_lqr", "The F-16 controller respects actuator limits and settles to its references",
  "For any state and reference, the commanded throttle and surface deflections lie within the actuator limits, equal the trim controls plus the "
  "linear feedback of the deviation from trim whenever that is within them, and the closed-loop derivative is the airframe's under exactly those "
  "controls with each error integrator growing by output minus reference. From states near trim the closed loop settles back to straight and "
  "level references within a bounded time, and no given state or reference is modified. Limits, gains and trim point configured for one controller govern it "
  "and no other.",
  ["inputs", "configurations", "histories"],
  "every state (including integrators), reference, aerodynamic model and integrator variant, and closed-loop histories from near trim",
  "No test runs the controller.",
  [LL + "low_level_controller.py", AB + "controlled_f16.py"], [("feedback and saturation", LL + "low_level_controller.py"), ("closed loop", AB + "controlled_f16.py")],
  ["commanded controls", "closed-loop derivative", "closed-loop histories"],
  "online monitor of control law, saturation invariants and bounded-settling over simulated histories",
  "Controls recomputed independently; settling restated as bounded progress within a fixed simulated time.")

P("C28", "f16_trim", "The F-16 trim cost vanishes exactly in the steady flight it asks for",
  "For each steady flight condition (level, climb, coordinated turn, pull-up) and either aerodynamic model, the trim constraints set exactly the "
  "state components that condition fixes and no others, engine power matches the throttle, and the cost is the condition's weighted squared "
  "deviation of the derivatives from the steady values (its square root below one), so it is never negative and zero only in that steady flight.",
  ["inputs"],
  "every flight condition, speed, altitude, climb angle, turn and pitch rate, and trim vector",
  "No test runs the trim functions.",
  [LL + "clf16.py", LL + "conf16.py"], [("trim cost", LL + "clf16.py"), ("trim constraints", LL + "conf16.py")],
  ["trim cost and constrained state"],
  "reference-model monitor over sampled trim problems, including numerically trimmed flight",
  "Cost and constraints recomputed independently at sampled points and at optimised trims.")

P("C29", "euler_util", "The fixed-step Euler integrator covers its interval exactly",
  "For any interval, step size and right-hand side, the fixed-step Euler integrator visits start, start+step, ... and finally exactly the end time, never "
  "beyond it and in no more steps than needed, each step adding the step length times the derivative at its start. It then stays finished, its "
  "interpolant is linear between the two latest points and stays that of its step afterwards, and the given initial state is not modified.",
  ["inputs", "programs", "histories"],
  "every interval, step (dividing the interval or not), dimension and right-hand side, over complete runs",
  "No test runs it.",
  [AB + "util.py"], [("Euler integrator", AB + "util.py")],
  ["times, states and status after each step", "interpolant values"],
  "online trace monitor over complete integrations",
  "Each run is followed step by step against the defining recurrence.")

P("C30", "safety", "The safety verifier accepts exactly the runs within all limits",
  "For any simulation result, with or without controller states, the safety verifier raises when, and only when, at some recorded time some "
  "configured limit (altitude, normal load factor, airspeed and angle of attack in the recorded units, roll rate and sideslip magnitude in degrees) is violated, "
  "whichever time, limit and side, values exactly on a limit being safe and unset limits ignored.",
  ["inputs", "configurations", "histories"],
  "every recorded history, every subset of limits, every violating time and side",
  "No test runs it.",
  [AB + "util.py"], [("safety verifier", AB + "util.py")],
  ["verifier verdict"],
  "planted-violation monitor over synthetic and simulated histories",
  "Synthetic histories safe by construction, then with exactly one violation planted at each position, limit and side.")

P("C31", "extract", "Results extracted for one aircraft are exactly that aircraft's own",
  "For any number of aircraft and time steps, extracting one aircraft's results from a joint simulation yields exactly that aircraft's columns of "
  "states and its own entries of every recorded output, unchanged and with the common times, modes and status, so the extractions together hold "
  "every recorded value once. State names, indices and state vector layout agree.",
  ["inputs", "configurations"],
  "every number of aircraft, index, number of times and recorded outputs",
  "No test runs it.",
  [AB + "util.py"], [("result extraction", AB + "util.py")],
  ["extracted results"],
  "partition (conservation) monitor with uniquely tagged values",
  "Every recorded value carries a unique tag, so each must be found exactly once at its owner.")

P("C32", "finite", "Valid operation never produces non-finite numbers or hidden arithmetic faults",
  "From any valid configuration, state and finite control, every step of every entity kind, model and method keeps all states, derivatives and "
  "readings finite, with no division by zero, invalid operation or overflow on the way, including at limits, at zero rates and speeds where "
  "defined, at extreme controls, and for very short and long steps.",
  ["inputs", "configurations", "histories"],
  "every valid configuration, state and control, including boundary values, over long histories",
  "Tests only see the values they compare.",
  [BM, PM, RM, SD, DU, IN, SUN, LL], [("models and accessors", "all modules")],
  ["floating-point exceptions raised during steps", "states, derivatives and readings"],
  "floating-point sanitizer: NumPy FP-exception traps plus finiteness monitor on all readings",
  "NumPy division/invalid/overflow traps are armed during every step of boundary-heavy histories.")

P("C33", "threads", "Distinct entities may be stepped concurrently",
  "When distinct entities, of the same or different kinds, are stepped from different threads at the same time, each one's sequence of states and "
  "derivatives is the same as when it is stepped alone, whatever the schedule.",
  ["schedules", "histories", "configurations"],
  "every interleaving of steps of distinct entities by several threads",
  "All tests are single-threaded.",
  [BM, PM, RM, SD, DU, IN], [("no shared mutable state between entities", "all modules")],
  ["per-entity logs of states and derivatives under concurrent and solo runs"],
  "concurrency stress monitor: per-entity logs under seeded line-level thread schedules and free running, against solo runs",
  "Seeded controlled schedules switch threads at library source lines, plus free-running threads with a tiny switch interval; distinct "
  "interleavings observed are counted, not enumerated.")

P("C34", "matrices", "Generated model matrices are exactly those of the documented equations",
  "For any mass and any mean motion or damping (given by position, by keyword or left to default), the matrix generators for Clohessy-Wiltshire "
  "(2d, 3d) and integrator (1d, 2d, 3d) models return, in double precision, the state and input matrices of the documented linear equations with "
  "positions before velocities and one control per axis; every call returns fresh matrices, an unknown dimensionality is refused, and a linear "
  "model built over them moves as those equations prescribe.",
  ["inputs", "configurations"],
  "every family, dimensionality, mass, mean motion or damping, state, control and step length",
  "Tests compare a few matrices at default parameters.",
  [PM, IN, BM], [("Clohessy-Wiltshire matrix generator", PM + " generate_cwh_matrices"), ("integrator matrix generator", IN + " generate_dynamics_matrices")],
  ["generated matrices", "states stepped by a linear model over them"],
  "postcondition monitor on every generated matrix pair, built column by column from the equations, plus matrix-exponential reference motion",
  "Matrices are compared entry by entry with a relative tolerance of 1e-14.")

P("C35", "refusals", "Ill-formed configuration and requests are refused, not guessed",
  "A value that cannot be what was asked for is refused with an error and leaves nothing behind: per-axis limits or arrays of the wrong shape, "
  "type or precision, arguments a constructor does not have, a missing name, actions longer or shorter than the control vector, integration methods, "
  "aerodynamic models, controller gains or dimensionalities that do not exist, fractional numbers of trajectory samples, states, controls or references "
  "of the wrong length in the aircraft model, and setting an attribute a controller, limits or integrator object does not have (its existing "
  "attributes stay settable, per object). Well-formed numbers, lists and arrays are taken as given, a number standing for every axis.",
  ["inputs", "configurations", "histories"],
  "every way of giving or malforming these values, for every kind",
  "Tests check a few unit mismatches.",
  [UT, BM, SD, DU, IN, AB + "controlled_f16.py", AB + "util.py", LL + "low_level_controller.py", LL + "subf16_model.py"],
  [("array conversion", UT), ("configuration models", BM), ("frozen helper objects", AB + "util.py")],
  ["whether the call raises", "state, attributes and limits afterwards"],
  "fault-injection monitor: malformed requests against a must-refuse oracle with before/after state comparison",
  "Only requests listed in the statement count as ill-formed.")

P("C36", "ambient", "Results depend only on the model; using the library disturbs nothing else",
  "The same configuration and actions give bit-for-bit the same states, derivatives and readings whenever, wherever and next to whatever they are run: in "
  "another process, hash seed, import order, interpreter optimisation, locale or time zone, under other random seeds, print options, floating-point error, "
  "warning or decimal settings, and working directory. Building, stepping and reading models leaves the process as it was: random states, error and warning "
  "settings, environment, units registry, JAX configuration, threads and files are unchanged, nothing is printed, and memory kept does not grow with the "
  "number of steps.",
  ["histories", "configurations"],
  "every kind of entity, F-16 and Euler history in every process state",
  "Tests run in one process state and look at values only.",
  [BM, PM, RM, SD, DU, IN, SUN, LL, AB + "util.py"], [("stateless models and module-level state", "all modules")],
  ["states, derivatives and readings, bit for bit", "process-wide settings before and after", "allocated memory blocks per step", "output streams and files"],
  "differential replay monitor across perturbed process states and fresh interpreters, with before/after snapshots of process-wide state and allocation growth",
  "Fresh interpreters are of the same version and machine; JAX runs with the same XLA flags.")

P("C37", "printing", "Printed matrices show what they are given",
  "Printing a matrix of any size, given as list, array or single vector, writes its own label, each column label, and each row under its own label with every "
  "entry in order to the digits its column width allows, without changing the matrix; row labels that do not match the rows are refused.",
  ["inputs"],
  "every matrix, label and layout whose entries fit their columns",
  "No test runs it.",
  [AB + "util.py"], [("matrix printing", AB + "util.py printmat")],
  ["captured standard output"],
  "round-trip monitor: the printed text is parsed back and compared with the matrix",
  "Entries too wide for their column run together by design and are not compared.")

P("C38", "defaults", "Options left out mean their documented defaults",
  "Leaving out any subset of an entity's or model's options gives exactly the behaviour of giving their documented defaults: mass 12 kg and mean motion "
  "0.001027 rad/s for spacecraft, inertia 0.0573, thrust limit 1 N, rotation limits 0.017453 rad/s^2 and 0.034907 rad/s and the reaction wheel's; speed 200 to "
  "400 ft/s, path angle +-20 deg, roll +-60 deg, +-10 deg/s heading and path-angle rates, +-5 deg/s roll rate, +-96.5 ft/s^2 and 32.17 ft/s^2 gravity for Dubins "
  "aircraft; mass 1 without damping and unit controls for integrators; adaptive integration without samples, limits, wrapping or JAX; zero initial conditions, "
  "minimum speed and identity attitude; and no action means the neutral control.",
  ["configurations", "histories"],
  "every subset of options and initial conditions left out, with the others varied, over saturating histories",
  "Tests build entities with the defaults but hardly reach the limits or combine them with given options.",
  [PM, RM, SD, DU, IN, SUN, BM], [("default values", "all constructors and configuration validators")],
  ["states, derivatives and control limits of an entity with options left out and of one with them given"],
  "differential monitor: histories with options left out against histories with the documented values given",
  "Angles documented as fractions of pi are taken at the six digits the code documents beside them.")
