"""Writes /verif/properties.jsonl (kept as code so that wording stays reviewable)."""
import json, os
P = []
S = "src/pytorch_kinematics/"


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                               mechanism=[dict(name=a, where=S + b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


p("C01", "Forward kinematics on a shared model is right for every caller",
  "However many callers share one robot model, in whatever order or interleaving their queries run and whatever other "
  "queries, failed requests or batch sizes came before, each pose returned for a frame is the composition of the "
  "described fixed offsets and joint motions from the root to that frame. This holds for branching and serial models, "
  "for every accepted form of joint values (tensor, array, list, mapping by joint name; one or many configurations) and "
  "for any selection of frames, and a pose already handed out never changes because of a later query.",
  ["schedules", "histories", "inputs"],
  "all interleavings of queries by concurrent callers on one model, all preceding histories of good and bad queries, "
  "all robot trees of fixed, revolute, continuous and prismatic joints, all joint values and input forms",
  "Tests issue single queries on a handful of fixed robots from one thread and look at each answer once, right away; "
  "no test has two callers, a failed query before a good one, or looks at an old answer again.",
  ["chain.py", "frame.py", "transforms/rotation_conversions.py", "transforms/transform3d.py"],
  [("level-by-level composition of per-frame local transforms", "chain.py:_fk_impl"),
   ("input normalisation", "chain.py:Chain.ensure_tensor, SerialChain.convert_serial_inputs_to_chain_inputs"),
   ("memoised frame index look-up", "chain.py:Chain.get_frame_indices")],
  [("static offsets, BFS levels, joint indices", "flat representation of the tree shared by all queries",
    "chain.py:Chain.__init__")],
  ["Chain.forward_kinematics", "SerialChain.forward_kinematics", "forward_kinematics_tensor"])

p("C02", "Jacobians on a shared serial model are right for every caller",
  "Every Jacobian a serial model returns maps joint rates to the linear velocity of the requested tool point and the "
  "angular velocity of the end effector, both expressed in the base frame, and the optionally returned pose is that "
  "tool's pose. This holds with or without a tool offset (shared, per configuration, or a full transform), however the "
  "query is interleaved with other callers' queries on the same model and whatever queries, tool offsets or failures "
  "came before.",
  ["schedules", "histories", "inputs"],
  "all interleavings and histories of pose and Jacobian queries with differing tool offsets and batch sizes, all serial "
  "robots, all joint values",
  "Tests compare a few Jacobians of three robots with PyBullet or autograd, one query at a time; sharing, alternation of "
  "tool offsets between queries, and failures in between are never exercised.",
  ["chain.py", "jacobian.py"],
  [("geometric Jacobian from one forward pass plus tool correction", "chain.py:SerialChain.jacobian")],
  [("serial DOF indices, axes, types", "precomputed per model, shared by all queries", "chain.py:SerialChain.__init__")],
  ["SerialChain.jacobian", "SerialChain.jacobian_tensor"])

p("C03", "Gradients through poses are exact whenever the backward pass runs",
  "The gradient of any scalar function of returned poses with respect to the joint values equals the true derivative, "
  "whether it is taken at once or after arbitrary other queries, in any order relative to other pending gradients, more "
  "than once, or by a different caller than the one that made the query. If a caller has meanwhile overwritten the data "
  "a pending gradient needs, or asks for a derivative that is not provided, the result is either correct or an error, "
  "never a silently wrong number.",
  ["schedules", "histories", "inputs"],
  "all interleavings of forward queries and pending backward passes on shared models, all orders of deferred backward "
  "passes, in-place edits of inputs and results in between, first and second derivatives",
  "The gradient tests run one forward pass and one immediate backward pass on two robots.",
  ["chain.py"],
  [("analytical backward from saved poses", "chain.py:_FKAnalyticalBackward"),
   ("saved-tensor version counters", "chain.py:_FKAnalyticalBackward.forward (ctx.save_for_backward)")],
  [("ancestor mask, DOF frames, axes", "shared constants used by every pending backward pass", "chain.py:Chain.__init__")],
  ["torch.autograd.grad / Tensor.backward on forward_kinematics results"])

p("C04", "An inverse-kinematics result never claims more than it achieved",
  "Whatever goals, starting configurations, stopping rules, limits, failures of individual goals or random restarts are "
  "in play, an attempt is reported as converged exactly when the pose of the configuration returned for it lies within "
  "the position and orientation tolerances of its goal, and the reported errors are the errors of that configuration. "
  "The aggregate flags agree with the per-attempt flags, the iteration budget is never exceeded, and when joint limits "
  "are enforced every finite configuration returned for a reachable limit range respects them.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "all goals (reachable, unreachable, exactly at the start, singular, poisoned), all solver options, all random restart "
  "streams, solver reuse",
  "Tests check that most of a few hundred random goals of one or two robots converge; no test recomputes what the solver "
  "claims for each attempt, or mixes stopping rules, limits and bad goals.",
  ["ik.py"],
  [("convergence bookkeeping", "ik.py:IKSolution.update"), ("limit wrapping and clamped refinement", "ik.py:_enforce_limits"),
   ("final check of the last step", "ik.py:PseudoInverseIK.solve")],
  [("solutions, errors, converged flags", "what the caller is told", "ik.py:IKSolution")],
  ["PseudoInverseIK.solve", "IKSolution"])

p("C05", "An inverse-kinematics solve does not depend on other solves",
  "The result of a solve is determined by the solver's settings and starting configurations and by the goals alone: it "
  "is the same whether it is the first or the hundredth on that solver, whether earlier solves succeeded, failed or were "
  "interrupted at any point, and whether other callers run solves or other queries on the same solver or model at the "
  "same time. Solving neither consumes nor disturbs the process-wide random stream and does not alter the solver's "
  "starting configurations.",
  ["schedules", "histories", "crash_points"],
  "all interleavings of solves sharing a solver or a model, all histories of earlier solves with other goal counts, all "
  "points at which an earlier solve is interrupted",
  "Every test makes a solver, solves once or twice from one thread and stops; interference needs a second solve at a "
  "particular moment.",
  ["ik.py", "chain.py"],
  [("per-solve reset", "ik.py:InverseKinematics.clear"), ("per-solve solution object", "ik.py:IKSolution"),
   ("stateless step kernels", "ik.py:_ik_step_kernel, _ik_step_kernel_svd")],
  [("best error and no-improvement counters", "early-stopping state of a solve", "ik.py:PseudoInverseIK.solve")],
  ["PseudoInverseIK.solve"])

p("C06", "Goals solved in one batch do not affect one another",
  "With stopping rules that look across the batch switched off, the result for each goal in a batch is, up to rounding, "
  "the result that goal gets when solved alone or in any other batch, order or position, however many other goals there "
  "are. Goals that are unreachable, not-a-number, or otherwise hopeless leave the answers for the healthy goals as they "
  "were, and one attempt's starting configuration never influences another attempt.",
  ["inputs", "fault_sequences", "configurations"],
  "all batch compositions, orders and sizes, all placements of poisoned goals among healthy ones",
  "Tests only count how many goals of a healthy batch converge; none compares a goal's answer across batches or poisons "
  "one goal.",
  ["ik.py"],
  [("row-wise masking and reshaping", "ik.py:IKSolution.update, PseudoInverseIK.solve"),
   ("batched damped least squares", "ik.py:_ik_step_kernel")],
  [("flattened goal-by-attempt layout", "row r belongs to goal r // attempts", "ik.py:PseudoInverseIK.solve")],
  ["PseudoInverseIK.solve"])

p("C07", "An operation that fails or is cancelled leaves no trace",
  "If a query, gradient, solve, model construction or sub-model extraction raises an error or is cancelled at any "
  "instant (an interrupt, an allocation failure, bad arguments), every object that existed before stays fully usable: "
  "all later operations on it, including a retry, give exactly what they would have given had the failed operation "
  "never been attempted. The failure is reported to its caller and is never turned into a wrong result.",
  ["crash_points", "fault_sequences", "histories"],
  "every instant inside every operation at which a cancellation, allocation failure or numerical-library failure can "
  "arrive, every kind of rejected argument, followed by arbitrary further operations",
  "No test interrupts anything; the only failing call in the tests is a malformed limit document.",
  ["chain.py", "ik.py", "urdf.py", "sdf.py", "mjcf.py", "transforms/transform3d.py"],
  [("queries only read model state", "chain.py:Chain.forward_kinematics_tensor"),
   ("per-solve reset", "ik.py:InverseKinematics.clear"), ("memoisation only of complete results", "chain.py:lru_cache uses")],
  [("memoised names and indices", "survive a failed query", "chain.py:get_joint_parameter_names, get_frame_indices")],
  ["every public operation after the failed one"])

p("C08", "Arguments are never altered and results are the caller's own",
  "No operation changes the arrays, lists, mappings, transforms or models passed to it, and whatever a caller does to a "
  "value it was given back (overwriting an array, clearing or reordering a list) or to an argument after the call "
  "changes no other value already handed out and no later answer. This covers model queries, pose, Jacobian and "
  "inverse-kinematics results, sampling, and the rotation utilities.",
  ["histories", "schedules"],
  "all histories that mix operations with in-place edits of earlier arguments and results by any caller",
  "Tests never modify what they were given and never check that their inputs survived.",
  ["chain.py", "ik.py", "transforms/math.py", "transforms/rotation_conversions.py", "transforms/transform3d.py",
   "transforms/perturbation.py"],
  [("fresh allocation of results", "chain.py:_fk_impl"), ("cloning before in-place correction", "chain.py:SerialChain.jacobian"),
   ("copying of tensors into solution objects", "ik.py:IKSolution.update")],
  [("memoised lists and tensors", "must not be handed out by reference", "chain.py:get_joint_parameter_names, get_frame_indices")],
  ["all public functions"])

p("C09", "Precision conversion and extraction keep models right and independent",
  "After any sequence of conversions between single and double precision, including a conversion interrupted at any "
  "point and then repeated, a model answers every query at the requested precision exactly as a freshly loaded model "
  "converted once would. A serial model extracted from another at any moment has the base's current precision unless "
  "told otherwise, describes the same geometry with its own root as origin, and from then on neither model is affected "
  "by conversions or queries on the other.",
  ["histories", "crash_points", "configurations"],
  "all sequences of conversions, extractions and queries on a family of models, all interruption points of a conversion",
  "Tests convert at most once right after loading and never convert a model whose sub-models are alive or interrupt a "
  "conversion.",
  ["chain.py", "frame.py", "transforms/transform3d.py"],
  [("member-wise conversion", "chain.py:Chain.to, SerialChain.to, frame.py:Frame.to"),
   ("deep copy of the extracted frames", "chain.py:SerialChain.__init__")],
  [("frames and flat tensors", "two representations that must be converted together", "chain.py:Chain")],
  ["Chain.to", "SerialChain constructor", "all queries"])

p("C10", "Loading a description depends on that document alone",
  "Loading a URDF, SDF or MJCF description yields the tree, names, order, joint kinds, limits and geometry the document "
  "states, no matter which other documents were loaded before or are being loaded at the same time, whether those loads "
  "failed, were cancelled, or could not write their warnings, and loading it again yields an equal but independent "
  "model. A document cut off or garbled so that it is no longer well formed is rejected with an error rather than "
  "yielding a partial robot.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "all interleavings and sequences of loads, valid and invalid, of all description formats; all truncation points",
  "Each test loads known-good files one at a time in one thread; parser-wide registries and partially read input are "
  "never exercised.",
  ["urdf.py", "sdf.py", "mjcf.py", "urdf_parser_py/urdf.py", "urdf_parser_py/sdf.py",
   "urdf_parser_py/xml_reflection/core.py"],
  [("reflection registry scoped by namespace", "urdf_parser_py/xml_reflection/core.py"),
   ("recursive construction from link and joint maps", "urdf.py:_build_chain_recurse, sdf.py, mjcf.py")],
  [("type registry, unknown-tag reporting hook", "process-wide parser state", "urdf_parser_py/xml_reflection/core.py")],
  ["build_chain_from_urdf/sdf/mjcf", "Chain structure queries"])

p("C11", "A model or solver restored from a checkpoint is equivalent to the original",
  "A robot model, transform or solver saved (serialised or copied) at any point of its life and restored later, in the "
  "same process or a new one, answers every query exactly as the original did at the moment of saving, including its "
  "precision, limits and starting configurations. Afterwards neither the original nor the restored object is affected "
  "by anything done to the other, and a truncated checkpoint is refused instead of restoring a damaged object.",
  ["crash_points", "histories", "fault_sequences"],
  "all moments at which a checkpoint is taken, all histories before and after, process restart in between, truncation "
  "of the stored bytes",
  "No test serialises or copies a model.",
  ["chain.py", "ik.py", "frame.py", "transforms/transform3d.py"],
  [("plain attribute state without external handles", "chain.py:Chain, ik.py:InverseKinematics, transforms/transform3d.py:Transform3d")],
  [("all instance attributes", "the checkpointed state", "chain.py:Chain")],
  ["pickle, copy.deepcopy, torch.save round trips"])

p("C12", "Random sampling is reproducible and always within its contract",
  "Every random draw comes from the framework's global random stream (or the caller's own sampler): the same seed and "
  "the same sequence of calls give the same samples, and calls that need no randomness draw none. Whatever values the "
  "stream produces, sampled starting configurations lie inside the given limits and have the requested count and the "
  "model's precision, sampled rotations are proper rotations favouring no direction, and perturbed transforms honour the requested axis and "
  "perpendicularity and differ from the base by rigid motions.",
  ["inputs", "histories", "fault_sequences"],
  "all random streams including extreme draws, all interleavings of sampling with other calls, all sample counts",
  "Tests sample from one seeded stream and hardly look at the samples.",
  ["ik.py", "transforms/rotation_conversions.py", "transforms/perturbation.py", "transforms/so3.py"],
  [("scaling of uniform draws to limits", "ik.py:InverseKinematics.sample_configs"),
   ("normalisation of random quaternions", "transforms/rotation_conversions.py:random_quaternions"),
   ("projection onto the plane perpendicular to the axis", "transforms/perturbation.py:sample_perturbations")],
  [("global torch generator", "the only randomness source", "ik.py, transforms/")],
  ["InverseKinematics.sample_configs", "random_rotations", "sample_perturbations"])

p("C13", "Compiled queries answer like eager ones throughout a model's life",
  "Compiling a model's pose, Jacobian or inverse-kinematics computations changes speed only: over any sequence of batch "
  "sizes, precision conversions, cache resets, recompilation limits and alternation between several models, a compiled "
  "query gives the eager answer up to rounding.",
  ["histories", "configurations"],
  "all sequences of calls, conversions and compile-cache events on compiled models and solvers",
  "The compile tests call each compiled function on one robot with one or two batch sizes.",
  ["chain.py", "ik.py"],
  [("tensor-only kernels", "chain.py:_fk_impl, SerialChain.jacobian_tensor, ik.py:_ik_step_kernel")],
  [("guards and cached graphs", "what a compiled function assumes about the model", "chain.py:Chain attributes")],
  ["torch.compile(forward_kinematics_tensor / jacobian_tensor)", "PseudoInverseIK(use_compile=True)"])

p("C14", "Transform objects behave as immutable rigid-transform values",
  "Composing, inverting, stacking, indexing, cloning, converting and applying transforms gives the corresponding matrix "
  "algebra on the operands' values at the time of the call, at the operands' precision, for single transforms, batches "
  "and their broadcast, in whatever order and interleaving several callers derive transforms from shared ones. Deriving "
  "or applying a transform never changes the transforms it came from or any transform or point set obtained earlier.",
  ["schedules", "histories", "inputs"],
  "all derivation histories over shared transforms by interleaved callers, with failed or cancelled derivations in between",
  "Transform tests check single operations on fresh objects; derivation histories and sharing are never exercised.",
  ["transforms/transform3d.py"],
  [("matrix-backed value object", "transforms/transform3d.py:Transform3d"),
   ("batch broadcast", "transforms/transform3d.py:_broadcast_bmm")],
  [("backing matrix", "possibly shared between objects", "transforms/transform3d.py:Transform3d._matrix")],
  ["Transform3d methods"])

p("C18", "An inverse-kinematics solve makes progress whatever surrounds it",
  "Within its iteration budget an attempt whose starting configuration already meets its goal, or lies close to a "
  "well-conditioned configuration that does, is reported as converged, whatever hopeless goals share the batch, whatever "
  "failed, cancelled or concurrent solves and queries came before or run meanwhile, and whether each joint is limited on "
  "both sides, on one or not at all. A finite goal and start never end in a not-a-number, and with enough restarts and "
  "iterations nearly every reachable goal is solved.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "all solver settings, batches, limits and histories of solves on shared solvers, with failures and cancellations, for "
  "goals within the basin of convergence of a start",
  "Tests measure success rates on one arm with default settings, always on a fresh solver.",
  ["ik.py"],
  [("damped least squares step", "ik.py:_ik_step_kernel, _ik_step_kernel_svd"),
   ("wrapping, clamping and refinement", "ik.py:PseudoInverseIK._enforce_limits"),
   ("keeping what has converged", "ik.py:IKSolution.update")],
  [("early stopping counters", "local to a solve", "ik.py:PseudoInverseIK.solve")],
  ["PseudoInverseIK.solve", "IKSolution.converged"])

# --- pure functions: not simulation targets -----------------------------------------------------
p("C15", "Rotation representation conversions are mutually consistent",
  "Converting a rotation between matrix, quaternion, Euler-angle, axis-angle and 6D form and back yields the same "
  "rotation for every rotation.",
  ["inputs"], "all rotations, including those at the branch boundaries",
  "Tests sample a few random rotations.", ["transforms/rotation_conversions.py"],
  [("branch selection by largest component", "transforms/rotation_conversions.py:matrix_to_quaternion")])
p("C16", "Spherical interpolation follows the geodesic at constant rate",
  "Interpolating between two unit quaternions yields unit quaternions on the shorter arc at an angle proportional to the "
  "parameter.", ["inputs"], "all pairs of unit quaternions and parameters",
  "One test checks a handful of pairs.", ["transforms/math.py"],
  [("hemisphere choice and near-parallel fallback", "transforms/math.py:quaternion_slerp")])
p("C17", "Rotation exponential and logarithm maps are inverse to each other",
  "The logarithm of the exponential of any rotation vector shorter than pi returns that vector, and hat and vee are "
  "inverse.", ["inputs"], "all rotation vectors", "No test covers these functions.", ["transforms/so3.py"],
  [("clamped arccosine", "transforms/so3.py:so3_rotation_angle")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P))
