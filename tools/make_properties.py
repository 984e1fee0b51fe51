#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that the statements are easy to edit)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe_at=None, state=None):
    a = {"files": files, "mechanism": [{"name": m.strip(), "where": files[0]} for m in mechanism.split(';')]}
    if state:
        a["state"] = state
    if observe_at:
        a["observe_at"] = [observe_at]
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


W = "coax/_core/worker.py"

prop("C01", "Distributed experience reaches the shared buffer exactly once, intact",
     "When any number of rollout workers feed one parameter store, every transition of a completed episode ends up "
     "in the store's replay buffer exactly once (subject only to capacity eviction), with exactly the content and "
     "the priority its worker computed, and no stored transition mixes steps of different episodes or workers. "
     "An environment failure, a crashed or stalled worker or a failed call costs at most the episode or the addition "
     "it interrupted: an addition or priority update that was acknowledged is never lost, none is applied twice, and later rollouts of the "
     "same worker are unaffected.",
     ["schedules", "crash_points", "fault_sequences", "configurations"],
     "for all numbers of workers, n-step settings, episode lengths, batch splits, message delays, interleavings of "
     "store calls, environment failures at any step and worker crashes at any point",
     "no existing test constructs a Worker at all; a unit test would fix one worker and one interleaving",
     [W, "coax/reward_tracing/_nstep.py", "coax/reward_tracing/_montecarlo.py", "coax/experience_replay/_prioritized.py",
      "coax/experience_replay/_simple.py", "coax/utils/_array.py"],
     "Worker.rollout/trace -> reward tracer -> buffer_add (remote or in-process) -> replay buffer add",
     "iteration over the store's buffer, its priorities, and the recorded environment steps")

prop("C02", "Sampling waits for enough experience and never deadlocks the system",
     "A worker's sample request returns exactly the requested number of transitions that the store's buffer held, and only after the buffer "
     "holds at least the batch size and at least the warm-up configured on the worker and on the store. "
     "While it waits, other workers' calls on the store keep being served, and once enough experience is present it "
     "completes after at most one more waiting interval of at most 30 seconds. "
     "A request made when there is already enough experience does not wait.",
     ["schedules", "configurations", "fault_sequences"],
     "for all warm-up settings on store and learner, batch sizes, arrival patterns, message delays and clocks",
     "never exercised by the tests; deadlock and back-off bounds depend on schedule, clock and configuration",
     [W], "Worker.buffer_sample / buffer_len polling with exponential back-off",
     "virtual time at which sample calls start/end versus the history of buffer additions")

prop("C03", "Parameter synchronisation is atomic, fresh and read-your-writes",
     "Pulling from the parameter store installs exactly one complete state that some worker pushed (or the initial one), "
     "never a mixture, and one at least as recent as every push that had completed before the pull began; a push only returns once "
     "the state is in the store. "
     "Rollout loops refresh before every episode, learner loops refresh before every update and publish after it, and the value-based "
     "or parametrised behaviour policy acts on the installed parameters. "
     "Remote and in-process stores behave the same.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "for all interleavings of pushes and pulls of any number of workers, message delays and worker crashes",
     "never exercised by the tests; staleness and tearing only show under particular interleavings",
     [W, "coax/_core/base_func.py", "coax/_core/value_based_policy.py"],
     "pull_state/push_state via get_state/set_state; calls inside rollout_loop and learn_loop",
     "history of push/pull invocations and responses with global sequence numbers")

prop("C04", "The shared step budget counts real steps and stops every loop",
     "The step counter shared through the parameter store only ever holds the starting value plus the lengths of distinct completed "
     "episodes; it never counts an episode twice, and counts every episode when episodes do not finish concurrently. "
     "A rollout loop starts no further episode once the counter it last saw has reached the budget or its own average return has reached the "
     "reward threshold, keeps going before that, and a learner loop performs no update after the counter it reads reached the budget. "
     "All loops return once the budget is reached (a learner that waits for experience: once it gets it).",
     ["schedules", "configurations", "fault_sequences"],
     "for all numbers of workers, budgets, thresholds, episode lengths, interleavings and delays",
     "never exercised by the tests; depends on how worker iterations interleave",
     [W, "coax/wrappers/_train_monitor.py"], "rollout_loop/learn_loop counter arithmetic via pull_getattr/push_setattr('env.T')",
     "values written to the store's counter, steps taken by each environment, loop termination")

prop("C05", "Metrics and attributes shared through the store behave like one copy",
     "Attributes (also nested, dotted ones) and metrics that workers write to the parameter store are seen by every later read of any "
     "worker, as if all calls were executed one at a time in an order consistent with real time. "
     "Reading a missing attribute gives the caller's default if one was given, and fails otherwise; metrics are the mean over "
     "all values recorded, each counted once. "
     "It makes no difference whether the store is remote, in-process or the worker itself, and what a reader does with metrics it has read never changes the store.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "for all interleavings of reads and writes by any number of workers, delays and failed calls",
     "never exercised by the tests",
     [W, "coax/wrappers/_train_monitor.py"], "pull_getattr/push_setattr, pull_metrics/push_metrics, record_metrics/get_metrics",
     "history of calls and results with global sequence numbers")

prop("C06", "Worker loops do not depend on a well-behaved wall clock",
     "A wall clock that stands still, ticks coarsely, drifts or jumps forwards or backwards never makes a rollout loop, a learner loop or "
     "the episode monitor fail, hang or change the experience, parameters, counters and non-timing metrics they produce. "
     "Timing metrics stay numbers, never an exception.",
     ["fault_sequences", "schedules"],
     "for all clock behaviours at every instant the loops read the clock",
     "tests run on the real clock only, which is neither coarse nor adjusted during a test",
     [W, "coax/wrappers/_train_monitor.py"], "time.time() differences used for throughput and step-duration metrics",
     "outcome of the same scenario under a good and a faulty clock")

prop("C07", "Prioritized buffer keeps the newest transitions; updates hit only their ids",
     "A prioritized replay buffer holds exactly the most recent transitions added since the last clear, up to its capacity, each under an "
     "id that is unique for the life of the buffer; samples contain only transitions that are currently held, with their own id and unmodified content. "
     "A priority update changes exactly the held transitions with the given ids and ignores ids that were evicted or cleared, also when fresh and outdated ids "
     "arrive in the same call. "
     "A rejected call leaves the buffer as it was.",
     ["histories", "schedules", "inputs"],
     "for all interleavings of additions, samples, delayed priority updates, clears and rejected calls by several clients, all capacities and batch sizes",
     "tests add and sample once or twice with a single client and never let an update arrive late",
     ["coax/experience_replay/_prioritized.py", "coax/reward_tracing/_transition.py", "coax/utils/_segment_tree.py"],
     "ring storage indexed by id modulo capacity; id match in update; to_singles",
     "iteration over the buffer, ids and importance weights of samples")

prop("C08", "Prioritized sampling and importance weights follow the current priorities",
     "At any time a prioritized replay buffer draws transitions with probability proportional to (|advantage| + epsilon)^alpha of their "
     "latest advantage, and multiplies their weights by (N p)^-beta divided by its maximum over the batch. "
     "This holds after any history of additions, evictions, priority updates, clears and changes of alpha, beta and epsilon.",
     ["histories", "schedules", "configurations"],
     "for all interleaved histories of several clients and all hyperparameter schedules",
     "tests check one fixed set of priorities",
     ["coax/experience_replay/_prioritized.py", "coax/utils/_segment_tree.py"],
     "SumTree of priorities kept in sync with storage; alpha rescaling; inverse CDF sampling",
     "weights and empirical frequencies of samples versus a flat reference table")

prop("C09", "Simple buffer is a FIFO window sampled without replacement",
     "A simple replay buffer holds exactly the most recent transitions added since the last clear, oldest first, up to its capacity. "
     "A sample of n consists of n different held transitions with unmodified content, every held transition being equally likely, and sampling changes nothing. "
     "A rejected call leaves the buffer as it was.",
     ["histories", "schedules", "inputs"],
     "for all interleavings of additions, samples and clears by several clients, all capacities and batch sizes",
     "the simple buffer has no tests of its own",
     ["coax/experience_replay/_simple.py", "coax/reward_tracing/_transition.py"],
     "list storage with front eviction; random.sample",
     "iteration over the buffer and contents of samples")

prop("C10", "Segment trees always equal a flat array under any history of updates",
     "After any history of batched updates, every aggregate a segment tree reports (root, every level, any partial range, scalar or batched) equals the reduction of its "
     "current leaf values, and inverse-CDF lookups return an index with positive mass whose cumulative interval contains the requested point. "
     "A rejected update or query changes nothing.",
     ["histories", "schedules", "inputs"],
     "for all capacities (also non powers of two), interleavings of batched writes (duplicates, negative indices, ellipsis) and queries by several clients",
     "tests use a handful of fixed capacities and ranges after a single update",
     ["coax/utils/_segment_tree.py"], "level-wise recomputation of ancestors in set_values; level-wise descent in queries",
     "root_value, tree[level], partial_reduce, inverse_cdf versus a flat array")

prop("C11", "Reward tracers emit each step once with the right n-step return",
     "For any interleaving of adding steps, popping and flushing, a reward tracer emits exactly one transition per added step, with that "
     "step's own state, action, propensity and weight, the discounted (n-step or full) return of its own episode, and a bootstrap state exactly n steps ahead or no bootstrapping if the episode "
     "ends before that. "
     "A transition is available if and only if enough later steps or the end of the episode were seen; a refused call changes nothing, a reset "
     "forgets everything, and interrupting an episode by snapshot and restore of the tracer makes no difference.",
     ["schedules", "histories", "crash_points", "configurations"],
     "for all episode lengths, n, gamma, reward sequences, interleavings of add/pop/flush/reset across several tracers, and snapshot points",
     "tests flush one fixed episode, and never interleave, reset midway or restore",
     ["coax/reward_tracing/_nstep.py", "coax/reward_tracing/_montecarlo.py", "coax/reward_tracing/_base.py", "coax/reward_tracing/_transition.py"],
     "deques of pending steps with a done flag", "emitted TransitionBatch objects versus a reference built from the full episode")

prop("C12", "Training-monitor counters stay truthful through failures and restores",
     "The monitor's step, episode, return and average-return counters always equal what the environment actually did: steps that failed are not counted, "
     "rewards are accumulated once, the average return follows the documented smoothing rule over finished episodes, recorded metrics are exact means, the step time is that of the current episode, and what the environment returned is passed on. "
     "Counters saved at any moment and restored later, in the same or another monitor, continue exactly as if there had been no interruption, and a saved snapshot never changes "
     "afterwards; periodic triggers fire once per elapsed period.",
     ["histories", "crash_points", "fault_sequences"],
     "for all sequences of resets, steps, failures, metric records, saves, crashes and restores",
     "the monitor has no tests",
     ["coax/wrappers/_train_monitor.py"], "counter attributes, get/set/save/load_counters, pickling, period()",
     "public counters, info dict and metrics versus a reference model")

prop("C13", "Every finished episode is logged exactly once with its own numbers",
     "When a new episode begins, the previous one is reported exactly once, to the log and to tensorboard, with its own episode number, step count, return, averages and metrics; "
     "the first reset reports nothing. "
     "Metrics of one episode never leak into the next, per-call tensorboard writing reports each recorded value once, and after restoring counters reporting continues in the restored "
     "tensorboard directory.",
     ["histories", "crash_points", "fault_sequences"],
     "for all interleavings of episodes, metric records, environment failures, clock faults, saves and restores",
     "the monitor has no tests",
     ["coax/wrappers/_train_monitor.py"], "reset() writes the episode logs; _init_tensorboard on restore",
     "records received by a simulated tensorboard writer and by the logging system")

prop("C14", "A checkpoint file is always either the complete old or the complete new one",
     "Whatever goes wrong while an object or the monitor's counters are being saved (unserialisable object, full disk, I/O error, short write, process or machine crash, concurrent readers or other savers), "
     "loading the file afterwards yields exactly the previous or exactly the new object, never a mixture, a truncated file or nothing. "
     "A save that returned is what a later load returns, a failed save raises and leaves no stray files behind, and shared references inside the object survive the round trip.",
     ["crash_points", "fault_sequences", "schedules", "inputs"],
     "for all objects, all crash points and I/O failures within a save, and all interleavings with readers and other savers",
     "tests only save and load once on a healthy disk",
     ["coax/utils/_misc.py", "coax/wrappers/_train_monitor.py"], "dump/load, dumps/loads, save_counters/load_counters",
     "file contents after simulated faults and crashes, through load")

prop("C15", "Resuming from a checkpoint continues training exactly where it stopped",
     "An agent (function approximators, updater, policies, replay buffer, reward tracer, monitor) that is serialised at any point, destroyed and restored "
     "continues with exactly the same actions, updates, samples and counters as if it had never been interrupted. "
     "Objects that shared parameters before still do afterwards.",
     ["crash_points", "histories", "schedules"],
     "for all interruption points within any training history",
     "tests check pickling of single fresh objects at most",
     ["coax/utils/_misc.py", "coax/utils/_jit.py", "coax/_core/base_func.py", "coax/_base/mixins/_random_state.py", "coax/experience_replay", "coax/reward_tracing",
      "coax/wrappers/_train_monitor.py"],
     "pickling of all stateful parts including random states", "action/update/sample history of interrupted vs uninterrupted twin")

prop("C16", "Model updates are all-or-nothing",
     "If an update is refused (NaN gradients, malformed gradients, state or batch), the parameters, optimizer state, function state and target networks "
     "are exactly what they were before, and training continues as if the refused update had not been requested. "
     "Refused assignments of parameters, function state or optimizer likewise change nothing. "
     "An update whose gradients contain NaN anywhere is always refused with an error.",
     ["fault_sequences", "histories", "inputs"],
     "for all histories of good updates with faults injected at any point, for all kinds of updaters",
     "tests never feed NaNs or malformed gradients",
     ["coax/td_learning/_base.py", "coax/policy_objectives/_base.py", "coax/model_updaters/_model_updater.py", "coax/_core/base_func.py"],
     "NaN check before apply_grads; order of assignments in apply_grads; structure checks in setters",
     "parameters and optimizer state before/after the refused update")

prop("C17", "Remote gradients, copies and target networks are isolated and equivalent",
     "Computing gradients in one process and applying them in another (also delayed, or interleaved with reads) gives exactly the result of a local update with the same inputs. "
     "Updating one function approximator never changes any other: copies and target networks move only through explicit assignment or soft updates, which move every parameter "
     "exactly the fraction tau towards the source and leave the source unchanged. "
     "Computing gradients, errors, predictions or samples changes no parameters.",
     ["schedules", "histories"],
     "for all interleavings of updates, soft updates, copies, gradient computation and delayed application by several actors",
     "tests check single update calls in isolation",
     ["coax/_core/base_func.py", "coax/td_learning/_base.py", "coax/policy_objectives/_base.py", "coax/model_updaters/_model_updater.py", "coax/_base/mixins/_copy.py"],
     "params/function_state assignment, soft_update, copy, grads_and_metrics/apply_grads",
     "parameters of all actors versus a reference model")

prop("C18", "Seeded components are reproducible and isolated from each other",
     "A component created with a random seed produces a sequence that depends only on its seed and its own calls: not on other components, on how calls of different components interleave, "
     "or on anyone using or reseeding the global random generators. "
     "Using a seeded component never disturbs the global generators or another component's sequence, and different seeds give different sequences.",
     ["schedules", "histories"],
     "for all interleavings of calls to any set of seeded components and of global random number use",
     "tests use one seeded component at a time",
     ["coax/experience_replay", "coax/utils/_segment_tree.py", "coax/utils/_action_noise.py", "coax/_core/random_policy.py", "coax/_base/mixins/_random_state.py",
      "coax/_core/base_func.py", "coax/wrappers/_box_spaces.py"],
     "private random states per component", "output sequences solo versus interleaved, and global generator states")

prop("C19", "Environment wrappers stay faithful through failures and interleaving",
     "Frame stacking always returns the last frames of the current episode only (padded with its first frame), whatever happened in earlier episodes. "
     "Action adapters pass exactly the documented action to the environment and report it, and the meta-policy wrapper lets the selected arm act on the latest observation and reports the action and "
     "log-propensity it used. "
     "A failed environment call, a rejected action or another wrapper instance never shifts, mixes or duplicates what later calls return.",
     ["histories", "fault_sequences", "schedules"],
     "for all sequences of episodes, environment failures and rejected actions, several instances interleaved",
     "frame stacking and the meta-policy wrapper have no tests; adapters are tested on one step",
     ["coax/wrappers/_frame_stacking.py", "coax/wrappers/_meta_policy.py", "coax/wrappers/_box_spaces.py", "coax/_base/mixins/_add_orig_to_info.py"],
     "deque of frames; stored latest state; action mapping", "observations, info and actions received by the wrapped environment")

prop("C20", "Connect-Four follows the rules and can be snapshotted and restored anywhere",
     "For any game, the environment accepts exactly the legal moves, places tokens by gravity with players alternating, ends exactly when a player has four in a row in any "
     "direction or the board is full, and rewards accordingly; observations show the board and available moves truthfully. "
     "Rejected moves and rejected state identifiers change nothing. "
     "Restoring a state identifier, in the same or another instance and at any point, continues exactly the game it was taken from.",
     ["histories", "crash_points", "inputs"],
     "for all games, illegal moves at any point and snapshot/restore points",
     "the environment has no tests",
     ["coax/envs/_connect_four.py"], "board array, fill levels, convolution filters for wins, state id encoding",
     "observations, rewards, done flags and state ids versus a reference implementation")

prop("C21", "Episode playback shows every step once, in real time, and stops at the end",
     "Rendering an episode plays exactly one episode: it renders the start and each step once, waits the requested delay after every step, acts on the current observation and stops as soon as the episode terminates or is truncated. "
     "Recording a gif writes the frames of exactly one episode, in order, in the requested size and at the requested pace, honouring the step limit. "
     "Neither disturbs the counters of the training monitor it is given, and an environment failure is passed on to the caller.",
     ["histories", "fault_sequences", "schedules"],
     "for all episode lengths, delays, policies, step limits and environment failures",
     "neither function has tests; real delays cannot be tested with the real clock",
     ["coax/utils/_misc.py"], "render_episode / generate_gif loops and sleeps",
     "environment call log and simulated clock")

prop("C22", "Exploration noise is one bounded process per episode",
     "Ornstein-Uhlenbeck noise follows its recurrence across consecutive calls, starts from its mean after construction and after every reset, and never produces an action outside the configured bounds. "
     "Changing its parameters between calls takes effect on the next call; it never modifies the action it was given, and instances (also copies and restored ones) do not influence each other.",
     ["histories", "schedules", "configurations"],
     "for all interleavings of calls, resets, parameter changes and copies of several instances",
     "tests look at the mean and variance of one long run",
     ["coax/utils/_action_noise.py"], "private noise state and random state", "difference between output and input actions")

prop("C23", "Hyperparameter and parameter changes take effect on the next call",
     "Changing the exploration rate or temperature of a policy, the strength of a regularizer, an optimizer or the parameters of a function approximator while training takes "
     "effect on the very next action or update, for every object that shares it, no matter what was compiled or cached before. "
     "The result is the same as that of a freshly built object with these settings.",
     ["histories", "schedules"],
     "for all interleavings of changes, actions and updates by several actors",
     "tests build objects once and never change settings between calls",
     ["coax/_core/value_based_policy.py", "coax/regularizers", "coax/td_learning/_base.py", "coax/policy_objectives/_base.py", "coax/_core/base_func.py", "coax/utils/_jit.py"],
     "hyperparameters passed as traced arguments instead of compiled constants", "outputs of long-lived versus freshly built objects")

prop("C24", "Synchronised shared parameters equal one weighted mean for all owners",
     "Synchronising the parameters of several function approximators gives every owner of a shared module the same weighted mean over exactly its owners, leaves everything that is not shared as it was, "
     "and never modifies the parameters it was given. This holds for live parameters as well as for copies that arrive late or out of order while training goes on; a call with mismatching weights or "
     "modules is refused and changes nothing, and installed results take effect for that owner only.",
     ["histories", "schedules", "faults"],
     "for all interleavings of training, synchronisation with any participants and weights, delayed, lost and refused installs",
     "tests synchronise two fixed parameter dicts once",
     ["coax/utils/_array.py", "coax/_core/base_func.py"], "per-module ownership count, relative weights and copies of the parameter dicts", "parameters of all owners after every operation")

prop("C25", "Control-suite environments are faithful, seeded and independent of each other",
     "An environment made for a control-suite task behaves exactly like the task itself: observations are all its sensors, flattened in the task's order, with the task's rewards, episode ends, and bounds of "
     "actions and observations; failures are passed on. Its episodes depend only on its own seed, given when it is made or at a reset, and its own calls: reseeding starts the same sequence again at any time, "
     "and neither other environments, earlier failures or the global random generators make a difference, nor are these disturbed. The step limit, seed and image settings asked for hold for every environment, "
     "also if the same task was made before with other settings.",
     ["histories", "schedules", "faults"],
     "for all interleavings of making, resetting, reseeding, stepping and rendering environments of the same or different tasks, with failing physics and rejected actions",
     "the adapter has no tests",
     ["coax/utils/_dmc_gym.py"], "make_dmc, DmcGymWrapper.reset/step/render, flatten_obs, spec_to_box", "spaces, observations, rewards, episode ends and image requests of every environment")

# ---- properties of the code base that this family of techniques cannot decide ------------------ #

PURE = "tests sample a few inputs per function"
prop("C90", "TD targets and policy-gradient objectives equal their textbook formulas",
     "For every batch, each TD-learning and policy-gradient class computes the documented target, loss and gradient.",
     ["inputs"], "for all batches, networks and hyperparameters", PURE,
     ["coax/td_learning", "coax/policy_objectives"], "target_func / objective_func")
prop("C91", "Probability distributions are consistent",
     "For all distribution parameters, log-probabilities, entropies, divergences, samples, modes and affine transforms of a distribution agree with each other.",
     ["inputs"], "for all distribution parameters and variates", PURE, ["coax/proba_dists"], "distribution classes")
prop("C92", "Value transforms and losses satisfy their definitions",
     "Value transforms and their inverses compose to the identity and loss functions equal their definitions for all inputs and weights.",
     ["inputs"], "for all real inputs", PURE, ["coax/value_transforms", "coax/value_losses"], "pure functions")
prop("C93", "Function approximators reject mismatching spaces and shapes",
     "A function approximator only accepts forward-pass functions whose signature and output match its observation and action space, and its outputs are members of these spaces.",
     ["inputs", "configurations"], "for all spaces and forward-pass functions", PURE, ["coax/_core"], "_check_signature / _check_output")
prop("C94", "Array and space utilities satisfy their definitions",
     "Preprocessors, batching helpers, tie-breaking argmax, schedules and quantile helpers return what they document for every input.",
     ["inputs"], "for all inputs", PURE, ["coax/utils/_array.py", "coax/utils/_quantile_funcs.py"], "pure functions")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
