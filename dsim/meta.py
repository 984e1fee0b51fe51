""" What each check runs, how much of it, and how its coverage is described. """

STUB_NONE = ["nothing: clients are generated call sequences"]

PROPS = {}


def prop(id, quick, thorough, rule, real, stub, assumptions=()):
    PROPS[id] = dict(runs=dict(quick=quick, thorough=thorough), rule=rule, real=real, stub=stub, assumptions=list(assumptions))


prop('C07', 3200, 60000,
     "one run = one seeded interleaving of 2-6 clients (writers, learners with in-flight samples, clear, rejected calls) on one buffer; "
     "non-trivial = the ring wrapped around and at least one late update or clear happened",
     ["coax.experience_replay.PrioritizedReplayBuffer", "coax.utils.SumTree", "coax.reward_tracing.TransitionBatch"], STUB_NONE,
     ["calls on one buffer do not overlap in time (the store actor serialises them)"])

prop('C08', 1500, 100000,
     "one run = one seeded interleaving of writers, learners with delayed priority reports, hyperparameter annealing and clears; exact weight check after "
     "every step, frequency test at the end; non-trivial = the ring wrapped around and at least one priority or alpha change happened",
     ["coax.experience_replay.PrioritizedReplayBuffer", "coax.utils.SumTree", "coax.reward_tracing.TransitionBatch"], STUB_NONE,
     ["frequency tests reject only at p < 1e-10", "calls on one buffer do not overlap in time"])

prop('C09', 2400, 60000,
     "one run = one seeded interleaving of 2-5 clients on one simple buffer; non-trivial = eviction happened and more than 6 operations ran",
     ["coax.experience_replay.SimpleReplayBuffer", "coax.reward_tracing.TransitionBatch"], STUB_NONE,
     ["frequency tests reject only at p < 1e-10", "calls on one buffer do not overlap in time"])

prop('C10', 20000, 300000,
     "one run = one seeded interleaving of batched writes, queries and rejected calls by 3 clients on 1-2 trees; non-trivial = at least two writes and five operations",
     ["coax.utils.SegmentTree", "coax.utils.SumTree", "coax.utils.MinTree", "coax.utils.MaxTree"], STUB_NONE,
     ["leaf values are non-negative for sum trees (documented precondition)"])

CLUSTER_REAL = ["coax.Worker (loops, buffer, state, attribute and metric calls)", "coax.wrappers.TrainMonitor", "coax.reward_tracing.NStep / MonteCarlo",
                "coax.experience_replay.PrioritizedReplayBuffer / SimpleReplayBuffer", "coax.utils.chunks_pow2"]
CLUSTER_STUB = ["ray (actors, object store, network) simulated", "environments simulated", "policy and learner arithmetic simulated", "clock simulated"]

prop('C01', 2400, 60000,
     "one run = one simulated cluster (1-4 rollout workers, 0-1 learners, remote or in-process store) run to the end of its step budget under a seeded schedule with "
     "message delays, lost requests/replies, stalls, environment failures and worker crashes; non-trivial = several episodes delivered with concurrency or faults",
     CLUSTER_REAL, CLUSTER_STUB,
     ["actor calls execute one at a time (ray's default concurrency)", "a call whose reply is lost counts as neither acknowledged nor refused"])

prop('C02', 4000, 60000,
     "one run = 1-3 writers and 1-3 samplers on one store (remote, in-process, or the store itself) with seeded warm-up settings, arrival gaps (0 to 240 simulated "
     "seconds), message delays, losses and stalls; non-trivial = at least one sample request had to wait",
     CLUSTER_REAL[:1] + CLUSTER_REAL[3:4], CLUSTER_STUB,
     ["enough experience eventually arrives", "slack of 24 message delays plus stall time on top of the 30 s bound"])

prop('C03', 800, 40000,
     "one run = one simulated cluster (1-3 rollout loops, 1-2 learner loops, 0-2 extra pull/push clients) with uniquely stamped parameter states under a seeded schedule with "
     "delays, lost requests/replies, stalls, environment failures and crashes; non-trivial = at least two published states and two episodes",
     CLUSTER_REAL + ["coax.Q, coax.EpsilonGreedy, coax.BoltzmannPolicy (in about a third of the runs)"], CLUSTER_STUB,
     ["actor calls execute one at a time (ray's default concurrency)"])

_PURE = ("stateless numerical function of its inputs: no scheduling, time, I/O, crash point or other party takes part in it, so a seeded schedule/fault search has nothing to "
         "decide; it needs input-space techniques (property-based testing, proof) that this study excludes")
NOT_APPLICABLE = {
    'C90': "TD targets and objectives: " + _PURE,
    'C91': "Distributions: " + _PURE,
    'C92': "Value transforms and losses: " + _PURE,
    'C93': "Construction-time signature and shape checks: " + _PURE,
    'C94': "Array helpers: " + _PURE,
}

prop('C04', 4000, 60000,
     "one run = one simulated cluster (1-4 rollout loops, 0-2 learner loops) run to the end of a seeded budget or reward threshold under a seeded schedule with delays, losses, stalls, "
     "environment failures and crashes; non-trivial = the shared counter changed at least twice",
     CLUSTER_REAL, CLUSTER_STUB, ["a learner that waits for experience gets it eventually"])

prop('C05', 5000, 80000,
     "one run = 1-4 clients reading and writing shared attributes and metrics (6-24 calls each) on a remote or in-process store under a seeded schedule with delays, losses, stalls and "
     "rejected calls; the whole history is checked for linearizability against a one-copy model; non-trivial = more than four calls including a read",
     CLUSTER_REAL[:2], CLUSTER_STUB, ["a call whose request or reply was lost may or may not have taken effect, at any later time"])

prop('C06', 1000, 40000,
     "one run = the same seeded cluster scenario (schedule, delays, environment failures) executed on a good and on a faulty wall clock (frozen, coarse, drifting, jumping both ways, "
     "decided at every clock read), outcomes compared; non-trivial = more than one episode and at least one clock fault",
     CLUSTER_REAL, CLUSTER_STUB, ["only the wall clock misbehaves; sleeping and the network use true simulated time"])

prop('C11', 12000, 200000,
     "one run = 1-3 reward tracers driven by an interleaved history of add/pop/flush/reset/snapshot-restore and refused calls; every emitted transition is compared with the full episode; "
     "non-trivial = an episode ended and at least one interruption, reset or refused call happened",
     ["coax.reward_tracing.NStep", "coax.reward_tracing.MonteCarlo", "coax.reward_tracing.TransitionBatch"], STUB_NONE,
     ["the order in which pending transitions are emitted is not specified"])

_MON = ("one run = one monitored environment driven through a seeded history of episodes, failing resets and steps, metric records, clock faults, counter snapshots, files, pickles, crashes and "
        "restores into the same or a new monitor; non-trivial = several episodes and at least one failure, restore or refused call")
prop('C12', 12000, 120000, _MON, ["coax.wrappers.TrainMonitor", "coax.utils.dump"], ["environment scripted", "clock simulated", "tensorboard writer simulated"],
     ["whether an episode whose reset failed is counted is left open"])
prop('C13', 12000, 120000, _MON, ["coax.wrappers.TrainMonitor", "coax.utils.dump"], ["environment scripted", "clock simulated", "tensorboard writer simulated"],
     ["whether an episode whose reset failed is reported is left open", "log formatting is parsed as 'key: value' fields with three significant digits"])

prop('C14', 3000, 150000,
     "one run = 1-3 epochs in which 1-3 simulated processes save to and load from 1-2 files on a simulated disk, with I/O errors, full disk, short and partial reads and writes, interrupts, "
     "unserialisable objects, process crashes and machine crashes (lost and torn unsynced writes, lost directory operations) at any disk operation; every history is checked to be that of one "
     "atomic register per file; non-trivial = at least one fault and more than four disk operations",
     ["coax.utils.dump / load / dumps / loads", "coax.wrappers.TrainMonitor.save_counters / load_counters", "cloudpickle, lz4, python's buffered I/O"],
     ["disk and page cache simulated on top of a scratch directory", "process and machine crashes simulated"],
     ["directory operations survive a machine crash in order, and a save that returned may be lost by a machine crash before the directory itself was synced",
      "no stray-file requirement after a crash or when the removal of a file failed"])

AGENT_REAL = ["coax.Q / V / Policy / StochasticQ / StochasticV / transition and reward models", "coax.td_learning (QLearning, DoubleQLearning, ClippedDoubleQLearning, "
              "SoftClippedDoubleQLearning, SoftQLearning, Sarsa, ExpectedSarsa, SimpleTD)", "coax.policy_objectives (VanillaPG, PPOClip, DeterministicPG, SoftPG)",
              "coax.model_updaters.ModelUpdater", "coax.regularizers", "haiku, optax, JAX on the CPU"]
AGENT_STUB = ["environments and experience are generated", "network transfer of gradients simulated by serialisation"]

prop('C16', 1200, 50000,
     "one run = one of 16 kinds of agents driven through 3-14 requests (updates, gradient applications, target syncs, optimizer changes) with NaN gradients (in all leaves or exactly one), "
     "malformed batches, gradients, states, parameters, failing and mismatching optimizers injected at seeded points, and a second time without the faults; non-trivial = at least one fault and "
     "one regular request",
     AGENT_REAL, AGENT_STUB, ["the agent's random seed is set before every request, so that the number of random numbers a refused request consumed does not matter"])

prop('C17', 800, 40000,
     "one run = a learner and a gradient worker of one of 16 kinds of agents, 4-16 interleaved operations (remote gradient computation, delayed and reordered delivery, local updates, soft updates, "
     "copies, assignments, predictions, held references); a reference model of all parameters, function and optimizer states is compared after every operation; non-trivial = copies, held references "
     "or stale/reordered gradients occurred",
     AGENT_REAL, AGENT_STUB, ["optimizer steps are compared with optax up to float32 rounding"])

prop('C20', 1600, 100000,
     "one run = 1-3 boards played by several clients (10-160 operations): moves in five styles, illegal moves, malformed state ids, resets, snapshots, restores into the same, another or a new board, "
     "crashes with only the state ids surviving, process migration, clients that overwrite arrays they were given; non-trivial = a game ended or a snapshot was restored",
     ["coax.envs.ConnectFourEnv"], STUB_NONE,
     ["observation layer 0 belongs to the player who moved last (as shipped)", "available moves are the columns that are not full"])

prop('C22', 3000, 150000,
     "one run = 1-5 noise processes used alternately (6-50 operations): calls with different action types, resets, parameter changes, deep copies, process migration, reseeding of the global generators, "
     "clients that overwrite returned arrays; every call is compared with the recurrence driven by a probe instance of the same seed; non-trivial = at least four calls and one disturbance",
     ["coax.utils.OrnsteinUhlenbeckNoise", "coax.utils.dumps / loads"], STUB_NONE,
     ["the white noise of an instance is a function of its seed and call history (that is C18)", "normality is rejected only at p < 1e-10", "actions are floating point numbers"])

prop('C21', 2000, 100000,
     "one run = 1-6 playbacks and recordings of episodes (length 1-12, ending by termination, truncation or both) on 1-2 simulated environments, monitored or not, on simulated time, with slow and failing "
     "environments, failing policies, shared frame buffers, and other playbacks running while one sleeps; non-trivial = several playbacks, an interleaved one or a fault",
     ["coax.utils.render_episode", "coax.utils.generate_gif", "coax.wrappers.TrainMonitor", "PIL gif encoder"], ["environments simulated", "clock simulated"],
     ["whether a recording includes the picture before the first step is left open", "only the outermost TrainMonitor is bypassed"])

prop('C19', 4000, 200000,
     "one run = 1-3 stacks of wrappers (frame stacking, box-to-reals, box-to-bins, meta-policy, also nested) over scripted environments, 6-60 interleaved resets and steps with failing resets and steps, failing "
     "arms and rejected actions; everything is compared with a reference computed from the environments' own logs; non-trivial = at least three steps and a second episode or a fault",
     ["coax.wrappers.FrameStacking", "coax.wrappers.BoxActionsToReals", "coax.wrappers.BoxActionsToDiscrete", "coax.wrappers.MetaPolicyEnv"], ["environments and policies scripted"],
     ["after a failed reset the client resets again before stepping", "environments do not modify observations that they have returned"])

prop('C18', 2600, 150000,
     "one run = 2-4 seeded components (buffers, segment tree, noise, random policy, action adapter, batch generator, function approximators, complete agents, a shared environment's own space) created and used "
     "in a seeded interleaving with strangers who reseed and use the global generators, copy components or create more of them; the same calls are repeated by each component alone; non-trivial = at "
     "least one stranger acted",
     ["coax.experience_replay", "coax.utils.SumTree / OrnsteinUhlenbeckNoise / safe_sample / get_transition_batch", "coax.RandomPolicy", "coax.wrappers.BoxActionsToDiscrete",
      "coax.V / Q / Policy / StochasticV / StochasticTransitionModel", "agents with PPOClip, SimpleTD, QLearning, DeterministicPG"], ["environments reduced to their spaces"],
     ["different seeds are only required to give different sequences where a coincidence has probability below 2^-60"])

prop('C15', 420, 20000,
     "one run = one training program (one of 16 kinds of agents or three without function approximators, with monitored environment, tracer, replay buffer, noise) of 10-60 operations with checkpoints and "
     "crashes at seeded points; after a crash only the checkpoint survives, it is restored in the same or in another process, the work since the checkpoint is repeated, and every observation is compared with "
     "that of a twin that is never interrupted; non-trivial = more than three operations were compared after a restart",
     AGENT_REAL + ["coax.utils.dump / dumps / load / loads", "coax.wrappers.TrainMonitor, FrameStacking, BoxActionsToDiscrete", "coax.reward_tracing.NStep / MonteCarlo",
                   "coax.experience_replay.SimpleReplayBuffer / PrioritizedReplayBuffer", "coax.utils.OrnsteinUhlenbeckNoise", "coax.RandomPolicy"], AGENT_STUB,
     ["all objects are saved as one bundle (documented requirement for references to be preserved)", "3% of the agent runs compile, the others run the same code without compilation"])

prop('C23', 700, 30000,
     "one run = one of 16 kinds of compiled, long-lived agents whose exploration rate, temperature, regularization strength, priors, clipping, optimizers, parameters and states are changed 4-14 times in a seeded "
     "order, interleaved with actions, evaluations, gradients and updates, each of which is compared with an agent freshly built with the current settings and run without compilation; non-trivial = at least one "
     "change and one compared use",
     AGENT_REAL + ["coax.EpsilonGreedy", "coax.BoltzmannPolicy"], AGENT_STUB,
     ["compiled and uncompiled arithmetic agree up to float32 rounding", "SoftQLearning.temperature and the constants of the n-step entropy regularizer are construction-time settings"])

prop('C24', 1500, 60000,
     "one run = 4 function approximators that have modules in common, trained by their own updaters, and a coordinator that synchronises any of them with seeded weights (4-24 operations), from live or from "
     "outdated serialised parameters, with delayed, reordered, lost and refused installs; a double-precision reference model of all parameters is compared after every operation; non-trivial = at least two "
     "synchronisations and a fault or a held reference",
     ["coax.utils.sync_shared_params", "coax.Policy / V / Q", "coax.policy_objectives.VanillaPG", "coax.td_learning.SimpleTD / QLearning", "haiku, optax, JAX on the CPU"], AGENT_STUB,
     ["modules with the same name have the same parameters in all owners, otherwise the call has to be refused", "float32 rounding is tolerated"])

prop('C25', 1200, 50000,
     "one run = 1-4 environments of 1-2 control-suite tasks (10 tasks) created at seeded moments with seeded seeds, step limits and image settings, 6-60 interleaved operations (reset, reseed, step, render, failing "
     "calls, rejected actions, reseeding of the global generators); every result is compared with that of the bare task, loaded with the same seed and driven by the same history; non-trivial = at least three "
     "steps and a second environment or a fault",
     ["coax.utils.make_dmc and its environment", "gymnasium.make, TimeLimit, OrderEnforcing, PassiveEnvChecker", "dm_control suite and MuJoCo"],
     ["renderer (no display): records its arguments", "time limit, action and sensor bounds of the tasks are varied through dm_control's Environment class"],
     ["the control suite itself is trusted: it is the oracle", "a step after the end of an episode is not specified"])
