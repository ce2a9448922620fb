"""Writes /verif/properties.jsonl (one-off source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

D = "tianshou/data/"
prop("P01", "Segment tree interval sums always equal the sums of the stored leaves",
 "After any sequence of scalar or batched leaf assignments (duplicate indices included, the last value winning), every leaf read returns the last value assigned to it (zero if never assigned), and the sum reported for any interval [start, end) - negative or omitted ends included - equals the sum of the leaves in it. An assignment to an index outside [0, size) is rejected and changes nothing.",
 ["inputs", "histories"], "every tree size, every history of scalar/array writes with non-negative values, every interval",
 "tests sample a few sizes with random writes; the heap shape, the loop over levels and duplicate indices only interact for particular sizes and intervals",
 [D+"utils/segtree.py"],
 [("level-by-level parent recomputation", "tianshou/data/utils/segtree.py:_setitem"), ("two-cursor interval aggregation", "tianshou/data/utils/segtree.py:_reduce"), ("index guards", "tianshou/data/utils/segtree.py:SegmentTree.__setitem__")],
 ["SegmentTree[...]", "SegmentTree.reduce"],
 [("_value", "binary heap of partial sums; node i = node 2i + node 2i+1", "tianshou/data/utils/segtree.py:SegmentTree.__init__")])
prop("P02", "Prefix-sum lookup draws each leaf exactly on its own mass interval",
 "For any non-negative leaf values and any query value in [0, total), the prefix-sum lookup returns the smallest leaf index whose inclusive prefix sum is at least the query value, so the returned index is a real leaf, and a positive query never selects a leaf of zero weight. Scalar and batched queries agree element by element, and a query outside [0, total) is rejected.",
 ["inputs"], "every tree size, leaf weights and query value or array of query values",
 "tests draw random queries on a few trees; boundary values, zero-weight leaves and non-power-of-two sizes are hit only by chance",
 [D+"utils/segtree.py"],
 [("descending walk subtracting left sums", "tianshou/data/utils/segtree.py:_get_prefix_sum_idx"), ("range assertions", "tianshou/data/utils/segtree.py:SegmentTree.get_prefix_sum_idx")],
 ["SegmentTree.get_prefix_sum_idx"])
prop("P03", "A replay buffer holds exactly the most recent transitions, in order",
 "After any sequence of adds, resets and bulk transfers from another buffer, a replay buffer's length is min(number of transitions added since the last reset, capacity), and it holds exactly that many most recent transitions, unmodified in every field; each add reports the index at which its transition is stored. Asking for all stored indices (sample size 0) returns each valid index exactly once, oldest transition first.",
 ["histories", "inputs"], "every capacity, every interleaving of add / reset / transfer, any number of wrap-arounds",
 "tests add a handful of transitions with fixed capacity; overwriting order and reset/transfer after wrap-around depend on the whole history",
 [D+"buffer/base.py"],
 [("ring state update", "tianshou/data/buffer/base.py:ReplayBuffer._update_state_pre_add"), ("writing the transition", "tianshou/data/buffer/base.py:ReplayBuffer.add"), ("bulk transfer", "tianshou/data/buffer/base.py:ReplayBuffer.update"), ("chronological listing", "tianshou/data/buffer/base.py:ReplayBuffer.sample_indices"), ("reset", "tianshou/data/buffer/base.py:ReplayBuffer.reset")],
 ["len(buffer)", "buffer[indices]", "buffer.add(...)", "buffer.sample_indices(0)"],
 [("_size,_insertion_idx,last_index", "fill level, next write position, last written position", "tianshou/data/buffer/base.py:ReplayBuffer.__init__")])
prop("P04", "Adding the last step of an episode reports its true return, length and start",
 "When a transition ending an episode (terminated or truncated) is added, the add reports exactly the sum of rewards, the number of steps and the index of the first step of that episode in the sub-buffer it was added to; for a transition that does not end the episode the reported return and length are zero. Statistics start anew after an episode end, a reset that keeps statistics preserves the running return and length while an ordinary reset clears them, and other sub-buffers' running episodes are never mixed in.",
 ["histories", "inputs"], "every history of adds over any set of sub-buffers in any order, episodes of any length shorter than the sub-buffer, across wrap-arounds",
 "tests follow a few short scripted episodes; accumulation across wrap-around and interleaved sub-buffers is a history property",
 [D+"buffer/base.py", D+"buffer/manager.py"],
 [("per-episode accumulators", "tianshou/data/buffer/base.py:ReplayBuffer._update_state_pre_add"), ("done = terminated or truncated", "tianshou/data/buffer/base.py:ReplayBuffer.add"), ("dispatch to sub-buffers", "tianshou/data/buffer/manager.py:ReplayBufferManager.add")],
 ["return value of ReplayBuffer.add / ReplayBufferManager.add"])
prop("P05", "Stepping to the previous or next transition never leaves an episode",
 "For every stored transition, 'next' returns the chronologically following stored transition of the same episode, or the transition itself if it ends its episode or is the newest in its (sub-)buffer; 'prev' is the exact counterpart, returning the transition itself at an episode start or at the oldest stored transition. The unfinished-episode listing contains exactly the newest transition of each non-empty (sub-)buffer whose newest transition does not end an episode, and a vectorised buffer answers exactly as its sub-buffers would, shifted by their offsets.",
 ["histories", "inputs"], "every buffer history (including wrap-around, reset and unfinished episodes), every index or index array, single and vectorised buffers",
 "tests check hand-picked indices for a few layouts; the wrap-around of a partly filled or overwritten episode depends on the history",
 [D+"buffer/base.py", D+"buffer/manager.py"],
 [("modular predecessor/successor with episode guard", "tianshou/data/buffer/base.py:ReplayBuffer.prev/next"), ("per-sub-buffer masks", "tianshou/data/buffer/manager.py:_prev_index/_next_index"), ("newest unfinished steps", "tianshou/data/buffer/base.py:ReplayBuffer.unfinished_index")],
 ["buffer.prev", "buffer.next", "buffer.unfinished_index"])
prop("P06", "Sampling and frame stacking only ever return stored, same-episode data",
 "Sampling n>0 transitions from a non-empty buffer returns exactly n indices, each of them a currently stored transition; an omitted size returns as many as are stored, and a negative size returns none. With frame stacking, the stack for an index consists of that transition and its predecessors within the same episode in time order, the earliest available one repeated when the episode is too short; with 'sample available' every sampled index has a full stack inside its episode.",
 ["inputs", "histories"], "every buffer history, stack depth, requested size and random draw, single and vectorised buffers",
 "tests sample some indices with a fixed seed; validity must hold for every draw and fill state",
 [D+"buffer/base.py", D+"buffer/manager.py"],
 [("index selection", "tianshou/data/buffer/base.py:ReplayBuffer.sample_indices"), ("stacking through prev", "tianshou/data/buffer/base.py:ReplayBuffer.get"), ("proportional allocation to sub-buffers", "tianshou/data/buffer/manager.py:ReplayBufferManager.sample_indices")],
 ["buffer.sample", "buffer.sample_indices", "buffer.get"])
prop("P07", "Sub-buffers of a vectorised buffer are isolated and cover disjoint index ranges",
 "A vectorised buffer behaves as independent sub-buffers laid out back to back: adding data for some sub-buffers stores each row, unmodified, in the sub-buffer it was addressed to, reports its global index, and changes no other sub-buffer's stored data, length or running statistics. Its length is always the sum of the sub-buffer lengths, its total capacity the sum of their capacities, listing everything enumerates each stored transition once, sub-buffer by sub-buffer and oldest first, and a reset empties all of them.",
 ["histories", "inputs"], "every number and size of sub-buffers, every sequence of adds to arbitrary subsets of sub-buffers in arbitrary order, resets in between",
 "tests use few sub-buffers, mostly all at once; cross-talk appears only for particular subsets, orders and wrap-arounds",
 [D+"buffer/manager.py", D+"buffer/vecbuf.py"],
 [("offset arithmetic", "tianshou/data/buffer/manager.py:ReplayBufferManager.__init__"), ("addressed add", "tianshou/data/buffer/manager.py:ReplayBufferManager.add"), ("size split", "tianshou/data/buffer/vecbuf.py:VectorReplayBuffer.__init__")],
 ["vector buffer add/len/sample_indices/reset"])
prop("P08", "A cached buffer moves whole finished episodes, and nothing else, to main",
 "Transitions added through a cached buffer stay in the cache of their own environment until that environment's episode ends; at that moment exactly that episode's (cached) transitions are appended in order to the main buffer, the cache of that environment becomes empty, and the other caches are untouched. The main buffer therefore only ever contains contiguous, complete episodes, and the reported indices are where the data now lives.",
 ["histories", "inputs"], "every number of environments, episode-length pattern and interleaving of episode ends, main buffer wrap-around included",
 "tests play a few scripted interleavings; contiguity must hold for every order of episode ends",
 [D+"buffer/cached.py", D+"buffer/base.py"],
 [("move on done", "tianshou/data/buffer/cached.py:CachedReplayBuffer.add"), ("bulk transfer", "tianshou/data/buffer/base.py:ReplayBuffer.update")],
 ["CachedReplayBuffer.add", "cached.main_buffer", "cached.cached_buffers"])
prop("P09", "Prioritised replay samples and corrects exactly by the priorities it stores",
 "Every stored transition always has a positive priority: a newly stored one gets the highest priority seen so far, and after a priority update each updated one gets (|new weight| + tiny constant) to the power alpha; the chance of drawing a transition is its share of the total priority, and only stored transitions are drawn. The importance weight attached to a sampled transition is (priority / smallest priority ever seen) to the power -beta with the beta in force, divided by the largest weight of that batch when normalisation is on.",
 ["histories", "inputs"], "every history of adds, samples, priority updates and beta changes; any alpha, beta >= 0; single and vectorised buffers",
 "tests compare a few values; stale priorities after overwriting, min/max tracking and beta changes are history dependent",
 [D+"buffer/prio.py", D+"buffer/vecbuf.py", D+"utils/segtree.py"],
 [("initial priority", "tianshou/data/buffer/prio.py:PrioritizedReplayBuffer.init_weight"), ("update", "tianshou/data/buffer/prio.py:PrioritizedReplayBuffer.update_weight"), ("importance weight", "tianshou/data/buffer/prio.py:PrioritizedReplayBuffer.get_weight/__getitem__"), ("sampling", "tianshou/data/buffer/prio.py:PrioritizedReplayBuffer.sample_indices")],
 ["buffer.sample(...).weight", "buffer.update_weight", "buffer.set_beta"])
prop("P10", "Hindsight relabelling only substitutes goals achieved later in the same episode",
 "When a hindsight buffer samples, for each relabelled transition the desired goal is replaced by a goal actually achieved at that transition or a later one of the same episode, consistently over the rest of that episode, and its reward is recomputed by the user's reward function from the achieved goal and the new goal; all other fields are unchanged and transitions not chosen for relabelling keep their original goal and reward. Relabelling is temporary: the original data is restored before the next sample, add or save.",
 ["inputs", "histories"], "every buffer history with complete and unfinished episodes, horizon, future ratio and random draw",
 "tests check shape-level facts for one environment; correctness must hold for each random choice and layout, including wrap-around",
 [D+"buffer/her.py"],
 [("relabelling", "tianshou/data/buffer/her.py:HERReplayBuffer.rewrite_transitions"), ("restore", "tianshou/data/buffer/her.py:HERReplayBuffer._restore_cache")],
 ["HERReplayBuffer.sample_indices", "buffer[indices]"])
prop("P11", "Saving and loading a buffer preserves its contents and its future behaviour",
 "A buffer written to disk and loaded back (HDF5 or pickle) has the same length, data (values, dtypes and structure), indices and running episode state, and behaves identically under every subsequent add, sample-all, prev/next and reset. Converting data to tensors and back to arrays likewise preserves structure, values and dtypes.",
 ["histories", "inputs"], "every buffer kind, history before saving, nested data structure and sequence of operations after loading",
 "tests compare a few fields of a few buffers right after loading, not the behaviour afterwards or arbitrary nesting",
 [D+"buffer/base.py", D+"buffer/manager.py", D+"utils/converter.py"],
 [("save/load", "tianshou/data/buffer/base.py:ReplayBuffer.save_hdf5/load_hdf5"), ("restoring shared sub-buffer storage", "tianshou/data/buffer/manager.py:ReplayBufferManager.__setstate__/load_hdf5"), ("conversion", "tianshou/data/utils/converter.py:to_hdf5/from_hdf5/to_numpy/to_torch")],
 ["buffer.save_hdf5/load_hdf5", "pickle", "to_numpy/to_torch"])
prop("P12", "Episodic returns and advantages follow the GAE recursion with correct cut-offs",
 "For every batch of consecutive transitions, the advantage at step t is r_t + gamma*V(s_{t+1}) - V(s_t) plus gamma*lambda times the advantage at t+1, where V(s_{t+1}) counts as zero if and only if step t truly terminated, and the recursion is cut exactly after steps that terminate, are truncated or are the last one stored of an unfinished episode; the return is the advantage plus V(s_t). Discounted Monte-Carlo return-to-go of an episode is the sum over k of gamma^k times r_{t+k} up to the episode end.",
 ["inputs", "histories"], "every reward, value, termination/truncation pattern, length, gamma and lambda; every set of sub-buffers with unfinished episodes",
 "tests compare four fixed reward patterns; the recursion must hold for every pattern and length",
 ["tianshou/policy/base.py"],
 [("backward recursion", "tianshou/policy/base.py:_gae_return"), ("masking and cut-offs", "tianshou/policy/base.py:BasePolicy.compute_episodic_return"), ("value mask", "tianshou/policy/base.py:BasePolicy.value_mask"), ("return-to-go", "tianshou/policy/base.py:episode_mc_return_to_go")],
 ["BasePolicy.compute_episodic_return", "episode_mc_return_to_go"])
prop("P13", "N-step returns bootstrap from the right state and never past an episode end",
 "For every sampled transition, the n-step return is the discounted sum of rewards along at most n consecutive stored steps of its own episode, stopping at the first step that ends the episode or is the newest stored one, plus gamma to the number of steps actually summed times the bootstrap value at the last summed step; the bootstrap contribution is zero if that step truly terminated, and is kept when it was merely truncated or is unfinished.",
 ["inputs", "histories"], "every buffer history, index batch, n, gamma, terminated/truncated pattern and bootstrap value (vector-valued included)",
 "tests compare a few fixed buffers and n in {1,2,10}; every pattern of early ends and wrap-around matters",
 ["tianshou/policy/base.py", D+"buffer/base.py"],
 [("index chain", "tianshou/policy/base.py:BasePolicy.compute_nstep_return"), ("backward accumulation", "tianshou/policy/base.py:_nstep_return")],
 ["BasePolicy.compute_nstep_return"])
prop("P14", "Actions sent to the environment respect its bounds and the mapping is invertible",
 "With action scaling on, every action a continuous-control policy maps for the environment lies within the environment's bounds component-wise (after clipping or tanh squashing), with -1, 0 and 1 mapped to the lower bound, the midpoint and the upper bound and everything in between affinely; the inverse mapping recovers the model-side action for every action strictly inside the bounds. Mapping never alters the action stored for learning, and discrete actions pass through unchanged.",
 ["inputs", "configurations"], "every action value, box bound (asymmetric, per-dimension, unequal) and bounding/scaling configuration",
 "tests use one symmetric box; every bound and every action must satisfy it",
 ["tianshou/policy/base.py"],
 [("map_action", "tianshou/policy/base.py:BasePolicy.map_action"), ("map_action_inverse", "tianshou/policy/base.py:BasePolicy.map_action_inverse")],
 ["policy.map_action", "policy.map_action_inverse"])
prop("P15", "Target networks change only by their synchronisation rule",
 "A target network's parameters change only through its synchronisation: a soft update sets each to tau*online + (1-tau)*target and leaves the online network untouched; hard synchronisation copies the online network exactly, and does so exactly at every k-th learning step when a frequency k is set. In the deterministic and soft actor-critic families the bootstrap value is the element-wise minimum of the two target critics (minus the entropy bonus where defined), evaluated with target networks only, and gradient steps never modify the targets.",
 ["inputs", "histories"], "every tau, network parameters, number of learning steps and frequency",
 "tests train a few steps and look at reward; they never compare target parameters or bootstrap values",
 ["tianshou/policy/base.py", "tianshou/policy/modelfree/dqn.py", "tianshou/policy/modelfree/ddpg.py", "tianshou/policy/modelfree/td3.py", "tianshou/policy/modelfree/sac.py"],
 [("soft update", "tianshou/policy/base.py:BasePolicy.soft_update"), ("hard sync every k", "tianshou/policy/modelfree/dqn.py:DQNPolicy.learn/sync_weight"), ("twin minimum", "tianshou/policy/modelfree/td3.py:TD3Policy._target_q; sac.py:SACPolicy._target_q")],
 ["target network parameters", "policy._target_q"])
prop("P16", "Temporary mode switches are undone on every exit, exceptions included",
 "Whatever happens inside them, the scoped switches for network training mode and for 'within a training step' restore the previous value on exit, nested uses included, and inside them the requested value is in force; updating a policy outside a training step is refused. The 'updating' flag is true during the learning phase of an update and false before and after, and an update on an absent buffer is a no-op reporting empty statistics.",
 ["fault_sequences", "histories"], "every initial mode, nesting and point at which the body raises",
 "tests run the success path; the exceptional path and nesting are not exercised",
 ["tianshou/utils/torch_utils.py", "tianshou/policy/base.py"],
 [("context managers", "tianshou/utils/torch_utils.py:torch_train_mode/policy_within_training_step"), ("update protocol", "tianshou/policy/base.py:BasePolicy.update")],
 ["module.training", "policy.is_within_training_step", "policy.updating"])
prop("P17", "Splitting a batch into minibatches visits every row exactly once",
 "Splitting a batch of n rows with minibatch size s (1 <= s; -1 meaning everything) yields minibatches that together contain each row exactly once, every field kept aligned row by row, in original order when shuffling is off; each minibatch has exactly s rows except possibly the last, which holds the remaining rows, or - when merging is requested and a remainder exists - holds s plus the remainder.",
 ["inputs"], "every batch length, size, shuffle and merge setting, and permutation",
 "tests try a few lengths; the boundary cases (remainder, size > length, merge) need every pair (n, s)",
 [D+"batch.py"],
 [("split", "tianshou/data/batch.py:Batch.split")], ["Batch.split"])
prop("P18", "Batch structural operations keep every field aligned and lose nothing",
 "Indexing a batch applies the same index to every (nested) field and nothing else; assigning a batch to an index writes exactly the addressed rows of every field, zero-filling fields the source lacks and leaving all other rows unchanged; stacking batches yields every input in order, with entries of inputs that lack a field filled with zeros (nested fields that cannot be reconciled are rejected); concatenating batches of the same structure yields every row of each input in order (a field that is an empty batch in one input is zero-filled there), and batches of different structure are rejected with nothing changed. The length is that of the shortest field, converting to tensors and back preserves values, and arithmetic (adding a number or a batch with the same fields, multiplying or dividing by a number) acts on every field.",
 ["inputs"], "every nested structure, field set, dtype mix and index kind",
 "tests cover sample structures; alignment must hold for any nesting, partial key sets and index kind",
 [D+"batch.py"],
 [("index/assign", "tianshou/data/batch.py:Batch.__getitem__/__setitem__"), ("cat/stack", "tianshou/data/batch.py:Batch.cat_/stack_"), ("len", "tianshou/data/batch.py:Batch.__len__")],
 ["Batch operations"])
prop("P19", "Running statistics equal the exact statistics of the data they were fed",
 "After any sequence of batch updates, the running mean/variance equals (up to rounding) the mean and variance of all rows seen, independently of how they were split into batches, and normalising with them gives (x - mean)/sqrt(var + eps) clipped to the configured range. The moving average reports the mean and standard deviation of exactly the last window-size accepted values, ignoring NaN and infinite values, and sequence summaries report the exact mean, std, max and min, all zero for an empty sequence.",
 ["inputs", "histories"], "every sequence of updates, batch split, window size and value",
 "tests feed one or two fixed sequences; the merge formula must be exact for every split",
 ["tianshou/utils/statistics.py", D+"stats.py"],
 [("pairwise merge", "tianshou/utils/statistics.py:RunningMeanStd.update"), ("window", "tianshou/utils/statistics.py:MovAvg.add"), ("summary", "tianshou/data/stats.py:SequenceSummaryStats.from_sequence")],
 ["RunningMeanStd", "MovAvg", "SequenceSummaryStats"])
prop("P20", "Vector-environment results are attributed to the environment that produced them",
 "In every order in which environments become ready, each row returned by stepping, resetting or querying a vectorised environment comes from the environment whose id it is reported under; in synchronous mode rows come back in the order of the ids requested, each environment receives exactly its own action, and in asynchronous mode every environment is at any time either ready or waiting (never both), no result is lost or duplicated, and stepping an environment that is still waiting is refused. Seeding gives environment i the i-th seed (seed + i for a single integer).",
 ["schedules", "inputs", "histories"], "every number of environments, readiness order, subset of ids (any order) and interleaving of step/reset",
 "tests run a few timing-dependent schedules; the bookkeeping must hold for each readiness order",
 ["tianshou/env/venvs.py", "tianshou/env/worker/base.py", "tianshou/env/worker/dummy.py", "tianshou/env/worker/subproc.py"],
 [("step / async bookkeeping", "tianshou/env/venvs.py:BaseVectorEnv.step"), ("id checks", "tianshou/env/venvs.py:BaseVectorEnv._wrap_id/_assert_id"), ("reset", "tianshou/env/venvs.py:BaseVectorEnv.reset"), ("seed", "tianshou/env/venvs.py:BaseVectorEnv.seed")],
 ["venv.step/reset/seed/get_env_attr"])
prop("P21", "The collector gathers what was asked for and stores exactly what happened",
 "Collecting n steps gathers at least n and fewer than n plus the number of environments transitions; collecting n episodes finishes exactly n episodes (with an asynchronous collector: at least n); the reported step and episode counts, returns and lengths equal those of the transitions and episodes actually observed. Every environment step taken is stored exactly once, with the observation the policy saw, the action it chose, and the reward, flags and next observation the environment produced, in the sub-buffer of that environment (whose capacity is at least one episode); while collecting, an environment is reset exactly when its episode has ended, and the policy is always given the current observation and info of each environment and, if it is recurrent, the state it last returned for that environment, cleared when an episode ends.",
 ["histories", "inputs"], "every number of environments, episode-length pattern, n, hook setting and sequence of collect/reset calls",
 "tests use a couple of move-to-right environments; the surplus-environment logic and the state carried between calls depend on the pattern of episode ends",
 [D+"collector.py"],
 [("collect loop", "tianshou/data/collector.py:Collector._collect"), ("argument validation", "tianshou/data/collector.py:BaseCollector._validate_n_step_n_episode"), ("statistics", "tianshou/data/collector.py:CollectStats")],
 ["Collector.collect return value", "collector.buffer"])
prop("P22", "Trainers report the true best policy and count every step they take",
 "At every point of training the reported best epoch, score and reward are those of the first test with the highest score so far (tests are the initial one, the one after each epoch, and one during training whose reward the stop condition accepts); the save-best hook runs once for every initial test and then exactly on each strict improvement, and training stops early exactly when the stop condition accepts the best reward after an epoch, or both the training reward and a test reward during training. In one run the environment-step and episode counters equal the totals collected and the gradient-step counter of off-policy and offline training equals the updates performed: off-policy training performs round(update ratio x collected steps) updates per collection, offline training a fixed number per epoch, and on-policy training learns only from, and then discards, the data of the current collection.",
 ["histories", "inputs", "configurations"], "every sequence of test scores, stop condition, hook configuration, epoch/step setting and collected-step counts",
 "tests train on one task; score sequences with ties or regressions and unusual configurations are not enumerated",
 ["tianshou/trainer/base.py", "tianshou/trainer/utils.py"],
 [("best tracking", "tianshou/trainer/base.py:BaseTrainer.test_step"), ("train-time best and stop", "tianshou/trainer/base.py:BaseTrainer._update_best_reward_and_return_should_stop_training/_collect_training_data"), ("gradient-step counts", "tianshou/trainer/base.py:OffpolicyTrainer/OnpolicyTrainer/OfflineTrainer._update_step")],
 ["trainer.best_epoch/best_reward", "EpochStats", "save_best_fn calls", "policy.update calls"])
prop("P23", "Discrete policies never choose an action the environment masked out",
 "Whenever the observation carries an action mask, every action chosen by value-based, epsilon-greedy or random discrete policies is one the mask allows (given at least one allowed action), whatever the values, mask or random draws; without a mask, greedy selection picks an action of maximal value among the allowed ones and exploration picks an action within the action space. Exploration with rate 0 changes nothing.",
 ["inputs"], "every value vector, mask with an allowed action, epsilon and random draw",
 "tests play one board game; a large value gap or a tie may leak a masked action",
 ["tianshou/policy/modelfree/dqn.py", "tianshou/policy/random.py"],
 [("mask shifts values below all allowed ones", "tianshou/policy/modelfree/dqn.py:DQNPolicy.compute_q_value"), ("masked exploration", "tianshou/policy/modelfree/dqn.py:DQNPolicy.exploration_noise"), ("masked random", "tianshou/policy/random.py:MARLRandomPolicy.forward")],
 ["policy(batch).act", "policy.exploration_noise"])
prop("P24", "The categorical (C51) target is a probability distribution with the right mean",
 "For every return and next-state distribution, the projected categorical target is non-negative, sums to one and splits each shifted atom's mass between its two neighbouring support points in proportion to closeness, so its mean equals the clipped shifted mean; atoms outside the support go to the nearest end.",
 ["inputs"], "every support, number of atoms, return value and next distribution",
 "no test computes the projection; it must conserve mass for every value, including exact atom hits",
 ["tianshou/policy/modelfree/c51.py"],
 [("projection", "tianshou/policy/modelfree/c51.py:C51Policy._target_dist"), ("support", "tianshou/policy/modelfree/c51.py:C51Policy.__init__")],
 ["C51Policy._target_dist"])
prop("P25", "Multi-agent dispatch gives each agent its own rows and restores shared data",
 "For every batch in which rows are tagged with agent ids, each agent's policy receives exactly its own rows (in order, with its own reward column), the combined action array holds for each row the action chosen by that row's agent, agents without rows are skipped, and the buffer's shared reward data is the same after processing as before.",
 ["inputs"], "every assignment of rows to agents, including absent agents, and any reward matrix",
 "tests play tic-tac-toe; arbitrary interleavings and absent agents are not enumerated",
 ["tianshou/policy/multiagent/mapolicy.py"],
 [("process_fn", "tianshou/policy/multiagent/mapolicy.py:MultiAgentPolicyManager.process_fn"), ("forward", "tianshou/policy/multiagent/mapolicy.py:MultiAgentPolicyManager.forward"), ("exploration", "tianshou/policy/multiagent/mapolicy.py:MultiAgentPolicyManager.exploration_noise"), ("learn", "tianshou/policy/multiagent/mapolicy.py:MultiAgentPolicyManager.learn")],
 ["MultiAgentPolicyManager.process_fn/forward/learn"])
prop("P26", "Loggers write a metric at most once per interval and never misattribute a step",
 "For every sequence of log calls, training, test, update and info metrics are each written exactly when at least the configured interval has passed since the last written step of that kind, with the values and step of that call, and the intervals of different kinds never influence each other.",
 ["histories", "configurations"], "every sequence of (kind, step) calls and every interval configuration",
 "tests only run loggers along a training; the interval logic is never checked against a sequence of steps",
 ["tianshou/utils/logger/base.py"],
 [("interval gates", "tianshou/utils/logger/base.py:BaseLogger.log_train_data/log_test_data/log_update_data/log_info_data")],
 ["BaseLogger.write calls"])
prop("P27", "An episode's index range covers exactly its transitions, within one sub-buffer",
 "For a start and an exclusive stop position in the same sub-buffer, the index range lists start, start+1, ... up to stop-1, wrapping from the sub-buffer's end to its beginning when the stop lies before the start (and covering the whole sub-buffer when the two coincide), each index once and all inside that sub-buffer; positions in different sub-buffers are rejected. Retrieving the range from an episode's reported start to its last step plus one therefore yields exactly that episode.",
 ["inputs", "histories"], "every sub-buffer layout and every (start, stop) pair",
 "tests try a dozen pairs on one layout; edges of each sub-buffer are the risky points",
 [D+"buffer/base.py", D+"buffer/manager.py"],
 [("range computation", "tianshou/data/buffer/base.py:ReplayBuffer.get_buffer_indices"), ("edge crossing", "tianshou/data/buffer/base.py:ReplayBuffer._get_start_stop_tuples_for_edge_crossing_interval"), ("edges", "tianshou/data/buffer/manager.py:ReplayBufferManager.subbuffer_edges")],
 ["buffer.get_buffer_indices"])
prop("P28", "Clipped policy updates optimise exactly the documented surrogate",
 "In each PPO minibatch the actor loss is minus the mean over samples of min(ratio*A, clip(ratio, 1-eps, 1+eps)*A) - with the dual-clip lower bound c*A applied exactly to negative advantages when enabled -, the value loss is the squared error (or the maximum of clipped and unclipped errors when value clipping is on), and the total loss is actor + vf_coef*value - ent_coef*entropy; advantages are standardised per minibatch when requested. Each learning call visits every sample exactly once per repetition, with old action probabilities fixed before the first gradient step.",
 ["inputs", "configurations"], "every ratio, advantage, value, clip setting and minibatch division",
 "tests check only that training reaches a reward; a wrong sign or clip side in a branch can still learn",
 ["tianshou/policy/modelfree/ppo.py", "tianshou/policy/modelfree/a2c.py", "tianshou/policy/modelfree/pg.py"],
 [("PPO loss", "tianshou/policy/modelfree/ppo.py:PPOPolicy.learn"), ("value targets", "tianshou/policy/modelfree/a2c.py:A2CPolicy._compute_returns"), ("old log-probabilities", "tianshou/policy/modelfree/ppo.py:PPOPolicy.process_fn")],
 ["PPOPolicy.learn statistics and gradients"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
