import json,os,subprocess
m={"bulk transfer into a replay buffer accepts":("P03","buffer.update(other) raised ValueError, after having advanced its length, when other holds a field (e.g. a late info key) this buffer has not seen; add allocates such fields"),
"segment tree":("P01","assigning with an empty index array (tree[np.array([], int)] = np.array([])) never returned: the numba loop read index[0] of an empty array"),
"episode start":("P04","after buffer.update(other) the next add reported a stale episode start index"),
"newest index":("P05","ReplayBuffer.from_data left last_index at 0, so unfinished_index/prev/next answered for the wrong newest transition"),
"resetting a prior":("P09","PrioritizedReplayBuffer.reset kept the priorities of the discarded transitions, so they could still be sampled (IndexError or stale rows)"),
"set_beta":("P09","PrioritizedVectorReplayBuffer.set_beta changed only the sub-buffers, sampled weights kept the old beta"),
"never filled":("P05","unfinished_index of a buffer (or a manager with a buffer) that was never filled raised AttributeError"),
"importance weights":("P09","get_weight divided alpha-exponentiated priorities by an un-exponentiated smallest priority"),
"honours weight_norm":("P09","PrioritizedVectorReplayBuffer(weight_norm=False) still normalised the weights"),
"hindsight":("P10","with ignore_obs_next the recomputed reward used the old desired goal instead of the new one"),
"loaded or unpickled":("P11","after load_hdf5/unpickling, a manager's sub-buffers no longer shared its storage: adds were lost for sample/prev/next"),
"updating flag":("P16","policy.updating stayed True when an update raised"),
"MovAvg":("P19","MovAvg.add kept NaN values that are not the np.nan object (e.g. float('nan'), array elements), turning the average into NaN"),
"Batch addition":("P18","Batch(a,b) += Batch(b,a) added field values pairwise by key order, so a got b's values"),
"REDQ":("P15","REDQPolicy.learn with automatic entropy tuning raised AttributeError in its first actor update (self._target_entropy), before synchronising the targets"),
"masked actions":("P23","compute_q_value shifted masked values by a float32 offset: for logits [1e8, -1e8] and mask [0, 1] the masked action 0 was chosen"),
"asynchronous DummyVectorEnv":("P20","an asynchronous DummyVectorEnv.step iterated over the list it was popping from, so it returned only every other ready environment"),
"EpisodeRolloutHookMerged":("P21","EpisodeRolloutHookMerged raised KeyError for every hook that returned something (difference instead of intersection) and never for overlapping keys"),
"torch hidden":("P21","a torch-tensor hidden state was not cleared for environments whose episode had ended (zero_() acted on a copy)"),
"AsyncCollector waits":("P21","AsyncCollector.reset_env waited for one environment only, then failed with AssertionError when others were still stepping"),
"stateless policies":("P21","AsyncCollector raised for policies without policy entry/hidden state, rejected vector actions and stored integer actions as floats"),
"without obs_next":("P25","MultiAgentPolicyManager.forward raised AttributeError for batches without obs_next (every collection step) when observations have no mask, e.g. continuous actions"),
"fills its subbuffer":("P27","an episode exactly as long as its sub-buffer that does not begin at its left edge made get_buffer_indices, and so Collector.collect, raise ValueError"),
"reward metric":("P22","tests during training ignored the trainer's reward_metric"),
"ends training early":("P22","a test during training that ends it overwrote best_score/best_reward without best_epoch and without running save_best_fn, also when it was not an improvement"),
}
lines=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines()
out=[];miss=[]
for l in lines:
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    for k,(p,w) in m.items():
        if k in s: out.append(f"fixed: property={p} {h} {w}"); break
    else: miss.append(l)
d=json.load(open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+"/known-findings.json")); d["fixed"]=out
json.dump(d,open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+"/known-findings.json","w"),indent=1)
print(*out,"MISS",*miss,sep="\n")
