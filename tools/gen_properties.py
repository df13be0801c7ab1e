"""Writes /verif/properties.jsonl (kept as a script only so the file stays consistently formatted)."""
import json, pathlib
P = []
def add(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
RT, FB, NS, PR = "neps/runtime.py", "neps/state/filebased.py", "neps/state/neps_state.py", "neps/state/protocols.py"
ST, EV, CM = "neps/status/status.py", "neps/state/_eval.py", "neps/utils/common.py"
SH = "neps/optimizers/multi_fidelity/successive_halving.py"
add("C01", "Every sampled configuration is evaluated at most once",
    "However many workers share a run directory, and whenever they start, stall, crash, restart or join late, the user's pipeline is invoked at most once for each trial of the run. In particular two workers never evaluate the same trial, and a trial that has been started is never started again.",
    ["schedules", "crash_points", "fault_sequences"],
    "for every interleaving of any number of workers and every crash/stall/restart point",
    "The tests step two worker objects by hand through a handful of fixed interleavings at the granularity of whole methods; the races are between individual file operations of real workers.",
    [RT, NS, FB, PR],
    [("DefaultWorker.run claims a trial with a version-checked write before evaluating it", RT), ("NePSState.get_next_pending_trial", NS), ("VersionedResource.put version check", PR)],
    ["calls of run_pipeline", "pipeline_directory argument"])
add("C02", "A recorded result is exactly what the pipeline returned, and stays so",
    "Once a worker has moved past an evaluation, the run directory holds for that trial exactly the configuration the pipeline was called with and the loss, cost, learning curve and extra values it returned (or the error it raised with the configured substitute values). That record survives every later crash, restart and concurrent activity unchanged, and an observer never sees a finished trial's result change or disappear.",
    ["schedules", "crash_points", "fault_sequences", "inputs"],
    "for every pipeline return value of the supported forms, every interleaving, crash point and torn write",
    "Tests round-trip single objects with no concurrency and no interrupted writes; durability is a statement over all crash points.",
    [FB, NS, PR, EV, "neps/state/trial.py", "neps/utils/files.py"],
    [("ReaderWriterTrial.write", FB), ("NePSState.report_trial_evaluation", NS), ("parse_user_result / Trial.set_complete", EV), ("serialize/deserialize", "neps/utils/files.py")],
    ["reports read back through the state loader and neps.status"])
add("C03", "The evaluation budget is respected by all workers together",
    "No worker starts an evaluation if, when it last looked, the total evaluation budget had been reached by itself and all others (counting evaluations in progress unless told to count only completed ones), so W parallel workers overshoot by at most W-1 and a single worker never does; a per-call limit is never exceeded. When every worker returns normally the budget has been reached, and calling run again on the directory evaluates nothing more.",
    ["schedules", "configurations", "histories"],
    "for every number of workers, every budget combination, every interleaving and any sequence of stops and restarts",
    "Tests run one process at a time, so the total budget is only ever checked against a quiescent directory.",
    [RT, "neps/api.py", "neps/state/settings.py"],
    [("DefaultWorker._check_if_should_stop", RT), ("_launch_runtime settings mapping", RT)],
    ["calls of run_pipeline", "neps.run returning"])
add("C04", "Cost accounting loses nothing and the cost budget stops the run",
    "The shared record of spent cost equals the sum of the costs of all recorded results whenever no worker is between the two updates, no matter how workers interleave; a worker that dies in between leaves it short by at most its own last cost. No evaluation is started by a worker once the recorded costs it could see reach the total cost budget, and workers stop only when it is reached.",
    ["schedules", "crash_points", "configurations"],
    "for every interleaving of reporting workers, every crash point and every cost sequence",
    "No test reports costs from two workers concurrently, and a lost update only shows under a specific overlap of read-modify-write sections.",
    [NS, RT, "neps/state/optimizer.py"],
    [("NePSState.report_trial_evaluation budget update under the optimizer-state lock", NS), ("NePSState.sample_trial writes the same record", NS), ("max_cost_total check", RT)],
    ["budget in the shared optimizer state", "calls of run_pipeline"])
add("C05", "A killed worker never takes the run down with it",
    "If any worker process is killed at any instant - also in the middle of creating the directory, sampling, or writing a file - the surviving workers carry on, status can be read, and a restarted or new worker can join and complete the remaining budget. No crash leaves behind state that makes other workers or later runs fail or hang.",
    ["crash_points", "schedules", "fault_sequences"],
    "for every kill point (including torn, buffered-and-lost and partially flushed writes) of any subset of workers",
    "Tests never kill a process; crash consistency quantifies over every instruction boundary of the persistence code.",
    [FB, PR, NS, RT, "neps/utils/files.py"],
    [("write ordering and atomic replacement of files", FB), ("version marker decides whether a resource exists", PR), ("OS file locks are released when the holder dies", FB)],
    ["neps.run return/raise of surviving and new workers", "neps.status"])
add("C06", "Any number of workers can start on a fresh directory at the same time",
    "Workers started simultaneously (or staggered arbitrarily) with the same arguments on a directory that does not exist yet all join one and the same run: none of them fails, exactly one initial random state and one optimizer description is established, and together they satisfy the budget.",
    ["schedules", "configurations"],
    "for every number of workers and every interleaving of their start-up",
    "Start-up races exist only between processes; the tests create the directory before any second worker appears.",
    [FB, RT, PR],
    [("create_or_load_filebased_neps_state", FB), ("Synced.new_or_load", PR)],
    ["neps.run outcomes", "configurations sampled"])
add("C07", "A run directory belongs to one optimizer; mismatches are refused cleanly",
    "A worker whose optimizer description differs from the one that established the run directory is refused with an error before it evaluates or samples anything, and leaves the run's trials, results and description as they were, even when it races with the establishing worker; a matching worker is never refused. With the overwrite option the new run starts from an empty directory, and nothing of the old run survives in it.",
    ["schedules", "configurations", "crash_points"],
    "for every pair of optimizer settings and every relative timing of the workers, including a crash while establishing or overwriting",
    "The tests check the mismatch on a fully created directory only; the comparison against a directory under construction is a race.",
    [FB, RT, "neps/api.py"],
    [("optimizer info comparison in create_or_load_filebased_neps_state", FB), ("overwrite_optimization_dir in _launch_runtime", RT)],
    ["neps.run raising", "directory contents"])
add("C08", "Sampling is a function of the seed, not of scheduling or restarts",
    "The sequence of configurations random search samples for a run directory is determined by the random state captured when the run was established: it is the same whether one worker or many do the sampling, across stops and restarts, and regardless of what the user's pipeline does to the global random generators. A crash may skip a draw but no random draw is ever used twice.",
    ["schedules", "crash_points", "histories", "configurations"],
    "for every worker count, interleaving, restart history and crash point",
    "Reproducibility across workers requires comparing whole multi-worker executions with a reference execution; tests compare two single-worker runs at most.",
    [NS, "neps/state/seed_snapshot.py", FB],
    [("sample_trial sets, recaptures and stores the global RNG state under the seed lock", NS), ("ReaderWriterSeedSnapshot", FB)],
    ["configurations passed to run_pipeline, in sampling order"])
add("C09", "Errors stop or spare the run exactly as configured",
    "With the default policy an exception in any worker's pipeline makes that worker's run call raise it as the cause, and once it is recorded no other worker - current or joining later - starts another evaluation and each of them raises. With errors ignored, no exception escapes, the failed trial counts as evaluated with the substitute values, and every other configuration still gets its turn; in both cases the error log holds each recorded failure exactly once with its trial, worker, type and message.",
    ["schedules", "configurations", "histories"],
    "for every assignment of failures to trials, every policy and every interleaving",
    "The cross-worker part (error seen by others, log appended concurrently) only exists with several workers in flight.",
    [RT, NS, EV, "neps/state/err_dump.py"],
    [("on_error handling in _check_if_should_stop", RT), ("shared error dump appended under its lock", NS), ("_eval_trial", EV)],
    ["neps.run raising", "error log", "crashed trials"])
add("C10", "Trials only move forward and their metadata tells the truth",
    "Seen by any observer at any time, a trial goes from pending to evaluating to one final state and never back, and its configuration, sampling data and predecessor never change after it appears. Its recorded worker is the one that ran it, its timestamps are ordered sampled <= started <= ended when clocks agree, and its recorded duration is the time the pipeline took even if the wall clock jumps.",
    ["schedules", "fault_sequences", "histories"],
    "for every interleaving of workers and observers, and every clock skew or jump",
    "Monotonicity is a statement about all pairs of observations of a live run; tests look at final states.",
    ["neps/state/trial.py", EV, RT, FB],
    [("Trial.set_evaluating / set_complete", "neps/state/trial.py"), ("monotonic clock for durations", EV)],
    ["trials loaded by a concurrent observer"])
add("C11", "Shared records are linearizable and stale writes are rejected",
    "Reads and locked updates of any shared record of a run (optimizer state, random state, error list, trial) by any number of processes behave as if executed one at a time on a single copy: no read is torn, stale or mixed from two versions, and no update is lost. A write based on an outdated version is rejected with an error and has no effect.",
    ["schedules", "histories", "crash_points"],
    "for every concurrent history of reads, locked updates and unlocked writes",
    "Linearizability quantifies over concurrent histories; the tests exercise the primitive sequentially from two handles.",
    [PR, FB],
    [("Synced.acquire/synced/put", PR), ("VersionedResource.sync/put", PR), ("FileVersioner", FB)],
    ["values returned by the shared-record API"])
add("C12", "File locks exclude, expire as configured and never outlive their holder",
    "At most one process is inside a section guarded by a given lock; the lock is free again as soon as its holder leaves by return, exception or death. A process that waits acquires the lock if it is released before the configured timeout, and otherwise fails with the documented error no earlier than the timeout and soon after it - no process waits forever.",
    ["schedules", "crash_points", "configurations"],
    "for every pattern of holding times, crashes and waiters, and every poll and timeout setting",
    "Timeouts of minutes and lock-holder death at arbitrary points cannot be sampled in real-time unit tests.",
    [FB, "neps/utils/_locker.py", "neps/env.py"],
    [("FileLocker.lock", FB), ("is_locked", FB), ("poll/timeout settings", "neps/env.py")],
    ["lock acquisition times", "LockException"])
add("C13", "Work left pending by a dead worker is picked up, oldest first",
    "A trial that was sampled but not yet started when its worker died or stopped is evaluated by the remaining or later workers before any new configuration is sampled, in the order the trials were sampled. No sampled trial is skipped or lost while budget remains.",
    ["crash_points", "schedules", "histories"],
    "for every set of trials left pending by crashes at every point, and every interleaving of the workers that find them",
    "Pending leftovers only arise from a crash in a narrow window, which tests do not produce through real workers.",
    [NS, FB, RT],
    [("TrialRepoInDirectory.pending ordering", FB), ("DefaultWorker._get_next_trial_from_state", RT)],
    ["order of run_pipeline calls"])
add("C14", "Status is correct and harmless at any moment of a live run",
    "Asking for the status of a run while workers are active (or after some were killed) never fails, never disturbs the workers, and reports numbers true of the run at some moment during the query: evaluated, running, pending and failed counts each match the trials, and the reported best configuration is the one with the lowest loss among the reported results.",
    ["schedules", "histories", "crash_points"],
    "for every point of a multi-worker execution at which status is requested",
    "Tests query status after a single worker has finished; in-progress and pending counts are never compared with a live run.",
    [ST, FB, NS],
    [("get_summary_dict", ST), ("status", ST)],
    ["neps.status return value", "get_summary_dict"])
add("C15", "The CSV summary left behind describes the finished run",
    "When all workers of a run have returned, the CSV summary contains exactly one row per trial with the recorded configuration and result, and its counts and best loss equal the final status, whichever worker finished last and however their final steps interleaved. Producing it succeeds also when some evaluations failed.",
    ["schedules", "configurations"],
    "for every interleaving of the workers' final phases and every mix of failed and successful trials",
    "Needs several workers finishing around the same time; tests produce the summary from a single process.",
    [ST],
    [("post_run_csv / _save_data_to_csv under the csv lock", ST)],
    ["summary_csv/config_data.csv", "summary_csv/run_status.csv"])
add("C16", "Multi-fidelity promotions are legitimate under asynchrony",
    "In every parallel, interrupted or restarted multi-fidelity run, each promoted trial continues exactly one trial at the next lower fidelity level that had already finished successfully when the promotion was sampled, with identical hyperparameters and a strictly higher fidelity. No configuration is promoted to the same level twice, and for asynchronous successive halving a promoted configuration is among the best 1/eta results known at its level at that moment.",
    ["schedules", "histories", "crash_points"],
    "for every completion order, worker count, failure pattern and crash point",
    "Promotion depends on which results have arrived, i.e. on scheduling; tests drive the optimizers sequentially.",
    [SH, "neps/optimizers/multi_fidelity/hyperband.py", "neps/optimizers/multi_fidelity/promotion_policy.py", NS],
    [("promotion policies", "neps/optimizers/multi_fidelity/promotion_policy.py"), ("pending trials fed to the optimizer", SH)],
    ["trial ids, configs and previous-trial links"])
add("C17", "Continuations receive their predecessor's directory and checkpoint",
    "While a promoted trial is evaluated, the previous directory handed to the pipeline is the directory of the trial it continues, loading a checkpoint yields what that trial saved, and the initial directory is that of the first trial of the chain - in any worker, after any restart, and when one process runs several searches one after the other. Each trial has its own existing directory and files the pipeline stored there stay intact.",
    ["schedules", "histories", "crash_points"],
    "for every assignment of the links of a promotion chain to workers, processes and restarts",
    "The hand-over crosses processes and depends on process-global state; tests run a chain in one process in one search.",
    [CM, EV, NS, RT],
    [("previous_trial_location in metadata", NS), ("load_checkpoint/save_checkpoint/get_initial_directory", CM), ("in-progress trial global", RT)],
    ["arguments of run_pipeline", "load_checkpoint, get_initial_directory"])
add("C18", "Disk errors are contained",
    "If file operations of one worker fail (disk full, I/O error, too many open files, short writes), that worker may report an error, but the other workers keep going, no recorded result is lost or altered, no trial is evaluated twice, and once the disk works again new workers can complete the run.",
    ["fault_sequences", "schedules"],
    "for every failing file operation of a worker, at every point of its execution",
    "Requires injecting failures into each individual system call of the persistence layer.",
    [FB, PR, "neps/utils/files.py", RT],
    [("write ordering and atomic replacement", FB), ("retry/bail-out logic around claiming a trial", RT)],
    ["neps.run outcomes", "state read back"])
add("C19", "A process can run another search after one that failed",
    "However a run call ends - normally, by a pipeline error, by an unusable return value, or by the user interrupting it - a subsequent run call in the same process on the same or another directory behaves as it would in a fresh process. In particular the helpers that refer to the current trial never see a trial of the earlier call.",
    ["histories", "fault_sequences"],
    "for every sequence of run calls with arbitrary endings in one process, interrupted at arbitrary points",
    "Interrupts at arbitrary points and cross-call process state are not sampled; tests use one call per process state.",
    [RT, CM],
    [("_set_global_trial / module globals", RT), ("initial directory cache", CM)],
    ["outcome of the later neps.run calls", "get_in_progress_trial"])
add("C20", "Trials are conserved: valid, unique, contiguous and evaluated as recorded",
    "In every execution the trials of a run have pairwise distinct ids, every configuration lies in the declared search space, the pipeline is called with exactly the recorded configuration, every pipeline call corresponds to a recorded trial, and apart from trials of killed workers none is left unfinished when all workers return. Grid search visits every grid point exactly once however many workers share the grid.",
    ["schedules", "crash_points", "configurations"],
    "for every searcher, worker count, interleaving and crash point",
    "Id allocation by counting existing trials is only safe under the locking discipline across processes, which tests do not interleave.",
    [NS, FB, "neps/optimizers/random_search/optimizer.py", "neps/optimizers/grid_search/optimizer.py", SH],
    [("sampling under the optimizer-state lock", NS), ("put_new refuses existing ids", FB)],
    ["calls of run_pipeline", "trials read back"])
add("C21", "Time limits follow elapsed time, not the wall clock",
    "A worker with a wall-clock limit starts no evaluation once that much time has elapsed since it began, and a limit on evaluation time (own or summed over all workers) starts none once the recorded durations reach it; workers stop because of a limit only when it was reached. Steps of the system clock in either direction neither trigger nor defer these limits, nor make any worker fail.",
    ["schedules", "fault_sequences", "configurations"],
    "for every evaluation-duration pattern, worker count and clock jump sequence",
    "Tests would need to wait in real time and cannot step the clock.",
    [RT, EV, "neps/state/settings.py"],
    [("time.monotonic in _check_if_should_stop and _eval_trial", RT)],
    ["calls of run_pipeline and their times"])
add("C22", "Optimizers keep proposing under any mix of failed, running and lost trials",
    "Whatever combination of successful, failed, running and abandoned trials a parallel run has accumulated, each of the shipped searchers that support the space proposes a next configuration for a worker with budget left (with errors ignored), so the run reaches its budget and no worker dies or hangs because of another trial's state.",
    ["histories", "schedules", "crash_points"],
    "for every searcher and every reachable mix of trial states",
    "Which mixes arise depends on scheduling and crashes; tests feed optimizers clean sequential histories.",
    ["neps/optimizers", NS, RT],
    [("BaseOptimizer.ask implementations", "neps/optimizers"), ("get_loss error substitution", "neps/optimizers/base_optimizer.py")],
    ["neps.run outcomes"])
add("C23", "Interrupted and resumed searches continue as if never stopped",
    "For the random, grid and successive-halving/hyperband family of searchers, a search carried out by a succession of single workers that each stop at their own evaluation limit samples the same trials, in the same order with the same results, as one uninterrupted worker would, for a deterministic pipeline. Hence stopping and resuming loses no progress and changes no decision.",
    ["histories", "configurations"],
    "for every way of cutting a search into successive run calls in new or reused processes",
    "Compares whole executions over all cut points; tests resume once at most and do not compare traces.",
    [NS, RT, SH, "neps/optimizers/multi_fidelity/hyperband.py", FB],
    [("all optimizer state is rebuilt from trials and the stored random state", NS)],
    ["sequence of run_pipeline calls"])
add("C26", "The command line tells the truth about a live search",
    "While workers run, crash or have stopped, the commands neps status (with any of its filters), results, errors and info-config, and the listings of neps.status, never fail and never disturb the workers, for any mix of pending, running, succeeded, failed and abandoned trials. The counts, states, losses, configurations, incumbents and errors they print are those of trials recorded at some moment while the command ran, and failed trials are never listed as results or incumbents.",
    ["schedules", "crash_points", "histories"],
    "for every mix of trial states, every moment of the query and every interleaving with the workers",
    "Tests of the commands run on hand-made finished directories only; they never meet unfinished, failed or concurrently changing trials.",
    ["neps/utils/cli.py", ST, NS],
    [("status, results, errors, info_config", "neps/utils/cli.py"), ("status and listings", ST)],
    ["output and exit of the neps commands", "neps.status"])
add("C27", "TensorBoard logging and trial-end callbacks follow the trial they belong to",
    "A value logged through tblogger during an evaluation ends up exactly once in the event files of the first directory of that configuration's chain of trials, and an incumbent logged on request goes to the summary of its own search with a value that was the best at that moment. Registered trial-end callbacks are called exactly once per evaluation that ended, with that evaluation's trial. This holds in any worker, after failures and interrupts, and when one process runs several searches one after the other.",
    ["schedules", "histories", "fault_sequences"],
    "for every assignment of trials to workers and every sequence of searches, failures and interrupts in one process",
    "The logger keeps process-global state across trials and searches; tests log from one search per process and never read the files back.",
    ["neps/plot/tensorboard_eval.py", RT, CM],
    [("tblogger class state (_initiate_internal_configurations, _is_initialized, end_of_config)", "neps/plot/tensorboard_eval.py"), ("_TRIAL_END_CALLBACKS", RT)],
    ["tensorboard event files", "calls of the callbacks"])
add("C28", "Searches in different directories, tasks and development stages do not interfere",
    "Searches with different root directories - including different task ids, different development stages of one task, and directories nested in one another - have their own trials, budget, random sequence, errors and summaries, whether run by the same process or by concurrent ones. A failure, crash, overwrite or later call of one never changes the records or the outcome of another.",
    ["schedules", "crash_points", "histories", "configurations"],
    "for every combination of searches sharing a process or a directory tree, and every interleaving and failure among them",
    "Tests run one search at a time in a fresh directory; interference needs several searches sharing process-global state or a directory tree.",
    [RT, NS, "neps/api.py", FB, CM],
    [("root_directory / task / development_stage_id assembly", "neps/api.py"), ("_set_workers_neps_state and module globals", RT)],
    ["trials read back per root directory", "neps.run outcomes"])
add("C24", "Search-space encodings, domains and samplers are mathematically consistent",
    "Casting between parameter domains, encoding and decoding configurations, prior densities and parsing of search-space descriptions are mutually consistent (round trips are identities, samples lie in bounds, densities normalise).",
    ["inputs"], "for every parameter definition and value",
    "Input space is unbounded.",
    ["neps/search_spaces", "neps/sampling"],
    [("Domain.cast, ConfigEncoder", "neps/search_spaces")], ["public search-space API"])
add("C25", "Bayesian-optimisation surrogates and acquisition values are correct",
    "Given the same observations, surrogate posteriors and acquisition values equal their mathematical definitions.",
    ["inputs"], "for every observation set", "Numerical input space is unbounded.",
    ["neps/optimizers/bayesian_optimization"], [("models, acquisition functions", "neps/optimizers/bayesian_optimization")], ["acquisition values"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
