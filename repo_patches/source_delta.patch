From 60f4db1fbb6e83fd0a4888ec88da83252ce99d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:13 +0000
Subject: [PATCH 01/28] fix: worker died with UnboundLocalError when losing the
 race for its first trial

---
 neps/runtime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/runtime.py b/neps/runtime.py
index 71b72f8..0a09586 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -379,6 +379,7 @@ class DefaultWorker(Generic[Loc]):
         _error_from_evaluation: Exception | None = None
 
         _repeated_fail_get_next_trial_count = 0
+        n_failed_set_trial_state = 0
         while True:
             # NOTE: We rely on this function to do logging and raising errors if it should
             should_stop = self._check_if_should_stop(
-- 
2.43.0


From a3bc6f965b5dcabe0b49775a4501ae14a333c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:13 +0000
Subject: [PATCH 02/28] fix: a trial claimed by another worker could be handed
 out as pending and evaluated twice

---
 neps/state/neps_state.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/state/neps_state.py b/neps/state/neps_state.py
index 1ed3f67..5d6c9ed 100644
--- a/neps/state/neps_state.py
+++ b/neps/state/neps_state.py
@@ -207,8 +207,11 @@ class NePSState(Generic[Loc]):
         Returns:
             The next trial or a list of trials if `n` is not `None`.
         """
+        # NOTE: Another worker may have picked up the trial since it was listed as pending
         _pending_itr = (
-            shared_trial.synced() for _, shared_trial in self._trials.pending()
+            trial
+            for _, shared_trial in self._trials.pending()
+            if (trial := shared_trial.synced()).state == Trial.State.PENDING
         )
         if n is not None:
             return take(n, _pending_itr)
-- 
2.43.0


From 2a589b20b2e2b154ffedb6a495c8c4464512489e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:13 +0000
Subject: [PATCH 03/28] fix: clear the trial in progress when its evaluation is
 interrupted or its result rejected

---
 neps/runtime.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neps/runtime.py b/neps/runtime.py
index 0a09586..8ceed41 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -110,10 +110,12 @@ def _set_global_trial(trial: Trial) -> Iterator[None]:
             "\n\nThis is most likely a bug and should be reported to NePS!"
         )
     _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = trial
-    yield
-    for _key, callback in _TRIAL_END_CALLBACKS.items():
-        callback(trial)
-    _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
+    try:
+        yield
+        for _key, callback in _TRIAL_END_CALLBACKS.items():
+            callback(trial)
+    finally:
+        _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
 
 
 # NOTE: This class is quite stateful and has been split up quite a bit to make testing
-- 
2.43.0


From df28ebfa15f84c5ea91cfdf5e22df1f0f4498bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:13 +0000
Subject: [PATCH 04/28] fix: status never counted pending or running
 configurations

---
 neps/status/status.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index 660c53f..e4e0175 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -58,12 +58,12 @@ def get_summary_dict(
     in_progress = {
         trial.id: trial.config
         for trial in trials.values()
-        if trial.State == Trial.State.EVALUATING
+        if trial.state == Trial.State.EVALUATING
     }
     pending = {
         trial.id: trial.config
         for trial in trials.values()
-        if trial.State == Trial.State.PENDING
+        if trial.state == Trial.State.PENDING
     }
 
     summary: dict[str, Any] = {}
-- 
2.43.0


From 9dbe13c45438a5aeb322d3d58705ff42900e27b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:02 +0000
Subject: [PATCH 05/28] fix: a worker killed (or a disk error) during a write
 left torn, unreadable state files

---
 neps/state/filebased.py | 25 ++++++++++++++++---------
 neps/utils/files.py     | 25 +++++++++++++++++++++----
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index cf53c62..779b6a3 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -52,7 +52,7 @@ from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
 from neps.state.protocols import Locker, ReaderWriter, Synced, TrialRepo, Versioner
 from neps.state.seed_snapshot import SeedSnapshot
 from neps.state.trial import Trial
-from neps.utils.files import deserialize, serialize
+from neps.utils.files import atomic_open, deserialize, serialize
 
 logger = logging.getLogger(__name__)
 K = TypeVar("K")
@@ -79,7 +79,8 @@ class FileVersioner(Versioner):
     @override
     def bump(self) -> str:
         sha = make_sha()
-        self.version_file.write_text(sha)
+        with atomic_open(self.version_file, "w") as f:
+            f.write(sha)
         return sha
 
 
@@ -246,11 +247,13 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
 
         serialize(trial.config, config_path)
         serialize(asdict(trial.metadata), metadata_path)
-        state_path.write_text(trial.state.value, encoding="utf-8")
+        with atomic_open(state_path, "w", encoding="utf-8") as f:
+            f.write(trial.state.value)
 
         if trial.metadata.previous_trial_id is not None:
             previous_trial_path = directory / cls.PREVIOUS_TRIAL_ID_FILENAME
-            previous_trial_path.write_text(trial.metadata.previous_trial_id)
+            with atomic_open(previous_trial_path, "w") as f:
+                f.write(trial.metadata.previous_trial_id)
 
         if trial.report is not None:
             report_path = directory / cls.REPORT_FILENAME
@@ -329,7 +332,8 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
 
         py_rng_version, py_rng_state, py_guass_next = snapshot.py_rng
 
-        np.array(py_rng_state, dtype=cls.PY_RNG_STATE_DTYPE).tofile(py_rng_path)
+        with atomic_open(py_rng_path, "wb") as f:
+            f.write(np.array(py_rng_state, dtype=cls.PY_RNG_STATE_DTYPE).tobytes())
 
         seed_info = {
             "np_rng_kind": snapshot.np_rng[0],
@@ -341,17 +345,20 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
         }
         serialize(seed_info, seedinfo_path)
         np_rng_state = snapshot.np_rng[1]
-        np_rng_state.tofile(np_rng_path)
+        with atomic_open(np_rng_path, "wb") as f:
+            f.write(np_rng_state.tobytes())
 
         if snapshot.torch_rng is not None:
             import torch
 
-            torch.save(snapshot.torch_rng, torch_rng_path)
+            with atomic_open(torch_rng_path, "wb") as f:
+                torch.save(snapshot.torch_rng, f)
 
         if snapshot.torch_cuda_rng is not None:
             import torch
 
-            torch.save(snapshot.torch_cuda_rng, torch_cuda_rng_path)
+            with atomic_open(torch_cuda_rng_path, "wb") as f:
+                torch.save(snapshot.torch_cuda_rng, f)
 
 
 @dataclass
@@ -419,7 +426,7 @@ class ReaderWriterErrDump(ReaderWriter[ErrDump, Path]):
     @override
     def write(self, err_dump: ErrDump, directory: Path) -> None:
         errors_path = directory / f"{self.name}-errors.jsonl"
-        with errors_path.open("w") as f:
+        with atomic_open(errors_path, "w") as f:
             lines = [json.dumps(asdict(trial_err)) for trial_err in err_dump.errs]
             f.write("\n".join(lines))
 
diff --git a/neps/utils/files.py b/neps/utils/files.py
index 95eb4ee..7c6ee0c 100644
--- a/neps/utils/files.py
+++ b/neps/utils/files.py
@@ -3,10 +3,12 @@
 from __future__ import annotations
 
 import dataclasses
-from collections.abc import Iterable, Mapping
+import os
+from collections.abc import Iterable, Iterator, Mapping
+from contextlib import contextmanager
 from enum import Enum
 from pathlib import Path
-from typing import Any
+from typing import IO, Any
 
 import yaml
 
@@ -41,11 +43,26 @@ def serializable_format(data: Any) -> Any:  # noqa: PLR0911
     return data
 
 
+@contextmanager
+def atomic_open(path: Path | str, mode: str = "w", **kwargs: Any) -> Iterator[IO]:
+    """Open a file for writing such that `path` is only replaced, in one step, once
+    everything was written. If anything goes wrong, `path` is left as it was.
+    """
+    path = Path(path)
+    tmp_path = path.with_name(f".{path.name}.tmp")
+    try:
+        with tmp_path.open(mode, **kwargs) as file_stream:
+            yield file_stream
+        os.replace(tmp_path, path)  # noqa: PTH105
+    except BaseException:
+        tmp_path.unlink(missing_ok=True)
+        raise
+
+
 def serialize(data: Any, path: Path | str, *, sort_keys: bool = True) -> None:
     """Serialize data to a yaml file."""
     data = serializable_format(data)
-    path = Path(path)
-    with path.open("w") as file_stream:
+    with atomic_open(path, "w") as file_stream:
         try:
             return yaml.safe_dump(data, file_stream, sort_keys=sort_keys)
         except yaml.representer.RepresenterError as e:
-- 
2.43.0


From 4d5472b4ca96d320975805474c33897ffac4b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:02 +0000
Subject: [PATCH 06/28] fix: a worker killed while reporting could leave a
 trial marked as finished without its result

---
 neps/state/filebased.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 779b6a3..78a3add 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -247,9 +247,6 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
 
         serialize(trial.config, config_path)
         serialize(asdict(trial.metadata), metadata_path)
-        with atomic_open(state_path, "w", encoding="utf-8") as f:
-            f.write(trial.state.value)
-
         if trial.metadata.previous_trial_id is not None:
             previous_trial_path = directory / cls.PREVIOUS_TRIAL_ID_FILENAME
             with atomic_open(previous_trial_path, "w") as f:
@@ -259,6 +256,10 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
             report_path = directory / cls.REPORT_FILENAME
             serialize(asdict(trial.report), report_path)
 
+        # NOTE: The state goes last, a trial is never marked as complete without its report
+        with atomic_open(state_path, "w", encoding="utf-8") as f:
+            f.write(trial.state.value)
+
 
 @dataclass
 class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
-- 
2.43.0


From 06e46f2636299643f34d6deb6da449fa3f8588e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:02 +0000
Subject: [PATCH 07/28] fix: half created trials and resources were visible to
 other workers and blocked them for good

---
 neps/state/filebased.py | 6 ++++--
 neps/state/protocols.py | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 78a3add..5207f72 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -97,7 +97,9 @@ class TrialRepoInDirectory(TrialRepo[Path]):
         return {
             config_path.name.replace("config_", "")
             for config_path in self.directory.iterdir()
-            if config_path.name.startswith("config_") and config_path.is_dir()
+            # NOTE: A trial whose creation is not complete has no version yet
+            if config_path.name.startswith("config_")
+            and (config_path / ".version").exists()
         }
 
     @override
@@ -169,7 +171,7 @@ class TrialRepoInDirectory(TrialRepo[Path]):
                 repository.
         """
         config_path = self.directory.absolute().resolve() / f"config_{trial.metadata.id}"
-        if config_path.exists():
+        if (config_path / ".version").exists():
             raise TrialRepo.TrialAlreadyExistsError(
                 f"Trial '{trial.metadata.id}' already exists as '{config_path}'."
             )
diff --git a/neps/state/protocols.py b/neps/state/protocols.py
index 51bff7d..67e7aa0 100644
--- a/neps/state/protocols.py
+++ b/neps/state/protocols.py
@@ -198,8 +198,9 @@ class VersionedResource(Generic[T, K]):
                 f" with version '{current_version}'"
             )
 
-        version = versioner.bump()
+        # NOTE: A resource exists once it has a version, so write the data before that
         reader_writer.write(data, location)
+        version = versioner.bump()
         return VersionedResource(
             _current=data,
             _location=location,
@@ -287,9 +288,12 @@ class VersionedResource(Generic[T, K]):
                 " utilized when getting this resource before putting it back."
             )
 
+        # NOTE: Bump the version first, so that if we get interrupted while writing, others
+        # will not consider the data they have cached to be up to date
+        version = self._versioner.bump()
         self._reader_writer.write(data, self._location)
         self._current = data
-        self._version = self._versioner.bump()
+        self._version = version
 
     def current(self) -> T:
         """Get the current data of the resource."""
-- 
2.43.0


From eeced059da75bc2e06deab63eae2f242c04be6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:25 +0000
Subject: [PATCH 08/28] fix: workers starting at the same time (or after a
 crash at start-up) failed on the missing optimizer info

---
 neps/state/filebased.py | 56 ++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 5207f72..3a060cf 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -578,13 +578,12 @@ def create_or_load_filebased_neps_state(
     """Create a new NePSState in a directory or load the existing one
     if it already exists.
 
-    !!! warning
+    !!! note
 
         We check that the optimizer info in the NePSState on disk matches
-        the one that is passed. However we do not lock this check so it
-        is possible that if two processes try to create a NePSState at the
-        same time, both with different optimizer infos, that one will fail
-        to create the NePSState. This is a limitation of the current design.
+        the one that is passed. If two processes try to create a NePSState at the
+        same time, both with different optimizer infos, the one that comes second
+        will fail.
 
         In principal, we could allow multiple optimizers to be run and share
         the same set of trials.
@@ -600,7 +599,6 @@ def create_or_load_filebased_neps_state(
     Raises:
         NePSError: If the optimizer info on disk does not match the one provided.
     """
-    is_new = not directory.exists()
     directory.mkdir(parents=True, exist_ok=True)
     config_dir = directory / "configs"
     config_dir.mkdir(parents=True, exist_ok=True)
@@ -616,35 +614,31 @@ def create_or_load_filebased_neps_state(
     # We have to do one bit of sanity checking to ensure that the optimzier
     # info on disk manages the one we have recieved, otherwise we are unsure which
     # optimizer is being used.
-    # NOTE: We assume that we do not have to worry about a race condition
-    # here where we have two different NePSState objects with two different optimizer
-    # infos trying to be created at the same time. This avoids the need to lock to
-    # check the optimizer info. If this assumption changes, then we would have
-    # to first lock before we do this check
-    optimizer_info_reader_writer = ReaderWriterOptimizerInfo()
-    if not is_new:
-        existing_info = optimizer_info_reader_writer.read(optimizer_info_dir)
-        if existing_info != optimizer_info:
-            raise NePSError(
-                "The optimizer info on disk does not match the one provided."
-                f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
-                f"\n\nLoaded the one on disk from {optimizer_info_dir}."
-            )
+    # NOTE: Other workers may be creating the very same state right now, whoever gets
+    # the lock on the optimizer info first decides on it.
+    shared_optimizer_info = Synced.new_or_load(
+        data=optimizer_info,
+        location=optimizer_info_dir,
+        versioner=FileVersioner(version_file=optimizer_info_dir / ".version"),
+        locker=FileLocker(
+            lock_path=optimizer_info_dir / ".lock",
+            poll=OPTIMIZER_INFO_FILELOCK_POLL,
+            timeout=OPTIMIZER_INFO_FILELOCK_TIMEOUT,
+        ),
+        reader_writer=ReaderWriterOptimizerInfo(),
+    )
+    existing_info = shared_optimizer_info.synced()
+    if existing_info != optimizer_info:
+        raise NePSError(
+            "The optimizer info on disk does not match the one provided."
+            f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
+            f"\n\nLoaded the one on disk from {optimizer_info_dir}."
+        )
 
     return NePSState(
         location=str(directory.absolute().resolve()),
         _trials=TrialRepoInDirectory(config_dir),
-        _optimizer_info=Synced.new_or_load(
-            data=optimizer_info,  # type: ignore
-            location=optimizer_info_dir,
-            versioner=FileVersioner(version_file=optimizer_info_dir / ".version"),
-            locker=FileLocker(
-                lock_path=optimizer_info_dir / ".lock",
-                poll=OPTIMIZER_INFO_FILELOCK_POLL,
-                timeout=OPTIMIZER_INFO_FILELOCK_TIMEOUT,
-            ),
-            reader_writer=ReaderWriterOptimizerInfo(),
-        ),
+        _optimizer_info=shared_optimizer_info,  # type: ignore
         _seed_state=Synced.new_or_load(
             data=SeedSnapshot.new_capture(),
             location=seed_dir,
-- 
2.43.0


From e1dcde8a737c8a29e2fe2f688ca45210f8fc39ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:25 +0000
Subject: [PATCH 09/28] fix: a worker killed while sampling made the next
 worker sample the same configuration again

---
 neps/state/neps_state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neps/state/neps_state.py b/neps/state/neps_state.py
index 5d6c9ed..9a73384 100644
--- a/neps/state/neps_state.py
+++ b/neps/state/neps_state.py
@@ -134,9 +134,11 @@ class NePSState(Generic[Loc]):
                 time_sampled=time.time(),
                 worker_id=worker_id,
             )
-            shared_trial = self._trials.put_new(trial)
+            # NOTE: Store the advanced seed state before the trial. Should we be interrupted
+            # in between, some draws are skipped but none is ever used for two trials.
             seed_state.recapture()
             put_seed_state(seed_state)
+            self._trials.put_new(trial)
             put_opt(
                 OptimizationState(budget=opt_state.budget, shared_state=new_opt_state)
             )
-- 
2.43.0


From 8b8dbc7717a8bfae5eb9fa3cab4409e569e149a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:21 +0000
Subject: [PATCH 10/28] fix: a lock without a timeout gave up after the five
 seconds of portalocker's default

---
 neps/state/filebased.py | 3 ++-
 neps/utils/_locker.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 3a060cf..18aad5d 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -479,7 +479,8 @@ class FileLocker(Locker):
             with pl.Lock(
                 self.lock_path,
                 check_interval=self.poll,
-                timeout=self.timeout,
+                # NOTE: `portalocker` takes `None` to mean its own default of 5 seconds
+                timeout=float("inf") if self.timeout is None else self.timeout,
                 flags=FILELOCK_EXCLUSIVE_NONE_BLOCKING,
                 fail_when_locked=fail_if_locked,
             ):
diff --git a/neps/utils/_locker.py b/neps/utils/_locker.py
index f2d430f..6ed4fcd 100644
--- a/neps/utils/_locker.py
+++ b/neps/utils/_locker.py
@@ -40,7 +40,8 @@ class Locker:
         with pl.Lock(
             self.lock_path,
             check_interval=poll,
-            timeout=timeout,
+            # NOTE: `portalocker` takes `None` to mean its own default of 5 seconds
+            timeout=float("inf") if timeout is None else timeout,
             flags=EXCLUSIVE_NONE_BLOCKING,
             fail_when_locked=fail_when_locked,
         ) as fh:
-- 
2.43.0


From cdcb12078c712cafcdf3fe79b1fe44291619cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:21 +0000
Subject: [PATCH 11/28] fix: the initial directory of a trial was remembered
 across runs in different directories

---
 neps/utils/common.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/neps/utils/common.py b/neps/utils/common.py
index 1e73506..a049f50 100644
--- a/neps/utils/common.py
+++ b/neps/utils/common.py
@@ -140,9 +140,6 @@ def load_lightning_checkpoint(
     return checkpoint_path, checkpoint
 
 
-_INTIAL_DIRECTORY_CACHE: dict[str, Path] = {}
-
-
 # TODO: We should have a better way to have a shared folder between trials.
 # Right now, the fidelity lineage is linear, however this will be a difficulty
 # when/if we have a tree structure.
@@ -164,9 +161,6 @@ def get_initial_directory(pipeline_directory: Path | str | None = None) -> Path:
     else:
         trial = get_in_progress_trial()
 
-    if trial.metadata.id in _INTIAL_DIRECTORY_CACHE:
-        return _INTIAL_DIRECTORY_CACHE[trial.metadata.id]
-
     # Recursively find the initial directory
     while (prev_trial_id := trial.metadata.previous_trial_id) is not None:
         trial = neps_state.get_trial_by_id(prev_trial_id)
@@ -175,10 +169,7 @@ def get_initial_directory(pipeline_directory: Path | str | None = None) -> Path:
 
     # TODO: Hard coded assumption that we are operating in a filebased neps
     assert isinstance(initial_dir, str)
-    path = Path(initial_dir)
-
-    _INTIAL_DIRECTORY_CACHE[trial.metadata.id] = path
-    return path
+    return Path(initial_dir)
 
 
 def get_searcher_data(
-- 
2.43.0


From 8c393e4b1a35608c72ccd267a8b02eddda2d2305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:21 +0000
Subject: [PATCH 12/28] fix: grid search without a seed visited points twice
 and left out others

---
 neps/optimizers/grid_search/optimizer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/grid_search/optimizer.py b/neps/optimizers/grid_search/optimizer.py
index a5cf48f..0aac512 100644
--- a/neps/optimizers/grid_search/optimizer.py
+++ b/neps/optimizers/grid_search/optimizer.py
@@ -36,8 +36,13 @@ class GridSearch(BaseOptimizer):
         if _num_previous_configs > len(self.configs_list) - 1:
             raise ValueError("Grid search exhausted!")
 
-        rng = random.Random(self.seed)
-        configs = rng.sample(self.configs_list, len(self.configs_list))
+        # NOTE: The order must be the same for every call and every worker, or points of
+        # the grid are visited twice and others never. Without a seed, which draws a new
+        # order each time, we go through the grid in order.
+        configs = self.configs_list
+        if self.seed is not None:
+            rng = random.Random(self.seed)
+            configs = rng.sample(self.configs_list, len(self.configs_list))
 
         config = configs[_num_previous_configs]
         config_id = str(_num_previous_configs)
-- 
2.43.0


From bc50e647fb311b07edfcf68b61c675cf6f824234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:39 +0000
Subject: [PATCH 13/28] fix: successive halving based searchers failed or
 promoted failed trials when evaluations errored

---
 neps/optimizers/multi_fidelity/promotion_policy.py  | 13 +++++++++----
 .../optimizers/multi_fidelity/successive_halving.py |  3 +++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/promotion_policy.py b/neps/optimizers/multi_fidelity/promotion_policy.py
index b94cbf0..6aa96cc 100644
--- a/neps/optimizers/multi_fidelity/promotion_policy.py
+++ b/neps/optimizers/multi_fidelity/promotion_policy.py
@@ -28,6 +28,12 @@ class PromotionPolicy(ABC):
         self.rung_members = members
         self.rung_members_performance = performances
 
+    def _top_k(self, rung: int, top_k: int) -> np.ndarray:
+        """The indices of the top k members of a rung, leaving out failed ones."""
+        performances = np.asarray(self.rung_members_performance[rung], dtype=float)
+        selected_idx = np.argsort(performances)[:top_k]
+        return selected_idx[performances[selected_idx] != np.inf]
+
     @abstractmethod
     def retrieve_promotions(self) -> dict:
         raise NotImplementedError
@@ -81,7 +87,7 @@ class SyncPromotionPolicy(PromotionPolicy):
                 top_k = (self.config_map[rung] // self.eta) - (
                     self.config_map[rung] - len(self.rung_members[rung])
                 )
-                selected_idx = np.argsort(self.rung_members_performance[rung])[:top_k]
+                selected_idx = self._top_k(rung, top_k)
                 self.rung_promotions[rung] = self.rung_members[rung][selected_idx]
         return self.rung_promotions
 
@@ -104,8 +110,7 @@ class AsyncPromotionPolicy(PromotionPolicy):
                 continue
             # if less than eta configurations seen, no promotions occur as top_k=0
             top_k = len(self.rung_members_performance[rung]) // self.eta
-            _ordered_idx = np.argsort(self.rung_members_performance[rung])
-            self.rung_promotions[rung] = np.array(self.rung_members[rung])[_ordered_idx][
-                :top_k
+            self.rung_promotions[rung] = np.array(self.rung_members[rung])[
+                self._top_k(rung, top_k)
             ].tolist()
         return self.rung_promotions
diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index c8c40cf..bbd22ed 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -226,6 +226,9 @@ class SuccessiveHalvingBase(BaseOptimizer):
         for config_id, config_val in previous_results.items():
             _config, _rung = self._get_config_id_split(config_id)
             perf = self.get_loss(config_val.result)
+            if perf == "error":
+                # a failed evaluation is worse than any other but still an observation
+                perf = np.inf
             if int(_config) in self.observed_configs.index:
                 # config already recorded in dataframe
                 rung_recorded = self.observed_configs.at[int(_config), "rung"]
-- 
2.43.0


From fe6defc97f62e2f7c9b0fe47040b91a081b86c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:53 +0000
Subject: [PATCH 14/28] fix: Bayesian optimization stopped when every
 evaluation so far had failed

---
 neps/optimizers/bayesian_optimization/models/gp.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/bayesian_optimization/models/gp.py b/neps/optimizers/bayesian_optimization/models/gp.py
index 44b6fa2..7996b57 100644
--- a/neps/optimizers/bayesian_optimization/models/gp.py
+++ b/neps/optimizers/bayesian_optimization/models/gp.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import logging
+import math
 from collections.abc import Mapping
 from dataclasses import dataclass
 from functools import reduce
@@ -218,6 +219,13 @@ def optimize_acq(
     )
 
 
+def fill_failed_with_median(y: torch.Tensor) -> torch.Tensor:
+    """Replace nans, i.e. the loss of failed evaluations, by the median of the others."""
+    fill_value = torch.nanmedian(y).item()
+    # If everything failed there is no median, all configurations are equally bad
+    return torch.nan_to_num(y, nan=0.0 if math.isnan(fill_value) else fill_value)
+
+
 def encode_trials_for_gp(
     trials: Mapping[str, Trial],
     space: SearchSpace,
@@ -260,8 +268,7 @@ def encode_trials_for_gp(
     # not end up with a highly skewed function apprxoimation, for example,
     # setting tiny lengthscales, to ensure it can model the sharp change
     # in the performance around the crashed config.
-    fill_value = torch.nanmedian(y_train).item()
-    y_train = torch.nan_to_num(y_train, nan=fill_value)
+    y_train = fill_failed_with_median(y_train)
 
     cost_train = torch.tensor(train_costs, dtype=torch.float64, device=device)
     if len(pending_configs) > 0:
-- 
2.43.0


From 2ce02c389de06bf4285e37d7bdc14b4db4d8f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:53 +0000
Subject: [PATCH 15/28] fix: mobster and priorband_bo stopped as soon as their
 model was to be used

---
 neps/optimizers/multi_fidelity/mf_bo.py       |  4 --
 .../multi_fidelity/sampling_policy.py         | 53 +++++++------------
 2 files changed, 19 insertions(+), 38 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/mf_bo.py b/neps/optimizers/multi_fidelity/mf_bo.py
index 6686a84..c7569ef 100755
--- a/neps/optimizers/multi_fidelity/mf_bo.py
+++ b/neps/optimizers/multi_fidelity/mf_bo.py
@@ -169,7 +169,6 @@ class MFBOBase:
     ) -> SearchSpace:
         """Samples configuration from policies or random."""
         if self.model_based and not self.is_init_phase():
-            incumbent = None
             if self.modelling_type == "rung":
                 # `rung` should not be None when not in init phase
                 active_max_rung = self._active_rung()
@@ -178,8 +177,6 @@ class MFBOBase:
             elif self.modelling_type == "joint":
                 fidelity = self.rung_map[rung]
                 active_max_fidelity = None
-                # IMPORTANT step for correct 2-step acquisition
-                incumbent = min(self.rung_histories[rung]["perf"])
             else:
                 raise ValueError("Choice of modelling_type not in 'rung', 'joint'")
             assert (
@@ -190,7 +187,6 @@ class MFBOBase:
             config = self.model_policy.sample(
                 active_max_fidelity=active_max_fidelity,
                 fidelity=fidelity,
-                incumbent=incumbent,
                 **self.sampling_args,
             )
         elif self.sampling_policy is not None:
diff --git a/neps/optimizers/multi_fidelity/sampling_policy.py b/neps/optimizers/multi_fidelity/sampling_policy.py
index 02bcb90..401133f 100644
--- a/neps/optimizers/multi_fidelity/sampling_policy.py
+++ b/neps/optimizers/multi_fidelity/sampling_policy.py
@@ -5,7 +5,6 @@ from abc import ABC, abstractmethod
 from typing import TYPE_CHECKING, Any, Literal
 
 import numpy as np
-import pandas as pd
 import torch
 from botorch.acquisition import (
     AcquisitionFunction,
@@ -18,7 +17,10 @@ from gpytorch import ExactMarginalLogLikelihood
 from neps.optimizers.bayesian_optimization.acquisition_functions.pibo import (
     pibo_acquisition,
 )
-from neps.optimizers.bayesian_optimization.models.gp import make_default_single_obj_gp
+from neps.optimizers.bayesian_optimization.models.gp import (
+    fill_failed_with_median,
+    make_default_single_obj_gp,
+)
 from neps.search_spaces.encoding import ConfigEncoder
 
 if TYPE_CHECKING:
@@ -30,7 +32,6 @@ if TYPE_CHECKING:
 TOLERANCE = 1e-2  # 1%
 SAMPLE_THRESHOLD = 1000  # num samples to be rejected for increasing hypersphere radius
 DELTA_THRESHOLD = 1e-2  # 1%
-TOP_EI_SAMPLE_COUNT = 10
 
 logger = logging.getLogger(__name__)
 
@@ -310,6 +311,10 @@ class ModelPolicy(SamplingPolicy):
         x_train = self._encoder.encode([config.hp_values() for config in train_x])
         x_pending = self._encoder.encode([config.hp_values() for config in pending_x])
         y_train = torch.tensor(train_y, dtype=torch.float64, device=self.device)
+        # Failed evaluations have an infinite loss, see `encode_trials_for_gp`
+        y_train = fill_failed_with_median(
+            torch.where(torch.isinf(y_train), torch.nan, y_train)
+        )
 
         # TODO: Most of this just copies BO and the duplication can be replaced
         # once we don't have the two stage `update_model()` and `sample()`
@@ -357,10 +362,8 @@ class ModelPolicy(SamplingPolicy):
 
         Performs 2 strategies as per the arguments passed:
             * If fidelity is not None, triggers the case when the surrogate has been
-              trained jointly with the fidelity dimension, i.e., all observations ever
-              recorded. In this case, the EI for random samples is evaluated at the
-              `fidelity` where the new sample will be evaluated. The top-10 are selected,
-              and the EI for them is evaluated at the target/mmax fidelity.
+              trained jointly, i.e., on all observations ever recorded. The samples have
+              their fidelity set to the `fidelity` where they will be evaluated.
             * If active_max_fidelity is not None, triggers the case when a surrogate is
               trained per fidelity. In this case, all samples have their fidelity
               variable set to the same value. This value is same as that of the fidelity
@@ -372,34 +375,16 @@ class ModelPolicy(SamplingPolicy):
             for _ in range(SAMPLE_THRESHOLD)
         ]
 
-        if fidelity is not None:
-            # w/o setting this flag, the AF eval will set all fidelities to max
-            self.acquisition.optimize_on_max_fidelity = False
-            _inc_copy = self.acquisition.incumbent
-            # TODO: better design required, for example, not import torch
-            #  right now this case handles the 2-step acquisition in `sample`
-            if "incumbent" in kwargs:
-                # sets the incumbent to the best score at the required fidelity for
-                # correct computation of EI scores
-                self.acquisition.incumbent = torch.tensor(kwargs["incumbent"])
-            # updating the fidelity of the sampled configurations
-            samples = list(map(update_fidelity, samples, [fidelity] * len(samples)))
-            # computing EI at the given `fidelity`
-            eis = self.acquisition.eval(x=samples, asscalar=True)
-            # extracting the 10 highest scores
-            _ids = np.argsort(eis)[-TOP_EI_SAMPLE_COUNT:]
-            samples = pd.Series(samples).iloc[_ids].values.tolist()
-            # setting the fidelity to the maximum fidelity
-            self.acquisition.optimize_on_max_fidelity = True
-            self.acquisition.incumbent = _inc_copy
-
         if active_max_fidelity is not None:
-            # w/o setting this flag, the AF eval will set all fidelities to max
-            self.acquisition.optimize_on_max_fidelity = False
             fidelity = active_max_fidelity
-            samples = list(map(update_fidelity, samples, [fidelity] * len(samples)))
-
-        # computes the EI for all `samples`
-        eis = self.acquisition.eval(x=samples, asscalar=True)
+        samples = list(map(update_fidelity, samples, [fidelity] * len(samples)))
+
+        # computes the acquisition score for all `samples`
+        # NOTE: The encoding of a configuration does not include its fidelity, the score
+        # is the same whichever fidelity the samples have
+        assert self._acq is not None
+        x = self._encoder.encode([config.hp_values() for config in samples])
+        with torch.no_grad():
+            eis = self._acq(x.unsqueeze(1)).cpu().numpy()
         # extracting the highest scored sample
         return samples[np.argmax(eis)]
-- 
2.43.0


From 0853d5d3e5543513db2ac692e66307001ead76f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:02 +0000
Subject: [PATCH 16/28] fix: the CSV summary failed on failed evaluations and
 could be overwritten with older data

---
 neps/status/status.py | 94 ++++++++++++-------------------------------
 1 file changed, 26 insertions(+), 68 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index e4e0175..f166bfc 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -12,6 +12,7 @@ import pandas as pd
 from neps.state.filebased import load_filebased_neps_state
 from neps.state.trial import Trial
 from neps.utils._locker import Locker
+from neps.utils.files import atomic_open
 from neps.utils.types import ConfigID, _ConfigResultForStats
 
 if TYPE_CHECKING:
@@ -223,7 +224,9 @@ def _get_dataframes_from_summary(
         if include_configs:
             config_data_prev.append(config_result_prev.config)
         if include_results:
-            result_data_prev.append(config_result_prev.result)
+            # a failed evaluation has no result, only the string "error"
+            result = config_result_prev.result
+            result_data_prev.append(result if isinstance(result, dict) else {})
         if include_metadatas:
             metadata_data_prev.append(config_result_prev.metadata)
 
@@ -282,69 +285,28 @@ def _get_dataframes_from_summary(
 def _save_data_to_csv(
     config_data_file_path: Path,
     run_data_file_path: Path,
-    locker: Locker,
     config_data_df: pd.DataFrame,
     run_data_df: pd.DataFrame,
 ) -> None:
-    """Save data as a CSV while acquiring a lock for data integrity.
-
-    This function saves data to CSV files while acquiring a lock to prevent concurrent
-    writes. If the lock is acquired, it writes the data to the CSV files and releases the
-    lock.
+    """Save data as a CSV, the lock on the files must be held by the caller.
 
     Args:
         config_data_file_path: The path to the CSV file for configuration data.
         run_data_file_path: The path to the CSV file for additional run data.
-        locker: An object for acquiring and releasing a lock to ensure data integrity.
         config_data_df: The DataFrame containing configuration data.
         run_data_df: The DataFrame containing additional run data.
     """
-    with locker(poll=2):
-        try:
-            pending_configs = run_data_df.loc["num_pending_configs", "value"]
-            pending_configs_with_worker = run_data_df.loc[
-                "num_pending_configs_with_worker",
-                "value",
-            ]
-            # Represents the last worker
-            if int(pending_configs) == 0 and int(pending_configs_with_worker) == 0:
-                config_data_df = config_data_df.sort_values(
-                    by="result.loss",
-                    ascending=True,
-                )
-                config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                run_data_df.to_csv(run_data_file_path, index=True, mode="w")
-
-            if run_data_file_path.exists():
-                prev_run_data_df = pd.read_csv(run_data_file_path)
-                prev_run_data_df = prev_run_data_df.set_index("description")
-
-                num_evaluated_configs_csv = prev_run_data_df.loc[
-                    "num_evaluated_configs",
-                    "value",
-                ]
-                num_evaluated_configs_run = run_data_df.loc[
-                    run_data_df.index == "num_evaluated_configs",
-                    "value",
-                ]
-                # check if the current worker has more evaluated configs than the previous
-                if int(num_evaluated_configs_csv) < num_evaluated_configs_run.iloc[0]:
-                    config_data_df = config_data_df.sort_values(
-                        by="result.loss",
-                        ascending=True,
-                    )
-                    config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                    run_data_df.to_csv(run_data_file_path, index=True, mode="w")
-            # Represents the first worker to be evaluated
-            else:
-                config_data_df = config_data_df.sort_values(
-                    by="result.loss",
-                    ascending=True,
-                )
-                config_data_df.to_csv(config_data_file_path, index=False, mode="w")
-                run_data_df.to_csv(run_data_file_path, index=True, mode="w")
-        except Exception as e:
-            raise RuntimeError(f"Error during data saving: {e}") from e
+    try:
+        # NOTE: The column does not exist if no evaluation was successful
+        if "result.loss" in config_data_df.columns:
+            config_data_df = config_data_df.sort_values(by="result.loss", ascending=True)
+
+        with atomic_open(config_data_file_path) as f:
+            config_data_df.to_csv(f, index=False)
+        with atomic_open(run_data_file_path) as f:
+            run_data_df.to_csv(f, index=True)
+    except Exception as e:
+        raise RuntimeError(f"Error during data saving: {e}") from e
 
 
 def post_run_csv(root_directory: str | Path) -> tuple[Path, Path]:
@@ -360,18 +322,14 @@ def post_run_csv(root_directory: str | Path) -> tuple[Path, Path]:
     csv_config_data = Path(csv_config_data).absolute().resolve()
     csv_rundata = Path(csv_rundata).absolute().resolve()
 
-    df_config_data, df_run_data = _get_dataframes_from_summary(
-        root_directory,
-        include_metadatas=True,
-        include_results=True,
-        include_configs=True,
-    )
-
-    _save_data_to_csv(
-        csv_config_data,
-        csv_rundata,
-        csv_locker,
-        df_config_data,
-        df_run_data,
-    )
+    # NOTE: The data has to be read while holding the lock. Otherwise we might overwrite
+    # what another worker wrote in the meantime with older data.
+    with csv_locker(poll=2):
+        df_config_data, df_run_data = _get_dataframes_from_summary(
+            root_directory,
+            include_metadatas=True,
+            include_results=True,
+            include_configs=True,
+        )
+        _save_data_to_csv(csv_config_data, csv_rundata, df_config_data, df_run_data)
     return csv_config_data, csv_rundata
-- 
2.43.0


From 3380c916e9a01260018157fb6bbb94110de0a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:32 +0000
Subject: [PATCH 17/28] fix: a worker killed while storing the random state
 left a mixture of the old and the new one

---
 neps/state/filebased.py | 49 +++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 18aad5d..379d1bc 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -279,18 +279,18 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
     @override
     @classmethod
     def read(cls, directory: Path) -> SeedSnapshot:
-        seedinfo_path = directory / cls.SEED_INFO_FILENAME
-        py_rng_path = directory / cls.PY_RNG_TUPLE_FILENAME
-        np_rng_path = directory / cls.NP_RNG_STATE_FILENAME
-        torch_rng_path = directory / cls.TORCH_RNG_STATE_FILENAME
-        torch_cuda_rng_path = directory / cls.TORCH_CUDA_RNG_STATE_FILENAME
+        seed_info = deserialize(directory / cls.SEED_INFO_FILENAME)
+        slot = directory / seed_info.get("slot", "")
+        py_rng_path = slot / cls.PY_RNG_TUPLE_FILENAME
+        np_rng_path = slot / cls.NP_RNG_STATE_FILENAME
+        torch_rng_path = slot / cls.TORCH_RNG_STATE_FILENAME
+        torch_cuda_rng_path = slot / cls.TORCH_CUDA_RNG_STATE_FILENAME
 
         # Load and set pythons rng
         py_rng_state = tuple(
             int(x) for x in np.fromfile(py_rng_path, dtype=cls.PY_RNG_STATE_DTYPE)
         )
         np_rng_state = np.fromfile(np_rng_path, dtype=np.uint32)
-        seed_info = deserialize(seedinfo_path)
 
         torch_exists = torch_rng_path.exists() or torch_cuda_rng_path.exists()
 
@@ -328,25 +328,25 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
     @classmethod
     def write(cls, snapshot: SeedSnapshot, directory: Path) -> None:
         seedinfo_path = directory / cls.SEED_INFO_FILENAME
-        py_rng_path = directory / cls.PY_RNG_TUPLE_FILENAME
-        np_rng_path = directory / cls.NP_RNG_STATE_FILENAME
-        torch_rng_path = directory / cls.TORCH_RNG_STATE_FILENAME
-        torch_cuda_rng_path = directory / cls.TORCH_CUDA_RNG_STATE_FILENAME
+
+        # NOTE: The snapshot spans several files which must not be mixed between versions.
+        # They go to the slot not in use, the info file, written last, switches over to it.
+        slot_name = "0"
+        if seedinfo_path.exists() and deserialize(seedinfo_path).get("slot") == "0":
+            slot_name = "1"
+        slot = directory / slot_name
+        slot.mkdir(exist_ok=True)
+
+        py_rng_path = slot / cls.PY_RNG_TUPLE_FILENAME
+        np_rng_path = slot / cls.NP_RNG_STATE_FILENAME
+        torch_rng_path = slot / cls.TORCH_RNG_STATE_FILENAME
+        torch_cuda_rng_path = slot / cls.TORCH_CUDA_RNG_STATE_FILENAME
 
         py_rng_version, py_rng_state, py_guass_next = snapshot.py_rng
 
         with atomic_open(py_rng_path, "wb") as f:
             f.write(np.array(py_rng_state, dtype=cls.PY_RNG_STATE_DTYPE).tobytes())
 
-        seed_info = {
-            "np_rng_kind": snapshot.np_rng[0],
-            "np_pos": snapshot.np_rng[2],
-            "np_has_gauss": snapshot.np_rng[3],
-            "np_cached_gauss": snapshot.np_rng[4],
-            "py_rng_version": py_rng_version,
-            "py_guass_next": py_guass_next,
-        }
-        serialize(seed_info, seedinfo_path)
         np_rng_state = snapshot.np_rng[1]
         with atomic_open(np_rng_path, "wb") as f:
             f.write(np_rng_state.tobytes())
@@ -363,6 +363,17 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
             with atomic_open(torch_cuda_rng_path, "wb") as f:
                 torch.save(snapshot.torch_cuda_rng, f)
 
+        seed_info = {
+            "slot": slot_name,
+            "np_rng_kind": snapshot.np_rng[0],
+            "np_pos": snapshot.np_rng[2],
+            "np_has_gauss": snapshot.np_rng[3],
+            "np_cached_gauss": snapshot.np_rng[4],
+            "py_rng_version": py_rng_version,
+            "py_guass_next": py_guass_next,
+        }
+        serialize(seed_info, seedinfo_path)
+
 
 @dataclass
 class ReaderWriterOptimizerInfo(ReaderWriter[OptimizerInfo, Path]):
-- 
2.43.0


From 1075323292a85b59bc72598fa6dad908af746e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:19 +0000
Subject: [PATCH 18/28] fix: successive halving based searchers failed when a
 rung held only running trials

---
 neps/optimizers/multi_fidelity/successive_halving.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index bbd22ed..56a32a2 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -301,7 +301,10 @@ class SuccessiveHalvingBase(BaseOptimizer):
         for _rung in observed_configs.rung.unique():
             idxs = observed_configs.rung == _rung
             self.rung_members[_rung] = observed_configs.index[idxs].values
-            self.rung_members_performance[_rung] = observed_configs.perf[idxs].values
+            # NOTE: With only pending configs, the column is not of a numeric type
+            self.rung_members_performance[_rung] = observed_configs.perf[idxs].to_numpy(
+                dtype=float
+            )
 
     def _handle_promotions(self) -> None:
         self.promotion_policy.set_state(
-- 
2.43.0


From 120ee29fde1dd00c646eb81318200573308df398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:19 +0000
Subject: [PATCH 19/28] fix: Bayesian optimization failed when all trials so
 far were still running

---
 neps/optimizers/bayesian_optimization/optimizer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/bayesian_optimization/optimizer.py b/neps/optimizers/bayesian_optimization/optimizer.py
index 3531217..573cd78 100644
--- a/neps/optimizers/bayesian_optimization/optimizer.py
+++ b/neps/optimizers/bayesian_optimization/optimizer.py
@@ -16,7 +16,7 @@ from neps.optimizers.bayesian_optimization.models.gp import (
     make_default_single_obj_gp,
 )
 from neps.optimizers.initial_design import make_initial_design
-from neps.sampling import Prior
+from neps.sampling import Prior, Sampler
 from neps.search_spaces.encoding import ConfigEncoder
 
 if TYPE_CHECKING:
@@ -165,6 +165,12 @@ class BayesianOptimization(BaseOptimizer):
         if n_sampled < len(self.init_design):
             return SampledConfig(id=config_id, config=self.init_design[n_sampled])
 
+        # While all of the trials are still being evaluated, there is nothing to model
+        if all(trial.report is None for trial in trials.values()):
+            sampler = self.prior or Sampler.uniform(ndim=self.encoder.ncols)
+            sample = sampler.sample(1, to=self.encoder.domains)
+            return SampledConfig(id=config_id, config=self.encoder.decode(sample)[0])
+
         # Otherwise, we encode trials and setup to fit and acquire from a GP
         data, encoder = encode_trials_for_gp(
             trials, space, device=self.device, encoder=self.encoder
-- 
2.43.0


From 8d0c48ed329513ce0efdbd6e6c2e4c7064e578b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:02 +0000
Subject: [PATCH 20/28] fix: the learning curve was removed from the user's own
 info_dict

---
 neps/state/_eval.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/state/_eval.py b/neps/state/_eval.py
index f3153a6..f10da64 100644
--- a/neps/state/_eval.py
+++ b/neps/state/_eval.py
@@ -49,10 +49,14 @@ def parse_user_result(
         if extracted_learning_curve is _notset:
             # HACK: Backwards compat, check if it's in the "info_dict" key
             if "info_dict" in user_result:
-                extracted_learning_curve = user_result["info_dict"].pop(
+                # NOTE: Do not take it out of the user's own dictionary, which they
+                # may well return again for the next evaluation
+                info_dict = dict(user_result["info_dict"])
+                extracted_learning_curve = info_dict.pop(
                     "learning_curve",
                     default_learning_curve,
                 )
+                user_result["info_dict"] = info_dict
             else:
                 extracted_learning_curve = default_learning_curve
 
-- 
2.43.0


From e9c0877b800ea601ef75f32a725a0bbd018b2cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:32 +0000
Subject: [PATCH 21/28] fix: neps info-config failed for a trial that has not
 finished yet

---
 neps/utils/cli.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neps/utils/cli.py b/neps/utils/cli.py
index b504bf5..93a1ce9 100644
--- a/neps/utils/cli.py
+++ b/neps/utils/cli.py
@@ -308,13 +308,17 @@ def sample_config(args: argparse.Namespace) -> None:
     pass
 
 
-def convert_timestamp(timestamp: float) -> str:
+def convert_timestamp(timestamp: Optional[float]) -> str:
     """Convert a UNIX timestamp to a human-readable datetime string."""
+    if timestamp is None:
+        return "N/A"
     return datetime.fromtimestamp(timestamp).strftime("%Y-%m-%d %H:%M:%S")
 
 
-def format_duration(seconds: float) -> str:
+def format_duration(seconds: Optional[float]) -> str:
     """Convert duration in seconds to a h:min:sec format."""
+    if seconds is None:
+        return "N/A"
     duration = str(timedelta(seconds=seconds))
     # Remove milliseconds for alignment
     if "." in duration:
-- 
2.43.0


From 40284ef10ec7f3766898f65979bccfd996fd25c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:32 +0000
Subject: [PATCH 22/28] fix: neps results failed on a failed trial or listed it
 as an incumbent

---
 neps/utils/cli.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/neps/utils/cli.py b/neps/utils/cli.py
index 93a1ce9..ce8f85c 100644
--- a/neps/utils/cli.py
+++ b/neps/utils/cli.py
@@ -548,7 +548,13 @@ def results(args: argparse.Namespace) -> None:
     best_loss = float("inf")
     incumbents = []
     for trial in sorted_trials:
-        if trial.report and trial.report.loss < best_loss:
+        # NOTE: A trial which failed has no loss, or only one assumed for the optimizer
+        if (
+            trial.report is not None
+            and trial.report.reported_as == "success"
+            and trial.report.loss is not None
+            and trial.report.loss < best_loss
+        ):
             best_loss = trial.report.loss
             incumbents.append(trial)
 
-- 
2.43.0


From 73cac0891b8fd98875181c06cc192893ccd35b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:45 +0000
Subject: [PATCH 23/28] fix: the listings of neps.status read files which are
 never written

---
 neps/status/status.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index f166bfc..c94c56d 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -96,6 +96,14 @@ def get_summary_dict(
     return summary
 
 
+def _print_configs(results: list[_ConfigResultForStats]) -> None:
+    for result in results:
+        print(f"Loss: {result.loss}")
+        print(f"Config ID: {result.id}")
+        print(f"Config: {result.config}")
+        print(79 * "-")
+
+
 def status(
     root_directory: str | Path,
     *,
@@ -138,25 +146,34 @@ def status(
         print(f"Best config id: {summary['best_config_id']}")
         print(f"Best config: {summary['best_config']}")
 
+        results = sorted(
+            summary["previous_results"].values(),
+            key=lambda result: result.metadata["time_end"],
+        )
+        incumbents: list[_ConfigResultForStats] = []
+        for result in results:
+            loss = result.loss
+            best = incumbents[-1].loss if incumbents else float("inf")
+            if isinstance(loss, float) and loss < best:
+                incumbents.append(result)
+
         if best_losses:
             print()
             print("Best loss across evaluations:")
-            best_loss_trajectory = root_directory / "best_loss_trajectory.txt"
-            print(best_loss_trajectory.read_text(encoding="utf-8"))
+            for result in incumbents:
+                print(result.loss)
 
         if best_configs:
             print()
             print("Best configs and their losses across evaluations:")
             print(79 * "-")
-            best_loss_config = root_directory / "best_loss_with_config_trajectory.txt"
-            print(best_loss_config.read_text(encoding="utf-8"))
+            _print_configs(incumbents)
 
         if all_configs:
             print()
             print("All evaluated configs and their losses:")
             print(79 * "-")
-            all_loss_config = root_directory / "all_losses_and_configs.txt"
-            print(all_loss_config.read_text(encoding="utf-8"))
+            _print_configs(results)
 
     return summary["previous_results"], summary["pending_configs"]
 
-- 
2.43.0


From 378b03ff1ded32b8a8b3434529481baf04ded1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:13 +0000
Subject: [PATCH 24/28] fix: tblogger split the curve of a configuration over
 two tags

---
 neps/plot/tensorboard_eval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neps/plot/tensorboard_eval.py b/neps/plot/tensorboard_eval.py
index 380ad6b..7ad02ab 100644
--- a/neps/plot/tensorboard_eval.py
+++ b/neps/plot/tensorboard_eval.py
@@ -103,7 +103,9 @@ class tblogger:  # noqa: N801
             if trial.metadata.previous_trial_location is not None
             else None
         )
-        tblogger.config_id = trial.metadata.id
+        # NOTE: Once there is a writer, the id is the one which was chosen along with it
+        if not tblogger._is_initialized():
+            tblogger.config_id = trial.metadata.id
         tblogger.optimizer_dir = root_dir
         tblogger.config = trial.config
 
-- 
2.43.0


From 83944f3eeb2651f3a7800d928b9750319b2eaa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:13 +0000
Subject: [PATCH 25/28] fix: tblogger recorded the incumbents of a search in
 the directory of the first one of the process

---
 neps/plot/tensorboard_eval.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neps/plot/tensorboard_eval.py b/neps/plot/tensorboard_eval.py
index 7ad02ab..34a536f 100644
--- a/neps/plot/tensorboard_eval.py
+++ b/neps/plot/tensorboard_eval.py
@@ -445,6 +445,9 @@ class tblogger:  # noqa: N801
         tblogger.summary_writer.flush()
         tblogger.summary_writer.close()
 
+        # The next one may belong to another optimization run in the same process
+        tblogger.summary_writer = None
+
     @staticmethod
     def disable() -> None:
         """The function allows for disabling the logger functionality.
-- 
2.43.0


From b1e1448758f0428eb4633ffb2d7436752a2515d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:13 +0000
Subject: [PATCH 26/28] fix: tblogger logged into the directories of an earlier
 trial or search

---
 neps/plot/tensorboard_eval.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/neps/plot/tensorboard_eval.py b/neps/plot/tensorboard_eval.py
index 34a536f..45eca94 100644
--- a/neps/plot/tensorboard_eval.py
+++ b/neps/plot/tensorboard_eval.py
@@ -66,6 +66,7 @@ class SummaryWriter_(SummaryWriter):  # noqa: N801
 class tblogger:  # noqa: N801
     """The tblogger class provides a simplified interface for logging to tensorboard."""
 
+    trial: ClassVar[Trial | None] = None
     config_id: ClassVar[str | None] = None
     config: ClassVar[Mapping[str, Any] | None] = None
     config_working_directory: ClassVar[Path | None] = None
@@ -93,6 +94,11 @@ class tblogger:  # noqa: N801
 
         register_notify_trial_end("NEPS_TBLOGGER", tblogger.end_of_config)
 
+        # A trial which was interrupted never notified about its end
+        if tblogger.trial is not trial:
+            tblogger._close_config_writer()
+        tblogger.trial = trial
+
         # We are assuming that neps state is all filebased here
         root_dir = Path(neps_state.location)
         assert root_dir.exists()
@@ -144,14 +150,23 @@ class tblogger:  # noqa: N801
             )
 
     @staticmethod
-    def end_of_config(trial: Trial) -> None:  # noqa: ARG004
-        """Closes the writer."""
+    def _close_config_writer() -> None:
         if tblogger.config_writer:
             # Close and reset previous config writers for consistent logging.
             # Prevent conflicts by reinitializing writers when logging ongoing.
             tblogger.config_writer.close()
             tblogger.config_writer = None
 
+    @staticmethod
+    def end_of_config(trial: Trial) -> None:
+        """Closes the writer."""
+        tblogger._close_config_writer()
+
+        # Nothing was logged for this trial, what was logged last may even belong
+        # to another optimization run
+        if tblogger.trial is not trial:
+            return
+
         if tblogger.write_incumbent:
             tblogger._tracking_incumbent_api()
 
-- 
2.43.0


From 1c4f1369b4af4e6248cf3e9f603c40412b5fefb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:45 +0000
Subject: [PATCH 27/28] fix: a searcher argument that is a tuple, set, enum or
 array made every later worker be refused

---
 neps/state/filebased.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 379d1bc..af85788 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -52,7 +52,12 @@ from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
 from neps.state.protocols import Locker, ReaderWriter, Synced, TrialRepo, Versioner
 from neps.state.seed_snapshot import SeedSnapshot
 from neps.state.trial import Trial
-from neps.utils.files import atomic_open, deserialize, serialize
+from neps.utils.files import (
+    atomic_open,
+    deserialize,
+    serializable_format,
+    serialize,
+)
 
 logger = logging.getLogger(__name__)
 K = TypeVar("K")
@@ -640,7 +645,10 @@ def create_or_load_filebased_neps_state(
         reader_writer=ReaderWriterOptimizerInfo(),
     )
     existing_info = shared_optimizer_info.synced()
-    if existing_info != optimizer_info:
+    # NOTE: Compared in the form in which they are stored, e.g. a tuple is stored as a list
+    if serializable_format(existing_info.info) != serializable_format(
+        optimizer_info.info
+    ):
         raise NePSError(
             "The optimizer info on disk does not match the one provided."
             f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
-- 
2.43.0


From 503baf7dafa635f9f12743dd2adf0ac68a44851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:28 +0000
Subject: [PATCH 28/28] fix: info-config failed on a configuration whose
 creation was cut short

---
 neps/state/filebased.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index af85788..10aa074 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -137,7 +137,8 @@ class TrialRepoInDirectory(TrialRepo[Path]):
             return trial
 
         config_path = self.directory / f"config_{trial_id}"
-        if not config_path.exists():
+        # NOTE: A trial whose creation is not complete has no version yet
+        if not (config_path / ".version").exists():
             raise TrialRepo.TrialNotFoundError(trial_id, config_path)
 
         trial = Synced.load(
-- 
2.43.0

