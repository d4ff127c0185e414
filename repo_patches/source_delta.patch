From af24a5024612ce76c3be73000b0213eabb9aaf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 01/43] fix: cache lock is only released by the process that
 holds it

A contender that failed to create the lock file removed the holder's lock in its
finally block, so a third process could enter. Ownership is now an advisory lock on the
file, which the kernel drops when the holder dies, and only the owner removes the file.
---
 src/modssc/data_loader/cache.py | 49 +++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index 5f0321e..fb62694 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import contextlib
+import errno
 import os
 import shutil
 import sqlite3
@@ -10,6 +11,11 @@ from dataclasses import dataclass
 from pathlib import Path
 from typing import Any
 
+try:
+    import fcntl
+except ImportError:  # pragma: no cover - not available on Windows
+    fcntl = None  # type: ignore[assignment]
+
 from platformdirs import user_cache_dir
 
 from modssc.data_loader.errors import ManifestError
@@ -86,24 +92,55 @@ def ensure_layout(layout: CacheLayout) -> None:
     _ensure_index(layout.index_path)
 
 
+def _acquire_lock_file(lock_path: Path) -> int:
+    """Return a descriptor owning ``lock_path``, or raise FileExistsError when it is held."""
+    if fcntl is None:  # pragma: no cover - platforms without advisory locks
+        return os.open(str(lock_path), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
+
+    while True:
+        fd = os.open(str(lock_path), os.O_CREAT | os.O_RDWR)
+        try:
+            # The kernel drops this lock when its holder dies, so a file left behind is never stale.
+            fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
+            held = os.fstat(fd)
+            try:
+                on_disk = os.stat(str(lock_path))
+            except FileNotFoundError:
+                on_disk = None
+            if on_disk is not None and (on_disk.st_dev, on_disk.st_ino) == (
+                held.st_dev,
+                held.st_ino,
+            ):
+                return fd
+        except BlockingIOError as e:
+            os.close(fd)
+            raise FileExistsError(
+                errno.EEXIST, "Cache entry is locked by another process", str(lock_path)
+            ) from e
+        except BaseException:
+            os.close(fd)
+            raise
+        # A previous holder removed the file between our open and our lock: try again.
+        os.close(fd)
+
+
 @contextmanager
 def cache_lock(layout: CacheLayout, fingerprint: str) -> Iterator[None]:
-    """Simple file lock using O_EXCL creation."""
+    """Simple file lock. Only the process that acquired it removes the lock file."""
     ensure_layout(layout)
     lock_path = layout.lock_path(fingerprint)
     lock_path.parent.mkdir(parents=True, exist_ok=True)
 
-    fd: int | None = None
+    fd = _acquire_lock_file(lock_path)
     try:
-        fd = os.open(str(lock_path), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
+        os.ftruncate(fd, 0)
         os.write(fd, str(os.getpid()).encode("utf-8"))
         yield
     finally:
-        if fd is not None:
-            os.close(fd)
-        # best effort cleanup
+        # Remove the file while it is still locked; best effort.
         with contextlib.suppress(Exception):
             lock_path.unlink(missing_ok=True)
+        os.close(fd)
 
 
 def is_cached(layout: CacheLayout, fingerprint: str) -> bool:
-- 
2.43.0


From e0bd67eb4072bfd5a2ba6cbf4f4ee2eb8e94cbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 02/43] fix: interrupted refresh or purge no longer leaves a
 half-removed entry marked as cached

The manifest stayed in place while the processed directory was being replaced or
removed; a crash in between made every later load fail with missing or torn files.
---
 src/modssc/data_loader/cache.py            | 4 ++--
 src/modssc/data_loader/services/service.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index fb62694..06890ea 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -302,9 +302,9 @@ def rebuild_index(layout: CacheLayout) -> None:
 
 
 def purge_fingerprint(layout: CacheLayout, fingerprint: str) -> None:
+    # The manifest marks the entry as complete: without it a half-removed entry is not cached.
+    layout.manifest_path(fingerprint).unlink(missing_ok=True)
     shutil.rmtree(layout.processed_dir(fingerprint), ignore_errors=True)
-    with contextlib.suppress(Exception):
-        layout.manifest_path(fingerprint).unlink(missing_ok=True)
     index_delete(layout, [fingerprint])
 
 
diff --git a/src/modssc/data_loader/services/service.py b/src/modssc/data_loader/services/service.py
index 124c009..d2f16f4 100644
--- a/src/modssc/data_loader/services/service.py
+++ b/src/modssc/data_loader/services/service.py
@@ -464,7 +464,8 @@ def _download_and_store(
             ds = replace(ds, meta={})
         ds.meta["dataset_fingerprint"] = fp
 
-        # store processed
+        # store processed; the manifest marks the entry as complete, so it goes first
+        layout.manifest_path(fp).unlink(missing_ok=True)
         processed_dir = layout.processed_dir(fp)
         if processed_dir.exists():
             # clean partial state
-- 
2.43.0


From 461f5c73b9c866a3754d806fee0a817a03fc6fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:56 +0000
Subject: [PATCH 03/43] fix: a failed TFDS test-split download is not cached as
 a dataset without test split

---
 src/modssc/data_loader/providers/tfds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modssc/data_loader/providers/tfds.py b/src/modssc/data_loader/providers/tfds.py
index 484c2c9..b4cd37e 100644
--- a/src/modssc/data_loader/providers/tfds.py
+++ b/src/modssc/data_loader/providers/tfds.py
@@ -70,7 +70,8 @@ class TFDSProvider(BaseProvider):
             test_ds = tfds.load(
                 full_name, split="test", as_supervised=as_supervised, data_dir=str(data_dir)
             )
-        except Exception:
+        except ValueError:
+            # Unknown split; a failed download must not be cached as "no test split".
             test_ds = None
 
         X_train, y_train = _materialize_tfds(train_ds)
-- 
2.43.0


From 60647fd2ab13a69f8daa95fa5f728972894f74e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 04/43] fix: a missing optional extra is reported as such when
 a dataset download needs it

---
 src/modssc/data_loader/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/data_loader/errors.py b/src/modssc/data_loader/errors.py
index f6aa37b..7f9428f 100644
--- a/src/modssc/data_loader/errors.py
+++ b/src/modssc/data_loader/errors.py
@@ -24,7 +24,7 @@ class ProviderNotFoundError(DataLoaderError):
         super().__init__(f"Unknown provider: {provider!r}")
 
 
-@dataclass(frozen=True)
+@dataclass(unsafe_hash=True)
 class OptionalDependencyError(MissingExtraErrorMessageMixin, DataLoaderError):
     """Raised when an optional dependency (extra) required by a provider is missing."""
 
-- 
2.43.0


From 5b0e4705a60fb24e288cc79698b69389b170713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:14 +0000
Subject: [PATCH 05/43] fix: a reader that meets an entry being refreshed no
 longer deletes what the writer is storing

---
 src/modssc/data_loader/services/service.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/modssc/data_loader/services/service.py b/src/modssc/data_loader/services/service.py
index d2f16f4..3b5d0dc 100644
--- a/src/modssc/data_loader/services/service.py
+++ b/src/modssc/data_loader/services/service.py
@@ -442,7 +442,7 @@ def _download_and_store(
 
     with cache.cache_lock(layout, fp):
         if not force and cache.is_cached(layout, fp):
-            ds = _load_processed_or_purge(layout, fp, dataset_id=identity.dataset_id)
+            ds = _load_processed_or_purge(layout, fp, dataset_id=identity.dataset_id, locked=True)
             if ds is not None:
                 return ds
 
@@ -491,9 +491,17 @@ def _download_and_store(
         return ds
 
 
+def _read_manifest_bytes(layout: cache.CacheLayout, fingerprint: str) -> bytes | None:
+    try:
+        return layout.manifest_path(fingerprint).read_bytes()
+    except OSError:
+        return None
+
+
 def _load_processed_or_purge(
-    layout: cache.CacheLayout, fingerprint: str, *, dataset_id: str
+    layout: cache.CacheLayout, fingerprint: str, *, dataset_id: str, locked: bool = False
 ) -> LoadedDataset | None:
+    before = None if locked else _read_manifest_bytes(layout, fingerprint)
     try:
         return _load_processed(layout, fingerprint)
     except ManifestError as e:
@@ -503,7 +511,14 @@ def _load_processed_or_purge(
             fingerprint,
             e,
         )
-        cache.purge_fingerprint(layout, fingerprint)
+        if locked:
+            cache.purge_fingerprint(layout, fingerprint)
+            return None
+        # Another process may be replacing the entry: never remove what it is writing.
+        with cache.cache_lock(layout, fingerprint):
+            if _read_manifest_bytes(layout, fingerprint) != before:
+                return _load_processed(layout, fingerprint)
+            cache.purge_fingerprint(layout, fingerprint)
         return None
 
 
-- 
2.43.0


From 03e5dba947f1b805a3f77574b1fe013b194dc3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 06/43] fix: a dataset manifest is written atomically

---
 src/modssc/data_loader/manifest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modssc/data_loader/manifest.py b/src/modssc/data_loader/manifest.py
index fdc2ff2..052d0c6 100644
--- a/src/modssc/data_loader/manifest.py
+++ b/src/modssc/data_loader/manifest.py
@@ -11,6 +11,7 @@ from typing import Any
 
 from modssc.data_loader.storage.json import to_jsonable as _jsonable
 from modssc.data_loader.types import DatasetIdentity, LoadedDataset
+from modssc.utils.io import atomic_write_text
 
 
 def utc_now_iso() -> str:
@@ -112,8 +113,8 @@ def build_manifest(
 
 
 def write_manifest(path: Path, manifest: Manifest) -> None:
-    path.parent.mkdir(parents=True, exist_ok=True)
-    path.write_text(manifest.to_json() + "\n", encoding="utf-8")
+    # A manifest marks its entry as complete: it appears as a whole or not at all.
+    atomic_write_text(path, manifest.to_json() + "\n")
 
 
 def read_manifest(path: Path) -> Manifest:
-- 
2.43.0


From 4e447ebce2d66162203052adee029fbdc4b74217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:01 +0000
Subject: [PATCH 07/43] fix: every artifact a preprocess step reads is part of
 its cache key

---
 src/modssc/preprocess/catalog.py           | 14 +++++++-------
 src/modssc/preprocess/services/pipeline.py | 17 +++++++++++++----
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/modssc/preprocess/catalog.py b/src/modssc/preprocess/catalog.py
index 48ee9d1..cd75428 100644
--- a/src/modssc/preprocess/catalog.py
+++ b/src/modssc/preprocess/catalog.py
@@ -11,7 +11,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Ensure numeric arrays are 2D (n_samples, n_features) and store as features.X.",
         required_extra=None,
         modalities=(),
-        consumes=("raw.X",),
+        consumes=("raw.X", "features.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -113,7 +113,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Standardize features by removing the mean and scaling to unit variance.",
         required_extra="preprocess-sklearn",
         modalities=("tabular",),
-        consumes=("features.X",),
+        consumes=("features.X", "raw.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -123,7 +123,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Impute missing values using mean/median/etc.",
         required_extra="preprocess-sklearn",
         modalities=("tabular",),
-        consumes=("features.X",),
+        consumes=("features.X", "raw.X"),
         produces=("features.X",),
     ),
     # Text
@@ -287,7 +287,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Create uniform edge weights if missing.",
         required_extra=None,
         modalities=("graph",),
-        consumes=("graph.edge_index",),
+        consumes=("graph.edge_index", "graph.edge_weight"),
         produces=("graph.edge_weight",),
     ),
     StepSpec(
@@ -317,7 +317,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Pack X and edge_index into a dict for Inductive GNNs.",
         required_extra=None,
         modalities=("graph",),
-        consumes=("graph.edge_index", "features.X"),
+        consumes=("graph.edge_index", "graph.edge_weight", "features.X", "raw.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -327,7 +327,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Learn DGI embeddings from graph edges and write features.X.",
         required_extra="transductive-torch",
         modalities=("graph",),
-        consumes=("graph.edge_index", "features.X", "raw.X"),
+        consumes=("graph.edge_index", "graph.edge_weight", "features.X", "raw.X"),
         produces=("features.X",),
     ),
     # Labels
@@ -368,7 +368,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Convert raw.y to a torch tensor and store as labels.y.",
         required_extra="inductive-torch",
         modalities=(),
-        consumes=("raw.y",),
+        consumes=("raw.y", "labels.y"),
         produces=("labels.y",),
     ),
 )
diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 5567758..6216838 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -323,6 +323,15 @@ def _final_keep_keys(
     return keep
 
 
+def _step_inputs(step: ResolvedStep) -> tuple[str, ...]:
+    """Every artifact a step may read: part of its cache key, and kept until it has run."""
+    keys = [*step.spec.consumes, *_IMPLICIT_CONSUMES.get(step.step_id, ())]
+    input_key = step.params.get("input_key")
+    if isinstance(input_key, str):
+        keys.append(input_key)
+    return tuple(dict.fromkeys(keys))
+
+
 def _build_purge_keep_sets(
     steps: tuple[ResolvedStep, ...], *, output_key: str, initial_keys: set[str]
 ) -> list[set[str]]:
@@ -331,8 +340,7 @@ def _build_purge_keep_sets(
     for i in range(len(steps) - 1, -1, -1):
         keep_sets[i] = set(required)
         step = steps[i]
-        required.update(step.spec.consumes)
-        required.update(_IMPLICIT_CONSUMES.get(step.step_id, ()))
+        required.update(_step_inputs(step))
     return keep_sets
 
 
@@ -513,9 +521,10 @@ def preprocess(
         )
 
         # Compute step fingerprint with input provenance.
-        inputs_train = {k: prov_train.get(k) for k in spec.consumes if k in prov_train}
+        step_inputs = _step_inputs(step)
+        inputs_train = {k: prov_train.get(k) for k in step_inputs if k in prov_train}
         inputs_test = (
-            {k: prov_test.get(k) for k in spec.consumes if k in prov_test} if test_store else {}
+            {k: prov_test.get(k) for k in step_inputs if k in prov_test} if test_store else {}
         )
         step_fp = fingerprint(
             {
-- 
2.43.0


From 4c2d537d60f242c8703ca75ac8872d703bb1e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:33 +0000
Subject: [PATCH 08/43] fix: values in the preprocess cache are replaced as a
 whole, not overwritten in place

---
 src/modssc/preprocess/cache.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index 7f95172..9454834 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import contextlib
 import logging
 import os
+import tempfile
+from collections.abc import Callable
 from dataclasses import dataclass
 from pathlib import Path
 from typing import Any
@@ -101,12 +103,28 @@ def _save_json(path: Path, payload: Any, *, extra: dict[str, Any] | None = None)
     return desc
 
 
+def _write_file(path: Path, write: Callable[[Path], Any]) -> None:
+    """Write a file as a whole: readers of a shared cache never see it half-written."""
+    fd, name = tempfile.mkstemp(dir=str(path.parent), suffix=path.suffix)
+    os.close(fd)
+    tmp_path = Path(name)
+    try:
+        write(tmp_path)
+        tmp_path.replace(path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            tmp_path.unlink()
+        raise
+
+
 def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
     """Save a value to disk and return a small descriptor for the manifest."""
     if isinstance(value, np.ndarray):
         if value.dtype == object:
             if int(value.size) > OBJECT_JSON_MAX_ITEMS:
-                np.save(path.with_suffix(".npy"), value, allow_pickle=True)
+                _write_file(
+                    path.with_suffix(".npy"), lambda p: np.save(p, value, allow_pickle=True)
+                )
                 return {
                     "type": "npy",
                     "path": path.with_suffix(".npy").name,
@@ -117,7 +135,7 @@ def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
             except TypeError:
                 return None
             return _save_json(path, payload, extra={"format": "ndarray", "dtype": "object"})
-        np.save(path.with_suffix(".npy"), value, allow_pickle=False)
+        _write_file(path.with_suffix(".npy"), lambda p: np.save(p, value, allow_pickle=False))
         return {"type": "npy", "path": path.with_suffix(".npy").name}
 
     if _is_torch_tensor(value):
@@ -128,7 +146,7 @@ def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
             arr = arr.cpu()
         try:
             arr_np = arr.numpy() if hasattr(arr, "numpy") else np.asarray(arr)
-            np.save(path.with_suffix(".npy"), arr_np, allow_pickle=False)
+            _write_file(path.with_suffix(".npy"), lambda p: np.save(p, arr_np, allow_pickle=False))
             return {
                 "type": "torch_npy",
                 "path": path.with_suffix(".npy").name,
@@ -137,7 +155,7 @@ def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
             }
         except Exception:
             torch = _require_torch()
-            torch.save(value, path.with_suffix(".pt"))
+            _write_file(path.with_suffix(".pt"), lambda p: torch.save(value, p))
             return {
                 "type": "torch_pt",
                 "path": path.with_suffix(".pt").name,
@@ -165,7 +183,7 @@ def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
             raise OptionalDependencyError(
                 extra="preprocess-sklearn", purpose="scipy sparse IO"
             ) from e
-        sparse.save_npz(path.with_suffix(".npz"), value)
+        _write_file(path.with_suffix(".npz"), lambda p: sparse.save_npz(p, value))
         return {"type": "npz", "path": path.with_suffix(".npz").name}
 
     return None
-- 
2.43.0


From 67d2754cea0db7731c1b561b069627b4bec57c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:33 +0000
Subject: [PATCH 09/43] fix: object arrays come back from the preprocess cache
 with their items and shape

---
 src/modssc/preprocess/cache.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index 9454834..cd8a5b7 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -117,11 +117,18 @@ def _write_file(path: Path, write: Callable[[Path], Any]) -> None:
         raise
 
 
+_JSON_SCALARS = (str, int, float, bool, type(None))
+
+
+def _json_keeps_items(value: np.ndarray) -> bool:
+    return value.size > 0 and all(type(item) in _JSON_SCALARS for item in value.flat)
+
+
 def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
     """Save a value to disk and return a small descriptor for the manifest."""
     if isinstance(value, np.ndarray):
         if value.dtype == object:
-            if int(value.size) > OBJECT_JSON_MAX_ITEMS:
+            if int(value.size) > OBJECT_JSON_MAX_ITEMS or not _json_keeps_items(value):
                 _write_file(
                     path.with_suffix(".npy"), lambda p: np.save(p, value, allow_pickle=True)
                 )
-- 
2.43.0


From 83b811830580d4541267726432a9330dd6ea1f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:26 +0000
Subject: [PATCH 10/43] fix: an unreadable value in the preprocess cache is a
 miss, not an error

---
 src/modssc/preprocess/cache.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index cd8a5b7..f471f9e 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -317,7 +317,7 @@ class CacheManager:
         payload = dict(manifest)
         if manifest_path.exists():
             try:
-                payload = json_load(manifest_path.read_text(encoding="utf-8"))
+                payload = json_load(_read_manifest(manifest_path))
             except PreprocessCacheError as e:
                 logger.warning(
                     "Resetting corrupt preprocess manifest: step=%s split=%s error=%s",
@@ -341,8 +341,7 @@ class CacheManager:
         if not manifest_path.exists():
             raise PreprocessCacheError(f"Missing cache manifest for step {step_fingerprint}")
 
-        manifest = manifest_path.read_text()
-        data = json_load(manifest)
+        data = json_load(_read_manifest(manifest_path))
         saved = data.get("saved", {}).get(split, {})
         if not isinstance(saved, dict):
             raise PreprocessCacheError("Invalid cache manifest structure")
@@ -350,10 +349,23 @@ class CacheManager:
         split_path = self.split_dir(step_fingerprint, split)
         for key, desc in saved.items():
             if isinstance(desc, dict):
-                out[str(key)] = _load_value(split_path, desc)
+                try:
+                    out[str(key)] = _load_value(split_path, desc)
+                except (OptionalDependencyError, PreprocessCacheError):
+                    raise
+                except Exception as e:
+                    # Lost, truncated or otherwise unreadable: a miss, to be computed again.
+                    raise PreprocessCacheError(f"Failed to load cached value {key!r}: {e}") from e
         return out
 
 
+def _read_manifest(path: Path) -> str:
+    try:
+        return path.read_text(encoding="utf-8")
+    except (OSError, UnicodeDecodeError) as e:
+        raise PreprocessCacheError(f"Unreadable cache manifest: {path}") from e
+
+
 def json_load(text: str) -> dict[str, Any]:
     import json
 
-- 
2.43.0


From 2b5fb4109f2a9bb016b505a69aaaa6505494c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:14 +0000
Subject: [PATCH 11/43] fix: the test split of a random preprocess step no
 longer depends on the cache holding the train split

---
 src/modssc/preprocess/services/pipeline.py | 51 +++++++++++-----------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 6216838..cd8e5c3 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -270,6 +270,21 @@ def _cache_outputs_complete(outputs: dict[str, Any], produces: tuple[str, ...])
     return expected.issubset(outputs.keys())
 
 
+def _load_cached_outputs(
+    cm: CacheManager | None, step_fp: str, step_id: str, produces: tuple[str, ...], *, split: str
+) -> dict[str, Any] | None:
+    if cm is None or not cm.has_step_outputs(step_fp, split=split):
+        return None
+    try:
+        outputs = cm.load_step_outputs(step_fingerprint=step_fp, split=split)
+        if not _cache_outputs_complete(outputs, produces):
+            raise PreprocessCacheError(f"Incomplete cached outputs for step {step_id!r} ({split})")
+        return outputs
+    except PreprocessCacheError as e:
+        logger.warning("Preprocess cache miss for %s (%s): %s", step_id, split, e)
+        return None
+
+
 def _dataset_fingerprint(dataset: LoadedDataset) -> str:
     fp = dataset.meta.get("dataset_fingerprint") if hasattr(dataset, "meta") else None
     if isinstance(fp, str) and fp:
@@ -556,19 +571,16 @@ def preprocess(
             step_obj.fit(train_store, fit_indices=np.asarray(fit_indices, dtype=np.int64), rng=rng)
 
         # Load from cache if available, otherwise compute and save.
-        produced_train: dict[str, Any] | None = None
-        train_from_cache = False
-        if cm is not None and cm.has_step_outputs(step_fp, split="train"):
-            try:
-                produced_train = cm.load_step_outputs(step_fingerprint=step_fp, split="train")
-                if not _cache_outputs_complete(produced_train, spec.produces):
-                    raise PreprocessCacheError(
-                        f"Incomplete cached outputs for step {step_id!r} (train)"
-                    )
-                train_from_cache = True
-            except PreprocessCacheError as e:
-                logger.warning("Preprocess cache miss for %s (train): %s", step_id, e)
-                produced_train = None
+        produced_train = _load_cached_outputs(cm, step_fp, step_id, spec.produces, split="train")
+        produced_test: dict[str, Any] | None = None
+        if test_store is not None:
+            produced_test = _load_cached_outputs(cm, step_fp, step_id, spec.produces, split="test")
+            if produced_train is None or produced_test is None:
+                # Both splits draw from one generator: cached outputs of only one of them
+                # would leave it in a different state for the other.
+                produced_train = produced_test = None
+        train_from_cache = produced_train is not None
+        test_from_cache = produced_test is not None
         if produced_train is None:
             produced_train = step_obj.transform(train_store, rng=rng)
             if not isinstance(produced_train, dict):
@@ -604,20 +616,7 @@ def preprocess(
             perf_counter() - step_start,
         )
 
-        produced_test: dict[str, Any] | None = None
-        test_from_cache = False
         if test_store is not None:
-            if cm is not None and cm.has_step_outputs(step_fp, split="test"):
-                try:
-                    produced_test = cm.load_step_outputs(step_fingerprint=step_fp, split="test")
-                    if not _cache_outputs_complete(produced_test, spec.produces):
-                        raise PreprocessCacheError(
-                            f"Incomplete cached outputs for step {step_id!r} (test)"
-                        )
-                    test_from_cache = True
-                except PreprocessCacheError as e:
-                    logger.warning("Preprocess cache miss for %s (test): %s", step_id, e)
-                    produced_test = None
             if produced_test is None:
                 produced_test = step_obj.transform(test_store, rng=rng)
                 if not isinstance(produced_test, dict):
-- 
2.43.0


From 24174c63213d18a346c31769b0fa3a2aefef6a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:14 +0000
Subject: [PATCH 12/43] fix: graph.node2vec initialises its embeddings from its
 seed

---
 src/modssc/preprocess/steps/graph/node2vec.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/modssc/preprocess/steps/graph/node2vec.py b/src/modssc/preprocess/steps/graph/node2vec.py
index 071920e..f084b0d 100644
--- a/src/modssc/preprocess/steps/graph/node2vec.py
+++ b/src/modssc/preprocess/steps/graph/node2vec.py
@@ -97,8 +97,13 @@ class GraphNode2VecStep:
         torch = require(module="torch", extra="transductive-torch", purpose="graph.node2vec")
         dev_name = resolve_device_name(self.device, torch=torch) or "cpu"
         device = torch.device(dev_name)
-        emb = torch.nn.Embedding(n_nodes, int(self.embedding_dim)).to(device)
-        ctx = torch.nn.Embedding(n_nodes, int(self.embedding_dim)).to(device)
+        emb = torch.nn.Embedding(n_nodes, int(self.embedding_dim))
+        ctx = torch.nn.Embedding(n_nodes, int(self.embedding_dim))
+        for table in (emb, ctx):
+            # torch draws these from its global generator: redraw them from the step's seed
+            weight = table.weight.detach().numpy()
+            weight[...] = np_rng.standard_normal(weight.shape)
+        emb, ctx = emb.to(device), ctx.to(device)
         optimizer = torch.optim.Adam(
             list(emb.parameters()) + list(ctx.parameters()), lr=float(self.embed_lr)
         )
-- 
2.43.0


From a6acdb71fa371789142b654eca51c351465362af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 13/43] fix: graph.dgi seeds torch before its networks draw
 their initial weights

---
 src/modssc/preprocess/steps/graph/dgi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modssc/preprocess/steps/graph/dgi.py b/src/modssc/preprocess/steps/graph/dgi.py
index f3b18d1..f17a2e8 100644
--- a/src/modssc/preprocess/steps/graph/dgi.py
+++ b/src/modssc/preprocess/steps/graph/dgi.py
@@ -145,6 +145,9 @@ def _train_dgi(
         edge_index_t, edge_weight_t = _add_self_loops(edge_index_t, edge_weight_t, n_nodes=n_nodes)
     edge_weight_t = _normalize_edge_weight(edge_index_t, edge_weight_t, n_nodes=n_nodes)
 
+    # Before the modules are built: their initial weights come from torch's global generator.
+    torch.manual_seed(int(seed))
+
     encoder = _GCNEncoder(
         X_t.shape[1],
         hidden=int(hidden_dim),
@@ -158,8 +161,6 @@ def _train_dgi(
     )
     bce = torch.nn.BCEWithLogitsLoss()
 
-    torch.manual_seed(int(seed))
-
     for _epoch in range(int(unsup_epochs)):
         encoder.train()
         disc.train()
-- 
2.43.0


From 30228db7ecca23ee17156d91190ce879183f6582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 14/43] fix: purge_unused_artifacts no longer fails once raw.X
 or raw.y has been purged

---
 src/modssc/preprocess/services/pipeline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index cd8e5c3..fd553d8 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -681,8 +681,8 @@ def preprocess(
 
     # Choose final X for downstream training.
     out_key = plan.output_key
-    X_train = train_store.get(out_key, train_store.require("raw.X"))
-    y_train = train_store.get("labels.y", train_store.require("raw.y"))
+    X_train = train_store.require(out_key if train_store.has(out_key) else "raw.X")
+    y_train = train_store.require("labels.y" if train_store.has("labels.y") else "raw.y")
 
     edges_train = train_store.get("graph.edge_index", dataset.train.edges)
     if train_store.has("graph.edge_weight"):
@@ -695,8 +695,8 @@ def preprocess(
 
     test_out = None
     if dataset.test is not None and test_store is not None:
-        X_test = test_store.get(out_key, test_store.require("raw.X"))
-        y_test = test_store.get("labels.y", test_store.require("raw.y"))
+        X_test = test_store.require(out_key if test_store.has(out_key) else "raw.X")
+        y_test = test_store.require("labels.y" if test_store.has("labels.y") else "raw.y")
         edges_test = test_store.get("graph.edge_index", dataset.test.edges)
         if test_store.has("graph.edge_weight"):
             edges_test = {
-- 
2.43.0


From cb4d2cc1bd56055898db6bf6ce748d0603c87628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 15/43] fix: preprocessing whose output is not numeric no
 longer fails in the finiteness check

---
 src/modssc/preprocess/services/pipeline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index fd553d8..9e7ca8d 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -261,6 +261,8 @@ def _maybe_warn_nonfinite(name: str, value: Any, *, max_elems: int = 1_000_000)
         return
     if int(value.size) > max_elems:
         return
+    if not np.issubdtype(value.dtype, np.number):  # raw text, encoded labels, object arrays
+        return
     if not np.isfinite(value).all():
         logger.warning("Non-finite values detected in %s", name)
 
-- 
2.43.0


From 2e779a3acd1f98f4e8a11151a0de32b4d5f96c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:34 +0000
Subject: [PATCH 16/43] fix: preprocessing an already preprocessed dataset no
 longer shares cache entries across upstream plans

---
 src/modssc/preprocess/services/pipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 9e7ca8d..f57e307 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -290,6 +290,10 @@ def _load_cached_outputs(
 def _dataset_fingerprint(dataset: LoadedDataset) -> str:
     fp = dataset.meta.get("dataset_fingerprint") if hasattr(dataset, "meta") else None
     if isinstance(fp, str) and fp:
+        # Output of an earlier preprocessing: its content depends on that plan, seed and fit too.
+        upstream = dataset.meta.get("preprocess_fingerprint")
+        if isinstance(upstream, str) and upstream:
+            return fingerprint({"dataset_fp": fp, "preprocess_fp": upstream}, prefix="dataset:")
         return fp
 
     # Fallback: structural fingerprint only (no full data hashing).
-- 
2.43.0


From 56a5595d0d54bbd1733cb65c399f48e97ab21f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:47 +0000
Subject: [PATCH 17/43] fix: graph and view cache entries are written whole and
 invalidated before they are cleared

---
 src/modssc/graph/cache.py | 60 +++++++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 8 deletions(-)

diff --git a/src/modssc/graph/cache.py b/src/modssc/graph/cache.py
index b8d4694..c4d56aa 100644
--- a/src/modssc/graph/cache.py
+++ b/src/modssc/graph/cache.py
@@ -5,6 +5,7 @@ import json
 import os
 import shutil
 import tempfile
+from collections.abc import Callable
 from dataclasses import dataclass
 from pathlib import Path
 from typing import Any
@@ -21,6 +22,9 @@ GRAPH_VIEWS_CACHE_ENV = "MODSSC_GRAPH_VIEWS_CACHE_DIR"
 CACHE_ROOT_ENV = "MODSSC_CACHE_ROOT"
 
 
+_TMP_SUFFIX = ".tmp"
+
+
 class GraphCacheError(RuntimeError):
     """Raised when a graph cache entry is missing or corrupted."""
 
@@ -76,11 +80,33 @@ def _safe_write_json(path: Path, payload: dict[str, Any]) -> None:
             pass
 
 
+def _write_file(path: Path, write: Callable[[Path], Any]) -> None:
+    """Write a file as a whole: readers of a shared cache never see it half-written."""
+    fd, name = tempfile.mkstemp(
+        prefix=path.name, suffix=_TMP_SUFFIX + path.suffix, dir=str(path.parent)
+    )
+    os.close(fd)
+    tmp = Path(name)
+    try:
+        write(tmp)
+        os.replace(tmp, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            tmp.unlink()
+        raise
+
+
+def _remove_entry_file(p: Path) -> None:
+    """Remove a file of a cache entry; temporary files belong to whoever is writing them."""
+    if _TMP_SUFFIX not in p.suffixes:
+        p.unlink(missing_ok=True)
+
+
 def _safe_read_json(path: Path) -> dict[str, Any]:
     try:
         with open(path, encoding="utf-8") as f:
             data = json.load(f)
-    except json.JSONDecodeError as e:
+    except (OSError, ValueError) as e:
         raise GraphCacheError(f"Invalid json payload in {path}: {e}") from e
     if not isinstance(data, dict):
         raise GraphCacheError(f"Invalid json payload in {path}")
@@ -124,13 +150,16 @@ class GraphCache(_FingerprintCacheOps):
     def _clear_entry_dir(self, d: Path) -> None:
         if not d.exists():
             return
+        # Without its manifest a half-removed entry does not count as cached.
+        with contextlib.suppress(FileNotFoundError):
+            (d / "manifest.json").unlink()
         # Only remove files we create, keep directory (for resumable work dirs).
         for p in d.iterdir():
             if p.is_dir():
                 shutil.rmtree(p, ignore_errors=True)
             else:
                 with contextlib.suppress(FileNotFoundError):
-                    p.unlink()
+                    _remove_entry_file(p)
 
     def save(
         self,
@@ -156,18 +185,23 @@ class GraphCache(_FingerprintCacheOps):
                 s = i * shard_size
                 e = min(E, (i + 1) * shard_size)
                 shard_path = d / f"edges_{i:04d}.npz"
-                payload = {"edge_index": np.asarray(graph.edge_index[:, s:e], dtype=np.int64)}
+                payload = {
+                    "edge_index": np.asarray(graph.edge_index[:, s:e], dtype=np.int64),
+                    "start": np.asarray(s, dtype=np.int64),
+                }
                 if graph.edge_weight is not None:
                     payload["edge_weight"] = np.asarray(graph.edge_weight[s:e], dtype=np.float32)
-                np.savez_compressed(shard_path, **payload)
+                _write_file(shard_path, lambda p, a=payload: np.savez_compressed(p, **a))
 
             storage = {
                 "edge": {"kind": "sharded", "num_shards": n_shards, "shard_size": shard_size}
             }
         else:
-            np.save(d / "edge_index.npy", np.asarray(graph.edge_index, dtype=np.int64))
+            edge_index = np.asarray(graph.edge_index, dtype=np.int64)
+            _write_file(d / "edge_index.npy", lambda p: np.save(p, edge_index))
             if graph.edge_weight is not None:
-                np.save(d / "edge_weight.npy", np.asarray(graph.edge_weight, dtype=np.float32))
+                edge_weight = np.asarray(graph.edge_weight, dtype=np.float32)
+                _write_file(d / "edge_weight.npy", lambda p: np.save(p, edge_weight))
             storage = {"edge": {"kind": "single"}}
 
         payload = {**manifest, **graph.to_dict(), "_storage": storage}
@@ -206,6 +240,8 @@ class GraphCache(_FingerprintCacheOps):
                 if "edge_index" not in npz:
                     raise GraphCacheError(f"Shard missing edge_index: {shard_path}")
                 idx = np.asarray(npz["edge_index"], dtype=np.int64)
+                if "start" in npz and int(npz["start"]) != sum(shard_lengths):
+                    raise GraphCacheError(f"Shard of another shard size: {shard_path}")
                 shard_lengths.append(int(idx.shape[1]))
                 present = "edge_weight" in npz
                 if has_w is None:
@@ -258,6 +294,12 @@ class GraphCache(_FingerprintCacheOps):
         else:
             edge_index, edge_weight = self._load_edges_single(d)
 
+        # Files of another save (killed, or running at the same time) do not make up an entry.
+        expected = (manifest.get("n_edges"), manifest.get("has_edge_weight"))
+        found = (int(edge_index.shape[1]), edge_weight is not None)
+        if any(e is not None and e != f for e, f in zip(expected, found, strict=True)):
+            raise GraphCacheError(f"Cached edges do not match their manifest: {d}")
+
         n_nodes = int(manifest.get("n_nodes"))
         directed = bool(manifest.get("directed", False))
         meta = dict(manifest.get("meta", {}))
@@ -301,13 +343,15 @@ class ViewsCache(_FingerprintCacheOps):
         d = self.entry_dir(fingerprint)
         d.mkdir(parents=True, exist_ok=True)
         if overwrite and d.exists():
+            # Without its manifest a half-removed entry does not count as cached.
+            (d / "manifest.json").unlink(missing_ok=True)
             for p in d.iterdir():
                 if p.is_file():
-                    p.unlink()
+                    _remove_entry_file(p)
 
         # store views as a single compressed file
         arrays = {k: np.asarray(v) for k, v in views.views.items()}
-        np.savez_compressed(d / "views.npz", **arrays)
+        _write_file(d / "views.npz", lambda p: np.savez_compressed(p, **arrays))
 
         payload = dict(manifest)
         payload["meta"] = dict(views.meta)
-- 
2.43.0


From 225bc61d4692b92f7edfa2957aee28c6db0e8dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 18/43] fix: an unreadable graph or views cache entry is a
 miss, not an error

---
 src/modssc/graph/cache.py                         | 15 +++++++++++++--
 src/modssc/graph/construction/services/service.py | 11 +++++++++--
 src/modssc/graph/featurization/api.py             | 10 ++++++++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/modssc/graph/cache.py b/src/modssc/graph/cache.py
index c4d56aa..7397dff 100644
--- a/src/modssc/graph/cache.py
+++ b/src/modssc/graph/cache.py
@@ -278,6 +278,14 @@ class GraphCache(_FingerprintCacheOps):
         return edge_index, edge_weight
 
     def load(self, fingerprint: str) -> tuple[GraphArtifact, dict[str, Any]]:
+        try:
+            return self._load(fingerprint)
+        except GraphCacheError:
+            raise
+        except Exception as e:
+            raise GraphCacheError(f"Unreadable cached graph {fingerprint}: {e}") from e
+
+    def _load(self, fingerprint: str) -> tuple[GraphArtifact, dict[str, Any]]:
         d = self.entry_dir(fingerprint)
         manifest_path = d / "manifest.json"
         if not manifest_path.exists():
@@ -378,8 +386,11 @@ class ViewsCache(_FingerprintCacheOps):
         if not views_path.exists():
             raise GraphCacheError("Missing cached views.npz")
 
-        with np.load(views_path, allow_pickle=False) as npz:
-            views_dict = {k: np.asarray(npz[k]) for k in npz.files}
+        try:
+            with np.load(views_path, allow_pickle=False) as npz:
+                views_dict = {k: np.asarray(npz[k]) for k in npz.files}
+        except Exception as e:
+            raise GraphCacheError(f"Unreadable cached views {fingerprint}: {e}") from e
 
         meta = dict(manifest.get("meta", {}))
         views = DatasetViews(views=views_dict, y=np.asarray(y), masks=dict(masks), meta=meta)
diff --git a/src/modssc/graph/construction/services/service.py b/src/modssc/graph/construction/services/service.py
index 8d3e778..84fd8f7 100644
--- a/src/modssc/graph/construction/services/service.py
+++ b/src/modssc/graph/construction/services/service.py
@@ -8,7 +8,7 @@ from typing import Any
 import numpy as np
 
 from ...artifacts import GraphArtifact
-from ...cache import GraphCache
+from ...cache import GraphCache, GraphCacheError
 from ...errors import GraphValidationError
 from ...fingerprint import fingerprint_array, fingerprint_dict
 from ...specs import GraphBuilderSpec
@@ -106,8 +106,15 @@ def build_graph(
         edge_shard_size=edge_shard_size,
     )
 
+    cached: GraphArtifact | None = None
     if cache and cache_store.exists(g_fp):
-        graph, _ = cache_store.load(g_fp)
+        try:
+            cached, _ = cache_store.load(g_fp)
+        except GraphCacheError as e:
+            logger.warning("Graph cache miss: fingerprint=%s error=%s", g_fp, e)
+
+    if cached is not None:
+        graph = cached
         logger.info(
             "Graph cached: fingerprint=%s n_nodes=%s n_edges=%s duration_s=%.3f",
             g_fp,
diff --git a/src/modssc/graph/featurization/api.py b/src/modssc/graph/featurization/api.py
index 893f695..90b10a8 100644
--- a/src/modssc/graph/featurization/api.py
+++ b/src/modssc/graph/featurization/api.py
@@ -7,7 +7,7 @@ from time import perf_counter
 import numpy as np
 
 from ..artifacts import DatasetViews, NodeDataset
-from ..cache import ViewsCache
+from ..cache import GraphCacheError, ViewsCache
 from ..fingerprint import fingerprint_dict
 from ..specs import GraphFeaturizerSpec
 from ..validation import validate_featurizer_spec, validate_view_matrix
@@ -58,8 +58,14 @@ def graph_to_views(
         root=Path(cache_dir) if cache_dir is not None else ViewsCache.default().root
     )
 
+    cached: DatasetViews | None = None
     if cache_enabled and cache_store.exists(views_fp):
-        cached, _ = cache_store.load(views_fp, y=np.asarray(dataset.y), masks=dataset.masks)
+        try:
+            cached, _ = cache_store.load(views_fp, y=np.asarray(dataset.y), masks=dataset.masks)
+        except GraphCacheError as e:
+            logger.warning("Graph views cache miss: fingerprint=%s error=%s", views_fp, e)
+
+    if cached is not None:
         logger.info(
             "Graph views cached: fingerprint=%s views=%s duration_s=%.3f",
             views_fp,
-- 
2.43.0


From ce52cfce2e9a70a22e56908dc3f4485c0431a2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 19/43] fix: a damaged or vanished work file of a resumable
 graph build is computed again

---
 .../construction/backends/numpy_backend.py    | 46 ++++++++++++++-----
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/modssc/graph/construction/backends/numpy_backend.py b/src/modssc/graph/construction/backends/numpy_backend.py
index 9d2bd4e..4b26d6c 100644
--- a/src/modssc/graph/construction/backends/numpy_backend.py
+++ b/src/modssc/graph/construction/backends/numpy_backend.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import contextlib
+import logging
 import os
 import tempfile
 from pathlib import Path
@@ -7,6 +9,8 @@ from typing import Literal
 
 import numpy as np
 
+logger = logging.getLogger(__name__)
+
 Metric = Literal["cosine", "euclidean"]
 
 
@@ -37,6 +41,28 @@ def _load_npz(path: Path) -> dict[str, np.ndarray]:
         return {k: np.asarray(npz[k]) for k in npz.files}
 
 
+def _load_part(path: Path | None) -> tuple[np.ndarray, np.ndarray, np.ndarray] | None:
+    """Return the edges of a chunk computed by an earlier run, or None to compute it (again)."""
+    if path is None or not path.exists():
+        return None
+    try:
+        data = _load_npz(path)
+        return (
+            np.asarray(data["src"], dtype=np.int64),
+            np.asarray(data["dst"], dtype=np.int64),
+            np.asarray(data["dist"], dtype=np.float32),
+        )
+    except Exception as e:
+        logger.warning("Graph chunk is computed again: path=%s error=%s", path, e)
+        return None
+
+
+def _save_part(path: Path, **arrays: np.ndarray) -> None:
+    # The work dir disappears when another process finishes the same graph first.
+    with contextlib.suppress(FileNotFoundError):
+        _save_npz_atomic(path, **arrays)
+
+
 def knn_edges_numpy(
     X: np.ndarray,
     *,
@@ -103,11 +129,9 @@ def knn_edges_numpy(
         end = min(n, start + int(chunk_size))
         part_path = wd / f"knn_{start}_{end}.npz" if wd is not None else None
 
-        if part_path is not None and resume and part_path.exists():
-            data = _load_npz(part_path)
-            src = np.asarray(data["src"], dtype=np.int64)
-            dst = np.asarray(data["dst"], dtype=np.int64)
-            dflat = np.asarray(data["dist"], dtype=np.float32)
+        part = _load_part(part_path) if resume else None
+        if part is not None:
+            src, dst, dflat = part
         else:
             Xi = Xn[start:end]
             if metric == "cosine":
@@ -158,7 +182,7 @@ def knn_edges_numpy(
                 dflat = dflat[keep]
 
             if part_path is not None:
-                _save_npz_atomic(part_path, src=src, dst=dst, dist=dflat)
+                _save_part(part_path, src=src, dst=dst, dist=dflat)
 
         if src.size:
             src_parts.append(src)
@@ -212,11 +236,9 @@ def epsilon_edges_numpy(
         end = min(n, start + int(chunk_size))
         part_path = wd / f"eps_{start}_{end}.npz" if wd is not None else None
 
-        if part_path is not None and resume and part_path.exists():
-            data = _load_npz(part_path)
-            src = np.asarray(data["src"], dtype=np.int64)
-            dst = np.asarray(data["dst"], dtype=np.int64)
-            dflat = np.asarray(data["dist"], dtype=np.float32)
+        part = _load_part(part_path) if resume else None
+        if part is not None:
+            src, dst, dflat = part
         else:
             Xi = Xn[start:end]
             if metric == "cosine":
@@ -255,7 +277,7 @@ def epsilon_edges_numpy(
                 dflat = np.asarray([], dtype=np.float32)
 
             if part_path is not None:
-                _save_npz_atomic(part_path, src=src, dst=dst, dist=dflat)
+                _save_part(part_path, src=src, dst=dst, dist=dflat)
 
         if src.size:
             src_parts.append(src)
-- 
2.43.0


From 476f3ed765e649f6a131c33459678ba500e83792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 20/43] fix: cached graph views are bound to the features they
 were computed from

---
 src/modssc/graph/featurization/api.py | 32 +++++++++++++++++++++------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/modssc/graph/featurization/api.py b/src/modssc/graph/featurization/api.py
index 90b10a8..0e60c20 100644
--- a/src/modssc/graph/featurization/api.py
+++ b/src/modssc/graph/featurization/api.py
@@ -8,7 +8,7 @@ import numpy as np
 
 from ..artifacts import DatasetViews, NodeDataset
 from ..cache import GraphCacheError, ViewsCache
-from ..fingerprint import fingerprint_dict
+from ..fingerprint import fingerprint_array, fingerprint_dict
 from ..specs import GraphFeaturizerSpec
 from ..validation import validate_featurizer_spec, validate_view_matrix
 from .views.attr import attr_view
@@ -18,9 +18,16 @@ from .views.struct import StructParams, struct_embeddings
 logger = logging.getLogger(__name__)
 
 
-def _views_fingerprint(*, graph_fingerprint: str, spec: GraphFeaturizerSpec, seed: int) -> str:
+def _views_fingerprint(
+    *,
+    graph_fingerprint: str,
+    features_fingerprint: str | None,
+    spec: GraphFeaturizerSpec,
+    seed: int,
+) -> str:
     payload = {
         "graph_fingerprint": graph_fingerprint,
+        "features_fingerprint": features_fingerprint,
         "spec": spec.to_dict(),
         "seed": int(seed),
     }
@@ -45,13 +52,23 @@ def graph_to_views(
         graph_fp = fingerprint_dict(
             {
                 "n_nodes": int(dataset.graph.n_nodes),
-                "edge_index": dataset.graph.edge_index[
-                    :2, : min(1000, dataset.graph.edge_index.shape[1])
-                ].tolist(),
+                "edge_index": fingerprint_array(dataset.graph.edge_index),
+                "edge_weight": (
+                    fingerprint_array(dataset.graph.edge_weight)
+                    if dataset.graph.edge_weight is not None
+                    else None
+                ),
             }
         )
 
-    views_fp = _views_fingerprint(graph_fingerprint=graph_fp, spec=spec, seed=int(seed))
+    # The graph says nothing about the attributes of this dataset.
+    uses_features = any(name in ("attr", "diffusion") for name in spec.views)
+    views_fp = _views_fingerprint(
+        graph_fingerprint=graph_fp,
+        features_fingerprint=fingerprint_array(dataset.X) if uses_features else None,
+        spec=spec,
+        seed=int(seed),
+    )
 
     cache_enabled = bool(spec.cache) if cache is None else bool(cache)
     cache_store = ViewsCache(
@@ -128,7 +145,8 @@ def graph_to_views(
         },
     )
 
-    if cache_enabled:
+    # Other array types (sparse, torch) would come back from the cache as numpy arrays.
+    if cache_enabled and all(isinstance(v, np.ndarray) for v in views.values()):
         manifest = {
             "fingerprint": views_fp,
             "graph_fingerprint": graph_fp,
-- 
2.43.0


From e36ad5963b6bd8c9f5f554eb9b46d3a12a364a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 21/43] fix: bench graphs over train+test no longer share a
 cache entry with graphs over train

---
 bench/orchestrators/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bench/orchestrators/graph.py b/bench/orchestrators/graph.py
index 9d282c3..bf0cf3f 100644
--- a/bench/orchestrators/graph.py
+++ b/bench/orchestrators/graph.py
@@ -84,6 +84,9 @@ def build(
 
     if X_test is not None:
         X = np.concatenate([_to_numpy(X_train), _to_numpy(X_test)], axis=0)
+        if dataset_fingerprint is not None:
+            # Not the graph of the training split alone: it needs a cache entry of its own.
+            dataset_fingerprint = f"{dataset_fingerprint}:train+test"
     else:
         X = _to_numpy(X_train)
     _LOGGER.debug("Graph features: shape=%s", tuple(np.asarray(X).shape))
-- 
2.43.0


From 688b850fbf97f5e95d0b77af83466b147c3ca9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 22/43] fix: concurrent graph builds survive the removal of the
 shared work directory

---
 .../graph/construction/backends/numpy_backend.py    | 13 +++++++++----
 src/modssc/graph/construction/builder.py            |  4 ++--
 src/modssc/graph/construction/services/service.py   |  1 -
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/modssc/graph/construction/backends/numpy_backend.py b/src/modssc/graph/construction/backends/numpy_backend.py
index 4b26d6c..391f435 100644
--- a/src/modssc/graph/construction/backends/numpy_backend.py
+++ b/src/modssc/graph/construction/backends/numpy_backend.py
@@ -57,9 +57,14 @@ def _load_part(path: Path | None) -> tuple[np.ndarray, np.ndarray, np.ndarray] |
         return None
 
 
-def _save_part(path: Path, **arrays: np.ndarray) -> None:
+def make_work_dir(path: Path) -> None:
     # The work dir disappears when another process finishes the same graph first.
-    with contextlib.suppress(FileNotFoundError):
+    with contextlib.suppress(FileNotFoundError, FileExistsError):
+        path.mkdir(parents=True, exist_ok=True)
+
+
+def _save_part(path: Path, **arrays: np.ndarray) -> None:
+    with contextlib.suppress(FileNotFoundError, FileExistsError):
         _save_npz_atomic(path, **arrays)
 
 
@@ -119,7 +124,7 @@ def knn_edges_numpy(
     # optional resumable storage
     wd = Path(work_dir) if work_dir is not None else None
     if wd is not None:
-        wd.mkdir(parents=True, exist_ok=True)
+        make_work_dir(wd)
 
     src_parts: list[np.ndarray] = []
     dst_parts: list[np.ndarray] = []
@@ -226,7 +231,7 @@ def epsilon_edges_numpy(
 
     wd = Path(work_dir) if work_dir is not None else None
     if wd is not None:
-        wd.mkdir(parents=True, exist_ok=True)
+        make_work_dir(wd)
 
     src_parts: list[np.ndarray] = []
     dst_parts: list[np.ndarray] = []
diff --git a/src/modssc/graph/construction/builder.py b/src/modssc/graph/construction/builder.py
index b264fa4..62c82eb 100644
--- a/src/modssc/graph/construction/builder.py
+++ b/src/modssc/graph/construction/builder.py
@@ -8,7 +8,7 @@ import numpy as np
 from ..errors import GraphValidationError
 from ..specs import GraphBuilderSpec
 from .backends.faiss_backend import FaissParams, knn_edges_faiss
-from .backends.numpy_backend import epsilon_edges_numpy, knn_edges_numpy
+from .backends.numpy_backend import epsilon_edges_numpy, knn_edges_numpy, make_work_dir
 from .backends.sklearn_backend import epsilon_edges_sklearn, knn_edges_sklearn
 from .schemes.anchor import AnchorParams, anchor_edges
 
@@ -46,7 +46,7 @@ def build_raw_edges(
 
     wd = Path(work_dir) if work_dir is not None else None
     if wd is not None:
-        wd.mkdir(parents=True, exist_ok=True)
+        make_work_dir(wd)
 
     if spec.scheme == "knn":
         if spec.k is None:
diff --git a/src/modssc/graph/construction/services/service.py b/src/modssc/graph/construction/services/service.py
index 84fd8f7..30deb05 100644
--- a/src/modssc/graph/construction/services/service.py
+++ b/src/modssc/graph/construction/services/service.py
@@ -128,7 +128,6 @@ def build_graph(
     work_dir: Path | None = None
     if cache and resume:
         work_dir = cache_store.entry_dir(g_fp) / "_work"
-        work_dir.mkdir(parents=True, exist_ok=True)
 
     # Build raw edges + distances
     logger.info(
-- 
2.43.0


From 0a338e7160146700cdbdf60bedbadb50c06baf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 23/43] fix: save splits atomically so a crash leaves a whole
 split or none

save_split wrote split.json and arrays.npz into the final directory one after
the other: a killed save left a directory that cannot be loaded but blocks
further saves, and an overwrite left the metadata of one split with the arrays
of another. A new split directory is now staged and renamed, and arrays.npz
carries the metadata so that one replace switches the split.
---
 src/modssc/sampling/storage.py | 53 +++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/src/modssc/sampling/storage.py b/src/modssc/sampling/storage.py
index b26bd72..54ae4b2 100644
--- a/src/modssc/sampling/storage.py
+++ b/src/modssc/sampling/storage.py
@@ -1,6 +1,10 @@
 from __future__ import annotations
 
 import json
+import os
+import shutil
+import tempfile
+import uuid
 from pathlib import Path
 
 import numpy as np
@@ -8,12 +12,25 @@ import numpy as np
 from modssc.sampling.result import SamplingResult
 from modssc.utils.io import atomic_write_text as _atomic_write_text
 
+# Copy of split.json inside arrays.npz: replacing that one file replaces the whole split.
+_META_KEY = "meta__json"
+
+
+def _write_files(out_dir: Path, text: str, arrays: dict[str, np.ndarray]) -> None:
+    meta = np.frombuffer(text.encode("utf-8"), dtype=np.uint8)
+    with tempfile.NamedTemporaryFile("wb", delete=False, dir=str(out_dir)) as tmp:
+        np.savez_compressed(tmp, **arrays, **{_META_KEY: meta})
+        tmp.flush()
+        os.fsync(tmp.fileno())
+    Path(tmp.name).replace(out_dir / "arrays.npz")
+    _atomic_write_text(out_dir / "split.json", text)
+
 
 def save_split(result: SamplingResult, out_dir: Path, *, overwrite: bool = False) -> Path:
     out_dir = out_dir.expanduser().resolve()
     if out_dir.exists() and not overwrite:
         raise FileExistsError(f"{out_dir} already exists, pass overwrite=True")
-    out_dir.mkdir(parents=True, exist_ok=True)
+    out_dir.parent.mkdir(parents=True, exist_ok=True)
 
     meta = {
         "schema_version": int(result.schema_version),
@@ -25,7 +42,7 @@ def save_split(result: SamplingResult, out_dir: Path, *, overwrite: bool = False
         "stats": dict(result.stats),
         "mode": "graph" if result.is_graph() else "inductive",
     }
-    _atomic_write_text(out_dir / "split.json", json.dumps(meta, indent=2, sort_keys=True) + "\n")
+    text = json.dumps(meta, indent=2, sort_keys=True) + "\n"
 
     arrays: dict[str, np.ndarray] = {}
     for k, v in result.indices.items():
@@ -33,22 +50,42 @@ def save_split(result: SamplingResult, out_dir: Path, *, overwrite: bool = False
     for k, v in result.masks.items():
         arrays[f"mask__{k}"] = np.asarray(v, dtype=bool)
 
-    np.savez_compressed(out_dir / "arrays.npz", **arrays)
+    if not out_dir.exists():
+        # a new split directory appears complete or not at all
+        staging = out_dir.with_name(f".{out_dir.name}.{uuid.uuid4().hex}")
+        staging.mkdir()
+        try:
+            _write_files(staging, text, arrays)
+            os.rename(staging, out_dir)
+            return out_dir
+        except OSError as exc:
+            if not out_dir.exists():
+                raise
+            if not overwrite:
+                raise FileExistsError(f"{out_dir} already exists, pass overwrite=True") from exc
+        finally:
+            shutil.rmtree(staging, ignore_errors=True)
+
+    _write_files(out_dir, text, arrays)
     return out_dir
 
 
 def load_split(dir_path: Path) -> SamplingResult:
     dir_path = dir_path.expanduser().resolve()
-    meta = json.loads((dir_path / "split.json").read_text(encoding="utf-8"))
-    npz = np.load(dir_path / "arrays.npz", allow_pickle=False)
+    with np.load(dir_path / "arrays.npz", allow_pickle=False) as npz:
+        arrays = {k: npz[k] for k in npz.files}
+    if _META_KEY in arrays:
+        meta = json.loads(arrays[_META_KEY].tobytes().decode("utf-8"))
+    else:
+        meta = json.loads((dir_path / "split.json").read_text(encoding="utf-8"))
 
     indices: dict[str, np.ndarray] = {}
     masks: dict[str, np.ndarray] = {}
-    for k in npz.files:
+    for k in arrays:
         if k.startswith("idx__"):
-            indices[k[len("idx__") :]] = np.asarray(npz[k], dtype=np.int64)
+            indices[k[len("idx__") :]] = np.asarray(arrays[k], dtype=np.int64)
         elif k.startswith("mask__"):
-            masks[k[len("mask__") :]] = np.asarray(npz[k], dtype=bool)
+            masks[k[len("mask__") :]] = np.asarray(arrays[k], dtype=bool)
 
     return SamplingResult(
         schema_version=int(meta["schema_version"]),
-- 
2.43.0


From f41595cdea78e575999c99f75596d4dcd6a3d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 24/43] fix: runs started in the same second claim their own
 run directory

---
 bench/context.py | 15 +++++++++++++--
 bench/main.py    |  9 ++++++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/bench/context.py b/bench/context.py
index 8bf4889..22e5a7d 100644
--- a/bench/context.py
+++ b/bench/context.py
@@ -23,6 +23,18 @@ def next_available_run_dir(path: Path) -> Path:
         suffix += 1
 
 
+def claim_run_dir(path: Path) -> Path:
+    """Create a run directory of its own, also when other runs start at the same time."""
+    while True:
+        candidate = next_available_run_dir(path)
+        candidate.parent.mkdir(parents=True, exist_ok=True)
+        try:
+            candidate.mkdir()
+        except FileExistsError:
+            continue
+        return candidate
+
+
 @dataclass
 class RunContext:
     name: str
@@ -65,8 +77,7 @@ class RunContext:
 
     def ensure_dirs(self) -> None:
         self.output_dir.mkdir(parents=True, exist_ok=True)
-        self.run_dir = next_available_run_dir(self.run_dir)
-        self.run_dir.mkdir(parents=True, exist_ok=False)
+        self.run_dir = claim_run_dir(self.run_dir)
 
     def write_config_copy(self, data: dict[str, Any]) -> None:
         dump_yaml(data, self.run_dir / "config.yaml")
diff --git a/bench/main.py b/bench/main.py
index 92c4335..7d31922 100644
--- a/bench/main.py
+++ b/bench/main.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import argparse
 import logging
+import os
 import traceback
 from collections.abc import Mapping
 from dataclasses import asdict, dataclass
@@ -22,7 +23,7 @@ from modssc.sampling.result import SamplingResult
 from modssc.transductive.registry import get_method_class as get_transductive_method_class
 from modssc.transductive.registry import get_method_info as get_transductive_method_info
 
-from .context import RunContext, next_available_run_dir
+from .context import RunContext, claim_run_dir
 from .errors import BenchRuntimeError, extract_error_code
 from .limits import apply_limits
 from .orchestrators import augmentation as aug_orch
@@ -515,13 +516,15 @@ def _sync_ctx_run_identity(ctx: RunContext, *, run_id: str) -> None:
     else:
         suffix = old_run_dir.name.rsplit("-", 1)[-1]
     desired_dir = ctx.output_dir / f"{ctx.name}-{run_id}-{suffix}"
-    new_run_dir = next_available_run_dir(desired_dir)
+    new_run_dir = claim_run_dir(desired_dir)
     if new_run_dir != desired_dir:
         _LOGGER.warning(
             "Run directory collision while updating run_id; using alternate path: %s",
             new_run_dir,
         )
 
+    if os.name == "nt":
+        new_run_dir.rmdir()
     old_run_dir.rename(new_run_dir)
     ctx.run_id = str(run_id)
     ctx.run_dir = new_run_dir
@@ -1042,7 +1045,7 @@ def run_experiment(config_path: Path, *, num_runs: int | None = None) -> int:
         return _run_experiment_single(config_path, raw=raw, cfg=cfg).code
 
     sweep_timestamp = datetime.now(UTC).strftime("%Y%m%dT%H%M%SZ")
-    sweep_root = next_available_run_dir(
+    sweep_root = claim_run_dir(
         Path(cfg.run.output_dir).expanduser().resolve() / f"{cfg.run.name}-sweep-{sweep_timestamp}"
     )
     _LOGGER.info("Seed sweep output dir: %s", sweep_root)
-- 
2.43.0


From bdb82b717cde2ccebc9e5891fb1c2b7207ae5699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 25/43] fix: bench writes run.json, config and aggregate whole
 so a crash leaves no truncated record

---
 bench/utils/io.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/bench/utils/io.py b/bench/utils/io.py
index 8b74289..6f15bcd 100644
--- a/bench/utils/io.py
+++ b/bench/utils/io.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import contextlib
 import json
 import os
 import re
@@ -134,11 +135,21 @@ def load_yaml(path: str | Path) -> dict[str, Any]:
     return _expand_env_vars(data, defaults=defaults)
 
 
+def _write_whole(path: Path, text: str) -> None:
+    """Write a report file as a whole: an interrupted run leaves it complete or absent."""
+    tmp = path.with_name(f".{path.name}.tmp")
+    try:
+        tmp.write_text(text, encoding="utf-8")
+        os.replace(tmp, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            tmp.unlink()
+        raise
+
+
 def dump_yaml(data: Any, path: str | Path) -> None:
-    p = Path(path)
-    p.write_text(yaml.safe_dump(data, sort_keys=False), encoding="utf-8")
+    _write_whole(Path(path), yaml.safe_dump(data, sort_keys=False))
 
 
 def write_json(path: str | Path, data: Any) -> None:
-    p = Path(path)
-    p.write_text(json.dumps(data, indent=2, sort_keys=True), encoding="utf-8")
+    _write_whole(Path(path), json.dumps(data, indent=2, sort_keys=True))
-- 
2.43.0


From b8a36b4a1cc055c876b5d942a6a3bed9455de367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 26/43] fix: bench aggregate counts a seed without a report as
 failed

---
 bench/orchestrators/reporting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bench/orchestrators/reporting.py b/bench/orchestrators/reporting.py
index 6c74638..507fff3 100644
--- a/bench/orchestrators/reporting.py
+++ b/bench/orchestrators/reporting.py
@@ -161,7 +161,8 @@ def write_seed_sweep_summary(
             },
         )
 
-    failed_count = len(run_entries) - len(successful_reports)
+    # a run that ended without a report (it could not write one) failed as well
+    failed_count = len(requested_seeds) - len(successful_reports)
     if failed_count == 0:
         status = "success"
     elif successful_reports:
-- 
2.43.0


From e86daf1e8da09d90c4ad1641cd0aa28b99ea78b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 27/43] fix: SwapNoise on tensors draws from the seeded
 generator

---
 src/modssc/data_augmentation/ops/tabular.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modssc/data_augmentation/ops/tabular.py b/src/modssc/data_augmentation/ops/tabular.py
index cf32383..e734ead 100644
--- a/src/modssc/data_augmentation/ops/tabular.py
+++ b/src/modssc/data_augmentation/ops/tabular.py
@@ -82,8 +82,9 @@ class SwapNoise(AugmentationOp):
 
             torch = importlib.import_module("torch")
 
-            mask_swap = torch.rand(x.shape, device=x.device) < p
-            noise = torch.randn(x.shape, device=x.device, dtype=x.dtype)
+            gen = torch.Generator(device=x.device).manual_seed(int(rng.integers(0, 1 << 31)))
+            mask_swap = torch.rand(x.shape, generator=gen, device=x.device) < p
+            noise = torch.randn(x.shape, generator=gen, device=x.device, dtype=x.dtype)
 
             # Where mask_swap is True, use noise, else x
             return torch.where(mask_swap, noise, x)
-- 
2.43.0


From aee4f84370ec36250f4ff4922e53c9f53458e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 28/43] fix: GNN methods seed torch before initialising their
 networks

---
 src/modssc/transductive/methods/gnn/appnp.py     |  2 ++
 src/modssc/transductive/methods/gnn/chebnet.py   |  2 ++
 src/modssc/transductive/methods/gnn/gat.py       |  9 ++++++++-
 src/modssc/transductive/methods/gnn/gcn.py       | 10 +++++++++-
 src/modssc/transductive/methods/gnn/gcnii.py     | 10 +++++++++-
 src/modssc/transductive/methods/gnn/grand.py     |  3 ++-
 src/modssc/transductive/methods/gnn/graphsage.py |  2 ++
 src/modssc/transductive/methods/gnn/h_gcn.py     |  2 ++
 src/modssc/transductive/methods/gnn/n_gcn.py     |  2 ++
 src/modssc/transductive/methods/gnn/planetoid.py |  3 ++-
 src/modssc/transductive/methods/gnn/sgc.py       | 10 +++++++++-
 11 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/src/modssc/transductive/methods/gnn/appnp.py b/src/modssc/transductive/methods/gnn/appnp.py
index cc30179..c7c2b9e 100644
--- a/src/modssc/transductive/methods/gnn/appnp.py
+++ b/src/modssc/transductive/methods/gnn/appnp.py
@@ -16,6 +16,7 @@ from .common import (
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -89,6 +90,7 @@ class APPNPMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
         prep = prepare_data_cached(
diff --git a/src/modssc/transductive/methods/gnn/chebnet.py b/src/modssc/transductive/methods/gnn/chebnet.py
index 70cf0c9..94fd98e 100644
--- a/src/modssc/transductive/methods/gnn/chebnet.py
+++ b/src/modssc/transductive/methods/gnn/chebnet.py
@@ -13,6 +13,7 @@ from modssc.transductive.optional import optional_import
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -109,6 +110,7 @@ class ChebNetMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
         prep = prepare_data_cached(
diff --git a/src/modssc/transductive/methods/gnn/gat.py b/src/modssc/transductive/methods/gnn/gat.py
index 65c4300..8209180 100644
--- a/src/modssc/transductive/methods/gnn/gat.py
+++ b/src/modssc/transductive/methods/gnn/gat.py
@@ -10,7 +10,13 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -203,6 +209,7 @@ class GATMethod(TransductiveMethod):
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         # Make the dependency explicit in the exception message.
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
         prep = prepare_data_cached(
diff --git a/src/modssc/transductive/methods/gnn/gcn.py b/src/modssc/transductive/methods/gnn/gcn.py
index 379cb1e..279476f 100644
--- a/src/modssc/transductive/methods/gnn/gcn.py
+++ b/src/modssc/transductive/methods/gnn/gcn.py
@@ -10,7 +10,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -80,6 +87,7 @@ class GCNMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
         prep = prepare_data_cached(
diff --git a/src/modssc/transductive/methods/gnn/gcnii.py b/src/modssc/transductive/methods/gnn/gcnii.py
index 43484c0..0e63684 100644
--- a/src/modssc/transductive/methods/gnn/gcnii.py
+++ b/src/modssc/transductive/methods/gnn/gcnii.py
@@ -11,7 +11,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -102,6 +109,7 @@ class GCNIIMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
         prep = prepare_data_cached(
diff --git a/src/modssc/transductive/methods/gnn/grand.py b/src/modssc/transductive/methods/gnn/grand.py
index 8f92109..5aadfdb 100644
--- a/src/modssc/transductive/methods/gnn/grand.py
+++ b/src/modssc/transductive/methods/gnn/grand.py
@@ -11,7 +11,7 @@ from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
 from .common import TwoLayerMLP as _MLP
-from .common import normalize_device_name, prepare_data_cached, spmm, torch
+from .common import normalize_device_name, prepare_data_cached, set_torch_seed, spmm, torch
 
 logger = logging.getLogger(__name__)
 
@@ -67,6 +67,7 @@ class GRANDMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
         prep = prepare_data_cached(
diff --git a/src/modssc/transductive/methods/gnn/graphsage.py b/src/modssc/transductive/methods/gnn/graphsage.py
index 2e1dd5c..aa80d06 100644
--- a/src/modssc/transductive/methods/gnn/graphsage.py
+++ b/src/modssc/transductive/methods/gnn/graphsage.py
@@ -13,6 +13,7 @@ from modssc.transductive.optional import optional_import
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -82,6 +83,7 @@ class GraphSAGEMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
         prep = prepare_data_cached(
diff --git a/src/modssc/transductive/methods/gnn/h_gcn.py b/src/modssc/transductive/methods/gnn/h_gcn.py
index 3abce80..598a9fd 100644
--- a/src/modssc/transductive/methods/gnn/h_gcn.py
+++ b/src/modssc/transductive/methods/gnn/h_gcn.py
@@ -15,6 +15,7 @@ from .common import (
     _as_numpy,
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     torch,
     train_fullbatch,
 )
@@ -284,6 +285,7 @@ class HGCNMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         if self.spec.num_layers < 3 or self.spec.num_layers % 2 == 0:
             raise ValueError("num_layers must be odd and >= 3 for H-GCN")
diff --git a/src/modssc/transductive/methods/gnn/n_gcn.py b/src/modssc/transductive/methods/gnn/n_gcn.py
index 32bd7e8..4836d33 100644
--- a/src/modssc/transductive/methods/gnn/n_gcn.py
+++ b/src/modssc/transductive/methods/gnn/n_gcn.py
@@ -15,6 +15,7 @@ from .common import (
     _as_numpy,
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     torch,
     train_fullbatch,
 )
@@ -202,6 +203,7 @@ class NGCNMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         if self.spec.K < 1:
             raise ValueError("K must be >= 1")
diff --git a/src/modssc/transductive/methods/gnn/planetoid.py b/src/modssc/transductive/methods/gnn/planetoid.py
index 790b5b6..c9bc24b 100644
--- a/src/modssc/transductive/methods/gnn/planetoid.py
+++ b/src/modssc/transductive/methods/gnn/planetoid.py
@@ -17,7 +17,7 @@ from modssc.graph.featurization.node2vec import (
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, torch
+from .common import normalize_device_name, prepare_data_cached, set_torch_seed, torch
 
 logger = logging.getLogger(__name__)
 
@@ -80,6 +80,7 @@ class PlanetoidMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
 
diff --git a/src/modssc/transductive/methods/gnn/sgc.py b/src/modssc/transductive/methods/gnn/sgc.py
index b9811f3..b9eb69e 100644
--- a/src/modssc/transductive/methods/gnn/sgc.py
+++ b/src/modssc/transductive/methods/gnn/sgc.py
@@ -10,7 +10,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -60,6 +67,7 @@ class SGCMethod(TransductiveMethod):
         logger.info("Starting %s.fit", self.info.method_id)
         logger.debug("spec=%s device=%s seed=%s", self.spec, device, seed)
         optional_import("torch", extra="transductive-torch")
+        set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
         prep = prepare_data_cached(
-- 
2.43.0


From 07d5104e6d347b77aa8f225fdf97e0521552a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 29/43] fix: views of a view no longer write into the metadata
 of their input

---
 src/modssc/views/services/service.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modssc/views/services/service.py b/src/modssc/views/services/service.py
index 7f53aea..70f9103 100644
--- a/src/modssc/views/services/service.py
+++ b/src/modssc/views/services/service.py
@@ -209,7 +209,8 @@ def generate_views(
 
         # 3) Meta
         meta: dict[str, Any] = dict(ds.meta) if isinstance(ds.meta, dict) else {}
-        meta.setdefault("views", {})
+        # The input may itself be a view: extend a copy of its entries, never its own dict.
+        meta["views"] = dict(meta.get("views") or {})
         meta["views"][str(view.name)] = {
             "columns": cols.tolist(),
             "columns_mode": (view.columns.mode if view.columns is not None else "all"),
@@ -217,7 +218,7 @@ def generate_views(
         }
         if view.meta:
             # view-level metadata override/additions
-            meta.setdefault("view_meta", {})
+            meta["view_meta"] = dict(meta.get("view_meta") or {})
             meta["view_meta"][str(view.name)] = dict(view.meta)
 
         views[str(view.name)] = LoadedDataset(train=train_split, test=test_split, meta=meta)
-- 
2.43.0


From 240fb82467f3210065e30cf64636d64dd6a4f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 30/43] fix: preprocessing a column view no longer shares cache
 entries with the full features

---
 src/modssc/preprocess/services/pipeline.py | 16 +++++++++++-----
 src/modssc/views/services/service.py       | 13 +++++++++++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index f57e307..a14334f 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -290,11 +290,17 @@ def _load_cached_outputs(
 def _dataset_fingerprint(dataset: LoadedDataset) -> str:
     fp = dataset.meta.get("dataset_fingerprint") if hasattr(dataset, "meta") else None
     if isinstance(fp, str) and fp:
-        # Output of an earlier preprocessing: its content depends on that plan, seed and fit too.
-        upstream = dataset.meta.get("preprocess_fingerprint")
-        if isinstance(upstream, str) and upstream:
-            return fingerprint({"dataset_fp": fp, "preprocess_fp": upstream}, prefix="dataset:")
-        return fp
+        # Output of an earlier preprocessing: its content depends on that plan, seed and fit too;
+        # that of a feature view on the columns it selected.
+        payload = {"dataset_fp": fp}
+        for name, key in (
+            ("preprocess_fp", "preprocess_fingerprint"),
+            ("views_fp", "views_fingerprint"),
+        ):
+            upstream = dataset.meta.get(key)
+            if isinstance(upstream, str) and upstream:
+                payload[name] = upstream
+        return fingerprint(payload, prefix="dataset:") if len(payload) > 1 else fp
 
     # Fallback: structural fingerprint only (no full data hashing).
     train_x = getattr(dataset.train, "X", None)
diff --git a/src/modssc/views/services/service.py b/src/modssc/views/services/service.py
index 70f9103..94f9914 100644
--- a/src/modssc/views/services/service.py
+++ b/src/modssc/views/services/service.py
@@ -10,6 +10,7 @@ import numpy as np
 
 from modssc.data_loader.types import LoadedDataset, Split
 from modssc.preprocess import preprocess as run_preprocess
+from modssc.preprocess.fingerprint import fingerprint
 from modssc.utils.numpy import to_numpy as _as_numpy
 from modssc.utils.shape import shape_of as _shape_of
 
@@ -221,6 +222,18 @@ def generate_views(
             meta["view_meta"] = dict(meta.get("view_meta") or {})
             meta["view_meta"][str(view.name)] = dict(view.meta)
 
+        if cols.size < n_features and meta.get("dataset_fingerprint"):
+            # Content now differs from what dataset/preprocess fingerprints identify.
+            meta["views_fingerprint"] = fingerprint(
+                {
+                    "dataset_fp": meta["dataset_fingerprint"],
+                    "preprocess_fp": meta.get("preprocess_fingerprint"),
+                    "views_fp": meta.get("views_fingerprint"),
+                    "columns": cols.tolist(),
+                },
+                prefix="views:",
+            )
+
         views[str(view.name)] = LoadedDataset(train=train_split, test=test_split, meta=meta)
         logger.debug(
             "View built: name=%s train_shape=%s test_shape=%s duration_s=%.3f",
-- 
2.43.0


From 94a2d7e16f28c669d6ecc7aa5d28f4a32e7d8468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 31/43] fix: seed the torch logistic regression before its
 weights are drawn

---
 src/modssc/supervised/backends/torch/logreg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/supervised/backends/torch/logreg.py b/src/modssc/supervised/backends/torch/logreg.py
index 988b101..ff60886 100644
--- a/src/modssc/supervised/backends/torch/logreg.py
+++ b/src/modssc/supervised/backends/torch/logreg.py
@@ -87,12 +87,12 @@ class TorchLogRegClassifier(TorchScoresClassifierBase):
         n_features = int(X.shape[1])
         n_classes = int(classes.numel())
 
+        torch.manual_seed(int(self.seed or 0))
         model = torch.nn.Linear(n_features, n_classes).to(X.device)
         optimizer = torch.optim.AdamW(
             model.parameters(), lr=float(self.lr), weight_decay=float(self.weight_decay)
         )
 
-        torch.manual_seed(int(self.seed or 0))
         model.train()
         n = int(X.shape[0])
         for _epoch in range(int(self.max_epochs)):
-- 
2.43.0


From 11df5f98dd8346c15e98b5bfb2709e1c4fe0298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 32/43] fix: score hyper-parameter trials within the configured
 limits

---
 bench/orchestrators/hpo.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bench/orchestrators/hpo.py b/bench/orchestrators/hpo.py
index 308e106..c85032e 100644
--- a/bench/orchestrators/hpo.py
+++ b/bench/orchestrators/hpo.py
@@ -12,6 +12,7 @@ import numpy as np
 from modssc.hpo import Space, deep_merge
 
 from ..context import RunContext
+from ..limits import apply_limits
 from ..schema import BenchConfigError, ExperimentConfig
 from . import evaluation as eval_orch
 from . import method_inductive as inductive_orch
@@ -98,7 +99,12 @@ def run_hpo(
             n_trials += 1
             trial_start = perf_counter()
             _LOGGER.debug("HPO trial %s params=%s", trial.index, trial.params)
-            patched_dict = deep_merge(base_cfg_dict, trial.patch)
+            # A trial is scored within the limits its winner is later run with.
+            patched_dict, _, _ = apply_limits(
+                deep_merge(base_cfg_dict, trial.patch),
+                limits=base_cfg.limits,
+                strict=base_cfg.run.benchmark_mode,
+            )
             trial_cfg = ExperimentConfig.from_dict(patched_dict)
 
             scores = []
-- 
2.43.0


From 6a3aeea497ad9dd3ed9aa1b7dffc08803eb04c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 33/43] fix: tri-training labels pseudo-labelled rows with
 classes, not score columns

A bootstrap may miss a class, and labels need not be 0..k-1: the best score
column was used as the label itself, and predictions were looked up in the
classes of the first classifier only.
---
 src/modssc/inductive/methods/tri_training.py | 42 +++++++++++++++-----
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/modssc/inductive/methods/tri_training.py b/src/modssc/inductive/methods/tri_training.py
index 4287bfd..130fbf8 100644
--- a/src/modssc/inductive/methods/tri_training.py
+++ b/src/modssc/inductive/methods/tri_training.py
@@ -42,6 +42,20 @@ class TriTrainingSpec(BaseClassifierSpec):
     bootstrap_ratio: float = 1.0
 
 
+def _predicted_labels(clf: Any, scores: Any, *, backend: str) -> Any:
+    """Labels of the best-scored classes (score columns follow the classifier's own classes)."""
+    idx = scores.argmax(axis=1) if backend == "numpy" else scores.argmax(dim=1)
+    classes = getattr(clf, "classes_", None)
+    if classes is None:
+        classes = getattr(clf, "classes_t_", None)
+    if classes is None or len(classes) != int(scores.shape[1]):
+        return idx
+    if backend == "numpy":
+        return np.asarray(classes)[idx]
+    torch = optional_import("torch", extra="inductive-torch")
+    return torch.as_tensor(classes, device=idx.device)[idx]
+
+
 class TriTrainingMethod(InductiveMethod):
     """Tri-training with three classifiers (CPU/GPU)."""
 
@@ -59,6 +73,7 @@ class TriTrainingMethod(InductiveMethod):
     def __init__(self, spec: TriTrainingSpec | None = None) -> None:
         self.spec = spec or TriTrainingSpec()
         self._clfs: list[Any] = []
+        self._classes: np.ndarray | None = None
         self._backend: str | None = None
 
     def fit(self, data: Any, *, device: DeviceSpec, seed: int = 0) -> TriTrainingMethod:
@@ -123,8 +138,8 @@ class TriTrainingMethod(InductiveMethod):
                     j, k = [x for x in range(3) if x != i]
                     scores_j = predict_scores(clfs[j], X_u, backend=backend)
                     scores_k = predict_scores(clfs[k], X_u, backend=backend)
-                    pred_j = scores_j.argmax(axis=1)
-                    pred_k = scores_k.argmax(axis=1)
+                    pred_j = _predicted_labels(clfs[j], scores_j, backend=backend)
+                    pred_k = _predicted_labels(clfs[k], scores_k, backend=backend)
                     agree = pred_j == pred_k
                     if not np.any(agree):
                         continue
@@ -160,6 +175,7 @@ class TriTrainingMethod(InductiveMethod):
                 _train(i)
 
             self._clfs = clfs
+            self._classes = np.unique(y_l)
             self._backend = backend
             logger.info("Finished %s.fit in %.3fs", self.info.method_id, perf_counter() - start)
             return self
@@ -220,8 +236,8 @@ class TriTrainingMethod(InductiveMethod):
                 j, k = [x for x in range(3) if x != i]
                 scores_j = predict_scores(clfs[j], X_u, backend=backend)
                 scores_k = predict_scores(clfs[k], X_u, backend=backend)
-                pred_j = scores_j.argmax(dim=1)
-                pred_k = scores_k.argmax(dim=1)
+                pred_j = _predicted_labels(clfs[j], scores_j, backend=backend)
+                pred_k = _predicted_labels(clfs[k], scores_k, backend=backend)
                 agree = pred_j == pred_k
                 if not bool(agree.any()):
                     continue
@@ -272,6 +288,7 @@ class TriTrainingMethod(InductiveMethod):
             _train(i)
 
         self._clfs = clfs
+        self._classes = torch.unique(y_l, sorted=True).detach().cpu().numpy()
         self._backend = backend
         logger.info("Finished %s.fit in %.3fs", self.info.method_id, perf_counter() - start)
         return self
@@ -317,9 +334,9 @@ class TriTrainingMethod(InductiveMethod):
         labels_available = [classes is not None for classes in class_labels]
         should_align = len(distinct_shapes) > 1
         if all(labels_available):
-            ref_classes = class_labels[0]
+            ref_classes = class_labels[0] if self._classes is None else self._classes
             should_align = should_align or any(
-                not np.array_equal(classes, ref_classes) for classes in class_labels[1:]
+                not np.array_equal(classes, ref_classes) for classes in class_labels
             )
 
         if should_align:
@@ -332,7 +349,7 @@ class TriTrainingMethod(InductiveMethod):
                 )
 
             # Align based on classes_
-            all_classes_set = set()
+            all_classes_set = set() if self._classes is None else set(self._classes.tolist())
             for classes in class_labels:
                 all_classes_set.update(classes.tolist())
 
@@ -393,12 +410,17 @@ class TriTrainingMethod(InductiveMethod):
         backend = detect_backend(X)
         if backend == "numpy":
             idx = proba.argmax(axis=1)
-            classes = getattr(self._clfs[0], "classes_", None)
+            classes = self._classes
+            if classes is None:
+                classes = getattr(self._clfs[0], "classes_", None)
             if classes is None:
                 return idx
             return np.asarray(classes)[idx]
         idx = proba.argmax(dim=1)
-        classes_t = getattr(self._clfs[0], "classes_t_", None)
+        classes_t = self._classes
+        if classes_t is None:
+            classes_t = getattr(self._clfs[0], "classes_t_", None)
         if classes_t is None:
             return idx
-        return classes_t[idx]
+        torch = optional_import("torch", extra="inductive-torch")
+        return torch.as_tensor(classes_t, device=idx.device)[idx]
-- 
2.43.0


From 5b6ee4e784674d95ca08542c12815b586e4c6a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 34/43] fix: evaluate inductive scores against the labels their
 columns stand for

---
 bench/orchestrators/evaluation.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/bench/orchestrators/evaluation.py b/bench/orchestrators/evaluation.py
index bea37d4..3a14848 100644
--- a/bench/orchestrators/evaluation.py
+++ b/bench/orchestrators/evaluation.py
@@ -96,6 +96,19 @@ def _labels_for_split(pre: PreprocessResult, ref: str, base: Any) -> Any:
     return base.y
 
 
+def _column_labels(pre: PreprocessResult, sampling: SamplingResult, scores: np.ndarray) -> Any:
+    """Label of every score column, when the columns are the classes of the labeled rows."""
+    idx = getattr(sampling, "indices", {}).get("train_labeled")
+    if idx is None or scores.ndim != 2:
+        return None
+    y = _labels_for_split(pre, "train", pre.dataset.train)
+    y_labeled = labels_1d(
+        select_rows(y, np.asarray(idx, dtype=np.int64), context="evaluation.train_labeled.y")
+    )
+    classes = np.unique(y_labeled)
+    return classes if int(classes.size) == int(scores.shape[1]) else None
+
+
 def _smart_to_torch(x: Any, device: Any) -> Any:
     if x is None:
         return None
@@ -294,6 +307,9 @@ def evaluate_inductive(
         scores_np = to_numpy(scores)
         y_true = labels_1d(y)
         y_pred = predict_labels(scores_np)
+        column_labels = _column_labels(pre, sampling, scores_np)
+        if column_labels is not None:
+            y_pred = column_labels[y_pred]
         results[split] = compute_metrics(y_true, y_pred, metrics)
         _log_split_metrics(
             kind="inductive",
-- 
2.43.0


From 9e6c584e1b9b81d0bb8e1048e0ee6fad914eb994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 35/43] fix: probabilities from decision scores keep the order
 of the classes

---
 src/modssc/inductive/methods/co_training.py        |  2 ++
 .../inductive/methods/helpers/classifier_bridge.py | 14 ++++++++++++++
 src/modssc/inductive/methods/pseudo_label.py       |  2 ++
 src/modssc/inductive/methods/s4vm.py               |  2 ++
 src/modssc/inductive/methods/self_training.py      |  2 ++
 src/modssc/inductive/methods/setred.py             |  2 ++
 src/modssc/inductive/methods/supervised.py         |  2 ++
 src/modssc/inductive/methods/tri_training.py       |  3 +++
 8 files changed, 29 insertions(+)

diff --git a/src/modssc/inductive/methods/co_training.py b/src/modssc/inductive/methods/co_training.py
index d954211..519ff7c 100644
--- a/src/modssc/inductive/methods/co_training.py
+++ b/src/modssc/inductive/methods/co_training.py
@@ -19,6 +19,7 @@ from modssc.inductive.methods.utils import (
     ensure_classifier_backend,
     ensure_cpu_device,
     flatten_if_numpy,
+    nonnegative_scores,
     predict_scores,
     select_top_per_class,
     select_top_per_class_torch,
@@ -460,6 +461,7 @@ class CoTrainingMethod(InductiveMethod):
             X2 = _view_predict_payload_torch(v2, name=self._view_keys[1])
         scores = self._predict_scores_pair(X1, X2)
         if backend == "numpy":
+            scores = nonnegative_scores(scores)
             row_sum = scores.sum(axis=1, keepdims=True)
             row_sum[row_sum == 0.0] = 1.0
             return (scores / row_sum).astype(np.float32, copy=False)
diff --git a/src/modssc/inductive/methods/helpers/classifier_bridge.py b/src/modssc/inductive/methods/helpers/classifier_bridge.py
index e4fcea4..74f2b7e 100644
--- a/src/modssc/inductive/methods/helpers/classifier_bridge.py
+++ b/src/modssc/inductive/methods/helpers/classifier_bridge.py
@@ -189,6 +189,20 @@ def predict_scores(model: Any, X: Any, *, backend: str):
     raise InductiveValidationError(f"Unknown backend: {backend!r}")
 
 
+def nonnegative_scores(scores: np.ndarray) -> np.ndarray:
+    """Replace rows with negative (decision) scores by their softmax, which keeps their order.
+
+    Dividing such rows by their sum would reverse or blow up the order of the classes.
+    """
+    rows = (scores < 0).any(axis=1)
+    if not rows.any():
+        return scores
+    out = np.array(scores, dtype=np.float64)
+    shifted = np.exp(out[rows] - out[rows].max(axis=1, keepdims=True))
+    out[rows] = shifted / shifted.sum(axis=1, keepdims=True)
+    return out
+
+
 def select_confident(
     scores: np.ndarray,
     *,
diff --git a/src/modssc/inductive/methods/pseudo_label.py b/src/modssc/inductive/methods/pseudo_label.py
index dac483a..cd8716c 100644
--- a/src/modssc/inductive/methods/pseudo_label.py
+++ b/src/modssc/inductive/methods/pseudo_label.py
@@ -25,6 +25,7 @@ from modssc.inductive.methods.utils import (
     ensure_cpu_device,
     ensure_numpy_data,
     ensure_torch_data,
+    nonnegative_scores,
     predict_scores,
     select_confident,
     select_confident_torch,
@@ -211,6 +212,7 @@ class PseudoLabelMethod(InductiveMethod):
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
         if backend == "numpy":
+            scores = nonnegative_scores(scores)
             row_sum = scores.sum(axis=1, keepdims=True)
             row_sum[row_sum == 0.0] = 1.0
             return (scores / row_sum).astype(np.float32, copy=False)
diff --git a/src/modssc/inductive/methods/s4vm.py b/src/modssc/inductive/methods/s4vm.py
index a22bb61..386115f 100644
--- a/src/modssc/inductive/methods/s4vm.py
+++ b/src/modssc/inductive/methods/s4vm.py
@@ -22,6 +22,7 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     flatten_if_numpy,
+    nonnegative_scores,
     predict_scores,
 )
 from modssc.inductive.optional import optional_import
@@ -194,6 +195,7 @@ class S4VMMethod(InductiveMethod):
 
         scores = predict_scores(self._clf, X, backend=backend)
         if backend == "numpy":
+            scores = nonnegative_scores(scores)
             row_sum = scores.sum(axis=1, keepdims=True)
             if np.any(row_sum == 0.0):
                 row_sum[row_sum == 0.0] = 1.0
diff --git a/src/modssc/inductive/methods/self_training.py b/src/modssc/inductive/methods/self_training.py
index 74b98c4..ed3f2b8 100644
--- a/src/modssc/inductive/methods/self_training.py
+++ b/src/modssc/inductive/methods/self_training.py
@@ -26,6 +26,7 @@ from modssc.inductive.methods.utils import (
     ensure_cpu_device,
     ensure_numpy_data,
     ensure_torch_data,
+    nonnegative_scores,
     predict_scores,
 )
 from modssc.inductive.optional import optional_import
@@ -474,6 +475,7 @@ class SelfTrainingMethod(InductiveMethod):
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
         if backend == "numpy":
+            scores = nonnegative_scores(scores)
             row_sum = scores.sum(axis=1, keepdims=True)
             row_sum[row_sum == 0.0] = 1.0
             return (scores / row_sum).astype(np.float32, copy=False)
diff --git a/src/modssc/inductive/methods/setred.py b/src/modssc/inductive/methods/setred.py
index b165b46..32d1489 100644
--- a/src/modssc/inductive/methods/setred.py
+++ b/src/modssc/inductive/methods/setred.py
@@ -26,6 +26,7 @@ from modssc.inductive.methods.utils import (
     ensure_cpu_device,
     ensure_numpy_data,
     ensure_torch_data,
+    nonnegative_scores,
     predict_scores,
     unwrap_torch_x,
 )
@@ -506,6 +507,7 @@ class SetredMethod(InductiveMethod):
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
         if backend == "numpy":
+            scores = nonnegative_scores(scores)
             row_sum = scores.sum(axis=1, keepdims=True)
             row_sum[row_sum == 0.0] = 1.0
             return (scores / row_sum).astype(np.float32, copy=False)
diff --git a/src/modssc/inductive/methods/supervised.py b/src/modssc/inductive/methods/supervised.py
index 82c01f1..5b33e00 100644
--- a/src/modssc/inductive/methods/supervised.py
+++ b/src/modssc/inductive/methods/supervised.py
@@ -20,6 +20,7 @@ from modssc.inductive.methods.utils import (
     ensure_cpu_device,
     ensure_numpy_data,
     ensure_torch_data,
+    nonnegative_scores,
     predict_scores,
 )
 from modssc.inductive.optional import optional_import
@@ -101,6 +102,7 @@ class SupervisedMethod(InductiveMethod):
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
         if backend == "numpy":
+            scores = nonnegative_scores(scores)
             row_sum = scores.sum(axis=1, keepdims=True)
             row_sum[row_sum == 0.0] = 1.0
             return (scores / row_sum).astype(np.float32, copy=False)
diff --git a/src/modssc/inductive/methods/tri_training.py b/src/modssc/inductive/methods/tri_training.py
index 130fbf8..10afc3b 100644
--- a/src/modssc/inductive/methods/tri_training.py
+++ b/src/modssc/inductive/methods/tri_training.py
@@ -26,6 +26,7 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     flatten_if_numpy,
+    nonnegative_scores,
     predict_scores,
 )
 from modssc.inductive.optional import optional_import
@@ -304,6 +305,8 @@ class TriTrainingMethod(InductiveMethod):
             X = flatten_if_numpy(X)
 
         scores_list = [predict_scores(clf, X, backend=backend) for clf in self._clfs]
+        if backend == "numpy":
+            scores_list = [nonnegative_scores(scores) for scores in scores_list]
 
         # Robustly align scores if shapes differ
         shapes = [s.shape[1] for s in scores_list]
-- 
2.43.0


From 653006b27a72f8318ba8291c8508d5d69dbb99e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 36/43] fix: refitting a graph network never reuses what an
 earlier fit prepared

---
 src/modssc/transductive/methods/gnn/appnp.py     |  1 +
 src/modssc/transductive/methods/gnn/chebnet.py   |  1 +
 src/modssc/transductive/methods/gnn/common.py    | 11 +++++++++++
 src/modssc/transductive/methods/gnn/gat.py       |  1 +
 src/modssc/transductive/methods/gnn/gcn.py       |  1 +
 src/modssc/transductive/methods/gnn/gcnii.py     |  1 +
 src/modssc/transductive/methods/gnn/grafn.py     |  1 +
 src/modssc/transductive/methods/gnn/grand.py     |  1 +
 src/modssc/transductive/methods/gnn/graphhop.py  |  1 +
 src/modssc/transductive/methods/gnn/graphsage.py |  1 +
 src/modssc/transductive/methods/gnn/h_gcn.py     |  1 +
 src/modssc/transductive/methods/gnn/n_gcn.py     |  1 +
 src/modssc/transductive/methods/gnn/planetoid.py |  1 +
 src/modssc/transductive/methods/gnn/sgc.py       |  1 +
 14 files changed, 24 insertions(+)

diff --git a/src/modssc/transductive/methods/gnn/appnp.py b/src/modssc/transductive/methods/gnn/appnp.py
index c7c2b9e..2a39527 100644
--- a/src/modssc/transductive/methods/gnn/appnp.py
+++ b/src/modssc/transductive/methods/gnn/appnp.py
@@ -93,6 +93,7 @@ class APPNPMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/chebnet.py b/src/modssc/transductive/methods/gnn/chebnet.py
index 94fd98e..910c25f 100644
--- a/src/modssc/transductive/methods/gnn/chebnet.py
+++ b/src/modssc/transductive/methods/gnn/chebnet.py
@@ -113,6 +113,7 @@ class ChebNetMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/common.py b/src/modssc/transductive/methods/gnn/common.py
index 9f85637..6ea8814 100644
--- a/src/modssc/transductive/methods/gnn/common.py
+++ b/src/modssc/transductive/methods/gnn/common.py
@@ -319,6 +319,17 @@ def prepare_data_cached(
     )
     cache["key"] = key
     cache["prep"] = prep
+    # The key holds ids: keep what they name alive, so that no other object can take them over.
+    graph = getattr(data, "graph", None)
+    cache["refs"] = (
+        data,
+        getattr(data, "X", None),
+        getattr(data, "y", None),
+        graph,
+        getattr(graph, "edge_index", None),
+        getattr(graph, "edge_weight", None),
+        getattr(data, "masks", None),
+    )
     return prep
 
 
diff --git a/src/modssc/transductive/methods/gnn/gat.py b/src/modssc/transductive/methods/gnn/gat.py
index 8209180..d2e22dd 100644
--- a/src/modssc/transductive/methods/gnn/gat.py
+++ b/src/modssc/transductive/methods/gnn/gat.py
@@ -212,6 +212,7 @@ class GATMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gcn.py b/src/modssc/transductive/methods/gnn/gcn.py
index 279476f..442c221 100644
--- a/src/modssc/transductive/methods/gnn/gcn.py
+++ b/src/modssc/transductive/methods/gnn/gcn.py
@@ -90,6 +90,7 @@ class GCNMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gcnii.py b/src/modssc/transductive/methods/gnn/gcnii.py
index 0e63684..6c482a1 100644
--- a/src/modssc/transductive/methods/gnn/gcnii.py
+++ b/src/modssc/transductive/methods/gnn/gcnii.py
@@ -112,6 +112,7 @@ class GCNIIMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/grafn.py b/src/modssc/transductive/methods/gnn/grafn.py
index be08d50..a71eefd 100644
--- a/src/modssc/transductive/methods/gnn/grafn.py
+++ b/src/modssc/transductive/methods/gnn/grafn.py
@@ -198,6 +198,7 @@ class GraFNMethod(TransductiveMethod):
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
 
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/grand.py b/src/modssc/transductive/methods/gnn/grand.py
index 5aadfdb..b1ae2c3 100644
--- a/src/modssc/transductive/methods/gnn/grand.py
+++ b/src/modssc/transductive/methods/gnn/grand.py
@@ -70,6 +70,7 @@ class GRANDMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/graphhop.py b/src/modssc/transductive/methods/gnn/graphhop.py
index 799545a..e1f9431 100644
--- a/src/modssc/transductive/methods/gnn/graphhop.py
+++ b/src/modssc/transductive/methods/gnn/graphhop.py
@@ -219,6 +219,7 @@ class GraphHopMethod(TransductiveMethod):
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
 
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/graphsage.py b/src/modssc/transductive/methods/gnn/graphsage.py
index aa80d06..8065d93 100644
--- a/src/modssc/transductive/methods/gnn/graphsage.py
+++ b/src/modssc/transductive/methods/gnn/graphsage.py
@@ -86,6 +86,7 @@ class GraphSAGEMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/h_gcn.py b/src/modssc/transductive/methods/gnn/h_gcn.py
index 598a9fd..7e85189 100644
--- a/src/modssc/transductive/methods/gnn/h_gcn.py
+++ b/src/modssc/transductive/methods/gnn/h_gcn.py
@@ -295,6 +295,7 @@ class HGCNMethod(TransductiveMethod):
             raise ValueError("weight_embed_dim must be >= 1")
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/n_gcn.py b/src/modssc/transductive/methods/gnn/n_gcn.py
index 4836d33..df647ae 100644
--- a/src/modssc/transductive/methods/gnn/n_gcn.py
+++ b/src/modssc/transductive/methods/gnn/n_gcn.py
@@ -215,6 +215,7 @@ class NGCNMethod(TransductiveMethod):
             raise ValueError("classifier must be 'fc' or 'attention'")
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/planetoid.py b/src/modssc/transductive/methods/gnn/planetoid.py
index c9bc24b..3f23b9e 100644
--- a/src/modssc/transductive/methods/gnn/planetoid.py
+++ b/src/modssc/transductive/methods/gnn/planetoid.py
@@ -85,6 +85,7 @@ class PlanetoidMethod(TransductiveMethod):
         self._device = normalize_device_name(device)
 
         # Walk generation on CPU
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device="cpu",
diff --git a/src/modssc/transductive/methods/gnn/sgc.py b/src/modssc/transductive/methods/gnn/sgc.py
index b9eb69e..5e61700 100644
--- a/src/modssc/transductive/methods/gnn/sgc.py
+++ b/src/modssc/transductive/methods/gnn/sgc.py
@@ -70,6 +70,7 @@ class SGCMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         self._device = normalize_device_name(device)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
-- 
2.43.0


From dcd3194c5a3fe4dab448352e5124efccc63e3294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 37/43] fix: an interrupted or concurrent first use no longer
 breaks the classifier registry

---
 src/modssc/supervised/registry.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/modssc/supervised/registry.py b/src/modssc/supervised/registry.py
index 6608d34..ec83cd0 100644
--- a/src/modssc/supervised/registry.py
+++ b/src/modssc/supervised/registry.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import threading
 from collections.abc import Iterable
 from dataclasses import replace
 
@@ -9,6 +10,7 @@ from modssc.supervised.types import BackendSpec, ClassifierSpec
 
 _REGISTRY: dict[str, ClassifierSpec] = {}
 _BOOTSTRAPPED = False
+_BOOTSTRAP_LOCK = threading.RLock()
 
 
 def register_classifier(
@@ -62,6 +64,8 @@ def _register_builtin_classifier(entry: dict[str, object]) -> None:
         preferred_backends=tuple(entry["preferred_backends"]),
     )
     for backend in entry["backends"]:
+        if str(backend["backend"]) in _REGISTRY[str(entry["key"])].backends:
+            continue  # from a bootstrap that was interrupted
         register_backend(
             classifier_id=str(entry["key"]),
             backend=str(backend["backend"]),
@@ -76,9 +80,12 @@ def ensure_bootstrap() -> None:
     global _BOOTSTRAPPED
     if _BOOTSTRAPPED:
         return
-    for entry in BUILTIN_CLASSIFIERS:
-        _register_builtin_classifier(entry)
-    _BOOTSTRAPPED = True
+    with _BOOTSTRAP_LOCK:
+        if _BOOTSTRAPPED:
+            return
+        for entry in BUILTIN_CLASSIFIERS:
+            _register_builtin_classifier(entry)
+        _BOOTSTRAPPED = True
 
 
 def list_classifiers() -> list[str]:
-- 
2.43.0


From a716dfa04fc7bf57eb10ec49839da1f9122f2656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:44 +0000
Subject: [PATCH 38/43] fix: weights of a sliced graph input follow its edges

---
 bench/orchestrators/slicing.py                | 25 +++++++++++++++----
 .../methods/helpers/torch_support.py          | 11 +++++---
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/bench/orchestrators/slicing.py b/bench/orchestrators/slicing.py
index bc5eb09..d70458b 100644
--- a/bench/orchestrators/slicing.py
+++ b/bench/orchestrators/slicing.py
@@ -36,7 +36,9 @@ def _infer_num_nodes(X: Mapping[str, Any]) -> int | None:
         return None
 
 
-def _slice_edge_index(edge_index: Any, idx: np.ndarray, *, num_nodes: int | None = None) -> Any:
+def _slice_edge_index(
+    edge_index: Any, idx: np.ndarray, *, num_nodes: int | None = None
+) -> tuple[Any, np.ndarray]:
     try:
         import importlib
 
@@ -57,11 +59,12 @@ def _slice_edge_index(edge_index: Any, idx: np.ndarray, *, num_nodes: int | None
 
     subset = torch.as_tensor(idx, dtype=torch.long, device=device)
     try:
-        sub_ei, _ = pyg_utils.subgraph(
+        sub_ei, _, edge_mask = pyg_utils.subgraph(
             subset,
             ei,
             relabel_nodes=True,
             num_nodes=None if num_nodes is None else int(num_nodes),
+            return_edge_mask=True,
         )
     except (RuntimeError, TypeError, ValueError) as exc:
         raise BenchRuntimeError(
@@ -69,9 +72,10 @@ def _slice_edge_index(edge_index: Any, idx: np.ndarray, *, num_nodes: int | None
             f"failed to slice edge_index with relabel_nodes=True: {exc}",
         ) from exc
 
+    kept = np.flatnonzero(edge_mask.detach().cpu().numpy()).astype(np.int64)
     if is_torch_tensor(edge_index):
-        return sub_ei
-    return sub_ei.detach().cpu().numpy()
+        return sub_ei, kept
+    return sub_ei.detach().cpu().numpy(), kept
 
 
 def _slice_tensor(x: Any, idx: np.ndarray) -> Any:
@@ -113,11 +117,22 @@ def select_rows(
     if isinstance(X, Mapping):
         out: dict[str, Any] = {}
         num_nodes = _infer_num_nodes(X)
+        kept_edges: np.ndarray | None = None
         if "edge_index" in X:
-            out["edge_index"] = _slice_edge_index(X["edge_index"], idx_arr, num_nodes=num_nodes)
+            out["edge_index"], kept_edges = _slice_edge_index(
+                X["edge_index"], idx_arr, num_nodes=num_nodes
+            )
         for k, v in X.items():
             if k == "edge_index":
                 continue
+            if kept_edges is not None and k == "edge_weight" and v is not None:
+                # Weights belong to edges, not to rows.
+                out[k] = (
+                    _slice_tensor(v, kept_edges)
+                    if is_torch_tensor(v)
+                    else np.asarray(v)[kept_edges]
+                )
+                continue
             if is_torch_tensor(v):
                 if _should_slice_by_dim0(v, idx_arr):
                     out[k] = _slice_tensor(v, idx_arr)
diff --git a/src/modssc/inductive/methods/helpers/torch_support.py b/src/modssc/inductive/methods/helpers/torch_support.py
index f77db81..dca5cd9 100644
--- a/src/modssc/inductive/methods/helpers/torch_support.py
+++ b/src/modssc/inductive/methods/helpers/torch_support.py
@@ -363,15 +363,20 @@ def slice_data(X: Any, idx: Any) -> Any:
                     subgraph_idx = torch.arange(start, stop, step, device=device)
 
                 # relabel_nodes=True ensures indices map to 0..len(idx)
-                edge_index, _ = subgraph(
-                    subgraph_idx, X["edge_index"], relabel_nodes=True, num_nodes=n
+                weights = {}
+                if X.get("edge_weight") is not None:
+                    weights["edge_attr"] = X["edge_weight"]  # belongs to edges, not to rows
+                edge_index, edge_weight = subgraph(
+                    subgraph_idx, X["edge_index"], relabel_nodes=True, num_nodes=n, **weights
                 )
                 batch_data["edge_index"] = edge_index
+                if edge_weight is not None:
+                    batch_data["edge_weight"] = edge_weight
             except ImportError:
                 pass
 
         for k, v in X.items():
-            if k in ("x", "edge_index"):
+            if k in ("x", "edge_index") or k in batch_data:
                 continue
             if isinstance(v, torch.Tensor) and v.shape[0] == n:
                 batch_data[k] = v[idx]
-- 
2.43.0


From de9998883f8f5f7677ebadd4b293923c9a73a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 39/43] fix: CoMatch can train with gradients through its
 targets

With use_cat and without detach_target, the second step failed: the memory
slices in the graph were overwritten in place, and the alignment queue kept
the graph of the step before.
---
 src/modssc/inductive/methods/comatch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modssc/inductive/methods/comatch.py b/src/modssc/inductive/methods/comatch.py
index 0b3ab60..0238e6e 100644
--- a/src/modssc/inductive/methods/comatch.py
+++ b/src/modssc/inductive/methods/comatch.py
@@ -189,8 +189,9 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         alpha = float(self.spec.smoothing_alpha)
         if alpha >= 1.0:
             return probs
-        queue_feats = self._queue_feats[: self._queue_count]
-        queue_probs = self._queue_probs[: self._queue_count]
+        # copies: the memory is overwritten before gradients flow back through these
+        queue_feats = self._queue_feats[: self._queue_count].clone()
+        queue_probs = self._queue_probs[: self._queue_count].clone()
         sim = (feats @ queue_feats.t()) / float(self.spec.temperature)
         affinity = _row_normalize(sim.exp())
         smoothed = alpha * probs + (1.0 - alpha) * (affinity @ queue_probs)
@@ -211,7 +212,7 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         if self._da_queue is None:
             self._init_da(n_classes=int(probs_u.shape[1]), device=probs_u.device)
         assert self._da_queue is not None
-        mean_u = probs_u.mean(dim=0)
+        mean_u = probs_u.mean(dim=0).detach()
         self._da_queue[self._da_ptr] = mean_u
         self._da_ptr = (self._da_ptr + 1) % int(self.spec.da_len)
         self._da_count = min(int(self.spec.da_len), self._da_count + 1)
-- 
2.43.0


From 7d12068e01c4546f10397353ce466c8a104694d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 40/43] fix: SoftMatch, FreeMatch and AdaMatch can train with
 gradients through their targets

With use_cat and without detach_target, the running averages kept the graph
of the step before and the second step failed.
---
 src/modssc/inductive/methods/adamatch.py   | 2 +-
 src/modssc/inductive/methods/free_match.py | 1 +
 src/modssc/inductive/methods/softmatch.py  | 3 ++-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modssc/inductive/methods/adamatch.py b/src/modssc/inductive/methods/adamatch.py
index a1f42d2..2317a4e 100644
--- a/src/modssc/inductive/methods/adamatch.py
+++ b/src/modssc/inductive/methods/adamatch.py
@@ -79,7 +79,7 @@ class AdaMatchMethod(TorchBundlePredictMixin, InductiveMethod):
                 device=probs_u.device,
             )
         assert self._p_model is not None and self._p_target is not None
-        mean_u = probs_u.mean(dim=0)
+        mean_u = probs_u.detach().mean(dim=0)
         mean_l = probs_l.mean(dim=0)
         momentum = float(self.spec.ema_p)
         self._p_model = momentum * self._p_model + (1.0 - momentum) * mean_u
diff --git a/src/modssc/inductive/methods/free_match.py b/src/modssc/inductive/methods/free_match.py
index e5b137e..bef2a82 100644
--- a/src/modssc/inductive/methods/free_match.py
+++ b/src/modssc/inductive/methods/free_match.py
@@ -93,6 +93,7 @@ class FreeMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         )
 
         m = float(self.spec.ema_p)
+        probs_u, max_probs = probs_u.detach(), max_probs.detach()
         value = max_probs.quantile(0.8) if bool(self.spec.use_quantile) else max_probs.mean()
         self._time_p = self._time_p * m + (1.0 - m) * value
         if bool(self.spec.clip_thresh):
diff --git a/src/modssc/inductive/methods/softmatch.py b/src/modssc/inductive/methods/softmatch.py
index 5b4e2c7..b781bcd 100644
--- a/src/modssc/inductive/methods/softmatch.py
+++ b/src/modssc/inductive/methods/softmatch.py
@@ -90,7 +90,7 @@ class SoftMatchMethod(TorchBundlePredictMixin, InductiveMethod):
             )
         assert self._p_model is not None and self._p_target is not None
         m = float(self.spec.ema_p)
-        self._p_model = self._p_model * m + (1.0 - m) * probs_u.mean(dim=0)
+        self._p_model = self._p_model * m + (1.0 - m) * probs_u.detach().mean(dim=0)
         if bool(self.spec.dist_uniform):
             target = self._p_target
         else:
@@ -118,6 +118,7 @@ class SoftMatchMethod(TorchBundlePredictMixin, InductiveMethod):
             raise InductiveValidationError("SoftMatch stats not initialized.")
 
         m = float(self.spec.ema_p)
+        max_probs = max_probs.detach()
         if not bool(self.spec.per_class):
             mu = max_probs.mean()
             var = (
-- 
2.43.0


From 2675408d3d4845532095226a6c5a396499f7082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 41/43] fix: refuse to score predictions of another length than
 the labels

Arrays of length one broadcast against the labels, so evaluate() and
'modssc evaluation compute' printed a score for arrays that do not match.
---
 src/modssc/evaluation/metrics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modssc/evaluation/metrics.py b/src/modssc/evaluation/metrics.py
index c085ad4..2306ba2 100644
--- a/src/modssc/evaluation/metrics.py
+++ b/src/modssc/evaluation/metrics.py
@@ -126,4 +126,8 @@ def evaluate(
     y_true_arr = labels_1d(y_true)
     scores = to_numpy(scores_or_labels)
     y_pred = predict_labels(scores)
+    if y_true_arr.shape[0] != y_pred.shape[0]:
+        raise ValueError(
+            f"y_true and predictions differ in length: {y_true_arr.shape[0]} != {y_pred.shape[0]}"
+        )
     return compute_metrics(y_true_arr, y_pred, metrics)
-- 
2.43.0


From 219dce79121879891837e9c1410386e95b7390d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:01 +0000
Subject: [PATCH 42/43] fix: purge a dataset by its catalog key too

'modssc datasets cache purge toy', as documented, purged nothing: the
index holds canonical URIs (toy:default), and the key was compared as is.
---
 src/modssc/cli/datasets.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/modssc/cli/datasets.py b/src/modssc/cli/datasets.py
index 5538d6e..200231a 100644
--- a/src/modssc/cli/datasets.py
+++ b/src/modssc/cli/datasets.py
@@ -134,6 +134,16 @@ def cache_ls(
         typer.echo(f"{r['fingerprint']} {r['canonical_uri']} {r.get('size_bytes', 0)}")
 
 
+def _canonical_uri(dataset_id: str) -> str:
+    # the index knows datasets by canonical URI, users also by catalog key
+    if dataset_id not in api.DATASET_CATALOG:
+        return dataset_id
+    try:
+        return api._resolve_identity(api.DatasetRequest(id=dataset_id)).canonical_uri
+    except DataLoaderError as exc:
+        exit_with_error(str(exc))
+
+
 @cache_app.command("purge")
 def cache_purge(
     dataset_or_fp: str,
@@ -148,7 +158,7 @@ def cache_purge(
         api.cache.purge_fingerprint(layout, dataset_or_fp)
         typer.echo(f"Purged fingerprint: {dataset_or_fp}")
     else:
-        fps = api.cache.purge_dataset(layout, dataset_or_fp)
+        fps = api.cache.purge_dataset(layout, _canonical_uri(dataset_or_fp))
         typer.echo(f"Purged variants: {len(fps)}")
 
 
-- 
2.43.0


From 90f522c10f7285893ad57dad994700a6ac2b8898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:31 +0000
Subject: [PATCH 43/43] fix: number test labels as the training labels are

labels.encode and labels.ensure_onehot numbered the classes of each split by
itself: with a class missing from (or only in) the test set, the same class had
different codes in train and test, and test metrics compared the wrong classes.
---
 src/modssc/preprocess/steps/labels/encode.py   | 18 ++++++++++++++++--
 .../preprocess/steps/labels/ensure_onehot.py   | 12 +++++++++---
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/modssc/preprocess/steps/labels/encode.py b/src/modssc/preprocess/steps/labels/encode.py
index 373cd96..10bb4c0 100644
--- a/src/modssc/preprocess/steps/labels/encode.py
+++ b/src/modssc/preprocess/steps/labels/encode.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 
 import numpy as np
 
@@ -10,9 +10,23 @@ from modssc.supervised.utils import encode_labels
 
 @dataclass
 class EncodeLabelsStep:
-    """Encode raw.y to contiguous int64 labels and store labels.y/classes."""
+    """Encode raw.y to contiguous int64 labels and store labels.y/classes.
+
+    The first split (train) numbers the classes. Later splits (test) use the same numbers;
+    labels the first split does not have are numbered after them.
+    """
+
+    _classes: np.ndarray | None = field(default=None, init=False, repr=False)
 
     def transform(self, store: ArtifactStore, *, rng: np.random.Generator) -> dict[str, object]:  # noqa: ARG002
         y = store.require("raw.y")
         y_enc, classes = encode_labels(y)
+        if self._classes is None:
+            self._classes = classes
+        else:
+            unseen = ~np.isin(classes, self._classes)
+            codes = np.searchsorted(self._classes, classes).astype(np.int64)
+            codes[unseen] = self._classes.size + np.arange(int(unseen.sum()))
+            y_enc = codes[y_enc]
+            classes = np.concatenate([self._classes, classes[unseen]])
         return {"labels.y": y_enc, "labels.classes": classes}
diff --git a/src/modssc/preprocess/steps/labels/ensure_onehot.py b/src/modssc/preprocess/steps/labels/ensure_onehot.py
index 3c0123f..bc5bb7f 100644
--- a/src/modssc/preprocess/steps/labels/ensure_onehot.py
+++ b/src/modssc/preprocess/steps/labels/ensure_onehot.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import Any
 
 import numpy as np
@@ -12,6 +12,8 @@ from modssc.preprocess.store import ArtifactStore
 class EnsureOneHotLabelsStep:
     unlabeled_value: int = -1
     dtype: str = "float32"
+    # classes of the first split (train): columns mean the same in later splits (test)
+    _classes: np.ndarray | None = field(default=None, init=False, repr=False)
 
     def transform(self, store: ArtifactStore, *, rng: np.random.Generator) -> dict[str, Any]:
         y = np.asarray(store.require("raw.y"))
@@ -23,11 +25,15 @@ class EnsureOneHotLabelsStep:
         else:
             classes = np.asarray([], dtype=y_flat.dtype)
 
+        if self._classes is None:
+            self._classes = classes
+        classes = self._classes
+
         C = int(classes.size)
         onehot = np.zeros((y_flat.size, C), dtype=self.dtype)
         if C > 0 and labeled.any():
-            rows = np.nonzero(labeled)[0]
-            cols = np.searchsorted(classes, y_flat[labeled])
+            rows = np.nonzero(labeled & np.isin(y_flat, classes))[0]
+            cols = np.searchsorted(classes, y_flat[rows])
             onehot[rows, cols] = 1.0
 
         return {"labels.y_onehot": onehot, "labels.is_labeled": labeled.astype(bool)}
-- 
2.43.0

