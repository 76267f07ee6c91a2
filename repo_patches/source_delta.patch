From a48cee78df361bbc590e47698b71843c8ad32d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 01/60] fix: resume exactly when some dataloader workers have
 already consumed all their items

---
 src/litdata/streaming/dataset.py | 60 +++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index 63b682a..831deb7 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -353,7 +353,11 @@ class StreamingDataset(IterableDataset):
         worker_end = worker_start + num_workers
 
         # replay sampling from each worker / chunks using the batch size
-        indexes = _replay_sampling(num_samples_yielded, batch_size, num_workers)
+        num_samples_per_worker = [
+            sum(interval[2] - interval[1] for interval in intervals)
+            for intervals in workers_intervals[worker_start:worker_end]
+        ]
+        indexes = _replay_sampling(num_samples_yielded, batch_size, num_workers, num_samples_per_worker)
         chunks_index, indexes = _replay_chunks_sampling(
             workers_intervals={i: workers_intervals[j] for i, j in enumerate(range(worker_start, worker_end))},
             indexes=indexes,
@@ -368,6 +372,12 @@ class StreamingDataset(IterableDataset):
         self.worker_chunks = workers_chunks[worker_rank]
         self.worker_intervals = workers_intervals[worker_rank]
 
+        if self.worker_next_chunk_index >= self.num_chunks:
+            # this worker has already consumed all its chunks, there is nothing left to yield in this epoch
+            self.upcoming_indexes = []
+            self.global_index = self.stop_length
+            return
+
         # replay the indexes for the current chunks
         interval = self.worker_intervals[self.worker_next_chunk_index]
         current_indexes = np.arange(interval[1], interval[2])
@@ -653,26 +663,44 @@ def is_integer(value: str) -> bool:
         return False
 
 
-def _replay_sampling(num_samples_yielded: int, batch_size: int, num_workers: int) -> Dict[int, int]:
-    """This function replays the sampling from the dataloader."""
-    divisible_num_batches_yielded = num_samples_yielded // (num_workers * batch_size)
+def _replay_sampling(
+    num_samples_yielded: int,
+    batch_size: int,
+    num_workers: int,
+    num_samples_per_worker: Optional[List[int]] = None,
+) -> Dict[int, int]:
+    """This function replays the sampling from the dataloader.
 
-    indexes = {}
-    for worker_idx in range(num_workers):
-        indexes[worker_idx] = divisible_num_batches_yielded * batch_size
+    The dataloader collects one batch from each worker in turn and skips the workers which are exhausted.
 
-    num_samples_yielded = num_samples_yielded - (num_workers * divisible_num_batches_yielded * batch_size)
+    """
+    indexes = dict.fromkeys(range(num_workers), 0)
+
+    # replay at once all the rounds where every worker provides a full batch
+    num_rounds = num_samples_yielded // (num_workers * batch_size)
+    if num_samples_per_worker is not None:
+        num_rounds = min(num_rounds, min(num_samples_per_worker) // batch_size)
+    for worker_idx in range(num_workers):
+        indexes[worker_idx] = num_rounds * batch_size
+    num_samples_yielded -= num_rounds * num_workers * batch_size
 
     # take care of the reminder
-    worker_idx = 0  # reset the worker_idx
-    while True:
-        if num_samples_yielded >= batch_size:
-            indexes[worker_idx] += batch_size
-            worker_idx = (worker_idx + 1) % num_workers
-            num_samples_yielded -= batch_size
+    worker_idx = 0
+    while num_samples_yielded > 0:
+        num_samples = min(batch_size, num_samples_yielded)
+        if num_samples_per_worker is not None:
+            if all(indexes[idx] >= num_samples_per_worker[idx] for idx in range(num_workers)):
+                break
+            num_samples_left = num_samples_per_worker[worker_idx] - indexes[worker_idx]
+            if num_samples_left <= 0:
+                worker_idx = (worker_idx + 1) % num_workers
+                continue
+            # an incomplete batch is accounted as a full one by the dataloader
+            indexes[worker_idx] += min(num_samples, num_samples_left)
         else:
-            indexes[worker_idx] += num_samples_yielded
-            break
+            indexes[worker_idx] += num_samples
+        num_samples_yielded -= num_samples
+        worker_idx = (worker_idx + 1) % num_workers
     return indexes
 
 
-- 
2.43.0


From 57dc6871179d1c011c8df48380608e76bf1ebbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:08 +0000
Subject: [PATCH 02/60] fix: keep saved loader states intact and restart the
 loader consistently after a resumed epoch

---
 src/litdata/streaming/dataloader.py | 23 ++++++++++++++---------
 src/litdata/streaming/dataset.py    |  4 ++--
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/litdata/streaming/dataloader.py b/src/litdata/streaming/dataloader.py
index c510f46..5baa84e 100644
--- a/src/litdata/streaming/dataloader.py
+++ b/src/litdata/streaming/dataloader.py
@@ -458,10 +458,9 @@ class _ProfileWorkerLoop:
 class _StreamingMultiProcessingDataLoaderIter(_MultiProcessingDataLoaderIter):
     def __init__(self, loader: DataLoader) -> None:
         self._loader = loader
+        # Restart on the worker following the one which provided the latest batch
         self._indexes = (
-            list(range(self._loader._latest_worker_idx, self._loader.num_workers))
-            if self._loader._latest_worker_idx > 0
-            else []
+            list(range(self._loader._latest_worker_idx + 1, self._loader.num_workers)) if self._loader.restore else []
         )
         self._num_workers = loader.num_workers
 
@@ -644,15 +643,20 @@ class StreamingDataLoader(DataLoader):
 
         if isinstance(self.dataset, StreamingDataset):
             assert self.batch_size
-            for batch in super().__iter__():
+            iterator = super().__iter__()
+            # The restored state is consumed. The next iteration starts a new epoch, even if this one isn't completed.
+            self.restore = False
+            for batch in iterator:
                 self._latest_worker_idx = next(self._worker_idx_iter)  # type: ignore
                 self._num_samples_yielded_streaming += self.batch_size
                 yield batch
         else:
             self.dataset._set_use_streaming_dataloader(True)
             assert self.batch_size
+            iterator = super().__iter__()
+            self.restore = False
             # TODO: Inject a custom collate function to avoid collating the __NUM_SAMPLES_YIELDED__ key
-            for batch in super().__iter__():
+            for batch in iterator:
                 self._latest_worker_idx = next(self._worker_idx_iter)  # type: ignore
                 if isinstance(batch, dict) and __NUM_SAMPLES_YIELDED_KEY__ in batch:
                     self._num_samples_yielded_combined[self._latest_worker_idx] = [
@@ -664,7 +668,6 @@ class StreamingDataLoader(DataLoader):
                 else:
                     yield batch
         logger.debug(_get_log_msg({"name": "iterating_dataloader", "ph": "E"}))
-        self.restore = False
 
     def __len__(self) -> int:
         if self._dataset_kind == _DatasetKind.Iterable:
@@ -712,6 +715,7 @@ class StreamingDataLoader(DataLoader):
 
         """
         self.current_epoch = obj["current_epoch"]
+        self.restore = False
 
         if isinstance(self.dataset, StreamingDataset):
             self._num_samples_yielded_streaming = obj["num_samples_yielded"]
@@ -719,13 +723,14 @@ class StreamingDataLoader(DataLoader):
             self._num_samples_yielded_combined = obj["num_samples_yielded"]
 
         # Used to restart on the next DataLoader worker from the previous run.
-        self._latest_worker_idx = obj["latest_worker_idx"] + 1
+        self._latest_worker_idx = obj["latest_worker_idx"]
+        self._worker_idx = cycle(list(range(self.num_workers if self.num_workers > 0 else 1)))
         self._worker_idx_iter = iter(self._worker_idx)
-        for _ in range(self._latest_worker_idx):
+        for _ in range(self._latest_worker_idx + 1):
             next(self._worker_idx_iter)
 
         # Inform we are resuming and disable resetting the StreamingDataLoader state.
-        # This is toggle back to False when the `__iter__` method of the StreamingDataLoader completes.
+        # This is toggle back to False when the `__iter__` method of the StreamingDataLoader starts.
         # self.restore = True
 
         if isinstance(self.dataset, CombinedStreamingDataset):
diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index 831deb7..9045382 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -487,8 +487,8 @@ class StreamingDataset(IterableDataset):
             raise RuntimeError("The method `state_dict` should only be called in the main process.")
 
         if self._state_dict is not None:
-            self._state_dict["num_samples_yielded"] = num_samples_yielded
-            return self._state_dict
+            # return a copy, otherwise the states returned so far would be altered as well
+            return {**self._state_dict, "num_samples_yielded": num_samples_yielded}
 
         return {
             "num_samples_yielded": num_samples_yielded,
-- 
2.43.0


From 8c7be234916b867f48815cfa461e3b71cf46a26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:52 +0000
Subject: [PATCH 03/60] fix: do not ignore a state loaded into a loader with
 running persistent workers

---
 src/litdata/streaming/dataloader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/litdata/streaming/dataloader.py b/src/litdata/streaming/dataloader.py
index 5baa84e..92acbf0 100644
--- a/src/litdata/streaming/dataloader.py
+++ b/src/litdata/streaming/dataloader.py
@@ -717,6 +717,9 @@ class StreamingDataLoader(DataLoader):
         self.current_epoch = obj["current_epoch"]
         self.restore = False
 
+        # The persistent workers would carry on from where they are, create new ones with the loaded state.
+        self._iterator = None
+
         if isinstance(self.dataset, StreamingDataset):
             self._num_samples_yielded_streaming = obj["num_samples_yielded"]
         else:
-- 
2.43.0


From 73efdab365399dbbd1e9d1c3aa58223ea100393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:13 +0000
Subject: [PATCH 04/60] fix: merge the index files of the workers by rank, not
 alphabetically

---
 src/litdata/streaming/writer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 2771106..da0c071 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -44,6 +44,12 @@ class Item:
         return self.bytes
 
 
+def _index_file_rank(index_filename: str) -> Tuple[int, str]:
+    """Sort key to order the index files `{rank}.index.json` or `{node_rank}-index.json` by their rank."""
+    prefix = index_filename[: -len(_INDEX_FILENAME)].rstrip(".-")
+    return (int(prefix) if prefix.isdigit() else -1, index_filename)
+
+
 class BinaryWriter:
     def __init__(
         self,
@@ -490,7 +496,7 @@ class BinaryWriter:
             chunks_info.extend(existing_index["chunks"])
             config = existing_index["config"]
 
-        for index_filename in sorted(index_files):
+        for index_filename in sorted(index_files, key=_index_file_rank):
             chunk_path = os.path.join(self._cache_dir, index_filename)
             with open(chunk_path) as f:
                 data = json.load(f)
-- 
2.43.0


From bcdef82471ff240da8065b57e30333e4696ebb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:17 +0000
Subject: [PATCH 05/60] fix: keep the type and structure of the inputs when
 they are split by size or weight

---
 src/litdata/processing/data_processor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 1cade64..e2f4fc5 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -359,7 +359,11 @@ def _map_items_to_workers_weighted(
         else:
             print(f"Worker {worker_id} gets ({len(worker_items[worker_id])}) items for a total weight of {size}.")
 
-    return [np.random.permutation(worker_items[worker_id]).tolist() for worker_id in worker_ids_this_node]
+    # Note: Shuffle the positions and not the items, as numpy would convert the items to its own types.
+    return [
+        [worker_items[worker_id][position] for position in np.random.permutation(len(worker_items[worker_id]))]
+        for worker_id in worker_ids_this_node
+    ]
 
 
 def _get_num_bytes(item: Any, base_path: str) -> int:
-- 
2.43.0


From b7d6409d0935e4126f34f9d4178a1826d6454015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:19 +0000
Subject: [PATCH 06/60] fix: report the workers which died instead of waiting
 for them forever

---
 src/litdata/processing/data_processor.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index e2f4fc5..1498777 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -1204,6 +1204,7 @@ class DataProcessor:
         num_nodes = _get_num_nodes()
         node_rank = _get_node_rank()
         total_num_items = len(user_items)
+        lost_workers: List[int] = []
 
         while True:
             try:
@@ -1214,6 +1215,11 @@ class DataProcessor:
                 try:
                     index, counter = self.progress_queue.get(timeout=0.001)
                 except Empty:
+                    # A worker which is gone without having reported all its items (e.g it has been killed) won't ever
+                    # do it. The queues are checked once more, as the report can arrive right before the worker ends.
+                    already_lost_workers, lost_workers = lost_workers, self._get_lost_workers(workers_user_items)
+                    if set(lost_workers) & set(already_lost_workers):
+                        self._exit_on_error(f"the workers {lost_workers} ended without processing all their items")
                     continue
                 self.workers_tracker[index] = counter
                 new_total = sum(self.workers_tracker.values())
@@ -1270,6 +1276,14 @@ class DataProcessor:
             # clean up checkpoints
             self._cleanup_checkpoints()
 
+    def _get_lost_workers(self, workers_user_items: List[List[Any]]) -> List[int]:
+        """Returns the workers which aren't alive and didn't report the processing of all their items."""
+        return [
+            worker_idx
+            for worker_idx, w in enumerate(self.workers)
+            if not w.is_alive() and self.workers_tracker.get(worker_idx, -1) != len(workers_user_items[worker_idx])
+        ]
+
     def _exit_on_error(self, error: str) -> None:
         for w in self.workers:
             # w.join(0)
-- 
2.43.0


From be76e40184063946a71fcef4906dd18f3cbadc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 07/60] fix: report a failed upload instead of publishing an
 incomplete dataset

---
 src/litdata/processing/data_processor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 1498777..b9fd6c0 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -269,6 +269,7 @@ def _upload_fn(
                 )
             except Exception as e:
                 print(e)
+                raise
 
         elif output_dir.path:
             output_filepath = output_dir.path
@@ -569,6 +570,8 @@ class BaseWorker:
                         # Wait for them all to be finished
                         for uploader in self.uploaders:
                             uploader.join()
+                            if uploader.exitcode:
+                                raise RuntimeError("The files couldn't all be uploaded to the output directory.")
 
                     if self.remove:
                         assert self.remover
-- 
2.43.0


From ced5dca1905cf95e54589056df258e06ca092f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 08/60] fix: resume from a checkpoint at the right input and
 only with uploaded chunks

---
 src/litdata/processing/data_processor.py | 26 +++++++++++++++++-------
 src/litdata/streaming/cache.py           |  6 ++++--
 src/litdata/streaming/writer.py          | 16 ++++++++++++---
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index b9fd6c0..87e1940 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -505,6 +505,7 @@ class BaseWorker:
         self._counter = 0
         self._last_time = time()
         self._index_counter = 0
+        self._stored_inputs: List[int] = []  # the input of each item stored, used to create the checkpoints
         self.writer_starting_chunk_index: int = writer_starting_chunk_index
         self.use_checkpoint: bool = use_checkpoint
         self.checkpoint_chunks_info: Optional[List[Dict[str, Any]]] = checkpoint_chunks_info
@@ -637,7 +638,7 @@ class BaseWorker:
             assert isinstance(self.checkpoint_next_index, int)
             assert isinstance(self.checkpoint_chunks_info, list)
 
-            self.cache._writer._chunks_info = self.checkpoint_chunks_info
+            self.cache._writer._chunks_info = list(self.checkpoint_chunks_info)
             self.cache._writer._chunk_index += self.checkpoint_next_index
 
     def _try_upload(self, data: Optional[Union[str, Tuple[str, str]]]) -> None:
@@ -649,7 +650,9 @@ class BaseWorker:
         else:
             assert os.path.exists(data[-1]), data
 
-        self.to_upload_queues[self._counter % self.num_uploaders].put(data)
+        # A checkpoint can only be uploaded once all the chunks it refers to are, so don't distribute the uploads then.
+        uploader_index = 0 if self.use_checkpoint else self._counter % self.num_uploaders
+        self.to_upload_queues[uploader_index].put(data)
 
     def _collect_paths(self) -> None:
         if self.no_downloaders:
@@ -773,8 +776,8 @@ class BaseWorker:
                 self._try_upload(chunk_filepath)
                 self._index_counter += 1
                 if self.use_checkpoint:
-                    checkpoint_filepath = self.cache.save_checkpoint()
-                    self._try_upload(checkpoint_filepath)
+                    self._stored_inputs.append(index)
+                    self._save_checkpoint()
         except Exception as e:
             raise RuntimeError(f"Failed processing {self.items[index]=}; {index=}") from e
 
@@ -788,11 +791,20 @@ class BaseWorker:
         if chunks_filepaths and len(self.to_upload_queues):
             for i, chunk_filepath in enumerate(chunks_filepaths):
                 if isinstance(chunk_filepath, str) and os.path.exists(chunk_filepath):
-                    self.to_upload_queues[i % self.num_uploaders].put(chunk_filepath)
+                    uploader_index = 0 if self.use_checkpoint else i % self.num_uploaders
+                    self.to_upload_queues[uploader_index].put(chunk_filepath)
 
         if self.use_checkpoint and not self.data_recipe.is_generator:
-            checkpoint_filepath = self.cache.save_checkpoint()
-            self._try_upload(checkpoint_filepath)
+            self._save_checkpoint()
+
+    def _save_checkpoint(self) -> None:
+        """Save the chunks written so far and from which input to resume, i.e. the first one not stored in them."""
+        num_previous_items = sum(chunk["chunk_size"] for chunk in self.checkpoint_chunks_info or [])
+        num_stored_items = sum(chunk["chunk_size"] for chunk in self.cache._writer._chunks_info) - num_previous_items
+        done_till_index = self.checkpoint_next_index or 0
+        if num_stored_items > 0:
+            done_till_index += self._stored_inputs[num_stored_items - 1] + 1
+        self._try_upload(self.cache.save_checkpoint(done_till_index=done_till_index))
 
     def _handle_data_transform_recipe(self, index: int) -> None:
         """Used by map fn to run the user provided fn on each item of the input data.
diff --git a/src/litdata/streaming/cache.py b/src/litdata/streaming/cache.py
index d045d5d..a8b22f8 100644
--- a/src/litdata/streaming/cache.py
+++ b/src/litdata/streaming/cache.py
@@ -165,6 +165,8 @@ class Cache:
     def _get_chunk_index_from_index(self, index: int) -> Tuple[int, int]:
         return self._reader._get_chunk_index_from_index(index)
 
-    def save_checkpoint(self, checkpoint_dir: str = ".checkpoints") -> Optional[str]:
+    def save_checkpoint(
+        self, checkpoint_dir: str = ".checkpoints", done_till_index: Optional[int] = None
+    ) -> Optional[str]:
         """Save the current state of the writer to a checkpoint."""
-        return self._writer.save_checkpoint(checkpoint_dir=checkpoint_dir)
+        return self._writer.save_checkpoint(checkpoint_dir=checkpoint_dir, done_till_index=done_till_index)
diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index da0c071..e5a9ac8 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -545,8 +545,17 @@ class BinaryWriter:
             )
         return out
 
-    def save_checkpoint(self, checkpoint_dir: str = ".checkpoints") -> Optional[str]:
-        """Save the current state of the writer to a checkpoint."""
+    def save_checkpoint(
+        self, checkpoint_dir: str = ".checkpoints", done_till_index: Optional[int] = None
+    ) -> Optional[str]:
+        """Save the current state of the writer to a checkpoint.
+
+        Args:
+            checkpoint_dir: The directory where the checkpoint is saved, relative to the cache directory.
+            done_till_index: The index of the first input to process when resuming from this checkpoint. By default,
+                the number of items stored in the chunks.
+
+        """
         checkpoint_dir = os.path.join(self._cache_dir, checkpoint_dir)
         if not os.path.exists(checkpoint_dir):
             os.makedirs(checkpoint_dir, exist_ok=True)
@@ -556,7 +565,8 @@ class BinaryWriter:
             return None
 
         unique_id = uuid.uuid4().hex
-        done_till_index = sum(chnk_info["chunk_size"] for chnk_info in self._chunks_info)
+        if done_till_index is None:
+            done_till_index = sum(chnk_info["chunk_size"] for chnk_info in self._chunks_info)
 
         checkpoint_filepath = os.path.join(checkpoint_dir, f"checkpoint-{self.rank}-{unique_id}.json")
 
-- 
2.43.0


From f451ee0358122f1646f3451ad2a7cb42de67966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 09/60] fix: keep the data format when resuming from a
 checkpoint and refuse an incompatible one

---
 src/litdata/processing/data_processor.py |  9 +++++++++
 src/litdata/streaming/writer.py          | 16 ++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 87e1940..2058b84 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -475,6 +475,7 @@ class BaseWorker:
         checkpoint_next_index: Optional[int] = None,
         item_loader: Optional[BaseItemLoader] = None,
         storage_options: Dict[str, Any] = {},
+        checkpoint_config: Optional[Dict[str, Any]] = None,
     ) -> None:
         """The BaseWorker is responsible to process the user data."""
         self.worker_index = worker_index
@@ -510,6 +511,7 @@ class BaseWorker:
         self.use_checkpoint: bool = use_checkpoint
         self.checkpoint_chunks_info: Optional[List[Dict[str, Any]]] = checkpoint_chunks_info
         self.checkpoint_next_index: Optional[int] = checkpoint_next_index
+        self.checkpoint_config: Optional[Dict[str, Any]] = checkpoint_config
         self.storage_options = storage_options
 
     def run(self) -> None:
@@ -640,6 +642,8 @@ class BaseWorker:
 
             self.cache._writer._chunks_info = list(self.checkpoint_chunks_info)
             self.cache._writer._chunk_index += self.checkpoint_next_index
+            if self.checkpoint_config is not None:
+                self.cache._writer.load_config(self.checkpoint_config)
 
     def _try_upload(self, data: Optional[Union[str, Tuple[str, str]]]) -> None:
         if not data or (self.output_dir.url if self.output_dir.url else self.output_dir.path) is None:
@@ -1091,6 +1095,7 @@ class DataProcessor:
         self.use_checkpoint = use_checkpoint
         self.checkpoint_chunks_info: Optional[List[List[Dict[str, Any]]]] = None
         self.checkpoint_next_index: Optional[List[int]] = None
+        self.checkpoint_configs: Optional[List[Optional[Dict[str, Any]]]] = None
         self.item_loader = item_loader
         self.storage_options = storage_options
 
@@ -1332,6 +1337,7 @@ class DataProcessor:
                 self.checkpoint_next_index[worker_idx] if self.checkpoint_next_index else None,
                 self.item_loader,
                 self.storage_options,
+                self.checkpoint_configs[worker_idx] if self.checkpoint_configs else None,
             )
             worker.start()
             workers.append(worker)
@@ -1442,6 +1448,7 @@ class DataProcessor:
 
         self.checkpoint_chunks_info = [default_chunk_info for _ in range(self.num_workers)]
         self.checkpoint_next_index = [0 for _ in range(self.num_workers)]
+        self.checkpoint_configs = [None for _ in range(self.num_workers)]
 
         if self.output_dir.url is None:
             assert self.output_dir.path
@@ -1476,6 +1483,7 @@ class DataProcessor:
 
                 self.checkpoint_chunks_info[i] = checkpoint["chunks"]
                 self.checkpoint_next_index[i] = checkpoint["done_till_index"]
+                self.checkpoint_configs[i] = checkpoint["config"]
             return
 
         obj = parse.urlparse(self.output_dir.url)
@@ -1520,6 +1528,7 @@ class DataProcessor:
 
                 self.checkpoint_chunks_info[i] = checkpoint["chunks"]
                 self.checkpoint_next_index[i] = checkpoint["done_till_index"]
+                self.checkpoint_configs[i] = checkpoint["config"]
         return
 
 
diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index e5a9ac8..4938d50 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -26,7 +26,7 @@ from litdata.processing.utilities import get_worker_rank
 from litdata.streaming.compression import _COMPRESSORS, Compressor
 from litdata.streaming.item_loader import BaseItemLoader, ParquetLoader, PyTreeLoader
 from litdata.streaming.serializers import Serializer, _get_serializers
-from litdata.utilities._pytree import PyTree, tree_flatten, treespec_dumps
+from litdata.utilities._pytree import PyTree, tree_flatten, treespec_dumps, treespec_loads
 from litdata.utilities.encryption import Encryption, EncryptionLevel
 from litdata.utilities.env import _DistributedEnv, _WorkerEnv
 from litdata.utilities.format import _convert_bytes_to_int, _human_readable_bytes
@@ -162,6 +162,18 @@ class BinaryWriter:
             "item_loader": self._item_loader.__class__.__name__,
         }
 
+    def load_config(self, config: Dict[str, Any]) -> None:
+        """Restore the data format from the config of a checkpoint, to carry on with the chunks it refers to."""
+        data_keys = ("data_format", "data_spec")
+        current_config = self.get_config()
+        if any(config.get(key) != value for key, value in current_config.items() if key not in data_keys):
+            raise ValueError(
+                "Existing checkpoints are not compatible with the current configuration."
+                f" Found {config}; {current_config}."
+            )
+        self._data_format = config["data_format"]
+        self._data_spec = treespec_loads(config["data_spec"]) if config["data_spec"] else None
+
     def serialize(self, items: Any) -> Tuple[bytes, Optional[int]]:
         """Serialize a dictionary into its binary format."""
         # Flatten the items provided by the users
@@ -171,7 +183,7 @@ class BinaryWriter:
         sizes: List[int] = []
         data: List[bytes] = []
 
-        if self._data_format is None:
+        if self._data_format is None or not self._serializers_extra:
             data_format: List[str] = []
             for item in flattened:
                 data_format.append(self._serialize(item, sizes, data))
-- 
2.43.0


From df0143b989e27e20573b814d9491cd07bee638c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 10/60] fix: never leave a partially copied index, checkpoint
 or chunk in the output directory

---
 src/litdata/processing/data_processor.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 2058b84..0a12980 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -217,6 +217,13 @@ def keep_path(path: str) -> bool:
     return all(p not in path for p in paths)
 
 
+def _copy_file(src: str, dst: str) -> None:
+    """Copy a file such that an interruption never leaves a partial file (or a damaged previous one) behind."""
+    tmp = f"{dst}.{os.getpid()}.tmp"
+    shutil.copy(src, tmp)
+    os.replace(tmp, dst)
+
+
 #
 # `_upload_fn` accepts two queues:
 # 1. `upload_queue`: A queue that receives the local file paths ready to be uploaded.
@@ -285,7 +292,7 @@ def _upload_fn(
             output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
 
             os.makedirs(os.path.dirname(output_filepath), exist_ok=True)
-            shutil.copy(local_filepath, output_filepath)
+            _copy_file(local_filepath, output_filepath)
         else:
             raise ValueError(f"The provided {output_dir.path} isn't supported.")
 
@@ -977,7 +984,7 @@ class DataChunkRecipe(DataRecipe):
                 os.path.join(output_dir.url, os.path.basename(local_filepath)),
             )
         elif output_dir.path and os.path.isdir(output_dir.path):
-            shutil.copyfile(local_filepath, os.path.join(output_dir.path, os.path.basename(local_filepath)))
+            _copy_file(local_filepath, os.path.join(output_dir.path, os.path.basename(local_filepath)))
 
         if num_nodes == 1 or node_rank is None:
             return
@@ -1414,8 +1421,10 @@ class DataProcessor:
                 if not os.path.exists(os.path.join(self.output_dir.path, ".checkpoints")):
                     os.makedirs(os.path.join(self.output_dir.path, ".checkpoints"))
 
-                with open(os.path.join(self.output_dir.path, ".checkpoints", "config.json"), "w") as f:
+                config_filepath = os.path.join(self.output_dir.path, ".checkpoints", "config.json")
+                with open(config_filepath + ".tmp", "w") as f:
                     json.dump(config, f)
+                os.replace(config_filepath + ".tmp", config_filepath)
 
                 return
 
-- 
2.43.0


From a99f4e69b588a3736b85b835bc510e01dd78dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 11/60] fix: process the items in order with several
 downloaders

---
 src/litdata/processing/data_processor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 0a12980..6595382 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -29,7 +29,7 @@ from multiprocessing import Process, Queue
 from pathlib import Path
 from queue import Empty
 from time import sleep, time
-from typing import Any, Dict, List, Optional, Tuple, TypeVar, Union
+from typing import Any, Dict, List, Optional, Set, Tuple, TypeVar, Union
 from urllib import parse
 
 import numpy as np
@@ -560,9 +560,15 @@ class BaseWorker:
         finally, it will upload and remove the data depending on the recipe type.
         """
         num_downloader_finished = 0
+        ready_indexes: Set[int] = set()
 
         while True:
-            index = self.ready_to_process_queue.get()
+            # With several downloaders, the items aren't always ready in order. Process them in order nonetheless.
+            index = self._counter if self._counter in ready_indexes else self.ready_to_process_queue.get()
+
+            if index is not None and index != self._counter:
+                ready_indexes.add(index)
+                continue
 
             if index is None:
                 num_downloader_finished += 1
-- 
2.43.0


From cb1a5622cb96b48f4ebb53ce944d7bfb49228429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 12/60] fix: report a failed download instead of waiting for it
 forever

---
 src/litdata/processing/data_processor.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 6595382..ecede44 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -564,7 +564,7 @@ class BaseWorker:
 
         while True:
             # With several downloaders, the items aren't always ready in order. Process them in order nonetheless.
-            index = self._counter if self._counter in ready_indexes else self.ready_to_process_queue.get()
+            index = self._counter if self._counter in ready_indexes else self._get_ready_index()
 
             if index is not None and index != self._counter:
                 ready_indexes.add(index)
@@ -620,6 +620,18 @@ class BaseWorker:
             except Empty:
                 pass
 
+    def _get_ready_index(self) -> Optional[int]:
+        """Wait for the next item to be ready, provided the downloaders are still able to make one ready."""
+        if not self.downloaders:
+            return self.ready_to_process_queue.get()
+
+        while True:
+            try:
+                return self.ready_to_process_queue.get(timeout=1)
+            except Empty:
+                if any(downloader.exitcode for downloader in self.downloaders):
+                    raise RuntimeError("The input files couldn't all be downloaded.")
+
     def _set_environ_variables(self) -> None:
         # set the optimizer global rank and world_size
         os.environ["DATA_OPTIMIZER_GLOBAL_RANK"] = str(_get_node_rank() * self.num_workers + self.worker_index)
-- 
2.43.0


From ab180c7efb9648b597fdf35c846da1d9b4e79600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 13/60] fix: recognise the inputs of the interrupted run when
 they contain tuples

---
 src/litdata/processing/data_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index ecede44..496e07d 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -1495,7 +1495,7 @@ class DataProcessor:
                     "The number of workers in the checkpoints doesn't match the current number of workers."
                 )
 
-            if config["workers_user_items"] != workers_user_items:
+            if config["workers_user_items"] != json.loads(json.dumps(workers_user_items)):
                 raise ValueError("Existing checkpoints are not compatible with the current configuration.")
 
             checkpoint_file_names = [f"checkpoint-{worker_idx}.json" for worker_idx in range(self.num_workers)]
@@ -1540,7 +1540,7 @@ class DataProcessor:
                     "The number of workers in the checkpoints doesn't match the current number of workers."
                 )
 
-            if config["workers_user_items"] != workers_user_items:
+            if config["workers_user_items"] != json.loads(json.dumps(workers_user_items)):
                 raise ValueError("Existing checkpoints are not compatible with the current configuration.")
 
             checkpoint_file_names = [f"checkpoint-{worker_idx}.json" for worker_idx in range(self.num_workers)]
-- 
2.43.0


From ce13408e06fe04c33bfaea4f07450c2a7b21a5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 14/60] fix: don't take the files of an interrupted run in the
 cloud for a dataset

---
 src/litdata/streaming/resolver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index 6233f60..2f532ce 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -319,8 +319,7 @@ def _assert_dir_has_index_file(
 
     # Check the index file exists
     try:
-        fs_provider.exists(os.path.join(prefix, "index.json"))
-        has_index_file = True
+        has_index_file = fs_provider.exists(os.path.join(prefix, "index.json"))
     except Exception:
         has_index_file = False
 
@@ -331,8 +330,9 @@ def _assert_dir_has_index_file(
             "\n HINT: If you want to append/overwrite to the existing dataset, use `mode='append | overwrite'`."
         )
 
-    # delete all the files (including the index file in overwrite mode)
-    if mode == "overwrite" or (mode is None and not use_checkpoint):
+    # delete all the files (including the index file) in overwrite mode. Otherwise, there is no dataset and the chunks
+    # left by an interrupted run, if any, are either replaced or ignored.
+    if mode == "overwrite":
         fs_provider.delete_file_or_directory(output_dir.url)
 
 
-- 
2.43.0


From ded9efd800d22a1b1bd14447481594dd21b707c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 15/60] fix: delete all the objects of the overwritten dataset
 in S3, and only them

---
 src/litdata/streaming/fs_provider.py | 11 +++++++----
 src/litdata/streaming/resolver.py    |  3 ++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/litdata/streaming/fs_provider.py b/src/litdata/streaming/fs_provider.py
index c85ccb8..0dd62c6 100644
--- a/src/litdata/streaming/fs_provider.py
+++ b/src/litdata/streaming/fs_provider.py
@@ -190,11 +190,14 @@ class S3FsProvider(FsProvider):
         """Delete the file or the directory."""
         bucket_name, blob_path = get_bucket_and_path(path, "s3")
 
-        # List objects under the given path
-        objects = self.client.client.list_objects_v2(Bucket=bucket_name, Prefix=blob_path)
+        while True:
+            # List objects under the given path, at most 1000 at once
+            objects = self.client.client.list_objects_v2(Bucket=bucket_name, Prefix=blob_path)
+
+            # Check if objects exist
+            if "Contents" not in objects:
+                return
 
-        # Check if objects exist
-        if "Contents" in objects:
             for obj in objects["Contents"]:
                 self.client.client.delete_object(Bucket=bucket_name, Key=obj["Key"])
 
diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index 2f532ce..b635f0c 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -333,7 +333,8 @@ def _assert_dir_has_index_file(
     # delete all the files (including the index file) in overwrite mode. Otherwise, there is no dataset and the chunks
     # left by an interrupted run, if any, are either replaced or ignored.
     if mode == "overwrite":
-        fs_provider.delete_file_or_directory(output_dir.url)
+        # Note: the trailing slash is required to not match the directories whose name starts alike
+        fs_provider.delete_file_or_directory(prefix)
 
 
 def _get_lightning_cloud_url() -> str:
-- 
2.43.0


From 06fd9dd93b2ae43eaa4ea4a46b518e689a5d191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 16/60] fix: do not mix chunks of an interrupted run with the
 dataset appended to a directory without one

---
 src/litdata/streaming/resolver.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index b635f0c..1b71ec5 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -265,7 +265,7 @@ def _assert_dir_has_index_file(
     if mode is not None and mode not in ["append", "overwrite"]:
         raise ValueError(f"The provided `mode` should be either `append` or `overwrite`. Found {mode}.")
 
-    if mode == "append":
+    if mode == "append" and (not isinstance(output_dir, Dir) or output_dir.url is not None):
         # in append mode, we neither need to delete the index file nor the chunks
         return
 
@@ -276,6 +276,12 @@ def _assert_dir_has_index_file(
         # this is a local directory
         assert output_dir.path
 
+        if mode == "append":
+            if os.path.exists(os.path.join(output_dir.path, "index.json")):
+                return
+            # there is nothing to append to, only chunks left by an interrupted run, if any
+            mode = None
+
         if os.path.exists(output_dir.path):
             # we need to delete the index file
             index_file = os.path.join(output_dir.path, "index.json")
-- 
2.43.0


From 3e8776d6b277b9dd7ffe6fc51ed451ed2ad2e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 17/60] fix: shuffle empty datasets, e.g. a split without items

---
 src/litdata/streaming/shuffle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/litdata/streaming/shuffle.py b/src/litdata/streaming/shuffle.py
index 90e1085..17e5062 100644
--- a/src/litdata/streaming/shuffle.py
+++ b/src/litdata/streaming/shuffle.py
@@ -103,8 +103,6 @@ class FullShuffle(Shuffle):
         chunk_intervals = self.cache.get_chunk_intervals()
 
         # 2. Shuffle them
-        indexes = range(len(chunk_intervals))
-
         # If we have multiple nodes, the seed_shift is constant here.
         # Here is why. When you are running epoch 1, we need to shuffle the chunks
         # and associate to each rank. This is done there.
@@ -112,7 +110,7 @@ class FullShuffle(Shuffle):
         # than in epoch 1 because shuffle a second time within the node.
         # This is done slighyly down this function.
         seed_shift = 1 if distributed_env.num_nodes > 1 else current_epoch
-        shuffled_indexes = np.random.RandomState([self.seed, seed_shift]).permutation(indexes)
+        shuffled_indexes = np.random.RandomState([self.seed, seed_shift]).permutation(len(chunk_intervals))
         shuffled_chunk_intervals = np.asarray(chunk_intervals)[shuffled_indexes].tolist()
 
         # 3. Compute the items budget of each rank
-- 
2.43.0


From f45ccaf39f510a2a4ed34e205bfa10a71392f8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 18/60] fix: reopen the chunk when it is read again after the
 end of an iteration

---
 src/litdata/streaming/item_loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index ea7dcb8..47da34a 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -301,6 +301,8 @@ class PyTreeLoader(BaseItemLoader):
         if self._open_handle is not None:
             self._open_handle.close()
             self._open_handle = None
+            # the chunk needs to be opened again if it is read later on
+            self._chunk_filepath = None
 
     def delete(self, chunk_index: int, chunk_filepath: str) -> None:
         logger.debug(
-- 
2.43.0


From 2629e6a6269f2257f1822f2e22a96404050edd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 19/60] fix: split a shuffled or oversampled subsample by its
 own chunks and regions

---
 src/litdata/utilities/train_test_split.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/litdata/utilities/train_test_split.py b/src/litdata/utilities/train_test_split.py
index b1332c6..acf9ffd 100644
--- a/src/litdata/utilities/train_test_split.py
+++ b/src/litdata/utilities/train_test_split.py
@@ -58,10 +58,9 @@ def train_test_split(
         # load chunks from `index.json` file
         data = load_index_file(input_dir.path)
 
-        original_chunks = data["chunks"]
-        subsampled_chunks = [
-            _org_chunk for _org_chunk in original_chunks if _org_chunk["filename"] in dummy_subsampled_chunk_filename
-        ]
+        # keep the order of the subsampled files, so that each chunk is associated to its own region of interest
+        original_chunks = {_org_chunk["filename"]: _org_chunk for _org_chunk in data["chunks"]}
+        subsampled_chunks = [original_chunks[filename] for filename in dummy_subsampled_chunk_filename]
     else:
         raise ValueError("Couldn't load original chunk file.")
 
-- 
2.43.0


From a8d165e04ff511737328f6c458f54ecc8b74b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 20/60] fix: wait for a chunk which is evicted just before it
 is opened, and keep reading an encrypted one

---
 src/litdata/streaming/item_loader.py | 41 +++++++++++++++++-----------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 47da34a..ca6634b 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -180,26 +180,25 @@ class PyTreeLoader(BaseItemLoader):
 
         if chunk_filepath != self._chunk_filepath:
             start_time = time()
-            exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
+            handle = self._try_open(chunk_filepath, filesize_bytes)
             requested_force_download = False
 
-            while not exists:
+            while handle is None:
                 sleep(0.1)
-                exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
+                handle = self._try_open(chunk_filepath, filesize_bytes)
 
                 if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
                     self.force_download(chunk_index)
                     requested_force_download = True
 
-                if (time() - start_time) > _MAX_WAIT_TIME:
+                if handle is None and (time() - start_time) > _MAX_WAIT_TIME:
                     raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
 
-            self._chunk_filepath = chunk_filepath
-
             if self._open_handle is not None:
                 self._open_handle.close()
 
-            self._open_handle = open(chunk_filepath, "rb", 0)  # noqa: SIM115
+            self._open_handle = handle
+            self._chunk_filepath = chunk_filepath
 
         if self._config.get("encryption"):
             data = self._load_encrypted_data(chunk_filepath, chunk_index, offset, encryption)
@@ -220,30 +219,40 @@ class PyTreeLoader(BaseItemLoader):
 
         return item_data
 
+    @staticmethod
+    def _try_open(chunk_filepath: str, filesize_bytes: int) -> Optional[FileIO]:
+        """Open the chunk if it is complete, knowing it could be evicted from the cache at any time until it is open."""
+        try:
+            if os.stat(chunk_filepath).st_size >= filesize_bytes:
+                return open(chunk_filepath, "rb", 0)
+        except FileNotFoundError:
+            pass
+        return None
+
     def _load_encrypted_data(
         self, chunk_filepath: str, chunk_index: int, offset: int, encryption: Optional[Encryption]
     ) -> bytes:
         """Load and decrypt data from chunk based on the encryption configuration."""
         # Validate the provided encryption object against the expected configuration.
         self._validate_encryption(encryption)
+        assert self._open_handle
 
         # chunk-level decryption
         if self._config["encryption"]["level"] == EncryptionLevel.CHUNK:
             decrypted_data = self._decrypted_chunks.get(chunk_index, None)
             if decrypted_data is None:
-                with open(chunk_filepath, "rb", 0) as fp:
-                    encrypted_data = fp.read()
-                    decrypted_data = encryption.decrypt(encrypted_data)  # type: ignore
-                    # Store the decrypted chunk to avoid re-decryption,
-                    # also allows to free the previous chunk from the memory
-                    self._decrypted_chunks = {chunk_index: decrypted_data}
+                self._open_handle.seek(0)
+                encrypted_data = self._open_handle.read()
+                decrypted_data = encryption.decrypt(encrypted_data)  # type: ignore
+                # Store the decrypted chunk to avoid re-decryption,
+                # also allows to free the previous chunk from the memory
+                self._decrypted_chunks = {chunk_index: decrypted_data}
             data = self._load_data(BytesIO(decrypted_data), offset)
 
         # sample-level decryption
         elif self._config["encryption"]["level"] == EncryptionLevel.SAMPLE:
-            with open(chunk_filepath, "rb", 0) as fp:
-                data = self._load_data(fp, offset)
-                data = encryption.decrypt(data)  # type: ignore
+            data = self._load_data(self._open_handle, offset)
+            data = encryption.decrypt(data)  # type: ignore
 
         else:
             raise ValueError("Invalid encryption level.")
-- 
2.43.0


From a6e719312a1b2a37efddd83b43308fbb640ed5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 21/60] fix: keep the tokens handed out valid when their chunk
 is evicted

---
 src/litdata/streaming/item_loader.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index ca6634b..7bb8993 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -542,8 +542,7 @@ class TokensLoader(BaseItemLoader):
             if chunk_index in self._buffers:
                 del self._buffers[chunk_index]
             if chunk_index in self._mmaps:
-                # explicitly close before deleting. Won't raise error if already closed.
-                self._mmaps[chunk_index]._mmap.close()
+                # the file stays mapped as long as some of its items are still in use
                 del self._mmaps[chunk_index]
                 del self._counter[chunk_index]
             os.remove(chunk_filepath)
@@ -565,7 +564,6 @@ class TokensLoader(BaseItemLoader):
             if chunk_index in self._buffers:
                 del self._buffers[chunk_index]
             if chunk_index in self._mmaps:
-                self._mmaps[chunk_index]._mmap.close()
                 del self._mmaps[chunk_index]
 
     @classmethod
-- 
2.43.0


From 902518a6068e0f8b63faf9360ca56fc7f5f40cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 22/60] fix: load an empty split of a dataset of tokens

---
 src/litdata/streaming/item_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 7bb8993..779ff69 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -423,7 +423,7 @@ class TokensLoader(BaseItemLoader):
             if serializer_name == "no_header_tensor"
             else _NUMPY_DTYPES_MAPPING[int(dtype_index)]
         )
-        if all(chunk["dim"] is None for chunk in self._chunks):
+        if self._chunks and all(chunk["dim"] is None for chunk in self._chunks):
             raise ValueError("The provided chunks isn't properly setup.")
 
     def generate_intervals(self) -> List[Interval]:
-- 
2.43.0


From 15f70e455786247b62388ef48dc5780f14a5881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 23/60] fix: copy and pickle datasets of tokens which have
 already been read

---
 src/litdata/streaming/item_loader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 779ff69..f0568fc 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -591,6 +591,12 @@ class TokensLoader(BaseItemLoader):
         """
         return data[0], flattened[0].shape[0]
 
+    def __getstate__(self) -> Dict[str, Any]:
+        # the memory-mapped files can't be copied or pickled, they are mapped again when needed
+        state = self.__dict__.copy()
+        state.update(_mmaps={}, _buffers={}, _counter=defaultdict(int), _chunk_filepaths={})
+        return state
+
 
 class ParquetLoader(BaseItemLoader):
     def __init__(self, pre_load_chunk: bool = False, low_memory: bool = True) -> None:
-- 
2.43.0


From 003471c35f18116a9eb7e7266c2bb3fc6732965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 24/60] fix: iterate over all the datasets when some of them
 have no item for this rank

---
 src/litdata/streaming/combined.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index ee5f999..3d7588d 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -90,9 +90,7 @@ class CombinedStreamingDataset(IterableDataset):
         if weights is None:
             # Weighted based on the dataset length
             dataset_lens = [len(d) for d in datasets]
-            total_len = sum(dataset_lens)
-            assert total_len > 0
-            self._weights = [len / total_len for len in dataset_lens]
+            self._weights = _normalize_weights(dataset_lens)
         else:
             weights_sum = sum(weights)
             self._weights = [w / weights_sum for w in weights]
@@ -225,6 +223,16 @@ class CombinedStreamingDataset(IterableDataset):
             self._num_samples_yielded = state_dict["num_samples_yielded"]
 
 
+def _normalize_weights(weights: Sequence[Optional[float]]) -> List[Optional[float]]:
+    """Normalize the weights of the datasets which aren't exhausted (not None)."""
+    weights_left = [w for w in weights if w is not None]
+    weights_sum = sum(weights_left)
+    if weights_sum == 0:
+        # only datasets announced as empty (e.g. no item for this rank) are left, they are equally likely
+        return [None if w is None else 1 / len(weights_left) for w in weights]
+    return [None if w is None else w / weights_sum for w in weights]
+
+
 class _CombinedDatasetIterator(Iterator):
     def __init__(
         self,
@@ -292,8 +300,7 @@ class _CombinedDatasetIterator(Iterator):
 
                     self._dataset_indexes[dataset_index] = None
                     self._weights[dataset_index] = None  # type: ignore
-                    new_sum = sum([w for w in self._weights if w is not None])
-                    self._weights = [None if w is None else w / new_sum for w in self._weights]
+                    self._weights = _normalize_weights(self._weights)
 
         # stop on the first iteration
         return self._get_sample(self._get_dataset_index())
-- 
2.43.0


From 382dafdee0ef09f204f84cea5b4baa31e3152cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:47 +0000
Subject: [PATCH 25/60] fix: keep the batch size and number of workers of a
 combined dataset when taking its length

---
 src/litdata/streaming/combined.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index 3d7588d..d61901d 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -111,7 +111,7 @@ class CombinedStreamingDataset(IterableDataset):
         return None
 
     def __len__(self) -> Optional[int]:
-        return self.get_len(1, 1)
+        return self.get_len(self.num_workers, self.batch_size)
 
     # total length of the datasets
     def _get_total_length(self) -> int:
@@ -145,6 +145,7 @@ class CombinedStreamingDataset(IterableDataset):
 
     def set_num_workers(self, num_workers: int) -> None:
         """Set the current number of workers to the datasets."""
+        self.num_workers = num_workers
         for dataset in self._datasets:
             dataset.set_num_workers(num_workers)
 
-- 
2.43.0


From 7c076478a6377ee9c2623c3862430fa0f7f4cac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 26/60] fix: attribute the batches to the worker they come from
 once a worker is exhausted

---
 src/litdata/streaming/dataloader.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/dataloader.py b/src/litdata/streaming/dataloader.py
index 92acbf0..82ddc9f 100644
--- a/src/litdata/streaming/dataloader.py
+++ b/src/litdata/streaming/dataloader.py
@@ -493,6 +493,13 @@ class _StreamingMultiProcessingDataLoaderIter(_MultiProcessingDataLoaderIter):
         else:
             super()._try_put_index()
 
+    def _process_data(self, data: Any, *args: Any) -> Any:
+        # The workers don't alternate anymore once one of them is exhausted: keep track of the one providing the batch.
+        # Note: Older versions of PyTorch don't provide the index of the worker.
+        if args:
+            self._loader._batch_worker_idx = args[0]
+        return super()._process_data(data, *args)
+
 
 class StreamingDataLoaderCollateFn:
     def __init__(self, collate_fn: Optional[Callable] = None) -> None:
@@ -617,6 +624,7 @@ class StreamingDataLoader(DataLoader):
         self._worker_idx = cycle(list(range(self.num_workers if self.num_workers > 0 else 1)))
         self._worker_idx_iter: Optional[Any] = None
         self._latest_worker_idx = 0
+        self._batch_worker_idx: Optional[int] = None
         self.restore = False
         super().__init__(
             dataset,
@@ -647,7 +655,7 @@ class StreamingDataLoader(DataLoader):
             # The restored state is consumed. The next iteration starts a new epoch, even if this one isn't completed.
             self.restore = False
             for batch in iterator:
-                self._latest_worker_idx = next(self._worker_idx_iter)  # type: ignore
+                self._latest_worker_idx = self._get_latest_worker_idx()
                 self._num_samples_yielded_streaming += self.batch_size
                 yield batch
         else:
@@ -657,7 +665,7 @@ class StreamingDataLoader(DataLoader):
             self.restore = False
             # TODO: Inject a custom collate function to avoid collating the __NUM_SAMPLES_YIELDED__ key
             for batch in iterator:
-                self._latest_worker_idx = next(self._worker_idx_iter)  # type: ignore
+                self._latest_worker_idx = self._get_latest_worker_idx()
                 if isinstance(batch, dict) and __NUM_SAMPLES_YIELDED_KEY__ in batch:
                     self._num_samples_yielded_combined[self._latest_worker_idx] = [
                         sample[-1].item() if self.batch_size > 1 else sample.item()
@@ -669,6 +677,10 @@ class StreamingDataLoader(DataLoader):
                     yield batch
         logger.debug(_get_log_msg({"name": "iterating_dataloader", "ph": "E"}))
 
+    def _get_latest_worker_idx(self) -> int:
+        worker_idx = next(self._worker_idx_iter)  # type: ignore
+        return worker_idx if self._batch_worker_idx is None else self._batch_worker_idx
+
     def __len__(self) -> int:
         if self._dataset_kind == _DatasetKind.Iterable:
             length = self._IterableDataset_len_called = self.dataset.get_len(self.num_workers, self.batch_size)
-- 
2.43.0


From 57c09b8df3f9102569e3729a795518ac3de9a824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 27/60] fix: resume every worker of a combined dataset exactly
 where it was

---
 src/litdata/streaming/combined.py   | 54 ++++++++++++++++++++++-------
 src/litdata/streaming/dataloader.py |  4 +--
 src/litdata/streaming/dataset.py    |  5 +++
 3 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index d61901d..9279383 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -156,6 +156,7 @@ class CombinedStreamingDataset(IterableDataset):
 
     def reset_state_dict(self) -> None:
         """Reset the state of the dataset."""
+        self._num_samples_yielded = None
         for dataset in self._datasets:
             dataset.reset_state_dict()
 
@@ -174,8 +175,17 @@ class CombinedStreamingDataset(IterableDataset):
 
         num_samples_yielded = None
 
-        if self._num_samples_yielded is not None and worker_env.rank in self._num_samples_yielded:
-            num_samples_yielded = self._num_samples_yielded.get(worker_env.rank, 0)
+        if self._num_samples_yielded is not None:
+            # A worker which isn't part of the state hasn't yielded any sample yet.
+            num_samples_yielded = list(self._num_samples_yielded.get(worker_env.rank, []))
+            num_samples_yielded += [0] * (len(self._datasets) - len(num_samples_yielded))
+
+        # The workers pick the datasets independently, each one of them resumes from its own number of samples.
+        for dataset_idx, dataset in enumerate(self._datasets):
+            if isinstance(dataset, StreamingDataset):
+                dataset._num_samples_yielded_in_worker = (
+                    num_samples_yielded[dataset_idx] if num_samples_yielded is not None else None
+                )
 
         self._iterator = _CombinedDatasetIterator(
             self._datasets,
@@ -192,10 +202,10 @@ class CombinedStreamingDataset(IterableDataset):
     def state_dict(
         self, num_workers: int, batch_size: int, num_samples_yielded: Optional[List[int]] = None
     ) -> Dict[str, Any]:
-        if self._iterator is None:
-            if num_samples_yielded is None:
-                return {}
+        if num_samples_yielded is not None:
             return _state_dict(self._datasets, num_samples_yielded, num_workers, batch_size)
+        if self._iterator is None:
+            return {}
         return self._iterator.state_dict(num_workers, batch_size)
 
     def load_state_dict(self, state_dict: Dict[str, Any]) -> None:
@@ -221,7 +231,7 @@ class CombinedStreamingDataset(IterableDataset):
 
         # Used to iterate over the sampler to avoid sampling the same samples
         if self._use_streaming_dataloader:
-            self._num_samples_yielded = state_dict["num_samples_yielded"]
+            self._num_samples_yielded = deepcopy(state_dict["num_samples_yielded"])
 
 
 def _normalize_weights(weights: Sequence[Optional[float]]) -> List[Optional[float]]:
@@ -260,10 +270,6 @@ class _CombinedDatasetIterator(Iterator):
 
         if num_samples_yielded is not None:
             self._num_samples_yielded = num_samples_yielded
-            for _ in range(sum(num_samples_yielded)):
-                choice_indexes: List[int] = [index for index in self._dataset_indexes if index is not None]
-                choice_weights: List[float] = [w for w in self._weights if w is not None]
-                self._rng.choices(choice_indexes, weights=choice_weights, k=1)
 
         self._use_streaming_dataloader = use_streaming_dataloader
         self._is_done = False
@@ -274,6 +280,9 @@ class _CombinedDatasetIterator(Iterator):
         self._samples_yielded_in_batch = 0
         self._cur_dataset_index = -1
 
+        if num_samples_yielded is not None:
+            self._replay(num_samples_yielded)
+
         logger.debug(
             _get_log_msg({"name": "iterating_combined_dataset", "ph": "B", "cname": ChromeTraceColors.LIGHT_BLUE})
         )
@@ -299,13 +308,32 @@ class _CombinedDatasetIterator(Iterator):
                         )
                         raise e
 
-                    self._dataset_indexes[dataset_index] = None
-                    self._weights[dataset_index] = None  # type: ignore
-                    self._weights = _normalize_weights(self._weights)
+                    self._remove_dataset(dataset_index)
 
         # stop on the first iteration
         return self._get_sample(self._get_dataset_index())
 
+    def _remove_dataset(self, dataset_index: int) -> None:
+        self._dataset_indexes[dataset_index] = None
+        self._weights[dataset_index] = None  # type: ignore
+        self._weights = _normalize_weights(self._weights)
+
+    def _replay(self, num_samples_yielded: List[int]) -> None:
+        """Replay the sampling of the datasets up to the samples already yielded."""
+        if not self._iterate_over_all:
+            for _ in range(sum(num_samples_yielded)):
+                self._get_dataset_index()
+            return
+
+        num_samples_left = list(num_samples_yielded)
+        while sum(num_samples_left) > 0 and sum(index is not None for index in self._dataset_indexes) > 1:
+            dataset_index = self._get_dataset_index()
+            if num_samples_left[dataset_index] > 0:
+                num_samples_left[dataset_index] -= 1
+            else:
+                # the dataset was exhausted at this point
+                self._remove_dataset(dataset_index)
+
     def _get_dataset_index(self) -> int:
         if self._batching_method == BatchingMethod.STRATIFIED:
             # For every sample, randomly select a dataset (weighted)
diff --git a/src/litdata/streaming/dataloader.py b/src/litdata/streaming/dataloader.py
index 82ddc9f..c28f29c 100644
--- a/src/litdata/streaming/dataloader.py
+++ b/src/litdata/streaming/dataloader.py
@@ -735,7 +735,7 @@ class StreamingDataLoader(DataLoader):
         if isinstance(self.dataset, StreamingDataset):
             self._num_samples_yielded_streaming = obj["num_samples_yielded"]
         else:
-            self._num_samples_yielded_combined = obj["num_samples_yielded"]
+            self._num_samples_yielded_combined = deepcopy(obj["num_samples_yielded"])
 
         # Used to restart on the next DataLoader worker from the previous run.
         self._latest_worker_idx = obj["latest_worker_idx"]
@@ -765,7 +765,7 @@ class StreamingDataLoader(DataLoader):
             # Check if we need to restore for the case with weights.
             # Note: `len` is not available for CombinedStreamingDataset in case of provided weights.
             # TODO: handle the case with weights.
-            if not self.dataset._iterate_over_all:
+            if not self.dataset._iterate_over_all and total_samples_yielded > 0:
                 self.restore = True
 
         elif isinstance(self.dataset, StreamingDataset):
diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index 9045382..bfd7ab8 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -184,6 +184,8 @@ class StreamingDataset(IterableDataset):
         self.shuffler: Optional[Shuffle] = None
         self.serializers = serializers
         self._state_dict: Optional[Dict[str, Any]] = None
+        # Set by the CombinedStreamingDataset when resuming
+        self._num_samples_yielded_in_worker: Optional[int] = None
         self._force_override_state_dict = force_override_state_dict
         # Has slightly different meaning in the context of the dataset
         # We consider `num_workers = 0` from `torch.utils.DataLoader` still as 1 worker (the main process)
@@ -358,6 +360,9 @@ class StreamingDataset(IterableDataset):
             for intervals in workers_intervals[worker_start:worker_end]
         ]
         indexes = _replay_sampling(num_samples_yielded, batch_size, num_workers, num_samples_per_worker)
+        if self._num_samples_yielded_in_worker is not None:
+            # this worker knows how many samples it has already yielded
+            indexes[self.worker_env.rank] = self._num_samples_yielded_in_worker
         chunks_index, indexes = _replay_chunks_sampling(
             workers_intervals={i: workers_intervals[j] for i, j in enumerate(range(worker_start, worker_end))},
             indexes=indexes,
-- 
2.43.0


From e5e763acc44f9b7a90010173864d84072725bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 28/60] fix: start per stream batches at the batch boundaries
 after a dataset is exhausted

---
 src/litdata/streaming/combined.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index 9279383..7f25459 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -317,12 +317,15 @@ class _CombinedDatasetIterator(Iterator):
         self._dataset_indexes[dataset_index] = None
         self._weights[dataset_index] = None  # type: ignore
         self._weights = _normalize_weights(self._weights)
+        # another dataset completes the current batch
+        self._cur_dataset_index = -1
 
     def _replay(self, num_samples_yielded: List[int]) -> None:
         """Replay the sampling of the datasets up to the samples already yielded."""
         if not self._iterate_over_all:
             for _ in range(sum(num_samples_yielded)):
                 self._get_dataset_index()
+                self._samples_yielded_in_batch += 1
             return
 
         num_samples_left = list(num_samples_yielded)
@@ -330,6 +333,7 @@ class _CombinedDatasetIterator(Iterator):
             dataset_index = self._get_dataset_index()
             if num_samples_left[dataset_index] > 0:
                 num_samples_left[dataset_index] -= 1
+                self._samples_yielded_in_batch += 1
             else:
                 # the dataset was exhausted at this point
                 self._remove_dataset(dataset_index)
@@ -340,11 +344,12 @@ class _CombinedDatasetIterator(Iterator):
             dataset_idx = self._set_new_dataset_index()
         elif self._batching_method == BatchingMethod.PER_STREAM:
             # For each batch, pick a dataset and stick with it for the whole batch
-            if self._cur_dataset_index == -1 or self._samples_yielded_in_batch >= self._batch_size:
-                self._cur_dataset_index = self._set_new_dataset_index()
+            if self._samples_yielded_in_batch >= self._batch_size:
+                self._cur_dataset_index = -1
                 self._samples_yielded_in_batch = 0
+            if self._cur_dataset_index == -1:
+                self._cur_dataset_index = self._set_new_dataset_index()
             dataset_idx = self._cur_dataset_index
-            self._samples_yielded_in_batch += 1
         else:
             raise ValueError(f"Invalid batching method: {self._batching_method}")
         return dataset_idx
@@ -362,6 +367,7 @@ class _CombinedDatasetIterator(Iterator):
 
         # keep track the sample was fetched
         self._num_samples_yielded[dataset_index] += 1
+        self._samples_yielded_in_batch += 1
 
         # return a new sample
         if self._use_streaming_dataloader:
-- 
2.43.0


From 7277005aa229dfe9622bcb2c8fccfbf787c2a9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 29/60] fix: workers sharing a compressed chunk don't break
 each other, nor leave compressed files behind

---
 src/litdata/streaming/config.py | 35 +++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index 3740c9b..9281232 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -14,7 +14,9 @@
 import logging
 import os
 from collections import defaultdict
+from contextlib import suppress
 from typing import Any, Dict, List, Optional, Tuple
+from uuid import uuid4
 
 from litdata.constants import _INDEX_FILENAME
 from litdata.debugger import ChromeTraceColors, _get_log_msg
@@ -126,13 +128,14 @@ class ChunksConfig:
         chunk_filename = self._chunks[chunk_index]["filename"]
 
         local_chunkpath = os.path.join(self._cache_dir, chunk_filename)
+        target_local_chunkpath = local_chunkpath.replace(f".{self._compressor_name}", "")
 
-        if os.path.exists(local_chunkpath):
+        if os.path.exists(local_chunkpath) or os.path.exists(target_local_chunkpath):
             self.try_decompress(local_chunkpath)
             if self._downloader is not None and not skip_lock:
                 # We don't want to redownload the base, but we should mark
                 # it as having been requested by something
-                self._downloader._increment_local_lock(local_chunkpath.replace(f".{self._compressor_name}", ""))
+                self._downloader._increment_local_lock(target_local_chunkpath)
                 pass
             return
 
@@ -140,7 +143,7 @@ class ChunksConfig:
             return
 
         if not skip_lock:
-            self._downloader._increment_local_lock(local_chunkpath.replace(f".{self._compressor_name}", ""))
+            self._downloader._increment_local_lock(target_local_chunkpath)
 
         self._downloader.download_chunk_from_index(chunk_index)
 
@@ -153,20 +156,32 @@ class ChunksConfig:
         target_local_chunkpath = local_chunkpath.replace(f".{self._compressor_name}", "")
 
         if os.path.exists(target_local_chunkpath):
+            self._remove_compressed(local_chunkpath)
             return
 
-        with open(local_chunkpath, "rb") as f:
-            data = f.read()
-
-        # delete the files only if they were downloaded
-        if self._downloader is not None:
-            os.remove(local_chunkpath)
+        try:
+            with open(local_chunkpath, "rb") as f:
+                data = f.read()
+        except FileNotFoundError:
+            # another worker is downloading or decompressing this chunk
+            return
 
         data = self._compressor.decompress(data)
 
-        with open(target_local_chunkpath, "wb") as f:
+        # make an atomic operation to be safe, the readers expect complete chunks
+        temp_file_path = f"{target_local_chunkpath}.{uuid4().hex}.tmp"
+        with open(temp_file_path, "wb") as f:
             f.write(data)
 
+        self._remove_compressed(local_chunkpath)
+        os.rename(temp_file_path, target_local_chunkpath)
+
+    def _remove_compressed(self, local_chunkpath: str) -> None:
+        # delete the files only if they were downloaded
+        if self._downloader is not None:
+            with suppress(FileNotFoundError):
+                os.remove(local_chunkpath)
+
     @property
     def intervals(self) -> List[Interval]:
         if self._intervals is None:
-- 
2.43.0


From f51ec7b191400140d75615f5a3e6bb8d191ebbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 30/60] fix: two workers could delete the same chunk

---
 src/litdata/streaming/item_loader.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index f0568fc..f4f10ed 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -15,6 +15,7 @@ import logging
 import os
 from abc import ABC, abstractmethod
 from collections import defaultdict, namedtuple
+from contextlib import suppress
 from copy import deepcopy
 from io import BytesIO, FileIO
 from multiprocessing import Queue
@@ -323,7 +324,8 @@ class PyTreeLoader(BaseItemLoader):
                 }
             )
         )
-        if os.path.exists(chunk_filepath):
+        # another worker could have deleted it already
+        with suppress(FileNotFoundError):
             os.remove(chunk_filepath)
         logger.debug(
             _get_log_msg(
@@ -545,7 +547,9 @@ class TokensLoader(BaseItemLoader):
                 # the file stays mapped as long as some of its items are still in use
                 del self._mmaps[chunk_index]
                 del self._counter[chunk_index]
-            os.remove(chunk_filepath)
+            # another worker could have deleted it already
+            with suppress(FileNotFoundError):
+                os.remove(chunk_filepath)
         logger.debug(
             _get_log_msg(
                 {
@@ -796,7 +800,8 @@ class ParquetLoader(BaseItemLoader):
 
         if chunk_index in self._chunk_row_group_item_read_count:
             del self._chunk_row_group_item_read_count[chunk_index]
-        if os.path.exists(chunk_filepath):
+        # another worker could have deleted it already
+        with suppress(FileNotFoundError):
             os.remove(chunk_filepath)
         logger.debug(
             _get_log_msg(
-- 
2.43.0


From 69d9942eb7807a81fe676ae0f1ce69b9ec3df7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 31/60] fix: max_pre_download=1 waited for the forced download
 of every chunk

---
 src/litdata/streaming/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index 99c5f70..c2fe854 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -60,7 +60,8 @@ class PrepareChunksThread(Thread):
         super().__init__(daemon=True)
         self._config = config
         self._item_loader = item_loader
-        self._max_pre_download = max_pre_download
+        # The chunk being read is counted until the reader has moved to the next one, which has to be downloaded meanwhile
+        self._max_pre_download = max(max_pre_download, 2)
         self._pre_download_counter = 0
         self._distributed_env = distributed_env
 
-- 
2.43.0


From aeb3a86b8695aab0c3ff5ac2747eea11fea9ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 32/60] fix: without a limit on the cache size the chunks
 waited for their forced download

---
 src/litdata/streaming/reader.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index c2fe854..e2eac94 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -228,8 +228,7 @@ class PrepareChunksThread(Thread):
             if self._pre_download_counter < self._max_pre_download:
                 chunk_index = _get_from_queue(self._to_download_queue)
                 if chunk_index == _END_TOKEN:
-                    if self._max_cache_size:
-                        self._maybe_delete_chunks()
+                    self._maybe_delete_chunks()
                     self._has_exited = True
                     return
 
@@ -244,8 +243,7 @@ class PrepareChunksThread(Thread):
                     # Avoid downloading too many chunks in advance at the risk of over using the disk space
                     self._pre_download_counter += 1
 
-            if self._max_cache_size:
-                self._maybe_delete_chunks()
+            self._maybe_delete_chunks()
 
 
 # The BinaryReader operates as the inverse of the data optimization process:
-- 
2.43.0


From c02d2fb9169728d433f1f7568555eb3aae7eefae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 33/60] fix: a chunk could be deleted by a worker while another
 one was about to read it

---
 src/litdata/streaming/config.py | 13 +++++------
 src/litdata/streaming/reader.py | 38 +++++++++++++++++----------------
 2 files changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index 9281232..27b1881 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -130,21 +130,18 @@ class ChunksConfig:
         local_chunkpath = os.path.join(self._cache_dir, chunk_filename)
         target_local_chunkpath = local_chunkpath.replace(f".{self._compressor_name}", "")
 
+        if self._downloader is not None and not skip_lock:
+            # Mark the chunk as having been requested by something, even if it is there already.
+            # This comes first, otherwise the chunk could be deleted by another worker in between.
+            self._downloader._increment_local_lock(target_local_chunkpath)
+
         if os.path.exists(local_chunkpath) or os.path.exists(target_local_chunkpath):
             self.try_decompress(local_chunkpath)
-            if self._downloader is not None and not skip_lock:
-                # We don't want to redownload the base, but we should mark
-                # it as having been requested by something
-                self._downloader._increment_local_lock(target_local_chunkpath)
-                pass
             return
 
         if self._downloader is None:
             return
 
-        if not skip_lock:
-            self._downloader._increment_local_lock(target_local_chunkpath)
-
         self._downloader.download_chunk_from_index(chunk_index)
 
         self.try_decompress(local_chunkpath)
diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index e2eac94..950a8ec 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -136,28 +136,30 @@ class PrepareChunksThread(Thread):
         can_delete_chunk = self._config.can_delete(chunk_index)
         chunk_filepath, _, _ = self._config[ChunkedIndex(index=-1, chunk_index=chunk_index)]
 
-        remaining_locks = self._remaining_locks(chunk_filepath)
-        if remaining_locks > 0:  # Can't delete this, something has it
-            if _DEBUG:
-                print(f"Skip delete {chunk_filepath} by {self._rank or 0}, current lock count: {remaining_locks}")
-            return
+        # nobody can lock the chunk between the check and the deletion
+        with suppress(Timeout), FileLock(chunk_filepath + ".cnt.lock", timeout=3):
+            remaining_locks = self._remaining_locks(chunk_filepath)
+            if remaining_locks > 0:  # Can't delete this, something has it
+                if _DEBUG:
+                    print(f"Skip delete {chunk_filepath} by {self._rank or 0}, current lock count: {remaining_locks}")
+                return
 
-        if _DEBUG:
-            with open(chunk_filepath + ".tmb", "w+") as tombstone_file:
-                tombstone_file.write(f"Deleted {chunk_filepath} by {self._rank or 0}. Debug: {can_delete_chunk}")
+            if _DEBUG:
+                with open(chunk_filepath + ".tmb", "w+") as tombstone_file:
+                    tombstone_file.write(f"Deleted {chunk_filepath} by {self._rank or 0}. Debug: {can_delete_chunk}")
 
-        self._item_loader.delete(chunk_index, chunk_filepath)
+            self._item_loader.delete(chunk_index, chunk_filepath)
 
-        if _DEBUG:
-            print(f"Deleted {chunk_filepath} by {self._rank or 0}. Debug: {can_delete_chunk}")
+            if _DEBUG:
+                print(f"Deleted {chunk_filepath} by {self._rank or 0}. Debug: {can_delete_chunk}")
 
-        for lock_extension in [".lock", ".cnt.lock"]:
-            try:
-                locak_chunk_path = chunk_filepath + lock_extension
-                if os.path.exists(locak_chunk_path):
-                    os.remove(locak_chunk_path)
-            except FileNotFoundError:
-                pass
+            for lock_extension in [".lock", ".cnt.lock"]:
+                try:
+                    locak_chunk_path = chunk_filepath + lock_extension
+                    if os.path.exists(locak_chunk_path):
+                        os.remove(locak_chunk_path)
+                except FileNotFoundError:
+                    pass
 
     def stop(self) -> None:
         """Receive the list of the chunk indices to download for the current epoch."""
-- 
2.43.0


From 7c2ecd5b5af40e23c5626b25cec7344b969d6412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 34/60] fix: a chunk read from the cache before it was locked
 stayed locked forever

---
 src/litdata/streaming/config.py | 10 ++++++++--
 src/litdata/streaming/reader.py | 26 ++++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index 27b1881..d1f91ef 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -123,6 +123,12 @@ class ChunksConfig:
     def skip_chunk_indexes_deletion(self, skip_chunk_indexes_deletion: List[int]) -> None:
         self._skip_chunk_indexes_deletion = skip_chunk_indexes_deletion
 
+    def increment_local_lock(self, chunk_index: int) -> None:
+        """Add a count to the local lock, so the chunk isn't deleted by the other workers."""
+        if self._downloader is not None:
+            chunk_filepath, _, _ = self[ChunkedIndex(index=-1, chunk_index=chunk_index)]
+            self._downloader._increment_local_lock(chunk_filepath)
+
     def download_chunk_from_index(self, chunk_index: int, skip_lock: bool = False) -> None:
         assert self._chunks is not None
         chunk_filename = self._chunks[chunk_index]["filename"]
@@ -130,10 +136,10 @@ class ChunksConfig:
         local_chunkpath = os.path.join(self._cache_dir, chunk_filename)
         target_local_chunkpath = local_chunkpath.replace(f".{self._compressor_name}", "")
 
-        if self._downloader is not None and not skip_lock:
+        if not skip_lock:
             # Mark the chunk as having been requested by something, even if it is there already.
             # This comes first, otherwise the chunk could be deleted by another worker in between.
-            self._downloader._increment_local_lock(target_local_chunkpath)
+            self.increment_local_lock(chunk_index)
 
         if os.path.exists(local_chunkpath) or os.path.exists(target_local_chunkpath):
             self.try_decompress(local_chunkpath)
diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index 950a8ec..44d89c3 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -15,9 +15,10 @@ import contextlib
 import logging
 import os
 import warnings
+from collections import defaultdict
 from contextlib import suppress
 from queue import Empty, Queue
-from threading import Event, Thread
+from threading import Event, Lock, Thread
 from typing import Any, Dict, List, Optional, Tuple, Union
 
 from filelock import FileLock, Timeout
@@ -77,6 +78,11 @@ class PrepareChunksThread(Thread):
 
         self._rank = rank
 
+        # The reader could be done with a chunk of the cache before this thread has locked it
+        self._chunk_locks_mutex = Lock()
+        self._locked_chunks: Dict[int, int] = defaultdict(int)
+        self._released_chunks: Dict[int, int] = defaultdict(int)
+
         # Check whether a dataset slice fits on the node
         num_bytes_per_nodes = self._config.num_bytes // self._distributed_env.num_nodes
         self._delete_chunks_when_processed = num_bytes_per_nodes > max_cache_size if max_cache_size else False
@@ -102,8 +108,23 @@ class PrepareChunksThread(Thread):
             except Exception:
                 return 1
 
+    def _increment_local_lock(self, chunk_index: int) -> None:
+        """Add a count to the local lock, unless the reader is already done with the chunk."""
+        with self._chunk_locks_mutex:
+            if self._released_chunks[chunk_index] > 0:
+                self._released_chunks[chunk_index] -= 1
+                return
+            self._locked_chunks[chunk_index] += 1
+            self._config.increment_local_lock(chunk_index)
+
     def _decrement_local_lock(self, chunk_index: int) -> int:
         """Remove a count from the local lock, return the remaining count."""
+        with self._chunk_locks_mutex:
+            if self._locked_chunks[chunk_index] == 0:
+                self._released_chunks[chunk_index] += 1
+                return 0
+            self._locked_chunks[chunk_index] -= 1
+
         chunk_filepath, _, _ = self._config[ChunkedIndex(index=-1, chunk_index=chunk_index)]
 
         countpath = chunk_filepath + ".cnt"
@@ -235,7 +256,8 @@ class PrepareChunksThread(Thread):
                     return
 
                 if chunk_index is not None:
-                    self._config.download_chunk_from_index(chunk_index)
+                    self._increment_local_lock(chunk_index)
+                    self._config.download_chunk_from_index(chunk_index, skip_lock=True)
 
                     # Preload item if possible to gain some time but only
                     # if this is one of the pre-downloaded chunk
-- 
2.43.0


From e2aa25cf81a1fd5ec6d17a6657b15d587977e551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 35/60] fix: consumed chunks weren't deleted with
 max_pre_download > 3 and a reader faster than the downloads

---
 src/litdata/streaming/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index 44d89c3..5d28054 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -213,7 +213,8 @@ class PrepareChunksThread(Thread):
 
     def _can_delete_chunk(self) -> bool:
         if self._delete_chunks_when_processed:
-            return self._pre_download_counter >= self._max_pre_download - 1
+            # the counter can't be higher than 2 when the reader is faster than the downloads
+            return self._pre_download_counter > 0
         return (
             self._max_cache_size is not None
             and _get_folder_size(self._config._cache_dir, self._config) >= self._max_cache_size
-- 
2.43.0


From f664f9be01d64b5c752723c24badace09395415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 36/60] fix: TokensLoader could map a chunk which was evicted
 from the cache meanwhile

---
 src/litdata/streaming/item_loader.py | 90 +++++++++++++---------------
 1 file changed, 40 insertions(+), 50 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index f4f10ed..737e117 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -398,7 +398,6 @@ class TokensLoader(BaseItemLoader):
         # keeps track of number of readers for each chunk (can be more than 1 if multiple workers are reading)
         self._counter = defaultdict(int)
         self._dtype: Optional[torch.dtype] = None
-        self._chunk_filepaths: Dict[str, bool] = {}
 
     def state_dict(self) -> Dict:
         assert self._block_size
@@ -445,28 +444,33 @@ class TokensLoader(BaseItemLoader):
             begin += num_blocks
         return intervals
 
-    def _load_chunk(self, chunk_index: int, chunk_filepath: str) -> None:
+    def _load_chunk(self, chunk_index: int, chunk_filepath: str) -> Any:
+        buffer = self._buffers.get(chunk_index)
+        if buffer is None:
+            chunk = self._chunks[chunk_index]
+
+            # Skip the header
+            # [number of items] + [number of offsets (number of items in the chunk + 1)] {since offset starts at 0}
+            # multiplied by the header encoding dtype (np.uint32)
+            # for more details on the chunk's binary format, see `writer.py::_create_chunk`
+            offset = (1 + chunk["chunk_size"] + 1) * 4
+            mmap = np.memmap(chunk_filepath, mode="r", order="C", offset=offset)
+            buffer = memoryview(mmap)
+            self._mmaps[chunk_index] = mmap
+            self._buffers[chunk_index] = buffer  # type: ignore
         self._counter[chunk_index] += 1
-        if chunk_index in self._mmaps:
-            return
-        chunk = self._chunks[chunk_index]
+        return buffer
 
-        # Skip the header
-        # [number of items] + [number of offsets (number of items in the chunk + 1)] {since offset starts at 0}
-        # multiplied by the header encoding dtype (np.uint32)
-        # for more details on the chunk's binary format, see `writer.py::_create_chunk`
-        offset = (1 + chunk["chunk_size"] + 1) * 4
-        mmap = np.memmap(chunk_filepath, mode="r", order="C", offset=offset)
-        self._mmaps[chunk_index] = mmap
-        self._buffers[chunk_index] = memoryview(mmap)  # type: ignore
+    def _try_load_chunk(self, chunk_index: int, chunk_filepath: str, filesize_bytes: int) -> Any:
+        """Map the chunk if it is complete, knowing it could be evicted from the cache at any time until it is mapped."""
+        with suppress(FileNotFoundError):
+            if os.stat(chunk_filepath).st_size >= max(filesize_bytes, 1):
+                return self._load_chunk(chunk_index, chunk_filepath)
+        return None
 
     def pre_load_chunk(self, chunk_index: int, chunk_filepath: str) -> None:
         # This is called within the prepare chunks thread, so we overlap data loading with data reading.
-        if chunk_filepath not in self._chunk_filepaths:
-            self._chunk_filepaths[chunk_filepath] = True
-
-        if os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size > 0:
-            self._load_chunk(chunk_index, chunk_filepath)
+        self._try_load_chunk(chunk_index, chunk_filepath, 1)
 
     def load_item_from_chunk(
         self,
@@ -478,37 +482,27 @@ class TokensLoader(BaseItemLoader):
     ) -> torch.Tensor:
         assert self._block_size
 
-        if chunk_filepath in self._chunk_filepaths and not os.path.isfile(chunk_filepath):
-            del self._chunk_filepaths[chunk_filepath]
-
         logger.debug(
             _get_log_msg({"name": f"load_item_from_chunk_for_chunk_index_{chunk_index}_and_index_{index}", "ph": "B"})
         )
 
-        if chunk_filepath not in self._chunk_filepaths:
-            exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size > filesize_bytes
-
-            start_time = time()
-            requested_force_download = False
-
-            while not exists:
-                sleep(0.1)
-                exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
+        buffer = self._try_load_chunk(chunk_index, chunk_filepath, filesize_bytes)
+        start_time = time()
+        requested_force_download = False
 
-                if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
-                    self.force_download(chunk_index)
-                    requested_force_download = True
+        while buffer is None:
+            sleep(0.1)
+            buffer = self._try_load_chunk(chunk_index, chunk_filepath, filesize_bytes)
 
-                if (time() - start_time) > _MAX_WAIT_TIME:
-                    raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
+            if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
+                self.force_download(chunk_index)
+                requested_force_download = True
 
-            self._chunk_filepaths[chunk_filepath] = True
+            if buffer is None and (time() - start_time) > _MAX_WAIT_TIME:
+                raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
 
-        self._load_chunk(chunk_index, chunk_filepath)
         assert self._dtype
 
-        buffer: bytes = self._buffers[chunk_index]
-
         # offset: how many bytes to skip to get to the item we want to load
         #       -> if chunk begins at 5, and we want to load the item at index 7,
         #       -> we need to skip 2 items, and each item has `self._block_size` tokens
@@ -541,12 +535,10 @@ class TokensLoader(BaseItemLoader):
             )
         )
         if os.path.exists(chunk_filepath):
-            if chunk_index in self._buffers:
-                del self._buffers[chunk_index]
-            if chunk_index in self._mmaps:
-                # the file stays mapped as long as some of its items are still in use
-                del self._mmaps[chunk_index]
-                del self._counter[chunk_index]
+            # the file stays mapped as long as some of its items are still in use
+            self._buffers.pop(chunk_index, None)
+            self._mmaps.pop(chunk_index, None)
+            self._counter.pop(chunk_index, None)
             # another worker could have deleted it already
             with suppress(FileNotFoundError):
                 os.remove(chunk_filepath)
@@ -565,10 +557,8 @@ class TokensLoader(BaseItemLoader):
         self._counter[chunk_index] -= 1
 
         if self._counter[chunk_index] == 0:
-            if chunk_index in self._buffers:
-                del self._buffers[chunk_index]
-            if chunk_index in self._mmaps:
-                del self._mmaps[chunk_index]
+            self._buffers.pop(chunk_index, None)
+            self._mmaps.pop(chunk_index, None)
 
     @classmethod
     def encode_data(cls, data: List[bytes], _: List[int], flattened: List[Any]) -> Tuple[bytes, Optional[int]]:
@@ -598,7 +588,7 @@ class TokensLoader(BaseItemLoader):
     def __getstate__(self) -> Dict[str, Any]:
         # the memory-mapped files can't be copied or pickled, they are mapped again when needed
         state = self.__dict__.copy()
-        state.update(_mmaps={}, _buffers={}, _counter=defaultdict(int), _chunk_filepaths={})
+        state.update(_mmaps={}, _buffers={}, _counter=defaultdict(int))
         return state
 
 
-- 
2.43.0


From 5c46b5d2030a8eba9985dceaef273030cf47aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 37/60] fix: items without any data weren't counted by the
 writer, which failed to write the chunk

---
 src/litdata/streaming/writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 4938d50..8a7a160 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -401,7 +401,8 @@ class BinaryWriter:
         index = self._max_index
         while True:
             item = self._serialized_items.get(index, None)
-            if item:
+            # an item can be empty
+            if item is not None:
                 num_bytes += item.bytes
                 num_items += item.dim if item.dim else 1
                 index += 1
-- 
2.43.0


From 771fdd4c31832ea3f8eb6e78954f36d5c41b03ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 38/60] fix: items which differ from the first one in structure
 or type were stored under its format and came back altered

---
 src/litdata/streaming/writer.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 8a7a160..fdd0036 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -25,7 +25,12 @@ from litdata.constants import _INDEX_FILENAME, _POLARS_AVAILABLE, _TQDM_AVAILABL
 from litdata.processing.utilities import get_worker_rank
 from litdata.streaming.compression import _COMPRESSORS, Compressor
 from litdata.streaming.item_loader import BaseItemLoader, ParquetLoader, PyTreeLoader
-from litdata.streaming.serializers import Serializer, _get_serializers
+from litdata.streaming.serializers import (
+    NoHeaderNumpySerializer,
+    NoHeaderTensorSerializer,
+    Serializer,
+    _get_serializers,
+)
 from litdata.utilities._pytree import PyTree, tree_flatten, treespec_dumps, treespec_loads
 from litdata.utilities.encryption import Encryption, EncryptionLevel
 from litdata.utilities.env import _DistributedEnv, _WorkerEnv
@@ -183,7 +188,13 @@ class BinaryWriter:
         sizes: List[int] = []
         data: List[bytes] = []
 
-        if self._data_format is None or not self._serializers_extra:
+        if self._data_spec is not None and data_spec != self._data_spec:
+            raise ValueError(
+                "The items of a dataset should all have the same structure."
+                f" Expected {self._data_spec}. Found {data_spec}."
+            )
+
+        if self._data_format is None:
             data_format: List[str] = []
             for item in flattened:
                 data_format.append(self._serialize(item, sizes, data))
@@ -216,10 +227,14 @@ class BinaryWriter:
         self, item: Any, sizes: List[int], data: List[bytes], data_format: List[str]
     ) -> None:
         """Serialize a given item and append its size and bytes to the sizes and data array."""
-        assert data_format
         for element, item_format in zip(item, data_format):
-            serializer = self._serializers_extra[item_format]
-            serialized_item, _ = serializer.serialize(element)
+            serializer = self._serializers_extra.get(item_format) or self._serializers[item_format.split(":")[0]]
+            serialized_item, name = serializer.serialize(element)
+            # nothing but the data itself is stored by these serializers
+            if isinstance(serializer, (NoHeaderTensorSerializer, NoHeaderNumpySerializer)) and (
+                name != item_format or not serializer.can_serialize(element)
+            ):
+                raise ValueError(f"The data format `{item_format}` was inferred from the first item. Found {element}.")
             data.append(serialized_item)
             sizes.append(serializer.size if hasattr(serializer, "size") else len(serialized_item))
 
-- 
2.43.0


From 05c927ffa8201f378a68f41a351757177aba967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 39/60] fix: numbers, booleans and bytes were silently altered
 when stored under the format of another type

---
 src/litdata/streaming/serializers.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/serializers.py b/src/litdata/streaming/serializers.py
index abf2c25..8131a08 100644
--- a/src/litdata/streaming/serializers.py
+++ b/src/litdata/streaming/serializers.py
@@ -227,6 +227,8 @@ class BytesSerializer(Serializer):
     """The BytesSerializer serialize and deserialize integer to and from bytes."""
 
     def serialize(self, item: bytes) -> Tuple[bytes, Optional[str]]:
+        if not isinstance(item, (bytes, bytearray)):
+            raise TypeError(f"The provided item should be of type `bytes`. Found {item}.")
         return item, None
 
     def deserialize(self, item: bytes) -> bytes:
@@ -433,7 +435,11 @@ class NumericSerializer:
         self.size = self.dtype().nbytes
 
     def serialize(self, obj: Any) -> Tuple[bytes, Optional[str]]:
-        return self.dtype(obj).tobytes(), None
+        value = self.dtype(obj)
+        # NaN is the only value which differs from itself
+        if np.ndim(value) != 0 or (value.item() != obj and obj == obj):
+            raise ValueError(f"The provided item can't be stored as {self.dtype.__name__}. Found {obj!r}.")
+        return value.tobytes(), None
 
     def deserialize(self, data: bytes) -> Any:
         return np.frombuffer(data, self.dtype)[0]
@@ -467,7 +473,10 @@ class BooleanSerializer(Serializer):
         Returns:
             Tuple containing the serialized bytes and None for the format string
         """
-        return np.bool_(item).tobytes(), None
+        value = np.bool_(item)
+        if value.item() != item:
+            raise ValueError(f"The provided item can't be stored as a boolean. Found {item!r}.")
+        return value.tobytes(), None
 
     def deserialize(self, data: bytes) -> bool:
         """Deserialize bytes back into a boolean value.
-- 
2.43.0


From 662c0868718f247a7ac625cea663628954b24e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 40/60] fix: the palette of palette images was lost

---
 src/litdata/streaming/serializers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/litdata/streaming/serializers.py b/src/litdata/streaming/serializers.py
index 8131a08..e2ab16e 100644
--- a/src/litdata/streaming/serializers.py
+++ b/src/litdata/streaming/serializers.py
@@ -64,6 +64,9 @@ class PILSerializer(Serializer):
         mode = item.mode.encode("utf-8")
         width, height = item.size
         raw = item.tobytes()
+        if item.mode == "P":
+            # the pixels refer to the palette
+            raw += bytes(item.getpalette("RGB") or [])
         ints = np.array([width, height, len(mode)], np.uint32)
         return ints.tobytes() + mode + raw, None
 
@@ -79,6 +82,12 @@ class PILSerializer(Serializer):
         mode = data[idx:idx2].decode("utf-8")
         size = width, height
         raw = data[idx2:]
+        if mode == "P":
+            num_pixels = int(width) * int(height)
+            image = Image.frombytes(mode, size, raw[:num_pixels])
+            if len(raw) > num_pixels:
+                image.putpalette(raw[num_pixels:], "RGB")
+            return image
         return Image.frombytes(mode, size, raw)  # pyright: ignore
 
     def can_serialize(self, item: Any) -> bool:
-- 
2.43.0


From a3c1b89dc4eccadaadb892b9fbd260c0aabdd2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 41/60] fix: wrong rows of Parquet files whose row groups
 differ in size

---
 src/litdata/streaming/item_loader.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 737e117..dfb9a2a 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -14,6 +14,7 @@ import functools
 import logging
 import os
 from abc import ABC, abstractmethod
+from bisect import bisect_right
 from collections import defaultdict, namedtuple
 from contextlib import suppress
 from copy import deepcopy
@@ -629,6 +630,7 @@ class ParquetLoader(BaseItemLoader):
         self._df: Dict[int, Any] = {}
         self._chunk_row_groups: Dict[int, Any] = {}
         self._chunk_row_group_item_read_count: Dict[int, Any] = {}
+        self._chunk_row_group_ends: Dict[int, List[int]] = {}
 
     def generate_intervals(self) -> List[Interval]:
         intervals = []
@@ -713,10 +715,17 @@ class ParquetLoader(BaseItemLoader):
             self._df[chunk_index] = pq.ParquetFile(chunk_filepath)
 
         # Determine the row group and the row index within the row group
-        parquet_file = self._df[chunk_index]
-        num_rows_per_row_group = parquet_file.metadata.row_group(0).num_rows
-        row_group_index = row_index // num_rows_per_row_group
-        row_index_within_group = row_index % num_rows_per_row_group
+        # The row groups of a file don't necessarily have the same number of rows
+        if chunk_index not in self._chunk_row_group_ends:
+            metadata = self._df[chunk_index].metadata
+            self._chunk_row_group_ends[chunk_index] = np.cumsum(
+                [metadata.row_group(i).num_rows for i in range(metadata.num_row_groups)]
+            ).tolist()
+        row_group_ends = self._chunk_row_group_ends[chunk_index]
+        row_group_index = bisect_right(row_group_ends, row_index)
+        row_group_start = row_group_ends[row_group_index - 1] if row_group_index > 0 else 0
+        num_rows_in_row_group = row_group_ends[row_group_index] - row_group_start
+        row_index_within_group = row_index - row_group_start
 
         # Check if the row group is already loaded
         if chunk_index in self._chunk_row_groups and row_group_index in self._chunk_row_groups[chunk_index]:
@@ -739,7 +748,7 @@ class ParquetLoader(BaseItemLoader):
 
         # Check if the row group has been fully read and release memory if necessary
         read_count = self._chunk_row_group_item_read_count[chunk_index][row_group_index]
-        if read_count >= num_rows_per_row_group:
+        if read_count >= num_rows_in_row_group:
             # Release memory for the fully read row group
             del self._chunk_row_groups[chunk_index][row_group_index]
             del self._chunk_row_group_item_read_count[chunk_index][row_group_index]
-- 
2.43.0


From b117c134ceb2bf6e65d3390310fccc21f6742c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 42/60] fix: the order of the Parquet files depended on the
 file system

---
 src/litdata/utilities/parquet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/utilities/parquet.py b/src/litdata/utilities/parquet.py
index 01bfbf2..2160245 100644
--- a/src/litdata/utilities/parquet.py
+++ b/src/litdata/utilities/parquet.py
@@ -78,7 +78,8 @@ class LocalParquetDir(ParquetDir):
             )
         super().__init__(dir_path, cache_path, storage_options, num_workers)
 
-        for _f in os.listdir(self.dir.path):
+        # the order of the files shouldn't depend on the machine where they are listed
+        for _f in sorted(os.listdir(self.dir.path)):
             if _f.endswith(".parquet"):
                 self.files.append(_f)
 
-- 
2.43.0


From b80046dd1d0b52a0ca6d1295ce6bd4e1981c47fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:21 +0000
Subject: [PATCH 43/60] fix: MosaicML datasets which aren't compressed, or with
 a compression level, couldn't be read

---
 src/litdata/utilities/dataset_utilities.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/litdata/utilities/dataset_utilities.py b/src/litdata/utilities/dataset_utilities.py
index ec3bb73..6f7fd07 100644
--- a/src/litdata/utilities/dataset_utilities.py
+++ b/src/litdata/utilities/dataset_utilities.py
@@ -270,13 +270,16 @@ def adapt_mds_shards_to_chunks(data: Dict[str, Any]) -> Dict[str, Any]:
     chunks = []
     shards = data["shards"]
     for shard in shards:
+        # the shards aren't necessarily compressed
+        zip_data = shard["zip_data"] or shard["raw_data"]
         chunks.append(
             {
-                "chunk_bytes": shard["zip_data"]["bytes"],
+                # the size of the chunk once it is decompressed, as it is read
+                "chunk_bytes": shard["raw_data"]["bytes"],
                 "chunk_size": shard["samples"],
                 "column_sizes": shard["column_sizes"],
                 "dim": None,
-                "filename": shard["zip_data"]["basename"],
+                "filename": zip_data["basename"],
             }
         )
     data["chunks"] = chunks
@@ -290,9 +293,10 @@ def adapt_mds_shards_to_chunks(data: Dict[str, Any]) -> Dict[str, Any]:
         },
     ]
     data["config"] = {
-        "chunk_bytes": sum(shard["zip_data"]["bytes"] for shard in shards),
+        "chunk_bytes": sum(shard["raw_data"]["bytes"] for shard in shards),
         "chunk_size": sum(shard["samples"] for shard in shards),
-        "compression": shards[0]["compression"],
+        # the compression level isn't part of the extension of the shards
+        "compression": (shards[0]["compression"] or "").split(":")[0] or None,
         "data_format": shards[0]["column_encodings"],
         "format": shards[0]["format"],
         "data_spec": json.dumps(data_spec),
-- 
2.43.0


From ca8266518711c13ebbf8f919825aba988996e9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:21 +0000
Subject: [PATCH 44/60] fix: compressed datasets in a directory whose name
 contains the one of the compression couldn't be read

---
 src/litdata/streaming/config.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index d1f91ef..a00b3a0 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -107,7 +107,7 @@ class ChunksConfig:
         self.filename_to_size_map: Dict[str, int] = {}
         for cnk in _original_chunks:
             # since files downloaded while reading will be decompressed, we need to store the name without compression
-            filename_without_compression = cnk["filename"].replace(f".{self._compressor_name}", "")
+            filename_without_compression = self._without_compression(cnk["filename"])
             self.filename_to_size_map[filename_without_compression] = cnk["chunk_bytes"]
 
     def can_delete(self, chunk_index: int) -> bool:
@@ -134,7 +134,7 @@ class ChunksConfig:
         chunk_filename = self._chunks[chunk_index]["filename"]
 
         local_chunkpath = os.path.join(self._cache_dir, chunk_filename)
-        target_local_chunkpath = local_chunkpath.replace(f".{self._compressor_name}", "")
+        target_local_chunkpath = self._without_compression(local_chunkpath)
 
         if not skip_lock:
             # Mark the chunk as having been requested by something, even if it is there already.
@@ -152,11 +152,16 @@ class ChunksConfig:
 
         self.try_decompress(local_chunkpath)
 
+    def _without_compression(self, chunkpath: str) -> str:
+        """The path of a chunk once it is decompressed. The directories could contain the name of the compression."""
+        dirname, filename = os.path.split(chunkpath)
+        return os.path.join(dirname, filename.replace(f".{self._compressor_name}", ""))
+
     def try_decompress(self, local_chunkpath: str) -> None:
         if self._compressor is None:
             return
 
-        target_local_chunkpath = local_chunkpath.replace(f".{self._compressor_name}", "")
+        target_local_chunkpath = self._without_compression(local_chunkpath)
 
         if os.path.exists(target_local_chunkpath):
             self._remove_compressed(local_chunkpath)
@@ -268,7 +273,7 @@ class ChunksConfig:
         local_chunkpath = os.path.join(self._cache_dir, chunk["filename"])
 
         if self._compressor is not None:
-            local_chunkpath = local_chunkpath.replace(f".{self._compressor_name}", "")
+            local_chunkpath = self._without_compression(local_chunkpath)
 
         begin = self._intervals[index.chunk_index][0]
 
-- 
2.43.0


From cf9e182ec7192b7f6136d18072a875e4e58ffefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 45/60] fix: index_path was useless for a local: directory
 without index

---
 src/litdata/streaming/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index a00b3a0..1e0cd77 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -320,7 +320,8 @@ class ChunksConfig:
                     raise RuntimeError(
                         f"This should not have happened. No index.json file found in cache: {cache_index_filepath}"
                     )
-            else:
+            elif not os.path.exists(cache_index_filepath):
+                # the index could have been provided by the user, it isn't necessarily with the files
                 downloader = get_downloader(remote_dir, cache_dir, [], storage_options)
                 downloader.download_file(os.path.join(remote_dir, _INDEX_FILENAME), cache_index_filepath)
 
-- 
2.43.0


From 88af565c4e1710d1c0ea1cb41074b872a04567b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:47 +0000
Subject: [PATCH 46/60] fix: Parquet chunks evicted from the cache while they
 are read, or partly downloaded

---
 src/litdata/streaming/item_loader.py | 74 +++++++++++++++-------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index dfb9a2a..d4cfc40 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -603,7 +603,6 @@ class ParquetLoader(BaseItemLoader):
         if not _PYARROW_AVAILABLE:
             raise ModuleNotFoundError("Please, run: `pip install pyarrow`")
 
-        self._chunk_filepaths: Dict[str, bool] = {}
         self._pre_load_chunk = pre_load_chunk
         self._low_memory = low_memory
 
@@ -627,6 +626,7 @@ class ParquetLoader(BaseItemLoader):
         self._data_format = self._config["data_format"]
         self._shift_idx = len(self._data_format) * 4
         self.region_of_interest = region_of_interest
+        self._force_download_queue: Optional[Queue] = None
         self._df: Dict[int, Any] = {}
         self._chunk_row_groups: Dict[int, Any] = {}
         self._chunk_row_group_item_read_count: Dict[int, Any] = {}
@@ -652,10 +652,26 @@ class ParquetLoader(BaseItemLoader):
         if not self._pre_load_chunk or self._low_memory:
             return
 
+        self._try_load_df(chunk_index, chunk_filepath, self._chunks[chunk_index]["chunk_bytes"])
+
+    def _try_load_df(self, chunk_index: int, chunk_filepath: str, filesize_bytes: int) -> Any:
+        """Open the chunk if it is complete, knowing it could be evicted from the cache at any time until it is open."""
+        df = self._df.get(chunk_index)
+        if df is None:
+            with suppress(FileNotFoundError):
+                if os.stat(chunk_filepath).st_size >= filesize_bytes:
+                    df = self._df[chunk_index] = self._load_df(chunk_filepath)
+        return df
+
+    def _load_df(self, chunk_filepath: str) -> Any:
+        if self._low_memory:
+            import pyarrow.parquet as pq
+
+            return pq.ParquetFile(chunk_filepath)
+
         import polars as pl
 
-        if chunk_index not in self._df and os.path.exists(chunk_filepath):
-            self._df[chunk_index] = pl.scan_parquet(chunk_filepath, low_memory=True).collect()
+        return pl.scan_parquet(chunk_filepath, low_memory=True).collect()
 
     def load_item_from_chunk(
         self,
@@ -666,34 +682,37 @@ class ParquetLoader(BaseItemLoader):
         filesize_bytes: int,
     ) -> Any:
         """Returns an item loaded from a parquet chunk."""
-        if chunk_filepath in self._chunk_filepaths and not os.path.isfile(chunk_filepath):
-            del self._chunk_filepaths[chunk_filepath]
-
         logger.debug(
             _get_log_msg({"name": f"load_item_from_chunk_for_chunk_index_{chunk_index}_and_index_{index}", "ph": "B"})
         )
-        if chunk_filepath not in self._chunk_filepaths:
-            exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
+        start_time = time()
+        df = self._try_load_df(chunk_index, chunk_filepath, filesize_bytes)
+        requested_force_download = False
 
-            while not exists:
-                sleep(0.1)
-                exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
+        while df is None:
+            sleep(0.1)
+            df = self._try_load_df(chunk_index, chunk_filepath, filesize_bytes)
+
+            if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
+                self.force_download(chunk_index)
+                requested_force_download = True
 
-            self._chunk_filepaths[chunk_filepath] = True
+            if df is None and (time() - start_time) > _MAX_WAIT_TIME:
+                raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
 
         # relative index of the desired row within the chunk.
         relative_index = index - begin
         if self._low_memory:
-            item_data = self._get_item_with_low_memory(chunk_index, chunk_filepath, relative_index)
+            item_data = self._get_item_with_low_memory(chunk_index, df, relative_index)
         else:
-            item_data = self._get_item(chunk_index, chunk_filepath, relative_index)
+            item_data = self._get_item(df, relative_index)
 
         logger.debug(
             _get_log_msg({"name": f"load_item_from_chunk_for_chunk_index_{chunk_index}_and_index_{index}", "ph": "E"})
         )
         return item_data
 
-    def _get_item_with_low_memory(self, chunk_index: int, chunk_filepath: str, row_index: int) -> Any:
+    def _get_item_with_low_memory(self, chunk_index: int, parquet_file: Any, row_index: int) -> Any:
         """Retrieve a dataframe row from a parquet chunk in low memory mode.
 
         This method reads only the necessary row group from the parquet file using PyArrow and Polars,
@@ -701,23 +720,18 @@ class ParquetLoader(BaseItemLoader):
 
         Args:
             chunk_index (int): The index of the chunk to be accessed.
-            chunk_filepath (str): The file path of the parquet chunk.
+            parquet_file (Any): The parquet file of the chunk.
             row_index (int): The relative row index within the loaded chunk.
 
         Returns:
             Any: The dataframe row corresponding to the specified index.
         """
         import polars as pl
-        import pyarrow.parquet as pq
-
-        # Load the Parquet file metadata if not already loaded
-        if chunk_index not in self._df:
-            self._df[chunk_index] = pq.ParquetFile(chunk_filepath)
 
         # Determine the row group and the row index within the row group
         # The row groups of a file don't necessarily have the same number of rows
         if chunk_index not in self._chunk_row_group_ends:
-            metadata = self._df[chunk_index].metadata
+            metadata = parquet_file.metadata
             self._chunk_row_group_ends[chunk_index] = np.cumsum(
                 [metadata.row_group(i).num_rows for i in range(metadata.num_row_groups)]
             ).tolist()
@@ -735,7 +749,7 @@ class ParquetLoader(BaseItemLoader):
             self._chunk_row_group_item_read_count[chunk_index][row_group_index] += 1
         else:
             # Load the row group and convert it to a Polars DataFrame
-            row_group = self._df[chunk_index].read_row_group(row_group_index)
+            row_group = parquet_file.read_row_group(row_group_index)
             row_group_df = pl.from_arrow(row_group)
 
             # Cache the loaded row group
@@ -757,29 +771,23 @@ class ParquetLoader(BaseItemLoader):
         # Note: The `named=True` argument is used to return the row as a dictionary
         return row_group_df.row(row_index_within_group, named=True)  # type: ignore
 
-    def _get_item(self, chunk_index: int, chunk_filepath: str, index: int) -> Any:
+    def _get_item(self, df: Any, index: int) -> Any:
         """Retrieve a dataframe row from a parquet chunk by loading the entire chunk into memory.
 
         Note:
-            This method reads the complete parquet file using Polars. Exercise caution with large files as it
+            The complete parquet file is read using Polars. Exercise caution with large files as it
             may significantly increase memory usage.
 
         Args:
-            chunk_index (int): The index of the chunk to be accessed.
-            chunk_filepath (str): The file path of the parquet chunk.
+            df (Any): The dataframe of the chunk.
             index (int): The relative row index within the loaded chunk.
 
         Returns:
             Any: The dataframe row corresponding to the specified index.
         """
-        import polars as pl
-
-        if chunk_index not in self._df:
-            self._df[chunk_index] = pl.scan_parquet(chunk_filepath, low_memory=True).collect()
-
         # Retrieve the specific row from the dataframe
         # Note: The `named=True` argument is used to return the row as a dictionary
-        return self._df[chunk_index].row(index, named=True)
+        return df.row(index, named=True)
 
     def delete(self, chunk_index: int, chunk_filepath: str) -> None:
         """Delete a chunk from the local filesystem."""
-- 
2.43.0


From 6f75542dafc1c61be4cf0b4df9cb05ee973972b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:56 +0000
Subject: [PATCH 47/60] fix: a remote dataset couldn't be pickled once an item
 was read

---
 src/litdata/streaming/item_loader.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index d4cfc40..7dbe753 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -118,6 +118,13 @@ class BaseItemLoader(ABC):
         pass
 
 
+    def __getstate__(self) -> Dict[str, Any]:
+        # the queue belongs to the thread preparing the chunks in this process, it can't be pickled
+        state = self.__dict__.copy()
+        state["_force_download_queue"] = None
+        return state
+
+
 class PyTreeLoader(BaseItemLoader):
     """The Pytree Loader is the default loader of the Cache object."""
 
@@ -378,7 +385,7 @@ class PyTreeLoader(BaseItemLoader):
         return head + body, None
 
     def __getstate__(self):
-        state = self.__dict__.copy()
+        state = super().__getstate__()
         state["_open_handle"] = None
         state["_chunk_filepath"] = None
         return state
@@ -588,7 +595,7 @@ class TokensLoader(BaseItemLoader):
 
     def __getstate__(self) -> Dict[str, Any]:
         # the memory-mapped files can't be copied or pickled, they are mapped again when needed
-        state = self.__dict__.copy()
+        state = super().__getstate__()
         state.update(_mmaps={}, _buffers={}, _counter=defaultdict(int))
         return state
 
-- 
2.43.0


From 15ad7a62ee6a9eee60f98fecca2c0aeff0a5f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:56 +0000
Subject: [PATCH 48/60] fix: a Parquet dataset couldn't be pickled or split
 once an item was read

---
 src/litdata/streaming/item_loader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 7dbe753..a8abce9 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -840,3 +840,9 @@ class ParquetLoader(BaseItemLoader):
 
     def encode_data(self, data: List[bytes], sizes: List[int], flattened: List[Any]) -> Any:
         pass
+
+    def __getstate__(self) -> Dict[str, Any]:
+        # the open files can't be copied or pickled, they are opened again when needed
+        state = super().__getstate__()
+        state.update(_df={}, _chunk_row_groups={}, _chunk_row_group_item_read_count={})
+        return state
-- 
2.43.0


From 724510d371b81a28f46bdb92af8df4044447fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 49/60] fix: input files outside of the input_dir were deleted
 once processed

---
 src/litdata/processing/data_processor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 496e07d..0b7671e 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -612,7 +612,9 @@ class BaseWorker:
                 self._last_time = time()
 
             if self.remove and self.input_dir.path is not None and self.reader is None:
-                self.remove_queue.put(self.paths[index])
+                # Only the copies placed in the cache can be deleted
+                input_dir = str(self.input_dir.path)
+                self.remove_queue.put([path for path in self.paths[index] if path.startswith(input_dir)])
 
             try:
                 self.stop_queue.get(timeout=0.0001)
-- 
2.43.0


From 9e5aef374e696733abbd3851c8a515b3e62b72a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 50/60] fix: an input file shared by several inputs was deleted
 or read before its copy was complete

---
 src/litdata/processing/data_processor.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 0b7671e..d61f49b 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -171,7 +171,7 @@ def _download_data_target(
                 elif os.path.isfile(path):
                     if not path.startswith("/teamspace/studios/this_studio"):
                         os.makedirs(os.path.dirname(local_path), exist_ok=True)
-                        shutil.copyfile(path, local_path)
+                        _copy_file(path, local_path)
                 else:
                     raise ValueError(f"The provided {input_dir.url} isn't supported.")
 
@@ -405,6 +405,16 @@ def _get_item_filesizes(items: List[Any], base_path: str = "") -> List[int]:
     return item_sizes
 
 
+def _get_shared_paths(workers_items: List[List[Any]]) -> Set[str]:
+    """The paths which belong to several items."""
+    counter: Dict[str, int] = {}
+    for items in workers_items:
+        for item in items:
+            for element in {element for element in tree_flatten(item)[0] if isinstance(element, str)}:
+                counter[element] = counter.get(element, 0) + 1
+    return {_to_path(element) for element, count in counter.items() if count > 1}
+
+
 def _to_path(element: str) -> str:
     return element if _IS_IN_STUDIO and element.startswith("/teamspace") else str(Path(element).resolve())
 
@@ -483,6 +493,7 @@ class BaseWorker:
         item_loader: Optional[BaseItemLoader] = None,
         storage_options: Dict[str, Any] = {},
         checkpoint_config: Optional[Dict[str, Any]] = None,
+        shared_paths: Optional[Set[str]] = None,
     ) -> None:
         """The BaseWorker is responsible to process the user data."""
         self.worker_index = worker_index
@@ -498,6 +509,7 @@ class BaseWorker:
         self.remove = remove
         self.reader = reader
         self.paths: List[List[str]] = []
+        self.shared_paths = shared_paths or set()
         self.remover: Optional[Process] = None
         self.downloaders: List[Process] = []
         self.uploaders: List[Process] = []
@@ -612,9 +624,11 @@ class BaseWorker:
                 self._last_time = time()
 
             if self.remove and self.input_dir.path is not None and self.reader is None:
-                # Only the copies placed in the cache can be deleted
+                # Only the copies placed in the cache can be deleted, unless other items need them too
                 input_dir = str(self.input_dir.path)
-                self.remove_queue.put([path for path in self.paths[index] if path.startswith(input_dir)])
+                self.remove_queue.put(
+                    [path for path in self.paths[index] if path.startswith(input_dir) and path not in self.shared_paths]
+                )
 
             try:
                 self.stop_queue.get(timeout=0.0001)
@@ -1341,6 +1355,7 @@ class DataProcessor:
         self.progress_queue = Queue()
         workers: List[DataWorkerProcess] = []
         stop_queues: List[Queue] = []
+        shared_paths = _get_shared_paths(workers_user_items) if self.input_dir.path and self.reader is None else None
         for worker_idx, worker_user_items in enumerate(workers_user_items):
             stop_queues.append(Queue())
             worker = DataWorkerProcess(
@@ -1365,6 +1380,7 @@ class DataProcessor:
                 self.item_loader,
                 self.storage_options,
                 self.checkpoint_configs[worker_idx] if self.checkpoint_configs else None,
+                shared_paths,
             )
             worker.start()
             workers.append(worker)
-- 
2.43.0


From 19493eec57816d8f795be25b069abce1fdbcaa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 51/60] fix: map didn't provide is_last and device to a partial
 function

---
 src/litdata/processing/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index cac29eb..75ea42d 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -117,7 +117,7 @@ class LambdaMapRecipe(MapRecipe):
         self._inputs = inputs
         self._device: Optional[str] = None
 
-        _fn = self._fn if isinstance(self._fn, FunctionType) else self._fn.__call__  # type: ignore
+        _fn = self._fn if isinstance(self._fn, (FunctionType, partial)) else self._fn.__call__  # type: ignore
         params = inspect.signature(_fn).parameters
         self._contains_device = "device" in params
         self._contains_is_last = "is_last" in params
-- 
2.43.0


From 0a65fe0dcbe17812e57f764420d20aa2278eeae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 52/60] fix: files were misplaced and misnamed when the path of
 the output or of a mapped file contains .checkpoints

---
 src/litdata/processing/data_processor.py | 32 ++++++++----------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index d61f49b..19c8b8d 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -257,18 +257,18 @@ def _upload_fn(
         if not local_filepath.startswith(cache_dir):
             local_filepath = os.path.join(cache_dir, local_filepath)
 
+        # Determine the name of the file within the output directory
+        if tmpdir is not None:
+            output_filename = local_filepath.replace(tmpdir, "")[1:]
+        else:
+            output_filename = os.path.basename(local_filepath)
+            if os.path.relpath(local_filepath, cache_dir).startswith(".checkpoints"):
+                # remove unique id from checkpoints
+                output_filename = remove_uuid_from_filename(os.path.join(".checkpoints", output_filename))
+
         if obj.scheme in _SUPPORTED_PROVIDERS:
             try:
-                output_filepath = output_dir.url
-
-                if local_filepath.__contains__(".checkpoints"):
-                    output_filepath = os.path.join(output_filepath, ".checkpoints")
-                if tmpdir is None:
-                    output_filepath = os.path.join(output_filepath, os.path.basename(local_filepath))
-                else:
-                    output_filepath = os.path.join(output_filepath, local_filepath.replace(tmpdir, "")[1:])
-
-                output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
+                output_filepath = os.path.join(output_dir.url, output_filename)
 
                 fs_provider.upload_file(
                     local_filepath,
@@ -279,17 +279,7 @@ def _upload_fn(
                 raise
 
         elif output_dir.path:
-            output_filepath = output_dir.path
-
-            if local_filepath.__contains__(".checkpoints"):
-                output_filepath = os.path.join(output_filepath, ".checkpoints")
-
-            if tmpdir is None:
-                output_filepath = os.path.join(output_filepath, os.path.basename(local_filepath))
-            else:
-                output_filepath = os.path.join(output_filepath, local_filepath.replace(tmpdir, "")[1:])
-
-            output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
+            output_filepath = os.path.join(output_dir.path, output_filename)
 
             os.makedirs(os.path.dirname(output_filepath), exist_ok=True)
             _copy_file(local_filepath, output_filepath)
-- 
2.43.0


From 1d41268965556261a0a6ed64801f310c466dd4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 53/60] fix: map ignored error_when_not_empty for a local
 output directory

---
 src/litdata/streaming/resolver.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index 1b71ec5..baad9e5 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -236,16 +236,16 @@ def _assert_dir_is_empty(
         raise ValueError("The provided output_dir isn't a `Dir` Object.")
 
     if output_dir.url is None:
-        return
+        is_empty = output_dir.path is None or not os.path.isdir(output_dir.path) or not os.listdir(output_dir.path)
+    else:
+        obj = parse.urlparse(output_dir.url)
 
-    obj = parse.urlparse(output_dir.url)
+        if obj.scheme not in _SUPPORTED_PROVIDERS:
+            not_supported_provider(output_dir.url)
 
-    if obj.scheme not in _SUPPORTED_PROVIDERS:
-        not_supported_provider(output_dir.url)
+        fs_provider = _get_fs_provider(output_dir.url, storage_options)
 
-    fs_provider = _get_fs_provider(output_dir.url, storage_options)
-
-    is_empty = fs_provider.is_empty(output_dir.url)
+        is_empty = fs_provider.is_empty(output_dir.url)
 
     # We aren't allowing to add more data
     # TODO: Add support for `append` and `overwrite`.
-- 
2.43.0


From 28a053b9c33cec97c4c56a15e7d3aabffc9d89d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:33 +0000
Subject: [PATCH 54/60] fix: optimize waited forever, or ignored the failure,
 when a worker without items couldn't upload

---
 src/litdata/processing/data_processor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 19c8b8d..5062814 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -1279,7 +1279,8 @@ class DataProcessor:
                 pbar.update(new_total - current_total)
 
             current_total = new_total
-            if current_total == num_items:
+            # A worker without items reports too, once its uploads are done
+            if current_total == num_items and len(self.workers_tracker) == len(self.workers):
                 # make sure all processes are terminated
                 for w in self.workers:
                     if w.is_alive():
-- 
2.43.0


From a63e21fbb4cac72847a45a1d9594f27a22cf4080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:53 +0000
Subject: [PATCH 55/60] fix: items of a streaming dataloader were lost by map
 and optimize, or they failed, unless its batches divide evenly

---
 src/litdata/processing/data_processor.py |  2 ++
 src/litdata/processing/readers.py        | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 5062814..fd0f690 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -1189,6 +1189,8 @@ class DataProcessor:
             workers_user_items = _map_items_to_workers_weighted(
                 num_workers=self.num_workers, user_items=user_items, weights=item_sizes
             )
+        elif isinstance(self.reader, StreamingDataLoaderReader):
+            workers_user_items = self.reader.get_workers_items(self.num_workers)
         else:
             workers_user_items = _map_items_to_workers_sequentially(num_workers=self.num_workers, user_items=user_items)
 
diff --git a/src/litdata/processing/readers.py b/src/litdata/processing/readers.py
index a1ebdef..7e3f02a 100644
--- a/src/litdata/processing/readers.py
+++ b/src/litdata/processing/readers.py
@@ -18,6 +18,7 @@ from typing import Any, List
 
 from litdata.constants import _PYARROW_AVAILABLE
 from litdata.streaming.dataloader import StreamingDataLoader
+from litdata.utilities.env import _DistributedEnv
 from litdata.utilities.format import _get_tqdm_iterator_if_available
 
 
@@ -150,3 +151,20 @@ class StreamingDataLoaderReader(BaseReader):
         No splitting or batching is done here. As streaming dataloader is already optimized for this.
         """
         return list(range(len(dataloader)))
+
+    def get_workers_items(self, num_workers: int) -> List[List[int]]:
+        """The items of each worker of this node, i.e. the batches its own iterator over the dataloader provides."""
+        world_size = self.get_num_nodes() * num_workers
+        first_rank = self.get_node_rank() * num_workers
+        return [list(range(self._get_num_batches(world_size, first_rank + rank))) for rank in range(num_workers)]
+
+    def _get_num_batches(self, world_size: int, global_rank: int) -> int:
+        datasets = getattr(self.dataloader.dataset, "_datasets", [self.dataloader.dataset])
+        distributed_envs = [dataset.distributed_env for dataset in datasets]
+        try:
+            for dataset in datasets:
+                dataset.distributed_env = _DistributedEnv(world_size, global_rank, self.get_num_nodes())
+            return len(self.dataloader)
+        finally:
+            for dataset, distributed_env in zip(datasets, distributed_envs):
+                dataset.distributed_env = distributed_env
-- 
2.43.0


From 7a4eb77e1df4927b46670a6c14438bc3d13beb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:53 +0000
Subject: [PATCH 56/60] fix: ParquetReader took the rows of another file with
 the same name, or of an earlier version, from its cache

---
 src/litdata/processing/readers.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/readers.py b/src/litdata/processing/readers.py
index 7e3f02a..9dc0fef 100644
--- a/src/litdata/processing/readers.py
+++ b/src/litdata/processing/readers.py
@@ -12,6 +12,7 @@
 # limitations under the License.
 
 import contextlib
+import hashlib
 import os
 from abc import ABC, abstractmethod
 from typing import Any, List
@@ -76,6 +77,14 @@ class ParquetReader(BaseReader):
         df = ds.dataset(path).scanner()
         return df.count_rows()
 
+    def _get_file_id(self, filepath: str) -> str:
+        """Identifies this version of the file, as others can have the same name."""
+        version = os.path.abspath(filepath)
+        if os.path.exists(filepath):
+            stat = os.stat(filepath)
+            version += f"-{stat.st_size}-{stat.st_mtime_ns}"
+        return hashlib.md5(version.encode()).hexdigest()[:16]  # noqa: S324
+
     def read(self, filepath: str) -> Any:
         """Read the parquet file and return a parquet file object."""
         import pyarrow as pa
@@ -114,7 +123,7 @@ class ParquetReader(BaseReader):
             num_rows = self._get_num_rows(filepath)
 
             table = None
-            parquet_filename = os.path.basename(filepath)
+            parquet_filename = f"{self._get_file_id(filepath)}_{os.path.basename(filepath)}"
 
             for start in _tqdm(range(0, num_rows, self.num_rows)):
                 end = min(start + self.num_rows, num_rows)
@@ -127,7 +136,9 @@ class ParquetReader(BaseReader):
                 if table is None:
                     table = pq.read_table(filepath, memory_map=True)
 
-                pq.write_table(table[start:end], chunk_filepath)
+                # An interruption shouldn't leave a partial file behind
+                pq.write_table(table[start:end], f"{chunk_filepath}.tmp")
+                os.replace(f"{chunk_filepath}.tmp", chunk_filepath)
 
         print("Finished resharding the parquet files for optimized processing.")
 
-- 
2.43.0


From d88997a3676008d36fb0faa22773318fb20ea4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:58 +0000
Subject: [PATCH 57/60] fix: processes opening a remote dataset at once removed
 each other's cache; rewritten merged and MosaicML datasets were read from a
 stale cache

---
 src/litdata/processing/functions.py        |  7 ++++++-
 src/litdata/utilities/dataset_utilities.py | 15 +++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index 75ea42d..3582984 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -21,6 +21,7 @@ from dataclasses import dataclass
 from datetime import datetime
 from functools import partial
 from pathlib import Path
+from time import time
 from types import FunctionType
 from typing import TYPE_CHECKING, Any, Callable, Dict, List, Literal, Optional, Sequence, Tuple, Union
 from urllib import parse
@@ -643,7 +644,11 @@ def merge_datasets(
             chunks.append(chunk)
             counter += 1
 
-    index_json = {"config": input_dirs_file_content[0]["config"], "chunks": chunks}  # type: ignore
+    index_json = {
+        "config": input_dirs_file_content[0]["config"],  # type: ignore
+        "chunks": chunks,
+        "updated_at": str(time()),
+    }
 
     _tqdm = _get_tqdm_iterator_if_available()
 
diff --git a/src/litdata/utilities/dataset_utilities.py b/src/litdata/utilities/dataset_utilities.py
index 6f7fd07..1aa2d3c 100644
--- a/src/litdata/utilities/dataset_utilities.py
+++ b/src/litdata/utilities/dataset_utilities.py
@@ -165,6 +165,9 @@ def _read_updated_at(
 
     if index_json_content is not None and "updated_at" in index_json_content:
         last_updation_timestamp = index_json_content["updated_at"]
+    elif index_json_content is not None and index_json_content.get("config", {}).get("format") == "mds":
+        # the indexes of MosaicML have no timestamp: their versions can only be told apart by their contents
+        last_updation_timestamp = hashlib.md5(json.dumps(index_json_content, sort_keys=True).encode()).hexdigest()  # noqa: S324
 
     return last_updation_timestamp
 
@@ -172,15 +175,15 @@ def _read_updated_at(
 def _clear_cache_dir_if_updated(input_dir_hash_filepath: str, updated_at_hash: str) -> None:
     """Clear cache dir if it is updated.
 
-    If last_updated has changed and /cache/chunks/{HASH(input_dir.url)} isn't empty, we remove all the files and then
-    create the cache.
+    If last_updated has changed and /cache/chunks/{HASH(input_dir.url)} isn't empty, we remove all the files of other
+    versions and then create the cache.
 
     """
     if os.path.exists(input_dir_hash_filepath):
-        # check if it only contains one directory with updated_at_hash
-        dir_list = os.listdir(input_dir_hash_filepath)
-        if not (len(dir_list) == 1 and dir_list[0] == updated_at_hash):
-            shutil.rmtree(input_dir_hash_filepath)
+        # remove the other versions only, as another process might already be filling the directory of this one
+        for name in os.listdir(input_dir_hash_filepath):
+            if name != updated_at_hash:
+                shutil.rmtree(os.path.join(input_dir_hash_filepath, name), ignore_errors=True)
 
 
 def _try_create_cache_dir(
-- 
2.43.0


From ae2a575f4522d54e3285e5b3cb46ceb85730f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 58/60] fix: methods were never told is_last by map, and
 generator methods (or partials of objects) weren't supported by optimize

---
 src/litdata/processing/functions.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index 3582984..2a0bd4d 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -118,8 +118,7 @@ class LambdaMapRecipe(MapRecipe):
         self._inputs = inputs
         self._device: Optional[str] = None
 
-        _fn = self._fn if isinstance(self._fn, (FunctionType, partial)) else self._fn.__call__  # type: ignore
-        params = inspect.signature(_fn).parameters
+        params = inspect.signature(self._fn).parameters
         self._contains_device = "device" in params
         self._contains_is_last = "is_last" in params
 
@@ -185,11 +184,12 @@ class LambdaDataChunkRecipe(DataChunkRecipe):
         self.prepare_item = self._prepare_item_generator if self.is_generator else self._prepare_item  # type: ignore
 
     def check_fn(self) -> None:
-        if (
-            isinstance(self._fn, (partial, FunctionType))
-            and inspect.isgeneratorfunction(self._fn)
-            or (callable(self._fn) and inspect.isgeneratorfunction(self._fn.__call__))  # type: ignore
-        ):
+        fn: Any = self._fn
+        while isinstance(fn, partial):
+            fn = fn.func
+
+        # functions and methods, or else objects with a `__call__` method
+        if inspect.isgeneratorfunction(fn) or (callable(fn) and inspect.isgeneratorfunction(fn.__call__)):
             self.is_generator = True
 
     def _prepare_item(self, item_metadata: Any) -> Any:
-- 
2.43.0


From eac918f34fe70ec40cba77479561e4e29dbf1c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:38 +0000
Subject: [PATCH 59/60] fix: nodes sharing an optimize run duplicated the
 existing dataset when appending, merged stale indexes, and failed on a shared
 local directory

---
 src/litdata/processing/data_processor.py | 31 ++++++++++++++++++++++--
 src/litdata/processing/functions.py      |  5 ++--
 src/litdata/streaming/resolver.py        |  7 +++---
 3 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index fd0f690..6cb372c 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -958,7 +958,11 @@ class DataChunkRecipe(DataRecipe):
 
         merge_cache = Cache(cache_dir, chunk_bytes=1)
         node_rank = _get_node_rank()
-        merge_cache._merge_no_wait(node_rank if num_nodes > 1 else None, getattr(self, "existing_index", None))
+        if num_nodes > 1:
+            # the existing index is added once, when the indexes of all the nodes are merged
+            merge_cache._merge_no_wait(node_rank)
+        else:
+            merge_cache._merge_no_wait(None, getattr(self, "existing_index", None))
 
         self._upload_index(output_dir, cache_dir, num_nodes, node_rank)
 
@@ -990,6 +994,21 @@ class DataChunkRecipe(DataRecipe):
             size=size,
         )
 
+    def _cleanup_node_index(self, output_dir: Dir) -> None:
+        """Remove the index this node left in a former run, as the last node would merge it with the new ones."""
+        if _get_num_nodes() == 1:
+            return
+
+        filename = f"{_get_node_rank()}-{_INDEX_FILENAME}"
+        if output_dir.url:
+            remote_filepath = os.path.join(output_dir.url, filename)
+            fs_provider = _get_fs_provider(output_dir.url, self.storage_options)
+            if fs_provider.exists(remote_filepath):
+                fs_provider.delete_file_or_directory(remote_filepath)
+        elif output_dir.path:
+            with suppress(FileNotFoundError):
+                os.remove(os.path.join(output_dir.path, filename))
+
     def _upload_index(self, output_dir: Dir, cache_dir: str, num_nodes: int, node_rank: Optional[int]) -> None:
         """Upload the index file to the remote cloud directory."""
         if output_dir.path is None and output_dir.url is None:
@@ -1028,10 +1047,15 @@ class DataChunkRecipe(DataRecipe):
                     fs_provider = _get_fs_provider(remote_filepath, self.storage_options)
                     fs_provider.download_file(remote_filepath, node_index_filepath)
                 elif output_dir.path and os.path.isdir(output_dir.path):
+                    # the other nodes share this directory and may still be working
+                    if not os.path.exists(remote_filepath):
+                        print(f"Waiting for the index of the node {node_rank}: {remote_filepath}")
+                    while not os.path.exists(remote_filepath):
+                        sleep(1)
                     shutil.copyfile(remote_filepath, node_index_filepath)
 
             merge_cache = Cache(cache_dir, chunk_bytes=1)
-            merge_cache._merge_no_wait()
+            merge_cache._merge_no_wait(None, getattr(self, "existing_index", None))
             self._upload_index(output_dir, cache_dir, 1, None)
 
 
@@ -1153,6 +1177,9 @@ class DataProcessor:
             # clean up checkpoints if not using checkpoints
             self._cleanup_checkpoints()
 
+        if isinstance(data_recipe, DataChunkRecipe):
+            data_recipe._cleanup_node_index(self.output_dir)
+
         t0 = time()
         print(f"Setup started with fast_dev_run={self.fast_dev_run}.")
 
diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index 2a0bd4d..043ec83 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -31,7 +31,7 @@ import torch
 from litdata import __version__
 from litdata.constants import _INDEX_FILENAME, _IS_IN_STUDIO, _SUPPORTED_PROVIDERS
 from litdata.helpers import _check_version_and_prompt_upgrade
-from litdata.processing.data_processor import DataChunkRecipe, DataProcessor, MapRecipe
+from litdata.processing.data_processor import DataChunkRecipe, DataProcessor, MapRecipe, _get_node_rank
 from litdata.processing.readers import BaseReader
 from litdata.processing.utilities import (
     _get_work_dir,
@@ -483,8 +483,9 @@ def optimize(
         if existing_index_file_content is not None:
             for chunk in existing_index_file_content["chunks"]:
                 rank, index = extract_rank_and_index_from_filename(chunk["filename"])
+                rank -= _get_node_rank() * num_workers  # the chunks are named after the workers of all the nodes
 
-                if rank < num_workers and state_dict[rank] <= index:
+                if 0 <= rank < num_workers and state_dict[rank] <= index:
                     state_dict[rank] = index + 1  # +1 because we want to start from the next index
 
         data_processor = DataProcessor(
diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index baad9e5..8389bc1 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -293,14 +293,15 @@ def _assert_dir_has_index_file(
                 )
 
             # delete index.json file and chunks
-            if os.path.exists(os.path.join(output_dir.path, "index.json")):
-                # only possible if mode = "overwrite"
+            # only possible if mode = "overwrite". The other nodes sharing the directory, if any, delete it too.
+            with suppress(FileNotFoundError):
                 os.remove(os.path.join(output_dir.path, "index.json"))
 
             if mode == "overwrite" or (mode is None and not use_checkpoint):
                 for file in os.listdir(output_dir.path):
                     if file.endswith(".bin"):
-                        os.remove(os.path.join(output_dir.path, file))
+                        with suppress(FileNotFoundError):
+                            os.remove(os.path.join(output_dir.path, file))
 
                 # delete checkpoints
                 with suppress(FileNotFoundError):
-- 
2.43.0


From c8cb558175335b2654c7ec749313c4f5249aa4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:45 +0000
Subject: [PATCH 60/60] fix: merging the indexes of several nodes failed when
 one of them had no items

---
 src/litdata/streaming/writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index fdd0036..0712189 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -532,7 +532,8 @@ class BinaryWriter:
                 if config is None:
                     config = data["config"]
 
-                elif config != data["config"]:
+                # the nodes without items have no config
+                elif data["config"] is not None and config != data["config"]:
                     raise Exception(
                         "The config isn't consistent between chunks. This shouldn't have happened."
                         f"Found {config}; {data['config']}."
-- 
2.43.0

