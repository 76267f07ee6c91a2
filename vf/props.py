"""Single source of properties.jsonl and MANIFEST.json (python vf/props.py rewrites both)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TECH = "TLA+ specification: TLC model checking of the design + TLC trace validation of real executions"


def prop(id, title, statement, over, text, why, files, mechanism, note, state=(), observe=(), technique=TECH):
    P.append(({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                    "observe_at": list(observe), "hook_needed": None}},
        {"property": id, "quick_cmd": f"./check {id}", "thorough_cmd": f"./check {id} --tier thorough",
         "technique": technique, "level": "model_checking", "level_note": note}))


prop("S01", "Every epoch delivers every item exactly once over all processes and workers",
     "For every dataset layout and every topology (nodes, processes, dataloader workers, batch size, shuffling, drop_last), the streams of all "
     "workers of all processes of one epoch together contain every item of the dataset exactly once; with drop_last no item is delivered twice and "
     "only the items of the incomplete last round over all processes, workers and batches are left out.",
     ["configurations", "inputs"], "all chunk layouts x process/worker/batch topologies x shuffle x drop_last x epochs",
     "The tests fix a few layouts and topologies; the guarantee is about all partitions of chunks into intervals, including shared and exhausted chunks.",
     ["src/litdata/streaming/dataset.py", "src/litdata/streaming/shuffle.py", "src/litdata/utilities/shuffle.py"],
     [("_associate_chunks_and_intervals_to_workers", "src/litdata/utilities/shuffle.py"), ("StreamingDataset.__iter__/__next__", "src/litdata/streaming/dataset.py")],
     "Design model exhausted for small layouts/topologies; real streams of about 1 200 (quick) enumerated and random configurations x 3 epochs validated against the specification. "
     "Workers are simulated in one process by setting the worker info and rank environment; topology up to 4 processes x 4 workers.",
     state=[("worker_chunks/worker_intervals", "the part of each chunk a worker reads", "StreamingDataset")],
     observe=["items yielded by each (process, worker) stream"])

prop("S02", "Processes receive equal shares and the announced length is the delivered length",
     "With drop_last every process receives the same number of items, a whole number of batches per worker; without it the shares differ only in the "
     "remainder kept by the last process. The length a dataset announces for a process equals the number of items that process delivers in each epoch.",
     ["configurations", "inputs"], "all chunk layouts x process/worker/batch topologies x shuffle x drop_last",
     "Balance is arithmetic over all layouts and topologies; the tests pin a handful of tuples.",
     ["src/litdata/utilities/shuffle.py", "src/litdata/streaming/shuffle.py", "src/litdata/streaming/dataset.py"],
     [("_associate_chunks_and_intervals_to_workers", "src/litdata/utilities/shuffle.py"), ("Shuffle.get_len", "src/litdata/streaming/shuffle.py")],
     "Design model exhausted for small layouts; about 1 200 real configurations (up to 8 processes) x 2 epochs per quick run.",
     observe=["len(dataset)", "items per stream"])

prop("S03", "Iteration order is sequential, or a seeded chunk-wise permutation",
     "Without shuffling the concatenated streams of the workers are the stored order. With shuffling the order within a worker is a permutation that "
     "keeps the items of a chunk together, is a function of (seed, epoch, topology) only - repeated runs agree whatever the global random state - and "
     "changes with the epoch and with the seed.",
     ["configurations", "inputs", "histories"], "all layouts, topologies, seeds and epochs",
     "Determinism and independence from ambient random state are relations between runs; tests compare a few constants.",
     ["src/litdata/streaming/shuffle.py", "src/litdata/utilities/shuffle.py", "src/litdata/streaming/dataset.py"],
     [("FullShuffle/NoShuffle", "src/litdata/streaming/shuffle.py"), ("_intra_node_chunk_shuffle", "src/litdata/utilities/shuffle.py")],
     "About 760 configurations x 6 epochs per quick run; 'changes with epoch and seed' is judged only where an accidental coincidence is out of the question.",
     observe=["order of items per stream"])

prop("S04", "A restored loader continues with exactly the batches that were still to come",
     "For every loader configuration and every point of an epoch, loading a saved state into a new or running loader (or a bare dataset) makes it deliver "
     "exactly the remaining batches of the interrupted epoch, in order, and then the same later epochs as an uninterrupted run. Saved states are snapshots: "
     "they stay valid whatever happens later, can be reloaded several times, and resuming can be repeated at any later point.",
     ["histories", "configurations"], "all save points, chains of save/load/iterate steps, worker counts, batch sizes, uneven worker shares",
     "Tests resume once, at a few points of one or two layouts; the guarantee quantifies over all points and all chains of resumes.",
     ["src/litdata/streaming/dataloader.py", "src/litdata/streaming/dataset.py"],
     [("_replay_sampling/_replay_chunks_sampling", "src/litdata/streaming/dataset.py"), ("StreamingDataLoader.state_dict/load_state_dict", "src/litdata/streaming/dataloader.py")],
     "Design of the replay model-checked (11 share layouts, all histories up to 15 steps); 260 TLC-generated histories of up to five sessions replayed in the real "
     "loader with 0-4 worker processes and in a bare dataset. Reference epochs come from an uninterrupted run of the same code (its content is judged by S01-S03).",
     observe=["batches delivered by the loader"])

prop("S05", "Every epoch of a reused loader is whole, also after abandoned or resumed ones",
     "A loader can be iterated again and again: after a complete, abandoned or resumed epoch the next iteration starts the next epoch from its beginning and "
     "delivers it completely, in the same order an undisturbed loader would; len(loader) is the number of batches delivered.",
     ["histories", "configurations"], "all sequences of complete, abandoned and resumed epochs, worker counts, batch sizes, drop_last",
     "The tests exercise single epochs and one break; histories are unbounded.",
     ["src/litdata/streaming/dataloader.py", "src/litdata/streaming/dataset.py"],
     [("StreamingDataLoader.__iter__", "src/litdata/streaming/dataloader.py"), ("set_epoch/current_epoch", "src/litdata/streaming/dataset.py")],
     "As S04. Known finding: persistent workers repeat the order of an abandoned epoch.",
     observe=["batches delivered by the loader", "len(loader)"])

DP = "src/litdata/processing/data_processor.py"
WR = "src/litdata/streaming/writer.py"

prop("W01", "Chunks respect their limits and index.json describes exactly the files",
     "After every successful optimize run each chunk holds at most chunk_size items (or, with more than one item, at most chunk_bytes of data); no chunk is "
     "empty; index.json lists every chunk once, the file exists, and the listed number of items and (uncompressed) bytes equal those of the file; the counts "
     "add up to the items written.",
     ["configurations", "inputs"], "all inputs (including empty and multi-item ones), workers, limits, compression, local and S3 destinations",
     "Chunk boundaries depend on the sizes of all items and their distribution over workers; tests fix a few.",
     [WR, DP, "src/litdata/processing/functions.py"],
     [("BinaryWriter.add_item/_create_chunk/merge", WR), ("DataChunkRecipe._done", DP)],
     "420 random runs (quick) of TLC-generated configurations, of which 1/6 into a fake S3; every chunk file is parsed.",
     observe=["index.json", "chunk files"])

prop("W02", "optimize stores every item of every input once, in order",
     "Every input is handed to the user function exactly once and unaltered, and the dataset of a successful run consists of exactly the items produced for the "
     "inputs, in the order of the inputs (unless inputs are files and reorder_files is set), whatever the number of workers, up- and downloaders, chunk limits, "
     "compression, batch size and destination.",
     ["configurations", "inputs", "schedules"], "all input lists x workers x downloaders/uploaders x generators x files x limits x local/S3",
     "Order and completeness depend on worker counts (string vs number order from 11 workers on) and on the scheduling of downloaders; tests use one or two workers.",
     [DP, "src/litdata/processing/functions.py", WR],
     [("_map_items_to_workers_sequentially/_weighted", DP), ("BaseWorker._loop", DP), ("BinaryWriter.merge", WR)],
     "420 random runs (quick): up to 14 inputs, 13 workers, 3 downloaders/uploaders, empty and multi-item inputs. Schedules are those the machine produces.",
     observe=["calls of the user function", "items read back"])

prop("W03", "A directory holds what its history of runs and merges says",
     "After any sequence of optimize runs (default, append, overwrite; successful or failing; compatible or not) and merge_datasets over several directories, "
     "local or in S3: default mode refuses a directory with a dataset and leaves it unchanged; append adds the new items after the old ones; overwrite replaces "
     "them; a merge is the concatenation of its sources; refused operations change nothing, and other directories are never affected.",
     ["histories", "configurations"], "all sequences of runs and merges over several directories and formats",
     "Tests run one or two operations; leftovers of earlier runs only matter in longer histories.",
     ["src/litdata/processing/functions.py", "src/litdata/streaming/resolver.py", WR, "src/litdata/streaming/fs_provider.py"],
     [("_assert_dir_has_index_file", "src/litdata/streaming/resolver.py"), ("merge_datasets", "src/litdata/processing/functions.py"), ("BinaryWriter (append)", WR)],
     "220 random histories (quick) of up to 5 operations, half of them in a fake S3 with paged listings.",
     observe=["index.json", "items read back", "exception of the call"])

prop("W04", "A run that cannot finish its work fails, and publishes nothing incomplete",
     "When the user function raises, a worker process dies or is killed, a download or an upload fails, optimize raises an error (it neither reports success nor "
     "waits forever) and does not publish an index of incomplete data; a crash of everything at any point leaves either the previous dataset, a complete new one, or none.",
     ["crash points", "histories", "configurations"], "every input at which a fault strikes, every copied file, kinds of faults, workers",
     "Tests inject at most one exception in one place; crash points and dying workers are not covered.",
     [DP, "src/litdata/processing/functions.py"],
     [("DataProcessor.run", DP), ("_upload_fn", DP), ("_download_data_target", DP), ("_copy_file", DP)],
     "Protocol of workers, uploaders and main process model-checked incl. liveness (two wrong variants refuted); 420 histories (quick) with one fault each. 'Forever' means 40 s.",
     observe=["exception or return of optimize", "index.json", "items read back"])

prop("W05", "An interrupted run with checkpoints completes as if uninterrupted",
     "With use_checkpoint, a run interrupted at any point (exception, dead worker, crash, half-copied file) and started again with the same arguments completes to exactly "
     "the items, in the order, of an uninterrupted run; started with other arguments it fails or processes the new inputs completely, never a mixture.",
     ["crash points", "histories"], "all crash points, repeated interruptions, workers, formats",
     "The tests interrupt one run at one item; the guarantee is over all interruption points and chains of them.",
     [DP, WR],
     [("_save_current_config/_load_checkpoint_config", DP), ("BinaryWriter.save_checkpoint", WR)],
     "Checkpoint protocol model-checked (three wrong variants refuted); 110 histories (quick) of interrupted and restarted runs.",
     observe=["index.json", "items read back", "calls of the user function"])

prop("W06", "Nodes which share the work store what one machine would",
     "When several nodes run the same optimize or map at once (DATA_OPTIMIZER_NUM_NODES and _NODE_RANK) with one output directory, in S3 or shared by them, for any number of nodes, workers and inputs, any distribution "
     "of the inputs (in order or by size) and any relative speed: every input is given to the function exactly once over all nodes, index.json appears once, when every chunk it lists is complete, and the dataset "
     "then holds every item once, in the order of the inputs if they aren't distributed by size; overwriting replaces and appending keeps the dataset of any earlier run, whatever an earlier or failed run "
     "left in the directory; when the function fails on a node, that node raises and no index is published.",
     ["schedules", "histories", "configurations", "crash points"], "all numbers of nodes, workers and inputs, speeds, histories of runs in one directory",
     "Tests simulate single nodes one after the other with mocks; nothing runs several nodes at once or runs again in the same directory.",
     [DP, "src/litdata/processing/functions.py", "src/litdata/streaming/resolver.py"],
     [("DataChunkRecipe._done, _upload_index", DP), ("_map_items_to_workers_sequentially, _map_items_to_workers_weighted", DP), ("BinaryWriter._merge_no_wait", WR), ("_assert_dir_has_index_file", "src/litdata/streaming/resolver.py")],
     "The publication protocol is model-checked incl. liveness (three wrong variants refuted); 80 (quick) TLC-generated histories of up to three runs of 2-3 nodes are replayed with real processes. Nodes begin to work when all have begun.",
     observe=["calls of the function", "index.json and the chunks it lists when it appears", "items read", "result of every node"])

prop("V01", "Indexing, slicing, len and iteration of a dataset agree",
     "For every dataset (raw, compressed, encrypted, tokens; local or remote with any cache size), subsample or split, in a single process: len(ds) is the number of "
     "items, ds[i] is the i-th item of the unshuffled iteration for every valid index and an error otherwise, ds[a:b:c] equals slicing the list of items, a complete "
     "iteration delivers exactly the items, and none of these operations, nor abandoning an iteration, changes the result of a later one. Items handed out stay valid.",
     ["histories", "configurations"], "all layouts, storages and sequences of index/slice/len/iterate/open/split operations",
     "Tests index and iterate fresh datasets; here every operation is judged after arbitrary earlier ones, with eviction and handles kept open.",
     ["src/litdata/streaming/dataset.py", "src/litdata/streaming/config.py", "src/litdata/streaming/item_loader.py", "src/litdata/streaming/reader.py"],
     [("StreamingDataset.__getitem__", "src/litdata/streaming/dataset.py"), ("_get_chunk_index_from_index", "src/litdata/streaming/config.py"),
      ("load_item_from_chunk", "src/litdata/streaming/item_loader.py")],
     "300 TLC-generated histories (quick) of up to 12 operations over 10 kinds of storage validated against the specification.",
     observe=["items, lengths and exceptions returned to the program"])

prop("V02", "Subsamples and splits have the announced sizes, are disjoint and reproducible",
     "A dataset opened with subsample=x has floor(x*n) items: every item floor(x) or ceil(x) times, the first ones when unshuffled, the same ones for the same seed. "
     "train_test_split returns parts of floor(f*n) items each which together never use an item of the dataset more often than it occurs there, leaves the dataset itself "
     "unchanged, is reproducible, may be nested, and refuses only fractions that are invalid. Every view shared over processes and workers is delivered exactly once.",
     ["inputs", "configurations", "histories"], "all layouts, fractions, seeds, nestings and topologies",
     "Regions of interest interact with chunk order, copies and nesting; tests use one layout and unshuffled, not nested splits.",
     ["src/litdata/utilities/train_test_split.py", "src/litdata/utilities/dataset_utilities.py", "src/litdata/utilities/subsample.py", "src/litdata/streaming/config.py"],
     [("train_test_split", "src/litdata/utilities/train_test_split.py"), ("subsample_filenames_and_roi", "src/litdata/utilities/subsample.py"),
      ("load_subsampled_chunks", "src/litdata/streaming/config.py")],
     "Cutting algorithm model-checked for all layouts of up to 3 (4) chunks, all cuts and nestings, a wrong variant refuted; 300 TLC-generated histories (quick).",
     observe=["items, lengths and exceptions returned to the program"])

RD, CF = "src/litdata/streaming/reader.py", "src/litdata/streaming/config.py"
prop("K01", "Remote data is delivered intact without stalls, whatever the cache limit",
     "Reading a remote dataset (plain, compressed, tokens; local, S3 or custom downloader) through a cache of any limit (also none) with any max_pre_download, by any number of ranks and workers sharing "
     "the cache, at any relative speed of downloads and readers, and whatever killed readers left in the cache, every epoch delivers exactly the stored items, every read by number (when no epoch is "
     "unfinished in the same process) the stored item; no reader fails or waits for a forced download; the remote files are never altered.",
     ["schedules", "configurations", "histories", "crash points"], "all interleavings of readers and prepare threads (design), speeds, limits, leftovers",
     "Tests read one chunk after the other in one process with a fast local copy; races between eviction, download and readers of shared chunks do not occur in them.",
     [RD, CF, "src/litdata/streaming/downloader.py", "src/litdata/streaming/item_loader.py"],
     [("PrepareChunksThread", RD), ("BinaryReader.read", RD), ("ChunksConfig.download_chunk_from_index", CF), ("PyTreeLoader.load_item_from_chunk", "src/litdata/streaming/item_loader.py")],
     "Protocol of readers, prepare threads, lock counts and eviction model-checked incl. liveness for 2 (3) workers and shared chunks, four wrong variants refuted; 81 TLC-generated histories "
     "(quick) run with real ranks, workers, slow downloads and random delays around file operations.",
     observe=["items, waiting times (>= 5 s is a stall), exceptions, the source files"])

prop("K02", "The cache keeps to its limit, gives everything back, and keeps what fits",
     "When the dataset exceeds max_cache_size, the chunks in the cache are at any time at most what was there before plus, per reader, the chunks ahead (max_pre_download, at least 2) and two; consumed "
     "chunks are evicted, for any speed of readers and downloads. After complete epochs no lock counts and no remains of downloads are left. When the dataset fits, nothing is evicted and later epochs "
     "download nothing.",
     ["schedules", "configurations", "histories"], "all interleavings (design), speeds, limits, chunks shared by workers and ranks",
     "Tests look at one reader of thirteen chunks read one by one with the default max_pre_download.",
     [RD, CF], [("PrepareChunksThread._maybe_delete_chunks", RD), ("PrepareChunksThread._apply_delete", RD), ("_get_folder_size", RD), ("ChunksConfig.try_decompress", CF)],
     "Same design model (bound, released locks; two wrong variants refuted); 80 TLC-generated histories of complete epochs (quick), the cache directory observed throughout.",
     observe=["files in the cache directory during and after the epochs", "downloads"])

CB = "src/litdata/streaming/combined.py"
prop("C01", "A combined dataset interleaves its datasets as its options promise",
     "Under a loader with any number of workers, rank, epoch and batch size, a CombinedStreamingDataset delivers every worker's items of every dataset in the order in which that dataset "
     "alone would deliver them: with iterate_over_all all of them exactly once, otherwise until a drawn dataset is exhausted, in the ratio of the weights, and never from a dataset of "
     "weight zero. With per_stream every batch is from one dataset unless it ran out within the batch. Equal seeds give equal batches; len is the number of items.",
     ["configurations", "histories", "inputs"], "all numbers and sizes of datasets, weights, seeds, batchings, topologies, histories of epochs",
     "Tests use two or three small datasets, mostly single process, and look at counts; exhaustion at every position of a batch and unequal workers are not covered.",
     [CB, "src/litdata/streaming/dataloader.py"],
     [("_CombinedDatasetIterator.__next__", CB), ("_get_dataset_index", CB), ("CombinedStreamingDataset.__iter__", CB)],
     "200 TLC-generated configurations and histories plus 8 sampling-ratio runs (quick), each validated batch by batch against the specification (6 sigma for ratios).",
     observe=["batches, their order, len"])

prop("C02", "A resumed loader over a combined dataset goes on exactly where it was",
     "For every combined dataset (weights, per_stream, any workers, ranks) and every point of an epoch, load_state_dict of a state taken there, in the same or a new loader, and repeatedly, is followed "
     "by exactly the batches the uninterrupted loader would deliver next, and then by the same later epochs; states are not altered by being loaded.",
     ["histories", "crash points", "configurations"], "all positions, chains of save/load, workers, weights, batchings",
     "Tests compare counts ('at least') after one resume; exactness over exhausted datasets, unequal workers and repeated resumes is not tested.",
     [CB, "src/litdata/streaming/dataloader.py", "src/litdata/streaming/dataset.py"],
     [("_CombinedDatasetIterator._replay", CB), ("StreamingDataLoader.load_state_dict", "src/litdata/streaming/dataloader.py"), ("StreamingDataset._resume", "src/litdata/streaming/dataset.py")],
     "Rebuilding the sampler's position from counts model-checked (the previous design refuted); 200 TLC-generated save/load histories (quick).",
     observe=["batches after load_state_dict"])

SZ, WR = "src/litdata/streaming/serializers.py", "src/litdata/streaming/writer.py"
prop("F01", "Every stored value is read back equal, or it is refused when it is stored",
     "The first stored value fixes the format of a dataset: its structure and the types of its leaves. Every further value of that format is accepted; a value of another format is either refused or "
     "stored without loss. Every accepted value is read back at its place with equal structure and contents (numbers, texts, bytes, arrays and tensors of all dtypes, shapes and memory layouts, "
     "images, any picklable object, empty ones included), and with the same types if it has the format of the dataset; whatever the chunking, compression, encryption and reading order.",
     ["inputs", "histories"], "all structures, leaf types, contents, sequences of formats, compression, encryption level, chunk limits, writers",
     "Tests store a few well-formed items per serializer; sequences of differing items, empty and extreme values and their combinations are not covered.",
     [SZ, WR, "src/litdata/streaming/item_loader.py"],
     [("BinaryWriter.serialize", WR), ("BinaryWriter._create_chunk", WR), ("*Serializer", SZ), ("PyTreeLoader.deserialize", "src/litdata/streaming/item_loader.py")],
     "The binary layout is exhausted in a design model (a writer which doesn't check formats is refuted); 500 (quick) TLC-generated sequences of values stored and read back in the real code.",
     observe=["refusals", "values read in both directions"])
prop("F02", "Datasets written by other tools are read row for row, whatever the option",
     "A folder of Parquet files, once indexed, and the shards of a MosaicML dataset (whose encodings and compression litdata knows) are read row for row with equal values: Parquet rows in the order of "
     "the file names, whatever the sizes of the files and of their row groups; the same for each loader option (low_memory, pre_load_chunk), for a local or a cached and evicted remote, a wildcard, an index kept "
     "elsewhere, a subsample, a split, shuffling, workers, any order of accesses, any order in which the file system lists the files, and after pickling. (Polars must not be used in a process before it forks workers.)",
     ["inputs", "histories", "configurations"], "all Parquet layouts, column types, MDS encodings and compressions, options and access orders",
     "Tests read one file with a single row group and a hand-written MDS index; layouts written by other tools vary.",
     ["src/litdata/streaming/item_loader.py", "src/litdata/utilities/parquet.py", "src/litdata/utilities/dataset_utilities.py", WR],
     [("ParquetLoader", "src/litdata/streaming/item_loader.py"), ("LocalParquetDir", "src/litdata/utilities/parquet.py"), ("adapt_mds_shards_to_chunks", "src/litdata/utilities/dataset_utilities.py"),
      ("index_parquet_dataset", WR), ("PyTreeLoader.mds_deserialize", "src/litdata/streaming/item_loader.py")],
     "Row group lookup with eviction is model-checked (assuming equal groups is refuted); 240 (quick) TLC-generated datasets, views and access sequences, written with pyarrow and MDSWriter, are read by the real code.",
     observe=["rows of full passes, of workers, of single accesses, of splits"])
prop("M01", "map processes every input once and publishes exactly what was written",
     "For any numbers of workers, uploaders and downloaders, weights, batch sizes, reordering, kinds of inputs (values; files inside or outside the input directory, given absolutely or relatively, or shared by "
     "several inputs), forms of the function (function, partial, object; with or without is_last) and a local or S3 output directory: the function is handed every input exactly once, unaltered (batches no longer "
     "than asked for), and told is_last exactly on the last call of each worker; after a success the output directory holds exactly the files that were there before and every file written, byte for byte, at its "
     "relative path; input files are never altered or deleted; a non-empty output directory is refused with error_when_not_empty and left as it was; a function that raises, a worker that dies and a copy or download "
     "that fails make the run raise, without altered files and without waiting forever.",
     ["inputs", "configurations", "crash_points", "schedules"], "all inputs, written files, numbers of processes, storages and single faults",
     "Tests map a few values with one or two workers; which files and orders are lost depends on numbers of processes, sharing and fault points.",
     [DP, "src/litdata/processing/functions.py", "src/litdata/streaming/resolver.py"],
     [("BaseWorker._loop, _collect_paths", DP), ("_download_data_target, _upload_fn, _remove_target", DP), ("LambdaMapRecipe", "src/litdata/processing/functions.py"), ("_map_items_to_workers_weighted", DP)],
     "The processes of a worker over a shared cache are model-checked (five wrong variants refuted); 300 (quick) TLC-generated runs of the real map with real processes and faults are validated against the contract.",
     observe=["calls of the function", "files of the output and input directories", "result of map"])
prop("M02", "map and optimize see every item of a dataloader or of Parquet files once",
     "map and optimize, given a StreamingDataLoader (any chunk sizes, batch size, loader workers, shuffling, local, remote or compressed dataset) or Parquet files through ParquetReader (any numbers of rows, rows per "
     "file, equal file names in several directories, files changed since an earlier run) instead of a list: for any number of workers every batch, or part of a file, reaches the function exactly once with every item "
     "in it; what optimize stores is every item once, in the order of the input if that isn't shuffled; a failing function makes the run raise.",
     ["inputs", "configurations", "histories"], "all datasets, loaders, Parquet files and numbers of workers",
     "Tests use sizes which divide evenly and one Parquet file.",
     [DP, "src/litdata/processing/readers.py", "src/litdata/processing/functions.py"],
     [("StreamingDataLoaderReader, ParquetReader", "src/litdata/processing/readers.py"), ("_map_items_to_workers_sequentially", DP)],
     "240 (quick) TLC-generated uses of the real map and optimize over the real sources are validated against the contract of Map.",
     observe=["calls of the function", "items of the written dataset", "result of the call"])
prop("R01", "What is read from a remote dataset is what it holds now, whatever was cached",
     "For any history of writing (optimize, merge_datasets, indexed Parquet, MosaicML) and rewriting remote datasets at any URLs, also ones that are prefixes of each other or lie inside each other, and of reading them "
     "through a default or a given cache directory, in one or several processes at once, by iteration, index, slice or dataloader workers, after processes were killed or parts of the cache were removed: every reader which opens "
     "a dataset gets exactly the items it holds then, never those of an earlier version or of another dataset, it doesn't fail because others open it at the same time, and caches keep no superseded versions. "
     "(Versions are told apart by their index.json.)",
     ["histories", "schedules", "crash_points"], "all histories of writes, reads, kills and cache clean-ups over several URLs, storages and caches",
     "Tests read freshly written datasets through fresh caches; stale or foreign caches and concurrent openings need histories and schedules.",
     ["src/litdata/utilities/dataset_utilities.py", "src/litdata/streaming/dataset.py", "src/litdata/processing/functions.py"],
     [("_try_create_cache_dir, _read_updated_at, _clear_cache_dir_if_updated", "src/litdata/utilities/dataset_utilities.py"), ("merge_datasets", "src/litdata/processing/functions.py")],
     "The opening protocol is model-checked with 3 processes (the former one is refuted); 150 (quick) TLC-generated histories are replayed in real processes, with delays at the steps of the protocol.",
     observe=["items and lengths read", "version directories of the caches"])
prop("S06", "A state goes on where it was taken, or it is refused",
     "A state of a StreamingDataset or StreamingDataLoader, loaded into a run whose dataset directory, shuffling, seed, drop_last, number of workers and block of tokens are the ones it was taken with, goes on with exactly the items "
     "still to come; when any of them differs, iterating raises a ValueError and delivers nothing, unless force_override_state_dict is set: then nothing is refused (but a position past the end of the dataset), only items of the present dataset are "
     "delivered, none twice in the resumed epoch, and the next epoch is whole. The state given by the user isn't altered (except that forced overrides are noted in it).",
     ["histories", "configurations"], "all pairs of runs, positions within an epoch, ways to keep the state, local and remote datasets",
     "Tests change one option at a time on one dataset without loading through a loader.",
     ["src/litdata/streaming/dataset.py", "src/litdata/streaming/dataloader.py"],
     [("_validate_state_dict, load_state_dict", "src/litdata/streaming/dataset.py"), ("StreamingDataLoader.load_state_dict", "src/litdata/streaming/dataloader.py")],
     "300 (quick) TLC-generated pairs of runs of the real code are validated against the contract.",
     observe=["ValueError or the items of the resumed and of the next epoch", "equality of the user's state before and after"])
