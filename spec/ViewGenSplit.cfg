SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MinOps = 6
 MaxOps = 12
 Storages = {"raw", "zstd", "remote", "remote_zstd", "enc_sample", "enc_chunk", "remote_small", "tokens", "tokens_remote_small", "tokens_zstd", "remote_zstd_small"}
 Kinds = {"open", "open", "split", "streams", "streams", "get", "iter"}
