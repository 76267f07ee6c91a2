---------------------------- MODULE StreamsTrace ----------------------------
EXTENDS Streams, Json, IOUtils
VARIABLES cs, pos, st, verdict
Cases == JsonDeserialize(IOEnv.VF_TRACES)
INSTANCE TraceHarness
=============================================================================
