------------------------------- MODULE ItemsTrace -------------------------------
EXTENDS Items, Json, IOUtils
VARIABLES cs, pos, st, verdict
Cases == JsonDeserialize(IOEnv.VF_TRACES)
INSTANCE TraceHarness
=============================================================================
