---------------------------- MODULE LoaderDesignMC ----------------------------
EXTENDS LoaderDesign
\* shares of the workers of one process: B = 1 or 2, among them the last process (one worker takes the remainder)
MCShares == {<<3>>, <<2, 2>>, <<4, 2>>, <<3, 2>>, <<2, 5>>, <<2, 1>>, <<0, 1>>, <<4, 4, 2>>, <<2, 2, 1>>, <<2, 0, 3>>, <<2, 5, 2>>}
\* a worker may hold a partial batch only behind everybody else's batches
=============================================================================
