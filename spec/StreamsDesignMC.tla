--------------------------- MODULE StreamsDesignMC ---------------------------
EXTENDS StreamsDesign
MCSizesSmall == {<<1, 2>>, <<2, 1>>, <<3>>, <<2, 2>>, <<1, 1, 2>>}
MCSizesLarge == {<<3, 1, 2>>, <<2, 2, 2>>, <<1, 1, 1, 1>>, <<5, 2>>, <<1, 4, 1>>, <<4, 3, 1>>, <<7>>, <<1>>}
=============================================================================
