---- MODULE CacheDesignMC ----
EXTENDS CacheDesign
Shared == <<<<1, 2, 3>>, <<3, 4, 1>>>>
Apart == <<<<1, 2, 3, 4, 5>>, <<6, 7>>>>
One == <<<<1, 2, 3, 4, 5, 6>>>>
Three == <<<<1, 2, 3>>, <<3, 4>>, <<4, 1>>>>
====
