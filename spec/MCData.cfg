SPECIFICATION Spec
CONSTANTS Emitting = TRUE Bug = ""
 Lens = {1, 2, 3, 8, 16, 19, 20, 21, 22, 31, 32, 33, 34, 40, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 100000}
 SmallLens = {} Hashed = {1, 20, 21, 32, 33, 100, 5000} Xs = {0, 1} Ys = {0, 1, 255}
INVARIANT OnlyKnown NormalOK Emit
CHECK_DEADLOCK FALSE
