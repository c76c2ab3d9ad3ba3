SPECIFICATION Spec
CONSTANTS Emitting = TRUE Bug = ""
 Lens = {1, 2, 3, 8, 16, 19, 20, 21, 22, 31, 32, 33, 34, 40, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 100000, 131072, 262145, 524288, 1048576, 1048577, 3000000}
 SmallLens = {17, 18, 19, 20, 21, 22, 23, 30, 31, 32, 33, 34, 47, 63, 64, 65, 66, 127, 128, 129, 130, 200, 255, 256, 257, 300} Hashed = {1, 20, 21, 32, 33, 100, 5000} Xs = {0, 1} Ys = {0, 1, 2, 128, 255}
INVARIANT OnlyKnown NormalOK Emit
CHECK_DEADLOCK FALSE
