SPECIFICATION Spec
CONSTANTS MaxBytes = 4 MaxSyms = 6 Emitting = TRUE
INVARIANT CodecOK Emit
CHECK_DEADLOCK FALSE
