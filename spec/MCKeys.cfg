SPECIFICATION Spec
CONSTANTS MaxBytes = 3 MaxSyms = 4 Emitting = TRUE
INVARIANT CodecOK Emit
CHECK_DEADLOCK FALSE
