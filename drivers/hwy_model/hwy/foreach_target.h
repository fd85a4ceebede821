// One target only: the one defined in highway.h.
