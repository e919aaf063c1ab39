// the storage faults of fault.hxx as a library to preload
#include "fault.hxx"
