// The few facts about the implementation's internals the harness needs.
#include "detail.h"

int shim_struct_count(Tiny_Value v) { return v.obj->ostruct.n; }
