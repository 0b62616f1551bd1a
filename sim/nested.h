// A session: a small, complete use of the library with objects of its own,
// checked against the reference model. Sessions run inside callbacks and
// allocations of whatever is in progress ("+nest" profiles) and as tasks.
#pragma once
#include "common.h"
void session_run(const char* cls, const char* path, uint64_t (*failed)(), void (*point)());
void session_cleanup();   // frees sessions that were abandoned
