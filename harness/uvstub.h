// Stand-ins for the event loop and its file operations, driven by the deterministic scheduler:
// worker threads take asynchronous operations from a queue and perform them (by libuv's own
// synchronous calls); their completions reach the loop in any order the scheduler chooses.
#pragma once
#include <uv.h>
namespace uvstub {
void reset(int workers);          // at the start of every run
void next_fault(int code);        // the next asynchronous operation fails with this code (negative)
void next_short(uint32_t n);      // the next write or read transfers at most n bytes
extern int submitted, performed;
}
