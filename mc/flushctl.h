// Deterministic control of the writer's background flush.  The timed waits of the worker thread are
// interposed: they only "time out" when the harness calls Flush(), which returns when the worker has
// done its periodic work and is waiting again.
#pragma once
#include <cstdint>
namespace flushctl {
bool Flush();             // false if no worker thread is waiting (nothing was flushed)
uint64_t TimedWaits();    // number of timed waits entered since process start
void Pass(bool on);       // pass through to the real functions (used for non-writer threads)
}
