// Globals that mtd.cc / mttest.cc normally define.
#include "kvthread.hh"
#include "timestamp.hh"
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
volatile bool recovering = false;
kvtimestamp_t initial_timestamp;
