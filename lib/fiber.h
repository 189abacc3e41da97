// Cooperative "processes" or "threads" whose every step is chosen by the case.
#pragma once
#include "pbt.h"

namespace fib {

enum State { READY, BLOCKED, DONE, CRASHED };
enum Wake { OK = 0, TIMEOUT = 1, INTR = 2 };
enum { TIMED_SHORT = 1, TIMED_LONG = 2, INTERRUPTIBLE = 4 };

struct Options {
	int crash_proc; long crash_at;          // abandon this fiber at its n-th point
	bool interrupts;                        // blocked calls may be interrupted
	bool sync_only;                         // accesses are no points, only calls are
	long max_points;
	std::function<void(int)> on_crash;
	Options() : crash_proc(-1), crash_at(0), interrupts(false), sync_only(false), max_points(400000) {}
};
struct Result { std::vector<State> st; long points; int crashed, timeouts, interrupts, switches; std::vector<long> pts; };

Result run(Src &s, const Options &o, const std::vector<std::function<void()>> &body);
int self();                                    // the running fiber, -1 outside
bool active();                                 // in a fiber, inside an operation
void point();                                  // here another fiber may run
Wake block(const std::function<bool()> &ready, int flags);
uint64_t tick();                               // a fresh time stamp
bool quiescent_timeout();                      // the last TIMEOUT of this fiber came when nothing else could run
State state(int i);                            // of a fiber of the current run

// accesses to these ranges are points (all memory but the own stack if none is given and all is set)
// accesses of the running fiber are no points meanwhile (explicit point() and block() are)
extern int hushed;                         // simulated calls in progress, in and outside of fibers
struct Hush { int who; Hush(); ~Hush(); };
void watch_clear(); void watch(const void *p, size_t n); void watch_all(bool on); void unwatch(const void *p);

// an operation: only inside of it the fiber can be preempted
struct Op { uint64_t inv; Op(); ~Op(); uint64_t end(); bool open; };

// Is there an order of the operations, consistent with their times, that `apply` accepts?
struct LinOp { uint64_t inv, ret; bool optional; LinOp() : inv(0), ret(~0ull), optional(false) {} };
// next(state, i, out): the states operation i may lead to from state (none: not possible here)
bool linearizable(const std::vector<LinOp> &ops, const std::string &init, const std::function<void(const std::string &, int, uint64_t, std::vector<std::string> &)> &next);

} // namespace fib
