// A deterministic scheduler for the library's threads.
//
// Every thread the code under test creates is a coroutine of one process thread; which one
// runs is decided at each lock, wait, signal, join, clock reading and (for sources compiled
// with -fsanitize=thread) at each memory access.  Time is virtual.  Memory that was released
// is never reused within a process, so that touching it is noticed.
#pragma once
#include "common.h"
namespace sched {
struct Policy {
    uint64_t seed;
    int sync_per_1000;      // chance to switch at a synchronisation operation
    int mem_per_1000;       // at a memory access
    int tick_per_1000;      // chance that the clock runs to the next deadline although somebody could run
    int spurious_per_1000;  // chance of a spurious wake up
    std::vector<uint32_t> at;   // step numbers at which a switch is forced
    bool alone;             // switch only there and where a thread cannot go on
};
// runs fn as thread 0 until it returns, or nobody can go on; returns "" or what happened
// ("stuck": nobody can go on, "long": no end in sight, "uaf": released memory was used)
std::string run(const Policy& p, std::function<void()> fn);
int self();                 // number of the running thread, 0 is the main one
uint64_t now();             // virtual nanoseconds
uint32_t steps();           // decision points of the last run
void point();               // a place where others may run
void sleep_ns(uint64_t ns);
void block_until(std::function<bool()> ready);   // wait for a condition that others make true
void settle();              // until nobody else can run
int spawn(std::function<void()> fn, bool daemon); // returns its number
bool done(int co);
void name_next(int logical);
uint32_t rnd(uint32_t n);
void quiet(bool on);        // no decisions in the harness's own bookkeeping
struct Quiet { Quiet() { quiet(true); } ~Quiet() { quiet(false); } };
size_t live_blocks();       // blocks allocated during the run and not yet released
bool freed(const void* p, size_t n);
extern bool active;
extern uint64_t furthest_tick;   // while others can run, the clock jumps this far at most
void fail(const char* what);  // remember that something forbidden happened
}
// runs every script under its schedules and writes each distinct trace once
// head[0] = number of schedules, head[1] = seed
int run_scheduled(const char* in, const char* out, std::function<void(const Script&, Tr&)> body, std::function<std::string(const Script&)> head);
