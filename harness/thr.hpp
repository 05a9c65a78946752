// Controlled execution of OpenMP regions and std::mutex: one thread runs at a time, every scheduling decision at a synchronisation
// operation is a choice of the explorer, and a happens-before detector judges every memory access of the repository's code
// (compiled with -fsanitize=thread, whose call-backs are implemented in thr.cpp instead of the sanitizer's run time).
#pragma once
#include <stdint.h>
namespace thr {
struct Stats { uint64_t regions, points, preemptions, accesses, teams; int maxTeam; };
struct Race { int found; const void* addr; int t1,t2; const void *pc1,*pc2; int w1,w2; };
void enable(int (*chooser)(int),int maxPreemptions);   // control the regions entered by the calling thread from now on
void disable();
bool inRegion();                 // called from a thread of a controlled region
int  tid();                      // number of the thread in the team
int  region();                   // ordinal of the current region since enable()
const Race& race(); const Stats& stats();
struct Off { Off(); ~Off(); };   // accesses of the enclosed code are the harness's own
}
