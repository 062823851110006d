// Systematic scheduler for real threads: one thread runs at a time, every synchronization operation is a scheduling point,
// and every memory access of the instrumented code is checked for data races by happens-before.
#pragma once
#include <functional>
#include <string>
#include <vector>
struct SchedScenario {
    std::string name;
    std::function<void()> setup;                          // runs alone before the threads start
    std::vector<std::function<std::string()>> threads;    // result of each thread
    std::function<std::string()> after;                   // runs alone after the threads ended; empty: fine
    int deviations = 2;                                   // from the schedule without preemption
};
void schedExplore(std::vector<SchedScenario> scenarios);
