// Controlled scheduler and happens-before race detector.
//
// The repository is compiled with -fsanitize=thread but linked against this
// runtime instead of libtsan: every load/store of the code under test calls us,
// and pthread_create/join/mutex/cond/sleep are interposed.  Exactly one managed
// thread runs at a time; before every synchronisation operation the explorer
// decides who runs next.  All schedules up to a deviation (preemption) bound
// are enumerated by stateless depth-first search.
#ifndef MCRT_HPP
#define MCRT_HPP
#include <functional>
#include <string>
#include <vector>
namespace mc
{
struct Config
{
    int bound = 2;        // preemptions (and early timer firings) per execution
    int max_wakes = 1;    // early timer firings considered per execution
    int sub = 0, nsub = 1;// which first-level subtrees to explore
    long max_exec = 1000000000;
    bool races = true;
};
struct Outcome
{
    bool deadlock = false, livelock = false;
    std::string deadlock_msg;
    std::vector<std::string> races;     // "kind fnA | fnB"
    std::vector<int> choices;           // schedule
    std::string trace;                  // readable schedule
    int preemptions = 0;
};
struct Stats { long executions=0, points=0, states=0, max_points=0, diverged=0; bool capped=false; };
// run every schedule; check is called after each complete execution.
// It returns false to stop the exploration.
Stats explore(const Config& c, const std::function<void()>& body,
              const std::function<bool(const Outcome&)>& check);
// memory accesses of this thread are not recorded while one of these lives
struct Ignore { Ignore(); ~Ignore(); };
int self();
}
#endif
