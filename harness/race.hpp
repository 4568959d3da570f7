// records all memory accesses of code compiled with -fsanitize=thread (own runtime instead of the sanitizer's)
#ifndef RACE_HPP
#define RACE_HPP
#include <cstddef>
#include <string>
#include <vector>
namespace race
{
void reset();                             // forgets ranges and accesses
void range(const void* p, size_t n);      // accesses in here are recorded
void start();                             // the other fibers begin: what happened before is visible to all of them
void join();                              // the other fibers ended
void stop();
// the recorded accesses as events for Hb.tla; only of places at which two fibers meet
std::vector<std::string> events();
extern int g_threads;                     // of the last events()
extern size_t g_recorded;
// where the accesses to the n-th place came from (for people)
std::string where(size_t place);
} // namespace race
#endif
