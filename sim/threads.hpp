// Simulated threads: real threads of which exactly one runs at any moment; the simulator decides at every seam who goes on.
#pragma once
#include "core.hpp"
namespace sim
{
namespace threads
{
// runs the bodies as threads of one process, interleaved by the choices of r; returns when all have ended
void run(Run& r, const std::vector<std::function<void()>>& bodies);
bool active();
extern bool on;
extern long left;
void reschedule(bool rare);
void wait_for_others();                              // a thread that cannot go on lets the others run
inline void point() { if (on && --left <= 0) reschedule(false); }
inline void rare_point() { if (on) reschedule(true); }
struct Quiet { bool was; Quiet() : was(on) { on = false; } ~Quiet() { on = was; } };   // no switch in here
}
} // namespace sim
