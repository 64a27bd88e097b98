#pragma once
namespace vt {
// Virtual wall clock (milliseconds); every std::chrono clock of the process follows it while it is on.
void vclock_on();
void vclock_off();
void vclock_advance(long long ms);
long long vclock_now();
}
