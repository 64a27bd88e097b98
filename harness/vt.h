// Conformance harness: executes sessions (sequences of operations) against the real
// framework and records what is observable through its public interface, one JSON
// event per operation.  The verdict on a recorded trace is TLC's, not the harness's.
#pragma once
#include "vt_pch.h"

namespace vt {
using Json = nlohmann::json;

// Records one event of the running session.
void emit(const Json& e);

using Suite = std::function<void(const Json& session)>;
struct Reg { Reg(const char* name, Suite s); };

// True if the block the pointer points to has been handed back to the allocator.
bool freed(const void* p);
// Blocks currently allocated (by operator new).
long long live_blocks();

std::string scratch();            // directory of this session, removed afterwards
std::string hexd(double d);       // exact text form of a floating-point number

// Classifies the exception in flight: "lm:<error>", "std" or "other".
std::string current_exception_class();

// Runs f and reports "ok" or the class of the exception it threw.
template <typename F> std::string attempt(F&& f) {
    try { f(); return "ok"; }
    catch (...) { return current_exception_class(); }
}
}
