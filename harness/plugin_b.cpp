#include <pch.h>
#include "vt.h"
extern "C" void vt_released(long long v);
namespace {
struct PlugB final : public lm::Component { ~PlugB() { vt_released(-1); } };
LM_COMP_REG_IMPL(PlugB, "vtp::b");
}
