#include <pch.h>
#include "vt.h"
extern "C" void vt_released(long long v);
namespace {
struct PlugA final : public lm::Component { ~PlugA() { vt_released(-1); } };
LM_COMP_REG_IMPL(PlugA, "vtp::a");
}
