#ifndef FUB_COUNTER_COUNTER_REGISTRY_HPP
#define FUB_COUNTER_COUNTER_REGISTRY_HPP
#include "Timer.hpp"
namespace fub { struct CounterRegistry { Timer get_timer(const char*) { return {}; } }; }
#endif
