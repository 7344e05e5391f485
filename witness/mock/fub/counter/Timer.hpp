// stand-in: timers are analysed on their own
#ifndef FUB_COUNTER_TIMER_HPP
#define FUB_COUNTER_TIMER_HPP
namespace fub { struct Timer {}; }
#endif
