// the time functions as built with libputils (system properties); prefix pu_
extern "C" {
decltype(time_monotonic_to_realtime_us) pu_time_monotonic_to_realtime_us __attribute__((weak));
decltype(time_monotonic_to_realtime_ms) pu_time_monotonic_to_realtime_ms __attribute__((weak));
decltype(time_local_set) pu_time_local_set __attribute__((weak));
decltype(time_local_get) pu_time_local_get __attribute__((weak));
decltype(time_local_ms_get) pu_time_local_ms_get __attribute__((weak));
}
#define time_monotonic_to_realtime_us (::sim::W->build ? pu_time_monotonic_to_realtime_us : time_monotonic_to_realtime_us)
#define time_monotonic_to_realtime_ms (::sim::W->build ? pu_time_monotonic_to_realtime_ms : time_monotonic_to_realtime_ms)
#define time_local_set (::sim::W->build ? pu_time_local_set : time_local_set)
#define time_local_get (::sim::W->build ? pu_time_local_get : time_local_get)
#define time_local_ms_get (::sim::W->build ? pu_time_local_ms_get : time_local_ms_get)
static inline void pick_time_build(u32 ppm)
{
	if (!pu_time_local_set || !sim::chance(ppm)) return;
	sim::W->build = 1;
	sim::probe("time functions built with libputils");
}
