/* thread-local variables of the server: one copy per simulated thread (sim.cc swaps the section) */
#define __thread __attribute__((section("fiber_tls")))
#define _Thread_local __attribute__((section("fiber_tls")))
