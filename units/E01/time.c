//@unit epoch kind=full about="conversion of every 64-bit time stamp whose result is representable" unwind=2
#include "vz.h"
void vz_test(void) {
    uint64_t t = vz_u64(), K = 11644473600000ull;
    if (t <= UINT64_MAX - K) { uint64_t w = zpl_time_unix_to_win32(t); VZ_CHECK(w == t + K, "shift by the offset"); VZ_CHECK(zpl_time_win32_to_unix(w) == t, "inverse"); VZ_REACH("to win32"); }
    if (t >= K) { uint64_t u = zpl_time_win32_to_unix(t); VZ_CHECK(u == t - K, "shift by the offset"); VZ_CHECK(zpl_time_unix_to_win32(u) == t, "inverse"); VZ_REACH("to unix"); }
    VZ_REACH("end");
}
