#include "sim.h"
extern const Workload wl_c01, wl_c02, wl_c03, wl_c04, wl_c05, wl_c06, wl_c07, wl_c08, wl_c09, wl_c10, wl_c11, wl_c12, wl_c13, wl_c14, wl_c15, wl_c16, wl_c03l, wl_c03h, wl_c03g, wl_c04l, wl_c01l;
const Workload workloads[] = { wl_c01, wl_c02, wl_c03, wl_c04, wl_c05, wl_c06, wl_c07, wl_c08, wl_c09, wl_c10, wl_c11, wl_c12, wl_c13, wl_c14, wl_c15, wl_c16, wl_c03l, wl_c03h, wl_c03g, wl_c04l, wl_c01l, {nullptr, nullptr, nullptr, 0, 0} };
