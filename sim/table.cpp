#include "sim.hpp"
#define C(x) __attribute__((weak)) void check_##x();
#define ALL C(C01) C(C02) C(C03) C(C04) C(C05) C(C06) C(C07) C(C08) C(C09) C(C10) C(C11) C(C12) C(C13) C(C14) C(C15) C(C16) C(C20)
ALL
#undef C
#define C(x) {#x, check_##x},
const sim::CheckDef sim::CHECKS[] = {ALL {nullptr, nullptr}};
