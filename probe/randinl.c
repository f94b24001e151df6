/* the inline functions of futils/random.h as a user compiles them */
#include <errno.h>
#include <futils/random.h>
#include "randinl.h"
int ri_bytes(void *buffer, size_t len) { return futils_random_bytes(buffer, len); }
int ri_8(uint8_t *val) { return futils_random8(val); }
int ri_16(uint16_t *val) { return futils_random16(val); }
int ri_32(uint32_t *val) { return futils_random32(val); }
int ri_64(uint64_t *val) { return futils_random64(val); }
int ri_8_max(uint8_t *val, uint8_t maximum) { return futils_random8_maximum(val, maximum); }
int ri_16_max(uint16_t *val, uint16_t maximum) { return futils_random16_maximum(val, maximum); }
int ri_32_max(uint32_t *val, uint32_t maximum) { return futils_random32_maximum(val, maximum); }
int ri_64_max(uint64_t *val, uint64_t maximum) { return futils_random64_maximum(val, maximum); }
