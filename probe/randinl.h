#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
int ri_bytes(void *, size_t);
int ri_8(uint8_t *);
int ri_16(uint16_t *);
int ri_32(uint32_t *);
int ri_64(uint64_t *);
int ri_8_max(uint8_t *, uint8_t);
int ri_16_max(uint16_t *, uint16_t);
int ri_32_max(uint32_t *, uint32_t);
int ri_64_max(uint64_t *, uint64_t);
#ifdef __cplusplus
}
#endif
