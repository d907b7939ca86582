#ifndef LS
#define LS
#include <stdint.h>
#include <stddef.h>
int libscrypt_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
#endif
