/* stand-in for the (absent) third-party header: the signature of the documented API */
#ifndef VF_LIBSCRYPT_H
#define VF_LIBSCRYPT_H
#include <stdint.h>
#include <stddef.h>
int libscrypt_scrypt(const uint8_t *passwd, size_t passwdlen, const uint8_t *salt, size_t saltlen, uint64_t N, uint32_t r, uint32_t p, uint8_t *buf, size_t buflen);
#endif
