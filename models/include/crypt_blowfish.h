/* stand-in for the (absent) third-party header */
#ifndef VF_CRYPT_BLOWFISH_H
#define VF_CRYPT_BLOWFISH_H
#endif
