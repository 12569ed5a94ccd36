#define APISUPPORT_NONPOSIX_MEMLIMIT 1
#define APISUPPORT_LIBCRYPTO_LOW_LEVEL_AES 1
