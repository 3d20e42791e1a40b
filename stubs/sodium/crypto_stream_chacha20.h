#pragma once
#include <stddef.h>
#define crypto_stream_chacha20_KEYBYTES 32U
#define crypto_stream_chacha20_NONCEBYTES 8U
extern "C" {
int crypto_stream_chacha20(unsigned char* c, unsigned long long clen, const unsigned char* n, const unsigned char* k);
int crypto_stream_chacha20_xor(unsigned char* c, const unsigned char* m, unsigned long long mlen, const unsigned char* n, const unsigned char* k);
int crypto_stream_chacha20_xor_ic(unsigned char* c, const unsigned char* m, unsigned long long mlen, const unsigned char* n, unsigned long long ic, const unsigned char* k);
}
