#pragma once
#include <stddef.h>
extern "C" {
void sodium_memzero(void* const pnt, const size_t len);
void sodium_increment(unsigned char* n, const size_t nlen);
int sodium_memcmp(const void* const a, const void* const b, size_t len);
}
