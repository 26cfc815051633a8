// C functions made of the general macros of the public headers
#ifndef CLIENT_UTIL_H
#define CLIENT_UTIL_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
long long mac_max(long long a, long long b), mac_min(long long a, long long b), mac_abs(long long a);
int mac_choice(int a, int b, int c);                    // operator arguments
uintptr_t mac_uint(uintptr_t v); intptr_t mac_int(intptr_t v); long long mac_long(long long v);
int mac_free(size_t n, int branch);                     // 1: freed and forgotten
size_t mac_len(int which); const char* mac_text(const char* s);
int mac_random(int lo, int hi, int seed, int reseed);
const char* mac_enum(int i); int mac_enum_value(int i);
int mac_fclose(const char* path);                       // 1: closed and forgotten, 0: not opened
void mac_upper(char* a, char* b, int both), mac_lower(char* a);
#ifdef __cplusplus
}
#endif
#endif
