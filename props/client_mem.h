// a C program that allocates with the macros of mem_debug.h
#ifndef CLIENT_MEM_H
#define CLIENT_MEM_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { MEM_MALLOC, MEM_CALLOC, MEM_REALLOC, MEM_STRDUP, MEM_STRNDUP, MEM_FREE };
void* client_mem(int what, void* p, size_t a, size_t b, int* line);
const char *client_mem_file(void), *client_mem_func(void);
void client_mem_begin(void), client_mem_end(void);
#ifdef __cplusplus
}
#endif
#endif
