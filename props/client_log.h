// A program that logs only through the macros of one public header (built once per header and tag choice).
#ifndef CLIENT_LOG_H
#define CLIENT_LOG_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
struct log_client {
  const char* name; int backend;          // 0 xlog, 1 slog, 2 switched off
  const char* tag;                        // the tag of the LOGx forms, NULL: the default tag of xlog
  const char* func;                       // the function the TRACE forms stand in
  int (*text)(int form, int level, const char* tag, const char* m, int num);   // returns the source line
  void (*hex)(int form, int level, const char* tag, const char* b, size_t n);
  void (*init)(void); void (*cleanup)(void);
  void (*set_min)(int); int (*get_min)(void);
  void (*to_file)(char*); void (*back)(void);
};
#ifdef __cplusplus
}
#endif
#endif
