#include "client_log.h"
#include <string.h>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#if CLIENT == 0
#include "log/xlog.h"
#define BACKEND 0
#define MYTAG NULL
#elif CLIENT == 1
#define LOG_TAG "Net"
#include "log/xlog.h"
#define BACKEND 0
#define MYTAG "Net"
#elif CLIENT == 2
#define LOG_TAG_PREFIX "pre."
#define LOG_TAG "Main"
#define LOG_TAG_SUFFIX "-x"
#include "log/logger.h"
#define BACKEND 0
#define MYTAG "pre.Main-x"
#define FACADE 1
#elif CLIENT == 3
#define LOG_TAG "Fac"
#define LCU_LOGGER_SELECTOR 1
#include "log/logger.h"
#define BACKEND 1
#define MYTAG "Fac"
#define FACADE 1
#elif CLIENT == 4
#include "log/slog.h"
#define BACKEND 1
#define MYTAG "SLOG"
#elif CLIENT == 5
#define LCU_XLOG_OFF 1
#include "log/xlog.h"
#define BACKEND 2
#define MYTAG NULL
#else
#define _LCU_LOGGER_DISABLE 1
#define LOG_TAG "Off"
#include "log/logger.h"
#define BACKEND 2
#define MYTAG "Off"
#define FACADE 1
#endif
#define AT (line = __LINE__)
static int CAT(speak, CLIENT)(int form, int level, const char* tag, const char* m, int num) {
  int line = 0;
  switch (form * 5 + level - 1) {
    case 0: LOGV("%s", m); break;
    case 1: LOGD("%s", m); break;
    case 2: LOGI("%s", m); break;
    case 3: LOGW("%s", m); break;
    case 4: LOGE("%s", m); break;
    case 5: AT; LOGV_TRACE("%s", m); break;
    case 6: AT; LOGD_TRACE("%s", m); break;
    case 7: AT; LOGI_TRACE("%s", m); break;
    case 8: AT; LOGW_TRACE("%s", m); break;
    case 9: AT; LOGE_TRACE("%s", m); break;
    case 10: TLOGV(tag, "%s", m); break;
    case 11: TLOGD(tag, "%s", m); break;
    case 12: TLOGI(tag, "%s", m); break;
    case 13: TLOGW(tag, "%s", m); break;
    case 14: TLOGE(tag, "%s", m); break;
    case 15: AT; TLOGV_TRACE(tag, "%s", m); break;
    case 16: AT; TLOGD_TRACE(tag, "%s", m); break;
    case 17: AT; TLOGI_TRACE(tag, "%s", m); break;
    case 18: AT; TLOGW_TRACE(tag, "%s", m); break;
    case 19: AT; TLOGE_TRACE(tag, "%s", m); break;
    // several arguments, as the only statement of a branch
    case 20: if (num & 1) LOGV("%d/%s", num, m); else LOGV("%s|%x", m, num); break;
    case 21: if (num & 1) LOGD("%d/%s", num, m); else LOGD("%s|%x", m, num); break;
    case 22: if (num & 1) LOGI("%d/%s", num, m); else LOGI("%s|%x", m, num); break;
    case 23: if (num & 1) LOGW("%d/%s", num, m); else LOGW("%s|%x", m, num); break;
    case 24: if (num & 1) LOGE("%d/%s", num, m); else LOGE("%s|%x", m, num); break;
    // no argument
    case 25: LOGV("plain text 100%%"); break;
    case 26: LOGD("plain text 100%%"); break;
    case 27: LOGI("plain text 100%%"); break;
    case 28: LOGW("plain text 100%%"); break;
    case 29: LOGE("plain text 100%%"); break;
    case 30: AT; if (num & 1) LOGV_TRACE("done"); else TLOGV_TRACE(tag, "%d:%s", num, m); break;
    case 31: AT; if (num & 1) LOGD_TRACE("done"); else TLOGD_TRACE(tag, "%d:%s", num, m); break;
    case 32: AT; if (num & 1) LOGI_TRACE("done"); else TLOGI_TRACE(tag, "%d:%s", num, m); break;
    case 33: AT; if (num & 1) LOGW_TRACE("done"); else TLOGW_TRACE(tag, "%d:%s", num, m); break;
    case 34: AT; if (num & 1) LOGE_TRACE("done"); else TLOGE_TRACE(tag, "%d:%s", num, m); break;
  }
  return line;
}
static void bytes(int form, int level, const char* tag, const char* b, size_t n) {
  switch (form * 5 + level - 1) {
    case 0: LOGV_HEX(b, n); break;
    case 1: LOGD_HEX(b, n); break;
    case 2: LOGI_HEX(b, n); break;
    case 3: LOGW_HEX(b, n); break;
    case 4: LOGE_HEX(b, n); break;
    case 5: TLOGV_HEX(tag, b, n); break;
    case 6: TLOGD_HEX(tag, b, n); break;
    case 7: TLOGI_HEX(tag, b, n); break;
    case 8: TLOGW_HEX(tag, b, n); break;
    case 9: TLOGE_HEX(tag, b, n); break;
  }
}
#if CLIENT == 4
static void to_file(char* p) { SLOG_STD2FILE(p); }
static void back(void) { SLOG_BACK2STD(); }
#else
static void to_file(char* p) { LOG_STD2FILE(p); }
static void back(void) { LOG_BACK2STD(); }
#endif
#ifdef FACADE
static void init(void) { LOG_GLOBAL_INIT(NULL); }
static void cleanup(void) { LOG_GLOBAL_CLEANUP(NULL); }
static void set_min(int l) { LOG_SET_MIN_LEVEL(l); }
#if BACKEND == 2
static int get_min(void) { LOG_GET_MIN_LEVEL(); return -1; }
#else
static int get_min(void) { return (int)LOG_GET_MIN_LEVEL(); }
#endif
#elif BACKEND == 1
static void init(void) {}
static void cleanup(void) {}
static void set_min(int l) { SLOG_SET_MIN_LEVEL((LogLevel)l); }
static int get_min(void) { return (int)SLOG_GET_MIN_LEVEL(); }
#elif BACKEND == 0
static void init(void) { xlog_global_init(); }
static void cleanup(void) { xlog_global_cleanup(); }
static void set_min(int l) { xlog_set_min_level((LogLevel)l); }
static int get_min(void) { return (int)xlog_get_min_level(); }
#else
static void init(void) {}
static void cleanup(void) {}
static void set_min(int l) { (void)l; }
static int get_min(void) { return -1; }
#endif
#define STR_(x) #x
#define STR(x) STR_(x)
const struct log_client CAT(log_client_, CLIENT) = {"client" STR(CLIENT), BACKEND, MYTAG, "speak" STR(CLIENT), CAT(speak, CLIENT), bytes, init, cleanup, set_min, get_min, to_file, back};
