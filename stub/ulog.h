// stand-in for Parrot's logging library: arguments are evaluated, nothing is
// printed, errno is preserved
#ifndef VERIF_STUB_ULOG_H
#define VERIF_STUB_ULOG_H
#include <errno.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
void verif_ulog(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#ifdef __cplusplus
}
#endif
#define ULOG_DECLARE_TAG(x) extern int verif_ulog_tag_unused_##x
#define ULOG_DECLARE_TAG_(x) ULOG_DECLARE_TAG(x)
#define ULOGC(...) verif_ulog(__VA_ARGS__)
#define ULOGE(...) verif_ulog(__VA_ARGS__)
#define ULOGW(...) verif_ulog(__VA_ARGS__)
#define ULOGN(...) verif_ulog(__VA_ARGS__)
#define ULOGI(...) verif_ulog(__VA_ARGS__)
#define ULOGD(...) verif_ulog(__VA_ARGS__)
#define ULOGV(...) verif_ulog(__VA_ARGS__)
#define ULOG_ERRNO(fmt, err, ...) verif_ulog(fmt " err=%d", ##__VA_ARGS__, (int)(err))
#define ULOGE_ERRNO(err, fmt, ...) verif_ulog(fmt " err=%d", ##__VA_ARGS__, (int)(err))
#define ULOGW_ERRNO(err, fmt, ...) verif_ulog(fmt " err=%d", ##__VA_ARGS__, (int)(err))
#define ULOG_ERRNO_RETURN_IF(cond, err) do { if (cond) { verif_ulog("err=%d", (int)(err)); return; } } while (0)
#define ULOG_ERRNO_RETURN_ERR_IF(cond, err) do { if (cond) { int e__ = (err); verif_ulog("err=%d", e__); return -e__; } } while (0)
#define ULOG_ERRNO_RETURN_VAL_IF(cond, err, val) do { if (cond) { verif_ulog("err=%d", (int)(err)); return val; } } while (0)
#endif
