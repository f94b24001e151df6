#pragma once
enum { TP_DIRNAME, TP_BASENAME, TP_STARTS, TP_ENDS, TP_LOWER };
enum { TP_NOMEM = -1, TP_EXCEPTION = -2, TP_CHANGED = -3, TP_TOOLONG = -4 };
extern "C" long textprobe(int fn, const char *a, size_t na, const char *b, size_t nb, char *out, size_t cap);
