// the C++ helpers as a user calls them, with strings of the instrumented side
#include <string>
#include <new>
#include <stdexcept>
#include <string.h>
#include <futils/futils.hpp>
#include "textprobe.h"

extern "C" long textprobe(int fn, const char *a, size_t na, const char *b, size_t nb, char *out, size_t cap)
{
	try {
		const std::string x(a, na), y(b, nb);
		std::string r;
		long n = 0;
		switch (fn) {
		case TP_DIRNAME: r = futils::fs::dirname(x); break;
		case TP_BASENAME: r = futils::fs::basename(x); break;
		case TP_STARTS: n = futils::string::startsWith(x, y); break;
		case TP_ENDS: n = futils::string::endsWith(x, y); break;
		default: r = futils::string::convertToLowerCase(x); break;
		}
		if (x.size() != na || memcmp(x.data(), a, na) || y.size() != nb || memcmp(y.data(), b, nb))
			return TP_CHANGED;
		if (fn == TP_STARTS || fn == TP_ENDS)
			return n;
		if (r.size() > cap)
			return TP_TOOLONG;
		memcpy(out, r.data(), r.size());
		return (long)r.size();
	} catch (const std::bad_alloc &) {
		return TP_NOMEM;
	} catch (const std::exception &) {
		return TP_EXCEPTION;
	} catch (...) {
		return TP_EXCEPTION;
	}
}
