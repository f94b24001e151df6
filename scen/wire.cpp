// C25, C27, C28: data that travels between nodes: integers in a byte stream, formatted times, names
#include "common.h"
#include "timetext.h"
#include <limits.h>
#include <wchar.h>
extern "C" {
#include <futils/varint.h>
}
#include <futils/systimetools.h>
#include <futils/timetools.h>
#include <futils/string.h>

typedef std::vector<u8> Bytes;

// ------------------------------------------------------------------ C25
// types: u16 i16 u32 i32 u64 i64
static u32 vbits(u32 t) { return 16u << (t / 2); }
static u32 vmax(u32 t) { static const u32 m[] = {3, 5, 10}; return m[t / 2]; }
static u64 vmask(u32 t) { return vbits(t) == 64 ? ~0ull : (1ull << vbits(t)) - 1; }
// values are kept as the two's complement of their width
static int enc(u32 t, u8 *d, size_t n, u64 v, size_t *len)
{
	return lib([&] {
		switch (t) {
		case 0: return futils_varint_write_u16(d, n, (u16)v, len);
		case 1: return futils_varint_write_i16(d, n, (int16_t)v, len);
		case 2: return futils_varint_write_u32(d, n, (u32)v, len);
		case 3: return futils_varint_write_i32(d, n, (int32_t)v, len);
		case 4: return futils_varint_write_u64(d, n, v, len);
		default: return futils_varint_write_i64(d, n, (i64)v, len);
		}
	});
}
static int dec_nowhere(u32 t, const u8 *s, size_t n, size_t *len)
{
	return lib([&] {
		switch (t) {
		case 0: return futils_varint_read_u16(s, n, nullptr, len);
		case 1: return futils_varint_read_i16(s, n, nullptr, len);
		case 2: return futils_varint_read_u32(s, n, nullptr, len);
		case 3: return futils_varint_read_i32(s, n, nullptr, len);
		case 4: return futils_varint_read_u64(s, n, nullptr, len);
		default: return futils_varint_read_i64(s, n, nullptr, len);
		}
	});
}
static int dec(u32 t, const u8 *s, size_t n, u64 *v, size_t *len)
{
	// the result in memory of its own, exactly as large as the type
	Buf o(vbits(t) / 8);
	memset(o.p, 0x5c, o.n);
	int r = lib([&] {
		switch (t) {
		case 0: return futils_varint_read_u16(s, n, (u16 *)o.p, len);
		case 1: return futils_varint_read_i16(s, n, (int16_t *)o.p, len);
		case 2: return futils_varint_read_u32(s, n, (u32 *)o.p, len);
		case 3: return futils_varint_read_i32(s, n, (int32_t *)o.p, len);
		case 4: return futils_varint_read_u64(s, n, (uint64_t *)o.p, len);
		default: return futils_varint_read_i64(s, n, (int64_t *)o.p, len);
		}
	});
	*v = 0;
	memcpy(v, o.p, o.n);
	xfree(o.p);
	return r;
}
static u64 gen_val(u32 t)
{
	u64 v;
	u32 b = vbits(t);
	switch (choose(5)) {
	case 0: v = choose(200); break;
	case 1: { u32 k = choose(b); v = (1ull << k) + choose(3) - 1; break; }
	case 2: v = ~0ull - choose(3); break;
	case 3: v = (1ull << (b - 1)) + choose(5) - 2; break;
	default: v = choose64() >> choose(64); break;
	}
	if (choose(2)) v = ~v;
	return v & vmask(t);
}
// the documented encoding, read independently
enum VRef { VR_OK, VR_MORE, VR_BAD };
static VRef ref_dec(u32 t, const Bytes &d, size_t at, u64 *v, size_t *len)
{
	u64 x = 0;
	for (u32 k = 0; k < vmax(t); k++) {
		if (at + k >= d.size()) return VR_MORE;
		u8 c = d[at + k];
		if (7 * k + 7 > vbits(t) && (c & 0x7f) >> (vbits(t) - 7 * k)) return VR_BAD;
		x |= (u64)(c & 0x7f) << (7 * k);
		if (c & 0x80) continue;
		if (t & 1) x = (x >> 1) ^ (0 - (x & 1));
		*v = x & vmask(t);
		*len = k + 1;
		return VR_OK;
	}
	return VR_BAD;
}
static Bytes ref_enc(u32 t, u64 v)
{
	if (t & 1) v = ((v << 1) ^ (v >> (vbits(t) - 1) & 1 ? ~0ull : 0)) & vmask(t);
	Bytes o;
	do { o.push_back((u8)((v & 0x7f) | (v > 0x7f ? 0x80 : 0))); v >>= 7; } while (v);
	return o;
}
static const char *vname[] = {"u16", "i16", "u32", "i32", "u64", "i64"};
struct Link25 {
	Bytes sent, rx;        // produced by the sender, arrived at the receiver
	std::vector<u32> types;
	std::vector<u64> vals;
	bool closed = false, damaged = false;
	Bytes pend;            // on its way
};
SCENARIO("C25", integer_stream, 3)
{
	u32 nlinks = 1 + pickw({6, 3, 1});
	choose_sched((int)nlinks * 2);
	std::vector<std::unique_ptr<Link25>> links;
	std::vector<int> tid;
	u32 total = 0;
	for (u32 l = 0; l < nlinks; l++) {
		links.push_back(std::make_unique<Link25>());
		Link25 *L = links.back().get();
		u32 n = more_calls(1 + choose(12));
		u32 uni = choose(8);
		for (u32 i = 0; i < n; i++) { u32 t = uni < 6 ? uni : choose(6); L->types.push_back(t); L->vals.push_back(gen_val(t)); }
		total += n;
		i64 crash_at = chance(300000) ? (i64)choose(n * 6) : -1; // the sender dies after so many bytes
		u32 dmg = chance(300000) ? 1 + choose(3) : 0;
		u32 frag = choose(4) ? 1 + log_uniform(60) : 1 << 20;
		u32 room = choose(3);
		tid.push_back(spawn("sender", [=] {
			for (u32 i = 0; i < n; i++) {
				u32 t = L->types[i];
				size_t cap = vmax(t) + (room == 1 ? choose(6) : room == 2 ? 50 : 0), len = 999;
				Buf b(cap);
				memset(b.p, 0xa5, cap);
				if (chance(100000)) {
					size_t small = choose(vmax(t));
					int r = enc(t, b.p, small, L->vals[i], &len);
					if (r >= 0) FAIL("small-buffer", "%s: encoding into %zu bytes was accepted", vname[t], small);
					for (size_t k = 0; k < cap; k++) if (b.p[k] != 0xa5) FAIL("small-buffer", "%s: a refused encoding wrote byte %zu", vname[t], k);
				}
				int r = enc(t, b.p, cap, L->vals[i], &len);
				ev("write", t, (i64)L->vals[i], r);
				if (r || len < 1 || len > vmax(t)) FAIL("encode-failed", "%s: encoding %llx returned %d, %zu bytes", vname[t], (unsigned long long)L->vals[i], r, len);
				for (size_t k = vmax(t); k < cap; k++) if (b.p[k] != 0xa5) FAIL("encode-outside", "%s: byte %zu of the buffer was changed", vname[t], k);
				Bytes want = ref_enc(t, L->vals[i]);
				if (len != want.size() || memcmp(b.p, want.data(), len)) FAIL("wrong-encoding", "%s: %llx is encoded in %zu bytes starting with %02x, not the documented ones", vname[t], (unsigned long long)L->vals[i], len, b.p[0]);
				for (size_t k = 0; k < len; k++) {
					if (crash_at >= 0 && (i64)L->sent.size() >= crash_at) { count_fault(F_CRASH); L->closed = true; xfree(b.p); return; }
					u8 c = b.p[k];
					L->sent.push_back(c);
					if (dmg && chance(60000)) {
						L->damaged = true;
						switch (choose(4)) {
						case 0: count_fault(F_MSGLOSS); continue;
						case 1: count_fault(F_MSGDUP); L->pend.push_back(c); break;
						case 2: count_fault(F_CORRUPT); c ^= (u8)(1u << choose(8)); break;
						default: count_fault(F_CORRUPT); c = (u8)choose(256); break;
						}
					}
					L->pend.push_back(c);
				}
				xfree(b.p);
				if (chance(300000)) yield_point();
			}
			L->closed = true;
		}));
		tid.push_back(spawn("receiver", [=] {
			size_t at = 0;
			u32 i = 0, idle = 0;
			while (i < n) {
				if (L->pend.empty()) {
					if (L->closed) break;
					if (++idle > 100000) internal_error("receiver starves");
					sleep_ns(1000);
					continue;
				}
				u32 k = 1 + choose(frag);
				if (k > L->pend.size()) k = (u32)L->pend.size(); else count_fault(F_SHORT_READ);
				L->rx.insert(L->rx.end(), L->pend.begin(), L->pend.begin() + k);
				L->pend.erase(L->pend.begin(), L->pend.begin() + k);
				while (i < n && at < L->rx.size()) {
					u32 t = L->types[i];
					// an exact copy of what has arrived: one byte further is not ours
					size_t have = L->rx.size() - at;
					Buf b(have);
					memcpy(b.p, L->rx.data() + at, have);
					u64 v = 0, want = 0;
					size_t len = 777, wl = 0;
					VRef q = ref_dec(t, L->rx, at, &want, &wl);
					int r = dec(t, b.p, have, &v, &len);
					if (memcmp(b.p, L->rx.data() + at, have)) FAIL("input-changed", "%s: decoding changed its input", vname[t]);
					xfree(b.p);
					ev("read", t, (i64)have, r);
					if (r > 0 || r < -4095) FAIL("decode-result", "%s: decoding returned %d", vname[t], r);
					if (q == VR_MORE) {
						if (r >= 0) FAIL("incomplete-accepted", "%s: a value of which only %zu bytes have arrived was decoded (%llx)", vname[t], have, (unsigned long long)v);
						break;
					}
					if (q == VR_BAD) {
						if (r >= 0) FAIL("overflow-accepted", "%s: bytes that encode no value of this type were decoded to %llx (%zu bytes)", vname[t], (unsigned long long)v, len);
						if (!L->damaged) internal_error("reference finds undamaged bytes malformed");
						return; // the receiver drops the connection
					}
					// a value in more bytes than needed may be refused
					bool minimal = wl == 1 || L->rx[at + wl - 1] != 0;
					if (r < 0 && !minimal) return;
					if (r < 0) FAIL("value-refused", "%s: %llx in %zu bytes, followed by %zu more (%02x), was refused: %d", vname[t], (unsigned long long)want, wl, have - wl, have > wl ? L->rx[at + wl] : 0, r);
					if (v != want || len != wl) FAIL("wrong-value", "%s: decoded %llx in %zu bytes instead of %llx in %zu", vname[t], (unsigned long long)v, len, (unsigned long long)want, wl);
					if (!L->damaged && v != L->vals[i]) FAIL("wrong-value", "%s: received %llx, sent %llx", vname[t], (unsigned long long)v, (unsigned long long)L->vals[i]);
					at += len;
					i++;
				}
			}
			if (!L->damaged && L->closed && L->sent.size() == L->rx.size() && crash_at < 0 && i < n) FAIL("values-lost", "%u of %u values were received", i, n);
		}));
	}
	describe("%u streams, %u integers", nlinks, total);
	for (int t : tid) join(t);
	check_no_leak("variable-length integers");
}
// datagrams: single values, any bytes
SCENARIO("C25", integer_datagrams, 1)
{
	choose_env();
	u32 n = 1 + choose(20);
	for (u32 i = 0; i < n; i++) {
		u32 t = choose(6);
		Bytes d;
		u32 len = choose(14);
		u32 style = choose(3);
		for (u32 k = 0; k < len; k++) d.push_back(style == 0 ? (u8)choose(256) : style == 1 ? (u8)(0x80 | choose(128)) : choose(5) ? 0xff : (u8)choose(128));
		count_fault(F_CORRUPT);
		Buf b(d.size());
		memcpy(b.p, d.data(), d.size());
		u64 v = 0, want = 0;
		size_t got = 777, wl = 0;
		VRef q = ref_dec(t, d, 0, &want, &wl);
		int r = dec(t, b.p, d.size(), &v, &got);
		xfree(b.p);
		ev("datagram", t, (i64)d.size(), r);
		if (r > 0 || r < -4095) FAIL("decode-result", "%s: decoding returned %d", vname[t], r);
		if (q != VR_OK && r >= 0) FAIL("garbage-accepted", "%s: %zu bytes that hold no value were decoded to %llx", vname[t], d.size(), (unsigned long long)v);
		if (q == VR_OK) {
			bool minimal = wl == 1 || d[wl - 1] != 0;
			if (r < 0 && minimal) FAIL("value-refused", "%s: %llx in %zu of %zu bytes was refused: %d", vname[t], (unsigned long long)want, wl, d.size(), r);
			if (r == 0 && (v != want || got != wl)) FAIL("wrong-value", "%s: decoded %llx in %zu bytes instead of %llx in %zu", vname[t], (unsigned long long)v, got, (unsigned long long)want, wl);
		}
	}
	if (chance(50000)) {
		u8 b[16] = {0};
		size_t l;
		u64 v;
		u32 t = choose(6);
		if (enc(t, nullptr, 16, 1, &l) >= 0 || enc(t, b, 16, 1, nullptr) >= 0 || dec(t, nullptr, 16, &v, &l) >= 0 || dec(t, b, 16, &v, nullptr) >= 0 || dec(t, b, 0, &v, &l) >= 0 || dec_nowhere(t, b, 16, &l) >= 0)
			FAIL("arguments", "%s: an invalid argument was accepted", vname[t]);
	}
}

// ------------------------------------------------------------------ C27
static void civil(i64 sec, Date &d, Hour &h, u32 &wd)
{
	i64 days = sec >= 0 ? sec / 86400 : -((86399 - sec) / 86400);
	i64 rest = sec - days * 86400;
	h = {(u32)(rest / 3600), (u32)(rest / 60 % 60), (u32)(rest % 60), 0};
	wd = (u32)(((days % 7) + 11) % 7);
	i64 z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
	u32 doe = (u32)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
	i64 y = (i64)yoe + era * 400;
	u32 doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
	d.d = doy - (153 * mp + 2) / 5 + 1;
	d.m = mp < 10 ? mp + 3 : mp - 9;
	d.y = (u32)(y + (d.m <= 2));
}
static i64 gen_off()
{
	static const i64 o[] = {0, 3600, -3600, 5 * 3600 + 1800, -(3 * 3600 + 1800), 14 * 3600, -12 * 3600, 60, -60, 37500, -37500};
	return choose(2) ? o[choose(11)] : ((i64)choose(2 * 1440 - 1) - 1439) * 60;
}
static i64 gen_instant()
{
	static const u32 y[] = {1971, 1972, 1999, 2000, 2001, 2023, 2024, 2038, 2100, 2400, 9998};
	if (!choose(4)) return 31536000 * 2 + (i64)(choose64() % 253000000000ull);
	Date d = gen_date();
	if (choose(2)) d.y = y[choose(11)];
	if (d.d > mdays(d.y, d.m)) d.d = mdays(d.y, d.m);
	if (d.y == 9999 && d.m == 12) d.m = 11, d.d = 7;
	if (d.y == 1971 && d.m == 1) d.m = 2, d.d = 3;
	Hour h = gen_hour();
	if (h.s == 60) h.s = 59;
	h.off = 0;
	return instant(d, h);
}
// one node formats an instant, the text is checked with an independent reading
static std::string format_time(i64 at, i64 off, u32 f)
{
	static const enum time_fmt F[] = {TIME_FMT_SHORT, TIME_FMT_LONG, TIME_FMT_RFC1123};
	size_t n = choose(3) ? 40 : 80;
	Buf b(n);
	memset(b.p, 0x7e, n);
	int r = lib([&] { return time_local_format((u64)at, (int32_t)off, F[f], (char *)b.p, n); });
	if (r) FAIL("format-failed", "formatting %lld offset %lld returned %d", (long long)at, (long long)off, r);
	size_t l = strnlen((char *)b.p, n);
	if (l == n) FAIL("format-unterminated", "formatting %lld: no end within %zu bytes", (long long)at, n);
	std::string s((char *)b.p, l);
	xfree(b.p);
	Date d, x = {0, 0, 0};
	Hour h, y = {0, 0, 0, 0};
	u32 wd;
	civil(at + off, d, h, wd);
	u32 a = (u32)(off < 0 ? -off : off);
	std::string want;
	if (f == 0) want = fmt("%04u%02u%02uT%02u%02u%02u%c%02u%02u", d.y, d.m, d.d, h.h, h.m, h.s, off < 0 ? '-' : '+', a / 3600, a / 60 % 60);
	if (f == 1) want = fmt("%04u-%02u-%02uT%02u:%02u:%02u%c%02u:%02u", d.y, d.m, d.d, h.h, h.m, h.s, off < 0 ? '-' : '+', a / 3600, a / 60 % 60);
	if (f < 2 && s != want) FAIL("wrong-text", "%lld offset %lld is formatted as '%s', not '%s'", (long long)at, (long long)off, s.c_str(), want.c_str());
	if (f == 2) {
		if (s.compare(0, 3, WD[wd])) FAIL("wrong-weekday", "%lld is formatted as '%s', it is a %s", (long long)at, s.c_str(), WD[wd]);
		if (ref_time(s, x, y) != V_GOOD) FAIL("wrong-text", "%lld offset %lld is formatted as '%s', which is not the documented format", (long long)at, (long long)off, s.c_str());
		if (instant(x, y) != at || y.off != off) FAIL("wrong-text", "%lld offset %lld is formatted as '%s', another instant", (long long)at, (long long)off, s.c_str());
	}
	// into too small a buffer
	if (chance(150000)) {
		size_t m = 1 + choose((u32)s.size() + 2);
		Buf t(m);
		memset(t.p, 0x7e, m);
		r = lib([&] { return time_local_format((u64)at, (int32_t)off, F[f], (char *)t.p, m); });
		size_t k = strnlen((char *)t.p, m);
		if (r > 0 || r < -4095) FAIL("format-result", "formatting into %zu bytes returned %d", m, r);
		if (m > s.size() && (r || k != s.size())) FAIL("format-failed", "formatting into exactly %zu bytes returned %d", m, r);
		if (r == 0 && (k == m || s.compare(0, k, (char *)t.p, k))) FAIL("format-unterminated", "formatting into %zu bytes leaves no terminated beginning of the text", m);
		xfree(t.p);
	}
	return s;
}
// the receiving node reads it
static bool parse_time_text(const std::string &s, i64 &at, i64 &off)
{
	Buf b(s.size() + 1);
	memcpy(b.p, s.c_str(), s.size() + 1);
	uint64_t e = 0x123456;
	int32_t o = 0x5555;
	int r = lib([&] { return time_local_parse((char *)b.p, &e, &o); });
	xfree(b.p);
	ev("parse", (i64)s.size(), 0, r);
	Date d;
	Hour h;
	Verdict v = ref_time(s, d, h);
	if (r > 0 || r < -4095) FAIL("parse-result", "parsing '%s' returned %d", s.c_str(), r);
	if (v == V_BAD && r >= 0) FAIL("garbage-accepted", "'%s' was accepted", s.c_str());
	if (v == V_GOOD) {
		if (r) FAIL("parse-refused", "'%s' was refused: %d", s.c_str(), r);
		if ((i64)e != instant(d, h) || o != h.off) FAIL("wrong-instant", "'%s' was read as %lld offset %d, it is %lld offset %lld", s.c_str(), (long long)e, o, (long long)instant(d, h), (long long)h.off);
	}
	at = (i64)e;
	off = o;
	return r == 0 && v == V_GOOD;
}
static void calendar(i64 at, i64 off)
{
	struct tm tm;
	memset(&tm, 0x55, sizeof tm);
	int r = lib([&] { return time_local_to_tm((u64)at, (int32_t)off, &tm); });
	Date d;
	Hour h;
	u32 wd;
	civil(at + off, d, h, wd);
	if (r) FAIL("calendar-failed", "converting %lld offset %lld returned %d", (long long)at, (long long)off, r);
	u32 yd = (u32)(days_from_civil(d.y, d.m, d.d) - days_from_civil(d.y, 1, 1));
	if (tm.tm_year + 1900 != (int)d.y || tm.tm_mon + 1 != (int)d.m || tm.tm_mday != (int)d.d || tm.tm_hour != (int)h.h || tm.tm_min != (int)h.m || tm.tm_sec != (int)h.s || tm.tm_wday != (int)wd || tm.tm_yday != (int)yd || tm.tm_gmtoff != off)
		FAIL("wrong-calendar", "%lld offset %lld is converted to %d-%d-%d %d:%d:%d (day %d, %d, offset %ld)", (long long)at, (long long)off, tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, tm.tm_wday, tm.tm_yday, tm.tm_gmtoff);
	u64 e = 1;
	int32_t o = 2;
	u32 which = choose(4);
	r = lib([&] { return time_local_from_tm(&tm, which == 1 ? nullptr : (uint64_t *)&e, which == 2 ? nullptr : &o); });
	if (r || (which != 1 && (i64)e != at) || (which != 2 && o != off)) FAIL("wrong-from-calendar", "%lld offset %lld converted back is %lld offset %d (%d)", (long long)at, (long long)off, (long long)e, o, r);
}
SCENARIO("C27", clock_from_messages, 2)
{
	// controllers send their clock's time, each to its drone
	u32 n = 1 + pickw({5, 3, 1});
	choose_sched((int)n);
	if (n > 1 && !W->cfg.hold && choose(3) == 2) { W->cfg.preempt = W->cfg.fine = true; W->cfg.preempt_left = 3000; }
	if (choose(2)) W->cfg.stall_ppm = 100000;
	choose_faults(FM(F_CLOCK), 4);
	std::vector<int> tid;
	u32 msgs = more_calls(1 + choose(6));
	bool setters = n == 1;
	describe("%u links, %u messages%s", n, msgs, setters ? ", the receiver sets its clock" : "");
	for (u32 l = 0; l < n; l++) tid.push_back(spawn("link", [=] {
		i64 base = gen_instant(), off = gen_off();
		for (u32 m = 0; m < msgs; m++) {
			if (chance(300000)) { base = gen_instant(); off = gen_off(); }
			i64 at = base + W->mono / SEC;
			u32 f = choose(3);
			std::string s = format_time(at, off, f);
			if (choose(2)) calendar(at, off);
			if (chance(100000)) { count_fault(F_MSGLOSS); continue; }
			u32 copies = 1;
			if (chance(150000)) { copies = 2; count_fault(F_MSGDUP); }
			i64 late = chance(W->cfg.hold ? 5000 : 200000) ? (i64)log_uniform(5000) * MS : 0;
			if (late) sleep_ns(late);
			for (u32 k = 0; k < copies; k++) {
				std::string x = s;
				bool hit = chance(250000);
				if (hit) { x = corrupt(x); if (chance(300000)) x = corrupt(x); }
				if (x.find('\0') != std::string::npos) x = x.substr(0, x.find('\0'));
				i64 a2, o2;
				bool ok = parse_time_text(x, a2, o2);
				if (!hit && !ok) FAIL("parse-refused", "'%s' did not survive the trip", x.c_str());
				if (ok && !hit && (a2 != at || o2 != off)) FAIL("wrong-instant", "'%s' means %lld offset %lld, received %lld offset %lld", x.c_str(), (long long)at, (long long)off, (long long)a2, (long long)o2);
				if (!ok || !setters || a2 > 8000000000ll || a2 < 31536000) continue;
				u32 e0 = fault_here(F_CLOCK);
				i64 t0 = rt_now();
				int r = lib([&] { return time_local_set((u64)a2, (int32_t)o2); });
				if (r < 0) {
					if (fault_here(F_CLOCK) == e0) FAIL("set-refused", "setting the clock returned %d", r);
					if (rt_now() - t0 < 0) FAIL("set-refused", "the clock was changed although setting it failed");
					continue;
				}
				i64 set = W->mono;
				uint64_t now = 0;
				u32 e1 = fault_here(F_CLOCK);
				i64 before = rt_now();
				r = lib([&] { return time_local_get(&now, nullptr); });
				if (r < 0 && fault_here(F_CLOCK) == e1) FAIL("get-refused", "reading the clock returned %d", r);
				if (r < 0) continue;
				if ((i64)now < before / SEC || (i64)now > rt_now() / SEC) FAIL("wrong-clock", "the clock shows %lld, read as %lld", (long long)(before / SEC), (long long)now);
				// the drone's clock now follows the controller's: behind by the delay of the message, never more
				i64 ctl = (at == a2 ? base : a2 - set / SEC) * SEC + W->mono;
				i64 diff = ctl - rt_now();
				if (at == a2 && !hit && (diff < -SEC || diff > late + SEC + (i64)W->i_stall_total + (W->mono - set) + SEC))
					FAIL("clocks-apart", "after a message delayed by %lld ms the clocks differ by %lld ms", (long long)(late / MS), (long long)(diff / MS));
			}
		}
	}));
	for (int t : tid) join(t);
	check_no_leak("time messages");
}
SCENARIO("C27", any_instant, 1)
{
	choose_env();
	u32 n = 1 + choose(6);
	for (u32 i = 0; i < n; i++) {
		i64 at = gen_instant(), off = gen_off();
		calendar(at, off);
		u32 f = choose(3);
		std::string s = format_time(at, off, f);
		i64 a, o;
		if (!parse_time_text(s, a, o) || a != at || o != off) FAIL("wrong-instant", "'%s' does not read back", s.c_str());
		// text from elsewhere: any documented spelling, and what a link makes of it
		Date d = gen_date();
		Hour h = gen_hour();
		s = text_time(d, h);
		if (choose(2)) s = corrupt(s);
		if (s.find('\0') != std::string::npos) s = s.substr(0, s.find('\0'));
		parse_time_text(s, a, o);
		// instants no calendar reaches: an error or text within the buffer
		if (chance(100000)) {
			u64 wild = choose64() >> choose(40);
			size_t m = 1 + choose(60);
			Buf b(m);
			memset(b.p, 0, m);
			static const enum time_fmt F[] = {TIME_FMT_SHORT, TIME_FMT_LONG, TIME_FMT_RFC1123};
			int r = lib([&] { return time_local_format(wild, (int32_t)off, F[f], (char *)b.p, m); });
			if (r > 0 || r < -4095) FAIL("format-result", "formatting %llu returned %d", (unsigned long long)wild, r);
			if (r == 0 && strnlen((char *)b.p, m) == m) FAIL("format-unterminated", "formatting %llu: no end within %zu bytes", (unsigned long long)wild, m);
			xfree(b.p);
		}
	}
	if (chance(50000)) {
		char b[60];
		uint64_t e;
		int32_t o;
		struct tm tm;
		memset(&tm, 0, sizeof tm);
		if (lib([&] { return time_local_format(0, 0, TIME_FMT_LONG, nullptr, 10); }) >= 0 || lib([&] { return time_local_format(0, 0, TIME_FMT_LONG, b, 0); }) >= 0 || lib([&] { return time_local_format(0, 0, (enum time_fmt)7, b, 60); }) >= 0 ||
		    lib([&] { return time_local_parse(nullptr, &e, &o); }) >= 0 || lib([&] { return time_local_parse("20180301T121314+0000", nullptr, &o); }) >= 0 || lib([&] { return time_local_parse("20180301T121314+0000", &e, nullptr); }) >= 0 ||
		    lib([&] { return time_local_to_tm(0, 0, nullptr); }) >= 0 || lib([&] { return time_local_from_tm(nullptr, &e, &o); }) >= 0 || lib([&] { return time_local_from_tm(&tm, nullptr, nullptr); }) >= 0)
			FAIL("arguments", "an invalid argument was accepted");
	}
}

// ------------------------------------------------------------------ C28
static void utf8_put(std::string &s, u32 cp)
{
	if (cp < 0x80) s += (char)cp;
	else if (cp < 0x800) { s += (char)(0xc0 | cp >> 6); s += (char)(0x80 | (cp & 63)); }
	else if (cp < 0x10000) { s += (char)(0xe0 | cp >> 12); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
	else { s += (char)(0xf0 | cp >> 18); s += (char)(0x80 | (cp >> 12 & 63)); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
}
// independent reading. V_BAD: not UTF-8; V_GREY: surrogates and the longer forms of
// RFC 2279, which decoders treat differently
static Verdict utf8_get(const std::string &s, std::vector<u32> &cps)
{
	Verdict v = V_GOOD;
	for (size_t i = 0; i < s.size();) {
		u8 c = (u8)s[i];
		u32 n, cp;
		if (c < 0x80) { cps.push_back(c); i++; continue; }
		if (c >= 0xc2 && c <= 0xdf) { n = 1; cp = c & 0x1f; }
		else if (c >= 0xe0 && c <= 0xef) { n = 2; cp = c & 0xf; }
		else if (c >= 0xf0 && c <= 0xf7) { n = 3; cp = c & 7; }
		else if (c >= 0xf8 && c <= 0xfb) { n = 4; cp = c & 3; }
		else if (c >= 0xfc && c <= 0xfd) { n = 5; cp = c & 1; }
		else return V_BAD;
		if (i + n >= s.size()) return V_BAD;
		for (u32 k = 1; k <= n; k++) {
			u8 x = (u8)s[i + k];
			if ((x & 0xc0) != 0x80) return V_BAD;
			cp = cp << 6 | (x & 63);
		}
		if ((n == 2 && cp < 0x800) || (n == 3 && cp < 0x10000)) return V_BAD;
		if ((cp >= 0xd800 && cp < 0xe000) || cp > 0x10ffff || n > 3) v = V_GREY;
		cps.push_back(cp);
		i += n + 1;
	}
	return v;
}
static u32 gen_cp()
{
	static const u32 edge[] = {1, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x3ffff, 0x40000, 0x10fffd, 0x10ffff};
	switch (choose(7)) {
	case 0: return 'a' + choose(26);
	case 1: return (u32)(u8)"*/:<>?\\|\""[choose(9)];
	case 2: return 0xa1 + choose(0x600);
	case 3: return 0x800 + choose(0xc000);
	case 4: return 0x10000 + choose(0xfffff);
	case 5: return edge[choose(23)];
	default: return 1 + choose(0x7f);
	}
}
static std::string damage(std::string s)
{
	if (s.empty()) return s;
	u32 i = choose((u32)s.size());
	switch (choose(6)) {
	case 0: count_fault(F_TORN); return s.substr(0, i); // cut in the middle of whatever is there
	case 1: count_fault(F_CORRUPT); s[i] = (char)(1 + choose(255)); return s;
	case 2: count_fault(F_MSGLOSS); s.erase(i, 1); return s;
	case 3: count_fault(F_CORRUPT); s.insert(i, 1, (char)(0x80 + choose(128))); return s;
	case 4: { static const char *q[] = {"\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xff", "\xfe", "\x80", "\xed\xa0\x80"}; count_fault(F_CORRUPT); return s.insert(i, q[choose(13)]); }
	default: count_fault(F_MSGDUP); return s.insert(i, s.substr(i, 1 + choose(3)));
	}
}
SCENARIO("C28", names, 1)
{
	u32 nth = 1 + pickw({4, 4, 1});
	choose_sched((int)nth);
	choose_faults(FM(F_NOMEM) | FM(F_ICONV), 6);
	bool faulty = W->F.mask != 0;
	describe("%u threads, names over a damaging link%s", nth, faulty ? ", failing calls" : "");
	std::vector<int> tid;
	for (u32 th = 0; th < nth; th++) tid.push_back(spawn("receiver", [=] {
		u32 rounds = more_calls(1 + choose(4));
		for (u32 rd = 0; rd < rounds; rd++) {
			std::string in;
			u32 n = choose(4) ? choose(16) : log_uniform(500);
			u32 kind = choose(4);
			for (u32 i = 0; i < n; i++) utf8_put(in, kind == 0 ? 'a' + choose(26) : gen_cp());
			if (chance(2000)) {
				// long texts: whole characters repeated, up to and across the limit
				std::string unit = in.empty() ? "a" : in.substr(0, choose(2) ? in.size() : 1);
				if ((u8)unit[unit.size() - 1] >= 0x80 && unit.size() != in.size()) unit = in;
				size_t want = limit_len(), wide = choose(2) ? 1 : unit.size();
				in.clear();
				for (size_t i = 0; i < want && in.size() < 400000; i += wide) in += unit;
				probe("a long text");
			}
			if (chance(300000)) in = damage(in);
			if (in.find('\0') != std::string::npos) in = in.substr(0, in.find('\0'));
			std::vector<u32> cps;
			Verdict v = utf8_get(in, cps);
			// what is forbidden: nothing, the exFAT list, or some of the characters at hand
			std::wstring forb;
			u32 fk = choose(4);
			if (fk == 1) forb = FUTILS_STRING_EXFAT_FORBIDDEN;
			if (fk == 2) for (u32 i = 0; i < 1 + choose(3); i++) forb += (wchar_t)(!cps.empty() ? cps[choose((u32)cps.size())] : 'a');
			if (fk == 3) for (u32 i = 0; i < choose(5); i++) forb += (wchar_t)gen_cp();
			const wchar_t *fp = fk ? forb.c_str() : nullptr;
			auto bad = [&](u32 c) { return fp && forb.find((wchar_t)c) != std::wstring::npos; };
			Buf q(in.size() + 1);
			memcpy(q.p, in.c_str(), in.size() + 1);
			u32 e0 = fault_here(F_NOMEM) + fault_here(F_ICONV);
			auto failed = [&] { return fault_here(F_NOMEM) + fault_here(F_ICONV) != e0; };
			if (choose(2)) {
				u32 rep = fk && choose(3) == 0 ? gen_cp() : '_';
				size_t need = 1;
				std::string full;
				for (u32 c : cps) utf8_put(full, bad(c) ? rep : c);
				need = full.size() + 1;
				size_t max = 2 + (choose(3) ? choose((u32)need + 8) : need > 4 ? need - 4 + choose(6) : choose(6));
				std::string want;
				for (u32 c : cps) {
					std::string one;
					utf8_put(one, bad(c) ? rep : c);
					if (want.size() + one.size() > max - 1) break;
					want += one;
				}
				Buf out(max);
				memset(out.p, 0x7e, max);
				int r = lib([&] { return futils_string_sanitize_utf8((char *)q.p, (char *)out.p, max, fp, (wchar_t)rep); });
				ev("sanitize", v, (i64)max, r);
				if (r < -4095 || r > (int)max) FAIL("sanitize-result", "sanitising into %zu bytes returned %d", max, r);
				if (r >= 0 && v == V_BAD) FAIL("invalid-accepted", "text that is not UTF-8 was sanitised (%d)", r);
				if (r < 0 && v == V_GOOD && !failed()) FAIL("valid-refused", "sanitising %zu characters returned %d although nothing failed", cps.size(), r);
				if (r >= 0 && v == V_GOOD) {
					size_t k = strnlen((char *)out.p, max);
					if (k == max) FAIL("unterminated", "the sanitised text does not end within its %zu bytes", max);
					std::string got((char *)out.p, k);
					if (got != want) FAIL("wrong-text", "sanitising %zu characters into %zu bytes gives %zu bytes, expected %zu%s", cps.size(), max, k, want.size(), k == want.size() ? ", of other content" : "");
					if ((size_t)r != k && (size_t)r != k + 1) FAIL("wrong-length", "%zu bytes written, %d returned", k, r);
				}
				xfree(out.p);
			} else {
				u32 a = choose(3), b = choose(3);
				size_t mb = a == 0 ? 0 : a == 1 ? in.size() + choose(3) : 1 + choose((u32)in.size() + 5);
				size_t mw = b == 0 ? 0 : b == 1 ? cps.size() + choose(3) - (cps.size() ? 1 : 0) : 1 + choose((u32)cps.size() + 3);
				bool has = false;
				for (u32 c : cps) has = has || bad(c);
				bool big = (mb && in.size() >= mb) || (mw && cps.size() > mw);
				int r = lib([&] { return futils_string_check_utf8((char *)q.p, mb, mw, fp); });
				ev("check", v, (i64)in.size(), r);
				if (r > 0 || r < -4095) FAIL("check-result", "checking returned %d", r);
				if (v == V_GREY) { xfree(q.p); continue; }
				bool sane = v == V_GOOD && !big && !has;
				if (r == 0 && !sane) FAIL("insane-accepted", "%s was found sane (%zu bytes of %zu, %zu characters of %zu)", v == V_BAD ? "text that is not UTF-8" : big ? "too long a text" : "text with forbidden characters", in.size(), mb, cps.size(), mw);
				if (r < 0 && sane && !failed()) FAIL("sane-refused", "sane text was refused with %d although nothing failed (%zu bytes of %zu, %zu characters of %zu)", r, in.size(), mb, cps.size(), mw);
				if (r < 0 && !failed() && v == V_GOOD && !((big && r == -E2BIG) || (has && r == -EPROTO))) FAIL("wrong-error", "%s was refused with %d", big ? "too long a text" : "text with forbidden characters", r);
			}
			xfree(q.p);
		}
	}));
	for (int t : tid) join(t);
	if (iconv_live()) FAIL("leak-handle", "%d conversion handles were not released", iconv_live());
	check_no_leak("UTF-8 conversion");
}
