// time messages: an independent reading of the documented formats, generators and the corrupting link
#pragma once
#include "common.h"
#include <stdarg.h>
static i64 days_from_civil(i64 y, u32 m, u32 d)
{
	y -= m <= 2;
	i64 era = (y >= 0 ? y : y - 399) / 400;
	u32 yoe = (u32)(y - era * 400);
	u32 doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
	u32 doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + (i64)doe - 719468;
}
static u32 mdays(u32 y, u32 m)
{
	static const u32 d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	return m == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 29 : d[m - 1];
}
struct Date { u32 y, m, d; };
struct Hour { u32 h, m, s; i64 off; };
static i64 instant(const Date &d, const Hour &h) { return days_from_civil(d.y, d.m, d.d) * 86400 + h.h * 3600 + h.m * 60 + h.s - h.off; }
static bool dig(const std::string &s, size_t i, size_t n) { for (size_t k = i; k < i + n; k++) if (k >= s.size() || s[k] < '0' || s[k] > '9') return false; return true; }
static u32 num(const std::string &s, size_t i, size_t n) { u32 v = 0; for (size_t k = 0; k < n; k++) v = v * 10 + (u32)(s[i + k] - '0'); return v; }
// V_GOOD: documented and in range; V_BAD: surely malformed or out of range;
// V_GREY: documentation leaves it open (no verdict)
enum Verdict { V_GOOD, V_BAD, V_GREY };
static Verdict range_date(u32 y, u32 m, u32 d)
{
	if (m < 1 || m > 12 || d < 1 || d > 31) return V_BAD;
	if (y < 1971 || d > mdays(y, m)) return V_GREY;
	return V_GOOD;
}
static Verdict ref_date(const std::string &s, Date &o)
{
	if (s.size() == 10 && s[4] == '-' && s[7] == '-') {
		if (!dig(s, 0, 4) || !dig(s, 5, 2) || !dig(s, 8, 2)) {
			return V_BAD;
		}
		o = {num(s, 0, 4), num(s, 5, 2), num(s, 8, 2)};
	} else if (s.size() == 8) {
		if (!dig(s, 0, 8)) return V_BAD;
		o = {num(s, 0, 4), num(s, 4, 2), num(s, 6, 2)};
	} else
		return V_BAD;
	return range_date(o.y, o.m, o.d);
}
static Verdict ref_hour(std::string s, Hour &o)
{
	if (!s.empty() && s[0] == 'T') s = s.substr(1);
	size_t at;
	if (s.size() >= 8 && s[2] == ':' && s[5] == ':') {
		if (!dig(s, 0, 2) || !dig(s, 3, 2) || !dig(s, 6, 2)) return V_BAD;
		o = {num(s, 0, 2), num(s, 3, 2), num(s, 6, 2), 0};
		at = 8;
	} else {
		if (!dig(s, 0, 6)) return V_BAD;
		o = {num(s, 0, 2), num(s, 2, 2), num(s, 4, 2), 0};
		at = 6;
	}
	if (o.h > 23 || o.m > 59 || o.s > 60) return V_BAD;
	bool grey = o.s == 60; // a leap second: the last of a UTC day
	std::string z = s.substr(at);
	if (!z.empty() && z[0] == ' ') z = z.substr(1);
	if (z == "Z" || z == "GMT" || z == "UT" || z == "UTC") return grey && !(o.h == 23 && o.m == 59) ? V_GREY : V_GOOD;
	u32 zh, zm;
	if (z.size() == 6 && (z[0] == '+' || z[0] == '-') && z[3] == ':' && dig(z, 1, 2) && dig(z, 4, 2)) { zh = num(z, 1, 2); zm = num(z, 4, 2); }
	else if (z.size() == 5 && (z[0] == '+' || z[0] == '-') && dig(z, 1, 4)) { zh = num(z, 1, 2); zm = num(z, 3, 2); }
	else return V_BAD;
	if (zh > 23 || zm > 59) return V_BAD;
	o.off = (i64)(zh * 60 + zm) * 60 * (z[0] == '-' ? -1 : 1);
	return grey && (o.h * 3600 + o.m * 60 - o.off + 2 * 86400) % 86400 != 86340 ? V_GREY : V_GOOD;
}
static const char *WD[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
static const char *MN[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static Verdict ref_time(const std::string &s, Date &d, Hour &h)
{
	bool wd = false;
	for (auto w : WD) if (s.compare(0, 3, w) == 0) wd = true;
	if (wd) {
		// aaa, D[D] bbb YYYY hour  or  aaa, bbb D[D] YYYY hour
		if (s.size() < 16 || s[3] != ',' ) return V_BAD;
		if (s[4] != ' ') return V_GREY;
		size_t i = 5;
		auto day = [&]() -> bool {
			if (dig(s, i, 2)) { d.d = num(s, i, 2); i += 2; }
			else if (dig(s, i, 1)) { d.d = num(s, i, 1); i += 1; }
			else return false;
			return i < s.size() && s[i] == ' ';
		};
		auto mon = [&]() -> bool {
			for (u32 k = 0; k < 12; k++) if (s.compare(i, 3, MN[k]) == 0) { d.m = k + 1; i += 3; return i < s.size() && s[i] == ' '; }
			return false;
		};
		if (dig(s, i, 1)) { if (!day()) return V_GREY; i++; if (!mon()) return V_GREY; i++; }
		else { if (!mon()) return V_GREY; i++; if (!day()) return V_GREY; i++; }
		if (!dig(s, i, 4)) return V_GREY;
		d.y = num(s, i, 4);
		i += 4;
		Verdict r = range_date(d.y, d.m, d.d);
		if (r == V_BAD) return V_BAD;
		if (i >= s.size()) return V_BAD;
		if (s[i] != ' ') return V_GREY;
		std::string rest = s.substr(i + 1);
		if (!rest.empty() && rest[0] == 'T') return V_GREY;
		Verdict q = ref_hour(rest, h);
		return q == V_BAD ? V_BAD : r == V_GREY ? V_GREY : q;
	}
	size_t n = 0;
	auto sep = [&](size_t k) { return s.size() > k && (s[k] == 'T' || s[k] == ' '); };
	if (sep(10)) n = 10;
	else if (sep(8)) n = 8;
	else return V_BAD;
	Verdict r = ref_date(s.substr(0, n), d);
	if (r == V_BAD) return V_BAD;
	std::string rest = s.substr(n + 1);
	if (!rest.empty() && rest[0] == 'T') return V_GREY;
	Verdict q = ref_hour(rest, h);
	return q == V_BAD ? V_BAD : r == V_GREY ? V_GREY : q;
}
static std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char *f, ...)
{
	char b[200];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	return b;
}
static Date gen_date()
{
	Date d;
	static const u32 ys[] = {1971, 1972, 1999, 2000, 2001, 2023, 2024, 2038, 2100, 2400, 9999};
	d.y = choose(2) ? ys[choose(11)] : 1971 + choose(8029);
	d.m = chance(300000) ? 2 + choose(2) : 1 + choose(12);
	u32 n = mdays(d.y, d.m);
	d.d = chance(300000) ? (choose(2) ? n : 1) : 1 + choose(n);
	return d;
}
static Hour gen_hour()
{
	Hour h;
	h.h = chance(200000) ? 23 * choose(2) : choose(24);
	h.m = chance(200000) ? 59 * choose(2) : choose(60);
	h.s = chance(200000) ? 59 * choose(2) : choose(60);
	static const i64 o[] = {0, 3600, -3600, 5 * 3600 + 1800, -(3 * 3600 + 1800), 14 * 3600, -12 * 3600, 60, -60};
	if (chance(50000)) { h.h = 23; h.m = 59; h.s = 60; h.off = 0; return h; }
	h.off = choose(2) ? o[choose(9)] : ((i64)choose(2 * 1440 - 1) - 1439) * 60;
	return h;
}
static std::string text_date(const Date &d) { return choose(2) ? fmt("%04u-%02u-%02u", d.y, d.m, d.d) : fmt("%04u%02u%02u", d.y, d.m, d.d); }
static std::string text_hour(const Hour &h, bool t)
{
	std::string s = t ? "T" : "";
	s += choose(2) ? fmt("%02u:%02u:%02u", h.h, h.m, h.s) : fmt("%02u%02u%02u", h.h, h.m, h.s);
	if (chance(250000)) s += " ";
	u32 a = (u32)(h.off < 0 ? -h.off : h.off);
	if (!h.off && choose(2)) { static const char *z[] = {"Z", "GMT", "UT", "UTC"}; return s + z[choose(4)]; }
	return s + fmt(choose(2) ? "%c%02u:%02u" : "%c%02u%02u", h.off < 0 ? '-' : '+', a / 3600, a / 60 % 60);
}
static std::string text_time(const Date &d, const Hour &h)
{
	switch (choose(3)) {
	case 0: return text_date(d) + text_hour(h, true);
	case 1: return text_date(d) + " " + text_hour(h, false);
	default:
		if (choose(2)) return fmt(choose(2) ? "%s, %02u %s %04u " : "%s, %u %s %04u ", WD[choose(7)], d.d, MN[d.m - 1], d.y) + text_hour(h, false);
		return fmt(choose(2) ? "%s, %s %02u %04u " : "%s, %s %u %04u ", WD[choose(7)], MN[d.m - 1], d.d, d.y) + text_hour(h, false);
	}
}
static std::string corrupt(std::string s)
{
	count_fault(F_CORRUPT);
	switch (choose(9)) {
	case 0: return s.substr(0, choose((u32)s.size() + 1));
	case 1: if (!s.empty()) s[choose((u32)s.size())] = (char)(1 + choose(255)); return s;
	case 2: if (!s.empty()) s.erase(choose((u32)s.size()), 1); return s;
	case 3: s.insert(choose((u32)s.size() + 1), 1, "0123456789:-+T Zx/"[choose(18)]); return s;
	case 4: if (!s.empty()) { u32 i = choose((u32)s.size()); if (s[i] >= '0' && s[i] <= '9') s[i] = (char)('0' + choose(10)); } return s;
	case 5: if (!s.empty()) { u32 i = choose((u32)s.size()); if (s[i] >= '0' && s[i] <= '9') s[i] = "+- x.\t"[choose(6)]; } return s;
	case 6: return s + s;
	case 7: return s + "x";
	default: return "";
	}
}
