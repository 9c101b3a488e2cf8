// C21 calendar and clock conversions: every instant and duration of the stated ranges; libc's calendar by contract (rt/libc_time.cpp).
// @sources: time/Time.cpp time/BrokenDownTime.cpp time/NtpTimestamp.cpp time/posix/TimeEngine.cpp toolkit.cpp rt/libc_time.cpp
// @opaque: ^stingray::NumericRange<.*::ToString
// @opt: fork_select=1
// @assume: gmtime_r and timegm by the contracts in rt/libc_time.cpp (time of day and weekday arithmetic; the date a function of the day number and inverse to it)
#include <vc.h>
#include <stingraykit/time/TimeEngine.h>
#include <stingraykit/time/NtpTimestamp.h>
#include <stingraykit/time/TimeInterval.h>
#include <stingraykit/time/posix/utils.h>
using namespace stingray;

static const s64 MsDay = 86400000;
static s64 Floor(s64 a, s64 b) { return a / b - (a % b < 0 ? 1 : 0); }
static s64 AnyMs() { const s64 ms = ANY(s64); REQUIRES(ms >= -880000000000000ll && ms <= 880000000000000ll); return ms; }	// years -25900 .. 29850
static bool In(s64 v, s64 limit) { return v >= -limit && v <= limit; }

PROOF(C21_broken_down_round_trip)
{
	const s64 ms = AnyMs();
	const s16 zone = ANY(s16);
	TimeEngine::SetMinutesFromUtc(zone);
	const TimeKind kind = ANY(bool) ? TimeKind::Utc : TimeKind::Local;
	const BrokenDownTime b = Time(ms).BreakDown(kind);
	ENSURES("back to the instant", Time::FromBrokenDownTime(b, kind) == Time(ms));
	COVER("done");
}

static void Fields(bool utc)
{
	const s64 ms = AnyMs();
	const s16 zone = ANY(s16);
	TimeEngine::SetMinutesFromUtc(zone);
	const BrokenDownTime b = Time(ms).BreakDown(utc ? TimeKind::Utc : TimeKind::Local);
	const s64 l = utc ? ms : ms + zone * 60000ll;
	const s64 rest = l - Floor(l, MsDay) * MsDay;
	if (l >= 0)
	{
		ENSURES("time of day", b.Hours * 3600000ll + b.Minutes * 60000ll + b.Seconds * 1000ll + b.Milliseconds == rest);
		ENSURES("fields within their ranges", b.Hours >= 0 && b.Hours < 24 && b.Minutes >= 0 && b.Minutes < 60 && b.Seconds >= 0 && b.Seconds < 60 && b.Milliseconds >= 0 && b.Milliseconds < 1000);
		ENSURES("weekday", b.WeekDay == (Floor(l, MsDay) + 4) % 7);
		COVER("since 1970");
	}
	ENSURES("date within its ranges", b.Month >= 1 && b.Month <= 12 && b.MonthDay >= 1 && b.MonthDay <= 31 && b.YearDay >= 0 && b.YearDay < 366);
	time_t t = (time_t)(l / 1000);
	tm c;
	gmtime_r(&t, &c);
	ENSURES("the platform's date", b.Year == c.tm_year + 1900 && b.Month == c.tm_mon + 1 && b.MonthDay == c.tm_mday && b.YearDay == c.tm_yday && b.WeekDay == c.tm_wday);
}
PROOF(C21_fields_utc) { Fields(true); }
PROOF(C21_fields_local) { Fields(false); }

PROOF(C21_day_start)
{
	const s64 ms = AnyMs();
	REQUIRES(ms >= 0);
	const BrokenDownTime b = Time(ms).BreakDown(TimeKind::Utc), d = b.GetDayStart();
	ENSURES("midnight of the same date", d.Milliseconds == 0 && d.Seconds == 0 && d.Minutes == 0 && d.Hours == 0 && d.MonthDay == b.MonthDay && d.Month == b.Month && d.Year == b.Year && d.WeekDay == b.WeekDay && d.YearDay == b.YearDay);
	ENSURES("start of the day", Time::FromBrokenDownTime(d, TimeKind::Utc).GetMilliseconds() == ms / MsDay * MsDay);
}

PROOF(C21_days_to)
{
	const s64 x = AnyMs(), y = AnyMs();
	const s16 zone = ANY(s16);
	REQUIRES(zone >= -720 && zone <= 840 && x + zone * 60000ll >= 0 && y + zone * 60000ll >= 0);
	TimeEngine::SetMinutesFromUtc(zone);
	ENSURES("difference of the local day numbers", Time(x).DaysTo(Time(y)) == (y + zone * 60000ll) / MsDay - (x + zone * 60000ll) / MsDay);
	COVER("done");
}

PROOF(C21_mjd)
{
	const s64 ms = AnyMs();
	const int mjd = Time(ms).GetMjd();
	ENSURES("day containing the instant", Time::MjdToEpoch(mjd).GetMilliseconds() <= ms && ms - Time::MjdToEpoch(mjd).GetMilliseconds() < MsDay);
	const int m = ANY(int);
	REQUIRES(In(m, 10000000));
	ENSURES("epoch of the day", Time::MjdToEpoch(m).GetMilliseconds() == ((s64)m - 40587) * MsDay);
	ENSURES("day of its epoch", Time::MjdToEpoch(m).GetMjd() == m);
}

PROOF(C21_bcd)
{
	const s64 ms = AnyMs();
	const s16 zone = ANY(s16);
	REQUIRES(zone >= -720 && zone <= 840 && ms >= MsDay);
	TimeEngine::SetMinutesFromUtc(zone);
	const bool utc = ANY(bool);
	const s64 l = utc ? ms : ms + zone * 60000ll;
	const u32 bcd = Time(ms).GetBcdTime(utc ? TimeKind::Utc : TimeKind::Local);
	ENSURES("decimal digits of the hours", (bcd >> 20 & 15) * 10 + (bcd >> 16 & 15) == l % MsDay / 3600000);
	ENSURES("decimal digits of the minutes", (bcd >> 12 & 15) * 10 + (bcd >> 8 & 15) == l / 60000 % 60);
	ENSURES("decimal digits of the seconds", (bcd >> 4 & 15) * 10 + (bcd & 15) == l / 1000 % 60);
	ENSURES("digits", (bcd & 15) < 10 && (bcd >> 4 & 15) < 6 && (bcd >> 8 & 15) < 10 && (bcd >> 12 & 15) < 6 && (bcd >> 16 & 15) < 10 && (bcd >> 20) < 3);
	const int mjd = ANY(int);
	REQUIRES(In(mjd, 10000000));
	ENSURES("day and packed time", Time::MjdToEpoch(mjd, bcd) == Time::MjdToEpoch(mjd) + TimeDuration::FromBcdDuration(bcd));
}

PROOF(C21_bcd_decode)
{
	const u8 h1 = vc_pick(10), h0 = ANY(u8), m1 = ANY(u8), m0 = ANY(u8), s1 = ANY(u8), s0 = ANY(u8);
	REQUIRES(h0 < 10 && m1 < 10 && m0 < 10 && s1 < 10 && s0 < 10);
	const u32 bcd = (u32)h1 << 20 | (u32)h0 << 16 | (u32)m1 << 12 | (u32)m0 << 8 | (u32)s1 << 4 | s0;
	ENSURES("decimal digits of hours, minutes and seconds", TimeDuration::FromBcdDuration(bcd).GetSeconds() == (h1 * 10 + h0) * 3600 + (m1 * 10 + m0) * 60 + s1 * 10 + s0);
}

PROOF(C21_ntp_seconds)
{
	const s64 ms = AnyMs();
	REQUIRES(ms >= -2208988800000ll);
	const Time back = Time::FromNtpTimestamp(Time(ms).ToNtpTimestamp());
	ENSURES("second precision", back.GetMilliseconds() == ms / 1000 * 1000);
	const u64 n = ANY(u64);
	REQUIRES(n < 880000000000ull);
	ENSURES("from seconds since 1900", Time::FromNtpTimestamp(n).GetMilliseconds() == ((s64)n - 2208988800ll) * 1000);
	if (n >= 2208988800ull)
		ENSURES("and back", Time::FromNtpTimestamp(n).ToNtpTimestamp() == n);
}

PROOF(C21_ntp_fraction)
{
	const s64 ms = AnyMs();
	REQUIRES(ms >= 0 && ms < 2085978496000ll);	// 1970 up to the end of the 32 bit era in 2036
	const NtpTimestamp n = NtpTimestamp::FromTime(Time(ms));
	ENSURES("millisecond precision", n.ToTime().GetMilliseconds() == ms);
	ENSURES("seconds since 1900", (n.GetTimestamp() >> 32) == (u64)(ms / 1000 + 2208988800ll));
	const u64 raw = ANY(u64);
	REQUIRES(raw >> 32 >= 2208988800ull);
	const NtpTimestamp r(raw);
	ENSURES("kept", r.GetTimestamp() == raw);
	const s64 t = r.ToTime().GetMilliseconds();
	ENSURES("seconds", t / 1000 == (s64)(raw >> 32) - 2208988800ll);
	ENSURES("milliseconds, rounded down", t % 1000 == (s64)(((raw & 0xffffffffu) * 1000) >> 32));
}

PROOF(C21_file_time)
{
	const u64 ticks = ANY(u64);
	const s64 epoch = -11644473600000ll, seconds = ticks / 10000000, rest = ticks % 10000000;
	const s64 t = Time::FromWindowsFileTime(ticks).GetMilliseconds();
	if (rest == 0)
		ENSURES("whole seconds", t == epoch + seconds * 1000);
	ENSURES("100 ns ticks to milliseconds, or the recorded finding", t == epoch + (s64)(ticks / 10000) || t == epoch + seconds * 1000 + rest);
	ENSURES("100 ns ticks to milliseconds", t == epoch + (s64)(ticks / 10000));
}

PROOF(C21_duration_arithmetic)
{
	const s64 a = ANY(s64), b = ANY(s64);
	const int k = ANY(int);
	REQUIRES(In(a, 1000000000000000000ll) && In(b, 1000000000000000000ll));
	const TimeDuration x = TimeDuration::FromMicroseconds(a), y = TimeDuration::FromMicroseconds(b);
	ENSURES("microseconds kept", x.GetMicroseconds() == a);
	ENSURES("sum", (x + y).GetMicroseconds() == a + b);
	ENSURES("difference", (x - y).GetMicroseconds() == a - b);
	ENSURES("negation", (-x).GetMicroseconds() == -a);
	TimeDuration s = x, d = x;
	s += y; d -= y;
	ENSURES("in place", s == x + y && d == x - y);
	ENSURES("order", (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b));
	ENSURES("magnitude", x.Absolute().GetMicroseconds() == (a < 0 ? -a : a));
	const s64 r = x.RoundToMilliseconds().GetMicroseconds();
	ENSURES("nearest millisecond", r % 1000 == 0 && In(r - a, 500) && (r - a != -500 || a < 0) && (r - a != 500 || a >= 0));
	ENSURES("units, towards zero", x.GetMilliseconds() == a / 1000 && x.GetSeconds() == a / 1000000 && x.GetMinutes() == a / 60000000 && x.GetHours() == a / 3600000000ll && x.GetDays() == a / 86400000000ll);
}

PROOF(C21_duration_scale)
{
	const s64 a = ANY(s64), b = ANY(s64);
	const int k = ANY(int);
	const TimeDuration x = TimeDuration::FromMicroseconds(a), y = TimeDuration::FromMicroseconds(b);
	if (In(a, 4000000000ll))
		ENSURES("multiple", (x * k).GetMicroseconds() == a * k);
	if (k != 0 && !(a == std::numeric_limits<s64>::min() && k == -1))
		ENSURES("fraction, towards zero", (x / k).GetMicroseconds() == a / k);
	if (b != 0 && !(a == std::numeric_limits<s64>::min() && b == -1))
	{
		ENSURES("quotient of durations", x / y == a / b);
		ENSURES("remainder of durations", (x % y).GetMicroseconds() == a % b);
	}
	COVER("done");
}

PROOF(C21_duration_units)
{
	const int n = ANY(int);
	ENSURES("seconds", TimeDuration::FromSeconds(n).GetMicroseconds() == n * 1000000ll);
	ENSURES("minutes", TimeDuration::FromMinutes(n).GetMicroseconds() == n * 60000000ll);
	ENSURES("hours", TimeDuration::FromHours(n).GetMicroseconds() == n * 3600000000ll);
	if (In(n, 100000000))
		ENSURES("days", TimeDuration::FromDays(n).GetMicroseconds() == n * 86400000000ll);
	ENSURES("milliseconds", TimeDuration::FromMilliseconds(n).GetMicroseconds() == n * 1000ll && TimeDuration(n).GetMicroseconds() == n * 1000ll);
	bool refused = false;
	try { TimeDuration::Min().Absolute(); } catch (const std::exception&) { refused = true; }
	ENSURES("no magnitude of the least duration", refused);
}

PROOF(C21_time_arithmetic)
{
	const s64 a = ANY(s64), b = ANY(s64), d = ANY(s64);
	REQUIRES(In(a, 4000000000000000ll) && In(b, 4000000000000000ll) && In(d, 4000000000000000000ll));
	const Time t(a), u(b);
	const TimeDuration x = TimeDuration::FromMicroseconds(d);
	ENSURES("distance", (t - u).GetMicroseconds() == (a - b) * 1000);
	ENSURES("later", (t + x).GetMilliseconds() == a + d / 1000);
	ENSURES("earlier", (t - x).GetMilliseconds() == a - d / 1000);
	ENSURES("distance added gives the other instant", u + (t - u) == t && t - (t - u) == u);
	ENSURES("order", (t < u) == (a < b) && (t > u) == (a > b) && (t <= u) == (a <= b) && (t >= u) == (a >= b) && (t == u) == (a == b) && (t != u) == (a != b));
	ENSURES("seconds", t.GetSeconds() == a / 1000);
	if (d >= 0)
	{
		const int c = TimeCmp(x)(t, u);
		const bool near = (a > b ? a - b : b - a) * 1000 <= d;
		ENSURES("comparison with jitter", near ? c == 0 : (a < b ? c < 0 : c > 0));
	}
}

PROOF(C21_time_t)
{
	const u32 s = ANY(u32);
	ENSURES("unix time", Time::FromTimeT(s).GetMilliseconds() == s * 1000ll && Time::FromTimeT(s).ToTimeT() == s);
}

PROOF(C21_time_zone)
{
	const s16 m = ANY(s16);
	bool refused = false;
	s16 r = 0;
	try { r = TimeZone(m).GetMinutesFromUtc(); } catch (const std::exception&) { refused = true; }
	ENSURES("refused outside -12h..+14h", refused == (m < -720 || m > 840));
	if (!refused)
		ENSURES("kept", r == m);
	TimeEngine::SetMinutesFromUtc(m);
	ENSURES("platform offset", TimeEngine::GetMinutesFromUtc() == m);
	if (m >= -720 && m <= 840)
	{
		ENSURES("current zone", TimeZone::Current().GetMinutesFromUtc() == m);
		COVER("valid");
	}
}

PROOF(C21_days_in_month)
{
	const s16 year = ANY(s16);
	const int month = 1 + vc_pick(12);
	const bool leap = year % 4 == 0 && (year % 100 != 0 || year % 400 == 0);
	const int expected = month == 2 ? (leap ? 29 : 28) : month == 4 || month == 6 || month == 9 || month == 11 ? 30 : 31;
	ENSURES("Gregorian month length", BrokenDownTime::GetMaxDaysInMonth(year, month) == expected);
	BrokenDownTime b;
	b.Year = year;
	b.Month = month;
	b.MonthDay = ANY(s16);
	ENSURES("of a broken-down time", b.GetMaxDaysInMonth() == expected);
}

PROOF(C21_days_in_month_refused)
{
	const int month = ANY(s16);
	REQUIRES(month < 1 || month > 12);
	bool refused = false;
	try { BrokenDownTime::GetMaxDaysInMonth(2000, month); } catch (const std::exception&) { refused = true; }
	ENSURES("no such month", refused);
}

PROOF(C21_interval)
{
	const s64 a = ANY(s64), b = ANY(s64);
	REQUIRES(In(a, 4000000000000000ll) && In(b, 4000000000000000ll));
	bool refused = false;
	try { ENSURES("duration", TimeInterval(Time(a), Time(b)).GetDuration().GetMicroseconds() == (b - a) * 1000); } catch (const std::exception&) { refused = true; }
	ENSURES("inverted interval refused", refused == (b < a));
}

PROOF(C21_timespec)
{
	const s64 sec = ANY(s64), nsec = ANY(s64), us = ANY(s64);
	REQUIRES(In(sec, 1000000000000ll) && nsec >= 0 && nsec < 1000000000 && In(us, 1000000000000000000ll));
	timespec t = { sec, nsec };
	posix::timespec_add(&t, TimeDuration::FromMicroseconds(us));
	ENSURES("normal form", t.tv_nsec >= 0 && t.tv_nsec < 1000000000);
	// sec*10^9 + nsec + us*1000, in parts that do not overflow
	const s64 whole = Floor(us, 1000000), part = (us - whole * 1000000) * 1000;
	const s64 carry = nsec + part >= 1000000000 ? 1 : 0;
	ENSURES("exact sum", t.tv_sec == sec + whole + carry && t.tv_nsec == nsec + part - carry * 1000000000);
}

PROOF(C21_timespec_pair)
{
	const s64 s0 = ANY(s64), n0 = ANY(s64), s1 = ANY(s64), n1 = ANY(s64);
	REQUIRES(In(s0, 1000000000000ll) && In(s1, 1000000000000ll) && n0 >= 0 && n0 < 1000000000 && n1 >= 0 && n1 < 1000000000);
	timespec t = { s0, n0 };
	const timespec u = { s1, n1 };
	posix::timespec_add(&t, &u);
	const int c = n0 + n1 >= 1000000000 ? 1 : 0;
	ENSURES("exact sum", t.tv_sec == s0 + s1 + c && t.tv_nsec == n0 + n1 - c * 1000000000ll);
	posix::timespec_sub(&t, &u);
	ENSURES("difference undoes it", t.tv_sec == s0 && t.tv_nsec == n0);
}
