// Assumed contracts of libc's calendar functions (gmtime_r, timegm), as ghost state over arbitrary values:
//   gmtime_r(t): seconds, minutes and hours are those of t modulo a day, weekday that of the day number (day 0 is a Thursday);
//                the date fields are a function of the day number (arbitrary otherwise, month 0..11, day 1..31, year within the range below)
//   timegm(tm):  for a year and month gmtime_r has delivered, the day number is that of the delivered day plus the difference of the days of month;
//                arbitrary otherwise; never fails (16 bit fields cannot overflow 64 bit seconds)
// What is not assumed: which dates they are.  The real functions are used when a counterexample is replayed.
#include <vc.h>
#include <time.h>
#include <errno.h>
struct GhostDay { long long day; int year, mon, mday, yday, wday; };
static GhostDay Ghost[4];
static int GhostSize = 0;
// arbitrary v in lo..hi
static long long Within(long long lo, long long hi) { const long long v = (long long)vc_ghost(64); vc_assume(v >= lo && v <= hi); return v; }
extern "C" struct tm* gmtime_r(const time_t* t, struct tm* r)
{
	const long long day = Within(-30000000, 30000000), hour = Within(0, 23), minute = Within(0, 59), second = Within(0, 59);
	vc_assume(day * 86400 + hour * 3600 + minute * 60 + second == *t);
	int i = 0;
	while (i < GhostSize && Ghost[i].day != day)
		++i;
	if (i == GhostSize)
	{
		GhostDay& g = Ghost[GhostSize++];
		g.day = day;
		g.year = Within(-30000, 30000); g.mon = Within(0, 11); g.mday = Within(1, 31); g.yday = Within(0, 365);
		const long long week = Within(-5000000, 5000000), weekDay = Within(0, 6);
		vc_assume(week * 7 + weekDay == day + 4);
		g.wday = weekDay;
		for (int k = 0; k < i; ++k)
			if (Ghost[k].year == g.year && Ghost[k].mon == g.mon)
				vc_assume(g.mday - Ghost[k].mday == day - Ghost[k].day);
	}
	r->tm_sec = second;
	r->tm_min = minute;
	r->tm_hour = hour;
	r->tm_mday = Ghost[i].mday;
	r->tm_mon = Ghost[i].mon;
	r->tm_year = Ghost[i].year;
	r->tm_yday = Ghost[i].yday;
	r->tm_wday = Ghost[i].wday;
	r->tm_isdst = 0;
	return r;
}
extern "C" time_t timegm(struct tm* t)
{
	long long day = 0;
	bool known = false;
	for (int i = 0; i < GhostSize && !known; ++i)
		if (Ghost[i].year == t->tm_year && Ghost[i].mon == t->tm_mon)
		{
			day = Ghost[i].day + (t->tm_mday - Ghost[i].mday);
			known = true;
		}
	if (!known)
	{
		day = Within(-30000000, 30000000);
	}
	return day * 86400 + (long long)t->tm_hour * 3600 + (long long)t->tm_min * 60 + t->tm_sec;
}
