// Calendar and clock conversions.  param 0: 0 ymd round trip, 1 ymd order, 2 scalar round trip, 3 hms, 4 time scalar, 5 ISO date text, 6 ISO time text; 1,2: year range
#include "g.h"
static const int ML[] = {31,28,31,30,31,30,31,31,30,31,30,31};
static int mlen(int64_t y, int m) { int r = 0; for (int i = 0; i < 12; i++) if (m == i + 1) r = ML[i]; if (m == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0)) r = 29; return r; }
static int valid(int64_t y, int64_t m, int64_t d) { return y >= 1 && m >= 1 && m <= 12 && d >= 1 && d <= mlen(y, m); }
// days before year y, month m (independent of the code's formulas)
static int Y0, Y1, YS;
static int year(void) { return Y0 + YS * sym_choose("year", (Y1 - Y0) / YS + 1); }     // one path per year, all days of it at once
static int month(void) { static const int64_t M[] = {1,2,3,4,5,6,7,8,9,10,11,12}; return (int)sym_pick("month", M, 12); }
void sym_main(void) {
  void *db = wg_attach_local_database(500000); int mode = sym_param(0, 0); int lo = sym_param(1, 1), hi = sym_param(2, 9999); Y0 = lo; Y1 = hi; YS = sym_param(3, 1);
  if (mode == 0) {
    int inv = sym_choose("invalid", 2), y, m, d;
    if (inv) { y = (int)sym_bits("yr", 32); m = (int)sym_bits("mo", 32); d = (int)sym_bits("day", 32); sym_assume(!(y >= 1 && y <= 22787 && m >= 1 && m <= 12 && d >= 1 && d <= 28)); if (y > 22787) { int r = wg_ymd_to_date(db, y, m, d); sym_assert(r == -1 || y <= 22789, "a year beyond the supported range is accepted"); return; } if (y >= 1 && m >= 1 && m <= 12 && d >= 1 && d <= 31) { return; } }
    else { y = year(); m = month(); d = (int)sym_range("day", 1, 31); }
    int r = wg_ymd_to_date(db, y, m, d); sym_observe(r);
    if (!valid(y, m, d)) { sym_assert(r == -1, "an invalid date is accepted"); sym_cover(1); return; }
    sym_assert(r >= 1, "a valid date is rejected");
    int y2, m2, d2; wg_date_to_ymd(db, r, &y2, &m2, &d2); sym_assert(y2 == y && m2 == m && d2 == d, "a date does not survive conversion"); sym_cover(0);
    gint e = wg_encode_date(db, r); sym_assert(e != WG_ILLEGAL && wg_decode_date(db, e) == r, "a date does not survive encoding");
  } else if (mode == 1) {
    int y = year(), m = month(), d = (int)sym_range("day", 1, 31); sym_assume(valid(y, m, d));
    int last = d == mlen(y, m), ly = last && m == 12; int y2 = ly ? y + 1 : y, m2 = ly ? 1 : last ? m + 1 : m, d2 = last ? 1 : d + 1;
    int a = wg_ymd_to_date(db, y, m, d), b = wg_ymd_to_date(db, y2, m2, d2);
    sym_assert(b == a + 1, "consecutive days do not have consecutive numbers"); sym_cover(0);
    sym_assert(wg_ymd_to_date(db, 1, 1, 1) == 1 && wg_ymd_to_date(db, 2010, 1, 1) == 733773, "the calendar has a wrong origin");
    sym_observe(b);
  } else if (mode == 2) {
    int y0 = year(); int s = wg_ymd_to_date(db, y0, 1, 1) + (int)sym_range("doy", 0, 364), y, m, d; wg_date_to_ymd(db, s, &y, &m, &d);
    sym_assert(valid(y, m, d), "a day number converts to no calendar date"); sym_assert(wg_ymd_to_date(db, y, m, d) == s, "a day number does not survive conversion");
    sym_observe(y * 10000 + m * 100 + d); sym_cover(0);
  } else if (mode == 3) {
    int inv = sym_choose("which", 6), h = (int)sym_range("hr", 0, 23), m = (int)sym_range("min", 0, 59), s = (int)sym_range("sec", 0, 59), p = (int)sym_range("prt", 0, 99);
    int x = (int)sym_bits("any", 32), mx = inv == 1 ? 24 : inv == 4 ? 99 : 59; sym_assume(x < 0 || x > mx);
    if (inv == 1) h = x; else if (inv == 2) m = x; else if (inv == 3) s = x; else if (inv == 4) p = x; else if (inv == 5) h = 24;
    int r = wg_hms_to_time(db, h, m, s, p); sym_observe(r);
    int ok = h >= 0 && h < 24 && m >= 0 && m < 60 && s >= 0 && s < 60 && p >= 0 && p < 100, end = h == 24 && m == 0 && s == 0 && p == 0;
    if (!ok && !end) { sym_assert(r == -1, "an invalid time is accepted"); sym_cover(1); return; }
    sym_assert(r == h * 360000 + m * 6000 + s * 100 + p, "a valid time is encoded wrongly or rejected");
    int h2, m2, s2, p2; wg_time_to_hms(db, r, &h2, &m2, &s2, &p2); sym_assert(h2 == h && m2 == m && s2 == s && p2 == p, "a time does not survive conversion");
    gint e = wg_encode_time(db, r); sym_assert(e != WG_ILLEGAL && wg_decode_time(db, e) == r, "a time does not survive encoding"); sym_cover(0);
  } else if (mode == 4) {
    int s = (int)sym_range("t", 0, 8640000), h, m, x, p; wg_time_to_hms(db, s, &h, &m, &x, &p);
    sym_assert(h >= 0 && h <= 24 && m >= 0 && m < 60 && x >= 0 && x < 60 && p >= 0 && p < 100, "a time number converts to no time of day");
    sym_assert(wg_hms_to_time(db, h, m, x, p) == s, "a time number does not survive conversion"); sym_cover(0); sym_observe(h);
  } else if (mode == 5) {        // text with any month and day digits
    static int MV[] = {0, 1, 2, 4, 10, 12, 13}; static char *YT[] = {"0001", "0000", "1900", "2000", "2023", "2024", "9999"}; char b[32]; int k = sym_choose("year", 7); strcpy(b, YT[k]); strcat(b, "-00-00T00:00:00.00"); int y = atoi(YT[k]), v[2] = {0, 0};
    for (int i = 0; i < 2; i++) { v[i] = i ? (int)sym_range("two", 0, 99) : MV[sym_choose("month", 7)]; b[5 + 3 * i] = '0' + v[i] / 10; b[6 + 3 * i] = '0' + v[i] % 10; }
    int m = v[0], d = v[1], r = wg_strp_iso_date(db, b); sym_observe(r);
    if (!valid(y, m, d)) { sym_assert(r == -1, "a text that is no date is accepted"); sym_cover(1); return; }
    sym_assert(r == wg_ymd_to_date(db, y, m, d), "a date is read wrongly"); sym_cover(0);
    char o[40]; int n = wg_strf_iso_datetime(db, r, 0, o); sym_assert(n == 22, "a date prints with a wrong length"); int same = 1; for (int i = 0; i < 22; i++) same &= o[i] == b[i]; sym_assert(same, "a date does not survive printing");
  } else {                       // one of the four fields arbitrary
    char b[32] = "00:00:00.00"; static const int FIX[] = {13, 7, 41, 96}; int v[4], f = sym_choose("field", 4), late = sym_choose("late", 2);
    for (int k = 0; k < 4; k++) { v[k] = k == f ? (int)sym_range("two", 0, 99) : late ? (k ? 0 : 24) : FIX[k]; b[k * 3] = '0' + v[k] / 10; b[k * 3 + 1] = '0' + v[k] % 10; }
    int r = wg_strp_iso_time(db, b); sym_observe(r);
    int ok = (v[0] < 24 && v[1] < 60 && v[2] < 60) || (v[0] == 24 && !v[1] && !v[2] && !v[3]);
    if (!ok) { sym_assert(r == -1, "a text that is no time is accepted"); sym_cover(1); return; }
    sym_assert(r == v[0] * 360000 + v[1] * 6000 + v[2] * 100 + v[3], "a time is read wrongly"); sym_cover(0);
    char o[40]; wg_strf_iso_datetime(db, 1, r, o); int same = 1; for (int i = 0; i < 11; i++) same &= o[11 + i] == b[i]; sym_assert(same, "a time does not survive printing");
  }
}
