/* C21: serialize_time2str, serialize_str2time, serialize_localtime */
#include "time_stubs.h"
#include "../lib/vstr.h"
#include "/repo/src/voucher/serialize.h"
#include "/repo/src/utils/os.h"

static bool six_eq(const struct tm *a, const struct tm *b) {
  return a->tm_sec == b->tm_sec && a->tm_min == b->tm_min && a->tm_hour == b->tm_hour && a->tm_mday == b->tm_mday && a->tm_mon == b->tm_mon && a->tm_year == b->tm_year;
}
#if WHICH == 0
static void to_text(void) {
  struct tm t; fill_tm(&t);
  struct tm t0 = t;
  char want[DT_LEN + 1];
  v_begin();
  char *s = serialize_time2str(&t);
  v_end();
  ENSURES(tm_eq(&t, &t0), "c21: writing a time does not change it");
  if (tm_4digit(&t)) {
    dt_text(want, &t);
    if (s == NULL) { ENSURES(g_oom, "c21: a four-digit-year time is refused only for lack of memory"); return; }
    REACH("c21 time text");
    bool same = true;
    for (int i = 0; i <= DT_LEN; i++) same = same && s[i] == want[i];
    ENSURES(same, "c21: the text is YYYY-MM-DDTHH:MM:SSZ");
    struct tm back; fill_tm(&back);
    v_begin();
    int r = serialize_str2time(s, &back);
    v_end();
    ENSURES(r == 0, "c21: the text of a time is accepted");
    ENSURES(six_eq(&back, &t), "c21: the text reads back field for field");
  }
  free(s);
  NO_LEAK("c21: writing a time leaks nothing");
}
#elif WHICH == 1
static void from_text(void) {
  bool ns = nd_bool(), nt = nd_bool();
  char *s = mk_cstr();
  struct tm t; fill_tm(&t);
  v_begin();
  int r = serialize_str2time(ns ? NULL : s, nt ? NULL : &t);
  v_end();
  ENSURES(r == 0 || r < 0, "c21: reading a time returns 0 or a negative value");
  if (r == 0) {
    REACH("c21 time read");
    ENSURES(!ns && !nt && g_strptime == 1 && g_strptime_ok && g_strptime_s == s, "c21: only text that is a date-time is accepted");
    ENSURES(six_eq(&t, &g_strptime_tm), "c21: the fields are those of the text");
    ENSURES(t.tm_isdst == 0 && t.tm_gmtoff == 0, "c21: nothing of the previous content survives");
  } else {
    REACH("c21 time refused");
    ENSURES(ns || nt || (g_strptime == 1 && !g_strptime_ok), "c21: text that is a date-time is accepted");
  }
  NO_LEAK("c21: reading a time leaks nothing");
}
#else
static void local(void) {
  v_begin();
  char *s = serialize_localtime();
  v_end();
  if (s != NULL) { REACH("c21 local time"); ENSURES(g_strftime == 1, "c21: the local time is written as a date-time"); }
  else ENSURES(g_oom || g_depfail || g_strftime == 1, "c21: local time refused only when a step failed");
  free(s);
  NO_LEAK("c21: local time leaks nothing");
}
#endif
void harness(void) {
  g_k = nd_size();
#if WHICH == 0
  to_text();
#elif WHICH == 1
  from_text();
#else
  local();
#endif
}
