package mc;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.math.BigInteger;
import java.sql.Timestamp;
import java.time.DayOfWeek;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.LocalTime;
import java.time.Month;
import java.time.MonthDay;
import java.time.OffsetDateTime;
import java.time.OffsetTime;
import java.time.Year;
import java.time.YearMonth;
import java.time.ZoneId;
import java.time.ZoneOffset;
import java.time.ZonedDateTime;
import java.time.chrono.JapaneseDate;
import java.time.chrono.ThaiBuddhistDate;
import java.time.temporal.ChronoField;
import java.time.temporal.TemporalAccessor;
import java.time.temporal.TemporalField;
import java.util.ArrayList;
import java.util.Calendar;
import java.util.Date;
import java.util.GregorianCalendar;
import java.util.List;
import java.util.Locale;
import java.util.TimeZone;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;

/** %t and %T. */
final class C19 extends Check {

  private static final FastPrintf ANY_DATE = FastPrintf.compile("%t");

  /** A date that is none of the JDK's. */
  static final class OwnDate implements TemporalAccessor {
    @Override
    public boolean isSupported(TemporalField f) {
      return f == ChronoField.YEAR || f == ChronoField.MONTH_OF_YEAR;
    }

    @Override
    public long getLong(TemporalField f) {
      if (f == ChronoField.YEAR) return 1987;
      if (f == ChronoField.MONTH_OF_YEAR) return 6;
      throw new java.time.temporal.UnsupportedTemporalTypeException("no " + f);
    }
  }

  private static Calendar calendar(String zone, long millis) {
    Calendar c = new GregorianCalendar(TimeZone.getTimeZone(zone), Locale.ROOT);
    c.setTimeInMillis(millis);
    return c;
  }

  static List<Object> arguments() {
    List<Object> l = new ArrayList<>();
    LocalDate[] days = {LocalDate.of(2024, 2, 29), LocalDate.of(1, 1, 1), LocalDate.of(0, 12, 31), LocalDate.of(-44, 3, 15), LocalDate.of(9999, 12, 31), LocalDate.of(10000, 1, 1), LocalDate.MIN, LocalDate.MAX};
    LocalTime[] times = {LocalTime.MIDNIGHT, LocalTime.MAX, LocalTime.of(1, 2, 3), LocalTime.of(13, 4), LocalTime.of(0, 0, 0, 120_000_000), LocalTime.of(23, 59, 59, 1000)};
    for (LocalDate d : days) l.add(d);
    for (int i = 0; i < days.length; i++) l.add(LocalDateTime.of(days[i], times[i % times.length]));
    for (LocalTime t : times) l.add(LocalDateTime.of(2023, 11, 5, t.getHour(), t.getMinute(), t.getSecond(), t.getNano()));
    for (int o : new int[] {0, 3600, -18000, 20700, 64800, -64800, 45, -3661}) {
      l.add(OffsetDateTime.of(2024, 6, 1, 1, 2, 3, 0, ZoneOffset.ofTotalSeconds(o)));
      l.add(ZonedDateTime.of(1999, 12, 31, 23, 59, 59, 999_000_000, ZoneOffset.ofTotalSeconds(o)));
    }
    for (String z : new String[] {"UTC", "Europe/Paris", "America/New_York", "Asia/Kathmandu", "Pacific/Apia", "GMT+2"}) {
      l.add(ZonedDateTime.of(2024, 3, 31, 2, 30, 0, 0, ZoneId.of(z)));
      l.add(ZonedDateTime.of(1890, 1, 1, 0, 0, 0, 0, ZoneId.of(z)));
    }
    for (long s : new long[] {0, 1, -1, 1700000000L, 4294967295L, 4294967296L, -2208988800L, 253402300800L}) {
      l.add(Instant.ofEpochSecond(s));
      l.add(Instant.ofEpochSecond(s, 123456789));
      l.add(new Date(s * 1000 + 7));
      l.add(calendar("Asia/Tokyo", s * 1000 + 12));
      l.add(new Timestamp(s * 1000 + 250));
      l.add(new java.sql.Date(s * 1000));
      l.add(new java.sql.Time(s * 1000));
    }
    l.add(times[2]);
    l.add(OffsetTime.of(1, 2, 3, 4, ZoneOffset.ofHours(3)));
    l.add(Year.of(2020));
    l.add(YearMonth.of(2020, 7));
    l.add(MonthDay.of(7, 4));
    l.add(Month.MAY);
    l.add(DayOfWeek.FRIDAY);
    l.add(ZoneOffset.ofHours(2));
    l.add(JapaneseDate.of(2024, 5, 6));
    l.add(ThaiBuddhistDate.of(2567, 5, 6));
    l.add(new OwnDate());
    // numbers and things that are no dates
    for (long v : new long[] {0, 1, -1, 59, 86400, 2147483647L, 2147483648L, 4294967294L, 4294967295L, 4294967296L, 4294967297L, 1700000000000L, Long.MAX_VALUE, Long.MIN_VALUE, -4294967296L}) {
      l.add(v);
      l.add(new Ref.Prim(v));
      l.add((int) v);
      l.add(new Ref.Prim((int) v));
      l.add(BigInteger.valueOf(v));
      l.add(new AtomicLong(v));
    }
    l.add(new AtomicInteger(5));
    l.add((byte) 5);
    l.add((short) 5);
    l.add(new Ref.Prim((byte) 5));
    l.add(new Ref.Prim((short) 5));
    l.add(5f);
    l.add(5d);
    l.add(new java.math.BigDecimal(5));
    l.add("2024-02-29");
    l.add("5");
    l.add(new StringBuilder("2024-02-29"));
    l.add('5');
    l.add(true);
    l.add(new Ref.Prim(true));
    l.add(null);
    l.add(new Object());
    l.add(new int[] {1});
    return l;
  }

  @Override
  void define() {
    final List<Object> args = arguments();
    final String alpha = "yH'{}: %";
    final int max = thorough ? 7 : 6;
    phase(
        "all patterns",
        "all format strings %t{p} with p of length 0.." + max + " over the 8 chars \"" + alpha + "\" x closed or open x 2 arguments",
        p -> {
          int root = p.choose(64);
          int n = p.choose(max + 1);
          StringBuilder b = new StringBuilder("%t{");
          for (int i = 0; i < n; i++) b.append(alpha.charAt(i == 0 ? root / 8 : i == 1 ? root % 8 : p.choose(8)));
          if (n < 2 && root != 0 && (n == 0 || root % 8 != 0)) return;
          boolean open = p.flip();
          if (!open) b.append("}z");
          Impl.check(p, b.toString(), LocalDateTime.of(2024, 2, 29, 13, 5));
          Impl.check(p, "%d" + b, 1, LocalDate.of(2024, 2, 29), 3);
        });
    final List<String> letters = new ArrayList<>();
    for (char c = 'A'; c <= 'z'; c++) {
      if (c > 'Z' && c < 'a') continue;
      StringBuilder b = new StringBuilder();
      for (int k = 0; k < 10; k++) letters.add(b.append(c).toString());
    }
    phase(
        "every pattern letter",
        "52 letters repeated 1..10 x " + args.size() + " arguments x t,T",
        p -> {
          String pat = p.pick(letters);
          Object v = p.pick(args);
          Impl.check(p, (p.flip() ? "%T{" : "%t{") + pat + "}", v);
        });
    final String[] pats = {
      "", "{yyyy-MM-dd}", "{uuuu-MM-dd'T'HH:mm:ss.SSSXXX}", "{'}'yy'{'}", "{''yy''}", "{'it''s' HH}", "{EEEE, d MMMM uuuu}", "{hh:mm a}", "{[HH:mm][ z]}", "{yyyy%MM}", "{#}", "{VV}", "{e}", "{G}", "{'a literal, longer than sixteen chars'}"
    };
    final String[] lays = {"", "1", "8", "10", "11", "25", "26", "40", "-40", "040", "+#- 040", ".3", "40.3", "-12.0", "0"};
    phase(
        "arguments",
        args.size() + " arguments x " + pats.length + " patterns x " + lays.length + " layouts x t,T",
        p -> {
          Object v = p.pick(args);
          String lay = p.pick(lays);
          Impl.check(p, "<%" + lay + (p.flip() ? "T" : "t") + p.pick(pats) + ">", v);
        });
    phase(
        "star layouts",
        args.size() + " arguments x star widths -30, 0, 30 and precisions",
        p -> {
          Object v = p.pick(args);
          int w = p.pick(new int[] {-30, 0, 30, 12});
          int q = p.pick(new int[] {-1, 0, 4});
          Impl.check(p, "%*.*t|%*T{uuuu}|%t", w, q, v, w, v, v);
        });
    final String[] zones = {"UTC", "America/New_York", "Asia/Kolkata", "Pacific/Apia", "Europe/London", "GMT-11:30", "Australia/Lord_Howe", "Africa/Monrovia"};
    final long[] secs = new long[128];
    for (int i = 0; i < 64; i++) {
      secs[2 * i] = i < 34 ? (1L << i) - 1 : 1700000000L + i * 1234567L;
      secs[2 * i + 1] = i < 40 ? (1L << i) : 1700000000L + i * 9876543L;
    }
    sequentialPhase(
        "default zones",
        zones.length + " default zones x " + secs.length + " instants as Instant, Date, Calendar, int, long, and every argument, with and without pattern",
        p -> {
          TimeZone old = TimeZone.getDefault();
          String z = p.pick(zones);
          TimeZone.setDefault(TimeZone.getTimeZone(z));
          try {
            int i = p.choose(secs.length + args.size());
            if (i < secs.length) {
              long s = secs[i];
              Impl.check(p, "%t %t %t %t %t %t{'x'}", Instant.ofEpochSecond(s), new Date(s * 1000), calendar("Asia/Tokyo", s * 1000 + 999), s, (int) s, s);
              Impl.check(p, "%t", s * 1000);
            } else {
              Impl.check(p, "%t", args.get(i - secs.length));
            }
          } finally {
            TimeZone.setDefault(old);
          }
        });
    final String[] allZones = ZoneId.getAvailableZoneIds().toArray(new String[0]);
    java.util.Arrays.sort(allZones);
    sequentialPhase(
        "changes of offset",
        allZones.length + " default allZones x every change of offset 1850..2040 x 8 moments around it, as Instant, Date and number",
        p -> {
          String id = p.pick(allZones);
          java.time.zone.ZoneRules rules = ZoneId.of(id).getRules();
          TimeZone old = TimeZone.getDefault();
          try {
            TimeZone.setDefault(TimeZone.getTimeZone(ZoneId.of(id)));
            ZoneId zone = ZoneId.systemDefault();
            Instant at = Instant.parse("1850-01-01T00:00:00Z");
            Instant end = Instant.parse("2040-01-01T00:00:00Z");
            for (java.time.zone.ZoneOffsetTransition c; (c = rules.nextTransition(at)) != null; ) {
              at = c.getInstant();
              if (at.isAfter(end)) break;
              for (int d : new int[] {-3600, -1, 0, 1, 900, 1800, 2700, 3599}) {
                Instant i = at.plusSeconds(d);
                String want = i.atZone(zone).format(java.time.format.DateTimeFormatter.ISO_OFFSET_DATE_TIME);
                Object[] same = i.getEpochSecond() >= 0 && i.getEpochSecond() < 1L << 32 ? new Object[] {i, java.util.Date.from(i), i.getEpochSecond()} : new Object[] {i, java.util.Date.from(i)};
                for (Object v : same) {
                  String got = ANY_DATE.format(Args.of(v));
                  p.trace();
                  if (!got.equals(want)) p.fail("%t of " + v.getClass().getSimpleName() + " " + i + " in " + zone + " gave " + got + " instead of " + want);
                }
              }
            }
            p.state(id, at.hashCode());
          } finally {
            TimeZone.setDefault(old);
          }
        });
    phase(
        "every day and minute",
        "every day of 1896..2104 and every minute of a day with 5 nano values, default and explicit patterns",
        p -> {
          int k = p.choose(209 + 24);
          if (k < 209) {
            LocalDate d = LocalDate.of(1896 + k, 1, 1).plusDays(p.choose(366));
            Impl.check(p, "%t|%T{D e uuuuMMdd}|%12t", d, d, d);
          } else {
            LocalDateTime t = LocalDateTime.of(2024, 1, 1, k - 209, p.choose(60), p.pick(new int[] {0, 9, 59}), p.pick(new int[] {0, 1, 1000, 10_000_000, 999_999_999}));
            Impl.check(p, "%t|%t{HH:mm:ss.n}|%t|%t", t, t, t.atOffset(ZoneOffset.ofHoursMinutes(5, 45)), t.atZone(ZoneId.of("America/Sao_Paulo")));
          }
        });
    assumptions.add("java.time.format.DateTimeFormatter decides what a pattern means. Numbers beyond long are outside the property.");
  }
}
