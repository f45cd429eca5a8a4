package mc;

import io.fastprintf.FastPrintf;
import io.fastprintf.seq.Seq;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.LocalTime;
import java.time.OffsetDateTime;
import java.time.ZoneId;
import java.time.ZoneOffset;
import java.util.ArrayList;
import java.util.Date;
import java.util.List;

/** A broad slice of all conversions; run inside child JVMs by C17 and C18. */
final class Probe extends Check {

  static final Object[] DATES = {
    LocalDate.of(2024, 2, 29), LocalDateTime.of(1999, 12, 31, 23, 59, 58, 7_000_000), OffsetDateTime.of(2024, 6, 1, 1, 2, 3, 0, ZoneOffset.ofHours(-5)),
    OffsetDateTime.of(2024, 6, 1, 1, 2, 3, 0, ZoneOffset.UTC).atZoneSameInstant(ZoneId.of("Asia/Tokyo")), Instant.ofEpochSecond(1700000000L, 5), new Date(86400000L * 200),
    0, -1, 4294967295L, 4294967296L, 1700000000000L, new Ref.Prim(1000000000), new java.sql.Timestamp(123456789012L), LocalTime.NOON
  };

  static final String[] PATTERNS = {
    "", "{yyyy-MM-dd}", "{uuuuMMdd}", "{HH:mm:ss.SSS}", "{D 'of' yy}", "{xxx}", "{Y-'W'ww-e}", "{n}", "{''}"
  };

  @Override
  void define() {
    final List<Corpus.Item> items = new ArrayList<>(Corpus.items());
    items.addAll(Corpus.failing());
    phase(
        "corpus",
        items.size() + " formats x 10 formatter variants",
        p -> {
          Corpus.Item it = p.pick(items);
          int var = p.choose(C10.VARIANTS);
          Ref.Out want = it.want();
          Ref.Out got = Impl.run(C10.variant(FastPrintf.compile(it.fmt), var), it.args);
          p.trace();
          p.state(it.fmt + var, got);
          if (!Impl.agrees(want, got)) p.fail(it + " variant " + var + " gave " + got + ", model says " + want);
        });
    final long[] mant = Values.mantissas(false);
    final String[] floats = {"%.17e", "%f", "%.0f", "%g", "%#.3g", "%a", "%.3a", "%030.2E"};
    phase(
        "doubles",
        "all 2047 binades x " + mant.length / 8 + " mantissas x 8 directives (large ones without fixed notation)",
        p -> {
          int e = p.choose(2047);
          long m = mant[p.choose(mant.length / 8) * 8 + (e & 7)];
          int k = p.choose(floats.length);
          if ((e < 900 || e > 1200) && (k == 1 || k == 2 || k == 7)) k = 0;
          double v = Double.longBitsToDouble((long) e << 52 | m);
          Impl.check(p, floats[k], (e & 1) == 0 ? v : -v);
        });
    phase(
        "padding",
        "all widths and precisions 1..80, 127..129, 255..257, 1023..1025, 65535, 65536 x 10 directives x plain and through %S",
        p -> {
          int n = p.choose(91);
          int w = n < 80 ? n + 1 : new int[] {127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 65535, 65536}[n - 80];
          String fmt = p.pick(new String[] {"%~d", "%-~d|", "%0~d", "%~s", "%-~S|", "%0~f", "%.~d", "%#.~x", "%.~f", "%~p"}).replace("~", "" + w);
          char c = fmt.charAt(fmt.length() - 1) == '|' ? fmt.charAt(fmt.length() - 2) : fmt.charAt(fmt.length() - 1);
          Impl.check(p, fmt, c == 'f' ? (Object) 1.5 : c == 's' || c == 'S' ? "ab" : c == 'p' ? C07.POINTEE : (Object) 5);
        });
    phase(
        "repeated text",
        "Seq.repeated of 12 chars x counts 1..40, 100, 65536 x s,S,.5s",
        p -> {
          int n = p.choose(42);
          int count = n < 40 ? n + 1 : n == 40 ? 100 : 65536;
          char c = p.pick(new Character[] {'a', 'Z', '0', ' ', 'é', 'ÿ', '一', '\u0000', '\ud83d', '\ude00', '￿', 'Ā'});
          Impl.check(p, p.pick(new String[] {"%s", "%S", "%.5s", "%50s"}), Seq.repeated(c, count));
        });
    final List<BigInteger> ints = Values.integers(64, 1, false);
    phase(
        "integers",
        ints.size() + " values x 6 conversions x 4 types x 8 layouts",
        p -> {
          BigInteger b = p.pick(ints);
          Object v;
          switch (p.choose(4)) {
            case 0:
              v = b.longValue();
              break;
            case 1:
              v = new Ref.Prim(b.intValue());
              break;
            case 2:
              v = b;
              break;
            default:
              v = b.shortValue();
          }
          Impl.check(p, "%" + p.pick(new String[] {"", "+", " 24", "024", "#", "#.9", "-24.12", "#024"}) + "duxXos".charAt(p.choose(6)), v);
        });
    phase(
        "text",
        "texts of 0..40 chars in 12 kinds x s,S,%30s,%.7S",
        p -> {
          int len = p.choose(41);
          char[] a = new char[len];
          for (int i = 0; i < len; i++) a[i] = "aZiIıİß9ÿ一".charAt(i * 7 % 10);
          Impl.check(p, p.pick(new String[] {"%s", "%S", "%30s", "%.7S"}), C06.dress(p.choose(C06.KINDS), new String(a)));
        });
    phase(
        "decimals",
        "BigDecimals: 10 digit strings x scales -12..25 x 9 directives",
        p -> {
          String d = p.pick(new String[] {"0", "1", "5", "15", "95", "995", "9999995", "12345678", "-25", "123456789012345678901234567890"});
          int scale = p.choose(38) - 12;
          Impl.check(p, p.pick(new String[] {"%f", "%.0f", "%.2f", "%e", "%.0e", "%g", "%#g", "%.3G", "%s"}), new BigDecimal(new BigInteger(d), scale));
        });
    phase(
        "dates",
        DATES.length + " date arguments x " + PATTERNS.length + " patterns x t,T,%40t,%-40T",
        p -> {
          Object v = p.pick(DATES);
          String pat = p.pick(PATTERNS);
          String[] d = {"%t", "%T", "%40t", "%-40T"};
          Impl.check(p, p.pick(d) + pat + "|", v);
        });
    phase(
        "matrix",
        "16 argument kinds x 21 conversions",
        p -> {
          Object v = p.pick(new Object[] {null, true, 'x', (byte) -1, (short) -1, -1, -1L, 1.5f, 2.5, "12", "1e3", "x", BigInteger.TEN, BigDecimal.ONE, new Date(5), C07.POINTEE});
          Impl.check(p, "%" + "diuoxXfFeEgGaAcsStTnp".charAt(p.choose(21)), v);
        });
    phase(
        "syntax",
        "all strings of 1..4 chars over %, digits, letters and flags",
        p -> {
          String al = "%ds5.*-0#t{}";
          int n = p.choose(4) + 1;
          StringBuilder b = new StringBuilder();
          for (int i = 0; i < n; i++) b.append(al.charAt(p.choose(al.length())));
          Impl.check(p, b.toString(), 3, 4, 5, 6, 7, 8);
        });
  }
}
