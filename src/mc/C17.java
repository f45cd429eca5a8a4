package mc;

import io.fastprintf.FastPrintf;
import java.time.ZoneId;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Comparator;
import java.util.List;
import java.util.Locale;
import java.util.TimeZone;
import java.util.TreeSet;

/** Default locale and zone do not matter. */
final class C17 extends Check {

  private static final String[] HOSTILE = {
    "th-TH-u-ca-buddhist-nu-thai", "ar-EG-u-nu-arab", "hi-IN-u-nu-deva", "fa-IR-u-nu-arabext", "my-MM-u-nu-mymr", "ja-JP-u-ca-japanese", "ja-JP-x-lvariant-JP",
    "th-TH-x-lvariant-TH", "tr-TR", "az-AZ", "lt-LT", "el-GR", "de-CH", "fr-CA", "en-IN", "sv-SE", "ne-NP-u-nu-deva", "bn-BD-u-nu-beng", "und", "zz-ZZ"
  };

  private final List<Corpus.Item> items = new ArrayList<>();
  private final List<Ref.Out> wants = new ArrayList<>();
  private final List<FastPrintf> early = new ArrayList<>();

  private static boolean zoneDependent(Corpus.Item it) {
    if (it.fmt.indexOf('t') < 0 && it.fmt.indexOf('T') < 0) return false;
    for (Object a : it.args) {
      Object v = a instanceof Ref.Prim ? ((Ref.Prim) a).boxed : a;
      if (v instanceof java.time.Instant || v instanceof java.util.Date || v instanceof java.util.Calendar || v instanceof Number) return true;
    }
    return false;
  }

  private void compare(Explorer.Path p, int i, String env) {
    Corpus.Item it = items.get(i);
    Ref.Out want = wants.get(i);
    if (want == null) want = it.want();
    FastPrintf now = FastPrintf.compile(it.fmt);
    for (int k = 0; k < 2; k++) {
      Ref.Out got = Impl.run(k == 0 ? early.get(i) : now, it.args);
      p.trace();
      if (!Impl.agrees(want, got)) {
        p.fail(it + " under " + env + (k == 0 ? " set after" : " set before") + " compiling gave " + got + ", expected " + want);
      }
      if (k == 1) p.state(it.fmt + env, got);
    }
  }

  @Override
  void define() {
    final Locale l0 = Locale.getDefault();
    final TimeZone z0 = TimeZone.getDefault();
    Locale.setDefault(Locale.ROOT);
    TimeZone.setDefault(TimeZone.getTimeZone("UTC"));
    try {
      for (Corpus.Item it : Corpus.items()) add(it);
      for (String f : new String[] {"%d", "%,d".replace(",", ""), "%020d", "%i", "%u", "%x", "%X", "%o", "%f", "%.2f", "%e", "%G", "%a", "%s", "%S", "%c"}) {
        for (Object v : new Object[] {1234567, -1234567890123L, (byte) -9, 1234567.891, -0.5, 1e20}) add(new Corpus.Item(f, v));
      }
      for (Object v : new Object[] {new java.math.BigInteger("123456789012345678901"), new java.math.BigDecimal("-1234567.125")}) {
        for (String f : new String[] {"%s", "%f", "%e", "%g", "%15.1f"}) add(new Corpus.Item(f, v));
      }
      for (String s : new String[] {"title iI", "istanbul İı ß ŉ ΐ ﬁ", "ŞIĞ şığ"}) {
        for (Object v : new Object[] {s, new StringBuilder(s), s.toCharArray(), new C06.Own(s)}) {
          add(new Corpus.Item("%S", v));
          add(new Corpus.Item("%s", v));
        }
      }
      for (Object v : Probe.DATES) {
        for (String pat : Probe.PATTERNS) {
          if (!pat.contains("Y")) add(new Corpus.Item("%T" + pat, v));
        }
      }
      for (String text : new String[] {"'in i'", "'title iI istanbul'uuuu", "'ı ß ŉ é'uuuu", "'İı'MM"}) {
        for (String f : new String[] {"%T{P}", "%t{P}", "%30T{P}|", "%-3T{P}"}) add(new Corpus.Item(f.replace("P", text), java.time.LocalDate.of(2024, 2, 29)));
      }
      add(new Corpus.Item("%X %A %E %G %F", 0xabcdef, 0.1, 1e-9, 1e-9, Double.POSITIVE_INFINITY));
      add(new Corpus.Item("%d %f", "12", "1.5"));
    } finally {
      Locale.setDefault(l0);
      TimeZone.setDefault(z0);
    }

    final List<Locale> locales = new ArrayList<>();
    for (String h : HOSTILE) locales.add(Locale.forLanguageTag(h));
    Locale[] all = Locale.getAvailableLocales();
    Arrays.sort(all, Comparator.comparing(Locale::toLanguageTag));
    locales.addAll(Arrays.asList(all));
    sequentialPhase(
        "locales",
        locales.size() + " locales x {all, format, display category} for the " + HOSTILE.length + " hostile ones x " + items.size() + " formats compiled before and after the change",
        p -> {
          int li = p.choose(locales.size());
          Locale l = locales.get(li);
          int cat = li < HOSTILE.length ? p.choose(3) : 0;
          Locale.setDefault(Locale.ROOT);
          if (cat == 0) Locale.setDefault(l);
          else Locale.setDefault(cat == 1 ? Locale.Category.FORMAT : Locale.Category.DISPLAY, l);
          try {
            for (int i = 0; i < items.size(); i++) compare(p, i, "locale " + l.toLanguageTag() + " (" + cat + ")");
          } finally {
            Locale.setDefault(l0);
          }
          p.sample(() -> items.size() + " formats under " + l.toLanguageTag());
        });
    final List<String> zones = new ArrayList<>(new TreeSet<>(ZoneId.getAvailableZoneIds()));
    for (int h = -18; h <= 18; h++) zones.add(h == 0 ? "UTC" : String.format(Locale.ROOT, "GMT%+03d:%02d", h, Math.abs(h) == 18 ? 0 : 30));
    sequentialPhase(
        "zones",
        zones.size() + " zones x " + items.size() + " formats compiled before and after the change",
        p -> {
          String z = p.pick(zones);
          TimeZone.setDefault(TimeZone.getTimeZone(z));
          try {
            for (int i = 0; i < items.size(); i++) compare(p, i, "zone " + z);
          } finally {
            TimeZone.setDefault(z0);
          }
          p.sample(() -> items.size() + " formats under " + z);
        });
    bounds.add("child JVMs started under 8 locale, zone and encoding configurations: every phase of the probe");
    assumptions.add("Patterns that ask for localized text (month names, week fields) are outside the property.");
  }

  private void add(Corpus.Item it) {
    items.add(it);
    Ref.Out w = it.want();
    wants.add(zoneDependent(it) ? null : w);
    early.add(FastPrintf.compile(it.fmt));
  }

  @Override
  void after(Explorer x) throws Throwable {
    String home = System.getProperty("java.home");
    String[][] configs = {
      {"-Duser.language=tr", "-Duser.country=TR", "-Duser.timezone=Asia/Kolkata"},
      {"-Duser.language=ar", "-Duser.country=EG", "-Duser.extensions=u-nu-arab", "-Duser.timezone=Africa/Cairo"},
      {"-Duser.language=th", "-Duser.country=TH", "-Duser.extensions=u-ca-buddhist-nu-thai", "-Duser.timezone=Asia/Bangkok"},
      {"-Duser.language=hi", "-Duser.country=IN", "-Duser.extensions=u-nu-deva", "-Duser.timezone=Pacific/Chatham"},
      {"-Duser.language=de", "-Duser.country=DE", "-Duser.timezone=America/St_Johns"},
      {"-Duser.language=fa", "-Duser.country=IR", "-Duser.extensions=u-nu-arabext", "-Djava.locale.providers=COMPAT,CLDR"},
      {"-Duser.language=ja", "-Duser.country=JP", "-Duser.variant=JP", "-Dfile.encoding=ISO-8859-1"},
      {"-Duser.language=fr", "-Duser.country=FR", "-Dfile.encoding=US-ASCII", "-Duser.timezone=GMT-11:30"},
    };
    for (String[] c : configs) {
      Child.run(x, "started with " + String.join(" ", c), home, Arrays.asList(c), "Probe", thorough ? "thorough" : "quick");
    }
  }
}
