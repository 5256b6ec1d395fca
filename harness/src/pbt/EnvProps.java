package pbt;

import io.fastprintf.FastPrintf;
import java.io.BufferedReader;
import java.io.File;
import java.io.InputStreamReader;
import java.nio.ByteBuffer;
import java.nio.LongBuffer;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.StandardCopyOption;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Comparator;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Locale;
import java.util.Map;

/** C25 and C26: locales and Java runtimes. */
final class EnvProps {
  private EnvProps() {}

  static final class Locales extends Prop {
    Locales() {
      super("C25");
    }

    @Override
    String rule() {
      return "a generated program (or a random format string for acceptance) is compiled under one random default locale "
          + "and used under another, out of all installed ones plus ones with native digits, calendars and special casing; "
          + "the result is compared with the model evaluated under the root locale; non-trivial when a locale differs from en-US";
    }

    @Override
    int quickCases() {
      return 500000;
    }

    @Override
    boolean singleThreaded() {
      return true;
    }

    private static final Locale[] SPECIAL = {
      Locale.forLanguageTag("tr-TR"), Locale.forLanguageTag("az-Latn-AZ"), Locale.forLanguageTag("lt-LT"), Locale.forLanguageTag("ar-EG"),
      Locale.forLanguageTag("ar-EG-u-nu-arab"), Locale.forLanguageTag("hi-IN-u-nu-deva"), Locale.forLanguageTag("th-TH-u-ca-buddhist-nu-thai"),
      Locale.forLanguageTag("ja-JP-u-ca-japanese"), new Locale("ja", "JP", "JP"), new Locale("th", "TH", "TH"), Locale.forLanguageTag("fa-IR"),
      Locale.forLanguageTag("my-MM"), Locale.forLanguageTag("bn-BD"), Locale.forLanguageTag("ne-NP"), Locale.GERMANY, Locale.FRANCE,
      Locale.forLanguageTag("de-CH"), Locale.forLanguageTag("sv-SE"), Locale.forLanguageTag("mr-IN"), Locale.forLanguageTag("el-GR")
    };
    private static final Locale[] ALL = all();

    private static Locale[] all() {
      Locale[] r = Locale.getAvailableLocales();
      Arrays.sort(r, Comparator.comparing(Locale::toString));
      return r;
    }

    private static Locale pick(Src s) {
      switch (s.weighted(1, 5, 4)) {
        case 0:
          return Locale.US;
        case 1:
          return s.pick(SPECIAL);
        default:
          return s.pick(ALL);
      }
    }

    private static void set(Locale l) {
      Locale.setDefault(l);
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      Locale l1 = pick(s);
      Locale l2 = s.chance(1, 3) ? l1 : pick(s);
      c.key(l1.toString());
      c.key(l2.toString());
      if (!l1.equals(Locale.US) || !l2.equals(Locale.US)) c.nontrivial();
      try {
        set(Locale.ROOT);
        if (s.chance(1, 4)) {
          String f = TextProps.Compile.generate(s);
          c.key(f);
          c.describe(() -> "compile " + Show.of(f) + " under " + l1);
          Grammar.parse(f);
          Out root = Out.of(() -> {
            FastPrintf.compile(f);
            return "compiled";
          });
          set(l1);
          Out o = Out.of(() -> {
            FastPrintf.compile(f);
            return "compiled";
          });
          c.label("acceptance");
          c.same(root, o, "compiling " + Show.of(f) + " under " + l1);
          return;
        }
        Program p = s.chance(1, 4) ? mixed(s) : s.chance(1, 6) ? cased(s) : Program.good(s, 3, G.CONVS, 1, 8);
        p.key(c);
        c.describe(() -> p.show() + ", compiled under " + l1 + ", used under " + l2);
        int fail = p.failing();
        Check.Exp e = fail < p.pieces.size() ? p.pieces.get(fail).expect() : new Check.Exp(p.text(), null);
        String f = p.format();
        List<Arg> as = p.args();
        String shown = p.show();
        set(l1);
        FastPrintf[] fp = new FastPrintf[1];
        Out o = Out.of(() -> {
          fp[0] = FastPrintf.compile(f);
          return null;
        });
        c.ok(o.ok(), "compiling " + Show.of(f) + " under " + l1 + ": " + o);
        set(l2);
        Out act = Out.of(() -> fp[0].format(Arg.args(as)));
        set(Locale.ROOT);
        c.label("compared");
        Check.agree(c, e, act, "compiled under " + l1 + ", used under " + l2 + ": " + shown);
      } finally {
        set(Locale.US);
      }
    }

    /** Upper-casing of letters whose case mapping depends on the language. */
    private static Program cased(Src s) {
      char[] t = new char[s.chance(1, 5) ? s.range(14, 40) : s.range(0, 5)];
      long r = s.bits();
      String abc = s.pick("i", "iI", "ij", "iIıİ\u0307\u0300jįĩìí", "ßŉǰΐσςﬁi");
      for (int i = 0; i < t.length; i++) t[i] = abc.charAt((int) Math.floorMod(Case.mix(r + i), (long) abc.length()));
      Spec sp = G.spec(s, 'S');
      String x = new String(t);
      Arg a = s.chance(1, 5) ? Arg.of(new Kinds.Obj(x)) : t.length == 1 && s.bool() ? new Arg(t[0], s.bool()) : Arg.of(G.chars(s, x));
      Program p = new Program();
      p.add(Program.conv(sp, a));
      return p;
    }

    private static Program mixed(Src s) {
      Program p = new Program();
      Program.Piece x = Program.conv(G.anySpec(s), G.any(s));
      x.perm = s.below(6);
      p.add(x);
      return p;
    }
  }

  static final class Runtimes extends Prop {
    Runtimes() {
      super("C26");
    }

    static final boolean CHILD = System.getProperty("vp.child") != null;

    @Override
    String rule() {
      return "the same generated cases (single conversions with numbers weighted up, mixed-type arguments, programs, format "
          + "strings) run on every installed Java runtime in a child process; each result is compared with the model there, and "
          + "a digest of all results is compared between runtimes; non-trivial when the case formats at least one conversion";
    }

    @Override
    int quickCases() {
      return CHILD ? 500000 : 2000;
    }

    @Override
    int thoroughFactor() {
      return 5;
    }

    private static boolean stable(Spec sp, Arg a) {
      char k = sp.lowerConv();
      Object v = a.value;
      if (k == 'p') return false;
      if (k != 's') return true;
      return v == null || v instanceof CharSequence || v instanceof Integer || v instanceof Long || v instanceof Boolean
          || v instanceof Character || v instanceof Kinds.Obj || v instanceof java.math.BigInteger;
    }

    @Override
    void test(Case c) {
      Src s = c.src;
      switch (s.weighted(12, 3, 3, 1)) {
        case 0: {
          char conv = s.pickChar("feEgGFafegdxsScu");
          Spec sp = G.spec(s, conv);
          Arg a = G.natural(s, conv);
          Out o = Check.conv(c, sp, s.below(6), a);
          c.nontrivial();
          c.label("%" + conv);
          if (o.ok() && stable(sp, a)) c.digest((String) o.value);
          break;
        }
        case 1: {
          Spec sp = G.anySpec(s);
          Arg a = G.any(s);
          Out o = Check.conv(c, sp, s.below(6), a);
          c.nontrivial();
          c.label("mixed types");
          if (!o.ok()) c.digest(o.error.getClass().getName());
          else if (stable(sp, a)) c.digest((String) o.value);
          break;
        }
        case 2: {
          Program p = Program.good(s, 4, "diuoxXfFeEgGaAcsStT", 1, 6);
          p.key(c);
          c.describe(p::show);
          c.nontrivial();
          c.label("program");
          Out o = Out.of(() -> FastPrintf.compile(p.format()).format(Arg.args(p.args())));
          c.same(Out.text(p.text()), o, "wrong result for " + p.show());
          Out sink = Out.of(() -> FastPrintf.compile(p.format()).format(new StringBuffer(), Arg.args(p.args())).toString());
          c.same(o, sink, "into a buffer, " + p.show());
          break;
        }
        default: {
          String f = TextProps.Compile.generate(s);
          c.key(f);
          c.describe(() -> "compile " + Show.of(f));
          c.label("format string");
          TextProps.Compile.check(c, f);
        }
      }
    }

    // ---------------------------------------------------------------- parent

    static List<String> runtimes() {
      List<String> r = new ArrayList<>();
      File[] dirs = new File("/usr/lib/jvm").listFiles();
      if (dirs == null) dirs = new File[0];
      Arrays.sort(dirs);
      for (File d : dirs) {
        if (d.getName().matches("java-[0-9]+-openjdk.*") && !Files.isSymbolicLink(d.toPath()) && new File(d, "bin/java").canExecute()) {
          r.add(d.getPath());
        }
      }
      return r;
    }

    static Process start(String home, String... args) throws Exception {
      List<String> cmd = new ArrayList<>(Arrays.asList(home + "/bin/java", "-Xmx3g", "-Xss1m", "-XX:-UsePerfData", "-Duser.timezone=GMT+05:45",
          "-Duser.language=en", "-Duser.country=US", "-Dfile.encoding=UTF-8", "-Dvp.child=1",
          "-Dvp.classes=" + System.getProperty("vp.classes"), "-Dvp.base=" + System.getProperty("vp.base")));
      cmd.add("-cp");
      cmd.add(System.getProperty("vp.classes") + File.pathSeparator + System.getProperty("vp.harness"));
      cmd.add("pbt.Main");
      cmd.addAll(Arrays.asList(args));
      return new ProcessBuilder(cmd).redirectErrorStream(true).start();
    }

    private static String read(Process p) throws Exception {
      StringBuilder sb = new StringBuilder();
      try (BufferedReader r = new BufferedReader(new InputStreamReader(p.getInputStream(), StandardCharsets.UTF_8))) {
        for (String l = r.readLine(); l != null; l = r.readLine()) sb.append(l).append('\n');
      }
      p.waitFor();
      return sb.toString();
    }

    /** Replays a tape on every runtime; true when all pass. */
    static boolean replayAll(String file) throws Exception {
      boolean ok = true;
      for (String home : runtimes()) {
        Process p = start(home, "C26", "quick", "1", "/dev/null", "/dev/null", "--replay", file);
        String out = read(p);
        System.out.println(home + ":\n" + out.replace("VIOLATION ", "violation "));
        ok &= p.exitValue() == 0;
      }
      return ok;
    }

    @Override
    void once(Counters counters, boolean thorough) {
      if (CHILD) return;
      try {
        spawn(counters, thorough);
      } catch (Violation v) {
        throw v;
      } catch (Exception e) {
        throw new RuntimeException("cannot run the child processes", e);
      }
    }

    private void spawn(Counters counters, boolean thorough) throws Exception {
      String work = System.getProperty("vp.work");
      String seed = System.getProperty("vp.seed", "1");
      List<String> homes = runtimes();
      if (homes.size() < 2) throw new RuntimeException("fewer than two Java runtimes are installed");
      Map<String, String> digests = new LinkedHashMap<>();
      for (String home : homes) {
        String name = new File(home).getName();
        String replay = work + "/" + name + ".replay";
        Process p = start(home, "C26", thorough ? "thorough" : "quick", seed, work + "/" + name + ".json", replay);
        String out = read(p);
        if (p.exitValue() == 1 && new File(replay).exists()) {
          Files.copy(new File(replay).toPath(), new File(work + "/C26.replay").toPath(), StandardCopyOption.REPLACE_EXISTING);
          throw new Violation("on " + name + ":\n" + out.replace("VIOLATION ", "violation "));
        }
        if (p.exitValue() != 0) throw new RuntimeException("child on " + name + " failed:\n" + out);
        for (String l : out.split("\n")) {
          if (l.startsWith("TOTALS ")) {
            String[] w = l.split(" ");
            counters.evaluations += Long.parseLong(w[1]);
            counters.nontrivial += Long.parseLong(w[2]);
            counters.checks += Long.parseLong(w[3]);
            if (digests.isEmpty()) counters.distinctElsewhere += Long.parseLong(w[5]);
            digests.put(name, w[4]);
            counters.label("runtime " + name);
          }
        }
      }
      if (digests.size() != homes.size()) throw new RuntimeException("missing totals " + digests);
      String first = digests.values().iterator().next();
      for (Map.Entry<String, String> d : digests.entrySet()) {
        if (!d.getValue().equals(first)) localise(homes.get(0), d.getKey(), homes, thorough, seed, work);
      }
    }

    /** Finds the first case whose result differs between two runtimes. */
    private void localise(String home0, String name, List<String> homes, boolean thorough, String seed, String work) throws Exception {
      String home1 = null;
      for (String h : homes) if (h.endsWith("/" + name)) home1 = h;
      long[][] all = new long[2][];
      for (int i = 0; i < 2; i++) {
        String file = work + "/digests" + i;
        Process p = start(i == 0 ? home0 : home1, "C26", thorough ? "thorough" : "quick", seed, work + "/x.json", work + "/x.replay", "--digests", file);
        read(p);
        LongBuffer b = ByteBuffer.wrap(Files.readAllBytes(new File(file).toPath())).asLongBuffer();
        all[i] = new long[b.remaining()];
        b.get(all[i]);
      }
      for (int i = 0; i < all[0].length; i++) {
        if (all[0][i] == all[1][i]) continue;
        Src src = new Src(new Engine(this, Long.parseLong(seed)).caseSeed(i));
        Case c = new Case(src, null);
        try {
          test(c);
        } catch (Violation v) {
          // the description is what matters
        }
        Main.writeReplay(work + "/C26.replay", this, new Engine.Failure(i, src.used(), "results differ between runtimes"), Long.parseLong(seed));
        throw new Violation("results differ between " + home0 + " and " + home1 + " for case " + i + ": " + c.description());
      }
      throw new Violation("the digests of " + home0 + " and " + home1 + " differ");
    }
  }
}
