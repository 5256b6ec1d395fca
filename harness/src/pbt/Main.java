package pbt;

import java.io.File;
import java.io.PrintWriter;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.List;
import java.util.Map;

/** Command line: Main ID TIER SEED EVIDENCE_FILE REPLAY_FILE [--replay FILE]. */
public final class Main {

  private Main() {}

  static String json(String s) {
    StringBuilder sb = new StringBuilder("\"");
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      if (c == '"' || c == '\\') sb.append('\\').append(c);
      else if (c == '\n') sb.append("\\n");
      else if (c < ' ' || c > '~') sb.append(Show.unicode(c));
      else sb.append(c);
    }
    return sb.append('"').toString();
  }

  public static void main(String[] a) throws Exception {
    String id = a[0];
    boolean thorough = "thorough".equals(a[1]);
    long seed = Long.parseLong(a[2]);
    String evidence = a[3];
    String replayFile = a[4];
    long t0 = System.nanoTime();
    Dict.init();
    System.setProperty("vp.seed", Long.toString(seed));
    Prop prop = Props.byId(id);

    if (a.length > 6 && a[5].equals("--replay")) {
      if (id.equals("C26") && !EnvProps.Runtimes.CHILD) {
        if (EnvProps.Runtimes.replayAll(a[6])) exit(0);
        System.out.println("VIOLATION property=" + id + " replay=" + a[6]);
        exit(1);
      }
      List<Long> tape = new ArrayList<>();
      for (String line : Files.readAllLines(Paths.get(a[6]), StandardCharsets.UTF_8)) {
        if (line.startsWith("tape:")) {
          for (String w : line.substring(5).trim().split(" +")) {
            if (!w.isEmpty()) tape.add(Long.parseUnsignedLong(w));
          }
        }
      }
      long[] t = new long[tape.size()];
      for (int i = 0; i < t.length; i++) t[i] = tape.get(i);
      Engine.Failure f = new Engine(prop, seed).replay(t);
      if (f == null) {
        System.out.println("replay: the case passes");
        exit(0);
      }
      System.out.println(f.description + "\n" + f.message);
      System.out.println("VIOLATION property=" + id + " replay=" + a[6]);
      exit(1);
    }

    long cases = prop.quickCases();
    if (thorough) cases *= prop.thoroughFactor();
    String override = System.getenv("VERIF_CASES");
    if (override != null && !override.isEmpty()) cases = Long.parseLong(override);
    Engine e = new Engine(prop, seed);
    Engine.Failure f = null;
    Counters once = new Counters();
    try {
      prop.once(once, thorough);
    } catch (Violation v) {
      f = new Engine.Failure(-1, new long[0], v.getMessage());
      f.description = "(fixed scenario, see message)";
    }
    e.total.merge(once);
    if (a.length > 6 && a[5].equals("--digests")) e.caseDigests = new long[(int) cases];
    if (f == null) f = e.run(cases);
    if (e.caseDigests != null) {
      java.nio.ByteBuffer b = java.nio.ByteBuffer.allocate(8 * e.caseDigests.length);
      for (long d : e.caseDigests) b.putLong(d);
      Files.write(Paths.get(a[6]), b.array());
    }
    double wall = (System.nanoTime() - t0) / 1e9;
    writeEvidence(evidence, prop, e, thorough, seed, wall, f == null ? 0 : 1);
    System.out.println(id + " [" + System.getProperty("java.specification.version") + "] cases="
        + e.total.evaluations + " nontrivial=" + e.total.nontrivial + " distinct="
        + e.total.distinctCount() + " checks=" + e.total.checks
        + String.format(java.util.Locale.ROOT, " wall=%.1fs", wall));
    if (System.getenv("VERIF_VERBOSE") != null) System.out.println(e.total.labels);
    if (EnvProps.Runtimes.CHILD) {
      System.out.println("TOTALS " + e.total.evaluations + " " + e.total.nontrivial + " " + e.total.checks + " " + e.total.digest + " " + e.total.distinctCount());
    }
    if (f == null) exit(0);
    File child = new File(System.getProperty("vp.work", "/nonexistent"), "C26.replay");
    if (id.equals("C26") && child.exists()) {
      new File(replayFile).getAbsoluteFile().getParentFile().mkdirs();
      Files.copy(child.toPath(), Paths.get(replayFile), java.nio.file.StandardCopyOption.REPLACE_EXISTING);
    } else writeReplay(replayFile, prop, f, seed);
    System.out.println(f.description + "\n" + f.message);
    System.out.println("VIOLATION property=" + id + " replay=" + replayFile);
    exit(1);
  }

  private static void exit(int code) {
    System.out.flush();
    Runtime.getRuntime().halt(code);
  }

  static void writeReplay(String path, Prop prop, Engine.Failure f, long seed)
      throws Exception {
    new File(path).getAbsoluteFile().getParentFile().mkdirs();
    try (PrintWriter w = new PrintWriter(path, "UTF-8")) {
      w.println("property: " + prop.id);
      w.println("java: " + System.getProperty("java.specification.version"));
      w.println("found: seed " + seed + ", case " + f.index + ", " + f.shrinkSteps + " shrink steps");
      w.println("rerun: bash run.sh " + prop.id + " --replay " + path);
      StringBuilder sb = new StringBuilder("tape:");
      for (long v : f.tape) sb.append(' ').append(Long.toUnsignedString(v));
      w.println(sb);
      w.println("case:");
      w.println(f.description);
      w.println("violation:");
      w.println(f.message);
    }
  }

  private static void writeEvidence(
      String path, Prop prop, Engine e, boolean thorough, long seed, double wall, int violations)
      throws Exception {
    new File(path).getAbsoluteFile().getParentFile().mkdirs();
    StringBuilder sb = new StringBuilder("{\n");
    sb.append(" \"property\": ").append(json(prop.id)).append(",\n");
    sb.append(" \"tier\": ").append(thorough ? "\"thorough\"" : "\"quick\"").append(",\n");
    sb.append(" \"seed\": ").append(seed).append(",\n");
    sb.append(" \"level\": ").append(json(Props.level(prop.id))).append(",\n");
    sb.append(" \"coverage\": {\n");
    sb.append("  \"evaluations\": ").append(e.total.evaluations).append(",\n");
    sb.append("  \"nontrivial\": ").append(e.total.nontrivial).append(",\n");
    sb.append("  \"distinct_nontrivial\": ").append(e.total.distinctCount()).append(",\n");
    sb.append("  \"oracle_comparisons\": ").append(e.total.checks).append(",\n");
    sb.append("  \"rule\": ").append(json(prop.rule())).append(",\n");
    sb.append("  \"classes\": {");
    String sep = "";
    for (Map.Entry<String, Long> l : e.total.labels.entrySet()) {
      sb.append(sep).append(json(l.getKey())).append(": ").append(l.getValue());
      sep = ", ";
    }
    sb.append("},\n  \"dictionary\": ").append(json(Dict.summary())).append(",\n");
    sb.append("  \"samples\": [");
    sep = "";
    int n = 0;
    for (String s : e.total.samples) {
      if (n++ >= 12) break;
      sb.append(sep).append("\n   ").append(json(s.length() > 600 ? s.substring(0, 600) + "..." : s));
      sep = ",";
    }
    sb.append("\n  ]\n },\n");
    sb.append(" \"assumptions\": [");
    sep = "";
    for (String s : prop.assumptions()) {
      sb.append(sep).append(json(s));
      sep = ", ";
    }
    sb.append("],\n");
    sb.append(String.format(java.util.Locale.ROOT, " \"wall_s\": %.2f,%n", wall));
    sb.append(" \"violations\": ").append(violations).append("\n}\n");
    Files.write(Paths.get(path), sb.toString().getBytes(StandardCharsets.UTF_8));
  }
}
