package pbt;

import java.io.DataInputStream;
import java.io.File;
import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.HashSet;
import java.util.List;
import java.util.Set;
import java.util.TreeSet;

/**
 * Fuzzing dictionary: constants occurring in the compiled library. Influences only which inputs are
 * tried.
 */
final class Dict {
  static long[] longs = {};
  static long[] novelLongs = {};
  static double[] doubles = {};
  static double[] novelDoubles = {};
  static String[] strings = {};
  static String[] novelStrings = {};

  private Dict() {}

  static String summary() {
    return longs.length + " integers (" + novelLongs.length + " not in the base list), "
        + doubles.length + " doubles (" + novelDoubles.length + "), "
        + strings.length + " strings (" + novelStrings.length + ")";
  }

  /** Constants are told apart by the class they occur in, so a new use of a common number is new. */
  private static final TreeSet<String> FOUND = new TreeSet<>();

  private static void found(String kind, Object v, String cls) {
    FOUND.add(kind + v + "@" + cls);
  }

  static void init() throws IOException {
    String dir = System.getProperty("vp.classes");
    if (dir == null) return;
    walk(new File(dir));
    Set<String> base = new HashSet<>();
    String bf = System.getProperty("vp.base");
    if (bf != null && new File(bf).exists()) {
      base.addAll(Files.readAllLines(Paths.get(bf), StandardCharsets.UTF_8));
    }
    if (System.getProperty("vp.dump") != null) {
      Files.write(Paths.get(System.getProperty("vp.dump")), FOUND, StandardCharsets.UTF_8);
    }
    TreeSet<Long> la = new TreeSet<>();
    TreeSet<Long> ln = new TreeSet<>();
    TreeSet<Double> da = new TreeSet<>();
    TreeSet<Double> dn = new TreeSet<>();
    TreeSet<String> sa = new TreeSet<>();
    TreeSet<String> sn = new TreeSet<>();
    for (String x : FOUND) {
      boolean novel = !base.contains(x);
      String v = x.substring(1, x.lastIndexOf('@'));
      if (x.charAt(0) == 'L') {
        long l = Long.parseLong(v);
        // the power-of-ten tables contribute thousands of 64-bit words that mean nothing as inputs
        if (Math.abs(l) <= (1L << 54)) la.add(l);
        if (novel) ln.add(l);
      } else if (x.charAt(0) == 'D') {
        double d = Double.longBitsToDouble(Long.parseLong(v));
        da.add(d);
        if (novel) dn.add(d);
      } else {
        String t = unjson(v);
        sa.add(t);
        if (novel) sn.add(t);
      }
    }
    longs = arr(new ArrayList<>(la));
    novelLongs = arr(new ArrayList<>(ln));
    doubles = darr(new ArrayList<>(da));
    novelDoubles = darr(new ArrayList<>(dn));
    strings = sa.toArray(new String[0]);
    novelStrings = sn.toArray(new String[0]);
  }

  private static String unjson(String q) {
    StringBuilder sb = new StringBuilder();
    for (int i = 1; i < q.length() - 1; i++) {
      char c = q.charAt(i);
      if (c != '\\') {
        sb.append(c);
        continue;
      }
      c = q.charAt(++i);
      if (c == 'n') sb.append('\n');
      else if (c == 'u') {
        sb.append((char) Integer.parseInt(q.substring(i + 1, i + 5), 16));
        i += 4;
      } else sb.append(c);
    }
    return sb.toString();
  }

  private static long[] arr(List<Long> l) {
    long[] r = new long[l.size()];
    for (int i = 0; i < r.length; i++) r[i] = l.get(i);
    return r;
  }

  private static double[] darr(List<Double> l) {
    double[] r = new double[l.size()];
    for (int i = 0; i < r.length; i++) r[i] = l.get(i);
    return r;
  }

  private static void walk(File f) throws IOException {
    File[] kids = f.listFiles();
    if (kids != null) {
      for (File k : kids) walk(k);
    } else if (f.getName().endsWith(".class") && f.getPath().contains("fastprintf")) {
      try (DataInputStream in = new DataInputStream(new java.io.BufferedInputStream(
          Files.newInputStream(f.toPath())))) {
        parse(in, f.getName().replace(".class", ""));
      }
    }
  }

  private static void parse(DataInputStream in, String cls) throws IOException {
    in.readInt();
    in.readInt();
    int n = in.readUnsignedShort();
    String[] utf = new String[n];
    List<Integer> strs = new ArrayList<>();
    int tables = 0;
    for (int i = 1; i < n; i++) {
      int tag = in.readUnsignedByte();
      switch (tag) {
        case 1: utf[i] = in.readUTF(); break;
        case 3: found("L", in.readInt(), cls); break;
        case 4: found("D", Double.doubleToRawLongBits(in.readFloat()), cls); break;
        case 5: found("L", in.readLong(), cls); i++; tables++; break;
        case 6: found("D", Double.doubleToRawLongBits(in.readDouble()), cls); i++; break;
        case 8: strs.add(in.readUnsignedShort()); break;
        case 7: case 16: case 19: case 20: in.readUnsignedShort(); break;
        case 9: case 10: case 11: case 12: case 17: case 18: in.readInt(); break;
        case 15: in.readUnsignedByte(); in.readUnsignedShort(); break;
        default: throw new IOException("bad constant tag " + tag);
      }
    }
    for (int i : strs) if (utf[i].length() <= 60) found("S", Main.json(utf[i]), cls);
    in.readUnsignedShort();
    in.readUnsignedShort();
    in.readUnsignedShort();
    int ni = in.readUnsignedShort();
    for (int i = 0; i < ni; i++) in.readUnsignedShort();
    for (int kind = 0; kind < 2; kind++) {
      int count = in.readUnsignedShort();
      for (int i = 0; i < count; i++) {
        in.readUnsignedShort();
        String member = utf[in.readUnsignedShort()];
        in.readUnsignedShort();
        int na = in.readUnsignedShort();
        for (int k = 0; k < na; k++) {
          String name = utf[in.readUnsignedShort()];
          byte[] body = new byte[in.readInt()];
          in.readFully(body);
          // initialisers of big tables contain nothing but array indices
          boolean table = tables > 200 && member.equals("<clinit>");
          if ("Code".equals(name) && !table) code(body, cls);
        }
      }
    }
  }

  private static int u2(byte[] b, int i) {
    return ((b[i] & 255) << 8) | (b[i + 1] & 255);
  }

  private static int s4(byte[] b, int i) {
    return (u2(b, i) << 16) | u2(b, i + 2);
  }

  /** Instruction lengths by opcode, 0 for the variable-length ones. */
  private static int len(int op) {
    if (op == 16 || op == 18 || (op >= 21 && op <= 25) || (op >= 54 && op <= 58) || op == 169
        || op == 188) return 2;
    if (op == 17 || op == 19 || op == 20 || op == 132 || (op >= 153 && op <= 168)
        || (op >= 178 && op <= 184) || op == 187 || op == 189 || op == 192 || op == 193
        || op == 198 || op == 199) return 3;
    if (op == 197) return 4;
    if (op == 185 || op == 186 || op == 200 || op == 201) return 5;
    if (op == 170 || op == 171 || op == 196) return 0;
    return 1;
  }

  private static void code(byte[] b, String cls) {
    int start = 8;
    int end = start + s4(b, 4);
    int pc = start;
    while (pc < end) {
      int op = b[pc] & 255;
      if (op == 16) found("L", (long) b[pc + 1], cls);
      if (op == 17) found("L", (long) (short) u2(b, pc + 1), cls);
      int l = len(op);
      if (l > 0) {
        pc += l;
      } else if (op == 196) {
        pc += (b[pc + 1] & 255) == 132 ? 6 : 4;
      } else {
        int q = start + ((pc - start + 4) & ~3);
        if (op == 170) {
          int lo = s4(b, q + 4);
          int hi = s4(b, q + 8);
          for (int v = lo; v <= hi && v - lo < 300; v++) found("L", (long) v, cls);
          pc = q + 12 + 4 * (hi - lo + 1);
        } else {
          int np = s4(b, q + 4);
          for (int i = 0; i < np; i++) found("L", (long) s4(b, q + 8 + 8 * i), cls);
          pc = q + 8 + 8 * np;
        }
      }
    }
  }
}
