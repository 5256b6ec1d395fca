package pbt;

/** Open-addressing set of longs. */
final class LongSet {
  private long[] table = new long[1024];
  private int size;
  private boolean hasZero;

  void add(long v) {
    if (v == 0) {
      if (!hasZero) {
        hasZero = true;
        size++;
      }
      return;
    }
    if (size * 2 > table.length) grow();
    int m = table.length - 1;
    int i = (int) Case.mix(v) & m;
    while (table[i] != 0) {
      if (table[i] == v) return;
      i = (i + 1) & m;
    }
    table[i] = v;
    size++;
  }

  private void grow() {
    long[] old = table;
    table = new long[old.length * 2];
    int m = table.length - 1;
    for (long v : old) {
      if (v == 0) continue;
      int i = (int) Case.mix(v) & m;
      while (table[i] != 0) i = (i + 1) & m;
      table[i] = v;
    }
  }

  void addAll(LongSet o) {
    if (o.hasZero) add(0);
    for (long v : o.table) if (v != 0) add(v);
  }

  int size() {
    return size;
  }
}
