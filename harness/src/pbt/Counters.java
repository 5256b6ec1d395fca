package pbt;

import java.util.ArrayList;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;

/** Per-worker statistics, merged at the end. */
final class Counters {
  long evaluations;
  long nontrivial;
  long checks;
  long digest;
  long distinctElsewhere; // counted in child processes
  final LongSet distinct = new LongSet();
  final Map<String, Long> labels = new TreeMap<>();
  final List<String> samples = new ArrayList<>();

  long distinctCount() {
    return distinct.size() + distinctElsewhere;
  }

  void label(String name) {
    Long v = labels.get(name);
    labels.put(name, v == null ? 1L : v + 1L);
  }

  void merge(Counters o) {
    evaluations += o.evaluations;
    nontrivial += o.nontrivial;
    checks += o.checks;
    digest += o.digest;
    distinctElsewhere += o.distinctElsewhere;
    distinct.addAll(o.distinct);
    for (Map.Entry<String, Long> e : o.labels.entrySet()) {
      Long v = labels.get(e.getKey());
      labels.put(e.getKey(), (v == null ? 0L : v) + e.getValue());
    }
    samples.addAll(o.samples);
  }
}
