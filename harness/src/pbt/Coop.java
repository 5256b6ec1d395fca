package pbt;

import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.Semaphore;
import java.util.concurrent.atomic.AtomicInteger;

/**
 * Runs tasks on real threads, one at a time, switching at the points where harness-owned arguments
 * and destinations are called. Which task goes on at each point comes from the choice tape.
 */
final class Coop {
  private static final ExecutorService POOL = Executors.newCachedThreadPool(r -> {
    Thread t = new Thread(null, r, "coop", 4L << 20);
    t.setDaemon(true);
    return t;
  });

  private static final ThreadLocal<Task> CURRENT = new ThreadLocal<>();

  /** Times a task did not come back although it held the turn, over the whole run. */
  private static final AtomicInteger STALLS = new AtomicInteger();

  private static final int RUNNING = 0;
  private static final int WAITING = 1;
  private static final int DONE = 2;

  interface Body {
    void run() throws Throwable;
  }

  private final class Task implements Runnable {
    final Body body;
    final Semaphore go = new Semaphore(0);
    int state = WAITING;
    int budget;
    volatile Thread thread;
    volatile boolean parked; // waiting for its turn, or not yet aware of having got it
    Throwable error;

    Task(Body body, int budget) {
      this.body = body;
      this.budget = budget;
    }

    @Override
    public void run() {
      go.acquireUninterruptibly();
      thread = Thread.currentThread();
      CURRENT.set(this);
      try {
        body.run();
      } catch (Throwable t) {
        error = t;
      } finally {
        CURRENT.remove();
        set(DONE);
      }
    }

    void pause() {
      if (abandoned || budget-- <= 0 || STALLS.get() > 30000) return;
      parked = true;
      set(WAITING);
      go.acquireUninterruptibly();
      parked = false;
    }

    void set(int st) {
      synchronized (Coop.this) {
        state = st;
        Coop.this.notifyAll();
      }
    }
  }

  /** When positive: the tasks run on fresh threads whose ids differ by multiples of it. */
  int gap;

  private void start() {
    long first = -1;
    for (Task t : tasks) {
      Thread th;
      do {
        th = new Thread(null, t, "coop", 1L << 20);
        if (first < 0) first = th.getId();
      } while ((th.getId() - first) % gap != 0);
      th.setDaemon(true);
      th.start();
    }
  }

  private volatile boolean abandoned;
  private final List<Task> tasks = new ArrayList<>();
  int switches;

  void add(Body b, int budget) {
    tasks.add(new Task(b, budget));
  }

  /** A possible switch point; does nothing outside scheduled tasks. */
  static void point() {
    Task t = CURRENT.get();
    if (t != null) t.pause();
  }

  /** Runs all tasks to completion under the schedule given by the tape. */
  void run(Src s) throws Throwable {
    if (gap > 0) start();
    else for (Task t : tasks) POOL.execute(t);
    try {
      Task last = null;
      long idleSince = System.nanoTime();
      while (true) {
        List<Task> ready = new ArrayList<>();
        synchronized (this) {
          boolean running = true;
          // a task may be blocked by a lock another one holds: give that one a turn
          long until = System.nanoTime() + 50_000_000L;
          int blocked = 0;
          while (running) {
            running = false;
            boolean stuck = true;
            for (Task t : tasks) {
              if (t.state != RUNNING) continue;
              running = true;
              Thread th = t.thread;
              Thread.State st = th == null ? null : th.getState();
              stuck &= !t.parked && (st == Thread.State.BLOCKED || st == Thread.State.WAITING);
            }
            if (!running) break;
            blocked = stuck ? blocked + 1 : 0;
            if (blocked > 1 || System.nanoTime() - until > 0) {
              STALLS.incrementAndGet();
              break;
            }
            wait(1);
          }
          boolean done = true;
          for (Task t : tasks) {
            done &= t.state == DONE;
            if (t.state == WAITING) ready.add(t);
          }
          if (done) break;
          if (ready.isEmpty()) {
            if (System.nanoTime() - idleSince > 120_000_000_000L) throw new Violation("the threads are deadlocked");
            continue;
          }
          idleSince = System.nanoTime();
        }
        Task t = ready.get(s.below(ready.size()));
        if (t != last) switches++;
        last = t;
        synchronized (this) {
          t.state = RUNNING;
        }
        t.go.release();
      }
    } finally {
      abandoned = true;
      for (Task t : tasks) t.go.release(1000);
    }
    for (Task t : tasks) if (t.error != null) throw t.error;
  }
}
