package vf;

import java.io.OutputStream;
import java.io.PrintStream;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.SplittableRandom;
import java.util.TreeMap;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.atomic.AtomicBoolean;
import java.util.concurrent.atomic.LongAdder;

/** Runs one check: workers, budget, counters, replay file, evidence. */
final class Runner {
    final String id; final long seed; final boolean thorough;
    final LongAdder evaluations = new LongAdder(), cases = new LongAdder();
    private final Set<Long> distinct = ConcurrentHashMap.newKeySet();
    private final Map<String, LongAdder> counters = new ConcurrentHashMap<>();
    private final List<String> samples = new ArrayList<>();
    private volatile int sampleCount; private volatile long nextSampleAt;
    private final AtomicBoolean stop = new AtomicBoolean();
    private String violation; private String violationWhere;
    private Throwable error;
    static final int MAX_DISTINCT = 2_000_000;

    Runner(String id, long seed, boolean thorough) { this.id = id; this.seed = seed; this.thorough = thorough; }

    LongAdder counter(String k) { LongAdder a = counters.get(k); return a != null ? a : counters.computeIfAbsent(k, z -> new LongAdder()); }
    void distinct(String key) {
        if (distinct.size() >= MAX_DISTINCT) return;
        long h = 1125899906842597L;
        for (int i = 0; i < key.length(); i++) h = 31 * h + key.charAt(i);
        h ^= h >>> 33; h *= 0xff51afd7ed558ccdL; h ^= h >>> 33;
        distinct.add(h);
    }
    boolean wantsSample() { return sampleCount < 12 && System.nanoTime() >= nextSampleAt; }
    synchronized void sample(String s) { if (samples.size() < 12) { samples.add(s); sampleCount = samples.size(); nextSampleAt = System.nanoTime() + 300_000_000L; } }

    private synchronized void report(String where, Throwable t) {
        if (stop.getAndSet(true)) return;
        if (t instanceof Violation) { violation = t.getMessage(); violationWhere = where; } else { error = t; violationWhere = where; }
    }

    static SplittableRandom caseRandom(String id, long seed, int worker, long index) {
        long h = seed * 0x9E3779B97F4A7C15L ^ id.hashCode() * 0xC2B2AE3D27D4EB4FL ^ (worker + 1) * 0x165667B19E3779F9L ^ (index + 1) * 0x27D4EB2F165667C5L;
        h ^= h >>> 31; h *= 0xff51afd7ed558ccdL; h ^= h >>> 29;
        return new SplittableRandom(h);
    }

    private void guarded(String where, Runnable body) {
        try { body.run(); } catch (Throwable t) { report(where, t); }
    }

    private void worker(Check c, int w, long deadline) {
        Env e = new Env(this, null);
        for (long i = 0; !stop.get() && System.nanoTime() < deadline; i++) {
            e.r = caseRandom(id, seed, w, i);
            final long idx = i;
            guarded("worker=" + w + " case=" + idx, () -> c.one(e));
            cases.increment();
        }
    }

    int run(Check c, Path root) throws Exception {
        long start = System.nanoTime();
        int secs = thorough ? c.thoroughSeconds() : c.quickSeconds();
        String given = System.getenv("VF_SECONDS");
        if (given != null && !given.isBlank()) secs = Integer.parseInt(given.trim());
        PrintStream err = System.err;
        System.setErr(new PrintStream(OutputStream.nullOutputStream()));
        Env main = new Env(this, caseRandom(id, seed, -1, 0));
        runBig(() -> guarded("prologue", () -> c.prologue(main)));
        long deadline = System.nanoTime() + secs * 1_000_000_000L;
        if (!stop.get()) {
            List<Thread> ts = new ArrayList<>();
            for (int w = 0; w < c.threads(); w++) {
                final int ww = w;
                Thread t = new Thread(null, () -> worker(c, ww, deadline), "worker-" + w, c.stackSize());
                t.setDaemon(true); t.start(); ts.add(t);
            }
            // stuck calls: every case is small, so a worker that is still in one long after the deadline hangs
            long hard = deadline + (thorough ? 240 : 120) * 1_000_000_000L;
            for (Thread t : ts) {
                t.join(Math.max(1, (hard - System.nanoTime()) / 1_000_000));
                if (t.isAlive()) {
                    StringBuilder b = new StringBuilder();
                    for (StackTraceElement el : t.getStackTrace()) b.append("\n   at ").append(el);
                    String at = "a call did not return within " + (thorough ? 240 : 120) + " s:" + b;
                    report(t.getName(), b.indexOf("sidhant92") >= 0 || b.indexOf("antlr") >= 0 ? new Violation(at) : new IllegalStateException(at));
                    break;
                }
            }
        }
        if (!stop.get()) { main.r = caseRandom(id, seed, -2, 0); runBig(() -> guarded("epilogue", () -> c.epilogue(main))); }
        System.setErr(err);
        double wall = (System.nanoTime() - start) / 1e9;
        return finish(c, root, wall);
    }
    private static void runBig(Runnable r) throws InterruptedException { Thread t = new Thread(null, r, "main-check", 64L << 20); t.start(); t.join(); }

    private int finish(Check c, Path root, double wall) throws Exception {
        boolean violated = violation != null;
        Path evidence = root.resolve("evidence");
        Files.createDirectories(evidence);
        StringBuilder j = new StringBuilder();
        j.append("{\n \"property\": ").append(js(id)).append(",\n \"tier\": ").append(js(thorough ? "thorough" : "quick")).append(",\n \"seed\": ").append(seed).append(",\n \"level\": \"exploration\",\n \"coverage\": {\n");
        j.append("  \"evaluations\": ").append(evaluations.sum()).append(",\n  \"distinct_nontrivial\": ").append(distinct.size()).append(",\n  \"rule\": ").append(js(c.rule())).append(",\n");
        j.append("  \"cases\": ").append(cases.sum()).append(",\n  \"observed\": {");
        boolean first = true;
        for (Map.Entry<String, LongAdder> e : new TreeMap<>(counters).entrySet()) { j.append(first ? "\n" : ",\n").append("   ").append(js(e.getKey())).append(": ").append(e.getValue().sum()); first = false; }
        j.append("\n  },\n  \"samples\": [");
        first = true;
        synchronized (this) { for (String s : samples) { j.append(first ? "\n" : ",\n").append("   ").append(js(s)); first = false; } }
        j.append("\n  ]\n },\n \"assumptions\": [").append(js(c.assumes())).append("],\n");
        j.append(" \"wall_s\": ").append(String.format(java.util.Locale.ROOT, "%.2f", wall)).append(",\n \"violations\": ").append(violated ? 1 : 0).append("\n}\n");
        Files.writeString(evidence.resolve(id + ".json"), j, StandardCharsets.UTF_8);

        System.out.printf(java.util.Locale.ROOT, "%s: %d cases, %d evaluations, %d distinct, %.1f s%n", id, cases.sum(), evaluations.sum(), distinct.size(), wall);
        for (Map.Entry<String, LongAdder> e : new TreeMap<>(counters).entrySet()) System.out.println("  " + e.getKey() + ": " + e.getValue().sum());
        if (error != null) {
            System.out.println("ERROR of the check itself at " + violationWhere);
            error.printStackTrace(System.out);
            return 2;
        }
        if (violated) {
            Path dir = root.resolve("replays");
            Files.createDirectories(dir);
            Path f = dir.resolve(id + "-seed" + seed + ".txt");
            String body = "property: " + id + "\nseed: " + seed + "\ntier: " + (thorough ? "thorough" : "quick") + "\nat: " + violationWhere + "\n" + violation + "\nreplay: bash check.sh " + id + " --replay " + f + "\n";
            Files.writeString(f, body, StandardCharsets.UTF_8);
            System.out.println(violation);
            System.out.println("VIOLATION property=" + id + " replay=" + f);
            return 1;
        }
        if (evaluations.sum() == 0 || distinct.isEmpty()) { System.out.println("ERROR: nothing was evaluated"); return 2; }
        System.out.println("OK property=" + id);
        return 0;
    }

    /** Runs one recorded case again: alone first, then with the history of its worker. */
    static int replay(String id, Check c, Path file, Path root) throws Exception {
        long seed = 1; String at = ""; boolean thorough = false;
        for (String l : Files.readAllLines(file)) { if (l.startsWith("seed: ")) seed = Long.parseLong(l.substring(6)); if (l.startsWith("at: ")) at = l.substring(4); if (l.startsWith("tier: ")) thorough = l.endsWith("thorough"); }
        Runner run = new Runner(id, seed, thorough);
        PrintStream err = System.err;
        System.setErr(new PrintStream(OutputStream.nullOutputStream()));
        if (at.startsWith("worker=")) {
            int w = Integer.parseInt(at.substring(7, at.indexOf(' '))); long n = Long.parseLong(at.substring(at.indexOf("case=") + 5));
            for (long from : new long[]{n, Math.max(0, n - 2000), 0}) {
                Env e = new Env(run, null);
                runBig(() -> { for (long i = from; i <= n && !run.stop.get(); i++) { e.r = caseRandom(id, run.seed, w, i); final long k = i; run.guarded("worker=" + w + " case=" + k, () -> c.one(e)); } });
                if (run.stop.get()) break;
            }
        } else {
            Env e = new Env(run, caseRandom(id, seed, at.equals("epilogue") ? -2 : -1, 0));
            final String a = at;
            runBig(() -> run.guarded(a, () -> { if (a.equals("epilogue")) c.epilogue(e); else c.prologue(e); }));
        }
        System.setErr(err);
        if (run.error != null) { run.error.printStackTrace(System.out); return 2; }
        if (run.violation == null) { System.out.println("not reproduced"); return 0; }
        System.out.println("at " + run.violationWhere + "\n" + run.violation);
        System.out.println("VIOLATION property=" + id + " replay=" + file);
        return 1;
    }

    static String js(String s) {
        StringBuilder b = new StringBuilder("\"");
        for (int i = 0; i < s.length(); i++) { char c = s.charAt(i); if (c == '"' || c == '\\') b.append('\\').append(c); else if (c < 32 || c > 126) b.append(String.format(java.util.Locale.ROOT, "\\u%04x", (int) c)); else b.append(c); }
        return b.append('"').toString();
    }
}
