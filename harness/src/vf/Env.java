package vf;

import java.util.Map;
import java.util.SplittableRandom;
import java.util.function.Predicate;

/** What a check sees while it runs one case. */
final class Env {
    final Runner run;
    final Lib lib = new Lib();
    SplittableRandom r;

    Env(Runner run, SplittableRandom r) { this.run = run; this.r = r; }

    boolean thorough() { return run.thorough; }
    void count(String k) { run.counter(k).increment(); }
    void count(String k, long n) { run.counter(k).add(n); }
    /** One evaluation; key identifies the case for the distinct count. */
    void evaluated(String key, boolean nontrivial) { run.evaluations.increment(); if (nontrivial) run.distinct(key); }
    void evaluated(String text, Map<String, Object> data, String def, boolean nontrivial) {
        run.evaluations.increment();
        if (nontrivial) run.distinct(text + '\u0001' + (data == null ? "" : Gen.show(data)) + '\u0001' + def);
    }
    void sample(String text, Map<String, Object> data, String def, Object got) {
        if (text.length() < 200 && run.wantsSample()) run.sample(Gen.quote(text) + " with " + Gen.show(data) + (def == null ? "" : ", default field " + def) + " -> " + got);
    }
    void sample(String s) { if (s.length() < 600 && run.wantsSample()) run.sample(s); }

    X shrink(X x, Predicate<X> fails) {
        X cur = x;
        int budget = 600;
        boolean progress = true;
        try { if (!fails.test(x)) return x; } catch (RuntimeException ex) { return x; }
        while (progress && budget > 0) {
            progress = false;
            for (X y : cur.shrinks()) {
                if (budget-- <= 0) break;
                boolean f;
                try { f = y.size() < cur.size() && fails.test(y); } catch (RuntimeException ex) { f = false; }
                if (f) { cur = y; progress = true; break; }
            }
        }
        return cur;
    }
}
