package vf;

import java.util.Map;

/** One property: makes cases, runs the library on them, and judges what was observed. */
abstract class Check {
    /** how cases are made and what counts as a distinct, non-trivial one */
    abstract String rule();
    /** One generated case. */
    abstract void one(Env e);
    /** Fixed work before the generated cases, on one thread. */
    void prologue(Env e) { }
    /** After all workers are done. */
    void epilogue(Env e) { }
    int threads() { return Math.min(8, Runtime.getRuntime().availableProcessors()); }
    /** what the verdict rests on */
    String assumes() { return "the reference lexer, parser and evaluator of the harness (vf.RefParser, vf.RefEval) state the intended semantics"; }
    long stackSize() { return 64L << 20; }
    int quickSeconds() { return 30; }
    int thoroughSeconds() { return 240; }

    /** how often entries are added to the data which the expression does not refer to */
    static final ThreadLocal<Integer> decoyPercent = ThreadLocal.withInitial(() -> 10);

    // ---- the differential monitor: reference against library

    interface Judge { Outcome run(String text, X x); }

    /** Evaluates x as a condition with the library and compares with the reference. Returns the expectation. */
    static Expect judgeBool(Env e, X x, Map<String, Object> data, String def) { return judge(e, x, data, def, true); }
    static Expect judgeArith(Env e, X x, Map<String, Object> data) { return judge(e, x, data, null, false); }

    private static Expect judge(Env e, X x, Map<String, Object> data, String def, boolean bool) {
        if (e.r.nextInt(400) == 0 && data instanceof java.util.HashMap) { // much data
            for (int i = 300 + e.r.nextInt(e.r.nextInt(8) == 0 ? 100_000 : 5000); i > 0; i--) data.putIfAbsent("filler" + i, i);
            e.count("expressions over thousands of entries");
        }
        if (e.r.nextInt(100) < decoyPercent.get()) e.count("decoy entries in the data", Decoys.add(x, data, def, e.r));
        Expect want = bool ? Expect.bool(x, data, def) : Expect.arith(x, data);
        String text = e.r.nextInt(3) == 0 ? Printer.canonical(x) : Printer.random(x, e.r);
        Lib.Set s = e.lib.any(e.r);
        boolean other = e.r.nextInt(8) == 0 && data != null && Maps.strings(data);
        Map<String, Object> given = other ? Maps.odd(data, e.r) : data;
        if (other) e.count("data in other kinds of maps");
        Outcome got = bool ? Lib.bool(s, text, given, def, e.r) : Lib.arith(s, text, given);
        if (want.k == Expect.K.UNSPEC && got.broken == null) { e.count("unspecified (not judged)"); return want; }
        e.evaluated(text, data, def, want.k != Expect.K.UNSPEC);
        e.count(want.k == Expect.K.FAIL ? "expected failure" : want.v instanceof Boolean ? "expected " + want.v : "expected value");
        if (want.accepts(got)) { e.sample(text, data, def, got); return want; }
        throw mismatch(e, x, text, given, def, bool, want, got, s.name + (other ? " (data in a " + given.getClass().getName() + ")" : ""));
    }

    private static Violation mismatch(Env e, X x, String text, Map<String, Object> data, String def, boolean bool, Expect want, Outcome got, String where) {
        Lib.Set fresh = new Lib.Set(new com.github.sidhant92.boolparser.parser.antlr.BoolParser(), "fresh");
        X small = e.shrink(x, y -> {
            Expect w = bool ? Expect.bool(y, data, def) : Expect.arith(y, data);
            if (w.k == Expect.K.UNSPEC) return false;
            String t = Printer.canonical(y);
            Outcome o = bool ? Lib.bool(fresh, t, data, def, e.r) : Lib.arith(fresh, t, data);
            return !w.accepts(o);
        });
        StringBuilder b = new StringBuilder();
        b.append(bool ? "boolean" : "arithmetic").append(" evaluation with ").append(where).append("\n expression: ").append(Gen.quote(text)).append("\n data:       ").append(Gen.show(data)).append("\n default:    ").append(def)
            .append("\n expected:   ").append(want).append("\n observed:   ").append(got);
        if (small != x) {
            Expect w = bool ? Expect.bool(small, data, def) : Expect.arith(small, data);
            String t = Printer.canonical(small);
            b.append("\nreduced (fresh parser):\n expression: ").append(Gen.quote(t)).append("\n expected:   ").append(w).append("\n observed:   ").append(bool ? Lib.bool(fresh, t, data, def, e.r) : Lib.arith(fresh, t, data));
        }
        return new Violation(b.toString());
    }
}
