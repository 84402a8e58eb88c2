package vf;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.sun.management.ThreadMXBean;
import io.vavr.control.Try;
import java.lang.management.ManagementFactory;
import java.math.BigDecimal;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.function.IntFunction;

/** C30: the resources a call takes, measured as bytes allocated by its thread and fields read from the data. */
final class Costs extends Check {
    String rule() { return "families of expressions (chains, left, right and balanced nests of every operator, functions, item lists, long literals, paths, lists and texts in the data, data with many entries) at sizes from 6 to 500: bytes allocated by parsing and by evaluating, reads of each field and steps through lists without random access, as a function of the size; distinct = distinct (family, size)"; }
    String assumes() { return "bytes allocated by the calling thread stand for the work done; growth is judged with generous factors"; }

    private static final ThreadMXBean MX = (ThreadMXBean) ManagementFactory.getThreadMXBean();
    private static final int[] SIZES = {6, 9, 14, 21, 32, 60, 120, 240, 480};

    /** Counts how often each top-level key is looked up. */
    static final class Counting extends HashMap<String, Object> {
        final Map<Object, Integer> reads = new HashMap<>();
        Counting(Map<String, Object> m) { super(m); }
        private void saw(Object k) { reads.merge(k, 1, Integer::sum); }
        @Override public Object get(Object k) { saw(k); return super.get(k); }
        @Override public Object getOrDefault(Object k, Object d) { saw(k); return super.getOrDefault(k, d); }
    }
    /** A list, or only a collection, without random access, which counts the elements it steps over. */
    static final class Stepped extends java.util.AbstractSequentialList<Object> {
        final List<Object> l; long steps;
        Stepped(List<Object> l) { this.l = l; }
        @Override public int size() { return l.size(); }
        @Override public java.util.ListIterator<Object> listIterator(int at) {
            java.util.ListIterator<Object> i = l.listIterator(at);
            steps += at;
            return new java.util.ListIterator<Object>() {
                @Override public boolean hasNext() { return i.hasNext(); } @Override public Object next() { steps++; return i.next(); }
                @Override public boolean hasPrevious() { return i.hasPrevious(); } @Override public Object previous() { steps++; return i.previous(); }
                @Override public int nextIndex() { return i.nextIndex(); } @Override public int previousIndex() { return i.previousIndex(); }
                @Override public void remove() { throw new UnsupportedOperationException(); } @Override public void set(Object o) { throw new UnsupportedOperationException(); } @Override public void add(Object o) { throw new UnsupportedOperationException(); }
            };
        }
    }
    static final class Bag extends java.util.AbstractCollection<Object> {
        final Stepped s;
        Bag(Stepped s) { this.s = s; }
        @Override public int size() { return s.size(); } @Override public java.util.Iterator<Object> iterator() { return s.iterator(); }
    }
    interface Sized { X at(int n); }
    static final class Family { String name; Sized x; IntFunction<Map<String, Object>> data; boolean bool; boolean fails; }

    static X nest(int n, int shape, java.util.function.IntFunction<X> leaf, java.util.function.BinaryOperator<X> op) {
        switch (shape) {
            case 0: { X x = leaf.apply(0); for (int i = 1; i < n; i++) x = op.apply(x, leaf.apply(i)); return x; }
            case 1: { X x = leaf.apply(n - 1); for (int i = n - 2; i >= 0; i--) x = op.apply(leaf.apply(i), x); return x; }
            case 2: return balanced(0, n, leaf, op);
            default: { X x = leaf.apply(0); for (int i = 1; i < n; i++) x = i % 2 == 0 ? op.apply(x, leaf.apply(i)) : op.apply(leaf.apply(i), x); return x; }
        }
    }
    private static X balanced(int from, int to, java.util.function.IntFunction<X> leaf, java.util.function.BinaryOperator<X> op) {
        if (to - from == 1) return leaf.apply(from);
        int m = (from + to) / 2;
        return op.apply(balanced(from, m, leaf, op), balanced(m, to, leaf, op));
    }

    /** Conditions with a known small cost; want decides their value. */
    private static X leaf(Gen g, boolean want) {
        for (int i = 0; i < 20; i++) {
            X x;
            switch (g.n(9)) {
                case 0: x = g.cmpNum(); break;
                // C30 runs without stack traces, whose size grows with the depth of the tree
                case 1: x = g.p(50) ? g.cmpStr() : g.cmpBool(); break;
                case 2: { String v = g.version(3); x = X.cmp(g.cmpOp(), X.ver(v), g.field(new org.apache.maven.artifact.versioning.ComparableVersion(g.nearVersion(v, 3)))); break; }
                case 3: { java.time.LocalDate d = g.date(); x = X.cmp(g.cmpOp(), X.lit(X.K.DATE, Gen.fmt(d)), g.field(g.nearDate(d))); break; }
                case 4: x = g.range(); break;
                case 5: x = X.in(g.put(5), g.p(50), List.of(X.i(1), X.i(5), X.i(7))); break;
                case 6: x = g.nullCheck(); break;
                case 7: x = X.cmp(">", X.ari("+", g.field(3), X.i(4)), X.fun("MIN", X.i(5), X.i(7))); break;
                default: x = g.field(want);
            }
            if (Printer.canonical(x).length() > 150) continue;
            Expect w = Expect.bool(x, g.data, null);
            if (w.k != Expect.K.VALUE) continue;
            return w.v.equals(want) ? x : X.not(x);
        }
        return g.field(want);
    }

    static Family family(Gen g) {
        Family f = new Family();
        f.bool = true;
        int shape = g.n(4);
        String[] shapes = {"left", "right", "balanced", "zigzag"};
        switch (g.n(12)) {
            case 0: case 1: case 2: { // logical operators, every operand needed
                int style = g.n(3);
                List<X> yes = new ArrayList<>(), no = new ArrayList<>();
                int k = 1 + g.n(5);
                for (int i = 0; i < k; i++) { yes.add(leaf(g, true)); no.add(leaf(g, false)); }
                boolean nots = g.p(30);
                f.name = new String[]{"AND", "OR", "AND/OR"}[style] + " " + shapes[shape] + (nots ? " with NOT" : "") + " over " + yes + no;
                f.x = n -> {
                    int[] c = {0};
                    java.util.function.BinaryOperator<X> op = style == 0 ? X::and : style == 1 ? X::or : (a, b) -> c[0]++ % 2 == 0 ? X.and(a, b) : X.or(a, b);
                    return nest(n, shape, i -> { X l = style == 1 ? no.get(i % k) : yes.get(i % k); return nots && i % 3 == 0 ? X.not(X.not(l)) : l; }, op);
                };
                break;
            }
            case 3: { X l = leaf(g, true); f.name = "NOT nest over " + l; f.x = n -> { X x = l; for (int i = 0; i < n; i++) x = X.not(x); return x; }; break; }
            case 4: case 5: { // arithmetic
                f.bool = false;
                List<X> leaves = new ArrayList<>();
                int k = 1 + g.n(4);
                String op = g.of("+", "-", "*", "/", "%", "mixed");
                boolean sum = op.equals("+") || op.equals("-") || op.equals("mixed");
                for (int i = 0; i < k; i++) leaves.add(sum ? g.of(g.field(g.n(50)), X.i(g.n(9)), g.field(1.5), X.fun("MAX", g.field(3), X.i(2))) : op.equals("%") ? X.i(1 + g.n(9)) : g.of(X.i(1), g.field(1), g.field(-1), g.field(1L)));
                if (op.equals("mixed")) for (int i = 0; i < k; i++) leaves.set(i, X.ari(g.of("*", "/"), leaves.get(i), X.i(2)));
                f.name = "arithmetic " + op + " " + shapes[shape] + " over " + leaves;
                f.x = n -> nest(n, shape, i -> leaves.get(i % k), (a, b) -> X.ari(op.equals("mixed") ? "+" : op, a, b));
                f.fails = op.equals("%");
                if (g.p(50)) { Sized inner = f.x; f.bool = true; f.x = n -> X.cmp(">", inner.at(n), X.i(3)); f.name += " in a comparison"; }
                break;
            }
            case 6: { f.bool = false; String fn = g.of(Gen.AGGS); boolean fields = g.p(50); X a = g.field(3), b = g.field(2.5); f.name = fn + " of n arguments " + (fields ? "of fields" : "of literals"); f.x = n -> { List<X> l = new ArrayList<>(); for (int i = 0; i < n; i++) l.add(fields ? i % 2 == 0 ? a : b : X.i(i)); return X.fun(fn, l); }; break; }
            case 7: { f.bool = false; String fn = g.of("MIN", "MAX", "SUM", "AVG", "INT"); X a = g.field(3); boolean two = !fn.equals("INT") && g.p(50); f.name = fn + " nest" + two; f.x = n -> { X x = a; for (int i = 0; i < n; i++) x = two ? X.fun(fn, X.i(1), x) : X.fun(fn, x); return x; }; break; }
            case 8: { int kind = g.n(4); String nf = g.put(7), sf = g.put("s"), lf = g.put(List.of("a", "b")); X v = g.field(1); f.name = "n items " + kind; f.x = n -> { List<X> l = new ArrayList<>(); for (int i = 0; i < n; i++) l.add(kind == 0 ? X.i(i + 20) : kind == 1 ? X.str("x" + i) : kind == 2 ? X.str(i % 2 == 0 ? "a" : "b") : X.ari("+", v, X.i(i + 20))); return kind == 0 || kind == 3 ? X.in(nf, false, l) : kind == 1 ? X.in(sf, true, l) : X.all(lf, l); }; break; }
            case 9: { int kind = g.n(5); f.name = "length " + kind; X s = g.field("s"), a = g.field(1), v = g.field(new org.apache.maven.artifact.versioning.ComparableVersion("1.2.3")); f.fails = false;
                f.x = n -> kind == 0 ? X.cmp("=", s, X.str("x".repeat(20 * n))) : kind == 1 ? X.cmp("<", a, X.lit(X.K.DEC, "1." + "1".repeat(n))) : kind == 2 ? X.cmp("<", v, X.ver("1.2" + ".1".repeat(n))) : kind == 3 ? X.cmp("=", X.fld("q_path" + ".b".repeat(n)), X.fld("null")) : X.fld("field" + "x".repeat(20 * n)); if (kind == 4) f.data = n -> { Map<String, Object> m = new LinkedHashMap<>(g.data); m.put("field" + "x".repeat(20 * n), true); return m; }; break; }
            case 10: { // values in the data
                int kind = g.n(5); f.bool = kind == 0 || kind == 1 || kind == 4; String fn = g.of(Gen.AGGS); f.name = "data " + kind + fn;
                f.x = n -> kind == 0 ? X.any("big", List.of(X.i(-1), X.i(-2))) : kind == 1 ? X.in("one", true, List.of(X.fld("big"))) : kind == 2 ? X.fun(fn, X.fld("big")) : kind == 3 ? X.fun("LEN", X.fld("big")) : X.cmp("=", X.fld("text"), X.fld("text2"));
                f.data = n -> { Map<String, Object> m = new LinkedHashMap<>(g.data); List<Object> l = new ArrayList<>(); for (int i = 0; i < n; i++) l.add(kind == 2 && i % 5 == 0 ? (Object) BigDecimal.valueOf(i, 1) : (Object) (i * 7 % 1000)); m.put("big", l); m.put("one", -3); m.put("text", "y".repeat(20 * n)); m.put("text2", "y".repeat(20 * n)); return m; };
                break;
            }
            default: { X l = leaf(g, true), r = leaf(g, true); f.name = "entries in the data, " + l + r; f.x = n -> X.and(l, r); f.data = n -> { Map<String, Object> m = new LinkedHashMap<>(g.data); for (int i = 0; i < n * 20; i++) m.put("other" + i, i); return m; }; }
        }
        if (f.data == null) f.data = n -> g.data;
        return f;
    }

    private static long bytes() { return MX.getThreadAllocatedBytes(Thread.currentThread().getId()); }
    private static void occurrences(X x, Map<String, Integer> out) {
        if ((x.k == X.K.FLD || x.k == X.K.RANGE || x.k == X.K.IN || x.k == X.K.ARR) && x.s != null) out.merge(x.s.split("\\.")[0], 1, Integer::sum);
        for (X c : x.c) occurrences(c, out);
    }

    /** {bytes parsing, bytes evaluating} for one member of the family; checks the field reads on the way. */
    private long[] measure(Env e, Family f, int n, int reps) {
        X x = f.x.at(n);
        Map<String, Object> data = f.data.apply(n);
        String text = Printer.canonical(x);
        Lib.Set s = new Lib.Set(new com.github.sidhant92.boolparser.parser.antlr.BoolParser(), "plain");
        long parse = Long.MAX_VALUE, eval = Long.MAX_VALUE;
        Node tree = null;
        for (int i = 0; i <= reps; i++) {
            long a = bytes();
            Try<Node> t = s.parser.parseExpression(text);
            long b = bytes() - a;
            if (t.isFailure()) throw new Violation("a valid expression of the family \"" + f.name + "\" of size " + n + " was not parsed: " + t.getCause());
            tree = t.get();
            if (i > 0) parse = Math.min(parse, b);
        }
        Laws.Foreign p = new Laws.Foreign();
        p.answer = Try.success(tree);
        BooleanExpressionEvaluator be = new BooleanExpressionEvaluator(p); ArithmeticExpressionEvaluator ae = new ArithmeticExpressionEvaluator(p);
        Try<?> r = null;
        for (int i = 0; i <= reps; i++) {
            long a = bytes();
            r = f.bool ? be.evaluate(text, data) : ae.evaluate(text, data);
            long b = bytes() - a;
            if (i > 0) eval = Math.min(eval, b);
            p.asked.clear();
        }
        Stepped stepped = data.get("big") instanceof List ? new Stepped(new ArrayList<>((List<?>) data.get("big"))) : null;
        if (stepped != null) {
            Map<String, Object> m = new LinkedHashMap<>(data);
            m.put("big", e.r.nextInt(3) == 0 ? new Bag(stepped) : stepped);
            if (f.bool) be.evaluate(text, m); else ae.evaluate(text, m);
            p.asked.clear();
            e.count("steps through lists counted", stepped.steps);
            if (stepped.steps > 50L * n + 300) throw new Violation("family \"" + f.name + "\": evaluation steps " + stepped.steps + " times through a " + (m.get("big") instanceof List ? "list" : "collection") + " of " + n + " elements without random access");
        }
        Counting c = new Counting(data);
        if (f.bool) be.evaluate(text, c); else ae.evaluate(text, c);
        Map<String, Integer> occ = new HashMap<>();
        occurrences(x, occ);
        for (Map.Entry<Object, Integer> en : c.reads.entrySet()) {
            int o = occ.getOrDefault(en.getKey(), 0);
            if (en.getValue() > 4 * o + 4) throw new Violation("family \"" + f.name + "\", size " + n + ": the field " + en.getKey() + " occurs " + o + " times but was read " + en.getValue() + " times");
        }
        e.evaluated(f.name + n, true); e.count(r.isSuccess() ? "evaluations measured" : "failing evaluations measured"); e.count("field reads counted", c.reads.values().stream().mapToInt(Integer::intValue).sum());
        return new long[]{parse, eval};
    }
    /** steps are at most a doubling (so quadratic growth stays below four-fold), the whole way at most about n^1.6 */
    private static String judge(long[] cost, int upTo, String what) {
        int i = upTo;
        if (i > 0 && cost[i] > 5 * cost[i - 1] + 200_000) return what + " takes " + cost[i] + " bytes at size " + SIZES[i] + " but " + cost[i - 1] + " at size " + SIZES[i - 1];
        for (int j = 4; j <= i - 3; j++) if (SIZES[i] >= 8 * SIZES[j] - 40 && cost[i] > 27 * cost[j] + 200_000) return what + " takes " + cost[i] + " bytes at size " + SIZES[i] + " but " + cost[j] + " at size " + SIZES[j];
        return null;
    }
    /** Texts on which a careless pattern or loop takes time out of proportion: long runs with something odd at one end. */
    private static String run(Gen g, int n, String[] odd) {
        String unit = odd[0];
        StringBuilder b = new StringBuilder(odd[1]);
        while (b.length() < n) b.append(unit);
        return b.append(odd[2]).toString();
    }
    private static final String[] UNITS = {"1", "0", "9", "a", " ", "\t", ".", "1.", "-", "2024-", "01-", "2024-01-01 ", "a.", "_", "1 ", ",", "(", "\\", "aA", "10:", "e", "é", "-1", "+", "T", "\u00a0", "x1"};
    private static final String[] ENDS = {"", "", "x", "!", "-", ".", " ", "'", "1", "e9", "\n", "2024-01-01"};
    private void hostile(Env e, Gen g) {
        String[] odd = {g.of(UNITS), g.of(ENDS).replace("'", ""), g.of(ENDS).replace("'", "")};
        if (g.p(25)) odd[0] = g.of(UNITS) + g.of(UNITS);
        int kind = g.n(12);
        String op = g.cmpOp(), fn = g.of(Gen.AGGS);
        StringBuilder times = new StringBuilder();
        for (int n : new int[]{12, 24, 40, 80, 300, 1500, 6000}) {
            String v = run(g, n, odd), text;
            Map<String, Object> data = new HashMap<>();
            data.put("s", v); data.put("n", 5); data.put("d", java.time.LocalDate.of(2024, 1, 1)); data.put("l", java.util.Arrays.asList(v, "x", v + "y"));
            boolean bool = true, parseable = v.indexOf('\'') < 0;
            switch (kind) {
                case 0: text = "s " + op + " 'x'"; break;
                case 1: text = "s " + op + " n OR s " + op + " s"; break;
                case 2: text = "s IN ('x', 5, l) OR n = 1"; break;
                case 3: text = "l CONTAINS_ANY ('x', 'q')"; break;
                case 4: text = g.of("LEN(s)", "s + s", "-s", "s * 2", "INT(s)", fn + "(s, n)", fn + "(l)", "DAYS_ELAPSED(s)"); bool = false; break;
                case 5: text = "s " + op + " '" + v.replace("\\", "") + "'"; break;
                case 6: text = "n " + op + " \"" + v.replace("\\", "").replace("\"", "") + "\""; break;
                case 7: text = "s" + " ".repeat(n) + op + "\t".repeat(n) + "'x'" + "\n".repeat(n); break;
                case 8: text = "n " + op + " " + "1234567890".repeat(n / 10) + "." + "5".repeat(n); break;
                case 9: text = "n " + op + " 1" + ".1".repeat(n); break;
                case 10: text = "s " + op + " d"; break;
                default: if (n > 400 || odd[0].contains("-")) return; text = v; // as an expression of its own, malformed as a rule
            }
            long start = MX.getCurrentThreadCpuTime();
            for (int i = 0; i < 2; i++) {
                Outcome p = Lib.parse(e.lib.any(e.r), text, null, e.r);
                if (p.broken != null && kind != 11) throw new Violation(p.broken + "\n parsing " + Gen.quote(text));
                if (p.ok()) { Outcome o = bool ? Lib.bool(e.lib.any(e.r), text, data, null, e.r) : Lib.arith(e.lib.any(e.r), text, data); if (o.broken != null) throw new Violation(o.broken + "\n evaluating " + Gen.quote(text)); }
                e.count("calls on long runs of characters timed");
            }
            long ms = (MX.getCurrentThreadCpuTime() - start) / 1_000_000;
            times.append(v.length()).append(": ").append(ms).append(" ms; ");
            if (ms > 12_000) throw new Violation("parsing and evaluating twice takes " + ms + " ms of processor time with a run of " + v.length() + " characters\n expression: " + Gen.quote(text.length() > 300 ? text.substring(0, 300) : text) + "\n run of " + Gen.quote(odd[0]) + " after " + Gen.quote(odd[1]) + " before " + Gen.quote(odd[2]) + "\n " + times);
        }
        e.evaluated("hostile " + kind + java.util.Arrays.toString(odd), true);
    }
    void one(Env e) {
        Gen g = new Gen(e.r);
        if (g.p(20)) { hostile(e, g); return; }
        Family f = family(g);
        long[] parse = new long[SIZES.length], eval = new long[SIZES.length];
        boolean flat = f.name.startsWith("entries in the data");
        for (int i = 0; i < SIZES.length; i++) {
            long[] m = measure(e, f, SIZES[i], 2);
            parse[i] = m[0]; eval[i] = m[1];
            String bad = verdict(parse, eval, i, flat);
            if (bad != null) { // measure again, calmly
                for (int k = 0; k <= i; k++) { m = measure(e, f, SIZES[k], 8); parse[k] = k == i ? Math.min(parse[k], m[0]) : Math.max(parse[k], m[0]); eval[k] = k == i ? Math.min(eval[k], m[1]) : Math.max(eval[k], m[1]); }
                e.count("measured again");
                bad = verdict(parse, eval, i, flat);
                if (bad != null) throw new Violation("cost out of step with size\n family: " + f.name + "\n " + bad + "\n parsing:    " + java.util.Arrays.toString(java.util.Arrays.copyOf(parse, i + 1)) + "\n evaluating: " + java.util.Arrays.toString(java.util.Arrays.copyOf(eval, i + 1)) + "\n sizes:      " + java.util.Arrays.toString(java.util.Arrays.copyOf(SIZES, i + 1)));
            }
        }
        int last = SIZES.length - 1;
        e.count("families"); e.count("largest parse/size32 parse, sum", parse[last] / Math.max(1, parse[4])); e.count("largest eval/size32 eval, sum", eval[last] / Math.max(1, eval[4]));
        e.sample(f.name + ": parsing " + parse[4] + " bytes at 32, " + parse[last] + " at 480; evaluating " + eval[4] + ", " + eval[last]);
    }
    private static String verdict(long[] parse, long[] eval, int i, boolean flat) {
        if (flat && i > 0 && eval[i] > 3 * eval[0] + 20_000) return "evaluation takes " + eval[i] + " bytes with " + 20 * SIZES[i] + " unrelated entries in the data but " + eval[0] + " with " + 20 * SIZES[0];
        String s = judge(parse, i, "parsing");
        return s != null ? s : judge(eval, i, "evaluation");
    }
}
