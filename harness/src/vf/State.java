package vf;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import java.lang.ref.WeakReference;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.CyclicBarrier;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicReference;

/** Checks on what the library keeps, shares and survives: C18 - C21. */
final class State {

    // ---------------------------------------------------------------- C18

    static final class Retention extends Check {
        String assumes() { return "System.gc() clears weak references to unreachable objects; eviction settles within fifteen seconds of further use"; }
        String rule() { return "a caching parser (capacity 0-1000) is fed 50-6000 distinct expressions by 1-4 threads, some of them hot, then garbage is collected until at most capacity (+2) of the parsed trees and of the expression texts are still reachable; a plain parser and the evaluators must keep none (trees, texts, data maps, lists, their elements and values) after calls of all kinds, succeeding and failing, in any order; with no more keys than the capacity every repetition returns the same tree; distinct = distinct (capacity, expression)"; }
        int threads() { return 1; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            int kind = g.n(7);
            if (kind == 6) { grows(e, g); return; }
            if (kind == 0) { keepsNothing(e, g); return; }
            if (kind == 1) { hits(e, g); return; }
            int cap = g.of(0, 1, 2, 7, 20, 100, 100, 300, 1000);
            int n = Math.min(6000, 50 + cap * (2 + g.n(6)) + g.n(500));
            int threads = 1 + g.n(4);
            CachedBoolParser p = new CachedBoolParser(cap);
            List<WeakReference<Object>> nodes = Collections.synchronizedList(new ArrayList<>()), texts = Collections.synchronizedList(new ArrayList<>());
            long seed = g.r.nextLong();
            feed(e, p, cap, n, threads, seed, nodes, texts);
            // the cache does its housekeeping along with its use: it is used now and then while it settles
            Runnable use = () -> Outcome.of(() -> p.parseExpression("used = 1"));
            int live = settle(nodes, cap + 2, use, e);
            int liveTexts = settle(texts, cap + 2, use, e);
            e.count("expressions fed", n); e.count("rounds");
            e.count("trees still reachable", live);
            if (live > cap + 2 || liveTexts > cap + 2) throw new Violation("a caching parser of capacity " + cap + " keeps " + live + " trees and " + liveTexts + " expression texts after " + nodes.size() + " distinct expressions (" + threads + " threads)");
            // still a cache, and still right
            Outcome o = Outcome.of(() -> p.parseExpression("a = 1 OR b = 2"));
            if (!Lib.dump(o).equals("Bool{OR Cmp{EQUALS Field{a} Unary{INTEGER:1/Integer} type=INTEGER} Cmp{EQUALS Field{b} Unary{INTEGER:2/Integer} type=INTEGER}}")) throw new Violation("after " + n + " expressions: a = 1 OR b = 2 -> " + Lib.dump(o));
            e.sample("capacity " + cap + ": " + nodes.size() + " trees made, " + live + " reachable in the end");
            java.lang.ref.Reference.reachabilityFence(p);
        }
        private static String text(long seed, int i, SplittableRandom r) {
            // a new String every time, so that its reachability can be observed
            StringBuilder b = new StringBuilder("f").append(Long.toUnsignedString(seed, 36)).append(" = ").append(i);
            if (r.nextInt(3) == 0) b.append(" AND name = 'n").append(i).append("'");
            if (r.nextInt(5) == 0) b.append(" OR x IN (").append(i).append(", 2)");
            return b.toString();
        }
        private static void feed(Env e, CachedBoolParser p, int cap, int n, int threads, long seed, List<WeakReference<Object>> nodes, List<WeakReference<Object>> texts) {
            List<Thread> ts = new ArrayList<>();
            AtomicReference<Violation> bad = new AtomicReference<>();
            for (int t = 0; t < threads; t++) {
                final int tt = t;
                Thread th = new Thread(() -> {
                    SplittableRandom r = new SplittableRandom(seed + tt);
                    for (int i = tt; i < n && bad.get() == null; i += threads) {
                        SplittableRandom tr = new SplittableRandom(seed ^ i);
                        String s = text(seed, i, tr);
                        String def = r.nextInt(4) == 0 ? "def" + i : null;
                        Outcome o = Outcome.of(() -> def == null ? p.parseExpression(s) : p.parseExpression(s, def));
                        if (!o.ok()) { bad.set(new Violation("parsing " + s + " -> " + o)); return; }
                        nodes.add(new WeakReference<>(o.value)); texts.add(new WeakReference<>(s));
                        e.evaluated(cap + "|" + s, true);
                        if (r.nextInt(4) == 0) { String hot = text(seed, -1 - r.nextInt(5), new SplittableRandom(1)); Outcome.of(() -> p.parseExpression(hot)); }
                        if (r.nextInt(10) == 0) Outcome.of(() -> p.parseExpression(new String(s) + " AND"));
                    }
                });
                ts.add(th); th.start();
            }
            for (Thread t : ts) { try { t.join(); } catch (InterruptedException x) { throw new IllegalStateException(x); } }
            if (bad.get() != null) throw bad.get();
        }
        /** Collects garbage until no more than limit objects are reachable, for at most fifteen seconds. */
        private static int settle(List<WeakReference<Object>> refs, int limit, Runnable use, Env e) {
            long end = System.nanoTime() + 15_000_000_000L;
            int live;
            do {
                System.gc();
                e.count("collections");
                live = 0;
                for (WeakReference<Object> w : refs) if (w.get() != null) live++;
                if (live <= limit) return live;
                use.run();
                try { Thread.sleep(20); } catch (InterruptedException x) { throw new IllegalStateException(x); }
            } while (System.nanoTime() < end);
            return live;
        }
        private void keepsNothing(Env e, Gen g) {
            boolean viaCache = g.p(50);
            BoolParser p = viaCache ? new CachedBoolParser(0) : new BoolParser();
            BooleanExpressionEvaluator b = new BooleanExpressionEvaluator(p);
            ArithmeticExpressionEvaluator a = new ArithmeticExpressionEvaluator(p);
            List<WeakReference<Object>> refs = new ArrayList<>();
            int n = 100 + g.n(300);
            long seed = g.r.nextLong();
            for (int i = 0; i < n; i++) use(e, p, b, a, seed, i, refs);
            int live = settle(refs, 0, () -> { }, e);
            e.count("objects which must not be kept", refs.size());
            if (live > 0) throw new Violation((viaCache ? "a caching parser of capacity 0" : "a plain parser") + " with its evaluators keeps " + live + " of " + refs.size() + " trees, texts, data maps and values alive after use");
            java.lang.ref.Reference.reachabilityFence(p); java.lang.ref.Reference.reachabilityFence(a); java.lang.ref.Reference.reachabilityFence(b);
        }
        private static void use(Env e, BoolParser p, BooleanExpressionEvaluator b, ArithmeticExpressionEvaluator a, long seed, int i, List<WeakReference<Object>> refs) {
            SplittableRandom tr = new SplittableRandom(seed ^ i);
            String s = text(seed, i, tr);
            Map<String, Object> data = new HashMap<>();
            String name = new String("n" + i);
            List<Object> l = new ArrayList<>(List.of(1, 2, i));
            List<Object> names = new ArrayList<>(List.of(new String("m" + i), name, new String("7"))), numbers = new ArrayList<>(List.of(new BigDecimal("1.25" + i), Double.valueOf(i + 0.5), Long.valueOf(5000L + i)));
            if (i % 16 == 0) { // much of everything
                int many = new int[]{40, 200, 1100, 1100, 6000}[tr.nextInt(5)];
                for (int k = 0; k < many; k++) { data.put("extra" + k, i + k); if (tr.nextBoolean()) { l.add(i); numbers.add(k * 0.5); names.add("m" + k); } }
                e.count("large data maps");
            }
            Object date = java.time.LocalDate.of(2000 + i % 50, 1, 5), version = new org.apache.maven.artifact.versioning.ComparableVersion("1.2." + i);
            data.put("f" + Long.toUnsignedString(seed, 36), i); data.put("name", name); data.put("x", i); data.put("l", l); data.put("names", names); data.put("numbers", numbers); data.put("date", date); data.put("version", version);
            Object[] texts = {s, "MODE(l) + SUM(l, " + i + ")", "l CONTAINS_ANY (" + i + ", 7) AND name = '" + name + "'", "names CONTAINS_ALL ('" + name + "', 'm" + i + "')", "SUM(numbers) + MIN(numbers, " + i + ")", "name IN ('a', 'b', '" + name + "')",
                "name IN (name, 'b')", "x IN (l)", "LEN(numbers) + LEN(name) + " + i, "date > 1999-01-01 AND version > 1.1." + i, "version = 1.2." + i + " OR name = " + i, "x + names > " + i, "missing = " + i, "AVG(names) + " + i, "name = " + i + " AND (", "MEDIAN(numbers) > 'x" + i + "'", "name != null AND x >= " + i, "x >= 0 AND NOT (name = 'no" + i + "')"};
            Boolean[] want = {null, null, true, true, null, true, true, true, null, true, null, null, null, null, null, null, true, true};
            // in any order: whatever the library remembers of the last call of a kind is the work of any of them
            Integer[] order = new Integer[texts.length]; for (int k = 0; k < order.length; k++) order[k] = k;
            Collections.shuffle(Arrays.asList(order), new Random(seed + i));
            int calls = 1 + tr.nextInt(order.length);
            for (int k = 0; k < calls; k++) {
                String t = new String((String) texts[order[k]]);
                Boolean w = want[order[k]];
                if (tr.nextInt(4) == 0) refs.add(new WeakReference<>(Outcome.of(() -> p.parseExpression(t)).value));
                Outcome r = w == null && tr.nextBoolean() ? Outcome.of(() -> a.evaluate(t, data)) : Outcome.of(() -> b.evaluate(t, data));
                if (w != null && !(r.ok() && w.equals(r.value))) throw new Violation("evaluating " + t + " with " + Gen.show(data) + " -> " + r);
                refs.add(new WeakReference<>(t));
                e.evaluated(t, true);
            }
            for (Object x : new Object[]{data, name, l, names, numbers, date, version, names.get(0), names.get(2), numbers.get(0), numbers.get(1), numbers.get(2)}) refs.add(new WeakReference<>(x));
        }
        /** Objects of each class on the heap, after a full collection. */
        private static Map<String, Long> histogram() {
            try {
                String h = (String) java.lang.management.ManagementFactory.getPlatformMBeanServer().invoke(new javax.management.ObjectName("com.sun.management:type=DiagnosticCommand"), "gcClassHistogram", new Object[]{new String[0]}, new String[]{String[].class.getName()});
                Map<String, Long> m = new HashMap<>();
                for (String l : h.split("\n")) {
                    String[] w = l.trim().split("\\s+");
                    if (w.length >= 4 && w[0].endsWith(":")) m.merge(w[3], Long.parseLong(w[1]), Long::sum);
                }
                return m;
            } catch (Exception x) { throw new IllegalStateException(x); }
        }
        /** The library on its own must not grow either: no class gets more objects while ever new expressions are used. */
        private void grows(Env e, Gen g) {
            BoolParser p = g.p(50) ? new CachedBoolParser(g.n(4)) : new BoolParser();
            BooleanExpressionEvaluator b = new BooleanExpressionEvaluator(p);
            ArithmeticExpressionEvaluator a = new ArithmeticExpressionEvaluator(p);
            long seed = g.r.nextLong() >>> 1;
            int n = 1500;
            novel(p, b, a, seed, 0, 400);
            Map<String, Long> before = histogram();
            novel(p, b, a, seed, 400, 400 + n);
            String bad = null;
            for (int i = 0; i < 3; i++) {
                Map<String, Long> after = histogram();
                bad = null;
                for (Map.Entry<String, Long> c : after.entrySet()) {
                    long more = c.getValue() - before.getOrDefault(c.getKey(), 0L);
                    if (more > n / 2 && !c.getKey().startsWith("vf.")) bad = (bad == null ? "" : bad + ", ") + c.getKey() + " +" + more;
                }
                if (bad == null) break;
                novel(p, b, a, seed, 400 + n * (i + 1), 400 + n * (i + 2)); before = after; // growth which goes on is no warming up
            }
            if (bad != null) throw new Violation("the library keeps growing: after " + n + " further new expressions there are more objects: " + bad);
            for (int i = 0; i < n; i += 50) e.evaluated("novel" + seed + i, true);
            e.count("histograms of the heap compared"); e.count("novel expressions between histograms", n);
            java.lang.ref.Reference.reachabilityFence(p); java.lang.ref.Reference.reachabilityFence(a); java.lang.ref.Reference.reachabilityFence(b);
        }
        private static void novel(BoolParser p, BooleanExpressionEvaluator b, ArithmeticExpressionEvaluator a, long seed, int from, int to) {
            for (int k = from; k < to; k++) {
                final int i = k;
                String u = Long.toUnsignedString(seed + i, 36);
                Map<String, Object> data = new HashMap<>(), inner = new HashMap<>();
                inner.put("p" + u, i); data.put("q", inner); data.put("f" + u, "v" + u); data.put("n" + u, i); data.put("l" + u, new ArrayList<>(List.of("v" + u, "w"))); data.put("d" + u, java.time.LocalDate.of(1000 + i % 4000, 1 + i % 12, 1 + i % 28));
                Outcome.of(() -> b.evaluate("q.p" + u + " = n" + u, data));
                Outcome.of(() -> b.evaluate("f" + u + " = 'v" + u + "' AND l" + u + " CONTAINS_ALL ('v" + u + "') AND f" + u + " IN ('x" + u + "', 'v" + u + "')", data));
                Outcome.of(() -> b.evaluate("> 1." + (seed + i), data, "n" + u));
                Outcome.of(() -> b.evaluate("d" + u + " > 20" + (10 + i % 80) + "-01-02 OR f" + u + " > 1.2." + i + " OR f" + u + " != '" + (1000 + i) + "-01-01'", data));
                Outcome.of(() -> b.evaluate("absent" + u + " = " + i, data));
                Outcome.of(() -> a.evaluate("MAX(n" + u + ", " + i + ") + MODE(n" + u + ", 1." + i + ", 7) - INT(" + i + ".5) + q.p" + u + " ^ 2", data));
                Outcome.of(() -> a.evaluate("LEN(f" + u + ") + DAYS_ELAPSED(d" + u + ") / n" + u, data));
                Outcome.of(() -> a.evaluate("n" + u + " @ " + i, data));
                Outcome.of(() -> p.parseExpression("f" + u + " = 'y" + u + "'", "g" + u));
                if (i % 5 == 0) { BoolParser q = i % 10 == 0 ? new BoolParser() : new CachedBoolParser(10); Outcome.of(() -> new BooleanExpressionEvaluator(q).evaluate("n" + u + " > 1", data)); }
            }
        }
        private void hits(Env e, Gen g) {
            int cap = g.of(1, 2, 3, 10, 100, 500);
            CachedBoolParser p = new CachedBoolParser(cap);
            int k = 1 + g.n(cap);
            long seed = g.r.nextLong();
            List<String> texts = new ArrayList<>();
            List<String> defs = new ArrayList<>();
            for (int i = 0; i < k; i++) { texts.add(text(seed, g.p(80) || i == 0 ? i : i - 1, new SplittableRandom(seed ^ (i / 2)))); defs.add(g.p(60) ? null : "d" + i); }
            Map<List<String>, Object> first = new HashMap<>();
            int calls = k * (2 + g.n(4)) + 20;
            for (int c = 0; c < calls; c++) {
                int i = g.n(k);
                String t = g.p(50) ? texts.get(i) : new String(texts.get(i)), d = defs.get(i);
                Outcome o = Lib.parse(new Lib.Set(p, "cached"), t, d, e.r);
                if (!o.ok()) throw new Violation("parsing " + t + " -> " + o);
                e.evaluated(cap + "|" + t + "|" + d, true);
                Object old = first.putIfAbsent(Arrays.asList(t, d), o.value);
                if (old != null) {
                    e.count("repetitions served with the same tree");
                    if (old != o.value) throw new Violation("capacity " + cap + ", " + k + " distinct keys: a repeated expression was parsed again\n expression: " + t + " default field " + d);
                }
            }
        }
    }

    // ---------------------------------------------------------------- C19

    static final class Concurrent extends Check {
        String assumes() { return "the results of a single thread using the same library are right"; }
        record Call(int kind, String text, String def, Map<String, Object> data, String want) {}

        String rule() { return "rounds: the library is loaded afresh by a class loader which weaves schedule noise around every access to a field, array or collection; some rounds are watched for objects which several threads touch and one changes, and the places where that happens are where the first threads are held up in the following rounds; 2-6 threads start together and construct, parse and evaluate (own or shared plain and caching parsers and evaluators, shared data or calls of one kind with different data, up to 25 calls each in different orders); every single result must equal the one computed by one thread; distinct = distinct rounds (set of calls and observed order of the perturbed accesses)"; }
        int threads() { return 3; }
        int quickSeconds() { return 40; }
        int thoroughSeconds() { return 420; }

        void one(Env e) {
            Gen g = new Gen(e.r);
            // calls with the results of a single thread
            int k = 4 + g.n(10);
            List<Call> calls = new ArrayList<>();
            Lib.Set oracle = new Lib.Set(new BoolParser(), "oracle");
            boolean related = g.p(30);
            // calls of one kind only, each with its own data: they meet in the same code with different operands
            int focus = related || g.p(30) ? -1 : g.n(FOCUS);
            for (int i = 0; i < k; i++) {
                Gen c = related ? g : new Gen(e.r);
                int kind = g.n(4);
                String t; String def = null;
                if (focus >= 0) { boolean arith = focus >= 11; if (kind == 2 != arith) kind = arith ? 2 : 1; t = Printer.canonical(focused(c, focus)); if (g.p(10)) kind = 0; }
                else if (related && g.p(50)) t = g.of("MIN(l) + ", "SUM(l, ", "AVG(l, ", "MEDIAN(l, ", "MODE(l, ", "LEN(s) * (", "l CONTAINS_ANY (", "x IN (", "x = (", "v > 1.2.", "d < 2024-01-0") + (1 + g.n(9));
                else if (g.p(12)) t = Trees.damaged(g);
                else t = Printer.canonical(kind == 2 ? c.arith(1 + g.n(4), false) : c.combine(1 + g.n(4), c::cond));
                if (related && t.indexOf('(') >= 0 && t.indexOf(')') < 0) t += ")";
                if (g.p(15) && focus < 0) { t = g.of(">= ", "= ", "< ") + (1 + g.n(5)); def = g.of("x", "y", "l"); }
                if (t.length() > 1500 || t.toUpperCase(Locale.ROOT).contains("DAYS_ELAPSED")) continue;
                calls.add(new Call(kind, t, def, c.data, null));
            }
            g.data.put("l", new ArrayList<>(List.of(3, 1, 2, 3))); g.data.put("s", "abc"); g.data.put("x", 3); g.data.put("y", 4L); g.data.put("v", new org.apache.maven.artifact.versioning.ComparableVersion("1.2.5")); g.data.put("d", "2024-01-05");
            if (calls.isEmpty()) return;
            List<Call> script = new ArrayList<>();
            for (Call c : calls) {
                String want = c.kind == 0 ? ApiImpl.show(oracle.parser.parseExpression(c.text, c.def)) : c.kind == 2 ? ApiImpl.show(oracle.arith.evaluate(c.text, c.data)) : ApiImpl.show(oracle.bool.evaluate(c.text, c.data, c.def));
                script.add(new Call(c.kind, c.text, c.def, c.data, want));
            }
            Api api = g.p(60) ? Isolated.freshWithGrammar() : Isolated.fresh();
            int rounds = 1 + g.n(6);
            BitSet passed, contended;
            synchronized (COLD) { passed = (BitSet) COLD.clone(); contended = (BitSet) COLD_CONTENDED.clone(); }
            for (int i = 0; i < rounds; i++) {
                Noise.Round nr = round(e, g, api, script, i == 0, i < 2, passed, contended);
                if (i == 0) { synchronized (COLD) { COLD.or(nr.seen); COLD_CONTENDED.or(nr.contended()); } }
                if (i < 2) { passed = nr.seen; contended = nr.contended(); }
                if (i == 1) synchronized (COLD) { CONTENDED.or(contended); }
            }
        }
        private static final BitSet COLD = new BitSet(), COLD_CONTENDED = new BitSet(), CONTENDED = new BitSet();
        private static final int FOCUS = 14;
        private static X focused(Gen c, int focus) {
            switch (focus) {
                case 11: return c.arith(1 + c.n(4), false);
                case 12: return X.ari(c.of("+", "-", "*"), X.fun(c.of("MIN", "MAX", "SUM", "AVG", "MEDIAN", "MODE", "LEN"), c.field(c.listContainer(numbers(c)))), X.i(c.n(9)));
                case 13: return X.fun("INT", c.arith(c.n(2), false));
                default: return c.combine(1 + c.n(3), () -> leaf(c, focus));
            }
        }
        private static List<Object> numbers(Gen c) { List<Object> l = new ArrayList<>(); int m = 1 + c.n(5); for (int i = 0; i < m; i++) l.add(c.n(20)); return l; }
        private static X leaf(Gen c, int focus) {
            switch (focus) {
                case 0: return c.cmpNum();
                case 1: return c.cmpStr();
                case 2: return c.cmpBool();
                case 3: return c.cmpVer();
                case 4: return c.cmpDate();
                case 5: return c.cmpDt();
                case 6: return c.range();
                case 7: return c.in();
                case 8: return c.arr();
                case 9: return c.nullCheck();
                default: return c.boolLeaf();
            }
        }

        private Noise.Round round(Env e, Gen g, Api api, List<Call> script, boolean cold, boolean watch, BitSet passed, BitSet contended) {
            int threads = 2 + g.n(5), mode = g.n(4), cap = g.of(-1, -1, 0, 1, 3, 50);
            Noise.Round nr = new Noise.Round();
            nr.intensity = g.of(0, 8, 64, 400, 2000);
            nr.watch = watch;
            if (g.p(65)) {
                int[] at = new int[cold ? 1 : g.of(1, 3, 8)];
                for (int i = 0; i < at.length; i++) at[i] = Noise.choose(passed, contended, e.r, cold);
                nr.hold(at, cold ? g.of(2_000, 20_000, 60_000) : at.length == 1 ? g.of(300, 3_000, 15_000) : g.of(200, 1_000), cold || at.length == 1 ? g.of(1, 1, 2, 4) : g.of(10, 30));
            }
            CyclicBarrier start = new CyclicBarrier(threads);
            AtomicReference<String> bad = new AtomicReference<>();
            AtomicReference<Object> sharedParser = new AtomicReference<>(), sharedEv = new AtomicReference<>();
            if (mode == 0) { sharedParser.set(api.parser(cap)); sharedEv.set(api.evaluators(sharedParser.get())); }
            AtomicInteger done = new AtomicInteger();
            List<Thread> ts = new ArrayList<>();
            for (int t = 0; t < threads; t++) {
                final int tt = t;
                final long seed = g.r.nextLong();
                Thread th = new Thread(null, () -> {
                    SplittableRandom r = new SplittableRandom(seed);
                    Noise.enter(nr, tt + 1, (int) seed);
                    try {
                        start.await(60, TimeUnit.SECONDS);
                        Object p, ev;
                        if (mode == 0) { p = sharedParser.get(); ev = sharedEv.get(); }
                        else if (mode == 1) { p = api.parser(cap); ev = api.evaluators(p); }
                        else { // the first to finish shares what it made, the others made theirs in vain
                            p = api.parser(cap); ev = api.evaluators(p);
                            if (!sharedParser.compareAndSet(null, p)) p = sharedParser.get();
                            if (!sharedEv.compareAndSet(null, ev)) ev = sharedEv.get();
                        }
                        int n = 5 + r.nextInt(21);
                        for (int i = 0; i < n && bad.get() == null; i++) {
                            if (mode == 3 && r.nextInt(4) == 0) { Object q = api.parser(r.nextInt(3) - 1); if (r.nextBoolean()) { p = q; ev = api.evaluators(q); } }
                            Call c = script.get(r.nextInt(script.size()));
                            String got = c.kind == 0 ? api.parse(p, c.text, c.def) : c.kind == 2 ? api.arith(ev, c.text, c.data) : api.bool(ev, c.text, c.data, c.def);
                            done.incrementAndGet();
                            if (!got.equals(c.want)) bad.compareAndSet(null, "with " + threads + " threads (mode " + mode + ", capacity " + cap + ", call " + i + " of thread " + tt + (cold ? ", first use" : "") + ", delays in " + Noise.describe(nr.slow) + ")\n " + (c.kind == 0 ? "parse" : c.kind == 2 ? "arithmetic" : "boolean") + " " + Gen.quote(c.text) + " default field " + c.def + "\n data: " + Gen.show(c.data) + "\n one thread: " + c.want + "\n observed:   " + got);
                        }
                    } catch (Throwable x) {
                        StringBuilder b = new StringBuilder("with " + threads + " threads (mode " + mode + ", capacity " + cap + (cold ? ", first use" : "") + ") thread " + tt + " got " + x);
                        for (StackTraceElement el : x.getStackTrace()) { b.append("\n   at ").append(el); if (b.length() > 2000) break; }
                        if (x.getCause() != null) b.append("\n caused by ").append(x.getCause());
                        bad.compareAndSet(null, b.toString());
                    } finally { Noise.leave(); }
                }, "round-" + tt, 16L << 20);
                th.setDaemon(true); ts.add(th); th.start();
            }
            long end = System.nanoTime() + 90_000_000_000L;
            for (Thread t : ts) {
                try { t.join(Math.max(1, (end - System.nanoTime()) / 1_000_000)); } catch (InterruptedException x) { throw new IllegalStateException(x); }
                if (t.isAlive()) {
                    StringBuilder b = new StringBuilder();
                    for (Thread u : ts) if (u.isAlive()) { b.append("\n ").append(u.getName()).append(' ').append(u.getState()); for (StackTraceElement el : u.getStackTrace()) b.append("\n   at ").append(el); }
                    if (b.indexOf("sidhant92") < 0) throw new IllegalStateException("threads of the check are stuck" + b);
                    throw new Violation("calls did not return within 90 s with " + threads + " threads" + b);
                }
            }
            if (bad.get() != null) throw new Violation(bad.get());
            e.run.evaluations.add(done.get());
            e.run.distinct(script.hashCode() + "|" + nr.order.get() + "|" + threads + mode + cap + cold);
            e.count("rounds"); e.count(cold ? "rounds on freshly loaded classes" : "rounds on warm classes"); e.count("threads", threads);
            e.count(nr.order.get() == 7 ? "rounds without perturbation" : "perturbed rounds");
            if (watch) e.count("objects watched", nr.objects());
            if (nr.stalls.get() > 0) e.count("rounds with a thread held up at a chosen place");
            if (done.get() > 0) e.sample(threads + " threads, mode " + mode + ", capacity " + cap + ", noise " + nr.intensity + ", " + nr.stalls.get() + " delays in " + Noise.describe(nr.slow) + ": " + done.get() + " results as with one thread");
            return nr;
        }
        @Override void epilogue(Env e) {
            e.count("noise points passed", Noise.HITS.sum()); e.count("perturbations", Noise.SWITCHES.sum()); e.count("noise points woven in", Isolated.woven);
            e.count("places of contention during first use", COLD_CONTENDED.cardinality()); e.count("places of contention later", CONTENDED.cardinality());
            if (Noise.HITS.sum() == 0 || Noise.SWITCHES.sum() == 0) throw new IllegalStateException("the instrumentation was not reached");
        }
    }

    // ---------------------------------------------------------------- C20

    static final class Purity extends Check {
        String assumes() { return "the first result of a call is the yardstick for its repetitions"; }
        String rule() { return "histories of 6-40 calls: a probe expression is evaluated, then other (also failing, too deep and hostile) calls run on the same evaluators, then the probe again, with the same data, with the same content in other map and list classes, with mutation-recording containers, and under other default locales and time zones (switched while other workers run; the reference judges under them too, on dates and times which a zone skips or repeats among others): same value of the same class or same kind of failure; then the caller changes content of the same map and lists in place and the answer must be that of a fresh parser over a copy; content and identity of the data and the parsed tree are as before; distinct = distinct (probe, data)"; }
        private static final String[] LOCALES = {"en-US", "tr-TR", "ar-EG-u-nu-arab", "de-DE", "th-TH-u-ca-buddhist-nu-thai", "fa-IR-u-nu-arabext", "hi-IN-u-nu-deva", "ja-JP-u-ca-japanese", "lt-LT", "fr-FR"};
        private static final String[] ZONES = {"UTC", "Asia/Kolkata", "Pacific/Apia", "America/New_York", "Pacific/Kiritimati", "Australia/Lord_Howe", "America/Sao_Paulo"};
        private static final Lib.Set SHARED = new Lib.Set(new CachedBoolParser(50), "shared caching parser");

        /** The caller changes the content of the very same map and lists between two calls: the second answer is for the new content. */
        private static void changed(Env e, Gen g, Lib.Set s, boolean bool, String text, String def, X x) {
            int n = 1 + g.n(4);
            for (int i = 0; i < n; i++) {
                Outcome old = call(s, bool, text, g.data, def);
                String was = Gen.show(g.data);
                if (!mutate(g, g.data)) return;
                if (g.p(20)) mutate(g, g.data);
                if (g.p(20)) noise(e, g, s);
                Outcome got = call(s, bool, text, g.data, def);
                Map<String, Object> copy = new HashMap<>();
                g.data.forEach((k, v) -> copy.put(k, Watch.copy(v, g)));
                Outcome want = call(new Lib.Set(new BoolParser(), "fresh"), bool, text, copy, def);
                e.evaluated(text + "|" + was + "|changed", true);
                e.count("calls after a change of the data" + (identical(old, want) ? " (result unchanged)" : " (result changed)"));
                if (!identical(want, got)) throw new Violation("the data changed, the answer is for something else\n expression: " + Gen.quote(text) + " default field " + def + "\n data before: " + was + " -> " + old + "\n data now:    " + Gen.show(g.data) + "\n with a fresh parser and a copy of the data: " + want + "\n observed: " + got);
            }
        }
        @SuppressWarnings("unchecked")
        private static boolean mutate(Gen g, Map<String, Object> m) {
            if (m.isEmpty()) return false;
            String k = g.pick(new ArrayList<>(m.keySet()));
            Object v = m.get(k);
            try {
                if (Maps.named(v) && g.p(80)) return mutate(g, (Map<String, Object>) v);
                if (v instanceof List && g.p(70)) {
                    List<Object> l = (List<Object>) v;
                    switch (g.n(4)) { case 0: l.add(g.n(9)); return true; case 1: l.set(g.n(l.size()), g.n(9)); return true; case 2: l.remove(g.n(l.size())); return true; default: Collections.reverse(l); return true; }
                }
                if (v instanceof Object[] && ((Object[]) v).length > 0) { Object[] a = (Object[]) v; a[g.n(a.length)] = g.of((Object) g.n(9), "s" + g.n(6)); return true; }
                switch (g.n(20)) {
                    case 0: m.remove(k); return true;
                    case 1: m.put(k, null); return true;
                    case 2: m.put(k, g.of((Object) "x", 1, true, 2.5)); return true;
                    default:
                        if (v instanceof Number) m.put(k, g.numValue(g.near(RefEval.big(v)))); else if (v instanceof Boolean) m.put(k, !(Boolean) v); else if (v instanceof String) m.put(k, g.nearText((String) v) + g.of("", "1")); else if (v instanceof List) m.put(k, new ArrayList<>(List.of(1, g.n(5)))); else m.put(k, g.n(9));
                        return true;
                }
            } catch (RuntimeException unmodifiable) { m.put(k, g.n(9)); return true; }
        }

        void one(Env e) {
            Gen g = new Gen(e.r);
            if (g.p(5)) { Locale.setDefault(Locale.forLanguageTag(g.of(LOCALES))); TimeZone.setDefault(TimeZone.getTimeZone(g.of(ZONES))); e.count("switches of the default locale and time zone"); }
            if (g.p(12)) {
                // whatever locale and time zone are the default at the moment, the reference knows neither
                Gen h = new Gen(e.r);
                X c = g.p(40) ? gap(h) : h.combine(1 + h.n(3), h::cond);
                if (!Printer.canonical(c).contains("DAYS_ELAPSED")) judgeBool(e, c, h.data, null);
                e.count("judged by the reference under " + (Locale.getDefault() == Locale.ROOT && TimeZone.getDefault().getID().equals("UTC") ? "no particular" : "a foreign") + " locale and time zone");
            }
            boolean bool = g.p(60);
            X x = bool ? (g.p(75) ? g.combine(1 + g.n(4), g::cond) : Trees.any(g, 1 + g.n(3))) : g.p(80) ? g.arith(1 + g.n(5), g.p(30)) : Trees.any(g, 1 + g.n(3));
            if (x.size() > 200) return;
            if (g.p(40)) { // list operands, whose elements could be reordered or consumed
                List<Object> l = new ArrayList<>(); int k = 1 + g.n(6);
                for (int i = 0; i < k; i++) l.add(g.numValue(BigDecimal.valueOf(g.n(9) - 4)));
                String f = g.put(g.listContainer(l));
                X fun = X.fun(g.of("MIN", "MAX", "SUM", "AVG", "MEAN", "MEDIAN", "MODE"), g.p(50) ? List.of(X.fld(f)) : List.of(X.fld(f), X.i(g.n(5))));
                x = bool ? X.cmp(g.cmpOp(), fun, X.i(g.n(5))) : fun;
            }
            String text = Printer.canonical(x), def = g.p(80) ? null : "a";
            if (text.contains("DAYS_ELAPSED")) return;
            Lib.Set s = g.p(30) ? SHARED : e.lib.any(e.r);
            Map<String, Object> data = g.data;
            List<Object> before = snapshot(data);
            Outcome first = call(s, bool, text, data, def);
            unchanged(before, data, text);
            Outcome tree = Lib.parse(s, text, def, e.r);
            String dump = tree.ok() ? Lib.dump(tree) : null;
            String shown = Gen.show(data);
            int n = 2 + g.n(12);
            for (int i = 0; i < n; i++) {
                noise(e, g, s);
                int how = g.n(5);
                Outcome again; String what;
                switch (how) {
                    case 0: again = call(s, bool, text, data, def); what = "the same call again"; unchanged(before, data, text); break;
                    case 1: { Map<String, Object> copy = Watch.copyTop(data, g); List<Object> was = snapshot(copy); again = call(s, bool, text, copy, def); unchanged(was, copy, text); what = "the same data in a " + copy.getClass().getSimpleName(); break; }
                    case 2: {
                        Watch.LOG.get().setLength(0);
                        Map<String, Object> w = Watch.recording(data);
                        again = call(s, bool, text, w, def); what = "recording containers";
                        if (Watch.LOG.get().length() > 0) throw new Violation("the data was modified by an evaluation\n expression: " + Gen.quote(text) + "\n data: " + shown + "\n calls: " + Watch.LOG.get());
                        e.count("evaluations over recording containers"); break;
                    }
                    case 3: { Lib.Set o = e.lib.any(e.r); again = call(o, bool, text, data, def); what = "another evaluator (" + o.name + ")"; break; }
                    default: { Lib.Set o = new Lib.Set(s.parser, "new evaluators"); again = call(o, bool, text, data, def); what = "new evaluators over the same parser"; }
                }
                e.count("repetitions: " + (how == 1 ? "other map class" : what.replaceAll(" \\(.*", "")));
                e.evaluated(text + "|" + shown, true);
                if (!identical(first, again)) throw new Violation("the result is not a function of expression and data: " + what + " (default locale " + Locale.getDefault() + ", time zone " + TimeZone.getDefault().getID() + ")\n expression: " + Gen.quote(text) + " default field " + def + "\n data: " + shown + "\n first: " + first + "\n then:  " + again);
            }
            unchanged(before, data, text);
            if (g.p(60)) changed(e, g, s, bool, text, def, x);
            if (dump != null && !Lib.dump(tree).equals(dump)) throw new Violation("evaluations changed a parsed tree\n expression: " + Gen.quote(text) + "\n was: " + dump + "\n is:  " + Lib.dump(tree));
            if (text.length() < 150) e.sample(Gen.quote(text) + " with " + shown + " -> " + first + ", " + (n + 1) + " times");
        }
        @Override void epilogue(Env e) { Locale.setDefault(Locale.ROOT); TimeZone.setDefault(TimeZone.getTimeZone("UTC")); }

        /** dates and times which a time zone skips or has twice, compared with their neighbours */
        private static X gap(Gen g) {
            java.time.ZoneId z = g.p(60) ? TimeZone.getDefault().toZoneId() : java.time.ZoneId.of(g.of(ZONES));
            if (g.p(70)) TimeZone.setDefault(TimeZone.getTimeZone(z));
            java.time.LocalDateTime t = java.time.LocalDateTime.of(1900 + g.n(150), 1 + g.n(12), 1 + g.n(28), g.n(24), g.n(60), g.n(60));
            java.time.zone.ZoneOffsetTransition tr = z.getRules().nextTransition(t.toInstant(java.time.ZoneOffset.UTC));
            if (tr != null) { long w = Math.max(1, Math.abs(tr.getDuration().getSeconds())); t = tr.getDateTimeBefore().plusSeconds(g.p(25) ? 0 : (g.p(70) ? 1 : -1) * g.r.nextLong(w)); }
            t = t.withNano(0);
            java.time.LocalDateTime u = tr != null && g.p(50) ? g.of(tr.getDateTimeBefore(), tr.getDateTimeAfter()).plusSeconds(g.n(7200) - 3600).withNano(0) : g.p(50) ? t.plusHours(g.n(3) - 1) : g.nearDateTime(t);
            switch (g.n(4)) {
                case 0: return X.cmp(g.cmpOp(), g.dateOperand(t.toLocalDate()), g.dateOperand(g.p(50) ? u.toLocalDate() : g.nearDate(t.toLocalDate())));
                case 1: return X.in(g.put(g.p(50) ? t : Gen.fmt(t)), false, List.of(X.lit(X.K.DT, Gen.fmt(u)), X.lit(X.K.DT, Gen.fmt(t.plusHours(1))), X.lit(X.K.DT, Gen.fmt(t.minusHours(1)))));
                default: return X.cmp(g.cmpOp(), g.dtOperand(t), g.dtOperand(u));
            }
        }
        private static Outcome call(Lib.Set s, boolean bool, String text, Map<String, Object> data, String def) {
            return bool ? Outcome.of(() -> s.bool.evaluate(text, data, def)) : Outcome.of(() -> s.arith.evaluate(text, data));
        }
        static boolean identical(Outcome a, Outcome b) {
            if (a.broken != null || b.broken != null) return false;
            if (a.failed() || b.failed()) return a.failed() && b.failed() && a.failure.getClass() == b.failure.getClass();
            if (a.value instanceof Number || a.value instanceof Boolean || a.value instanceof String) return a.value.getClass() == b.value.getClass() && a.value.equals(b.value);
            return Gen.show(a.value).replaceAll("^\\w+", "").equals(Gen.show(b.value).replaceAll("^\\w+", ""));
        }
        /** something else happens on the same evaluators */
        private static void noise(Env e, Gen g, Lib.Set s) {
            Gen h = new Gen(e.r);
            switch (g.n(9)) {
                case 0: { String t = Trees.damaged(h); Outcome.of(() -> s.bool.evaluate(t, h.data)); break; }
                case 1: { String t = Printer.canonical(Trees.any(h, 2)); Outcome.of(() -> s.arith.evaluate(t, h.data)); break; }
                case 2: { Outcome.of(() -> s.bool.evaluate("a = 1", null)); break; }
                case 3: { Outcome.of(() -> s.arith.evaluate("MIN(a, b) + missing", Map.of("a", 1))); break; }
                case 4: { Outcome.of(() -> s.arith.evaluate("AVG(1, 2, 4) / 0 + 'x'", g.data)); break; }
                case 5: if (g.p(4)) { deep(e, s); } break;
                case 6: { X x = h.arith(2, false); String t = Printer.canonical(x); Outcome.of(() -> s.arith.evaluate(t, g.data)); Outcome.of(() -> s.arith.evaluate(t, h.data)); break; }
                default: { X x = h.cond(); String t = Printer.canonical(x); Outcome.of(() -> s.bool.evaluate(t, g.data)); Outcome.of(() -> s.bool.evaluate(t, h.data)); }
            }
            e.count("calls in between");
        }
        /** an expression which is too deep for the small stack of the calling thread */
        private static void deep(Env e, Lib.Set s) {
            Thread t = new Thread(null, () -> { String d = "(".repeat(3000) + "a = 1" + ")".repeat(3000); Outcome.of(() -> s.bool.evaluate(d, Map.of("a", 1))); String c = "1" + " + 1".repeat(2000); Outcome.of(() -> s.arith.evaluate(c, Map.of())); }, "deep", 400_000);
            t.start();
            try { t.join(); } catch (InterruptedException x) { throw new IllegalStateException(x); }
            e.count("calls which were too deep");
        }
        private static List<Object> snapshot(Object o) { List<Object> l = new ArrayList<>(); snap(o, l); return l; }
        private static void snap(Object o, List<Object> l) {
            l.add(o);
            if (o instanceof Map) ((Map<?, ?>) o).forEach((k, v) -> { l.add(k); snap(v, l); });
            else if (o instanceof Collection) { l.add(((Collection<?>) o).size()); for (Object v : (Collection<?>) o) snap(v, l); }
            else if (o instanceof Object[]) { l.add(((Object[]) o).length); for (Object v : (Object[]) o) snap(v, l); }
            else l.add(String.valueOf(o));
        }
        private static void unchanged(List<Object> before, Map<String, Object> data, String text) {
            List<Object> now = snapshot(data);
            boolean same = now.size() == before.size();
            for (int i = 0; same && i < now.size(); i++) { Object a = now.get(i), b = before.get(i); same = a == b || a != null && b != null && (a instanceof String || a instanceof Integer) && a.equals(b); }
            if (!same) throw new Violation("an evaluation changed the data\n expression: " + Gen.quote(text) + "\n data now: " + Gen.show(data));
        }
    }

    /** Containers with the same content as given ones, which record attempts to modify them. */
    static final class Watch {
        static final ThreadLocal<StringBuilder> LOG = ThreadLocal.withInitial(StringBuilder::new);
        private static void log(String m) { LOG.get().append(m).append(' '); }

        static final class RMap extends LinkedHashMap<String, Object> {
            boolean live;
            private void c(String m) { if (live) log("Map." + m); }
            @Override public Object put(String k, Object v) { c("put"); return super.put(k, v); }
            @Override public Object remove(Object k) { c("remove"); return super.remove(k); }
            @Override public boolean remove(Object k, Object v) { c("remove"); return super.remove(k, v); }
            @Override public void clear() { c("clear"); super.clear(); }
            @Override public void putAll(Map<? extends String, ?> m) { c("putAll"); super.putAll(m); }
            @Override public Object putIfAbsent(String k, Object v) { c("putIfAbsent"); return super.putIfAbsent(k, v); }
            @Override public Object computeIfAbsent(String k, java.util.function.Function<? super String, ?> f) { c("computeIfAbsent"); return super.computeIfAbsent(k, f); }
            @Override public Object computeIfPresent(String k, java.util.function.BiFunction<? super String, ? super Object, ?> f) { c("computeIfPresent"); return super.computeIfPresent(k, f); }
            @Override public Object compute(String k, java.util.function.BiFunction<? super String, ? super Object, ?> f) { c("compute"); return super.compute(k, f); }
            @Override public Object merge(String k, Object v, java.util.function.BiFunction<? super Object, ? super Object, ?> f) { c("merge"); return super.merge(k, v, f); }
            @Override public Object replace(String k, Object v) { c("replace"); return super.replace(k, v); }
            @Override public void replaceAll(java.util.function.BiFunction<? super String, ? super Object, ?> f) { c("replaceAll"); super.replaceAll(f); }
        }
        static final class RList extends ArrayList<Object> {
            boolean live;
            private void c(String m) { if (live) log("List." + m); }
            @Override public boolean add(Object o) { c("add"); return super.add(o); }
            @Override public void add(int i, Object o) { c("add"); super.add(i, o); }
            @Override public Object set(int i, Object o) { c("set"); return super.set(i, o); }
            @Override public Object remove(int i) { c("remove"); return super.remove(i); }
            @Override public boolean remove(Object o) { c("remove"); return super.remove(o); }
            @Override public void clear() { c("clear"); super.clear(); }
            @Override public boolean addAll(Collection<?> l) { c("addAll"); return super.addAll(l); }
            @Override public boolean removeAll(Collection<?> l) { c("removeAll"); return super.removeAll(l); }
            @Override public boolean retainAll(Collection<?> l) { c("retainAll"); return super.retainAll(l); }
            @Override public boolean removeIf(java.util.function.Predicate<? super Object> p) { c("removeIf"); return super.removeIf(p); }
            @Override public void sort(Comparator<? super Object> k) { c("sort"); super.sort(k); }
            @Override public void replaceAll(java.util.function.UnaryOperator<Object> f) { c("replaceAll"); super.replaceAll(f); }
        }
        @SuppressWarnings("unchecked")
        static Map<String, Object> recording(Map<String, Object> m) {
            RMap r = new RMap();
            m.forEach((k, v) -> r.put(k, Maps.named(v) ? recording((Map<String, Object>) v) : v instanceof List ? list((List<?>) v) : v instanceof Object[] ? ((Object[]) v).clone() : v));
            r.live = true;
            return r;
        }
        private static RList list(List<?> l) { RList r = new RList(); for (Object o : l) r.add(o instanceof List ? list((List<?>) o) : o); r.live = true; return r; }

        private static Object copy(Object v, Gen g) {
            if (Maps.named(v)) {
                Map<String, Object> m = new LinkedHashMap<>();
                ((Map<?, ?>) v).forEach((k, w) -> m.put((String) k, copy(w, g)));
                switch (g.n(5)) { case 0: return m; case 1: return Collections.unmodifiableMap(m); case 2: return new HashMap<>(m); case 3: return new TreeMap<>(m); default: return Collections.synchronizedMap(m); }
            }
            if (v instanceof List) {
                List<Object> l = new ArrayList<>();
                for (Object o : (List<?>) v) l.add(copy(o, g));
                switch (g.n(6)) { case 0: return l; case 1: return new LinkedList<>(l); case 2: return Collections.unmodifiableList(l); case 3: return Arrays.asList(l.toArray()); case 4: return new java.util.concurrent.CopyOnWriteArrayList<>(l); default: return new Vector<>(l); }
            }
            if (v instanceof Object[]) return ((Object[]) v).clone();
            if (v instanceof Set) return Collections.unmodifiableSet(new LinkedHashSet<>((Set<?>) v));
            return v;
        }
        @SuppressWarnings("unchecked")
        static Map<String, Object> copyTop(Map<String, Object> data, Gen g) {
            Map<String, Object> m = (Map<String, Object>) copy(data, g);
            switch (g.n(5)) {
                case 0: return new HashMap<>(m);
                case 1: return new TreeMap<>(m);
                case 2: { Map<String, Object> c = new ConcurrentHashMap<>(); m.forEach((k, v) -> { if (v != null) c.put(k, v); }); return c; }
                case 3: return new Hashtable<>(new ConcurrentHashMap<>(copyNonNull(m)));
                default: return m;
            }
        }
        private static Map<String, Object> copyNonNull(Map<String, Object> m) { Map<String, Object> c = new HashMap<>(); m.forEach((k, v) -> { if (v != null) c.put(k, v); }); return c; }
    }

    // ---------------------------------------------------------------- C21

    static final class Totality extends Check {
        String assumes() { return "a call which has not returned two minutes after the end of the run hangs"; }
        String rule() { return "texts (null, valid, damaged, arbitrary characters, up to 4000 levels deep, up to 100000 characters long) times default fields times data (null, empty, valid, maps that throw, values of foreign classes, non finite numbers, self-containing and mixed containers, objects whose methods throw), some of them by threads with the interrupt flag set: every call returns a Try with a value or a cause, boolean evaluations a Boolean, and the next ordinary evaluation on the same evaluators is right; calls which do not return are reported; distinct = distinct (text, default field, data)"; }
        long stackSize() { return 1L << 20; }

        @Override void prologue(Env e) {
            // classes are initialised here, on a large stack
            Gen g = new Gen(e.r);
            for (int i = 0; i < 3000; i++) { X x = Trees.any(g, 3); String t = Printer.canonical(x); Lib.Set s = e.lib.any(e.r); Lib.bool(s, t, g.data, null, e.r); Lib.arith(s, t, g.data); X y = g.combine(2, g::cond); Lib.bool(s, Printer.canonical(y), g.data, null, e.r); if (i % 200 == 0) g = new Gen(e.r); }
        }
        void one(Env e) {
            Gen g = new Gen(e.r);
            String text = text(g);
            String def = g.p(60) ? null : g.of("", " ", "a", "a.b", ".", "..", "null", "a b", "\u0000", "1", "NOT", "é");
            Map<String, Object> data = data(g);
            Lib.Set s = e.lib.any(e.r);
            boolean interrupted = g.p(6);
            if (interrupted) e.count("calls of interrupted threads", 5);
            try { call(e, g, s, text, def, data, interrupted); } finally { Thread.interrupted(); }
        }
        private void call(Env e, Gen g, Lib.Set s, String text, String def, Map<String, Object> data, boolean interrupted) {
            if (interrupted) Thread.currentThread().interrupt();
            long t0 = System.nanoTime();
            Outcome p = Lib.parse(s, text, def, e.r);
            Outcome b = Lib.bool(s, text, data, def, e.r), a = Lib.arith(s, text, data);
            long ms = (System.nanoTime() - t0) / 1_000_000;
            String key = (text == null ? "null" : text.length() > 300 ? text.substring(0, 300) + text.length() + text.hashCode() : text) + "|" + def + "|" + g.data.keySet() + g.data.size();
            e.evaluated(key, true); e.run.evaluations.add(2);
            e.count(p.ok() ? "parsed" : "not parsed"); e.count(b.ok() ? "boolean values" : "boolean failures"); e.count(a.ok() ? "arithmetic values" : "arithmetic failures");
            if (ms > 2000) e.count("calls over 2 s");
            String bad = p.broken != null ? "parseExpression " + p.broken : b.broken != null ? "boolean evaluate " + b.broken : a.broken != null ? "arithmetic evaluate " + a.broken : b.ok() && !(b.value instanceof Boolean) ? "boolean evaluate gave " + b.value.getClass() : p.ok() && !(p.value instanceof Node) ? "parse gave " + p.value.getClass() : null;
            if (bad == null && (b.failed() && b.failure instanceof VirtualMachineError || a.failed() && a.failure instanceof VirtualMachineError || p.failed() && p.failure instanceof VirtualMachineError)) bad = "a VirtualMachineError as cause";
            if (bad == null && text == null && (p.ok() || b.ok() || a.ok())) bad = "null expression: " + p + ", " + b + ", " + a;
            if (bad != null) throw new Violation(bad + " (" + s.name + ")\n expression: " + (text == null ? "null" : Gen.quote(text)) + " default field " + (def == null ? "null" : Gen.quote(def)) + "\n data: " + describe(data));
            // business as usual afterwards
            int v = g.n(1000);
            if (interrupted) Thread.currentThread().interrupt();
            Outcome c = Outcome.of(() -> s.bool.evaluate("x >= " + v + " AND NOT (name = 'b') OR MIN(x, 2) = 5", Map.of("x", v, "name", "a")));
            Outcome d = Outcome.of(() -> s.arith.evaluate("(x + 2) * " + v, Map.of("x", 3)));
            if (!c.ok() || !Boolean.TRUE.equals(c.value) || !d.ok() || !Integer.valueOf(5 * v).equals(d.value)) throw new Violation("an ordinary evaluation after a hostile one: " + c + ", " + d + " for " + v + " (" + s.name + ")\n hostile expression: " + (text == null ? "null" : Gen.quote(text)));
            if (text != null && text.length() < 80) e.sample(Gen.quote(text) + " with " + describe(data) + " -> " + kind(p) + ", " + kind(b) + ", " + kind(a));
        }
        private static String kind(Outcome o) { return o.ok() ? "success " + o.value.getClass().getSimpleName() : "failure " + o.failure.getClass().getSimpleName(); }
        static String describe(Map<String, Object> data) {
            if (data == null) return "null";
            StringBuilder b = new StringBuilder();
            try { for (Map.Entry<String, Object> e : data.entrySet()) { Object v = e.getValue(); String s; try { s = v == null || v instanceof Number || v instanceof Boolean || v instanceof String ? Gen.show(v) : "?"; } catch (RuntimeException x) { s = "?"; } b.append(e.getKey()).append('=').append(s).append('(').append(v == null ? "" : v.getClass().getName()).append(") "); if (b.length() > 1500) break; } } catch (RuntimeException x) { b.append(data.getClass().getName()); }
            return b.toString();
        }
        static String text(Gen g) {
            switch (g.n(20)) {
                case 0: return g.p(30) ? null : Syntax.Lexical.wild(g);
                case 1: case 2: return Trees.damaged(g);
                case 3: { String o = g.of("(", "NOT ", "NOT (", "- ", "-(", "MIN(", "a IN (", "a = (", "1 + (", "a AND (", "(((("); String c = o.endsWith("(") ? ")".repeat(o.length() - o.replace("(", "").length()) : ""; int n = g.p(97) ? 1 + g.n(o.startsWith("-") ? 25 : 60) : o.startsWith("-") ? 60 : o.startsWith("a IN") ? 400 : 200 + g.n(3800); /* ANTLR is cubic in nested minus signs */ return o.repeat(n) + g.of("a", "a = 1", "1", "", "true") + (g.p(80) ? c.repeat(n) : ""); }
                case 4: { int n = g.p(96) ? 1 + g.n(80) : 500 + g.n(5000); return "a" + g.of(" + 1", " AND a", " = 1", " OR b = 2", " - x", " * 2", " ^ 2", " / 3", ", 1", " > 1").repeat(n); }
                case 5: { int n = g.p(95) ? g.n(200) : 10000 + g.n(90000); return g.of("a = '", "LEN('", "'") + g.of("x", "é", "\n", "\"", "(", "\\").repeat(n) + g.of("'", "')", ""); }
                case 6: { int n = 1 + g.n(g.p(95) ? 60 : 5000); return g.of("a = ", "a > ", "", "- ", "a IN (", "INT(", "a 1 TO ") + g.of("9", "1", "0", "123456789").repeat(n) + g.of("", ".5", ".0", ".1.2", ")", "." + "7".repeat(n)); }
                case 7: { int n = 1 + g.n(g.p(95) ? 30 : 3000); return g.of("a IN (", "SUM(", "MODE(", "MEDIAN(", "AVG(", "a CONTAINS_ANY (", "a contains_all (") + g.of("1", "'x'", "a", "2.5", "l").concat(", ").repeat(n) + g.of("1", "a", "l", "'y'") + ")"; }
                case 8: return g.of("a", "b", "l", "o", "m", "self") + g.of(" = ", " > ", " != ", " + ", " * ", " ^ ", " % ", " / ") + g.of("a", "b", "l", "o", "m", "self", "m.x", "1", "'s'", "1.2.3", "2024-01-01", "true", "null");
                case 9: return g.of("MIN", "MAX", "SUM", "AVG", "MEAN", "MEDIAN", "MODE", "LEN", "INT", "DAYS_ELAPSED") + "(" + g.of("a", "b", "l", "o", "m", "self", "a, b", "l, o", "l, l", "1, a", "null", "'x'", "true", "1.2.3", "2024-01-01", "a = 1") + ")" + g.of("", " > 1", " + 1", " = 'x'");
                case 10: return g.of("a", "b", "l", "o", "m", "self") + g.of(" IN (", " CONTAINS_ANY (", " CONTAINS_ALL (", " NOT IN (") + g.of("1", "'x'", "a", "1, 2", "l", "(1 + 1)", "1, 'x'", "a = 1", "o", "2.5, 1", "null", "true", "self", "2024-01-01", "1.2.3") + ")";
                case 11: return g.of("a", "b", "l", "o", "m", "self") + " " + g.of("1", "0", "2.5", "99999999999") + " TO " + g.of("1", "5", "7.5", "99999999999");
                case 12: return "- " + g.of("a", "b", "l", "o", "m", "self");
                case 13: return g.of("a", "b", "NOT a", "o", "NOT l", "self", "m", "NOT m", "a AND o", "a OR self");
                case 14: { StringBuilder b = new StringBuilder(); int n = g.n(200); for (int i = 0; i < n; i++) b.append((char) g.n(g.p(50) ? 128 : 65536)); return b.toString(); }
                case 15: { String a = g.of("2", "10", "a", "b", "0.5", "99999999999", "1.0000001"); return a + " ^ " + g.of("a", "b", "1000000", "99999999999", "0.5", "- 5", "- 99999999999", "(9 ^ 9)") + g.of("", " ^ 9", " * 1.5", " % 7", " / 3"); }
                default: return Printer.random(g.p(50) ? g.combine(1 + g.n(4), g::cond) : Trees.any(g, 1 + g.n(4)), g.r);
            }
        }
        static final class Odd implements Comparable<Odd> {
            final int k; Odd(int k) { this.k = k; }
            private RuntimeException x() { switch (k % 4) { case 0: return new NullPointerException(); case 1: return new IllegalStateException("hostile"); case 2: return new ClassCastException("hostile"); default: return new UnsupportedOperationException(); } }
            @Override public String toString() { if (k < 4) throw x(); return k < 6 ? null : "odd"; }
            @Override public int hashCode() { if (k < 4) throw x(); return 1; }
            @Override public boolean equals(Object o) { if (k < 4) throw x(); return k % 2 == 0; }
            @Override public int compareTo(Odd o) { if (k < 4) throw x(); return 0; }
        }
        enum E { A, B }
        static final class ThrowingMap extends HashMap<String, Object> {
            final int k; ThrowingMap(int k) { this.k = k; }
            @Override public Object get(Object o) { throw k == 0 ? new NullPointerException() : k == 1 ? new IllegalStateException("hostile") : k == 2 ? new ClassCastException() : new NoSuchElementException(); }
            @Override public boolean containsKey(Object o) { throw new UnsupportedOperationException(); }
            @Override public Object getOrDefault(Object o, Object d) { return get(o); }
        }
        static final class ThrowingList extends AbstractList<Object> {
            @Override public Object get(int i) { throw new ConcurrentModificationException("hostile"); }
            @Override public int size() { return 3; }
        }
        static Object value(Gen g, int depth) {
            switch (g.n(26)) {
                case 0: return g.of(Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, -0.0d, Double.MIN_VALUE, Double.MAX_VALUE);
                case 1: return g.of(Float.NaN, Float.POSITIVE_INFINITY, Float.NEGATIVE_INFINITY, -0.0f, Float.MIN_VALUE, Float.MAX_VALUE);
                case 2: return (short) g.n(100);
                case 3: return (byte) g.n(100);
                case 4: return BigInteger.ONE.shiftLeft(g.n(300)).negate();
                case 5: return (char) g.n(65536);
                case 6: return new byte[]{1, 2};
                case 7: return new int[]{1, 2};
                case 8: return new Object[]{1, null, "x", new Odd(g.n(8))};
                case 9: return g.of(E.values());
                case 10: return Optional.of(1);
                case 11: return new Odd(g.n(8));
                case 12: return new Gen.Day(0);
                case 13: return java.time.Instant.EPOCH;
                case 14: return new StringBuilder("5");
                case 15: return new Thread();
                case 16: { List<Object> l = new ArrayList<>(); l.add(1); l.add(l); return l; }
                case 17: { Map<Object, Object> m = new HashMap<>(); m.put("self", m); m.put("x", 1); m.put(5, 5); return m; }
                case 18: return new ThrowingList();
                case 19: return new ThrowingMap(g.n(4));
                case 20: { if (depth > 2) return null; int k = g.n(5); List<Object> l = g.p(50) ? new ArrayList<>() : new LinkedList<>(); for (int i = 0; i < k; i++) l.add(g.p(60) ? (Object) g.n(5) : value(g, depth + 1)); return l; }
                case 21: { Map<Object, Object> m = new TreeMap<>((x, y) -> { throw new ClassCastException("hostile"); }); return m; }
                case 22: return new BigDecimal(BigInteger.valueOf(g.n(100)), g.n(700) - 350);
                case 23: return g.of("", " ", "0", "-", "1.5", "2024-02-30", "2024-02-29", "2024-02-29 10:00:00", "99999-01-01", "-001-01-01", "+2024-01-01", "1.2.3", "x".repeat(g.n(2000)), "\u0000");
                case 24: return new java.util.concurrent.atomic.AtomicInteger(3);
                default: return null;
            }
        }
        static Map<String, Object> data(Gen g) {
            int k = g.n(12);
            if (k == 0) return null;
            if (k == 1) return Collections.emptyMap();
            if (k == 2) return new ThrowingMap(g.n(4));
            if (k == 3) { Map<String, Object> m = new TreeMap<>(); g.data.forEach((a, b) -> m.put(a, b)); return m; }
            if (k == 4) { Map<String, Object> m = new ConcurrentHashMap<>(); g.data.forEach((a, b) -> { if (b != null) m.put(a, b); }); return m; }
            for (String n : new String[]{"a", "b", "l", "o"}) if (g.p(80)) g.data.put(n, g.p(70) ? value(g, 0) : g.numValue(g.number()));
            for (String n : new ArrayList<>(g.data.keySet())) if (g.p(25)) g.data.put(n, value(g, 0));
            Map<Object, Object> m = new HashMap<>(); m.put("x", value(g, 0)); m.put("a", 1); g.data.put("m", g.p(50) ? m : value(g, 0));
            List<Object> self = new ArrayList<>(); self.add(self); g.data.put("self", g.p(50) ? self : g.data);
            return g.data;
        }
    }
}
