package vf;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import io.vavr.control.Try;
import java.io.InputStream;
import java.io.OutputStream;
import java.io.PrintStream;
import java.security.Permission;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.Properties;
import java.util.Queue;
import java.util.TimeZone;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.atomic.LongAdder;

/** C34 (nothing happens but the result) and C35 (any entry point may be the first). */
final class Effects {
    private Effects() { }

    // ------------------------------------------------------------------ C34

    /** What one thread does while it is in a call of the library. */
    static final class Spy {
        static final ThreadLocal<Spy> CURRENT = new ThreadLocal<>();
        static final LongAdder permissions = new LongAdder();
        /** what other threads did that have the library on their stack */
        static final Queue<String> ELSEWHERE = new ConcurrentLinkedQueue<>();
        final StringBuilder out = new StringBuilder(), err = new StringBuilder();
        final List<String> acts = new ArrayList<>();
        private boolean busy;

        static void act(String what) {
            Spy s = CURRENT.get();
            if (s == null || s.busy) return;
            s.busy = true;
            try {
                // the common pool, which the cache's maintenance uses, is not the library's own
                boolean pool = StackWalker.getInstance().walk(f -> f.anyMatch(x -> x.getClassName().startsWith("java.util.concurrent.ForkJoin") || x.getClassName().startsWith("java.util.concurrent.CompletableFuture")));
                if (!pool && s.acts.size() < 5) s.acts.add(what + where());
            } finally { s.busy = false; }
        }
        static String where() {
            return StackWalker.getInstance().walk(f -> f.filter(x -> x.getClassName().startsWith("com.github.sidhant92")).findFirst()).map(x -> " (in " + x + ")").orElse("");
        }
        /** Does library code call, as the innermost of its frames, something of java.io or java.nio? */
        static boolean ownRead() {
            return StackWalker.getInstance().walk(f -> {
                String callee = "";
                for (StackWalker.StackFrame x : (Iterable<StackWalker.StackFrame>) f::iterator) {
                    String c = x.getClassName();
                    if (c.startsWith("java.lang.ClassLoader") || c.startsWith("jdk.internal.loader")) return false;
                    if (c.startsWith("com.github.sidhant92")) return callee.startsWith("java.io.") || callee.startsWith("java.nio.") || callee.startsWith("java.util.Scanner") || callee.startsWith("java.util.zip") || callee.startsWith("java.util.jar") || callee.startsWith("java.net.");
                    callee = c;
                }
                return false;
            });
        }
        static boolean libraryOnStack() { return StackWalker.getInstance().walk(f -> f.anyMatch(x -> x.getClassName().startsWith("com.github.sidhant92"))); }
    }

    /** Records what library calls ask permission for; permits everything. */
    @SuppressWarnings("removal")
    static final class Guard extends SecurityManager {
        @Override public void checkPermission(Permission p) {
            if (Spy.CURRENT.get() == null) return;
            Spy.permissions.increment();
            String n = p.getName(), k = p.getClass().getSimpleName();
            switch (k) {
                case "FilePermission": if (!p.getActions().equals("read")) Spy.act("file " + p.getActions() + " " + n); else if (Spy.ownRead()) Spy.act("file read " + n); break;
                case "SocketPermission": case "NetPermission": case "URLPermission": Spy.act("network " + n); break;
                case "PropertyPermission": if (p.getActions().contains("write")) Spy.act("property write " + n); break;
                case "LoggingPermission": Spy.act("logging " + n); break;
                case "RuntimePermission":
                    if (n.startsWith("exitVM") || n.equals("setIO") || n.equals("shutdownHooks") || n.equals("setContextClassLoader") || n.equals("modifyThread") || n.equals("modifyThreadGroup") || n.equals("stopThread") || n.equals("setDefaultUncaughtExceptionHandler") || n.equals("setSecurityManager") || n.startsWith("loadLibrary")) Spy.act("runtime " + n);
                    break;
                default:
            }
        }
        @Override public void checkPermission(Permission p, Object c) { checkPermission(p); }
        @Override public void checkAccess(Thread t) { if (Spy.CURRENT.get() != null && t != Thread.currentThread()) Spy.act("change of thread " + t.getName()); }
        @Override public void checkAccess(ThreadGroup g) { if (Spy.CURRENT.get() != null) Spy.act("new thread or change of thread group"); }
        @Override public void checkExec(String c) { Spy.act("process " + c); }
    }

    /** A stream which tells whose writes are whose. */
    private static PrintStream spied(PrintStream to, boolean err) {
        return new PrintStream(new OutputStream() {
            @Override public void write(int b) { write(new byte[]{(byte) b}, 0, 1); }
            @Override public void write(byte[] b, int o, int n) {
                Spy s = Spy.CURRENT.get();
                if (s != null) { StringBuilder t = err ? s.err : s.out; if (t.length() < 500) t.append(new String(b, o, n, java.nio.charset.StandardCharsets.UTF_8)); return; }
                if (Thread.currentThread().getName().startsWith("worker-") || !Spy.libraryOnStack()) { to.write(b, o, n); return; }
                if (Spy.ELSEWHERE.size() < 10) Spy.ELSEWHERE.add("a thread of the library's, " + Thread.currentThread().getName() + ", writes to a standard stream" + Spy.where());
            }
        }, true);
    }

    /** What may not change: the state of the process and of the calling thread. */
    private static Map<String, Object> state() {
        Thread t = Thread.currentThread();
        Map<String, Object> m = new LinkedHashMap<>();
        m.put("default locale", Locale.getDefault());
        m.put("display locale", Locale.getDefault(Locale.Category.DISPLAY));
        m.put("format locale", Locale.getDefault(Locale.Category.FORMAT));
        m.put("default time zone", TimeZone.getDefault());
        m.put("system properties", new Properties() {{ putAll(System.getProperties()); }});
        m.put("System.out", System.out); m.put("System.err", System.err); m.put("System.in", System.in);
        m.put("default handler of uncaught exceptions", String.valueOf(Thread.getDefaultUncaughtExceptionHandler()));
        m.put("thread name", t.getName()); m.put("thread priority", t.getPriority());
        m.put("context class loader", String.valueOf(t.getContextClassLoader()));
        m.put("handler of uncaught exceptions", String.valueOf(t.getUncaughtExceptionHandler()));
        m.put("security manager", String.valueOf(System.getSecurityManager()));
        m.put("level of the root logger", java.util.logging.LogManager.getLogManager().getLogger("").getLevel());
        return m;
    }

    static final class Silent extends Check {
        String rule() { return "constructions, parses and evaluations of every kind (well-formed, damaged, null and too deep texts; data of every kind, lacking entries) run under a monitor of the process: standard streams, log records, permission checks (files, network, processes, properties, threads, exit), default locale and zone, system properties, and the calling thread's interrupt status (set or not before the call), name, priority, context class loader and handlers; threads alive at the end; distinct = distinct (text, data)"; }
        String assumes() { return "the JVM asks the security manager before it touches files, network, processes, properties or threads; reading class files and the JDK's own resources does not count, nor does the common pool, on which the cache's maintenance may run"; }

        // taken when the check is made, before any class of the library is loaded
        private final java.util.Set<Thread> before = Thread.getAllStackTraces().keySet();

        @SuppressWarnings("removal")
        @Override void prologue(Env e) {
            // settings which no code would set by chance
            Gen pick = new Gen(e.r);
            Locale.setDefault(Locale.forLanguageTag(pick.of("tr-TR", "th-TH-u-ca-buddhist", "lt-LT", "hi-IN", "de-CH")));
            TimeZone.setDefault(TimeZone.getTimeZone(pick.of("Asia/Kathmandu", "America/St_Johns", "Pacific/Chatham", "Australia/Eucla")));
            System.setOut(spied(System.out, false)); System.setErr(spied(System.err, true));
            System.setIn(new InputStream() { @Override public int read() { Spy.act("standard input read"); return -1; } });
            java.util.logging.Logger root = java.util.logging.LogManager.getLogManager().getLogger("");
            for (java.util.logging.Handler h : root.getHandlers()) root.removeHandler(h);
            root.addHandler(new java.util.logging.Handler() {
                @Override public void publish(java.util.logging.LogRecord r) { Spy.act("log record " + r.getLevel() + " " + r.getMessage()); }
                @Override public void flush() { } @Override public void close() { }
            });
            Guard guard = new Guard();
            // everything the guard itself needs is loaded before it is put in place
            Spy.CURRENT.set(new Spy());
            try { for (Permission p : List.of(new RuntimePermission("setIO"), new java.io.FilePermission("x", "read"), new java.io.FilePermission("x", "write"), new java.util.PropertyPermission("x", "write"))) guard.checkPermission(p, null); guard.checkAccess(Thread.currentThread()); guard.checkExec("x"); Spy.libraryOnStack(); }
            finally { Spy.CURRENT.remove(); }
            System.setSecurityManager(guard);
            // the monitor sees what it should see
            selfTest("out", () -> System.out.print("x")); selfTest("err", () -> System.err.print("x"));
            selfTest("property", () -> System.setProperty("vf.selftest", System.getProperty("vf.selftest", "1")));
            selfTest("log", () -> java.util.logging.Logger.getLogger("vf").warning("x"));
            selfTest("thread", () -> new Thread(() -> { }));
            selfTest("file", () -> new java.io.File(System.getProperty("vf.root"), "no-such-directory/x").delete());
            e.count("self tests of the monitor", 6);
        }
        private static void selfTest(String what, Runnable r) {
            Spy s = new Spy();
            Spy.CURRENT.set(s);
            try { r.run(); } finally { Spy.CURRENT.remove(); }
            if (s.acts.isEmpty() && s.out.length() == 0 && s.err.length() == 0) throw new IllegalStateException("the monitor does not see " + what);
        }

        void one(Env e) {
            Gen g = new Gen(e.r);
            boolean bool = g.p(60), deep = false; String text, def = null; Map<String, Object> data = g.data;
            switch (g.n(20)) {
                case 0: text = g.of(null, "", " ", "'", "((((", "a = ", "NOT", "9999999999999999999999 = a"); break;
                case 1: { int n = g.p(80) ? 20 + g.n(300) : 6000; deep = n > 1000; text = "(".repeat(n) + "a = 1" + ")".repeat(n); break; }
                case 2: case 3: case 4: case 5: text = Trees.damaged(g); for (String n : List.of("a", "b", "x1")) if (g.p(60)) data.putIfAbsent(n, Frames.value(g)); break;
                case 7: {
                    String n = g.freshName();
                    data.put(n, g.of(new java.util.TreeMap<>(Map.of(1, 2)), new java.util.TreeMap<>(Map.of("b", 1)), Map.of("b", 1), Map.of(), new java.util.concurrent.ConcurrentHashMap<>(), new java.util.EnumMap<>(java.time.DayOfWeek.class), new java.util.Hashtable<>(), new java.util.IdentityHashMap<>(), new State.Totality.ThrowingMap(g.n(4)), Map.of(1, "b")));
                    X f = X.fld(n + g.of(".b", ".b.c", ".null", ".1"));
                    X x = g.of(X.cmp(g.cmpOp(), f, X.i(1)), X.cmp("=", f, X.fld("null")), X.in(f.s, g.p(50), List.of(X.i(1))), X.range(f.s, X.i(1), X.i(2)), X.any(n, List.of(X.i(1))));
                    bool = true; text = Printer.random(x, e.r);
                    break;
                }
                case 6: text = Printer.random(X.cmp(g.cmpOp(), X.fun("DAYS_ELAPSED", g.dateOperand(g.date())), X.i(g.n(900))), e.r); break;
                case 8: { // much of something: long lists, long texts, long chains
                    e.count("large inputs");
                    int k = g.of(40, 120, 400, 1100, 2500); List<Object> l = new ArrayList<>(); List<X> items = new ArrayList<>();
                    for (int i = 0; i < k; i++) { l.add(g.n(500)); items.add(X.i(g.n(900))); }
                    String f = g.put(g.listContainer(l)), v = g.put(g.n(600)), t = g.put("t".repeat(k));
                    X num = g.of(X.fun(g.of(Gen.AGGS), g.p(50) ? List.of(X.fld(f)) : items), X.fun("LEN", X.fld(g.of(f, t))));
                    X x = g.n(5) == 0 ? g.of(X.any(f, items), X.all(f, items.subList(0, 1 + g.n(20)))) : g.n(4) == 0 ? X.in(g.p(50) ? v : f, g.p(50), g.p(50) ? items : List.of(X.fld(f))) : g.n(3) == 0 ? X.cmp("=", X.fld(t), X.str("t".repeat(k))) : X.cmp(g.cmpOp(), num, X.i(g.n(900)));
                    text = Printer.random(bool ? x : num, e.r);
                    break;
                }
                default: { X x = Frames.tree(g, bool); if (g.p(15)) Frames.removeSome(g); text = Printer.random(x, e.r); }
            }
            if (text != null && text.length() > 20000) return;
            if (bool && g.p(15)) def = g.p(70) ? g.put(Frames.value(g)) : "absent";
            if (g.p(2)) data = null; else if (g.p(2)) data = new State.Totality.ThrowingMap(g.n(4));
            boolean wellFormed = text != null && !deep && RefParser.parse(text) != null, interrupted = g.p(30);
            final String s = text, d = def; final Map<String, Object> m = data;
            int kind = g.n(20);
            Lib.Set[] set = {e.lib.any(e.r)};
            final Outcome[] o = new Outcome[1];
            Spy spy = new Spy();
            Map<String, Object> was = state();
            long threads = e.r.nextInt(200) == 0 ? 1 : 0;
            if (interrupted) Thread.currentThread().interrupt();
            boolean now;
            Spy.CURRENT.set(spy);
            try {
                if (kind == 0) { BoolParser p = g.p(50) ? new BoolParser() : new CachedBoolParser(g.n(5)); set[0] = new Lib.Set(p, "new parser"); }
                o[0] = kind < 6 ? Lib.parse(set[0], s, d, e.r) : bool ? Lib.bool(set[0], s, m, d, e.r) : Lib.arith(set[0], s, m);
            } finally { Spy.CURRENT.remove(); now = Thread.interrupted(); }
            if (e.r.nextInt(400) == 0) {
                // the first use of a copy of the library of its own
                Spy.CURRENT.set(spy);
                try { Api api = Isolated.fresh(); Object p = api.parser(g.p(50) ? -1 : 3); if (s != null && m == g.data) { if (kind < 6) api.parse(p, s, d); else if (bool) api.bool(api.evaluators(p), s, m, d); else api.arith(api.evaluators(p), s, m); } }
                finally { Spy.CURRENT.remove(); now |= Thread.interrupted(); }
                e.count("first uses of a fresh copy of the library");
            }
            Map<String, Object> is = state();
            String call = (kind < 6 ? "parsing " : bool ? "boolean evaluation of " : "arithmetic evaluation of ") + (s == null ? null : Gen.quote(s)) + " (" + set[0].name + ")\n data: " + (kind < 6 ? "-" : m == g.data ? Gen.show(m) : m == null ? "null" : "throwing map") + "\n outcome: " + o[0];
            if (spy.out.length() > 0) throw new Violation("something was written to standard output: " + Gen.quote(spy.out.toString()) + "\n " + call);
            if (spy.err.length() > 0) {
                boolean messages = true;
                for (String l : spy.err.toString().split("\n")) messages &= l.isBlank() || l.matches("(?s)line \\d+:\\d+ .*");
                if (wellFormed || !messages) throw new Violation("something was written to standard error: " + Gen.quote(spy.err.toString()) + "\n " + call);
                e.count("parser's messages on standard error about malformed texts (allowed)");
            }
            if (!spy.acts.isEmpty()) throw new Violation("a call had an effect outside: " + spy.acts + "\n " + call);
            if (!Spy.ELSEWHERE.isEmpty()) throw new Violation("an effect outside: " + Spy.ELSEWHERE.peek());
            if (now != interrupted) throw new Violation("the interrupt status of the calling thread was " + interrupted + " and is " + now + "\n " + call);
            if (!was.equals(is)) for (String k : was.keySet()) if (!was.get(k).equals(is.get(k))) throw new Violation("a call changed the " + k + " from " + was.get(k) + " to " + is.get(k) + "\n " + call);
            if (interrupted && !deep) {
                Outcome p = kind < 6 ? Lib.parse(set[0], s, d, e.r) : bool ? Lib.bool(set[0], s, m, d, e.r) : Lib.arith(set[0], s, m);
                boolean same = p.ok() == o[0].ok() && p.broken == null && o[0].broken == null && (kind < 6 ? !p.ok() || Dump.node((Node) p.value).equals(Dump.node((Node) o[0].value)) : p.same(o[0]));
                if (m == g.data && !same) throw new Violation("the outcome depends on the thread's interrupt status; without: " + p + "\n " + call);
                e.count("calls by an interrupted thread");
            }
            e.count(wellFormed ? "well-formed" : "malformed or too deep");
            if (m == g.data) e.evaluated(s == null ? "null" : s, m, d, true); else e.run.evaluations.increment();
            if (threads > 0) threads(e);
            if (m == g.data) e.sample(s == null ? "null" : s, m, d, o[0]);
        }
        private void threads(Env e) {
            for (Thread t : Thread.getAllStackTraces().keySet()) {
                String n = t.getName();
                if (!t.isAlive() || before.contains(t) || n.startsWith("worker-") || n.startsWith("ForkJoinPool.commonPool") || n.equals("main") || n.equals("main-check") || n.startsWith("Common-Cleaner") || t.getThreadGroup() != null && t.getThreadGroup().getName().equals("system")) continue;
                throw new Violation("a thread was started: " + n + " " + Arrays.asList(t.getStackTrace()));
            }
            e.count("inspections of the living threads");
        }
        @Override void epilogue(Env e) { threads(e); e.count("permission checks observed inside library calls", Spy.permissions.sum()); }
    }

    // ------------------------------------------------------------------ C35

    static final class FirstUse extends Check {
        String rule() { return "rounds: the library is loaded afresh; its first use is any of constructing a plain or caching parser or an evaluator, parsing, evaluating with a parser of its own or a foreign one that returns hand-made trees, a failing call, in any order, under any default locale and time zone, on a thread that is interrupted, lacks a context class loader or ends afterwards; then further calls on other threads and under another locale; every result must equal that of the library long in use; distinct = distinct scripts of rounds"; }
        String assumes() { return "the long-used copy of the library is the yardstick"; }

        private static final Api WARM = new ApiImpl();
        private static final java.util.concurrent.locks.ReadWriteLock SETTINGS = new java.util.concurrent.locks.ReentrantReadWriteLock();
        private static final String[] LOCALES = {"en-US", "tr-TR", "ar-SA-u-nu-arab", "th-TH-u-ca-buddhist-nu-thai", "hi-IN-u-nu-deva", "de-DE", "lt-LT", "ja-JP-u-ca-japanese"};
        private static final String[] ZONES = {"UTC", "Pacific/Kiritimati", "Etc/GMT+12", "America/St_Johns", "Asia/Kathmandu", "America/New_York", "Africa/Casablanca"};

        private static final class Call { int kind; String text, def; Map<String, Object> data; String want; boolean clock; }
        private static String warm(Call c) {
            Object p = WARM.parser(-1);
            switch (c.kind) {
                case 0: return WARM.parse(p, c.text, c.def);
                case 1: case 3: return WARM.bool(WARM.evaluators(p), c.text, c.data, c.def);
                default: return WARM.arith(WARM.evaluators(p), c.text, c.data);
            }
        }

        private static Call call(Env e, Gen g) {
            Call c = new Call();
            boolean bool = g.p(60);
            c.data = g.data;
            if (g.p(12)) c.text = g.p(50) ? Trees.damaged(g) : g.of("", "a", "a = ", "((a = 1)", "'x", "a @ 1", "NOT", "MIN()", "2024-13-45 = a");
            else {
                X x;
                switch (g.n(4)) { case 0: x = g.fun(1, g.p(50)); bool = false; break; case 1: x = bool ? g.cond() : g.arith(1 + g.n(3), g.p(50)); break; default: x = Frames.tree(g, bool); }
                if (x.size() > 80) x = bool ? g.cond() : g.arith(2, false);
                c.text = Printer.random(x, e.r);
            }
            if (g.p(10)) { X d = X.fun("DAYS_ELAPSED", g.dateOperand(g.date())); c.text = Printer.random(bool ? X.cmp(g.of("=", "<"), d, X.i(g.n(900))) : d, e.r); }
            c.clock = c.text.toUpperCase(Locale.ROOT).contains("DAYS_ELAPSED");
            if (bool && g.p(15)) c.def = "a";
            boolean wellFormed = RefParser.parse(c.text) != null && c.def == null;
            c.kind = g.n(20) < 5 ? 0 : (bool ? 1 : 2) + (wellFormed && g.p(25) ? 2 : 0);
            c.want = warm(c);
            if (c.kind > 2 && !(c.kind == 3 ? WARM.bool(WARM.foreign(c.text), c.text, c.data, null) : WARM.arith(WARM.foreign(c.text), c.text, c.data)).equals(c.want)) c.kind -= 2;
            return c;
        }
        void one(Env e) {
            Gen g = new Gen(e.r);
            List<Call> calls = new ArrayList<>();
            for (int i = 2 + g.n(7); i > 0; i--) calls.add(call(e, new Gen(e.r)));
            StringBuilder script = new StringBuilder();
            Api api = g.p(80) ? Isolated.fresh() : Isolated.freshWithGrammar();
            boolean foreignOnly = g.p(15);
            int warmup = g.n(8);
            boolean locale = g.p(60);
            if (locale) settings(g);
            script.append(locale ? Locale.getDefault() + " " + TimeZone.getDefault().getID() : "as is").append("; ");
            Object[] parser = new Object[1];
            Throwable[] thrown = new Throwable[1];
            int first = 1 + g.n(calls.size());
            long seed = e.r.nextLong();
            Runnable part1 = () -> {
                java.util.SplittableRandom r = new java.util.SplittableRandom(seed);
                switch (warmup) {
                    case 0: parser[0] = api.parser(-1); script.append("parser; "); break;
                    case 1: parser[0] = api.parser(4); script.append("caching parser; "); break;
                    case 2: api.evaluators(api.parser(-1)); script.append("evaluators; "); break;
                    case 3: api.foreign("1 + 1"); script.append("foreign evaluators; "); break;
                    case 4: api.parse(api.parser(-1), "(a = ", null); script.append("malformed; "); break;
                    case 5: api.arith(api.foreign("MAX(a, 2)"), "MAX(a, 2)", Map.of()); script.append("foreign failure; "); break;
                    default:
                }
                for (int i = 0; i < first; i++) run(api, parser, calls.get(i), foreignOnly, r, script, e);
            };
            String where = "first thread";
            if (g.p(60)) {
                Thread t = new Thread(null, () -> { try { part1.run(); } catch (Throwable x) { thrown[0] = x; } }, "first", g.p(50) ? 64L << 20 : 1L << 20);
                if (g.p(50)) { t.setContextClassLoader(g.p(50) ? null : ClassLoader.getPlatformClassLoader()); script.append("other context class loader; "); }
                boolean interrupt = g.p(30);
                if (interrupt) script.append("interrupted; ");
                t.setDaemon(true);
                t.start();
                if (interrupt) t.interrupt();
                try { t.join(60_000); } catch (InterruptedException x) { throw new IllegalStateException(x); }
                if (t.isAlive()) throw new Violation("the first use of the library does not end\n " + script + "\n " + Arrays.asList(t.getStackTrace()));
                if (thrown[0] instanceof Violation) throw (Violation) thrown[0];
                if (thrown[0] != null) throw new Violation("the first use of the library fails: " + thrown[0] + "\n " + script);
            } else try { part1.run(); } catch (Violation v) { throw v; } catch (Throwable t) { throw new Violation("the first use of the library fails: " + t + " " + (t.getStackTrace().length > 0 ? t.getStackTrace()[0] : "") + "\n " + script); }
            if (g.p(50)) settings(g);
            java.util.SplittableRandom r = new java.util.SplittableRandom(seed + 1);
            for (int i = first; i < calls.size(); i++) run(api, parser, calls.get(i), foreignOnly, r, script, e);
            e.run.distinct(script.toString());
            e.count("fresh copies of the library");
            e.sample(script.toString());
        }
        private static String call(Api api, Object p, Call c) {
            Object ev = c.kind > 2 ? api.foreign(c.text) : c.kind == 0 ? null : api.evaluators(p);
            return c.kind == 0 ? api.parse(p, c.text, c.def) : c.kind == 1 || c.kind == 3 ? api.bool(ev, c.text, c.data, c.def) : api.arith(ev, c.text, c.data);
        }
        private static void settings(Gen g) {
            SETTINGS.writeLock().lock();
            try { Locale.setDefault(Locale.forLanguageTag(g.of(LOCALES))); TimeZone.setDefault(TimeZone.getTimeZone(g.of(ZONES))); } finally { SETTINGS.writeLock().unlock(); }
        }
        private static void run(Api api, Object[] parser, Call c, boolean foreignOnly, java.util.SplittableRandom r, StringBuilder script, Env e) {
            boolean foreign = c.kind > 2;
            if (foreignOnly && !foreign) return;
            Object p = null;
            if (!foreign) { if (parser[0] == null || r.nextInt(4) == 0) parser[0] = api.parser(r.nextInt(2) == 0 ? -1 : r.nextInt(5)); p = parser[0]; }
            // expressions about today are compared under the clock and zone of this moment, while no other worker changes the zone
            if (c.clock) SETTINGS.readLock().lock();
            String got;
            try {
                if (c.clock) c.want = warm(c);
                got = call(api, p, c);
                if (c.clock && !got.equals(c.want)) c.want = warm(c);
            } finally { if (c.clock) SETTINGS.readLock().unlock(); }
            script.append(foreign ? "foreign " : "").append(c.kind == 0 ? "parse " : c.kind % 2 == 1 ? "bool " : "arith ").append(c.text.length() > 80 ? c.text.substring(0, 80) : c.text).append("; ");
            e.run.evaluations.increment();
            e.count(foreign ? "calls with a foreign parser" : c.kind == 0 ? "parses" : "evaluations");
            if (!got.equals(c.want)) throw new Violation("a freshly loaded library answers differently\n so far: " + script + "\n expression: " + Gen.quote(c.text) + "\n data: " + Gen.show(c.data) + "\n default: " + c.def + "\n fresh: " + got + "\n long in use: " + c.want);
        }
    }
}
