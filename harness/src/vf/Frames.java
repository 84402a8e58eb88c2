package vf;

import com.github.sidhant92.boolparser.domain.logical.Node;
import java.math.BigDecimal;
import java.time.LocalDateTime;
import java.util.*;

/** Which failures are reported, which entries of the data can matter, and that names are only names. */
final class Frames {
    private Frames() { }

    static final String EXCEPTIONS = "com.github.sidhant92.boolparser.exception.";

    static void paths(X x, Set<String> out) {
        if ((x.k == X.K.FLD || x.k == X.K.RANGE || x.k == X.K.IN || x.k == X.K.ARR) && x.s != null && !RefEval.isNullWord(x)) out.add(x.s);
        for (X c : x.c) paths(c, out);
    }
    static Set<String> paths(X x, String def) { Set<String> s = new LinkedHashSet<>(); paths(x, s); if (def != null) s.add(def); return s; }

    /** Literals (not truth values) where a truth value is wanted: the library reads them as names of fields. */
    static void bare(X x, boolean logical, Set<String> out) {
        if (x.isLit()) { if (logical && x.k != X.K.BOOL) { try { out.add(String.valueOf(Dump.litValue(x))); } catch (RuntimeException outOfRange) { out.add(x.s); } out.add(x.s); } return; }
        for (X c : x.c) bare(c, x.k == X.K.AND || x.k == X.K.OR || x.k == X.K.NOT, out);
    }
    static void nulls(X x, Set<String> out) { if (RefEval.isNullWord(x)) out.add(x.s); for (X c : x.c) nulls(c, out); }
    static Set<String> bare(X x, boolean bool) { Set<String> s = new LinkedHashSet<>(); bare(x, bool, s); return s; }

    /** Gives most of the paths a value, unless something else is in the way. */
    @SuppressWarnings("unchecked")
    static void fill(Gen g, Set<String> paths, int percent) {
        for (String p : paths) {
            if (!g.p(percent)) continue;
            String[] s = p.split("\\.");
            Map<String, Object> cur = g.data;
            for (int i = 0; i < s.length; i++) {
                if (i == s.length - 1) { if (!cur.containsKey(s[i])) cur.put(s[i], value(g)); break; }
                Object next = cur.get(s[i]);
                if (next == null) { next = new LinkedHashMap<String, Object>(); cur.put(s[i], next); }
                if (!(next instanceof LinkedHashMap)) break;
                cur = (Map<String, Object>) next;
            }
        }
    }
    static Object value(Gen g) {
        switch (g.n(16)) {
            case 0: { List<Object> l = new ArrayList<>(); int k = g.n(4); boolean same = g.p(60); for (int i = 0; i < k; i++) l.add(same ? (Object) g.n(9) : Laws.Sources.mixed(g)); if (g.p(20)) l.add(null); return g.anyContainer(l); }
            case 1: return g.numValue(g.number());
            case 2: return g.numValue(BigDecimal.valueOf(g.n(20) - 5));
            case 3: return g.dateTime();
            case 4: return g.of((Object) 'c', new Object[0], new int[]{1, 2}, new StringBuilder("sb"), new Gen.Day(0), (short) 3, (byte) 1, new java.math.BigInteger("99999999999999999999999"), Thread.State.NEW, Optional.of(1), new LinkedHashMap<>(Map.of("k", 1)), Double.NaN, Double.POSITIVE_INFINITY, Float.NaN, -0.0, UUID.fromString("00000000-0000-0001-0000-000000000002"), List.of(List.of(1)), new java.util.concurrent.atomic.AtomicInteger(4), Double.MAX_VALUE, Double.MIN_VALUE);
            case 5: return g.extreme();
            case 6: return g.anyString();
            default: return Laws.Sources.mixed(g);
        }
    }
    /** A tree with data: well-typed, badly typed, or any. */
    static X tree(Gen g, boolean bool) {
        X x;
        switch (g.n(6)) {
            case 0: case 1: x = Trees.any(g, 1 + g.n(3)); fill(g, paths(x, (String) null), g.of(60, 85, 100)); return x;
            case 2: return bool ? g.combine(1 + g.n(4), () -> g.p(40) ? Maths.Types.badCond(g) : g.cond()) : Maths.Types.badArith(g);
            case 3: return bool ? X.cmp(g.cmpOp(), g.arith(g.n(4), g.p(40)), g.arith(g.n(4), g.p(40))) : g.arith(1 + g.n(8), g.p(40));
            default: return bool ? g.combine(1 + g.n(6), g::cond) : g.arith(1 + g.n(5), g.p(40));
        }
    }
    static void removeSome(Gen g) { if (!g.data.isEmpty()) g.data.remove(g.pick(new ArrayList<>(g.data.keySet()))); }

    // ------------------------------------------------------------------ C31

    static final class Causes extends Check {
        String rule() { return "damaged texts, syntactically valid trees of any shape over data of any kind, badly typed expressions, and well-typed ones from which an entry of the data was removed; parsed and evaluated by plain and caching parsers and both evaluators: the class and message of every reported failure is judged; distinct = distinct (text, data)"; }
        String assumes() { return "the reference parser tells malformed from well-formed, the reference evaluator which well-typed evaluations lack an entry"; }

        private static String at(Throwable t) { StackTraceElement[] s = t.getStackTrace(); return s == null || s.length == 0 ? "" : " at " + s[0]; }
        private void judge(Env e, String what, String text, Map<String, Object> data, String def, X x, Outcome o) {
            String why = null;
            if (o.broken != null) why = "not a Try";
            else if (o.failed()) {
                Throwable t = o.failure;
                String c = t.getClass().getName(), m = String.valueOf(t.getMessage());
                e.count("failure " + t.getClass().getSimpleName());
                boolean own = c.startsWith(EXCEPTIONS), invalid = c.equals(EXCEPTIONS + "InvalidExpressionException"), missing = c.equals(EXCEPTIONS + "DataNotFoundException");
                if (own && (t.getMessage() == null || m.trim().isEmpty())) why = "a failure without a message";
                else if (x == null && !invalid) why = "a malformed expression is reported as an InvalidExpressionException";
                else if (!own && !(t instanceof ArithmeticException && x != null)) why = "a failure is reported as one of the library's exceptions or an ArithmeticException";
                else if (missing) {
                    boolean named = false;
                    Set<String> ps = paths(x, def); ps.addAll(bare(x, true)); nulls(x, ps);
                    for (String p : ps) named |= RefEval.lookup(p, data) == null && m.contains(p);
                    if (!named) why = "a DataNotFoundException names a field of the expression which the data lacks";
                }
            } else if (x == null) why = "a malformed expression fails";
            if (why != null) throw new Violation(why + "\n " + what + "\n expression: " + Gen.quote(text) + "\n data: " + Gen.show(data) + "\n default: " + def + "\n observed: " + o + (o.failure == null ? "" : " [" + o.failure.getClass().getName() + "]" + at(o.failure)));
        }
        void one(Env e) {
            Gen g = new Gen(e.r);
            boolean bool = g.p(60);
            String text, def = null; X x, made = null;
            int kind = g.n(10);
            if (kind < 3) {
                text = Trees.damaged(g);
                if (text.length() > 4000) return;
                x = RefParser.parse(text);
                if (x == null && RefParser.lacksParentheses(text)) { e.count("only closing parentheses missing (not judged)"); return; }
                if (x != null) fill(g, paths(x, (String) null), 80); else fill(g, new LinkedHashSet<>(List.of("a", "b", "b.c", "age", "x1")), 70);
                if (x == null) e.count("malformed");
            } else {
                x = made = tree(g, bool);
                if (g.p(25)) removeSome(g);
                text = Printer.random(x, e.r);
            }
            if (made != null && bool && g.p(30)) { def = g.p(70) ? g.put(value(g)) : g.of("zz", "zz.y", "", " ", ".", "..", "a.", ".a"); if (made != null && x.k == X.K.CMP && x.c.get(0).k == X.K.FLD) { x = X.cmp(x.s, X.fld(null), x.c.get(1)); text = Printer.random(x, e.r); e.count("blank field"); } }
            final X t = x; final String s = text, d = def;
            Lib.Set p = e.lib.any(e.r);
            e.evaluated(s, g.data, d, true);
            if (g.p(x == null ? 60 : 20)) {
                Outcome o = Lib.parse(p, s, d, e.r);
                judge(e, "parsing with " + p.name, s, g.data, d, t, o);
                if (x == null && g.p(50)) return;
            }
            Outcome o = bool ? Lib.bool(p, s, g.data, d, e.r) : Lib.arith(p, s, g.data);
            judge(e, (bool ? "boolean" : "arithmetic") + " evaluation with " + p.name, s, g.data, d, t, o);
            if (made != null && kind >= 7) lacking(e, g, bool);
            if (s.length() < 150) e.sample(s, g.data, d, o);
        }
        /** A well-typed expression which lacks one entry says so. */
        private void lacking(Env e, Gen x0, boolean bool) {
            Gen g = new Gen(e.r);
            X x = bool ? g.combine(1 + g.n(6), g::cond) : g.arith(g.n(6), g.p(40));
            Set<String> ps = paths(x, (String) null);
            if (ps.isEmpty()) return;
            Expect before = bool ? Expect.bool(x, g.data, null) : Expect.arith(x, g.data);
            if (before.k != Expect.K.VALUE || before.mayFail) return;
            String gone = g.pick(new ArrayList<>(ps)), top = gone.split("\\.")[0];
            if (g.p(30)) g.data.put(top, null); else if (g.p(30) && gone.indexOf('.') > 0) g.data.put(top, g.of((Object) 1, "x", new LinkedHashMap<>(), List.of())); else g.data.remove(top);
            Expect want = bool ? Expect.bool(x, g.data, null) : Expect.arith(x, g.data);
            if (want.k != Expect.K.FAIL || !want.missing) { e.count("the removed entry was not needed"); return; }
            String s = Printer.random(x, e.r);
            Lib.Set p = e.lib.any(e.r);
            Outcome o = bool ? Lib.bool(p, s, g.data, null, e.r) : Lib.arith(p, s, g.data);
            e.evaluated(s, g.data, null, true);
            e.count("lacking an entry");
            judge(e, "evaluation with " + p.name, s, g.data, null, x, o);
            boolean ok = o.failed() && o.failure.getClass().getName().equals(EXCEPTIONS + "DataNotFoundException");
            if (ok) { ok = false; for (String q : ps) ok |= q.split("\\.")[0].equals(top) && o.failure.getMessage().contains(q); }
            if (!ok) throw new Violation("a well-typed expression which lacks an entry fails with a DataNotFoundException naming the field\n expression: " + Gen.quote(s) + "\n data: " + Gen.show(g.data) + "\n removed: " + top + "\n observed: " + o);
        }
    }

    // ------------------------------------------------------------------ C32

    /** A value which nobody may look at. */
    static final class Untouchable extends Number implements CharSequence, Comparable<Object> {
        private RuntimeException x() { return new IllegalStateException("an entry which the expression does not mention was used"); }
        @Override public int intValue() { throw x(); } @Override public long longValue() { throw x(); } @Override public float floatValue() { throw x(); } @Override public double doubleValue() { throw x(); }
        @Override public int length() { throw x(); } @Override public char charAt(int i) { throw x(); } @Override public CharSequence subSequence(int a, int b) { throw x(); }
        @Override public int compareTo(Object o) { throw x(); } @Override public String toString() { throw x(); } @Override public int hashCode() { throw x(); } @Override public boolean equals(Object o) { throw x(); }
    }

    static final class Unmentioned extends Check {
        String rule() { return "expressions of every kind (well and badly typed, lacking entries); the same text is evaluated again over data from which entries that it does not mention were removed, to which such entries were added (similar names, parts and joins of its paths, values which throw when used), or in which they were changed, at the top level and inside nested maps: same value of the same class, or a failure of the same class; distinct = distinct (text, changed data)"; }
        String assumes() { return "nothing but the law itself: every observation is compared with another observation of the library"; }

        private static Object copy(Object o, IdentityHashMap<Object, Boolean> open) {
            Map<String, Object> m = new LinkedHashMap<>();
            for (Map.Entry<?, ?> en : ((Map<?, ?>) o).entrySet()) m.put((String) en.getKey(), en.getValue());
            return m;
        }
        /** Rewrites one map; names: what may follow in the paths that lead here. A null tail means the map itself is an operand. */
        private Map<String, Object> frame(Env e, Gen g, Map<?, ?> m, Set<String> tails, int mode, int[] changes) {
            Map<String, Object> out = new LinkedHashMap<>();
            Map<String, Set<String>> next = new LinkedHashMap<>();
            for (String t : tails) { int i = t.indexOf('.'); next.computeIfAbsent(i < 0 ? t : t.substring(0, i), k -> new LinkedHashSet<>()).add(i < 0 ? "" : t.substring(i + 1)); }
            for (Map.Entry<?, ?> en : m.entrySet()) {
                String k = (String) en.getKey(); Object v = en.getValue();
                Set<String> n = next.get(k);
                if (n == null) { // not mentioned
                    int c = g.n(4);
                    if ((mode & 1) != 0 && c < 2) { changes[0]++; continue; }
                    if ((mode & 2) != 0 && c == 2) { changes[1]++; out.put(k, odd(g)); continue; }
                    out.put(k, v);
                } else if (v instanceof Map && !n.contains("") && ((Map<?, ?>) v).keySet().stream().allMatch(q -> q instanceof String)) out.put(k, frame(e, g, (Map<?, ?>) v, n, mode, changes));
                else out.put(k, v);
            }
            if (g.p(12)) { // keys nobody could mention
                changes[2]++;
                @SuppressWarnings("unchecked") Map<Object, Object> raw = (Map<Object, Object>) (Map<?, ?>) out;
                if (g.p(50)) raw.put(null, odd(g));
                if (g.p(50) && m != g.data) { raw.put(g.of((Object) 1, 5L, 1.5, true, 'a', new StringBuilder("a"), X.K.FLD), odd(g)); }
            }
            if (g.p(4)) {
                int k = g.n(500); changes[2] += k; boolean before = g.p(50);
                Map<String, Object> all = new LinkedHashMap<>();
                if (!before) all.putAll(out);
                for (int i = 0; i < k; i++) { String nm = (i % 3 == 0 ? "w" : i % 3 == 1 ? "Aa" : "BB") + i; if (!next.containsKey(nm) && !out.containsKey(nm)) all.put(nm, i % 7 == 0 ? new Untouchable() : (Object) i); }
                if (before) all.putAll(out);
                out = all;
            }
            if ((mode & 4) != 0) {
                List<String> names = new ArrayList<>();
                for (String t : tails) {
                    String[] s = t.split("\\."); String h = s.length == 0 ? "" : s[0];
                    names.addAll(List.of(t, h + "s", h.toUpperCase(Locale.ROOT), h.toLowerCase(Locale.ROOT), h + "_", "_" + h, h + ".", " " + h, "'" + h + "'", h + "_1", String.join("_", s), s.length == 0 ? "" : s[s.length - 1], h.isEmpty() ? "q" : h.substring(0, h.length() - 1), t + ".x", h + "\u0000"));
                }
                names.addAll(List.of("", "null", "NULL", "true", "1", "5", "'s'", "abc", "*", "1.2.3", "2024-01-01", "a", "b", "age", "MIN", "default"));
                int k = 1 + g.n(6);
                for (int i = 0; i < k; i++) {
                    String nm = g.pick(names);
                    if (next.containsKey(nm) || out.containsKey(nm)) continue;
                    changes[2]++;
                    if (g.p(50)) out.put(nm, odd(g)); else { Map<String, Object> first = new LinkedHashMap<>(); first.put(nm, odd(g)); first.putAll(out); out = first; }
                }
            }
            return out;
        }
        private Object odd(Gen g) {
            switch (g.n(7)) {
                case 0: case 1: return new Untouchable();
                case 2: return null;
                case 3: return new ArrayList<>(Arrays.asList(1, "a", null, new Untouchable()));
                case 4: return g.n(9);
                case 5: { Map<String, Object> m = new LinkedHashMap<>(); m.put("a", new Untouchable()); return m; }
                default: return value(g);
            }
        }
        void one(Env e) {
            Gen g = new Gen(e.r);
            boolean bool = g.p(60);
            X x = tree(g, bool);
            if (g.p(20)) removeSome(g);
            String def = bool && g.p(20) ? g.p(80) ? g.put(value(g)) : "absent_q" : null;
            X y = def != null && x.k == X.K.CMP && x.c.get(0).k == X.K.FLD ? X.cmp(x.s, X.fld(null), x.c.get(1)) : x;
            Set<String> ps = paths(y, def);
            ps.addAll(List.of("null", "NULL", "Null", "nulL", "nuLL"));
            ps.addAll(bare(y, bool));
            for (String s : new ArrayList<>(ps)) if (s.split("\\.").length == 0 || s.startsWith(".") || s.endsWith(".") || s.contains("..")) return;
            if (g.p(50)) for (int i = g.n(5); i > 0; i--) g.data.putIfAbsent(g.freshName() + "_u", value(g));
            String text = Printer.random(y, e.r);
            Lib.Set a = e.lib.any(e.r), b = e.lib.any(e.r);
            Outcome one = bool ? Lib.bool(a, text, g.data, def, e.r) : Lib.arith(a, text, g.data);
            int[] ch = new int[3];
            Map<String, Object> data = frame(e, g, g.data, ps, 1 + g.n(7), ch);
            if (g.p(15)) data = new HashMap<>(data);
            final Map<String, Object> d = data;
            Outcome two = bool ? Lib.bool(b, text, d, def, e.r) : Lib.arith(b, text, d);
            e.count("entries removed", ch[0]); e.count("entries changed", ch[1]); e.count("entries added", ch[2]);
            e.run.evaluations.add(2);
            if (ch[0] + ch[1] + ch[2] > 0) e.run.distinct(text + '\u0001' + keys(d) + def);
            e.count(one.ok() ? "value" : "failure");
            boolean same = one.broken == null && one.same(two) && (one.ok() ? one.value.getClass() == two.value.getClass() : one.failure.getClass() == two.failure.getClass());
            if (!same) throw new Violation("entries which the expression does not mention matter\n expression: " + Gen.quote(text) + "\n default: " + def + "\n data:         " + Gen.show(g.data) + "\n outcome:      " + one + "\n changed data: " + keys(d) + "\n outcome:      " + two);
            e.sample(Gen.quote(text) + " with " + keys(d) + " -> " + two + " as before");
        }
        static String keys(Object o) {
            if (o instanceof Map) { StringBuilder b = new StringBuilder("{"); ((Map<?, ?>) o).forEach((k, v) -> b.append(b.length() > 1 ? ", " : "").append(k).append('=').append(keys(v))); return b.append('}').toString(); }
            try { return Gen.show(o); } catch (IllegalStateException u) { return "<untouchable>"; }
        }
    }

    // ------------------------------------------------------------------ C33

    static final class Renaming extends Check {
        String rule() { return "expressions of every kind (well and badly typed, lacking entries) are evaluated, then the segments of their field names are renamed (one to one, to other legal names: keyword-like, numeric, long, of other case) in the text, the default field and the data alike: same value, or a failure of the same class, and the parsed tree is the same but for the names; distinct = distinct (text, renamed text)"; }
        String assumes() { return "the renamed text is what the reference parser reads as the renamed tree; nothing else but the law itself"; }

        private static final String[] FIRST = {"a", "b", "zz", "minimum", "into", "total", "andy", "nor", "xIN", "TOm", "truex", "falsey", "lens", "INTs", "sums", "nulls", "nullx", "x_null", "Q", "_", "__", "_1", "e", "E", "x", "X", "i", "I", "l", "L", "d", "f", "days_elapsed_x", "contains", "contains_an", "CONTAINS_ALLX", "not_in", "value", "data", "key", "field", "default", "item", "left", "right", "operator", "Mean", "Median", "avgx", "1a", "9_", "0x1", "1e5x", "a1", "aa", "aaa", "class", "size", "get", "toString", "date", "today", "now", "STRING", "INTEGER", "DECIMAL", "VERSION", "BOOLEAN", "AND_", "OR_", "FIELD", "UNARY"};
        private static final String[] REST = {"in", "IN", "not", "and", "or", "to", "min", "len", "true", "false", "null", "0", "1", "00", "42", "contains_any", "size", "get", "a", "A", "b", "_", "x", "class", "max", "e", "value"};
        private final Map<String, String> none = new HashMap<>();

        private static String longName(Gen g) { StringBuilder b = new StringBuilder("n"); int k = g.p(90) ? 1 + g.n(8) : 50 + g.n(300); for (int i = 0; i < k; i++) b.append("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_".charAt(g.n(63))); return b.toString(); }

        static X rename(X x, Map<String, String> m) {
            List<X> c = new ArrayList<>();
            for (X y : x.c) c.add(rename(y, m));
            boolean named = (x.k == X.K.FLD || x.k == X.K.RANGE || x.k == X.K.IN || x.k == X.K.ARR) && x.s != null && !RefEval.isNullWord(x);
            return new X(x.k, named ? path(x.s, m) : x.s, x.neg, c);
        }
        static String path(String p, Map<String, String> m) {
            String[] s = p.split("\\.");
            StringBuilder b = new StringBuilder();
            for (int i = 0; i < s.length; i++) b.append(i > 0 ? "." : "").append(m.getOrDefault((i == 0 ? "^" : "") + s[i], s[i]));
            return b.toString();
        }
        static Object data(Object o, Map<String, String> m, boolean top) {
            if (!Maps.named(o)) return o;
            Map<String, Object> out = new LinkedHashMap<>();
            ((Map<?, ?>) o).forEach((k, v) -> out.put(m.getOrDefault((top ? "^" : "") + k, (String) k), data(v, m, false)));
            return out;
        }
        private static void segments(Object o, boolean top, Set<String> out) {
            if (!Maps.named(o)) return;
            ((Map<?, ?>) o).forEach((k, v) -> { out.add((top ? "^" : "") + k); segments(v, false, out); });
        }
        private static boolean plain(Object o) { // only String keys; no map except as an inner node
            if (!(o instanceof Map)) return true;
            for (Map.Entry<?, ?> en : ((Map<?, ?>) o).entrySet()) if (!(en.getKey() instanceof String) || !plain(en.getValue())) return false;
            return true;
        }
        private static boolean same(X a, X b) { return a != null && Dump.x(a, null).equals(Dump.x(b, null)); }
        void one(Env e) {
            Gen g = new Gen(e.r);
            boolean bool = g.p(60);
            X x = tree(g, bool);
            if (g.p(15)) removeSome(g);
            String def = bool && g.p(25) ? g.p(80) ? g.put(value(g)) : "absent_q" : null;
            if (def != null && x.k == X.K.CMP && x.c.get(0).k == X.K.FLD && !RefEval.isNullWord(x.c.get(0))) x = X.cmp(x.s, X.fld(null), x.c.get(1));
            Set<String> ps = paths(x, def), segs = new LinkedHashSet<>();
            if (ps.isEmpty() || !plain(g.data)) return;
            if (!bare(x, bool).isEmpty()) { e.count("a literal as a condition (left out)"); return; }
            segments(g.data, true, segs);
            for (String p : ps) {
                String[] s = p.split("\\.");
                if (s.length == 0 || !p.equals(String.join(".", s)) || Arrays.asList(s).contains("")) return;
                if (RefEval.lookup(p, g.data) instanceof Map) { e.count("a map as an operand (left out)"); return; }
                for (int i = 0; i < s.length; i++) segs.add((i == 0 ? "^" : "") + s[i]);
            }
            Map<String, String> m = new LinkedHashMap<>(); Set<String> usedTop = new HashSet<>(), usedRest = new HashSet<>();
            boolean permute = g.p(20); int percent = g.of(30, 100, 100);
            List<String> top = new ArrayList<>();
            for (String s : segs) if (s.startsWith("^")) top.add(s.substring(1));
            List<String> order = new ArrayList<>(top); Collections.shuffle(order, new Random(e.r.nextLong()));
            int at = 0;
            for (String s : segs) {
                boolean first = s.startsWith("^"); String old = first ? s.substring(1) : s, now;
                Set<String> used = first ? usedTop : usedRest;
                if (first && old.equalsIgnoreCase("null")) now = old;
                else if (first && permute) now = order.get(at++);
                else if (g.p(percent)) now = first ? g.p(70) ? g.of(FIRST) : longName(g) : g.p(70) ? g.of(REST) : longName(g);
                else now = old;
                while (used.contains(now) || !permute && segs.contains((first ? "^" : "") + now) && !now.equals(old)) now = longName(g);
                used.add(now);
                m.put(s, now);
            }
            X y = rename(x, m);
            String ndef = def == null ? null : path(def, m);
            for (String p : paths(y, ndef)) if (p.equalsIgnoreCase("null")) return;
            String tx = Printer.random(x, e.r), ty = Printer.random(y, e.r);
            if (!same(RefParser.parse(ty), y) || !same(RefParser.parse(tx), x)) { e.count("not expressible (left out)"); return; }
            @SuppressWarnings("unchecked") Map<String, Object> data = (Map<String, Object>) data(g.data, m, true);
            Lib.Set a = e.lib.any(e.r), b = e.lib.any(e.r);
            Outcome one = bool ? Lib.bool(a, tx, g.data, def, e.r) : Lib.arith(a, tx, g.data);
            Outcome two = bool ? Lib.bool(b, ty, data, ndef, e.r) : Lib.arith(b, ty, data);
            e.run.evaluations.add(2);
            e.run.distinct(tx + '\u0001' + ty);
            e.count(one.ok() ? "value" : "failure"); e.count("names changed", m.size());
            if (one.broken != null || !one.same(two) || !one.ok() && one.failure.getClass() != two.failure.getClass())
                throw new Violation("the outcome depends on the names of fields\n expression: " + Gen.quote(tx) + (def == null ? "" : " with default field " + def) + "\n data: " + Gen.show(g.data) + "\n outcome: " + one + "\n renamed:    " + Gen.quote(ty) + (def == null ? "" : " with default field " + ndef) + "\n data: " + Gen.show(data) + "\n outcome: " + two);
            Outcome p = Lib.parse(a, tx, def, e.r), q = Lib.parse(b, ty, ndef, e.r);
            String want = Dump.x(rename(x, m), ndef), dq = Lib.dump(q);
            if (p.ok() != q.ok() || q.ok() && !want.equals(dq)) throw new Violation("the parsed tree depends on the names of fields\n expression: " + Gen.quote(tx) + "\n renamed: " + Gen.quote(ty) + "\n expected tree: " + want + "\n parsed: " + dq + "\n parse of the original: " + Lib.dump(p));
            e.sample(Gen.quote(tx) + " and " + Gen.quote(ty) + " -> " + two);
        }
    }
}
