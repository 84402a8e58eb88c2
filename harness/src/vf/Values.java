package vf;

import java.math.BigDecimal;
import java.time.LocalDate;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.IdentityHashMap;
import java.util.LinkedHashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import org.apache.maven.artifact.versioning.ComparableVersion;

/** Checks on the values of conditions: C01 - C11. */
final class Values {

    /** Three-valued composition over measured leaves; null = failure of an evaluated operand. Records which leaves were evaluated. */
    static Boolean compose(X x, IdentityHashMap<X, Outcome> leaf, Set<X> reached) {
        Outcome o = leaf.get(x);
        if (o != null) { if (reached != null) reached.add(x); return o.ok() ? (Boolean) o.value : null; }
        switch (x.k) {
            case AND: { Boolean l = compose(x.c.get(0), leaf, reached); if (l == null) return null; return l ? compose(x.c.get(1), leaf, reached) : Boolean.FALSE; }
            case OR: { Boolean l = compose(x.c.get(0), leaf, reached); if (l == null) return null; return l ? Boolean.TRUE : compose(x.c.get(1), leaf, reached); }
            case NOT: { Boolean l = compose(x.c.get(0), leaf, reached); return l == null ? null : !l; }
            default: throw new IllegalStateException("leaf not measured");
        }
    }

    static final class Logic extends Check {
        String rule() { return "a pool of 2-8 random conditions of all kinds over generated data is evaluated leaf by leaf, then random AND/OR/NOT trees over the pool (1-150 leaves, parentheses and spellings varied) are evaluated and compared with the truth function of the measured leaf results; distinct = distinct (text, data) with at least one connective whose leaves all evaluated"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            List<X> pool = new ArrayList<>();
            IdentityHashMap<X, Outcome> m = new IdentityHashMap<>();
            int k = 2 + g.n(7);
            for (int i = 0; i < k; i++) {
                X leaf = g.p(25) ? g.boolLeaf() : g.cond();
                Outcome o = Lib.bool(e.lib.any(e.r), Printer.canonical(leaf), g.data, null, e.r);
                if (!o.ok()) { e.count("leaf without a value (not used)"); continue; }
                pool.add(leaf); m.put(leaf, o);
            }
            if (pool.isEmpty()) return;
            for (int t = 0; t < 4; t++) {
                X x = g.combine(g.leaves(), () -> g.pick(pool));
                boolean want = compose(x, m, null);
                String text = Printer.random(x, e.r);
                Lib.Set s = e.lib.any(e.r);
                Outcome got = Lib.bool(s, text, g.data, null, e.r);
                e.evaluated(text, g.data, null, !m.containsKey(x));
                e.count("composed " + want);
                e.count("connectives", x.size());
                if (!got.ok() || !got.value.equals(want)) {
                    X small = e.shrink(x, y -> { if (hasUnknown(y, m)) return false; Outcome o = Lib.bool(new Lib().any(e.r), Printer.canonical(y), g.data, null, e.r); return !o.ok() || !o.value.equals(compose(y, m, null)); });
                    StringBuilder b = new StringBuilder();
                    for (Map.Entry<X, Outcome> l : m.entrySet()) b.append("\n leaf ").append(l.getKey()).append(" -> ").append(l.getValue());
                    throw new Violation("composition differs from the truth function (" + s.name + ")\n expression: " + Gen.quote(text) + "\n data: " + Gen.show(g.data) + "\n leaves:" + b + "\n expected: " + want + "\n observed: " + got + "\n reduced: " + small + " expected " + compose(small, m, null));
                }
                e.sample(text, g.data, null, got);
            }
        }
        static boolean hasUnknown(X y, IdentityHashMap<X, Outcome> m) {
            if (m.containsKey(y)) return false;
            if (y.k != X.K.AND && y.k != X.K.OR && y.k != X.K.NOT) return true;
            for (X c : y.c) if (hasUnknown(c, m)) return true;
            return false;
        }
    }

    /** Records which keys are asked for. */
    static final class RecMap extends LinkedHashMap<String, Object> {
        final Set<String> asked = new LinkedHashSet<>();
        @Override public Object get(Object k) { asked.add(String.valueOf(k)); return super.get(k); }
        @Override public Object getOrDefault(Object k, Object d) { asked.add(String.valueOf(k)); return super.getOrDefault(k, d); }
        @Override public boolean containsKey(Object k) { asked.add(String.valueOf(k)); return super.containsKey(k); }
    }

    static X failing(Gen g) {
        switch (g.n(7)) {
            case 0: return X.cmp(g.cmpOp(), X.fld(g.missing()), g.p(50) ? X.i(g.n(5)) : X.str("a"));
            case 1: return X.cmp(g.cmpOp(), g.p(50) ? X.i(g.n(5)) : X.str("a"), X.fld(g.missing()));
            case 2: return X.cmp(g.of(Gen.ORDS), g.field("abc"), X.i(g.n(5)));
            case 3: return X.cmp(g.cmpOp(), X.ari(g.of("/", "%"), g.field(g.n(10)), X.i(0)), X.i(1));
            case 4: return X.in(g.missing(), g.p(50), List.of(X.i(1), X.i(2)));
            case 5: return X.any(g.put(g.p(50) ? (Object) "a" : (Object) 5), List.of(X.str("a")));
            default: return g.p(50) ? X.fld(g.missing()) : X.range(g.missing(), X.i(1), X.i(3));
        }
    }

    static final class ShortCircuit extends Check {
        String rule() { return "trees of AND/OR/NOT over conditions with a value and conditions which fail (missing field, incompatible types, division by zero); every condition reads its own fields of a recording map; distinct = distinct (text, data) where at least one operand fails or is skipped"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            List<X> leaves = new ArrayList<>();
            IdentityHashMap<X, Outcome> m = new IdentityHashMap<>();
            IdentityHashMap<X, Set<String>> reads = new IdentityHashMap<>();
            int k = 2 + g.n(8);
            for (int i = 0; i < k; i++) {
                Gen own = new Gen(e.r);
                X leaf = g.p(30) ? failing(own) : g.p(50) ? own.boolLeaf() : own.cond();
                String suffix = "_" + i;
                // give the leaf field names of its own
                Map<String, String> ren = new LinkedHashMap<>();
                for (String key : own.data.keySet()) ren.put(key, key + suffix + "q");
                leaf = rename(leaf, ren, suffix + "q");
                own.data.forEach((key, v) -> g.data.put(key + suffix + "q", v));
                RecMap alone = new RecMap();
                alone.putAll(g.data); alone.asked.clear();
                Outcome o = Lib.bool(e.lib.any(e.r), Printer.canonical(leaf), alone, null, e.r);
                if (o.broken != null) return;
                m.put(leaf, o); leaves.add(leaf);
                Set<String> rd = new LinkedHashSet<>(); tops(leaf, rd); reads.put(leaf, rd);
            }
            for (int t = 0; t < 4; t++) {
                X x = g.combine(2 + g.n(g.p(90) ? 8 : 40), () -> g.pick(leaves));
                Set<X> reached = new LinkedHashSet<>(); // in the order in which they are evaluated
                Boolean want = compose(x, m, reached);
                RecMap d = new RecMap();
                d.putAll(g.data); d.asked.clear();
                String text = Printer.random(x, e.r);
                Lib.Set s = e.lib.any(e.r);
                Outcome got = Lib.bool(s, text, d, null, e.r);
                Set<X> all = Collections.newSetFromMap(new IdentityHashMap<>());
                collect(x, m, all);
                boolean skipped = reached.size() < all.size();
                e.evaluated(text, g.data, null, want == null || skipped);
                e.count(want == null ? "failure propagated" : skipped ? "decided without evaluating every operand" : "all operands evaluated");
                e.count("map reads observed", d.asked.size());
                String bad = null;
                if (got.broken != null || (want == null ? !got.failed() : !got.ok() || !got.value.equals(want))) bad = "outcome";
                if (bad == null) {
                    Set<String> allowed = new LinkedHashSet<>();
                    for (X l : reached) allowed.addAll(reads.get(l));
                    for (X l : all) if (!reached.contains(l)) for (String f : reads.get(l)) if (!allowed.contains(f) && d.asked.contains(f)) bad = "field " + f + " of an operand that is not needed was read";
                }
                if (bad == null) {
                    // from left to right: the fields are read in the order in which they are needed
                    Set<String> order = new LinkedHashSet<>();
                    for (X l : reached) order.addAll(reads.get(l));
                    java.util.Iterator<String> it = order.iterator();
                    for (String f : d.asked) {
                        if (!order.contains(f)) continue;
                        boolean found = false;
                        while (it.hasNext() && !found) found = it.next().equals(f);
                        if (!found) { bad = "operands were not evaluated from left to right: " + f + " was read after a later one"; break; }
                    }
                    e.count("orders of reading observed");
                }
                if (bad == null && want == null) {
                    Outcome first = null;
                    for (X l : reached) if (!m.get(l).ok()) { first = m.get(l); break; }
                    if (first.failure.getClass() != got.failure.getClass()) bad = "the failure is not that of the operand which fails, " + first;
                    e.count("causes of failures compared with the operand's own");
                }
                if (bad != null) {
                    StringBuilder b = new StringBuilder();
                    for (Map.Entry<X, Outcome> l : m.entrySet()) b.append("\n leaf ").append(l.getKey()).append(" -> ").append(l.getValue());
                    throw new Violation("short circuit / failure propagation: " + bad + " (" + s.name + ")\n expression: " + Gen.quote(text) + "\n data: " + Gen.show(g.data) + "\n leaves:" + b + "\n expected: " + (want == null ? "Failure" : want.toString()) + "\n observed: " + got + "\n read: " + d.asked);
                }
                e.sample(text, g.data, null, got);
            }
        }
        static void collect(X x, IdentityHashMap<X, Outcome> m, Set<X> all) { if (m.containsKey(x)) { all.add(x); return; } for (X c : x.c) collect(c, m, all); }
        static void tops(X x, Set<String> out) {
            if (x.s != null && (x.k == X.K.FLD || x.k == X.K.RANGE || x.k == X.K.IN || x.k == X.K.ARR)) { int d = x.s.indexOf('.'); out.add(d < 0 ? x.s : x.s.substring(0, d)); }
            for (X c : x.c) tops(c, out);
        }
        static X rename(X x, Map<String, String> ren, String suffix) {
            List<X> c = new ArrayList<>();
            for (X y : x.c) c.add(rename(y, ren, suffix));
            String s = x.s;
            if (s != null && (x.k == X.K.FLD || x.k == X.K.RANGE || x.k == X.K.IN || x.k == X.K.ARR) && !(x.k == X.K.FLD && RefEval.isNullWord(x))) {
                int d = s.indexOf('.');
                String top = d < 0 ? s : s.substring(0, d);
                s = top + suffix + (d < 0 ? "" : s.substring(d));
            }
            return new X(x.k, s, x.neg, c);
        }
    }

    /** Six operators on one pair of operands: each as the reference says, and mutually consistent. */
    static void six(Env e, Gen g, X l, X r) {
        for (String op : Gen.CMPS) judgeBoolFlip(e, g, op, l, r);
    }
    private static void judgeBoolFlip(Env e, Gen g, String op, X l, X r) {
        Check.judgeBool(e, X.cmp(op, l, r), g.data, null);
        if (g.p(30)) {
            String flip = op.startsWith(">") ? op.replace('>', '<') : op.startsWith("<") ? op.replace('<', '>') : op;
            Check.judgeBool(e, X.cmp(flip, r, l), g.data, null);
        }
    }
    /** Sometimes wraps the comparison in a larger expression. */
    static X context(Gen g, X x) {
        switch (g.n(8)) {
            case 0: return X.not(x);
            case 1: return X.and(X.bool(true), x);
            case 2: return X.or(x, X.bool(false));
            default: return x;
        }
    }

    static final class Numbers extends Check {
        String rule() { return "pairs (v, v or a neighbour of v) around 2^31, 2^53, 2^63, powers of ten, decimals of 1-30 places and up to 140 bits, each written as literal, Integer/Long/Float/Double/BigDecimal field or small computation, under all six operators in both orders, against exact BigDecimal comparison; distinct = distinct (text, data)"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            BigDecimal v = g.number(), w = g.near(v);
            e.count(v.compareTo(w) == 0 ? "equal pairs" : v.subtract(w).abs().compareTo(BigDecimal.ONE) < 0 ? "pairs closer than 1" : "other pairs");
            six(e, g, g.num(v), g.num(w));
            judgeBool(e, context(g, X.cmp(g.cmpOp(), g.num(v), g.num(w))), g.data, null);
        }
        @Override void prologue(Env e) {
            // every pair of neighbouring edge values, as literals and in every numeric class
            List<BigDecimal> l = new ArrayList<>();
            for (java.math.BigInteger b : Gen.EDGES) l.add(new BigDecimal(b));
            Collections.sort(l);
            for (int i = 0; i < l.size(); i++) for (int j = Math.max(0, i - 2); j <= Math.min(l.size() - 1, i + 2); j++) {
                Gen g = new Gen(e.r);
                X a = g.numLit(l.get(i)), b = g.p(50) ? g.numLit(l.get(j)) : g.field(g.numValue(l.get(j)));
                if (a != null && b != null) judgeBool(e, X.cmp(g.cmpOp(), a, b), g.data, null);
                judgeBool(e, X.cmp(g.cmpOp(), g.field(g.numValue(l.get(i))), g.field(g.numValue(l.get(j)))), g.data, null);
            }
        }
    }

    static final class Texts extends Check {
        String rule() { return "string pairs (equal, case variants, prefixes, one code unit apart, unicode, quotes, control characters, up to 450 characters) as quoted literals and fields under all six operators; pairs of truth values (literals, fields, conditions); string fields ordered against numbers (numeric text by value, other text fails); distinct = distinct (text, data)"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            switch (g.n(6)) {
                case 0: case 1: case 2: { String s = g.text(); String t = g.nearText(s); six(e, g, g.strOperand(s), g.strOperand(t)); break; }
                case 3: { if (g.p(50)) { X l = g.truth(), r = g.truth(); for (String op : new String[]{"=", "!="}) judgeBool(e, context(g, X.cmp(op, l, r)), g.data, null); break; } boolean a = g.p(50), b = g.p(50); for (String op : new String[]{"=", "!="}) judgeBool(e, context(g, X.cmp(op, g.p(50) ? X.bool(a) : g.field(a), g.p(50) ? X.bool(b) : g.field(b))), g.data, null); break; }
                case 4: {
                    BigDecimal v = BigDecimal.valueOf(g.int32()), w = g.near(v);
                    if (Gen.fitsInt(w) || g.p(50)) { String s = g.p(50) ? w.toPlainString() : g.spelling(w); if (RefEval.type(s) != RefEval.T.STRING) return; X l = g.strOperand(s), r = g.p(50) ? g.numLit(v) : g.field(g.numValue(v)); for (String op : Gen.ORDS) judgeBool(e, g.p(50) ? X.cmp(op, l, r) : X.cmp(op, r, l), g.data, null); }
                    break;
                }
                default: { String s = g.text(); X l = g.strOperand(s), r = g.smallNum(); judgeBool(e, g.p(50) ? X.cmp(g.cmpOp(), l, r) : X.cmp(g.cmpOp(), r, l), g.data, null); }
            }
        }
    }

    static final class Versions extends Check {
        String rule() { return "version pairs (equal up to trailing zero components, one component bumped, a digit appended, components up to 10 digits) as literals, ComparableVersion fields and, for ordering, String fields, all operators and both orders, against component-wise numeric comparison; distinct = distinct (text, data)"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            String a = g.version(3), b = g.nearVersion(a, 3);
            if (g.p(30)) {
                String f = g.nearVersion(a, 1);
                X l = g.field(f), r = X.ver(a);
                for (String op : Gen.ORDS) judgeBool(e, g.p(60) ? X.cmp(op, l, r) : X.cmp(op, r, l), g.data, null);
            } else if (g.p(10)) {
                X l = g.field(a), r = X.ver(g.p(50) ? a : b);
                if (r.s.equals(a)) { judgeBool(e, X.cmp("=", l, r), g.data, null); judgeBool(e, X.cmp("!=", l, r), g.data, null); }
            } else six(e, g, g.verOperand(a), g.verOperand(b));
        }
    }

    static final class Dates extends Check {
        String rule() { return "pairs of dates and of date-times (month ends, leap days, year ends, seconds apart, years 0-9999) as literals, ISO text fields and LocalDate/LocalDateTime fields under all operators; strings shaped like dates which do not exist are plain text or rejected as literals; distinct = distinct (text, data)"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            int k = g.n(10);
            if (g.n(30) == 0) { // years which ISO text of four digits cannot write
                java.time.LocalDate d = java.time.LocalDate.of(g.of(-1, 0, 1, 9999, 10000, 12024, -2024, 99999, -44, 999999998, -999999998, g.n(40000) - 20000), 1 + g.n(12), 1 + g.n(28));
                java.time.LocalDate f = g.of(d, d.plusDays(1), d.minusDays(1), d.plusYears(1), d.minusYears(1), d.withYear(-d.getYear()), g.date());
                boolean moments = g.p(50);
                java.time.LocalTime t = g.dateTime().toLocalTime();
                e.count("years outside 0-9999");
                six(e, g, g.field(moments ? (Object) d.atTime(t) : d), g.field(moments ? (Object) f.atTime(g.p(60) ? t : g.dateTime().toLocalTime()) : f));
                return;
            }
            if (k < 4) { java.time.LocalDate d = g.date(); six(e, g, g.dateOperand(d), g.dateOperand(g.nearDate(d))); }
            else if (k < 8) {
                java.time.LocalDateTime d = g.dateTime();
                X l = g.dtOperand(d), r = g.dtOperand(g.nearDateTime(d));
                if (g.p(10)) l = g.field(d.plusNanos(g.of(1, 999999999)));
                six(e, g, l, r);
            } else if (k < 9) {
                // a literal that is no calendar date never evaluates
                String bad = g.p(50) ? g.of("2023-02-29", "2023-02-30", "2024-04-31", "2024-13-01", "2024-00-10", "2024-01-00", "1900-02-29", "2023-12-32") : g.of("2024-01-01 24:00:00", "2024-01-01 10:60:00", "2024-01-01 10:00:60", "2023-02-29 10:00:00");
                X ok = g.dateOperand(g.date());
                String text = ok + " " + g.cmpOp() + " " + bad;
                if (g.p(50)) text = bad + " " + g.cmpOp() + " " + ok;
                if (g.p(30)) text = "true OR " + text;
                Outcome o = Lib.bool(e.lib.any(e.r), text, g.data, null, e.r);
                e.evaluated(text, g.data, null, true);
                e.count("dates which do not exist");
                if (!o.failed()) throw new Violation("a date which does not exist was accepted\n expression: " + Gen.quote(text) + "\n data: " + Gen.show(g.data) + "\n observed: " + o);
            } else {
                // such a string in the data is text, not the neighbouring date
                String bad = g.of("2023-02-29", "2023-02-30", "2024-04-31", "1900-02-29"), near = g.of("2023-02-28", "2023-03-01", "2023-03-02", "2024-04-30", "2024-05-01", "1900-02-28", "1900-03-01");
                String f = g.put(bad);
                String text = f + " = " + near;
                Outcome o = Lib.bool(e.lib.any(e.r), text, g.data, null, e.r);
                e.evaluated(text, g.data, null, true);
                e.count("text which is no date");
                if (o.broken != null || o.ok() && Boolean.TRUE.equals(o.value)) throw new Violation("a string that is no date equals a date\n expression: " + Gen.quote(text) + "\n data: " + Gen.show(g.data) + "\n observed: " + o);
            }
        }
    }

    static void same(Env e, Map<String, Object> data, X a, X b, String what) {
        String ta = Printer.random(a, e.r), tb = Printer.random(b, e.r);
        Outcome oa = Lib.bool(e.lib.any(e.r), ta, data, null, e.r), ob = Lib.bool(e.lib.any(e.r), tb, data, null, e.r);
        e.evaluated(ta + "|" + tb, data, null, true);
        e.count("equivalences: " + what);
        if (!oa.same(ob)) throw new Violation(what + "\n data: " + Gen.show(data) + "\n " + Gen.quote(ta) + " -> " + oa + "\n " + Gen.quote(tb) + " -> " + ob);
    }

    static final class Ranges extends Check {
        String rule() { return "field values at, next to and away from the bounds (all numeric classes, numeric text, non-numeric values, missing fields), bounds integer/long/decimal literals, also reversed or equal; judged by exact comparison and against 'field >= lo AND field <= hi' on the same library; distinct = distinct (text, data)"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            BigDecimal lo = g.number().abs(), hi = g.p(20) ? g.near(lo).abs() : g.p(60) ? lo.add(BigDecimal.valueOf(g.n(50), g.n(3))) : g.number().abs();
            BigDecimal v;
            switch (g.n(6)) { case 0: v = lo; break; case 1: v = hi; break; case 2: v = g.near(lo); break; case 3: v = g.near(hi); break; case 4: v = lo.add(hi).multiply(new BigDecimal("0.5")); break; default: v = g.number(); }
            X l = g.numLit(lo), h = g.numLit(hi);
            if (l == null || h == null) return;
            String f;
            switch (g.n(12)) {
                case 0: f = g.put(v.toPlainString()); break;
                case 1: f = g.put(g.of("abc", "", "1x", true, false)); break;
                case 2: f = g.put(g.p(50) ? (Object) g.date() : (Object) g.dateTime()); break;
                case 3: f = g.missing(); break;
                default: f = g.put(g.numValue(v));
            }
            X x = X.range(f, l, h);
            judgeBool(e, context(g, x), g.data, null);
            Outcome lower = Lib.bool(e.lib.any(e.r), Printer.canonical(X.cmp(">=", X.fld(f), l)), g.data, null, e.r), upper = Lib.bool(e.lib.any(e.r), Printer.canonical(X.cmp("<=", X.fld(f), h)), g.data, null, e.r);
            if (upper.failed() && lower.ok() && !(Boolean) lower.value) e.count("upper bound fails, lower already false (not judged)");
            else same(e, g.data, x, X.and(X.cmp(">=", X.fld(f), l), X.cmp("<=", X.fld(f), h)), "range versus >= and <=");
        }
    }

    static final class Member extends Check {
        String rule() { return "IN / NOT IN over 1-3500 items (uniform lists of one kind of literal, sorted or not, numbers near the value, strings near the value, booleans, versions, dates, computed items, list-valued items, mixtures of kinds against text) against item-wise equality by the reference, against an OR of '=' and against shuffled and duplicated item lists on the library; distinct = distinct (text, data)"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            int k = g.bigListSize();
            List<X> items = new ArrayList<>();
            Object v;
            int kind = g.n(16);
            if (kind >= 14) {
                // items of several kinds against text or a number: each is compared on its own
                BigDecimal b = BigDecimal.valueOf(g.n(12));
                v = g.p(70) ? g.of("" + b, b + ".0", "true", "false", "1.2.3", "a", "", "True", "1.2.3.0") : g.numValue(b);
                boolean number = v instanceof Number;
                for (int i = 0; i < k; i++) {
                    String t = g.of("" + g.n(12), g.n(12) + ".0", "true", "TRUE", "a", "A", "", "1.2.3", "0" + g.n(12));
                    switch (g.n(number ? 4 : 7)) {
                        case 0: items.add(X.str(t)); break;
                        case 1: items.add(g.field(t)); break;
                        case 2: items.add(X.i(g.n(12))); break;
                        case 3: items.add(g.p(50) ? g.field(g.numValue(BigDecimal.valueOf(g.n(12)), g.n(2))) : number ? g.num(BigDecimal.valueOf(g.n(120), 1)) : X.ari("+", X.i(g.n(6)), X.i(g.n(6)))); break;
                        case 4: items.add(g.p(50) ? X.bool(g.p(50)) : g.truth()); break;
                        case 5: items.add(X.ver(g.of("1.2.3", "1.2.3.0", "1.2.4"))); break;
                        default: items.add(g.field((Object) g.p(50)));
                    }
                }
                if (number) for (X i : items) if (i.k == X.K.STR && RefEval.type(i.s) != RefEval.T.STRING) return;
            } else if (kind >= 12) {
                // a uniform list: one kind of literal and one class of value
                int span = g.of(5, 20, 100, 1000), scale = g.p(60) ? 0 : 1;
                boolean integers = scale == 0 && g.p(80);
                if (g.p(50)) k = 5 + g.n(60);
                v = g.numValue(BigDecimal.valueOf(g.n(span), scale), g.n(5));
                for (int i = 0; i < k; i++) { int b = g.n(span); items.add(integers ? X.i(b) : g.numLit(BigDecimal.valueOf(b, scale))); }
                if (g.p(50)) items.add(g.n(k + 1), integers ? X.i(RefEval.big(v).intValueExact()) : g.numLit(RefEval.big(v)));
                if (g.p(30)) items.sort(java.util.Comparator.comparing(x -> new BigDecimal(x.s)));
            } else if (kind < 5) {
                BigDecimal b = g.p(50) ? BigDecimal.valueOf(g.n(20)) : g.number();
                v = g.numValue(b);
                for (int i = 0; i < k; i++) { BigDecimal c = g.p(50) ? BigDecimal.valueOf(g.n(20)) : g.near(g.near(b)); if (i == k - 1 && g.p(40)) c = b; X x = g.p(80) ? g.numLit(c) : null; items.add(x != null ? x : g.num(c)); }
            } else if (kind < 8) {
                String s = g.text(); v = s;
                for (int i = 0; i < k; i++) { String t = i == k - 1 && g.p(40) ? s : g.nearText(g.nearText(s)); items.add(Gen.quotable(t) ? X.str(t) : g.field(t)); }
            } else if (kind == 8) { v = g.p(50); for (int i = 0; i < k; i++) items.add(g.p(60) ? X.bool(g.p(50)) : g.truth()); }
            else if (kind == 9) { String a = g.version(3); v = new ComparableVersion(a); for (int i = 0; i < k; i++) items.add(X.ver(g.nearVersion(a, 3))); }
            else if (kind == 10) { java.time.LocalDate d = g.date(); v = g.p(50) ? d : Gen.fmt(d); for (int i = 0; i < k; i++) items.add(X.lit(X.K.DATE, Gen.fmt(g.nearDate(d)))); }
            else { java.time.LocalDateTime d = g.dateTime(); v = g.p(50) ? d : Gen.fmt(d); for (int i = 0; i < k; i++) items.add(X.lit(X.K.DT, Gen.fmt(g.nearDateTime(d)))); }
            if (kind < 5 && g.p(10)) { List<Object> l = new ArrayList<>(); int m = 1 + g.n(5); for (int i = 0; i < m; i++) l.add(g.numValue(BigDecimal.valueOf(g.n(20)))); items.add(g.field(g.listContainer(l))); }
            String f = g.p(97) ? g.put(v) : g.missing();
            X in = X.in(f, false, items), notIn = X.in(f, true, items);
            judgeBool(e, context(g, in), g.data, null);
            judgeBool(e, context(g, notIn), g.data, null);
            List<X> shuffled = new ArrayList<>(items);
            if (g.p(30)) shuffled.add(g.pick(items));
            Collections.shuffle(shuffled, new java.util.Random(e.r.nextLong()));
            same(e, g.data, in, X.in(f, false, shuffled), "order and repetition of IN items");
            same(e, g.data, notIn, X.not(in), "NOT IN versus NOT (IN)");
            boolean lists = false; for (X i : items) if (i.k == X.K.FLD && RefEval.lookup(i.s, g.data) instanceof java.util.Collection) lists = true;
            if (!lists && k <= 12) { X or = null; for (X i : items) { X c = X.cmp("=", X.fld(f), i); or = or == null ? c : X.or(or, c); } same(e, g.data, in, or, "IN versus OR of ="); }
        }
    }

    static final class Arrays_ extends Check {
        String rule() { return "CONTAINS_ANY/CONTAINS_ALL over lists, sets, arrays, queues, views and sets with their own idea of equality, of 0-3500 elements (mixed and uniform numeric classes, text, versions, dates, booleans, null elements) and 1-60 items, against element-wise equality by the reference and against one condition per item on the library; distinct = distinct (text, data)"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            int m = g.p(10) ? 0 : g.dataListSize(), k = g.p(80) ? 1 + g.n(4) : g.p(90) ? 1 + g.n(12) : 1 + g.n(60), uniform = g.p(30) ? g.n(5) : -1;
            if (m > 5000) k = Math.min(k, Math.max(1, 100_000 / m));
            List<Object> l = new ArrayList<>(); List<X> items = new ArrayList<>();
            int kind = g.n(12);
            for (int i = 0; i < m; i++) { Object o = element(g, kind); l.add(uniform >= 0 && o instanceof Number ? g.numValue(RefEval.big(o), uniform) : o); }
            for (int i = 0; i < k; i++) items.add(item(g, kind));
            if (g.p(25) && kind != 1 && kind != 6 && kind != 7 && kind != 10) for (int i = 0; i < k; i++) { Object o = back(items.get(i)); if (o != null) l.add(g.n(l.size() + 1), o); }   // make CONTAINS_ALL succeed
            if (g.p(8)) l.add(g.n(l.size() + 1), null);
            if (g.p(5)) l.add(g.n(l.size() + 1), g.of("zz", "x"));
            if (g.p(12)) for (int i = 1 + g.n(3); i > 0; i--) l.add(g.n(l.size() + 1), g.of(true, false, 1, 0, 5L, 2.5, "true", "1", "5", LocalDate.of(2024, 1, 1), "2024-01-01", LocalDate.of(2024, 1, 2).atStartOfDay(), kind == 0 ? "1.0" : new ComparableVersion("1.0.0")));   // of another kind than the items
            String f;
            int fk = g.n(40);
            if (fk == 0) f = g.missing(); else if (fk == 1) f = g.put(g.of("a", 5, true, 2.5)); else f = g.put(g.anyContainer(l));
            judgeBool(e, context(g, X.any(f, items)), g.data, null);
            judgeBool(e, context(g, X.all(f, items)), g.data, null);
            if (items.size() > 1 && fk > 1) {
                X any = null, all = null;
                for (X i : items) { X c = X.any(f, List.of(i)); any = any == null ? c : X.or(any, c); all = all == null ? c : X.and(all, c); }
                boolean homogeneous = items.stream().map(i -> { try { return RefEval.type(new RefEval(g.data, null).val(i)); } catch (RuntimeException ex) { return i; } }).distinct().count() == 1;
                if (homogeneous) { same(e, g.data, X.any(f, items), any, "CONTAINS_ANY item by item"); same(e, g.data, X.all(f, items), all, "CONTAINS_ALL item by item"); }
            }
        }
        static Object element(Gen g, int kind) {
            switch (kind) {
                case 0: case 2: case 3: return g.numValue(BigDecimal.valueOf(g.n(12)));
                case 1: return g.numValue(BigDecimal.valueOf(g.n(40), 1));
                case 6: { String v = g.of("1.0.0", "1.0.1", "1.2.3", "1.10.0", "1.2.3.0"); return new ComparableVersion(v); }
                case 7: return g.p(50) ? (Object) java.time.LocalDate.of(2024, 1, 1 + g.n(9)) : (Object) ("2024-01-0" + (1 + g.n(9)));
                case 8: return g.p(50);
                case 10: { java.time.LocalDateTime d = moment(g); return g.p(50) ? (Object) d : Gen.fmt(d); }
                default: return g.p(50) ? "s" + g.n(12) : g.of("S1", "s1 ", "a'b", "5", "true", "");
            }
        }
        static X item(Gen g, int kind) {
            switch (kind) {
                case 0: case 2: return X.lit(X.K.INT, "" + g.n(14));
                case 3: return g.p(70) ? X.lit(X.K.INT, "" + g.n(14)) : X.ari("+", X.i(g.n(7)), X.i(g.n(7)));
                case 1: return X.dec(BigDecimal.valueOf(g.n(40), 1).setScale(1 + g.n(2)));
                case 6: return X.ver(g.of("1.0.0", "1.0.1", "1.2.3", "1.10.0", "1.2.3.0"));
                case 7: return X.lit(X.K.DATE, "2024-01-0" + (1 + g.n(9)));
                case 8: return g.p(60) ? X.bool(g.p(50)) : g.truth();
                case 10: return X.lit(X.K.DT, Gen.fmt(moment(g)));
                default: return X.str(g.p(60) ? "s" + g.n(12) : g.of("S1", "s1 ", "a'b", "5", "true", ""));
            }
        }
        private static java.time.LocalDateTime moment(Gen g) { return java.time.LocalDate.of(2024, 1, 1 + g.n(2)).atTime(g.of(0, 10, 22), g.of(0, 59), g.of(0, 30)); }
        static Object back(X x) { switch (x.k) { case INT: return Integer.parseInt(x.s); case STR: return x.s; case BOOL: return x.s.equals("true"); default: return null; } }
    }

    static final class Nulls extends Check {
        String rule() { return "null checks in both orders and all spellings of null, on fields present with any value (0, empty, false, text 'null', lists, maps, NaN, empty Optionals, beans, arrays and 30 other kinds of object), absent, reached through a value which is no map, null-valued, nested at any depth through maps, null and non-map intermediates, as default field and on computed operands; the quoted text null, which is no null; distinct = distinct (text, data, default field)"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            decoyPercent.set(50);
            X nul = X.fld(g.of("null", "NULL", "Null", "nULL"));
            String op = g.of("=", "!=");
            String def = null;
            X o;
            switch (g.n(9)) {
                case 0: case 1: case 2: o = X.fld(g.missing()); break;
                case 3: o = g.field(g.of(0, "", "null", false, "x", 0L, 0.0, "NULL", " ")); break;
                case 4: o = g.field(g.of(List.of(), List.of(1), Map.of(), Map.of("a", 1), "2024-01-01", BigDecimal.ZERO)); break;
                case 5: o = g.of(X.i(0), X.str(""), X.str("null"), X.bool(false), X.ari("+", X.i(1), X.i(2))); break;
                case 7: o = g.field(g.oddValue()); break;
                case 6: o = X.fld(null); def = g.p(50) ? g.missing() : g.put(g.of(0, "", "null", false)); break;
                default: o = g.field(g.numValue(g.number()));
            }
            boolean left = g.p(35) && o.s != null;
            X x = left ? X.cmp(op, nul, o) : X.cmp(op, o, nul);
            judgeBool(e, g.p(80) ? x : X.not(x), g.data, def);
            if (g.p(25)) {
                // the text null is no null
                X text = X.str(g.of("null", "NULL", "Null")), f = g.p(85) ? g.field(g.of("null", "NULL", "x", "", false)) : X.fld(g.missing());
                judgeBool(e, g.p(60) ? X.cmp(op, f, text) : X.cmp(op, text, f), g.data, null);
                if (g.p(50)) judgeBool(e, X.cmp(op, text, nul), g.data, null);
            }
            if (o.k == X.K.FLD && def == null && g.p(40)) {
                // the guard idiom
                X guarded = X.and(X.cmp("!=", o, nul), X.cmp("=", o, X.i(1)));
                judgeBool(e, guarded, g.data, null);
            }
        }
    }

    static final class Fields extends Check {
        String rule() { return "simple and nested paths (case-sensitive names, names starting like keywords or digits, decoy siblings, 1-35 levels) read back through the arithmetic evaluator and in every kind of condition, missing paths of every shape (also through values which are no maps, by the names of their properties), objects of every class read back by identity, and expressions with omitted operands under a default field compared with the same expression written out; distinct = distinct (text, data, default field)"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            decoyPercent.set(40);
            int noise = g.n(6);
            for (int i = 0; i < noise; i++) g.put(g.numValue(BigDecimal.valueOf(1000 + i)));
            switch (g.n(6)) {
                case 5: { // any object comes back as it is
                    Object v = g.p(70) ? g.oddValue() : g.of((Object) new ArrayList<>(List.of(1, 2)), new LinkedHashMap<>(Map.of("a", 1)), new Object[]{1}, "text", "null", "", "2024-01-01", "5", 1000, 1000L, 2.5, new BigDecimal("1.50"), new BigDecimal("-0E+3"), java.time.LocalDate.of(2024, 1, 2), new org.apache.maven.artifact.versioning.ComparableVersion("1.0"));
                    String f = g.put(v), text = g.p(60) ? f : g.of("(" + f + ")", " " + f + " ", "((" + f + "))");
                    if (g.p(60)) e.count("decoy entries in the data", Decoys.add(X.fld(f), g.data, null, e.r));
                    if (RefEval.lookup(f, g.data) != v) return;
                    Map<String, Object> given = g.p(30) ? Maps.odd(g.data, e.r) : g.data;
                    if (v instanceof Map && given != g.data) return;
                    Outcome o = Lib.arith(e.lib.any(e.r), text, given);
                    e.evaluated(text + "|" + Gen.show(v), true); e.count("objects read back");
                    if (!o.ok() || o.value != v) throw new Violation("a field has to yield the value stored at its path\n expression: " + Gen.quote(text) + "\n data: " + Gen.show(g.data) + "\n observed: " + o);
                    break;
                }
                case 0: { Object v = g.of(0, 1, "a", "", true, 2.5, 5L, "2024-01-01", new BigDecimal("1.50")); X f = g.field(v); judgeArith(e, f, g.data); judgeArith(e, X.ari("+", f, X.i(1)), g.data); break; }
                case 1: {
                    String f = g.missing();
                    X x; int k = g.n(6);
                    switch (k) { case 0: x = X.cmp(g.cmpOp(), X.fld(f), X.i(1)); break; case 1: x = X.cmp(g.cmpOp(), X.i(1), X.fld(f)); break; case 2: x = X.in(f, g.p(50), List.of(X.i(1))); break; case 3: x = X.range(f, X.i(1), X.i(2)); break; case 4: x = g.p(50) ? X.any(f, List.of(X.i(1))) : X.all(f, List.of(X.i(1))); break; default: x = X.cmp(g.cmpOp(), X.ari("+", X.fld(f), X.i(1)), X.i(1)); }
                    if (g.p(60)) e.count("decoy entries in the data", Decoys.add(x, g.data, null, e.r));
                    if (RefEval.lookup(f, g.data) != null) return;
                    String text = Printer.random(context(g, x), e.r);
                    Outcome o = Lib.bool(e.lib.any(e.r), text, g.p(30) ? Maps.odd(g.data, e.r) : g.data, null, e.r);
                    e.evaluated(text, g.data, null, true); e.count("missing field");
                    notFound(text, g, o);
                    Outcome a = Lib.arith(e.lib.any(e.r), f, g.data);
                    notFound(f, g, a);
                    break;
                }
                case 2: { // a path is not resolved by a similarly named one
                    X f = g.field(7); String s = f.s;
                    String other = g.of(s + "x", s.toUpperCase(java.util.Locale.ROOT), s.toLowerCase(java.util.Locale.ROOT), s.substring(0, s.length() - 1), s + ".a", s.replace('.', '_'));
                    if (RefParser.classify(other.isEmpty() ? "1" : other).equals("FLD") && !other.endsWith(".") && !other.equalsIgnoreCase("null")) { judgeArith(e, X.fld(other), g.data); judgeBool(e, X.cmp("=", X.fld(other), X.i(7)), g.data, null); }
                    break;
                }
                case 3: judgeBool(e, g.combine(1 + g.n(3), g::cond), g.data, null); break;
                default: {
                    // default field
                    BigDecimal v = g.number();
                    if (g.p(15)) { oddDefault(e, g, v); break; }
                    String def = g.p(90) ? g.put(g.numValue(v)) : g.missing();
                    X blank = X.cmp(g.cmpOp(), X.fld(null), g.num(g.near(v))), full = X.cmp(blank.s, X.fld(def), blank.c.get(1));
                    if (g.p(40)) { X c = X.cmp(g.cmpOp(), X.fld(null), g.num(g.near(v))); X d = X.cmp(c.s, X.fld(def), c.c.get(1)); boolean and = g.p(50); blank = and ? X.and(blank, c) : X.or(blank, c); full = and ? X.and(full, d) : X.or(full, d); }
                    if (g.p(20)) { X other = g.cond(); blank = X.and(other, blank); full = X.and(other, full); }
                    judgeBool(e, blank, g.data, def);
                    String tb = Printer.random(blank, e.r), tf = Printer.random(full, e.r);
                    Outcome a = Lib.bool(e.lib.any(e.r), tb, g.data, def, e.r), b = Lib.bool(e.lib.any(e.r), tf, g.data, null, e.r), c = Lib.bool(e.lib.any(e.r), tf, g.data, g.of(def, "unrelated", null), e.r);
                    e.evaluated(tb + "|" + tf, g.data, def, true); e.count("default field equivalences");
                    if (!a.same(b) || !b.same(c)) throw new Violation("default field " + def + "\n data: " + Gen.show(g.data) + "\n omitted: " + Gen.quote(tb) + " -> " + a + "\n written: " + Gen.quote(tf) + " -> " + b + "\n written, with a default field: " + c);
                }
            }
        }
        /** A default field need not be a name that an expression could mention. */
        private void oddDefault(Env e, Gen g, BigDecimal v) {
            String odd = g.of("unit price", " a", "a ", " a ", "a-b", "prix \u20ac", "\u4e2d\u6587", "and", "IN", "true", "5", "1.5x", "'a'", "a,b", "a=b", "(", "$", "A", "\ta", "%s", "to", "min");
            String path = odd;
            g.data.remove(odd);
            if (g.p(30)) { Map<String, Object> m = new LinkedHashMap<>(); if (g.p(85)) m.put("x y", g.numValue(v)); g.data.put(odd, m); path = odd + ".x y"; }
            else if (g.p(85)) g.data.put(odd, g.numValue(v));
            if (path.indexOf('.') >= 0 && path.equals(odd)) return;
            for (String s : new String[]{odd.trim(), odd + " ", odd.toLowerCase(java.util.Locale.ROOT), odd.replace("'", "")}) if (!s.equals(odd) && g.p(50)) g.data.put(s, g.numValue(g.near(v)));
            X c = X.cmp(g.cmpOp(), X.fld(null), g.num(g.near(v)));
            e.count("odd default fields");
            judgeBool(e, g.p(70) ? c : g.p(50) ? X.and(X.bool(true), c) : X.or(c, g.cond()), g.data, path);
        }
        static void notFound(String text, Gen g, Outcome o) {
            if (!(o.failure instanceof com.github.sidhant92.boolparser.exception.DataNotFoundException)) throw new Violation("a missing field has to be reported as DataNotFoundException\n expression: " + Gen.quote(text) + "\n data: " + Gen.show(g.data) + "\n observed: " + o);
        }
    }
}
