package vf;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.util.ArrayList;
import java.util.Collections;
import java.util.List;
import java.util.Map;
import org.apache.maven.artifact.versioning.ComparableVersion;

/** Checks on arithmetic: C12 - C15, C24, C25. */
final class Maths {

    static final class Arithmetic extends Check {
        String rule() { return "random operator trees (1-40 operators, + - * / % ^, unary minus, functions, parentheses needed or redundant) over literals and fields of every numeric class, and + over text, booleans and versions, against an exact reference using the documented precedence; distinct = distinct (text, data)"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            switch (g.n(10)) {
                case 0: { // concatenation
                    int k = 2 + g.n(4);
                    X x = null;
                    for (int i = 0; i < k; i++) { X o = concatOperand(g, i == 0); x = x == null ? o : X.ari("+", x, o); }
                    judgeArith(e, x, g.data); break;
                }
                case 1: { // two operators, all precedence pairs
                    X a = g.num(BigDecimal.valueOf(g.n(41) - 20)), b = g.num(BigDecimal.valueOf(1 + g.n(9))), c = g.num(BigDecimal.valueOf(1 + g.n(5)));
                    String p = g.of(Gen.ARIS), q = g.of(Gen.ARIS);
                    judgeArith(e, X.ari(q, X.ari(p, a, b), c), g.data);
                    judgeArith(e, X.ari(p, a, X.ari(q, b, c)), g.data);
                    if (g.p(30)) judgeArith(e, X.neg(X.ari(p, a, b)), g.data);
                    if (g.p(30)) judgeArith(e, X.ari(p, X.neg(a), b), g.data);
                    break;
                }
                case 2: {
                    if (g.p(40)) { judgeArith(e, X.ari(g.of(Gen.ARIS), g.p(20) ? g.num(g.decimal()) : g.field(g.extreme()), g.p(20) ? g.num(g.decimal()) : g.field(g.extreme())), g.data); break; }
                    BigDecimal a = g.number(), b = g.number(); judgeArith(e, X.ari(g.of("+", "-", "*", "/"), g.num(a), g.num(b)), g.data); break; }
                case 3: { // decimals against each other in every class
                    BigDecimal a = g.decimal(), b = g.p(50) ? g.decimal() : BigDecimal.valueOf(g.int32());
                    judgeArith(e, X.ari(g.of("+", "-", "*", "/"), g.num(a), g.num(b)), g.data); break;
                }
                case 4: { // powers
                    X b = g.num(BigDecimal.valueOf(g.n(41) - 20)), x = g.p(80) ? g.num(BigDecimal.valueOf(g.n(16))) : g.num(BigDecimal.valueOf(g.n(41) - 20, 1));
                    judgeArith(e, X.ari("^", b, x), g.data); break;
                }
                case 5: { X x = g.of(g.num(), g.smallNum(), X.str(g.quotableText()), X.bool(g.p(50)), X.ver(g.version(3)), X.lit(X.K.DATE, Gen.fmt(g.date())), X.lit(X.K.DT, Gen.fmt(g.dateTime()))); judgeArith(e, x, g.data); break; }
                default: judgeArith(e, g.arith(1 + g.n(g.p(85) ? 6 : 40), g.p(30)), g.data);
            }
        }
        static X concatOperand(Gen g, boolean first) {
            if (!first && g.p(20)) { BigDecimal d = g.p(60) ? BigDecimal.valueOf(g.n(4001) - 2000, 1 + g.n(3)) : g.decimal(); if (d.signum() >= 0 && g.p(40)) { X x = g.numLit(d); if (x != null) return x; } return g.field(g.p(50) ? (Object) d : g.p(60) ? (Object) d.doubleValue() : (Object) d.floatValue()); }
            switch (g.n(first ? 4 : 7)) {
                case 0: case 1: return g.p(50) ? X.str(g.quotableText()) : g.field(g.text());
                case 2: return g.p(50) ? X.bool(g.p(50)) : g.field(g.p(50));
                case 3: return g.p(50) ? X.ver(g.version(3)) : g.field(new ComparableVersion(g.version(2)));
                case 4: return X.lit(X.K.INT, "" + g.n(1000));
                case 5: return g.field((Object) (g.p(50) ? (Object) g.r.nextLong() : (Object) g.r.nextInt()));
                default: return X.ari("*", X.i(g.n(9)), X.i(g.n(9)));
            }
        }
    }

    static final class Overflow extends Check {
        String rule() { return "one to four integer operations (+ - * % ^ unary minus, SUM, AVG, MIN, MAX, INT) on operands around 2^31, 2^53, 2^62 and 2^63 of Integer, Long and literal form, and huge decimals into INT and division: the result is the exact value or a Failure; distinct = distinct (text, data)"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            switch (g.n(9)) {
                case 8: { X x = X.ari(g.of("+", "-", "*", "/", "%"), g.field(g.extreme()), g.field(g.extreme())); if (g.p(20)) x = X.neg(x); count(e, judgeArith(e, x, g.data)); break; }
                case 0: case 1: case 2: { X x = X.ari(g.of("+", "-", "*"), edge(g), edge(g)); count(e, judgeArith(e, x, g.data)); break; }
                case 3: { X x = X.ari(g.of("+", "-", "*"), X.ari(g.of("+", "-", "*"), edge(g), edge(g)), edge(g)); count(e, judgeArith(e, x, g.data)); break; }
                case 4: { X x = g.p(50) ? X.neg(edge(g)) : X.ari("%", edge(g), edge(g)); count(e, judgeArith(e, x, g.data)); break; }
                case 5: { int b = g.n(50) - 25; X x = X.ari("^", g.num(BigDecimal.valueOf(b)), g.num(BigDecimal.valueOf(g.n(64)))); count(e, judgeArith(e, x, g.data)); break; }
                case 6: {
                    int k = 1 + g.n(5); List<X> a = new ArrayList<>();
                    for (int i = 0; i < k; i++) a.add(edge(g));
                    count(e, judgeArith(e, X.fun(g.of("SUM", "AVG", "MEAN", "MIN", "MAX", "MEDIAN"), a), g.data)); break;
                }
                default: {
                    BigDecimal v = new BigDecimal(g.pick(List.of(Gen.EDGES))).multiply(g.p(50) ? BigDecimal.ONE : BigDecimal.TEN.pow(g.n(20))).add(BigDecimal.valueOf(g.n(100), 2));
                    count(e, judgeArith(e, g.p(50) ? X.fun("INT", g.field(v)) : X.ari(g.of("+", "-", "*", "/"), g.field(v), edge(g)), g.data));
                }
            }
            // the same in a condition: never decided on a wrapped value
            if (g.p(40)) {
                X x = X.cmp(g.of(Gen.ORDS), X.ari(g.of("+", "-", "*"), edge(g), edge(g)), X.i(0));
                count(e, judgeBool(e, x, g.data, null));
            }
        }
        static void count(Env e, Expect w) { if (w.mayFail) e.count("results beyond 64 bits"); }
        static X edge(Gen g) {
            BigInteger b = g.p(75) ? Gen.EDGES[g.n(Gen.EDGES.length)] : g.integer();
            BigDecimal v = new BigDecimal(b);
            if (g.p(40) && Gen.fitsLong(v)) { if (b.equals(RefEval.LMIN)) return g.field(v.longValueExact()); return X.i(b.longValueExact()); }
            return g.field(Gen.fitsInt(v) && g.p(50) ? (Object) v.intValueExact() : (Object) v.longValueExact());
        }
    }

    static void sameArith(Env e, Map<String, Object> data, X a, X b, String what) {
        String ta = Printer.random(a, e.r), tb = Printer.random(b, e.r);
        Outcome oa = Lib.arith(e.lib.any(e.r), ta, data), ob = Lib.arith(e.lib.any(e.r), tb, data);
        e.evaluated(ta + "|" + tb, data, null, true);
        e.count("equivalences: " + what);
        if (!oa.same(ob)) throw new Violation(what + "\n data: " + Gen.show(data) + "\n " + Gen.quote(ta) + " -> " + oa + "\n " + Gen.quote(tb) + " -> " + ob);
    }

    static final class Aggregates extends Check {
        String rule() { return "MIN MAX SUM AVG MEAN MEDIAN MODE over 1-3500 numbers (small ranges with repeats, all numeric classes, 64-bit and long decimal values, all beyond 64 bits on one side, closer together than a double can tell) given as arguments, list fields (list, deque), mixtures and nested calls, against exact references, and permutation / argument-versus-list / MEAN-versus-AVG equivalences on the library; distinct = distinct (text, data)"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            String f = g.of(Gen.AGGS);
            if (g.n(100) == 0) { // a very long list
                List<Object> l = new ArrayList<>();
                int cls = g.p(60) ? g.n(5) : -1, span = g.of(3, 100, 1_000_000), scale = g.of(0, 0, 1);
                for (int n = g.dataListSize() + 20000; n > 0; n--) l.add(g.numValue(BigDecimal.valueOf(g.n(span) - span / 3, scale), cls));
                e.count("very long lists");
                judgeArith(e, X.fun(f, g.field(g.listContainer(l))), g.data);
                return;
            }
            int k = g.bigListSize(), cls = g.p(40) ? g.n(5) : -1;
            List<BigDecimal> v = new ArrayList<>();
            int kind = g.n(11);
            if (kind >= 8) {
                // all far out on one side, or so close together that a double cannot tell them apart
                BigDecimal base = kind == 8 ? new BigDecimal(new java.math.BigInteger(64 + g.n(g.p(90) ? 100 : 1500), new java.util.Random(g.r.nextLong()))).add(new BigDecimal(RefEval.LMAX)) : kind == 9 ? new BigDecimal(Gen.EDGES[g.n(Gen.EDGES.length)]) : g.decimal();
                if (g.p(50)) base = base.negate();
                if (g.p(30)) k = 1 + g.n(4);
                for (int i = 0; i < k; i++) v.add(g.p(70) ? base.add(BigDecimal.valueOf(g.n(41) - 20, kind == 8 ? 0 : g.of(0, 1, 18, 25))) : kind == 8 ? base.multiply(BigDecimal.valueOf(1 + g.n(3))) : base);
            }
            else for (int i = 0; i < k; i++) v.add(kind < 3 ? BigDecimal.valueOf(g.n(10) - 4) : kind < 4 ? BigDecimal.valueOf(g.int32()) : kind < 5 ? BigDecimal.valueOf(g.n(60) - 20, 1) : kind < 6 ? new BigDecimal(g.integer()) : kind < 7 ? BigDecimal.valueOf(g.n(5) - 2).add(g.p(20) ? BigDecimal.valueOf(5, 1) : BigDecimal.ZERO) : g.number());
            List<X> args = new ArrayList<>();
            for (BigDecimal b : v) { X x = g.p(70) ? g.numLit(b) : null; args.add(x != null ? x : g.num(b)); }
            X x = X.fun(f, args);
            judgeArith(e, x, g.data);
            // list field
            List<Object> l = new ArrayList<>();
            for (BigDecimal b : v) l.add(g.numValue(b, cls));
            X list = g.field(g.listContainer(l));
            X y = X.fun(f, list);
            judgeArith(e, y, g.data);
            List<X> perm = new ArrayList<>(args);
            Collections.shuffle(perm, new java.util.Random(e.r.nextLong()));
            boolean tie = Expect.arith(x, g.data).v instanceof RefEval.OneOf;
            BigDecimal abs = BigDecimal.ZERO;
            for (BigDecimal b : v) abs = abs.add(b.abs());
            boolean sumRange = abs.toBigInteger().bitLength() > 62;   // whether a sum overflows depends on the classes of the numbers
            if (!tie && !sumRange) {
                sameArith(e, g.data, x, X.fun(f, perm), "order of arguments");
                sameArith(e, g.data, x, y, "arguments versus list");
                if (k > 1) { int c = 1 + g.n(k - 1); List<Object> tail = new ArrayList<>(); for (BigDecimal b : v.subList(c, k)) tail.add(g.numValue(b)); List<X> mix = new ArrayList<>(args.subList(0, c)); mix.add(g.field(g.listContainer(tail))); sameArith(e, g.data, x, X.fun(f, mix), "list among arguments"); }
            }
            if (f.equals("AVG")) sameArith(e, g.data, x, X.fun("MEAN", args), "MEAN versus AVG");
            // nesting
            if (g.p(40)) { List<X> a = new ArrayList<>(); int n = 1 + g.n(3); for (int i = 0; i < n; i++) a.add(X.fun(g.of("MIN", "MAX", "SUM", "AVG", "INT"), g.ariLeaf(false))); a.add(x); judgeArith(e, X.fun(g.of(Gen.AGGS), a), g.data); }
            if (g.p(30)) judgeBool(e, X.cmp(g.cmpOp(), x, g.p(50) ? g.num(g.pick(v)) : y), g.data, null);
            if (g.p(5)) {
                X empty = X.fun(f, g.field(new ArrayList<>()));
                judgeArith(e, empty, g.data);
            }
        }
    }

    static final class Scalars extends Check {
        /** "today" is the date of the default time zone: the days elapsed are counted there too, over changes of the clock. */
        @Override void prologue(Env e) {
            java.util.TimeZone utc = java.util.TimeZone.getDefault();
            try {
                for (String zone : new String[]{"America/New_York", "Australia/Lord_Howe", "Pacific/Apia", "Pacific/Kiritimati", "Etc/GMT+12", "Etc/GMT-14", "Asia/Kolkata", "Africa/Monrovia", "Europe/Lisbon", "America/Sao_Paulo"}) {
                    java.util.TimeZone.setDefault(java.util.TimeZone.getTimeZone(zone));
                    for (int i = 0; i < 160; i++) {
                        Gen g = new Gen(e.r);
                        LocalDate d = i < 4 ? LocalDate.now().plusDays(i - 2) : i < 120 ? LocalDate.now().minusDays(g.n(500)) : g.date();
                        if (d.getYear() < 1) continue;
                        days(e, g, d);
                        e.count("days elapsed in other time zones");
                    }
                }
            } finally { java.util.TimeZone.setDefault(utc); }
        }

        String rule() { return "LEN of quoted strings and string fields of 0-450 UTF-16 units and of collections of 0-500 elements; INT of every numeric class around integers, 2^31, 2^53 and 2^63; DAYS_ELAPSED of dates from year 1 to 9999 as literal, text and LocalDate; through both evaluators; distinct = distinct (text, data)"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            switch (g.n(3)) {
                case 0: {
                    X x;
                    int k = g.n(5);
                    if (k < 3) { String s = g.anyString(); x = Gen.quotable(s) && g.p(50) ? X.str(s) : g.field(s); }
                    else { int n = g.p(20) ? 0 : g.n(60) == 0 ? g.of(32767, 32768, 65535, 65536, 65537, 100000) : g.dataListSize(); List<Object> l = new ArrayList<>(); for (int i = 0; i < n; i++) l.add(g.p(50) ? (Object) g.n(5) : (Object) g.text()); Object c = g.p(60) ? g.listContainer(l) : g.anyContainer(l); x = g.field(c instanceof Object[] ? g.listContainer(l) : c); }
                    X len = X.fun("LEN", x);
                    Expect w = judgeArith(e, len, g.data);
                    if (w.v instanceof Integer) { int n = (Integer) w.v; judgeBool(e, X.cmp(g.cmpOp(), len, X.i(Math.max(0, n + g.n(3) - 1))), g.data, null); }
                    break;
                }
                case 1: {
                    BigDecimal v = g.number();
                    if (g.p(40)) v = new BigDecimal(g.integer()).add(BigDecimal.valueOf(g.n(1999) - 999, 3));
                    X x = g.p(80) ? g.num(v) : X.ari(g.of("+", "/", "*"), g.num(v), g.num(BigDecimal.valueOf(1 + g.n(9), g.n(2))));
                    Expect w = judgeArith(e, X.fun("INT", x), g.data);
                    if (w.v instanceof Integer || w.v instanceof Long) judgeBool(e, X.cmp(g.cmpOp(), X.fun("INT", x), g.num(BigDecimal.valueOf(((Number) w.v).longValue()))), g.data, null);
                    break;
                }
                default: {
                    LocalDate d = g.p(50) ? LocalDate.now().plusDays(g.n(1000) - 700) : g.date();
                    if (d.getYear() < 1) return;
                    days(e, g, d);
                }
            }
        }
        private static void days(Env e, Gen g, LocalDate d) {
            LocalDate before = LocalDate.now();
            X x = X.fun("DAYS_ELAPSED", g.dateOperand(d));
            String text = Printer.random(x, e.r);
            Outcome o = Lib.arith(e.lib.any(e.r), text, g.data);
            LocalDate after = LocalDate.now();
            e.evaluated(text, g.data, null, true); e.count("days elapsed");
            long lo = days(d, before), hi = days(d, after);
            if (!o.ok() || !(o.value instanceof Number) || ((Number) o.value).longValue() != lo && ((Number) o.value).longValue() != hi)
                throw new Violation("DAYS_ELAPSED\n expression: " + text + "\n data: " + Gen.show(g.data) + "\n expected: " + lo + "\n observed: " + o);
            if (before.equals(LocalDate.now())) {
                long c = lo + g.n(3) - 1;
                String op = g.cmpOp();
                String t = text + " " + op + " " + (c < 0 ? "(-" + -c + ")" : "" + c);
                Outcome b = Lib.bool(e.lib.any(e.r), t, g.data, null, e.r);
                if (before.equals(LocalDate.now())) {
                    int s = Long.compare(lo, c);
                    boolean want = op.equals("=") ? s == 0 : op.equals("!=") ? s != 0 : op.equals(">") ? s > 0 : op.equals(">=") ? s >= 0 : op.equals("<") ? s < 0 : s <= 0;
                    e.evaluated(t, g.data, null, true);
                    if (!b.ok() || !b.value.equals(want)) throw new Violation("DAYS_ELAPSED in a condition\n expression: " + t + "\n data: " + Gen.show(g.data) + "\n expected: " + want + "\n observed: " + b);
                }
            }
        }
        /** Days between two dates, counted by the civil calendar. */
        static long days(LocalDate a, LocalDate b) { return civil(b) - civil(a); }
        private static long civil(LocalDate d) {
            long y = d.getYear(), m = d.getMonthValue();
            if (m <= 2) y--;
            long era = Math.floorDiv(y, 400), yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d.getDayOfMonth() - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
            return era * 146097 + doe;
        }
    }

    static final class Types extends Check {
        String rule() { return "operations on operands they are not defined for (ordering of booleans, of text or dates against numbers, arithmetic and aggregates on text, booleans, dates, modulus of fractions, division by zero, INT and DAYS_ELAPSED of several, CONTAINS on scalars or mixed items, DAYS_ELAPSED of non-dates, non-boolean conditions), bare and inside larger expressions which need them: always a Failure; distinct = distinct (text, data)"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            if (g.p(55)) {
                X bad = badCond(g);
                X x = bad;
                int wrap = g.n(4);
                for (int i = 0; i < wrap; i++) x = g.n(3) == 0 ? X.not(x) : g.n(2) == 0 ? X.and(g.p(50) ? X.bool(true) : x, x) : X.or(g.p(50) ? X.bool(false) : x, x);
                Expect w = Expect.bool(x, g.data, null);
                if (w.k != Expect.K.FAIL) { e.count("not a failing case"); return; }
                judgeBool(e, x, g.data, null);
            } else {
                X x = badArith(g);
                int wrap = g.n(4);
                for (int i = 0; i < wrap; i++) x = g.n(3) == 0 ? X.neg(x) : g.n(2) == 0 ? X.ari(g.of("-", "*", "/"), g.smallNum(), x) : X.fun(g.of("MIN", "SUM", "AVG"), x, X.i(1));
                Expect w = Expect.arith(x, g.data);
                if (w.k != Expect.K.FAIL) { e.count("not a failing case"); return; }
                judgeArith(e, x, g.data);
                if (g.p(40)) judgeBool(e, X.cmp(g.cmpOp(), x, X.i(1)), g.data, null);
            }
        }
        static X nonNumber(Gen g) { return nonNumber(g, g.n(7)); }
        static X nonNumber(Gen g, int kind) {
            switch (kind) {
                case 0: return g.p(50) ? X.str("abc") : g.field(g.of("abc", "", "12", "1.5"));
                case 1: return X.str(g.of("x", "", "7", "-1", "1e3"));
                case 2: return g.p(50) ? X.bool(g.p(50)) : g.field(g.p(50));
                case 3: return g.dateOperand(g.date());
                case 4: return g.dtOperand(g.dateTime());
                case 5: return g.p(50) ? X.ver(g.version(3)) : g.field(new ComparableVersion(g.version(3)));
                default: return g.field(g.text());
            }
        }
        static X badArith(Gen g) {
            if (g.n(8) == 0) { // nothing but values of one kind which is not a number
                int kind = g.n(7), k = 1 + g.n(4);
                if (g.p(60)) return X.ari(g.of("-", "*", "/", "%", "^"), nonNumber(g, kind), nonNumber(g, kind));
                List<X> a = new ArrayList<>();
                for (int i = 0; i < k; i++) a.add(nonNumber(g, kind));
                return X.fun(g.of(Gen.AGGS), a);
            }
            switch (g.n(8)) {
                case 0: return X.ari(g.of("-", "*", "/", "%", "^"), nonNumber(g), g.smallNum());
                case 1: return X.ari(g.of("-", "*", "/", "%", "^"), g.smallNum(), nonNumber(g));
                case 2: return X.neg(nonNumber(g));
                case 3: { List<X> a = new ArrayList<>(); int k = g.p(75) ? 1 + g.n(4) : g.listSize(), at = g.n(k); for (int i = 0; i < k; i++) a.add(i == at ? nonNumber(g) : g.p(70) ? X.i(g.n(100)) : g.smallNum()); return X.fun(g.of(Gen.AGGS), a); }
                case 4: return X.ari(g.of("/", "%"), g.p(50) ? g.smallNum() : X.i(g.n(100)), g.of(X.i(0), g.field(0), g.field(0L), X.ari("-", X.i(2), X.i(2)), X.lit(X.K.INT, "0")));
                case 5: if (g.p(30)) { // one argument, no more
                    boolean days = g.p(40); int k = 2 + g.n(g.p(80) ? 2 : 12); List<X> a = new ArrayList<>(); List<Object> l = new ArrayList<>();
                    for (int i = 0; i < k; i++) { a.add(days ? g.dateOperand(g.date()) : g.smallNum()); l.add(days ? (Object) g.date() : g.numValue(g.number())); }
                    return X.fun(days ? "DAYS_ELAPSED" : "INT", g.p(60) ? a : List.of(g.field(g.listContainer(l))));
                }
                    return g.p(50) ? X.fun("INT", nonNumber(g)) : X.fun("DAYS_ELAPSED", g.of(g.smallNum(), X.str("abc"), g.field("2024-02-30"), g.field(true), g.dtOperand(g.dateTime())));
                case 6: return X.ari("%", g.of(g.num(new BigDecimal("2.5")), g.field(1.5), g.field(new BigDecimal("0.1"))), X.i(1 + g.n(5)));
                default: { List<Object> l = new ArrayList<>(); int k = g.p(75) ? 1 + g.n(4) : g.listSize(), at = g.n(k); for (int i = 0; i < k; i++) l.add(i == at ? g.of("abc", "x", true, "7", "1.5", "", false, "2024-01-01", java.time.LocalDate.of(2024, 1, 1)) : (Object) g.n(9)); return X.fun(g.of(Gen.AGGS), g.field(l)); }
            }
        }
        static X badCond(Gen g) {
            switch (g.n(11)) {
                case 0: return X.cmp(g.of(Gen.ORDS), g.p(50) ? X.bool(g.p(50)) : g.field(g.p(50)), g.of(X.bool(true), g.smallNum(), X.str("true"), g.field(false)));
                case 1: return X.cmp(g.of(Gen.ORDS), g.of(g.smallNum(), X.str("a")), g.p(50) ? X.bool(g.p(50)) : g.field(g.p(50)));
                case 2: { X s = g.of(g.field(g.of("abc", "", "1,5", "0x10", "--1", "1 2", "five")), X.str("abc")); return g.p(50) ? X.cmp(g.of(Gen.ORDS), s, g.num()) : X.cmp(g.of(Gen.ORDS), g.num(), s); }
                case 3: { X d = g.p(50) ? g.dateOperand(g.date()) : g.dtOperand(g.dateTime()); return g.p(50) ? X.cmp(g.of(Gen.ORDS), d, g.num()) : X.cmp(g.of(Gen.ORDS), g.num(), d); }
                case 4: { X c = X.range(g.put(g.of("abc", true, "2024-01-01", "")), X.i(1), X.i(5)); return c; }
                case 5: { String f = g.put(g.of(5, "abc", true, 1.5, "a,b")); List<X> i = List.of(X.str("a"), X.str("abc")); return g.p(50) ? X.any(f, i) : X.all(f, i); }
                case 6: {
                    String f = g.put(List.of("a", "b", "1"));
                    if (g.p(40)) { List<X> m = new ArrayList<>(); int k = 2 + (g.p(85) ? g.n(30) : g.n(g.of(100, 300, 1200))); for (int j = 0; j < k; j++) m.add(X.str("s" + j)); m.set(g.n(k), g.of(X.i(1), X.bool(true), X.ver("1.2.3"), X.lit(X.K.DEC, "1.5"), X.lit(X.K.DATE, "2024-01-01"))); return g.p(50) ? X.any(f, m) : X.all(f, m); }
                    List<X> i = g.p(50) ? List.of(X.str("a"), X.i(1)) : List.of(X.i(1), X.bool(true), X.str("b")); return g.p(50) ? X.any(f, i) : X.all(f, i); }
                case 7: return g.field(g.of("true", "abc", 1, 0, 2.5, 1L));
                case 8: return X.cmp(g.cmpOp(), badArith(g), X.i(1));
                case 9: return g.of(X.i(1), X.lit(X.K.DEC, "1.5"), X.ari("+", X.i(1), X.i(2)), X.fun("MAX", X.i(1), X.i(2)), X.neg(X.i(1)));
                default: return X.in(g.put(5), g.p(50), List.of(X.i(1), badArith(g)));
            }
        }
    }

    static final class InConditions extends Check {
        String rule() { return "an arithmetic expression is evaluated by the arithmetic evaluator, its value stored as a field, and conditions using the expression (all comparison operators on either side, IN lists, CONTAINS items, function arguments) compared with the same conditions using the field; expressions that fail must fail the condition; distinct = distinct (text, data)"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            X a = g.p(10) ? Types.badArith(g) : g.arith(1 + g.n(6), g.p(30));
            if (g.p(10)) a = X.ari("+", X.str("ab"), g.smallNum());
            else if (g.p(10)) { // the result is a text, perhaps blank, padded, or one which looks like a value of another kind
                X l = g.p(70) ? g.strOperand(g.quotableText()) : X.str(g.of("", " ", "  a", "tr", "2024-01", "1.2", "-")), r = g.p(50) ? g.strOperand(g.quotableText()) : g.of(X.str("ue"), X.str("-05"), X.str(".3"), X.str(" "), g.smallNum());
                a = g.p(80) ? X.ari("+", l, r) : X.ari("+", X.ari("+", l, r), g.strOperand(g.quotableText()));
            }
            String ta = Printer.random(a, e.r);
            Outcome o = Lib.arith(e.lib.any(e.r), ta, g.data);
            if (o.broken != null) throw new Violation("arithmetic evaluation\n expression: " + Gen.quote(ta) + "\n data: " + Gen.show(g.data) + "\n observed: " + o);
            e.evaluated(ta, g.data, null, false);
            X fieldX;
            if (o.ok()) { g.data.put("result_q", o.value); fieldX = X.fld("result_q"); } else fieldX = null;
            boolean numeric = o.ok() && o.value instanceof Number;
            int reps = 3;
            for (int i = 0; i < reps; i++) {
                X other = numeric ? (g.p(60) ? near(g, o.value) : g.smallNum()) : o.ok() && o.value instanceof String && g.p(75) ? nearTo(g, (String) o.value) : g.p(50) ? X.str("ab1") : X.i(3);
                if (other == null) other = X.i(1);
                java.util.function.BiFunction<X, X, X> shape;
                final String op = g.cmpOp();
                final X oth = other;
                switch (g.n(6)) {
                    case 0: case 1: shape = (p, q) -> X.cmp(op, p, oth); break;
                    case 2: shape = (p, q) -> X.cmp(op, oth, p); break;
                    case 3: { String f = oth.k == X.K.FLD ? oth.s : g.put(value(g, o.ok() ? o.value : 5)); boolean not = g.p(50); List<X> before = new ArrayList<>(); int n = g.n(3); for (int j = 0; j < n; j++) before.add(X.i(j)); shape = (p, q) -> { List<X> it = new ArrayList<>(before); it.add(p); it.add(X.i(77)); return X.in(f, not, it); }; break; }
                    case 4: { String f = g.put(g.listContainer(List.of(value(g, o.ok() ? o.value : 5), 1, 2))); shape = (p, q) -> X.any(f, List.of(p)); break; }
                    default: { String fn = g.of("MAX", "SUM", "MIN"); shape = (p, q) -> X.cmp(op, X.fun(fn, p, X.i(3)), oth); }
                }
                X withExpr = shape.apply(a, null);
                String te = Printer.random(withExpr, e.r);
                Outcome oe = Lib.bool(e.lib.any(e.r), te, g.data, null, e.r);
                e.evaluated(te, g.data, null, true);
                if (fieldX == null) {
                    e.count("failing operand");
                    if (!oe.failed()) throw new Violation("the operand fails but the condition does not\n operand: " + Gen.quote(ta) + " -> " + o + "\n condition: " + Gen.quote(te) + " -> " + oe + "\n data: " + Gen.show(g.data));
                } else {
                    X withField = shape.apply(fieldX, null);
                    String tf = Printer.random(withField, e.r);
                    Outcome of = Lib.bool(e.lib.any(e.r), tf, g.data, null, e.r);
                    e.count("operand versus its value");
                    if (!oe.same(of)) throw new Violation("a condition on an expression differs from the condition on its value\n operand: " + Gen.quote(ta) + " -> " + o + "\n condition: " + Gen.quote(te) + " -> " + oe + "\n with field: " + Gen.quote(tf) + " -> " + of + "\n data: " + Gen.show(g.data));
                    e.sample(te, g.data, null, oe);
                }
            }
        }
        static X nearTo(Gen g, String s) { String t = g.p(40) ? s : g.p(30) ? s.trim() : g.nearText(s); return Gen.quotable(t) && g.p(40) ? X.str(t) : g.field(t); }
        static Object value(Gen g, Object v) { return g.p(70) ? v : (Object) 3; }
        static X near(Gen g, Object v) { try { return g.num(g.near(RefEval.big(v))); } catch (RuntimeException ex) { return g.smallNum(); } }
    }
}
