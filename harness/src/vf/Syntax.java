package vf;

import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Checks on parsing: C16, C17, C22, C23. */
final class Syntax {

    static String lift(X x) { return Dump.x(x, "dflt"); }

    static final class Ast extends Check {
        String rule() { return "typed and untyped expression trees of every construct (depth up to 8, chains and nests up to 130) are printed in random spelling and parsed; the node tree read through its getters is compared with the generated one, on plain and cached parsers; texts the independent parser reads differently are not judged; distinct = distinct texts with at least one operator"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            if (g.p(12)) { flat(e, g); return; }
            X x = g.p(35) ? g.combine(g.leaves(), g::cond) : g.p(15) ? Trees.tall(g) : g.p(20) ? g.arith(1 + g.n(8), true) : Trees.any(g, 1 + g.n(7));
            if (x.size() > 2500) return;
            judgeTree(e, x);
        }
        /** A chain of operands and operators without parentheses, grouped as the independent parser groups it. */
        private void flat(Env e, Gen g) {
            StringBuilder b = new StringBuilder();
            int k = 2 + g.n(g.p(10) ? 25 : 6);
            for (int i = 0; i < k; i++) {
                if (i > 0) b.append(' ').append(g.of("=", ">=", "<", "!=", ">", "<=", "^", "/", "*", "%", "+", "-", "AND", "OR", "and", "or", "&&", "||")).append(' ');
                if (g.p(12)) b.append(g.of("NOT ", "not "));
                if (g.p(12)) b.append("- ");
                b.append(g.of("a", "b", "x.y", "4", "0", "2.5", "'s'", "true", "1.2.3", "MIN(a, 2)", "len('x')", "a IN (1, 2)", "b NOT IN ('q')", "a 1 TO 5", "x CONTAINS_ANY (1)", "(a OR b)", "(a - 1)", "a - 1", "null"));
            }
            String text = b.toString();
            X want = RefParser.parse(text);
            Lib.Set s = e.lib.any(e.r);
            Outcome o = Lib.parse(s, text, null, e.r);
            e.evaluated(text, true); e.count(want == null ? "flat chains rejected" : "flat chains");
            if (want == null ? !o.failed() : !o.ok() || !Lib.dump(o).equals(lift(want))) throw new Violation("grouping of operators (" + s.name + ")\n expression: " + text + "\n expected: " + (want == null ? "failure" : lift(want)) + "\n observed: " + Lib.dump(o));
        }
        static void judgeTree(Env e, X x) {
            String text = Printer.random(x, e.r);
            X back = RefParser.parse(text);
            if (back == null || !lift(back).equals(lift(x))) { e.count("independent parser disagrees with the printer (not judged)"); return; }
            String def = e.r.nextInt(3) == 0 ? "dflt" : null;
            Lib.Set s = e.lib.any(e.r);
            Outcome o = Lib.parse(s, text, def, e.r);
            e.evaluated(text, x.size() > 1);
            e.count("nodes compared", x.size());
            e.count("root " + x.k);
            String got = Lib.dump(o), want = lift(x);
            if (!o.ok() || !got.equals(want)) {
                X small = e.shrink(x, y -> { String t = Printer.canonical(y); X b = RefParser.parse(t); if (b == null || !lift(b).equals(lift(y))) return false; Outcome p = Lib.parse(s, t, null, e.r); return !p.ok() || !Lib.dump(p).equals(lift(y)); });
                String t = Printer.canonical(small);
                throw new Violation("the tree differs from the expression (" + s.name + ")\n expression: " + Gen.quote(text) + "\n expected: " + want + "\n observed: " + got + "\n reduced: " + Gen.quote(t) + "\n expected: " + lift(small) + "\n observed: " + Lib.dump(Lib.parse(s, t, null, e.r)));
            }
            if (text.length() < 150) e.sample(Gen.quote(text) + " -> " + got);
        }
        @Override void prologue(Env e) {
            // every pair and triple of binary operators, grouped either way
            String[] ops = {"=", ">=", "^", "/", "*", "%", "+", "-", "AND", "OR"};
            X a = X.fld("a"), b = X.fld("b"), c = X.fld("c"), d = X.i(4);
            for (String p : ops) for (String q : ops) for (String r : ops) {
                judgeTree(e, bin(r, bin(q, bin(p, a, b), c), d));
                judgeTree(e, bin(p, a, bin(q, b, bin(r, c, d))));
                judgeTree(e, bin(q, bin(p, a, b), bin(r, c, d)));
                // without parentheses: as the independent parser groups it
                String text = "a " + p + " b " + q + " c " + r + " 4";
                X want = RefParser.parse(text);
                Outcome o = Lib.parse(e.lib.any(e.r), text, null, e.r);
                e.evaluated(text, true);
                if (!o.ok() || !Lib.dump(o).equals(lift(want))) throw new Violation("grouping of operators\n expression: " + text + "\n expected: " + lift(want) + "\n observed: " + Lib.dump(o));
            }
        }
        static X bin(String op, X l, X r) { return op.equals("AND") ? X.and(l, r) : op.equals("OR") ? X.or(l, r) : op.equals("=") || op.equals(">=") ? X.cmp(op, l, r) : X.ari(op, l, r); }
    }

    static final class Malformed extends Check {
        String rule() { return "valid texts with one or two tokens deleted, inserted, replaced, repeated, swapped or cut, foreign characters, and soups of up to 9 tokens, without default field: accepted with the same tree exactly when the independent recogniser accepts, texts which only lack closing parentheses not judged; a rejected text fails in parser and both evaluators; distinct = distinct judged texts"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            String text = g.p(3) ? g.of("", " ", "\n\t", "()", "(", ")", "'", "\"", "AND", "NOT", "=", "a =", "= 5", "-", "a b", "a IN ()", "MIN()", "a IN", "a 5 TO", "a TO 5", "5 5", "(a = 1))", "a = 1)", "a = (1 2)", "MIN(1,)", "MIN(,1)", "a IN (1 2)", "a NOT (1)", "a 1 TO x") : Trees.damaged(g);
            if (text.length() > 3000) return;
            X ref = RefParser.parse(text);
            Lib.Set s = e.lib.any(e.r);
            if (ref == null) {
                if (RefParser.lacksParentheses(text)) { e.count("only closing parentheses missing (not judged)"); return; }
                Outcome o = Lib.parse(s, text, null, e.r);
                e.evaluated(text, true); e.count("rejected texts");
                if (!o.failed()) throw new Violation("a malformed expression was accepted (" + s.name + ")\n expression: " + Gen.quote(text) + "\n observed: " + Lib.dump(o));
                Map<String, Object> data = new HashMap<>(); data.put("a", 1); data.put("b", Map.of("c", 2));
                Outcome b = Lib.bool(s, text, data, null, e.r), a = Lib.arith(s, text, data);
                if (!b.failed() || !a.failed()) throw new Violation("a malformed expression was evaluated (" + s.name + ")\n expression: " + Gen.quote(text) + "\n boolean: " + b + "\n arithmetic: " + a);
                if (text.length() < 100) e.sample("rejected: " + Gen.quote(text));
            } else {
                Outcome o = Lib.parse(s, text, null, e.r);
                e.evaluated(text, true); e.count("accepted texts");
                if (!o.ok() || !Lib.dump(o).equals(lift(ref))) throw new Violation("a well-formed expression was read differently (" + s.name + ")\n expression: " + Gen.quote(text) + "\n expected: " + lift(ref) + "\n observed: " + Lib.dump(o));
            }
        }
    }

    static final class Lexical extends Check {
        String rule() { return "one expression in 4-6 spellings (white space of all kinds or none where allowed, upper or lower case keywords and function names, && and ||, either quote, redundant parentheses): same tree and same result; quoted strings of any content read back unchanged through the arithmetic evaluator, equality and LEN; distinct = distinct texts"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            if (g.p(60)) {
                X x = g.p(60) ? g.combine(1 + g.n(5), g::cond) : Trees.any(g, 1 + g.n(5));
                if (x.size() > 300) return;
                String base = Printer.canonical(x);
                if (RefParser.parse(base) == null || !lift(RefParser.parse(base)).equals(lift(x))) return;
                Lib.Set s0 = e.lib.any(e.r);
                Outcome p0 = Lib.parse(s0, base, null, e.r), b0 = Lib.bool(s0, base, g.data, null, e.r);
                String d0 = p0.ok() ? Lib.dump(p0) : "failure";
                if (p0.broken != null) throw new Violation("parsing " + Gen.quote(base) + " -> " + p0);
                for (int i = 0; i < 4; i++) {
                    String t = Printer.random(x, e.r);
                    X back = RefParser.parse(t);
                    if (back == null || !lift(back).equals(lift(x))) { e.count("independent parser disagrees with the printer (not judged)"); continue; }
                    Lib.Set s = e.lib.any(e.r);
                    Outcome p = Lib.parse(s, t, null, e.r), b = Lib.bool(s, t, g.data, null, e.r);
                    e.evaluated(t, true); e.count("spellings");
                    String d = p.ok() ? Lib.dump(p) : "failure";
                    if (p.broken != null || !d.equals(d0) || !b.same(b0)) throw new Violation("two spellings of one expression differ\n data: " + Gen.show(g.data) + "\n " + Gen.quote(base) + " -> " + d0 + " " + b0 + "\n " + Gen.quote(t) + " -> " + d + " " + b);
                    if (t.length() < 120) e.sample(Gen.quote(base) + " ~ " + Gen.quote(t));
                }
            } else {
                String s = g.p(45) ? g.anyString() : g.p(15) ? g.encoded() : wild(g);
                if (!Gen.quotable(s)) s = s.replace('\'', '`');
                String q = s.indexOf('\'') >= 0 ? "\"" : s.indexOf('"') >= 0 ? "'" : g.of("'", "\"");
                String lit = q + s + q;
                Lib.Set lib = e.lib.any(e.r);
                Outcome o = Lib.arith(lib, g.of("", " ", "\n") + lit + g.of("", " "), g.data);
                e.evaluated(lit, !s.isEmpty()); e.count("quoted strings"); e.count("string characters", s.length());
                if (!o.ok() || !s.equals(o.value)) throw new Violation("a quoted string is not read verbatim (" + lib.name + ")\n literal: " + Gen.quote(lit) + "\n observed: " + o);
                Outcome len = Lib.arith(lib, "LEN(" + lit + ")", g.data);
                if (!len.ok() || !Integer.valueOf(s.length()).equals(len.value)) throw new Violation("LEN of a quoted string\n literal: " + Gen.quote(lit) + "\n observed: " + len + " for " + s.length());
                if (RefEval.type(s) == RefEval.T.STRING) {
                    String f = g.put(s), f2 = g.put(s + "x");
                    Outcome eq = Lib.bool(e.lib.any(e.r), f + "=" + lit + " AND NOT (" + f2 + " = " + lit + ") AND " + f + " IN (" + lit + ")", g.data, null, e.r);
                    if (!eq.ok() || !Boolean.TRUE.equals(eq.value)) throw new Violation("a quoted string does not equal the same text\n literal: " + Gen.quote(lit) + "\n observed: " + eq);
                    // what is inside quotes never becomes syntax
                    Outcome two = Lib.bool(e.lib.any(e.r), lit + " = " + lit + " AND 1 = 1 OR " + lit + " = 'no'", g.data, null, e.r);
                    if (!two.ok() || !Boolean.TRUE.equals(two.value)) throw new Violation("text inside quotes was read as syntax\n literal: " + Gen.quote(lit) + "\n observed: " + two);
                }
            }
        }
        static String wild(Gen g) {
            int n = g.n(g.p(95) ? 20 : 2000);
            StringBuilder b = new StringBuilder();
            for (int i = 0; i < n; i++) b.append(g.p(60) ? (char) (32 + g.n(95)) : g.p(50) ? (char) g.n(32) : g.p(80) ? (char) g.n(0xd800) : new String(Character.toChars(0x10000 + g.n(0xfffff))).charAt(0));
            String s = b.toString();
            return g.p(50) ? s.replace('\'', ' ') : s.replace('"', ' ');
        }
    }

    static final class Cached extends Check {
        String assumes() { return "the answers of a plain parser of the same library are right"; }
        String rule() { return "histories of 60-300 calls (both parse methods, both evaluators) over a pool of expressions, malformed texts, null, colliding keys and near relatives of earlier requests (respaced, recased, requoted, split between text and default field), with several default fields, some histories begun by a caller whose stack is too small for one of the texts, on one caching parser of capacity 0-200 and interleaved with evaluations, each compared with a plain parser; the trees handed out are read again at the end; distinct = distinct (capacity class, text, default field, repetition)"; }
        void one(Env e) {
            Gen g = new Gen(e.r);
            int cap = g.of(0, 1, 2, 3, 5, 16, 64, 200, 200, g.of(1000, 4096, 65536, 10_000_000, Integer.MAX_VALUE));
            BoolParser plainParser = new BoolParser();
            Lib.Set plain = new Lib.Set(plainParser, "plain"), cached = new Lib.Set(new CachedBoolParser(cap), "CachedBoolParser(" + cap + ")");
            List<String> pool = new ArrayList<>();
            int k = 3 + g.n(20);
            for (int i = 0; i < k; i++) {
                switch (g.n(10)) {
                    case 0: pool.add(Trees.damaged(g)); break;
                    case 1: { String op = g.of(">=", "=", "<"); pool.add(op + " " + g.n(4)); break; }
                    case 2: pool.add(g.of("Aa = 1", "BB = 1", "AaAa = 1", "BBBB = 1", "AaBB = 1")); break;
                    case 3: { String s = g.pick(pool.isEmpty() ? List.of("a = 1") : pool); pool.add(s + g.of("", " ", "1", "a")); break; }
                    case 9: { // long texts which differ in little, anywhere
                        if (g.p(50)) { pool.add(Printer.random(g.combine(1 + g.n(4), g::cond), e.r)); break; }
                        int len = g.of(30, 200, 700, 3000), at = g.n(len);
                        StringBuilder b = new StringBuilder(g.p(30) ? g.of("= ", "> ", "!= ") : "a = ").append(g.p(50) ? "1" : "0").append(" OR b = '");
                        int from = b.length();
                        for (int j = 0; j < len; j++) b.append((char) ('a' + j % 7));
                        b.append(g.of("'", "' AND a = 1", "' OR b IN (1, 2)"));
                        pool.add(b.toString());
                        for (int j = g.n(3); j > 0; j--) { StringBuilder c = new StringBuilder(b); c.setCharAt(from + (g.p(50) ? at : g.n(len)), (char) ('A' + g.n(3))); pool.add(c.toString()); }
                        break;
                    }
                    case 4: pool.add(Printer.canonical(g.arith(1 + g.n(3), false))); break;
                    default: pool.add(Printer.random(g.combine(1 + g.n(4), g::cond), e.r));
                }
            }
            if (g.p(20)) pool.add(null);
            if (g.n(20) == 0) {
                // too deep for a caller with little stack left, but not for the others
                int depth = 1500 + g.n(800);
                String deep = "(".repeat(depth) + "a = " + g.n(3) + ")".repeat(depth);
                pool.add(deep);
                CachedBoolParser parser = (CachedBoolParser) cached.parser;
                Thread small = new Thread(null, () -> { for (String t : pool) if (t != null && (t == deep || t.hashCode() % 2 == 0)) Outcome.of(() -> parser.parseExpression(t, null)); }, "little stack", 200_000);
                small.start();
                try { small.join(); } catch (InterruptedException x) { throw new IllegalStateException(x); }
                e.count("histories begun by a caller with little stack");
            }
            List<String> defs = new ArrayList<>(); defs.add(null); defs.add("a"); defs.add("b"); if (g.p(30)) defs.add("Aa"); if (g.p(30)) defs.add("BB"); if (g.p(20)) defs.add("");
            // texts and default fields which a careless key would take for each other
            List<String[]> kin = new ArrayList<>();
            for (int i = g.n(12); i > 0; i--) { String t = g.pick(pool); if (t == null) continue; String[] a = {t, g.pick(defs)}; kin.add(a); for (int j = 1 + g.n(3); j > 0; j--) kin.add(relative(g, a)); }
            Map<String, Object> data = g.data;
            for (String n : new String[]{"a", "b", "Aa", "BB", "AaAa", "BBBB", "AaBB"}) if (!data.containsKey(n)) data.put(n, g.n(4));
            Map<String, String> expected = new HashMap<>();
            Map<Node, String> handed = new java.util.IdentityHashMap<>();
            int calls = 60 + g.n(240);
            Map<String, Integer> seen = new HashMap<>();
            for (int i = 0; i < calls; i++) {
                String[] rel = kin.isEmpty() || g.p(60) ? null : g.pick(kin);
                String text = rel == null ? g.pick(pool) : rel[0], def = rel == null ? g.pick(defs) : rel[1];
                String key = (text == null ? "-" : text.length() + ":" + text) + (def == null ? "-" : ":" + def);
                int rep = seen.merge(key, 1, Integer::sum);
                int what = g.n(4);
                e.evaluated(cap + "\u0001" + key + "\u0001" + Math.min(rep, 3), rep > 1 || cap < 3);
                if (rep > 1) e.count("repeated keys"); else e.count("first uses");
                if (what < 2) {
                    Outcome c = Lib.parse(cached, text, def, e.r);
                    String want = expected.computeIfAbsent(key, z -> { Outcome p = Lib.parse(plain, text, def, e.r); return p.ok() ? Lib.dump(p) : p.failed() ? "failure" : p.toString(); });
                    String got = c.ok() ? Lib.dump(c) : c.failed() ? "failure" : c.toString();
                    if (!got.equals(want)) throw new Violation("caching parser (capacity " + cap + ") call " + i + "\n expression: " + (text == null ? "null" : Gen.quote(text)) + " default field " + def + "\n plain:  " + want + "\n cached: " + got);
                    if (c.ok()) handed.put((Node) c.value, got);
                } else if (what == 2) {
                    Outcome c = Lib.bool(cached, text, data, def, e.r), p = Lib.bool(plain, text, data, def, e.r);
                    if (!c.same(p)) throw new Violation("boolean evaluation with the caching parser (capacity " + cap + ") call " + i + "\n expression: " + (text == null ? "null" : Gen.quote(text)) + " default field " + def + "\n data: " + Gen.show(data) + "\n plain:  " + p + "\n cached: " + c);
                } else {
                    Outcome c = Lib.arith(cached, text, data), p = Lib.arith(plain, text, data);
                    if (!c.same(p)) throw new Violation("arithmetic evaluation with the caching parser (capacity " + cap + ") call " + i + "\n expression: " + (text == null ? "null" : Gen.quote(text)) + "\n data: " + Gen.show(data) + "\n plain:  " + p + "\n cached: " + c);
                }
            }
            for (Map.Entry<Node, String> h : handed.entrySet()) if (!Dump.node(h.getKey()).equals(h.getValue())) throw new Violation("a tree handed out earlier changed\n was: " + h.getValue() + "\n is:  " + Dump.node(h.getKey()));
            e.count("trees read again", handed.size());
        }
        /** Another request which looks much like the given one. */
        static String[] relative(Gen g, String[] a) {
            String t = a[0], d = a[1];
            int n = t.length(), i = n == 0 ? 0 : g.n(n);
            switch (g.n(14)) {
                case 0: case 1: if (n > 0) { boolean sep = g.p(70); return new String[]{t.substring(0, i), t.substring(sep ? i + 1 : i) + (sep ? "" + t.charAt(i) : "") + d}; } break;
                case 2: return new String[]{d == null ? "null" : d, t};
                case 3: return new String[]{t.replaceAll("\\s+", ""), d};
                case 4: { List<Integer> at = new ArrayList<>(); for (int j = 0; j < n; j++) if (Character.isWhitespace(t.charAt(j))) at.add(j); if (at.isEmpty()) break; int w = g.pick(at); return new String[]{t.substring(0, w) + g.of("", "", "  ", "\t", "\n", "\u00a0", "_") + t.substring(w + 1), d}; }
                case 5: return new String[]{t.substring(0, i) + g.of(" ", "\t", "  ") + t.substring(i), d};
                case 6: if (n > 0) { char c = t.charAt(i); return new String[]{t.substring(0, i) + (Character.isUpperCase(c) ? Character.toLowerCase(c) : Character.toUpperCase(c)) + t.substring(i + 1), d}; } break;
                case 7: return new String[]{g.p(50) ? t.toLowerCase(java.util.Locale.ROOT) : t.toUpperCase(java.util.Locale.ROOT), d};
                case 8: if (n > 1) { int j = g.n(n - 1); return new String[]{t.substring(0, j) + t.charAt(j + 1) + t.charAt(j) + t.substring(j + 2), d}; } break;
                case 9: return new String[]{t.replace('\'', '"'), d};
                case 10: return new String[]{g.p(50) ? t.replaceAll("[()]", "") : t.replaceAll("['\"]", ""), d};
                case 11: return new String[]{t, d == null ? g.of("", "null") : d.isEmpty() ? null : g.of(d.toUpperCase(java.util.Locale.ROOT), d + " ", " " + d, d + ".a")};
                case 12: return new String[]{g.of(t + " ", " " + t, t + "\n", t + ")", "(" + t + ")", t + "\u0000", java.text.Normalizer.normalize(t, java.text.Normalizer.Form.NFKC)), d};
                default: if (n > 0) return new String[]{t.substring(0, i) + t.substring(i + 1), d};
            }
            return new String[]{t + "0", d};
        }
    }
}
