package vf;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.constant.*;
import com.github.sidhant92.boolparser.domain.FieldNode;
import com.github.sidhant92.boolparser.domain.arithmetic.*;
import com.github.sidhant92.boolparser.domain.logical.*;
import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
import io.vavr.control.Try;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.SplittableRandom;
import org.apache.maven.artifact.versioning.ComparableVersion;

/** Laws which relate several calls, and trees which do not come from the library's own parser. */
final class Laws {
    private Laws() { }

    // ------------------------------------------------------------------ C26

    /** Node trees made through the public constructors and builders. */
    static final class Build {
        final SplittableRandom r; final String def;
        Build(SplittableRandom r, String def) { this.r = r; this.def = def; }

        Node field(String f) { return r.nextBoolean() ? new FieldNode(f == null ? def : f) : FieldNode.builder().field(f == null ? def : f).build(); }
        Node unary(DataType t, Object v) { return r.nextBoolean() ? new UnaryNode(t, v) : UnaryNode.builder().dataType(t).value(v).build(); }
        List<Node> all(List<X> l) {
            List<Node> o = r.nextBoolean() ? new ArrayList<>() : new java.util.LinkedList<>();
            for (X x : l) o.add(node(x));
            return r.nextInt(3) == 0 ? java.util.Collections.unmodifiableList(o) : o;
        }
        Node bool(Node l, Node rr, LogicalOperationType t) {
            if (r.nextBoolean()) return new BooleanNode(l, rr, t);
            if (r.nextBoolean()) return BooleanNode.builder().left(l).right(rr).operator(t).build();
            BooleanNode b = new BooleanNode(null, null, LogicalOperationType.AND);
            b.setLeft(l); b.setRight(rr); b.setOperator(t);
            return b;
        }
        Node arith(Node l, Node rr, Operator t) { return r.nextBoolean() ? new ArithmeticNode(l, rr, t) : ArithmeticNode.builder().left(l).right(rr).operator(t).build(); }

        Object[] bound(X x) {
            boolean neg = x.k == X.K.NEG;
            X l = neg ? x.c.get(0) : x;
            Object v = Dump.litValue(l);
            if (neg) v = v instanceof Integer ? (Object) (-(Integer) v) : v instanceof Long ? (Object) (-(Long) v) : ((BigDecimal) v).negate();
            return new Object[]{Dump.litType(l), v};
        }
        Node node(X x) {
            switch (x.k) {
                case FLD: return field(x.s);
                case CMP: {
                    DataType t = x.c.get(1).isLit() ? Dump.litType(x.c.get(1)) : DataType.STRING;
                    Node l = node(x.c.get(0)), rr = node(x.c.get(1)); Operator o = Operator.valueOf(Dump.opName(x.s));
                    return r.nextBoolean() ? new ComparisonNode(l, rr, o, t) : ComparisonNode.builder().left(l).right(rr).operator(o).dataType(t).build();
                }
                case RANGE: {
                    Object[] a = bound(x.c.get(0)), b = bound(x.c.get(1));
                    return r.nextBoolean() ? new NumericRangeNode(x.s, a[1], b[1], (DataType) a[0], (DataType) b[0]) : NumericRangeNode.builder().field(x.s).fromValue(a[1]).toValue(b[1]).fromDataType((DataType) a[0]).toDataType((DataType) b[0]).build();
                }
                case IN: {
                    List<Node> l = all(x.c);
                    Node n = r.nextBoolean() ? new InNode(x.s, l) : InNode.builder().field(x.s).items(l).build();
                    return x.neg ? bool(n, null, LogicalOperationType.NOT) : n;
                }
                case ARR: { List<Node> l = all(x.c); Operator o = x.neg ? Operator.CONTAINS_ALL : Operator.CONTAINS_ANY; return r.nextBoolean() ? new ArrayNode(x.s, o, l) : ArrayNode.builder().field(x.s).operator(o).items(l).build(); }
                case AND: return bool(node(x.c.get(0)), node(x.c.get(1)), LogicalOperationType.AND);
                case OR: return bool(node(x.c.get(0)), node(x.c.get(1)), LogicalOperationType.OR);
                case NOT: return bool(node(x.c.get(0)), null, LogicalOperationType.NOT);
                case NEG: return arith(node(x.c.get(0)), null, Operator.UNARY);
                case ARI: return arith(node(x.c.get(0)), node(x.c.get(1)), Operator.valueOf(Dump.opName(x.s)));
                case FUN: { List<Node> l = all(x.c); FunctionType f = FunctionType.valueOf(x.s); return r.nextBoolean() ? new ArithmeticFunctionNode(f, l) : ArithmeticFunctionNode.builder().functionType(f).items(l).build(); }
                default: return unary(Dump.litType(x), Dump.litValue(x));
            }
        }
    }

    /** A parser of somebody else's: returns what it was told to and records how it was asked. */
    static final class Foreign implements BoolExpressionParser {
        Try<Node> answer; final List<String> asked = new ArrayList<>();
        @Override public Try<Node> parseExpression(String s) { return parseExpression(s, null); }
        @Override public Try<Node> parseExpression(String s, String d) { asked.add(s + '\u0001' + d); return answer; }
    }

    static final class Interface extends Check {
        String rule() { return "node trees of every type made by hand (constructors, builders, setters, shared sub-trees, negative range bounds) or parsed earlier, handed to both evaluators by a foreign BoolExpressionParser under unrelated expression texts: the value of the tree, the parser asked with exactly the given arguments, its failure returned as is, the tree left unmodified; distinct = distinct (tree, data)"; }
        private static final ThreadLocal<Object[]> FOREIGN = ThreadLocal.withInitial(() -> { Foreign f = new Foreign(); return new Object[]{f, new BooleanExpressionEvaluator(f), new ArithmeticExpressionEvaluator(f)}; });

        private Outcome run(Env e, boolean bool, Try<Node> answer, Map<String, Object> data, String text, String def) {
            Object[] f = FOREIGN.get();
            if (e.r.nextInt(30) == 0) { Foreign n = new Foreign(); f = new Object[]{n, new BooleanExpressionEvaluator(n), new ArithmeticExpressionEvaluator(n)}; }
            Foreign p = (Foreign) f[0]; BooleanExpressionEvaluator b = (BooleanExpressionEvaluator) f[1]; ArithmeticExpressionEvaluator a = (ArithmeticExpressionEvaluator) f[2];
            p.answer = answer; p.asked.clear();
            Outcome o = !bool ? Outcome.of(() -> a.evaluate(text, data)) : def == null && e.r.nextBoolean() ? Outcome.of(() -> b.evaluate(text, data)) : Outcome.of(() -> b.evaluate(text, data, def));
            String want = text + '\u0001' + (bool ? def : null);
            if (p.asked.isEmpty() || p.asked.stream().anyMatch(s -> !s.equals(want)))
                throw new Violation("the evaluator did not ask its parser for the given expression and default field\n expression: " + (text == null ? null : Gen.quote(text)) + "\n default: " + def + "\n asked: " + p.asked);
            return o;
        }
        private static String text(Gen g) {
            switch (g.n(6)) {
                case 0: return null;
                case 1: return "";
                case 2: return "a = 1";
                case 3: return g.anyString();
                case 4: return "1 + 1";
                default: return Printer.canonical(Trees.any(g, 2));
            }
        }
        private void judge(Env e, Gen g, X x, boolean bool, String def) {
            Expect want = bool ? Expect.bool(x, g.data, def) : Expect.arith(x, g.data);
            Build b = new Build(e.r, def);
            Node n = b.node(x);
            String before = Dump.node(n), t = text(g);
            Outcome got = run(e, bool, Try.success(n), g.data, t, bool && e.r.nextBoolean() ? g.of("a", "zz", def == null ? "q" : def) : null);
            String after = Dump.node(n);
            e.evaluated(before, g.data, null, want.k != Expect.K.UNSPEC);
            if (!before.equals(after)) throw new Violation("evaluation changed the tree\n before: " + before + "\n after:  " + after + "\n data: " + Gen.show(g.data));
            if (want.k == Expect.K.UNSPEC && got.broken == null) { e.count("unspecified (not judged)"); return; }
            e.count(want.k == Expect.K.FAIL ? "expected failure" : "expected value");
            if (!want.accepts(got)) throw new Violation((bool ? "boolean" : "arithmetic") + " evaluation of a tree from a foreign parser\n tree: " + before + "\n text given to the parser: " + (t == null ? null : Gen.quote(t)) + "\n data: " + Gen.show(g.data) + "\n expected: " + want + "\n observed: " + got);
            e.sample("tree " + before + " with " + Gen.show(g.data) + " -> " + got);
        }
        /** Chains of any height: their value, or a failure where the stack ends; never another value. */
        private void tall(Env e, Gen g) {
            int height = g.of(50, 300, 1000, 3000, 10_000, 10_000, 40_000), how = g.n(7);
            boolean bool = how < 4;
            Object want; Node n;
            if (bool) {
                boolean t = g.p(50);
                n = new ComparisonNode(new UnaryNode(DataType.INTEGER, 1), new UnaryNode(DataType.INTEGER, t ? 1 : 2), Operator.EQUALS, DataType.INTEGER);
                for (int i = 0; i < height; i++) switch (how) {
                    case 0: n = new BooleanNode(n, null, LogicalOperationType.NOT); t = !t; break;
                    case 1: n = new BooleanNode(n, new UnaryNode(DataType.BOOLEAN, true), LogicalOperationType.AND); break;
                    case 2: n = new BooleanNode(new UnaryNode(DataType.BOOLEAN, false), n, LogicalOperationType.OR); break;
                    default: n = i % 3 == 0 ? new BooleanNode(n, null, LogicalOperationType.NOT) : new BooleanNode(new UnaryNode(DataType.BOOLEAN, i % 3 == 1), n, i % 3 == 1 ? LogicalOperationType.AND : LogicalOperationType.OR); if (i % 3 == 0) t = !t;
                }
                want = t;
            } else {
                int v = 1 + g.n(9);
                n = new UnaryNode(DataType.INTEGER, v);
                for (int i = 0; i < height; i++) switch (how) {
                    case 4: n = new ArithmeticNode(n, new UnaryNode(DataType.INTEGER, 1), Operator.ADD); v++; break;
                    case 5: n = new ArithmeticNode(n, null, Operator.UNARY); v = -v; break;
                    default: n = new ArithmeticFunctionNode(FunctionType.MAX, List.of(n, new UnaryNode(DataType.INTEGER, -3)));
                }
                want = v;
                if (g.p(40)) { bool = true; boolean eq = g.p(50); n = new ComparisonNode(n, new UnaryNode(DataType.INTEGER, v), eq ? Operator.EQUALS : Operator.NOT_EQUAL, DataType.INTEGER); want = eq; }
            }
            Node root = n; boolean b = bool;
            Outcome[] o = new Outcome[1]; Violation[] bad = new Violation[1];
            Runnable call = () -> { try { o[0] = run(e, b, Try.success(root), g.data, "a = 1", null); } catch (Violation v) { bad[0] = v; } };
            if (g.p(50)) call.run();
            else {
                Thread t = new Thread(null, call, "tall", g.of(200_000L, 400_000L, 2_000_000L, 60_000_000L));
                t.start();
                try { t.join(); } catch (InterruptedException x) { throw new IllegalStateException(x); }
            }
            if (bad[0] != null) throw bad[0];
            e.evaluated("tall " + how + ' ' + height + ' ' + b + want, g.data, null, true); e.count(o[0].failed() ? "tall trees which failed" : "tall trees with a value");
            if (!o[0].failed() && !(o[0].ok() && want.equals(o[0].value))) throw new Violation("a tall tree (height " + height + ", kind " + how + ", " + (b ? "boolean" : "arithmetic") + ")\n expected: " + want + " or a failure\n observed: " + o[0]);
            if (height <= 50 && !o[0].ok()) throw new Violation("a tree of height " + height + " failed (kind " + how + ")\n expected: " + want + "\n observed: " + o[0]);
        }
        void one(Env e) {
            Gen g = new Gen(e.r);
            if (g.n(250) == 0) { tall(e, g); return; }
            switch (g.n(10)) {
                case 0: case 1: case 2: judge(e, g, g.combine(g.leaves(), g::cond), true, null); break;
                case 3: judge(e, g, g.arith(1 + g.n(12), g.p(40)), false, null); break;
                case 4: judge(e, g, X.cmp(g.cmpOp(), g.arith(g.n(5), g.p(40)), g.arith(g.n(5), g.p(40))), true, null); break;
                case 5: { // ranges with bounds of any sign
                    BigDecimal v = g.number(), lo = g.near(v), hi = g.near(v);
                    if (g.p(60) && lo.compareTo(hi) > 0) { BigDecimal t = lo; lo = hi; hi = t; }
                    X l = g.numLit(lo), h = g.numLit(hi);
                    if (l == null || h == null) return;
                    judge(e, g, X.range(g.put(g.numValue(v)), l, h), true, null); break;
                }
                case 6: judge(e, g, g.p(50) ? Maths.Types.badCond(g) : g.combine(4, () -> g.p(30) ? Maths.Types.badCond(g) : g.cond()), true, null); break;
                case 7: { // the parser's failure is the result
                    RuntimeException cause = g.of(new IllegalStateException("foreign"), new IllegalArgumentException(), new java.util.NoSuchElementException("x"), new com.github.sidhant92.boolparser.exception.InvalidExpressionException("no"));
                    boolean bool = g.p(50);
                    g.data.put("a", 1);
                    String t = text(g);
                    Outcome o = run(e, bool, Try.failure(cause), g.p(10) ? null : g.data, t, bool ? g.of(null, "a") : null);
                    e.evaluated("failure " + bool + t + cause.getClass(), true); e.count("parser failures");
                    if (o.failure != cause) throw new Violation("the parser's failure " + cause + " was not returned\n expression: " + t + "\n observed: " + o);
                    break;
                }
                case 8: { // parsed once, evaluated on many data
                    X x = g.p(50) ? g.combine(1 + g.n(8), g::cond) : g.cond();
                    String t = Printer.random(x, e.r);
                    Outcome p = Lib.parse(e.lib.any(e.r), t, null, e.r);
                    if (!p.ok()) throw new Violation("a valid expression was not parsed\n expression: " + Gen.quote(t) + "\n observed: " + p);
                    Node n = (Node) p.value;
                    String before = Dump.node(n);
                    Map<String, Object> data = g.data;
                    for (int i = 0; i < 3; i++) {
                        Expect want = Expect.bool(x, data, null);
                        Outcome got = run(e, true, Try.success(n), data, text(g), null);
                        e.evaluated(before, data, null, want.k != Expect.K.UNSPEC); e.count("parsed trees evaluated again");
                        if (got.broken != null || want.k != Expect.K.UNSPEC && !want.accepts(got)) throw new Violation("evaluation " + (i + 1) + " of a parsed tree\n expression: " + Gen.quote(t) + "\n data: " + Gen.show(data) + "\n expected: " + want + "\n observed: " + got);
                        Map<String, Object> next = new LinkedHashMap<>();
                        List<Object> vs = new ArrayList<>(data.values());
                        for (Map.Entry<String, Object> en : data.entrySet()) if (!g.p(5)) next.put(en.getKey(), g.p(30) ? vs.get(g.n(vs.size())) : en.getValue());
                        data = next;
                    }
                    if (!Dump.node(n).equals(before)) throw new Violation("evaluation changed the tree\n before: " + before + "\n after:  " + Dump.node(n));
                    break;
                }
                default: { // trees which share sub-trees, made by hand, by the parser, or both
                    int k = 1 + g.n(4);
                    Build b = new Build(e.r, null);
                    List<Node> leaves = new ArrayList<>(); List<Object> truth = new ArrayList<>(); // Boolean, or null = fails
                    StringBuilder names = new StringBuilder();
                    for (int i = 0; i < k; i++) {
                        X x = g.p(25) ? Maths.Types.badCond(g) : g.cond();
                        Node n;
                        if (g.p(50)) n = b.node(x);
                        else { Outcome p = Lib.parse(e.lib.any(e.r), Printer.canonical(x), null, e.r); if (!p.ok()) return; n = (Node) p.value; }
                        Expect w = Expect.bool(x, g.data, null);
                        if (w.k == Expect.K.UNSPEC || w.mayFail) return;
                        leaves.add(n); truth.add(w.k == Expect.K.FAIL ? null : w.v); names.append("\n  ").append(x).append(" -> ").append(w);
                    }
                    // later leaves are definable but must not make earlier ones different: judge again now that the data is complete
                    int ops = 1 + g.n(12);
                    for (int i = 0; i < ops; i++) {
                        int p = g.n(leaves.size()), q = g.n(leaves.size());
                        switch (g.n(3)) {
                            case 0: leaves.add(b.bool(leaves.get(p), leaves.get(q), LogicalOperationType.AND)); truth.add(truth.get(p) == null ? null : (Boolean) truth.get(p) ? truth.get(q) : Boolean.FALSE); break;
                            case 1: leaves.add(b.bool(leaves.get(p), leaves.get(q), LogicalOperationType.OR)); truth.add(truth.get(p) == null ? null : (Boolean) truth.get(p) ? Boolean.TRUE : truth.get(q)); break;
                            default: leaves.add(b.bool(leaves.get(p), null, LogicalOperationType.NOT)); truth.add(truth.get(p) == null ? null : (Object) !(Boolean) truth.get(p));
                        }
                    }
                    Node root = leaves.get(leaves.size() - 1); Object want = truth.get(truth.size() - 1);
                    String dump = Dump.node(root);
                    if (dump.length() > 200_000) return;
                    Outcome o = run(e, true, Try.success(root), g.data, text(g), null);
                    e.evaluated(dump, g.data, null, true); e.count("shared sub-trees");
                    if (want == null ? !o.failed() : !o.ok() || !want.equals(o.value)) throw new Violation("a tree with shared sub-trees\n tree: " + dump + "\n leaves: " + names + "\n data: " + Gen.show(g.data) + "\n expected: " + (want == null ? "Failure" : want) + "\n observed: " + o);
                    if (!Dump.node(root).equals(dump)) throw new Violation("evaluation changed the tree\n before: " + dump + "\n after:  " + Dump.node(root));
                }
            }
        }
    }

    // ------------------------------------------------------------------ C27

    static final class Order extends Check {
        String rule() { return "pairs and triples of equal, neighbouring and unrelated values of every kind as fields or literals: all six operators in both operand orders, transitivity, IN, NOT, ranges, MIN and MAX must tell one consistent story; distinct = distinct (values)"; }
        String assumes() { return "nothing but the laws themselves: every observation is compared with other observations of the library"; }

        enum F { NUMBER, TEXT, BOOL, VERSION, DATE, DATETIME, OTHER }

        private static Object value(Gen g, F f, Object near) {
            switch (f) {
                case NUMBER: return g.numValue(near == null ? g.number() : g.near(RefEval.big(near)));
                case TEXT: return near == null ? g.text() : g.nearText((String) near);
                case BOOL: return g.p(50);
                case VERSION: return new ComparableVersion(near == null ? g.version(1) : g.nearVersion(near.toString(), 1));
                case DATE: { LocalDate d = near == null ? g.date() : g.nearDate(RefEval.dateOf(near)); return g.p(50) ? d : (Object) Gen.fmt(d); }
                case DATETIME: { LocalDateTime d = near == null ? g.dateTime() : g.nearDateTime(RefEval.dtOf(near)); return g.p(50) ? d : (Object) Gen.fmt(d); }
                default: return g.of((Object) (short) 5, (byte) 1, BigInteger.TEN, BigInteger.ONE.shiftLeft(80), 'c', new StringBuilder("sb"), java.time.DayOfWeek.MONDAY, new ArrayList<>(List.of(1, 2)), List.of(), java.util.Optional.of(1), new java.util.Date(0), java.util.UUID.nameUUIDFromBytes(new byte[]{1}));
            }
        }
        private static X operand(Gen g, Object v) {
            if (g.p(30)) {
                if (v instanceof String && Gen.quotable((String) v)) return X.str((String) v);
                if (v instanceof Integer || v instanceof Long || v instanceof BigDecimal) { X x = g.numLit(RefEval.big(v)); if (x != null) return x; }
                if (v instanceof LocalDate) return X.lit(X.K.DATE, Gen.fmt((LocalDate) v));
                if (v instanceof LocalDateTime) return X.lit(X.K.DT, Gen.fmt((LocalDateTime) v));
                if (v instanceof ComparableVersion && v.toString().split("\\.").length >= 3) return X.ver(v.toString());
                if (v instanceof Boolean) return X.bool((Boolean) v);
            }
            return g.field(v);
        }
        private static Outcome eval(Env e, Gen g, X x) {
            String t = Printer.random(x, e.r);
            Outcome o = Lib.bool(e.lib.any(e.r), t, g.data, null, e.r);
            e.evaluated(t, g.data, null, true);
            if (o.broken != null) throw new Violation(Gen.quote(t) + " with " + Gen.show(g.data) + " -> " + o);
            return o;
        }
        private static Violation bad(Gen g, String law, Object... parts) {
            StringBuilder b = new StringBuilder("law: " + law);
            for (int i = 0; i + 1 < parts.length; i += 2) b.append("\n  ").append(Gen.quote(parts[i].toString())).append(" -> ").append(parts[i + 1]);
            return new Violation(b.append("\n data: ").append(Gen.show(g.data)).toString());
        }
        private static boolean t(Outcome o) { return o.ok() && (Boolean) o.value; }

        /** A range says what two comparisons with its bounds say, whatever the field holds. */
        private void rangeLaw(Env e, Gen g) {
            Object v = g.p(70) ? value(g, F.NUMBER, null) : value(g, F.values()[g.n(7)], null);
            java.math.BigDecimal near = v instanceof Integer || v instanceof Long || v instanceof Float || v instanceof Double || v instanceof java.math.BigDecimal ? RefEval.big(v).abs() : g.number().abs();
            X lo = null, hi = null;
            for (int i = 0; i < 9 && lo == null; i++) { lo = g.numLit(g.p(70) ? g.near(near).abs() : g.number().abs()); }
            for (int i = 0; i < 9 && hi == null; i++) { hi = g.numLit(g.p(70) ? g.near(near).abs() : g.number().abs()); }
            if (lo == null || hi == null) return;
            X f = g.field(v);
            Outcome l = eval(e, g, X.cmp(">=", f, lo)), h = eval(e, g, X.cmp("<=", f, hi)), o = eval(e, g, X.range(f.s, lo, hi));
            if (l.ok() && h.ok() ? !o.ok() || t(o) != (t(l) && t(h)) : (!l.ok() || t(l)) && o.ok()) throw bad(g, "a range is two comparisons", X.cmp(">=", f, lo), l, X.cmp("<=", f, hi), h, X.range(f.s, lo, hi), o);
            e.count(o.ok() ? t(o) ? "ranges which hold" : "ranges which do not hold" : "ranges which fail");
        }

        void one(Env e) {
            Gen g = new Gen(e.r);
            if (g.p(10)) { rangeLaw(e, g); return; }
            F fa = F.values()[g.n(7)], fb = g.p(80) ? fa : F.values()[g.n(7)];
            Object va = value(g, fa, null), vb = value(g, fb, fa == fb && fa != F.OTHER && g.p(80) ? va : null);
            X a = operand(g, va), b = operand(g, vb);
            boolean same = fa == fb && fa != F.OTHER;
            e.count(same ? "pairs of " + fa : "mixed pairs");
            Outcome[] ab = new Outcome[6], ba = new Outcome[6];
            for (int i = 0; i < 6; i++) { ab[i] = eval(e, g, X.cmp(Gen.CMPS[i], a, b)); ba[i] = eval(e, g, X.cmp(Gen.CMPS[i], b, a)); }
            final int EQ = 0, NE = 1, GT = 2, GE = 3, LT = 4, LE = 5;
            for (Outcome[] o : new Outcome[][]{ab, ba}) {
                X l = o == ab ? a : b, r = o == ab ? b : a;
                if (o[EQ].ok() != o[NE].ok() || o[EQ].ok() && t(o[EQ]) == t(o[NE])) throw bad(g, "x != y is not x = y", X.cmp("=", l, r), o[EQ], X.cmp("!=", l, r), o[NE]);
                if (o[GT].ok() != o[LE].ok() || o[GT].ok() && t(o[GT]) == t(o[LE])) throw bad(g, "x <= y is not x > y", X.cmp(">", l, r), o[GT], X.cmp("<=", l, r), o[LE]);
                if (o[LT].ok() != o[GE].ok() || o[LT].ok() && t(o[LT]) == t(o[GE])) throw bad(g, "x >= y is not x < y", X.cmp("<", l, r), o[LT], X.cmp(">=", l, r), o[GE]);
                if (t(o[GT]) && t(o[LT])) throw bad(g, "x > y excludes x < y", X.cmp(">", l, r), o[GT], X.cmp("<", l, r), o[LT]);
                if (same) {
                    if (!o[EQ].ok()) throw bad(g, "values of one kind can be compared with =", X.cmp("=", l, r), o[EQ]);
                    if (fa == F.BOOL) { if (!o[GT].failed()) throw bad(g, "booleans have no order", X.cmp(">", l, r), o[GT]); }
                    else {
                        if (!o[GT].ok()) throw bad(g, "values of one kind can be ordered", X.cmp(">", l, r), o[GT]);
                        if ((t(o[GT]) ? 1 : 0) + (t(o[LT]) ? 1 : 0) + (t(o[EQ]) ? 1 : 0) != 1) throw bad(g, "exactly one of <, =, > holds", X.cmp("<", l, r), o[LT], X.cmp("=", l, r), o[EQ], X.cmp(">", l, r), o[GT]);
                    }
                }
            }
            int[] mirror = {EQ, NE, LT, LE, GT, GE};
            for (int i = 0; i < 6; i++) if (!ab[i].same(ba[mirror[i]])) throw bad(g, "swapping the operands mirrors the operator", X.cmp(Gen.CMPS[i], a, b), ab[i], X.cmp(Gen.CMPS[mirror[i]], b, a), ba[mirror[i]]);
            // reflexive
            if (fa != F.OTHER) {
                Outcome r = eval(e, g, X.cmp("=", a, a));
                if (!t(r)) throw bad(g, "x = x", X.cmp("=", a, a), r);
                X c = operand(g, va);
                r = eval(e, g, X.cmp("=", a, c));
                if (!t(r)) throw bad(g, "equal to another occurrence of the same value", X.cmp("=", a, c), r);
            }
            // NOT, IN and ranges are made of the same comparisons
            if (g.p(40)) {
                int i = g.n(6);
                X x = X.not(X.cmp(Gen.CMPS[i], a, b));
                Outcome o = eval(e, g, x);
                if (o.ok() != ab[i].ok() || o.ok() && t(o) == t(ab[i])) throw bad(g, "NOT negates a comparison", X.cmp(Gen.CMPS[i], a, b), ab[i], x, o);
            }
            if (same && a.k == X.K.FLD && g.p(40)) {
                X x = X.in(a.s, false, List.of(b)), y = X.in(a.s, true, List.of(b));
                Outcome o = eval(e, g, x), p = eval(e, g, y);
                if (!o.same(ab[EQ])) throw bad(g, "membership in a list of one is equality", X.cmp("=", a, b), ab[EQ], x, o);
                if (!p.same(ab[NE])) throw bad(g, "no membership in a list of one is inequality", X.cmp("!=", a, b), ab[NE], y, p);
            }
            // transitivity and congruence on a third value
            if (same && fa != F.BOOL && g.p(60)) {
                Object vc = value(g, fa, g.p(50) ? va : vb);
                X c = operand(g, vc);
                Outcome bc = eval(e, g, X.cmp("<=", b, c)), ac = eval(e, g, X.cmp("<=", a, c)), cb = eval(e, g, X.cmp("<=", c, b)), ca = eval(e, g, X.cmp("<=", c, a));
                if (t(ab[LE]) && t(bc) && !t(ac)) throw bad(g, "<= is transitive", X.cmp("<=", a, b), ab[LE], X.cmp("<=", b, c), bc, X.cmp("<=", a, c), ac);
                if (t(ab[GE]) && t(cb) && !t(ca)) throw bad(g, "<= is transitive", X.cmp(">=", a, b), ab[GE], X.cmp("<=", c, b), cb, X.cmp("<=", c, a), ca);
                if (t(ab[EQ]) && (t(bc) != t(ac) || t(cb) != t(ca))) throw bad(g, "equal values have the same order to a third", X.cmp("=", a, b), ab[EQ], X.cmp("<=", b, c), bc, X.cmp("<=", a, c), ac, X.cmp("<=", c, b), cb, X.cmp("<=", c, a), ca);
                if (fa == F.NUMBER) {
                    X mn = X.fun("MIN", a, b, c), mx = X.fun("MAX", c, a, b);
                    for (X z : List.of(a, b, c)) {
                        X x = X.cmp("<=", mn, z), y = X.cmp(">=", mx, z);
                        Outcome o = eval(e, g, x), p = eval(e, g, y);
                        if (!t(o)) throw bad(g, "MIN is below every argument", x, o);
                        if (!t(p)) throw bad(g, "MAX is above every argument", y, p);
                    }
                    X one = X.or(X.or(X.cmp("=", mn, a), X.cmp("=", mn, b)), X.cmp("=", mn, c)), two = X.or(X.or(X.cmp("=", mx, a), X.cmp("=", mx, b)), X.cmp("=", mx, c));
                    Outcome o = eval(e, g, one), p = eval(e, g, two);
                    if (!t(o)) throw bad(g, "MIN is one of its arguments", one, o);
                    if (!t(p)) throw bad(g, "MAX is one of its arguments", two, p);
                    e.count("MIN and MAX");
                }
                e.count("triples");
            }
            e.sample(Printer.canonical(X.cmp("<", a, b)), g.data, null, ab[LT]);
        }
    }

    // ------------------------------------------------------------------ C28

    static final class Sources extends Check {
        String rule() { return "conditions and arithmetic of every kind in which each literal is replaced by a field holding its value, each scalar field by a literal, another field, a nested field or the default field: the outcome must stay the same; distinct = distinct (text, data)"; }
        String assumes() { return "nothing but the law itself: every observation is compared with another observation of the library"; }

        static Object litValue(Gen g, X x) {
            switch (x.k) {
                case DATE: return g.p(50) ? Dump.litValue(x) : x.s;
                case STR: return x.s;
                default: return Dump.litValue(x);
            }
        }
        /** Another operand with the same value and the same textual form, or x itself. */
        X other(Gen g, X x, boolean top) {
            if (x.isLit()) return g.field(litValue(g, x));
            if (x.k == X.K.FLD && x.s != null && !RefEval.isNullWord(x)) {
                Object v = RefEval.lookup(x.s, g.data);
                if (v == null) return x;
                if (g.p(60)) {
                    if (v instanceof String && Gen.quotable((String) v)) return X.str((String) v);
                    if (v instanceof Integer && (Integer) v >= 0) return X.lit(X.K.INT, v.toString());
                    if (v instanceof Long && (Long) v > Integer.MAX_VALUE) return X.lit(X.K.INT, v.toString());
                    if (v instanceof BigDecimal && ((BigDecimal) v).signum() >= 0 && ((BigDecimal) v).scale() > 0 && v.toString().indexOf('E') < 0) return X.lit(X.K.DEC, v.toString());
                    if (v instanceof LocalDate) return X.lit(X.K.DATE, Gen.fmt((LocalDate) v));
                    if (v instanceof ComparableVersion && v.toString().matches("\\d+(\\.\\d+){2,}")) return X.ver(v.toString());
                    if (v instanceof Boolean) return X.bool((Boolean) v);
                }
                return g.field(v);
            }
            return x;
        }
        X replace(Gen g, X x, int percent) {
            switch (x.k) {
                case RANGE: return x.s != null && g.p(percent) ? new X(x.k, again(g, x.s), x.neg, x.c) : x;
                case IN: case ARR: { List<X> n = new ArrayList<>(); for (X c : x.c) n.add(replace(g, c, percent)); return new X(x.k, g.p(percent) ? again(g, x.s) : x.s, x.neg, n); }
                case NOT: if (x.c.get(0).k == X.K.FLD || x.c.get(0).k == X.K.BOOL) { X o = x.c.get(0); if (!g.p(percent)) return x; X n = other(g, o, true); return X.not(n); } // fall through
                default:
                    if (x.c.isEmpty()) return g.p(percent) ? other(g, x, false) : x;
                    List<X> n = new ArrayList<>(); for (X c : x.c) n.add(replace(g, c, percent));
                    return x.with(n);
            }
        }
        private static String again(Gen g, String path) { Object v = RefEval.lookup(path, g.data); return v == null ? path : g.put(v); }

        void one(Env e) {
            Gen g = new Gen(e.r);
            boolean bool = g.p(70);
            X x;
            int kind = g.n(6);
            if (bool) {
                switch (kind) {
                    case 0: x = g.combine(1 + g.n(10), g::cond); break;
                    case 1: { Object a = mixed(g), b = mixed(g); x = X.cmp(g.cmpOp(), g.field(a), g.field(b)); break; }
                    case 2: { List<X> l = new ArrayList<>(); int k = 1 + g.n(4); for (int i = 0; i < k; i++) l.add(g.field(mixed(g))); x = X.in(g.put(mixed(g)), g.p(30), l); break; }
                    case 3: x = Maths.Types.badCond(g); break;
                    case 4: x = X.cmp(g.cmpOp(), g.arith(1 + g.n(4), g.p(30)), g.arith(g.n(4), g.p(30))); break;
                    default: x = g.cond();
                }
            } else x = g.p(15) ? Maths.Types.badArith(g) : g.p(20) ? X.ari("+", g.field(mixed(g)), g.field(mixed(g))) : g.arith(1 + g.n(10), g.p(30));
            X y = replace(g, x, g.of(20, 60, 100));
            String def = null;
            X z = y;
            if (bool && y.k == X.K.CMP && g.p(40)) { // one operand as the default field
                int i = y.c.get(0).k == X.K.FLD && !RefEval.isNullWord(y.c.get(0)) ? 0 : y.c.get(1).k == X.K.FLD && !RefEval.isNullWord(y.c.get(1)) ? 1 : -1;
                if (i == 0 && y.c.get(0).s != null) { def = y.c.get(0).s; z = X.cmp(y.s, X.fld(null), y.c.get(1)); e.count("default field"); }
            }
            String tx = Printer.random(x, e.r), tz = Printer.random(z, e.r);
            Lib.Set p = e.lib.any(e.r), q = e.lib.any(e.r);
            Outcome ox = bool ? Lib.bool(p, tx, g.data, null, e.r) : Lib.arith(p, tx, g.data);
            Outcome oz = bool ? Lib.bool(q, tz, g.data, def, e.r) : Lib.arith(q, tz, g.data);
            e.evaluated(tz, g.data, def, !tx.equals(tz));
            e.count((ox.ok() ? "both succeed " : "both fail ") + (bool ? kind : 6));
            if (!ox.same(oz)) throw new Violation("the outcome depends on where operands come from\n expression: " + Gen.quote(tx) + " -> " + ox + "\n replaced:   " + Gen.quote(tz) + (def == null ? "" : " with default field " + def) + " -> " + oz + "\n data: " + Gen.show(g.data));
            e.sample(Gen.quote(tx) + " and " + Gen.quote(tz) + " with " + Gen.show(g.data) + " -> " + ox);
        }
        static Object mixed(Gen g) {
            switch (g.n(9)) {
                case 0: return g.n(10);
                case 1: return g.of("5", "5.0", "7", "true", "1.2.3", "2024-01-01", "abc", "", "null");
                case 2: return g.numValue(g.number());
                case 3: return g.p(50);
                case 4: return new ComparableVersion(g.version(1));
                case 5: return g.date();
                case 6: return Gen.fmt(g.date());
                case 7: return g.text();
                default: return BigDecimal.valueOf(g.n(100), 1);
            }
        }
    }

    // ------------------------------------------------------------------ C29

    static final class Classes extends Check {
        String rule() { return "arithmetic of every operator and function over literals and fields of every numeric class; the class of every result, and of every sub-expression's result evaluated on its own, is checked against the documented number types; distinct = distinct (text, data)"; }
        String assumes() { return "the value of a result is judged by C12-C15; here only its class is"; }
        private static boolean isInt(Object v) { return v instanceof Integer || v instanceof Long; }
        private Object eval(Env e, Gen g, X x) {
            String t = e.r.nextBoolean() ? Printer.canonical(x) : Printer.random(x, e.r);
            Outcome o = Lib.arith(e.lib.any(e.r), t, g.data);
            e.evaluated(t, g.data, null, o.ok());
            if (o.broken != null) throw new Violation("arithmetic evaluation\n expression: " + Gen.quote(t) + "\n data: " + Gen.show(g.data) + "\n observed: " + o);
            return o.ok() ? o.value : null;
        }
        private void walk(Env e, Gen g, X x) {
            if (x.c.isEmpty()) return;
            for (X c : x.c) if (g.p(70)) walk(e, g, c);
            Object v = eval(e, g, x);
            if (v == null) { e.count("failures"); return; }
            e.count("class " + v.getClass().getSimpleName());
            String why = null;
            if (x.k == X.K.FUN && x.s.equals("MODE") && (v instanceof Double || v instanceof Float)) { e.count("MODE returning the element itself"); return; }
            if (!(isInt(v) || v instanceof BigDecimal)) why = "a numeric result is an Integer, a Long or a BigDecimal";
            else if (x.k == X.K.ARI && "+-*%".contains(x.s) || x.k == X.K.NEG) {
                Object a = eval(e, g, x.c.get(0)), b = x.k == X.K.NEG ? 0 : eval(e, g, x.c.get(1));
                if (a == null || b == null) return;
                if (isInt(a) && isInt(b)) {
                    BigInteger i = RefEval.big(v).toBigInteger();
                    if (i.bitLength() <= 63 && !isInt(v)) why = "an operation on integers has an integer result";
                    else if (a instanceof Integer && b instanceof Integer && i.bitLength() <= 31 && !(v instanceof Integer)) why = "an operation on Integers has an Integer result when it fits";
                    else if (v instanceof Integer && i.bitLength() > 31) why = "wrapped";
                    e.count("operations on integers");
                }
                if (!isInt(a) && a instanceof BigDecimal && b instanceof BigDecimal && v instanceof BigDecimal) e.count("operations on decimals");
            } else {
                BigDecimal d = RefEval.big(v);
                boolean whole = d.signum() == 0 || d.stripTrailingZeros().scale() <= 0;
                if (x.k == X.K.ARI && x.s.equals("^") && d.abs().compareTo(BigDecimal.valueOf(1L << 53)) >= 0) { e.count("powers which are approximations"); return; }
                if (whole) { int n = d.toBigInteger().bitLength(); if (n <= 31 ? !(v instanceof Integer) : n <= 63 ? !(v instanceof Long) : !(v instanceof BigDecimal)) why = "a whole quotient, power or function value has the smallest class that holds it"; }
                else if (!(v instanceof BigDecimal)) why = "a fraction is a BigDecimal";
                e.count("quotients, powers and functions");
            }
            if (why != null) throw new Violation("class of a result: " + why + "\n expression: " + Gen.quote(Printer.canonical(x)) + "\n data: " + Gen.show(g.data) + "\n observed: " + Gen.show(v) + " of " + v.getClass().getName());
            e.sample(Printer.canonical(x), g.data, null, Gen.show(v));
        }
        void one(Env e) {
            Gen g = new Gen(e.r);
            switch (g.n(6)) {
                case 0: walk(e, g, X.ari(g.of(Gen.ARIS), g.field(g.extreme()), g.field(g.extreme()))); break;
                case 1: walk(e, g, X.ari(g.of(Gen.ARIS), g.num(new BigDecimal(g.integer())), g.num(new BigDecimal(g.integer())))); break;
                case 2: { List<Object> l = new ArrayList<>(); int k = 1 + g.n(8); boolean dec = g.p(50); for (int i = 0; i < k; i++) l.add(g.numValue(dec ? g.number() : new BigDecimal(g.integer()))); walk(e, g, X.fun(g.of(Gen.AGGS), g.field(l))); break; }
                case 3: walk(e, g, X.fun(g.of("INT", "MIN", "MAX", "SUM", "AVG", "MEAN", "MEDIAN", "MODE"), g.num(g.number()))); break;
                default: walk(e, g, g.arith(1 + g.n(8), g.p(50)));
            }
        }
    }
}
