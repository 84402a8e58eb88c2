package vf;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import io.vavr.control.Try;
import java.util.Map;

/** Loaded afresh, together with the library, for every round of the concurrency check. */
public final class ApiImpl implements Api {
    private static final class Ev { BooleanExpressionEvaluator b; ArithmeticExpressionEvaluator a; }

    public Object parser(int capacity) { return capacity < 0 ? new BoolParser() : new CachedBoolParser(capacity); }
    public Object evaluators(Object p) {
        Ev e = new Ev();
        // either may be the first to be used
        if (System.identityHashCode(e) % 2 == 0) { e.a = new ArithmeticExpressionEvaluator((BoolParser) p); e.b = new BooleanExpressionEvaluator((BoolParser) p); }
        else { e.b = new BooleanExpressionEvaluator((BoolParser) p); e.a = new ArithmeticExpressionEvaluator((BoolParser) p); }
        return e;
    }
    public Object foreign(String text) {
        Ev e = new Ev();
        Laws.Foreign f = new Laws.Foreign();
        f.answer = Try.success(new Laws.Build(new java.util.SplittableRandom(text.hashCode()), null).node(RefParser.parse(text)));
        if (text.hashCode() % 2 == 0) { e.a = new ArithmeticExpressionEvaluator(f); e.b = new BooleanExpressionEvaluator(f); }
        else { e.b = new BooleanExpressionEvaluator(f); e.a = new ArithmeticExpressionEvaluator(f); }
        return e;
    }
    public String parse(Object p, String text, String def) { return show(((BoolParser) p).parseExpression(text, def)); }
    public String bool(Object e, String text, Map<String, Object> data, String def) { return show(((Ev) e).b.evaluate(text, data, def)); }
    public String arith(Object e, String text, Map<String, Object> data) { return show(((Ev) e).a.evaluate(text, data)); }

    static String show(Try<?> t) {
        if (t == null) return "null";
        if (t.isFailure()) return "Failure " + t.getCause().getClass().getName();
        Object v = t.get();
        return v instanceof Node ? Dump.node((Node) v) : Gen.show(v);
    }
}
