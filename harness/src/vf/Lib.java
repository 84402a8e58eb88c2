package vf;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import java.util.Map;
import java.util.SplittableRandom;

/** The library under observation, through its public API only. */
final class Lib {
    static final class Set {
        final BoolParser parser; final BooleanExpressionEvaluator bool; final ArithmeticExpressionEvaluator arith; final String name;
        Set(BoolParser p, String n) { parser = p; bool = new BooleanExpressionEvaluator(p); arith = new ArithmeticExpressionEvaluator(p); name = n; }
    }
    /** long-lived instances which all workers share */
    private static final Set SHARED = new Set(new BoolParser(), "shared BoolParser"), SHARED_CACHED = new Set(new CachedBoolParser(64), "shared CachedBoolParser(64)");
    private final Set own = new Set(new BoolParser(), "worker's BoolParser"), ownCached = new Set(new CachedBoolParser(3), "worker's CachedBoolParser(3)");

    Set any(SplittableRandom r) {
        switch (r.nextInt(40)) {
            case 0: return new Set(new BoolParser(), "new BoolParser");
            case 1: return new Set(new CachedBoolParser(8), "new CachedBoolParser(8)");
            default:
                switch (r.nextInt(4)) { case 0: return SHARED; case 1: return SHARED_CACHED; case 2: return own; default: return ownCached; }
        }
    }
    static Outcome bool(Set s, String text, Map<String, Object> data, String def, SplittableRandom r) {
        if (def == null && r.nextBoolean()) return Outcome.of(() -> s.bool.evaluate(text, data));
        return Outcome.of(() -> s.bool.evaluate(text, data, def));
    }
    static Outcome arith(Set s, String text, Map<String, Object> data) { return Outcome.of(() -> s.arith.evaluate(text, data)); }
    static Outcome parse(Set s, String text, String def, SplittableRandom r) {
        if (def == null && r.nextBoolean()) return Outcome.of(() -> s.parser.parseExpression(text));
        return Outcome.of(() -> s.parser.parseExpression(text, def));
    }
    static String dump(Outcome o) { return o.ok() ? Dump.node((Node) o.value) : o.toString(); }
}
