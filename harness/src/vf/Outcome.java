package vf;

import io.vavr.control.Try;
import java.util.concurrent.Callable;

/** What one call of the library did: a value, a reported failure, or something it must never do (throw, return null). */
final class Outcome {
    final Object value;
    final Throwable failure;   // reported through Try
    final String broken;       // escaped exception, null result

    private Outcome(Object v, Throwable f, String b) { value = v; failure = f; broken = b; }

    static Outcome of(Callable<? extends Try<?>> c) {
        try {
            Try<?> t = c.call();
            if (t == null) return new Outcome(null, null, "returned null instead of a Try");
            if (t.isSuccess()) return t.get() == null ? new Outcome(null, null, "success without a value") : new Outcome(t.get(), null, null);
            if (t.getCause() == null) return new Outcome(null, null, "failure without a cause");
            return new Outcome(null, t.getCause(), null);
        } catch (Throwable e) {
            return new Outcome(null, null, "threw " + e.getClass().getName() + ": " + e.getMessage());
        }
    }
    boolean ok() { return broken == null && failure == null; }
    boolean failed() { return failure != null; }
    /** Same kind of outcome and, for values, the same value; failures need not have the same text. */
    boolean same(Outcome o) {
        if (broken != null || o.broken != null) return false;
        if (ok() != o.ok()) return false;
        return !ok() || sameValue(value, o.value);
    }
    static boolean sameValue(Object a, Object b) {
        if (a instanceof Number && b instanceof Number) { try { return RefEval.big(a).compareTo(RefEval.big(b)) == 0; } catch (RefEval.Fail | IllegalStateException e) { return a.equals(b); } }
        if (a instanceof Object[] && b instanceof Object[]) return java.util.Arrays.deepEquals((Object[]) a, (Object[]) b);
        return a.equals(b);
    }
    @Override public String toString() {
        if (broken != null) return "BROKEN " + broken;
        if (failure != null) return "Failure(" + failure.getClass().getSimpleName() + ": " + failure.getMessage() + ")";
        return "Success(" + Gen.show(value) + ")";
    }
}
