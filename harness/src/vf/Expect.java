package vf;

import java.math.BigDecimal;
import java.util.Map;

/** What the reference says about an expression: a value, a failure, or nothing. */
final class Expect {
    enum K { VALUE, FAIL, UNSPEC }
    final K k; final Object v; final boolean mayFail; final String note; final boolean missing;
    private Expect(K k, Object v, boolean m, String n, boolean missing) { this.k = k; this.v = v; mayFail = m; note = n; this.missing = missing; }

    static Expect value(Object v) { return new Expect(K.VALUE, v, false, null, false); }
    static Expect fail(String n) { return new Expect(K.FAIL, null, false, n, false); }

    static Expect bool(X x, Map<String, Object> data, String def) { return run(x, data, def, true); }
    static Expect arith(X x, Map<String, Object> data) { return run(x, data, null, false); }

    private static Expect run(X x, Map<String, Object> data, String def, boolean bool) {
        RefEval e = new RefEval(data, def);
        try {
            Object v = bool ? (Object) e.bool(x) : e.val(x);
            return new Expect(K.VALUE, v, e.mayFail, null, false);
        } catch (RefEval.Missing m) {
            return new Expect(K.FAIL, null, false, m.getMessage(), true);
        } catch (RefEval.Fail f) {
            return new Expect(K.FAIL, null, false, f.getMessage(), false);
        } catch (RefEval.Unspec | ArithmeticException u) {
            return new Expect(K.UNSPEC, null, false, u.getMessage(), false);
        }
    }

    boolean accepts(Outcome o) {
        if (o.broken != null) return false;
        switch (k) {
            case FAIL: return o.failed();
            case UNSPEC: return true;
            default: return o.failed() ? mayFail : matches(v, o.value);
        }
    }
    static boolean matches(Object want, Object got) {
        if (want instanceof RefEval.Approx) {
            if (!(got instanceof Number)) return false;
            double d = ((RefEval.Approx) want).d(), g = ((Number) got).doubleValue();
            return d == g || Math.abs(d - g) <= 1e-9 * Math.max(Math.abs(d), Math.abs(g));
        }
        if (want instanceof RefEval.OneOf) {
            if (!(got instanceof Number)) return false;
            for (BigDecimal b : ((RefEval.OneOf) want).any()) if (b.compareTo(RefEval.big(got)) == 0) return true;
            return false;
        }
        if (want instanceof RefEval.MedianTrunc) {
            if (!(got instanceof Number)) return false;
            BigDecimal exact = ((RefEval.MedianTrunc) want).exact(), g = RefEval.big(got);
            return exact.subtract(g).abs().compareTo(new BigDecimal("0.01")) < 0 && (g.signum() == 0 || g.signum() == exact.signum()) && g.abs().compareTo(exact.abs()) <= 0;
        }
        return Outcome.sameValue(want, got);
    }
    @Override public String toString() {
        switch (k) {
            case FAIL: return "Failure (" + note + ")";
            case UNSPEC: return "anything (" + note + ")";
            default: return (v instanceof RefEval.Approx || v instanceof RefEval.OneOf || v instanceof RefEval.MedianTrunc ? v.toString() : "Success(" + Gen.show(v) + ")") + (mayFail ? " or a Failure" : "");
        }
    }
}
