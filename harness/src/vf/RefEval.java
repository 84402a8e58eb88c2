package vf;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.RoundingMode;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.temporal.ChronoUnit;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collection;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import org.apache.maven.artifact.versioning.ComparableVersion;

/**
 * Reference evaluator, written from the documentation: exact arithmetic on BigDecimal/BigInteger, own version and date comparison.
 * Throws Fail where the library has to return a failure and Unspec where the properties say nothing.
 */
final class RefEval {
    static class Fail extends RuntimeException { Fail(String m) { super(m, null, false, false); } }
    static final class Missing extends Fail { final String field; Missing(String f) { super("missing " + f); field = f; } }
    static final class Unspec extends RuntimeException { Unspec(String m) { super(m, null, false, false); } }

    /** A power that need not be exact. */
    record Approx(double d) {}

    enum T { STRING, INTEGER, LONG, DECIMAL, BOOLEAN, VERSION, DATE, DATETIME, LIST, APPROX }

    static final BigInteger LMIN = BigInteger.valueOf(Long.MIN_VALUE), LMAX = BigInteger.valueOf(Long.MAX_VALUE);

    final Map<String, Object> data;
    final String def;
    final LocalDate today;
    /** set when an intermediate integer result left the 64 bit range: a failure is then as good as the exact value */
    boolean mayFail;

    RefEval(Map<String, Object> data, String def, LocalDate today) { this.data = data; this.def = def; this.today = today; }
    RefEval(Map<String, Object> data, String def) { this(data, def, LocalDate.now()); }

    // ---- values
    static T type(Object v) {
        if (v instanceof Boolean) return T.BOOLEAN;
        if (v instanceof Integer) return T.INTEGER;
        if (v instanceof Long) return T.LONG;
        if (v instanceof BigInteger) return T.LONG;
        if (v instanceof Float || v instanceof Double || v instanceof BigDecimal) return T.DECIMAL;
        if (v instanceof ComparableVersion) return T.VERSION;
        if (v instanceof LocalDate) return T.DATE;
        if (v instanceof LocalDateTime) return T.DATETIME;
        if (v instanceof Approx) return T.APPROX;
        if (v instanceof String) {
            if (dt((String) v) != null) return T.DATETIME;
            if (date((String) v) != null) return T.DATE;
            return T.STRING;
        }
        if (v instanceof Collection || v instanceof Object[]) return T.LIST;
        throw new Unspec("value class " + (v == null ? "null" : v.getClass()));
    }
    static LocalDate date(String s) {
        if (!RefParser.pat(s, 0, "dddd-dd-dd") || s.length() != 10) return null;
        return ymd(s);
    }
    private static LocalDate ymd(String s) {
        int y = Integer.parseInt(s.substring(0, 4)), m = Integer.parseInt(s.substring(5, 7)), d = Integer.parseInt(s.substring(8, 10));
        if (m < 1 || m > 12 || d < 1) return null;
        int[] len = {31, y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        if (d > len[m - 1]) return null;
        return LocalDate.of(y, m, d);
    }
    static LocalDateTime dt(String s) {
        if (!RefParser.pat(s, 0, "dddd-dd-dd dd:dd:dd") || s.length() != 19) return null;
        LocalDate d = ymd(s);
        int h = Integer.parseInt(s.substring(11, 13)), mi = Integer.parseInt(s.substring(14, 16)), se = Integer.parseInt(s.substring(17, 19));
        if (d == null || h > 23 || mi > 59 || se > 59) return null;
        return d.atTime(h, mi, se);
    }
    static boolean num(T t) { return t == T.INTEGER || t == T.LONG || t == T.DECIMAL; }

    static BigDecimal big(Object v) {
        if (v instanceof BigDecimal) return (BigDecimal) v;
        if (v instanceof Integer || v instanceof Long) return BigDecimal.valueOf(((Number) v).longValue());
        if (v instanceof BigInteger) return new BigDecimal((BigInteger) v);
        if (v instanceof Double || v instanceof Float) {
            double d = ((Number) v).doubleValue();
            if (Double.isNaN(d) || Double.isInfinite(d)) throw new Fail("not a number");
            return new BigDecimal(v.toString());
        }
        throw new IllegalStateException("big " + v);
    }
    static LocalDate dateOf(Object v) { return v instanceof LocalDate ? (LocalDate) v : date((String) v); }
    static LocalDateTime dtOf(Object v) { return v instanceof LocalDateTime ? (LocalDateTime) v : dt((String) v); }

    static int cmpVer(String a, String b) {
        String[] x = a.split("\\."), y = b.split("\\.");
        for (String s : x) if (!s.matches("[0-9]+")) throw new Unspec("qualifier");
        for (String s : y) if (!s.matches("[0-9]+")) throw new Unspec("qualifier");
        for (int i = 0; i < Math.max(x.length, y.length); i++) {
            BigInteger p = i < x.length ? new BigInteger(x[i]) : BigInteger.ZERO, q = i < y.length ? new BigInteger(y[i]) : BigInteger.ZERO;
            int c = p.compareTo(q);
            if (c != 0) return c;
        }
        return 0;
    }

    static String text(Object v) {
        if (v instanceof BigDecimal || v instanceof Integer || v instanceof Long || v instanceof BigInteger || v instanceof Boolean || v instanceof String || v instanceof ComparableVersion || v instanceof LocalDate) return v.toString();
        // doubles which everybody writes alike
        if ((v instanceof Double || v instanceof Float) && v.toString().matches("-?[0-9]+\\.[0-9]+")) return v.toString();
        throw new Unspec("text of " + v.getClass());
    }

    // ---- comparison
    static boolean eq(Object l, Object r) {
        T a = type(l), b = type(r);
        if (a == T.APPROX || b == T.APPROX) throw new Unspec("approx");
        if (a == T.LIST || b == T.LIST) throw new Unspec("list");
        if (num(a) && num(b)) return big(l).compareTo(big(r)) == 0;
        if (a == T.STRING || b == T.STRING) return text(l).equals(text(r));
        if (a == T.BOOLEAN && b == T.BOOLEAN) return l.equals(r);
        if (a == T.VERSION && b == T.VERSION) return cmpVer(l.toString(), r.toString()) == 0;
        if (a == T.DATE && b == T.DATE) return dateOf(l).equals(dateOf(r));
        if (a == T.DATETIME && b == T.DATETIME) return dtOf(l).equals(dtOf(r));
        throw new Unspec(a + " = " + b);
    }

    static boolean ord(String op, Object l, Object r) {
        T a = type(l), b = type(r);
        if (a == T.BOOLEAN || b == T.BOOLEAN) throw new Fail("boolean order");
        if (a == T.APPROX || b == T.APPROX) throw new Unspec("approx");
        if (a == T.LIST || b == T.LIST) throw new Unspec("list");
        // in the data a BigInteger is a text
        if (l instanceof BigInteger && (!num(b) || r instanceof BigInteger) || r instanceof BigInteger && !num(a)) throw new Unspec("order of a BigInteger");
        int c;
        if (num(a) && num(b)) c = big(l).compareTo(big(r));
        else if (a == T.STRING && b == T.STRING) c = cmpText((String) l, (String) r);
        else if (a == T.STRING && num(b)) c = conv((String) l, b).compareTo(big(r));
        else if (num(a) && b == T.STRING) c = big(l).compareTo(conv((String) r, a));
        else if (a == T.VERSION && b == T.VERSION || a == T.STRING && b == T.VERSION || a == T.VERSION && b == T.STRING) c = cmpVer(l.toString(), r.toString());
        else if (a == T.DATE && b == T.DATE) c = dateOf(l).compareTo(dateOf(r));
        else if (a == T.DATETIME && b == T.DATETIME) c = dtOf(l).compareTo(dtOf(r));
        else if ((a == T.DATE || a == T.DATETIME) && num(b) || (b == T.DATE || b == T.DATETIME) && num(a)) throw new Fail("date vs number");
        else throw new Unspec(a + " " + op + " " + b);
        switch (op) { case ">": return c > 0; case ">=": return c >= 0; case "<": return c < 0; case "<=": return c <= 0; default: throw new IllegalStateException(op); }
    }
    static int cmpText(String a, String b) {
        for (int i = 0; i < a.length() && i < b.length(); i++) if (a.charAt(i) != b.charAt(i)) return a.charAt(i) < b.charAt(i) ? -1 : 1;
        return Integer.compare(a.length(), b.length());
    }
    static BigDecimal conv(String s, T t) {
        BigDecimal d;
        try { d = new BigDecimal(s); } catch (NumberFormatException e) { throw new Fail("not a number " + s); }
        if (t == T.DECIMAL) return d;
        if (d.precision() - d.scale() > 25 || d.scale() > 100000) { if (d.signum() != 0) throw new Fail("range"); return BigDecimal.ZERO; }
        if (d.stripTrailingZeros().scale() > 0) throw new Fail("fraction");
        BigInteger i = d.toBigInteger();
        if (t == T.INTEGER ? i.bitLength() > 31 : i.bitLength() > 63) throw new Fail("range");
        return new BigDecimal(i);
    }

    // ---- fields
    static Object lookup(String path, Map<String, Object> data) {
        Object cur = data;
        if (path.split("\\.").length == 0) return null;
        for (String seg : path.split("\\.")) {
            if (!(cur instanceof Map)) return null;
            try { cur = ((Map<?, ?>) cur).get(seg); } catch (ClassCastException keysOfAnotherClass) { return null; }
            if (cur == null) return null;
        }
        return cur;
    }
    private Object field(String f) {
        String n = f == null ? def : f;
        if (n == null) throw new Fail("no default field");
        Object v = lookup(n, data);
        if (v == null) throw new Missing(n);
        return v;
    }
    static boolean isNullWord(X x) { return x.k == X.K.FLD && x.s != null && x.s.equalsIgnoreCase("null"); }

    // ---- boolean
    boolean bool(X x) {
        switch (x.k) {
            case AND: return bool(x.c.get(0)) && bool(x.c.get(1));
            case OR: return bool(x.c.get(0)) || bool(x.c.get(1));
            case NOT: return !bool(x.c.get(0));
            case BOOL: return x.s.equalsIgnoreCase("true");
            case FLD: { Object v = field(x.s); if (!(v instanceof Boolean)) throw new Fail("not boolean"); return (Boolean) v; }
            case CMP: return cmp(x);
            case RANGE: {
                Object v = field(x.s);
                boolean lo = ord(">=", v, val(x.c.get(0)));
                try { return ord("<=", v, val(x.c.get(1))) && lo; } catch (Fail f) { if (lo) throw f; throw new Unspec("upper bound"); }
            }
            case IN: {
                Object v = field(x.s);
                if (type(v) == T.LIST) throw new Unspec("list in");
                boolean found = false;
                for (Object o : flatten(x.c)) if (eq(v, o)) { found = true; }
                return found != x.neg;
            }
            case ARR: {
                Object v = field(x.s);
                List<Object> items = flatten(x.c);
                if (items.stream().map(RefEval::type).distinct().count() > 1) throw new Fail("heterogeneous");
                if (type(v) != T.LIST) throw new Fail("not a list");
                List<?> l = v instanceof Object[] ? Arrays.asList((Object[]) v) : new ArrayList<>((Collection<?>) v);
                boolean any = false, all = true;
                for (Object o : items) { boolean has = false; for (Object e : l) if (e != null && elemEq(e, o)) has = true; any |= has; all &= has; }
                return x.neg ? all : any;
            }
            default: throw new Fail("not a condition: " + x.k);
        }
    }

    static boolean elemEq(Object e, Object o) {
        T a = type(e), b = type(o);
        if (a == T.LIST) throw new Unspec("nested list");
        if (a == b || num(a) && num(b)) return eq(e, o);
        if (a == T.STRING || b == T.STRING) return text(e).equals(text(o));
        if (a == T.BOOLEAN || b == T.BOOLEAN || num(a) && (b == T.DATE || b == T.DATETIME) || num(b) && (a == T.DATE || a == T.DATETIME)) return false;
        throw new Unspec("mixed element");
    }

    private boolean cmp(X x) {
        X l = x.c.get(0), r = x.c.get(1);
        boolean equality = x.s.equals("=") || x.s.equals("!=");
        if (equality && (isNullWord(l) || isNullWord(r))) {
            X o = isNullWord(l) ? r : l;
            boolean isNull;
            if (o.k == X.K.FLD) { String n = o.s == null ? def : o.s; if (n == null) throw new Fail("no default"); isNull = lookup(n, data) == null; } else { operand(o); isNull = false; }
            return x.s.equals("=") == isNull;
        }
        Object a = operand(l), b = operand(r);
        if (equality) return eq(a, b) == x.s.equals("=");
        return ord(x.s, a, b);
    }
    private Object operand(X x) { return x.isLogical() && x.k != X.K.BOOL ? (Object) bool(x) : val(x); }

    List<Object> flatten(List<X> items) {
        List<Object> out = new ArrayList<>();
        for (X i : items) {
            Object v = operand(i);
            if (v instanceof Collection) out.addAll((Collection<?>) v); else out.add(v);
        }
        return out;
    }

    // ---- arithmetic
    Object val(X x) {
        switch (x.k) {
            case INT: case DEC: case VER: case BOOL: case STR: case DATE: case DT: return Dump.litValue(x);
            case FLD: return field(x.s);
            case NEG: {
                Object v = val(x.c.get(0)); T t = type(v);
                if (t == T.APPROX) return new Approx(-((Approx) v).d);
                if (!num(t)) throw new Fail("negate " + t);
                return t == T.DECIMAL ? big(v).negate() : integer(big(v).toBigInteger().negate());
            }
            case ARI: return ari(x.s, val(x.c.get(0)), val(x.c.get(1)));
            case FUN: return fun(x.s, x.c);
            default: throw new Fail("not arithmetic: " + x.k);
        }
    }
    private Object integer(BigInteger i) { if (i.bitLength() > 63) mayFail = true; return i.bitLength() <= 31 ? (Object) i.intValue() : i.bitLength() <= 63 ? (Object) i.longValue() : i; }
    private static Object integral(BigDecimal d) {
        if (d.signum() == 0 || d.stripTrailingZeros().scale() <= 0) {
            BigInteger i = d.toBigInteger();
            if (i.bitLength() <= 31) return i.intValue();
            if (i.bitLength() <= 63) return i.longValue();
        }
        return d;
    }

    Object ari(String op, Object l, Object r) {
        T a = type(l), b = type(r);
        if (a == T.APPROX || b == T.APPROX) throw new Unspec("approx");
        if (l instanceof BigInteger || r instanceof BigInteger) mayFail = true;
        if (op.equals("+")) {
            boolean ca = a == T.STRING || a == T.BOOLEAN || a == T.VERSION, cb = b == T.STRING || b == T.BOOLEAN || b == T.VERSION;
            if (ca || cb) {
                if (!(ca || num(a)) || !(cb || num(b))) throw a == T.LIST || b == T.LIST ? new Unspec("list concat") : new Fail("concat date");
                return text(l) + text(r);
            }
        }
        if (a == T.LIST || b == T.LIST) throw new Unspec("list arithmetic");
        if (!num(a) || !num(b)) throw new Fail(a + op + b);
        boolean dec = a == T.DECIMAL || b == T.DECIMAL;
        BigDecimal x = big(l), y = big(r);
        switch (op) {
            case "+": return dec ? x.add(y) : integer(x.add(y).toBigInteger());
            case "-": return dec ? x.subtract(y) : integer(x.subtract(y).toBigInteger());
            case "*": return dec ? x.multiply(y) : integer(x.multiply(y).toBigInteger());
            case "/": if (y.signum() == 0) throw new Fail("division by zero"); return integral(x.divide(y, 3, RoundingMode.DOWN));
            case "%":
                if (dec) throw l instanceof BigDecimal && ((BigDecimal) l).stripTrailingZeros().scale() <= 0 || r instanceof BigDecimal && ((BigDecimal) r).stripTrailingZeros().scale() <= 0 ? new Unspec("decimal modulus") : new Fail("decimal modulus");
                if (y.signum() == 0) throw new Fail("modulus by zero");
                return integer(x.toBigInteger().remainder(y.toBigInteger()));
            default: {
                if (!dec && y.signum() >= 0) {
                    BigInteger p = x.toBigInteger();
                    if (p.abs().compareTo(BigInteger.ONE) <= 0) return y.signum() == 0 || p.signum() != 0 && !y.toBigInteger().testBit(0) ? 1 : p.intValue();
                    if (y.compareTo(BigDecimal.valueOf(64)) <= 0) {
                        BigInteger e = p.pow(y.intValueExact());
                        if (e.bitLength() <= 63) return integer(e);
                    }
                }
                double d = Math.pow(x.doubleValue(), y.doubleValue());
                if (x.signum() < 0 && y.precision() - y.scale() > 15) {
                    if (dec) throw new Unspec("parity of a decimal exponent beyond 2^53");
                    d = Math.copySign(d, y.toBigInteger().testBit(0) ? -1 : 1);
                }
                if (Double.isNaN(d) || Double.isInfinite(d)) throw new Fail("power");
                return new Approx(d);
            }
        }
    }

    Object fun(String name, List<X> args) {
        if (name.equals("LEN")) {
            List<Object> vs = new ArrayList<>();
            for (X a : args) vs.add(val(a));
            if (vs.size() == 1) {
                Object v = vs.get(0);
                if (v instanceof String) return ((String) v).length();
                if (v instanceof Collection) return ((Collection<?>) v).size();
                throw new Unspec("len of " + v.getClass());
            }
            int n = 0;
            for (Object v : vs) n += v instanceof Collection ? ((Collection<?>) v).size() : 1;
            return n;
        }
        List<Object> l = new ArrayList<>();
        for (X a : args) { Object v = val(a); if (v instanceof Collection) l.addAll((Collection<?>) v); else l.add(v); }
        if (l.isEmpty()) throw new Fail("empty");
        if (name.equals("DAYS_ELAPSED")) {
            if (l.size() > 1 || type(l.get(0)) != T.DATE) throw new Fail("one date");
            return ChronoUnit.DAYS.between(dateOf(l.get(0)), today);
        }
        boolean dec = false;
        List<BigDecimal> n = new ArrayList<>();
        for (Object v : l) {
            if (v == null) throw new Fail("null element");
            T t = type(v);
            if (t == T.APPROX) throw new Unspec("approx");
            if (v instanceof BigInteger) mayFail = true;
            if (!num(t)) throw new Fail(name + " of " + t);
            dec |= t == T.DECIMAL;
            n.add(big(v));
        }
        BigDecimal sum = BigDecimal.ZERO;
        for (BigDecimal d : n) sum = sum.add(d);
        switch (name) {
            case "MIN": { BigDecimal m = n.get(0); for (BigDecimal d : n) if (d.compareTo(m) < 0) m = d; return integral(m); }
            case "MAX": { BigDecimal m = n.get(0); for (BigDecimal d : n) if (d.compareTo(m) > 0) m = d; return integral(m); }
            case "SUM": if (!dec && partialOverflow(n)) mayFail = true; return dec ? integral(sum) : integer(sum.toBigInteger());
            case "AVG": case "MEAN": if (!dec && partialOverflow(n)) mayFail = true; return integral(sum.divide(BigDecimal.valueOf(n.size()), 3, RoundingMode.DOWN));
            case "MEDIAN": {
                BigDecimal[] s = n.toArray(new BigDecimal[0]);
                for (int i = 1; i < s.length; i++) for (int j = i; j > 0 && s[j].compareTo(s[j - 1]) < 0; j--) { BigDecimal t = s[j]; s[j] = s[j - 1]; s[j - 1] = t; }
                int h = s.length / 2;
                if (s.length % 2 == 1) return integral(s[h]);
                BigDecimal two = s[h].add(s[h - 1]);
                BigDecimal exact = two.multiply(new BigDecimal("0.5"));
                if (exact.stripTrailingZeros().scale() > 2) return new MedianTrunc(exact);
                return integral(exact);
            }
            case "MODE": {
                Map<BigDecimal, Integer> cnt = new HashMap<>();
                int best = 0;
                for (BigDecimal d : n) best = Math.max(best, cnt.merge(d.signum() == 0 ? BigDecimal.ZERO : d.stripTrailingZeros(), 1, Integer::sum));
                List<BigDecimal> modes = new ArrayList<>();
                for (Map.Entry<BigDecimal, Integer> e : cnt.entrySet()) if (e.getValue() == best) modes.add(e.getKey());
                if (modes.size() > 1) return new OneOf(modes);
                return dec && !(integral(modes.get(0)) instanceof BigDecimal) ? new OneOf(modes) : integral(modes.get(0));
            }
            case "INT": if (n.size() > 1) throw new Fail("one argument"); return integral(n.get(0).scale() > 0 ? n.get(0).setScale(0, RoundingMode.DOWN) : n.get(0));
            default: throw new IllegalStateException(name);
        }
    }
    private static boolean partialOverflow(List<BigDecimal> n) {
        BigInteger pos = BigInteger.ZERO, neg = BigInteger.ZERO;
        for (BigDecimal d : n) { BigInteger i = d.toBigInteger(); if (i.signum() > 0) pos = pos.add(i); else neg = neg.add(i); }
        return pos.bitLength() > 63 || neg.bitLength() > 63;
    }

    /** Any of several values is right (ties of MODE). */
    record OneOf(List<BigDecimal> any) {}
    /** An even median with more than two decimals: the exact middle, or it cut to at least two decimals. */
    record MedianTrunc(BigDecimal exact) {}
}
