package vf;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collection;
import java.util.Collections;
import java.util.LinkedHashMap;
import java.util.LinkedHashSet;
import java.util.LinkedList;
import java.util.List;
import java.util.Map;
import java.util.SplittableRandom;
import org.apache.maven.artifact.versioning.ComparableVersion;

/** Typed, edge-heavy generator of expressions together with the data they are evaluated against. */
final class Gen {
    final SplittableRandom r;
    final Map<String, Object> data = new LinkedHashMap<>();
    private int serial;

    Gen(SplittableRandom r) { this.r = r; }

    int n(int bound) { return r.nextInt(bound); }
    boolean p(int percent) { return r.nextInt(100) < percent; }
    <T> T pick(List<T> l) { return l.get(n(l.size())); }
    @SafeVarargs final <T> T of(T... l) { return l[n(l.length)]; }

    // ---- field names
    private static final String[] STEMS = {"a", "b", "age", "A", "Age", "name", "x1", "_x", "value", "item_count", "android", "order", "notes", "inner", "total", "minimum", "maxPrice",
        "truth", "falsey", "summary", "avgs", "lend", "integer", "nullable", "And", "Or", "Not", "In", "To", "Min", "Sum", "True", "False", "Len", "containsAny", "1abc", "9z", "x_", "to_date", "is_not", "days", "p2p", "IN_", "e1"};
    private static final String[] SEGS = {"a", "b", "inner", "details", "age", "A", "x", "in", "not", "min", "null", "0", "7", "and", "true", "_"};

    String freshName() {
        String s = STEMS[n(STEMS.length)];
        if (n(150) == 0) s += "x".repeat(n(p(90) ? 80 : 600));
        return p(30) && !data.containsKey(s) ? s : s + "_" + (serial++);
    }
    /** Registers a value under a fresh simple or nested name and returns the path. */
    String put(Object v) {
        String top = freshName();
        int depth = p(70) ? 0 : p(93) ? 1 + n(3) : 4 + n(p(80) ? 6 : p(85) ? 30 : 150);
        if (depth == 0) { data.put(top, v); return top; }
        Map<String, Object> cur = new LinkedHashMap<>();
        StringBuilder path = new StringBuilder(top);
        data.put(top, cur);
        for (int i = 1; i <= depth; i++) {
            String seg = SEGS[n(SEGS.length)];
            path.append('.').append(seg);
            if (p(20)) cur.put("decoy", v);
            if (i == depth) cur.put(seg, v); else { Map<String, Object> next = new LinkedHashMap<>(); cur.put(seg, next); cur = next; }
        }
        return path.toString();
    }
    X field(Object v) { return X.fld(put(v)); }
    private static final String[] PARTS = {"size", "length", "len", "count", "empty", "isEmpty", "0", "1", "00", "first", "last", "get", "value", "values", "key", "keys", "keySet", "entries", "entrySet", "name", "ordinal", "class", "hashCode", "toString", "year", "month", "monthValue", "day", "dayOfMonth", "hour", "major", "minor", "intValue", "scale", "bytes", "chars", "present", "isPresent", "left", "right", "getA", "a1", "child", "type", "this", "self", "item", "items", "__proto__"};
    /** What a field of the data might also hold: any object at all. */
    enum Level { LOW, HIGH }
    public static final class Bean {
        public final int a1 = 1; public String name = "bean";
        public int getA() { return 2; } public int getSize() { return 3; } public int size() { return 4; } public String getName() { return name; } public boolean isEmpty() { return true; } public Object get(Object k) { return 5; } public Bean getChild() { return this; }
        @Override public String toString() { return "bean"; }
    }
    /** Dates whose text does not follow the default time zone, which some of the workloads change. */
    static final class Day extends java.util.Date { Day(long t) { super(t); } @Override public String toString() { return toInstant().toString(); } }
    static final class Stamp extends java.sql.Timestamp { Stamp(long t) { super(t); } @Override public String toString() { return toInstant().toString(); } }
    Object oddValue() {
        switch (n(34)) {
            case 0: return Double.NaN; case 1: return Float.NaN; case 2: return Double.NEGATIVE_INFINITY; case 3: return Float.POSITIVE_INFINITY; case 4: return of(-0.0, 0.0f, Double.MIN_VALUE);
            case 5: return java.util.Optional.empty(); case 6: return java.util.Optional.of(of((Object) 5, "x", true)); case 7: return java.util.OptionalInt.of(5); case 8: return of(java.util.OptionalDouble.empty(), java.util.OptionalLong.of(7));
            case 9: return (java.util.function.Supplier<Object>) () -> of(5, null); case 10: return (java.util.concurrent.Callable<Object>) () -> 5; case 11: return (java.util.function.Function<Object, Object>) k -> 5;
            case 12: return new Object(); case 13: return new Bean(); case 14: return of(Level.values());
            case 15: return new Object[0]; case 16: return of((Object) new int[0], new int[]{1}, new long[]{1, 2}, new String[]{"a"}, new double[]{0.5}, new boolean[]{true}, new byte[3], new char[]{'a'});
            case 17: return of('x', ' ', '\0', '5'); case 18: return of((Object) (byte) 0, (byte) 7, (short) 0, (short) 300);
            case 19: return new java.util.concurrent.atomic.AtomicInteger(n(3)); case 20: return new java.util.concurrent.atomic.AtomicReference<>(of("x", null)); case 21: return of((Object) new java.util.concurrent.atomic.AtomicBoolean(), new java.util.concurrent.atomic.AtomicLong(4));
            case 22: return new StringBuilder(of("", "x", "null")); case 23: return new StringBuffer("5"); case 24: return new Day(86_400_000L * n(20000)); case 25: return new Stamp(1_700_000_000_000L);
            case 26: return java.time.Instant.ofEpochSecond(n(1 << 30)); case 27: return of((Object) java.time.LocalTime.of(1, 2), java.time.Duration.ofDays(3), java.time.Year.of(2024), java.time.ZoneOffset.UTC, java.time.LocalDate.of(2024, 1, 1).atStartOfDay(java.time.ZoneOffset.UTC));
            case 28: return new java.lang.ref.WeakReference<>(of("x", null)); case 29: return java.util.concurrent.CompletableFuture.completedFuture(5); case 30: return new java.util.AbstractMap.SimpleEntry<>("a", 1);
            case 31: return of((Object) BigInteger.ONE, BigInteger.ONE.shiftLeft(70)); case 32: return java.util.UUID.fromString("00000000-0000-0001-0000-000000000002");
            default: return of((Object) new java.util.BitSet(), java.util.Locale.ROOT, Integer.class, new Exception("x"), List.of(1).iterator(), java.util.Currency.getInstance("EUR"));
        }
    }
    /** A path which resolves to nothing. */
    String missing() {
        String name = freshName();
        switch (n(9)) {
            case 7: case 8: { // into a value which is no map, by names it might be thought to have
                Object v = p(70) ? of((Object) List.of(1, 2), List.of(), List.of(Map.of("a", 1)), new ArrayList<>(List.of("x")), new LinkedHashSet<>(List.of(3)), new Object[]{1, 2}, new int[]{4}, "text", "", "12", 5, 5L, 2.5, true, LocalDate.of(2024, 2, 3), LocalDate.of(2024, 2, 3).atTime(4, 5, 6), new ComparableVersion("1.2.3")) : oddValue();
                if (p(25)) { Map<String, Object> m = new LinkedHashMap<>(); m.put("in", v); data.put(name, m); name += ".in"; } else if (p(12)) { data.put(name, of(Map.of(), Map.of("a", 1))); } else data.put(name, v);
                return name + "." + of(PARTS) + (p(12) ? "." + of(PARTS) : "");
            }
            case 6: { data.put(name, p(50) ? new java.util.TreeMap<>(Map.of(1, "x")) : p(50) ? new java.util.concurrent.ConcurrentSkipListMap<>(Map.of(java.util.UUID.fromString("00000000-0000-0001-0000-000000000002"), 1)) : Map.of(true, 1, 'a', 2)); return name + of(".a", ".1", ".a.b"); }
            case 5: return put(1) + "x";
            case 0: { data.put(name, new LinkedHashMap<>(Map.of("a", 1))); return name + "." + of("b", "A", "a.b"); }
            case 1: data.put(name, n(100)); return name + ".a";
            case 2: data.put(name, null); return name;
            case 3: { Map<String, Object> m = new LinkedHashMap<>(); m.put("a", null); data.put(name, m); return name + of(".a", ".a.b"); }
            default: return name + "_absent" + (p(20) ? ".a" : "");
        }
    }

    // ---- numbers
    static final BigInteger[] EDGES;
    static {
        List<BigInteger> l = new ArrayList<>();
        for (int e : new int[]{7, 15, 16, 24, 31, 32, 53, 62, 63}) for (int d = -2; d <= 2; d++) { BigInteger b = BigInteger.ONE.shiftLeft(e).add(BigInteger.valueOf(d)); l.add(b); l.add(b.negate()); }
        for (int e = 1; e <= 18; e++) for (int d = -1; d <= 1; d++) l.add(BigInteger.TEN.pow(e).add(BigInteger.valueOf(d)));
        l.removeIf(b -> b.bitLength() > 63);
        EDGES = l.toArray(new BigInteger[0]);
    }
    BigInteger integer() {
        switch (n(8)) {
            case 0: case 1: case 2: return BigInteger.valueOf(n(9) - 4);
            case 3: return BigInteger.valueOf(n(2001) - 1000);
            case 4: case 5: return EDGES[n(EDGES.length)];
            case 6: return BigInteger.valueOf(r.nextInt());
            default: return BigInteger.valueOf(r.nextLong() >> n(63));
        }
    }
    /** Operands at the ends of the int and long ranges and their usual partners. */
    Object extreme() { return of((Object) Integer.MIN_VALUE, Integer.MAX_VALUE, Long.MIN_VALUE, Long.MAX_VALUE, -1, 1, -1L, 1L, 2, -2, 2L, -2L, 0, 0L, Integer.MIN_VALUE + 1, Long.MIN_VALUE + 1, Long.MAX_VALUE - 1, (long) Integer.MIN_VALUE, (long) Integer.MIN_VALUE - 1, (long) Integer.MAX_VALUE + 1, 46341, 65536, 3037000500L, 4294967296L); }
    long int32() { switch (n(4)) { case 0: case 1: return n(41) - 20; case 2: return n(20001) - 10000; default: return r.nextInt(); } }
    /** Any finite double, as its shortest decimal. */
    private BigDecimal anyDouble() {
        double d = p(70) ? Double.longBitsToDouble(r.nextLong()) : p(50) ? of(Double.MAX_VALUE, Double.MIN_VALUE, Double.MIN_NORMAL, Math.nextDown(Double.MAX_VALUE), (double) Float.MAX_VALUE, 1e22, 1e23, 9007199254740993.0, 1e-5, 1e7, 1e-3) : Float.intBitsToFloat(r.nextInt());
        return Double.isFinite(d) ? new BigDecimal(Double.toString(p(50) ? d : -d)) : BigDecimal.ONE;
    }
    BigDecimal decimal() {
        switch (n(40) == 0 ? 7 : n(7)) {
            case 7: return anyDouble();
            case 0: return BigDecimal.valueOf(n(4001) - 2000, 1 + n(3));
            case 1: return BigDecimal.valueOf(r.nextLong(), 1 + n(25));
            case 2: return new BigDecimal(EDGES[n(EDGES.length)]).add(BigDecimal.valueOf(n(3) - 1, 1 + n(20)));
            case 3: return BigDecimal.valueOf(1 + n(20), 15 + n(15));
            case 4: return new BigDecimal(new BigInteger(80 + n(60), new java.util.Random(r.nextLong())), n(30)).multiply(BigDecimal.valueOf(p(50) ? 1 : -1));
            case 5: return BigDecimal.valueOf(n(200) - 100, 1).setScale(1 + n(4));
            default: return new BigDecimal(Double.toString(r.nextInt() / 8.0));
        }
    }
    BigDecimal number() { return p(60) ? new BigDecimal(integer()) : decimal(); }
    /** A number close to or equal to v: the same value, a neighbour at some scale, or one which collides after rounding. */
    BigDecimal near(BigDecimal v) {
        switch (n(7)) {
            case 0: case 1: return v;
            case 2: return v.add(BigDecimal.valueOf(of(-1, 1)));
            case 3: return v.add(BigDecimal.valueOf(of(-1, 1), 1 + n(20)));
            case 4: return v.negate();
            case 5: return v.add(BigDecimal.valueOf(of(-1, 1)).scaleByPowerOfTen(n(19)));
            default: return v.add(new BigDecimal(BigInteger.ONE.shiftLeft(n(40))));
        }
    }

    static boolean integral(BigDecimal v) { return v.signum() == 0 || v.stripTrailingZeros().scale() <= 0; }
    static boolean fitsInt(BigDecimal v) { return integral(v) && v.toBigInteger().bitLength() <= 31; }
    static boolean fitsLong(BigDecimal v) { return integral(v) && v.toBigInteger().bitLength() <= 63; }

    /** A Java value holding exactly v, in one of the numeric classes. */
    Object numValue(BigDecimal v) {
        List<Object> c = new ArrayList<>();
        if (fitsInt(v)) { c.add(v.intValueExact()); c.add(v.intValueExact()); }
        if (fitsLong(v)) c.add(v.longValueExact());
        double d = v.doubleValue();
        if (!Double.isInfinite(d) && new BigDecimal(Double.toString(d)).compareTo(v) == 0) c.add(d);
        float f = v.floatValue();
        if (!Float.isInfinite(f) && new BigDecimal(Float.toString(f)).compareTo(v) == 0) c.add(f);
        c.add(p(50) ? v : v.setScale(Math.max(0, v.scale()) + n(4)));
        if (p(10)) c.add(v.stripTrailingZeros());
        if (v.signum() == 0 && p(30)) { c.add(-0.0); c.add(-0.0f); }
        return pick(c);
    }
    /** A literal denoting exactly v, or null when there is none. */
    X numLit(BigDecimal v) {
        if (v.signum() < 0) { X x = numLit(v.negate()); return x == null ? null : X.neg(x); }
        if (fitsLong(v) && p(80)) return X.lit(X.K.INT, (p(5) ? "00" : "") + v.toBigInteger());
        BigDecimal s = v.scale() <= 0 ? v.setScale(1) : v;
        if (p(20)) s = s.setScale(s.scale() + 1 + n(3));
        if (s.precision() > 200) return null;
        return X.lit(X.K.DEC, (p(3) ? "0" : "") + s.toPlainString());
    }
    /** An operand denoting exactly v: literal, field, or a small computation. */
    X num(BigDecimal v) {
        int k = n(10);
        if (k < 4) { X x = numLit(v); if (x != null) return x; }
        if (k == 9 && fitsLong(v) && v.toBigInteger().bitLength() < 60) {
            long a = v.longValueExact(), b = r.nextLong(-1000000, 1000000);
            switch (n(4)) {
                case 0: return X.ari("+", num(BigDecimal.valueOf(a - b)), num(BigDecimal.valueOf(b)));
                case 1: return X.ari("-", num(BigDecimal.valueOf(a + b)), num(BigDecimal.valueOf(b)));
                case 2: return X.fun("MAX", num(BigDecimal.valueOf(a)), num(BigDecimal.valueOf(a - Math.abs(b))));
                default: return X.neg(num(BigDecimal.valueOf(-a)));
            }
        }
        return field(numValue(v));
    }
    X num() { return num(number()); }
    X smallNum() { return num(BigDecimal.valueOf(n(21) - 10)); }

    static final String[] CMPS = {"=", "!=", ">", ">=", "<", "<="};
    static final String[] ORDS = {">", ">=", "<", "<="};
    String cmpOp() { return CMPS[n(6)]; }

    // ---- strings
    private static final String[] WORDS = {"", "a", "b", "A", "ab", "aB", "abc", "John", "john", "active", "pending", "sale", "new", "AND", "or", "null", "true", "'", "\"", "it's", "say \"x\"", " ", " a", "a ", "\t", "a\nb",
        "(", ")", "a = 1", "5", "5.0", "05", "1.2.3", "-", "\\", "\\n", "%s", "é", "e\u0301", "ß", "ÿ", "\u00e0", "中文", "\uD83D\uDE00", "\uD83D", "\uFFFF", "\u0000", "İ", "ı", "zz", "zzz", "2024-13-01", "2023-02-29", "NaN", "Infinity", "$", "a,b", "a.b",
        // texts which are nearly dates, and texts which other notations would decode
        "2024-01-01 10:00", "2024-01-01T10:00:00", "2024-1-1", "20240101", "01.02.2024", "01/02/2024", "10:00:00", "2024-01-01Z", "2024-01-01 ", "2024-01", "2024-W01-1", "2024-001", "2024-01-01 10:00:00.5", "+2024-01-01", "Jan 1, 2024"};
    private static final String[] CODES = {"&quot;", "&amp;", "&lt;", "&#39;", "&apos;", "&nbsp;", "%20", "%27", "%%", "%n", "${a}", "#{a}", "{{a}}", "{0}", "\\u0041", "\\x41", "\\t", "\\r\\n", "\\\\", "\\0", "''", "\"\"", "+", "<b>", "<!--", "/*", "//", "--", "#", "`", "~", "^", "\r", "\r\n", "\u2028", "\u0085", "\ufeff", "\u200b", "\u00ad", "\u2019", "\u201c", "\uff07", "null", "=3D", "$1", "\\1"};
    private static final String ALPHA = "abcxyzABC019 _-.,'()=<>&|!\u00e9\u4e2d\u0001\u00ff";
    String anyString() {
        if (p(60)) return WORDS[n(WORDS.length)];
        if (n(12) == 0) return encoded();
        int len = p(90) ? n(12) : p(97) ? 50 + n(400) : of(1000, 4096, 4097, 8193, 20000, 66000) + n(3);
        StringBuilder b = new StringBuilder();
        boolean plain = p(30);
        for (int i = 0; i < len; i++) b.append(plain ? (char) ('a' + n(26)) : ALPHA.charAt(n(ALPHA.length())));
        return b.toString();
    }
    String encoded() {
        StringBuilder b = new StringBuilder();
        for (int k = 1 + n(3); k > 0; k--) b.append(of("", "", "a", "x y", " ", "ab", "1")).append(CODES[n(CODES.length)]).append(of("", "b", "41", " "));
        return b.toString();
    }
    /** A string the comparison rules treat as plain text: not a date. */
    String text() { while (true) { String s = anyString(); if (RefEval.type(s) == RefEval.T.STRING) return s; } }
    static boolean quotable(String s) { return s.indexOf('\'') < 0 || s.indexOf('"') < 0; }
    String quotableText() { while (true) { String s = text(); if (quotable(s)) return s; } }
    /** Text which spells v, or nearly does. */
    String spelling(BigDecimal v) {
        String s = v.toPlainString(), a = v.abs().toPlainString(), sign = v.signum() < 0 ? "-" : "";
        switch (n(13)) {
            case 0: return v.signum() >= 0 ? "+" + s : "-0" + a;
            case 1: return sign + "000" + a;
            case 2: return s + (s.indexOf('.') < 0 ? ".0" : "0") + "0".repeat(n(4));
            case 3: return v.scaleByPowerOfTen(-2).toPlainString() + of("E2", "e2", "E+2", "e02");
            case 4: return v.stripTrailingZeros().toString();
            case 5: return s.indexOf('.') < 0 ? s + "." : a.startsWith("0.") ? sign + a.substring(1) : s + "e0";
            case 6: return of(" ", "\t", "\u00a0", "") + s + of(" ", "\n", "\u2003", "");
            case 7: return s + of("L", "d", "f", "D", "%", "_0", ",0", "e", "-", " 0", "x", "\u0000");
            case 8: return of("0x", "#", "$", "--", "++", "~", "'", "(", "_", "\u2212") + s;
            case 9: { StringBuilder b = new StringBuilder(); int z = of(0x660, 0x966, 0xff10); for (char c : s.toCharArray()) b.append(c >= '0' && c <= '9' ? (char) (z + c - '0') : c); return b.toString(); }
            default: return s;
        }
    }
    String nearText(String s) {
        String t;
        switch (n(7)) {
            case 0: case 1: t = s; break;
            case 2: t = s + of("a", " ", "0", "\u0000"); break;
            case 3: t = s.isEmpty() ? "x" : s.substring(0, s.length() - 1); break;
            case 4: t = p(50) ? s.toUpperCase(java.util.Locale.ROOT) : s.toLowerCase(java.util.Locale.ROOT); break;
            case 5: { if (s.isEmpty()) { t = " "; break; } int i = n(s.length()); t = s.substring(0, i) + (char) (s.charAt(i) + of(-1, 1)) + s.substring(i + 1); break; }
            default: t = text();
        }
        return RefEval.type(t) == RefEval.T.STRING ? t : s;
    }
    X strOperand(String s) { return quotable(s) && p(50) ? X.str(s) : field(s); }

    // ---- versions
    String version(int minComponents) {
        int k = Math.max(minComponents, 1) + (n(25) > 0 ? n(4) : p(80) ? n(20) : n(120));
        boolean wide = n(25) == 0;
        StringBuilder b = new StringBuilder();
        for (int i = 0; i < k; i++) {
            if (i > 0) b.append('.');
            int q = n(20);
            b.append(q < 12 ? "" + n(4) : q < 17 ? "" + of(9, 10, 11, 19, 99, 100, 101) : q < 18 ? "" + (wide ? new BigInteger(20 + n(200), new java.util.Random(r.nextLong())) : of(2147483647L, 2147483648L, 4294967296L, 9999999999L)) : q < 19 ? "0" + n(12) : "" + n(1000));
        }
        return b.toString();
    }
    String nearVersion(String v, int minComponents) {
        List<String> c = new ArrayList<>(Arrays.asList(v.split("\\.")));
        switch (n(6)) {
            case 0: break;
            case 1: c.add(p(60) ? "0" : "1"); if (p(30)) c.add("0"); break;
            case 2: if (c.size() > minComponents) c.remove(c.size() - 1); break;
            case 3: { int i = n(c.size()); c.set(i, new BigInteger(c.get(i)).add(BigInteger.ONE).toString()); break; }
            case 4: { int i = n(c.size()); c.set(i, c.get(i) + of("0", "1", "9")); break; }
            default: return version(minComponents);
        }
        return String.join(".", c);
    }

    // ---- dates
    LocalDate date() {
        switch (n(5)) {
            case 0: return LocalDate.of(of(1600, 1900, 1999, 2000, 2023, 2024, 2100, 4, 9999, 1582, 1, 0), 2, 28).plusDays(n(3));
            case 1: return LocalDate.of(n(10000), 1 + n(12), 1 + n(28));
            case 2: return LocalDate.of(2020 + n(6), of(1, 12), of(1, 31));
            case 3: return LocalDate.of(2024, 1 + n(12), 1).plusMonths(1).minusDays(1);
            default: return LocalDate.of(2023, 12, 25).plusDays(n(60) - 30);
        }
    }
    LocalDate nearDate(LocalDate d) {
        LocalDate e;
        switch (n(6)) {
            case 0: case 1: e = d; break;
            case 2: e = d.plusDays(of(-1, 1)); break;
            case 3: e = d.plusMonths(of(-1, 1)); break;
            case 4: e = d.plusYears(of(-1, 1)); break;
            default: e = date();
        }
        return e.getYear() < 0 || e.getYear() > 9999 ? d : e;
    }
    LocalDateTime dateTime() {
        LocalDate d = date();
        switch (n(4)) {
            case 0: return d.atTime(0, 0, 0);
            case 1: return d.atTime(23, 59, 59);
            case 2: return d.atTime(of(0, 11, 12, 13, 23), of(0, 1, 59), of(0, 1, 59));
            default: return d.atTime(n(24), n(60), n(60));
        }
    }
    LocalDateTime nearDateTime(LocalDateTime d) {
        LocalDateTime e;
        switch (n(7)) {
            case 0: case 1: e = d; break;
            case 2: e = d.plusSeconds(of(-1, 1)); break;
            case 3: e = d.plusMinutes(of(-1, 1)); break;
            case 4: e = d.plusHours(of(-12, -1, 1, 12)); break;
            case 5: e = nearDate(d.toLocalDate()).atTime(d.toLocalTime()); break;
            default: e = dateTime();
        }
        return e.getYear() < 0 || e.getYear() > 9999 ? d : e;
    }
    static String fmt(LocalDate d) { return String.format(java.util.Locale.ROOT, "%04d-%02d-%02d", d.getYear(), d.getMonthValue(), d.getDayOfMonth()); }
    static String fmt(LocalDateTime d) { return fmt(d.toLocalDate()) + String.format(java.util.Locale.ROOT, " %02d:%02d:%02d", d.getHour(), d.getMinute(), d.getSecond()); }
    X dateOperand(LocalDate d) { switch (n(4)) { case 0: case 1: return X.lit(X.K.DATE, fmt(d)); case 2: return field(fmt(d)); default: return field(d); } }
    X dtOperand(LocalDateTime d) { switch (n(4)) { case 0: case 1: return X.lit(X.K.DT, fmt(d)); case 2: return field(fmt(d)); default: return field(d); } }

    // ---- lists
    Object container(List<?> l) {
        boolean hasNull = l.contains(null);
        switch (n(hasNull ? 4 : 7)) {
            case 0: case 1: return new ArrayList<>(l);
            case 2: return new LinkedList<>(l);
            case 3: return Collections.unmodifiableList(new ArrayList<>(l));
            case 4: return List.copyOf(l);
            case 5: return l.toArray();
            default: return new LinkedHashSet<>(l);
        }
    }
    Collection<?> listContainer(List<?> l) {
        switch (n(4)) {
            case 0: return new LinkedList<>(l);
            case 1: return Collections.unmodifiableList(new ArrayList<>(l));
            case 2: return new java.util.ArrayDeque<>(l);
            default: return new ArrayList<>(l);
        }
    }
    /** A Java value holding exactly v in the given class (0-4: Integer, Long, Double, BigDecimal, Float) if that can hold it, otherwise in any. */
    Object numValue(BigDecimal v, int cls) {
        double d = v.doubleValue(); float f = v.floatValue();
        if (cls == 0 && fitsInt(v)) return v.intValueExact();
        if (cls == 1 && fitsLong(v)) return v.longValueExact();
        if (cls == 2 && !Double.isInfinite(d) && new BigDecimal(Double.toString(d)).compareTo(v) == 0) return d;
        if (cls == 3) return v;
        if (cls == 4 && !Float.isInfinite(f) && new BigDecimal(Float.toString(f)).compareTo(v) == 0) return f;
        return numValue(v);
    }
    /** Containers of any kind, some of which have their own idea of order and equality. The content may shrink. */
    Object anyContainer(List<?> l) {
        if (p(40)) return container(l);
        if (l.contains(null)) switch (n(9)) {
            case 0: case 1: return l.toArray();
            case 2: if (l.stream().allMatch(o -> o == null || o instanceof String)) return l.toArray(new String[0]);
            case 3: return new LinkedHashSet<>(l);
            case 4: return new java.util.HashSet<>(l);
            case 5: return new java.util.Vector<>(l);
            case 6: return new java.util.concurrent.CopyOnWriteArrayList<>(l);
            case 7: { Map<Integer, Object> m = new java.util.HashMap<>(); int i = 0; for (Object o : l) m.put(i++, o); return m.values(); }
            default: return Collections.synchronizedList(new ArrayList<>(l));
        }
        boolean text = l.stream().allMatch(o -> o instanceof String), same = l.stream().map(Object::getClass).distinct().count() <= 1 && (l.isEmpty() || l.get(0) instanceof Comparable);
        switch (n(14)) {
            case 0: case 1: if (text) { java.util.TreeSet<String> s = new java.util.TreeSet<>(p(50) ? String.CASE_INSENSITIVE_ORDER : java.util.Comparator.comparing(String::length)); for (Object o : l) s.add((String) o); return s; }
            case 2: if (same) return new java.util.TreeSet<Object>(l);
            case 3: { java.util.TreeSet<Object> s = new java.util.TreeSet<>((x, y) -> Integer.compare(System.identityHashCode(x), System.identityHashCode(y))); s.addAll(l); return s; }
            case 4: { java.util.Set<Object> s = Collections.newSetFromMap(new java.util.IdentityHashMap<>()); s.addAll(l); return s; }
            case 5: return new java.util.ArrayDeque<>(l);
            case 6: return Collections.unmodifiableCollection(new ArrayList<>(l));
            case 7: return new java.util.concurrent.CopyOnWriteArrayList<>(l);
            case 8: return new java.util.Vector<>(l);
            case 9: return new java.util.HashSet<>(l);
            case 10: { Map<Integer, Object> m = new java.util.TreeMap<>(); int i = 0; for (Object o : l) m.put(i++, o); return m.values(); }
            case 11: { Map<Object, Integer> m = new java.util.HashMap<>(); for (Object o : l) m.put(o, 1); return m.keySet(); }
            case 12: if (text) return l.toArray(new String[0]);
            default: { List<Object> c = new ArrayList<>(l); return new java.util.AbstractCollection<Object>() { @Override public java.util.Iterator<Object> iterator() { return Collections.unmodifiableList(c).iterator(); } @Override public int size() { return c.size(); } }; }
        }
    }
    /** Now and then beyond any threshold at which an implementation might change its method. */
    int bigListSize() { return n(150) == 0 ? p(75) ? 1000 + n(2500) : 3500 + n(5500) : listSize(); }
    /** Lists in the data, which cost little, now and then beyond what 16 bits can count. */
    int dataListSize() { return n(200) == 0 ? 30000 + n(80000) : bigListSize(); }
    int listSize() { int k = n(20); return k < 12 ? 1 + n(4) : k < 18 ? 1 + n(12) : k < 19 ? 30 + n(60) : 200 + n(300); }

    // ---- conditions of every kind, all of which evaluate (unless the library is wrong)
    X cmpNum() { BigDecimal v = number(); return X.cmp(cmpOp(), num(v), num(near(v))); }
    X cmpStr() { String s = text(); return X.cmp(cmpOp(), strOperand(s), strOperand(nearText(s))); }
    /** An operand which is a truth value: literal, field or a condition. */
    X truth() {
        switch (n(10)) {
            case 0: return boolLeaf();
            case 1: return X.cmp(cmpOp(), smallNum(), field(n(9)));
            case 2: return cmpStr();
            case 3: return X.not(field(p(50)));
            case 4: return p(50) ? X.and(field(p(50)), field(p(50))) : X.or(X.bool(p(50)), cmpNum());
            case 5: return p(50) ? range() : X.in(put(n(4)), p(50), List.of(X.i(n(4)), X.i(n(4))));
            case 6: return X.bool(p(50));
            default: return field(p(50));
        }
    }
    X cmpTruth() { return X.cmp(of("=", "!="), truth(), truth()); }
    X cmpBool() { return X.cmp(of("=", "!="), p(50) ? field(p(50)) : X.bool(p(50)), p(50) ? field(p(50)) : X.bool(p(50))); }
    X verOperand(String v) { return v.split("\\.").length >= 3 && p(60) ? X.ver(v) : field(new ComparableVersion(v)); }
    X cmpVer() {
        String a = version(3), b = nearVersion(a, 3);
        if (p(30)) return p(50) ? X.cmp(of(ORDS), field(a), X.ver(b)) : X.cmp(of(ORDS), X.ver(a), field(b));
        return X.cmp(cmpOp(), verOperand(a), verOperand(b));
    }
    X cmpDate() { LocalDate d = date(); return X.cmp(cmpOp(), dateOperand(d), dateOperand(nearDate(d))); }
    X cmpDt() { LocalDateTime d = dateTime(); return X.cmp(cmpOp(), dtOperand(d), dtOperand(nearDateTime(d))); }
    X range() {
        BigDecimal v = number(), lo = near(v).abs(), hi = near(v).abs();
        if (p(50) && lo.compareTo(hi) > 0) { BigDecimal t = lo; lo = hi; hi = t; }
        X l = numLit(lo), h = numLit(hi);
        if (l == null || h == null) return X.range(put(numValue(v)), X.i(1), X.i(5));
        return X.range(put(numValue(v)), l, h);
    }
    X in() {
        int k = listSize();
        List<X> items = new ArrayList<>();
        boolean numeric = p(50);
        BigDecimal v = number(); String s = text();
        for (int i = 0; i < k; i++) items.add(numeric ? litOrNum(near(near(v))) : quoteOr(nearText(nearText(s))));
        return X.in(numeric ? put(numValue(v)) : put(s), p(40), items);
    }
    private X litOrNum(BigDecimal v) { X x = p(75) ? numLit(v) : null; return x != null ? x : X.ari("+", num(v), X.i(0)); }
    X quoteOr(String s) { return quotable(s) ? X.str(s) : X.str("q"); }
    X arr() {
        boolean numeric = p(50);
        List<X> items = new ArrayList<>(); List<Object> l = new ArrayList<>();
        int k = 1 + n(4), m = n(7);
        if (numeric) {
            for (int i = 0; i < k; i++) items.add(X.lit(X.K.INT, "" + n(8)));
            for (int i = 0; i < m; i++) l.add(numValue(BigDecimal.valueOf(n(8))));
        } else {
            for (int i = 0; i < k; i++) items.add(X.str("s" + n(6)));
            for (int i = 0; i < m; i++) l.add("s" + n(6));
        }
        if (p(8)) l.add(n(l.size() + 1), null);
        String f = put(container(l));
        return p(50) ? X.any(f, items) : X.all(f, items);
    }
    X nullCheck() {
        X o = p(50) ? X.fld(missing()) : field(of(0, "", "null", false, "x"));
        X nul = X.fld(of("null", "NULL", "Null"));
        return p(70) ? X.cmp(of("=", "!="), o, nul) : X.cmp(of("=", "!="), nul, o);
    }
    X boolLeaf() { return p(50) ? X.bool(p(50)) : field(p(50)); }
    X cond() {
        switch (n(14)) {
            case 0: case 1: case 2: return cmpNum();
            case 3: case 4: return cmpStr();
            case 5: return p(50) ? cmpBool() : cmpTruth();
            case 6: return cmpVer();
            case 7: return cmpDate();
            case 8: return cmpDt();
            case 9: return range();
            case 10: return in();
            case 11: return arr();
            case 12: return nullCheck();
            default: return boolLeaf();
        }
    }
    /** A random combination of the given number of leaves. */
    X combine(int leaves, java.util.function.Supplier<X> leaf) {
        if (leaves <= 1) { X x = leaf.get(); return p(15) ? X.not(x) : x; }
        int left = p(40) ? 1 : p(50) ? leaves - 1 : 1 + n(leaves - 1);
        X l = combine(left, leaf), rr = combine(leaves - left, leaf);
        X x = p(50) ? X.and(l, rr) : X.or(l, rr);
        return p(15) ? X.not(x) : x;
    }
    int leaves() { int k = n(100); return k < 70 ? 1 + n(6) : k < 95 ? 6 + n(20) : p(93) ? 30 + n(120) : 150 + n(450); }

    // ---- arithmetic
    static final String[] ARIS = {"+", "-", "*", "/", "%", "^"};
    X ariLeaf(boolean wide) {
        BigDecimal v = wide ? number() : BigDecimal.valueOf(int32());
        if (!wide && p(25)) v = BigDecimal.valueOf(n(20001) - 10000, 1 + n(3));
        return num(v);
    }
    X arith(int ops, boolean wide) {
        if (ops <= 0) return ariLeaf(wide);
        int k = n(20);
        if (k < 2) return X.neg(arith(ops - 1, wide));
        if (k < 4) return fun(ops - 1, wide);
        int left = n(ops);
        String op = ARIS[n(10) < 9 ? n(5) : 5];
        if (op.equals("^")) return X.ari("^", num(BigDecimal.valueOf(n(9) - 4)), p(90) ? X.i(n(8)) : smallNum());
        return X.ari(op, arith(left, wide), arith(ops - 1 - left, wide));
    }
    static final String[] AGGS = {"MIN", "MAX", "SUM", "AVG", "MEAN", "MEDIAN", "MODE"};
    X fun(int ops, boolean wide) {
        if (p(15)) return X.fun("INT", arith(ops, wide));
        if (p(10)) return X.fun("LEN", X.str("abc" + n(100)));
        int k = 1 + n(4);
        List<X> a = new ArrayList<>();
        for (int i = 0; i < k; i++) a.add(arith(i == 0 ? ops : n(2), wide));
        return X.fun(AGGS[n(AGGS.length)], a);
    }

    // ---- describing data in reports
    static String show(Object o) {
        if (o == null) return "null";
        if (o instanceof Map) { StringBuilder b = new StringBuilder("{"); ((Map<?, ?>) o).forEach((k, v) -> b.append(b.length() > 1 ? ", " : "").append(k).append("=").append(show(v))); return b.append("}").toString(); }
        if (o instanceof Object[]) return "Object" + show(Arrays.asList((Object[]) o));
        if (o instanceof Collection) { StringBuilder b = new StringBuilder(o instanceof List ? "[" : o.getClass().getSimpleName() + "["); int i = 0; for (Object v : (Collection<?>) o) { if (i++ > 0) b.append(", "); if (i > 60) { b.append("…").append(((Collection<?>) o).size()); break; } b.append(show(v)); } return b.append("]").toString(); }
        if (o instanceof String) return quote((String) o);
        if (o instanceof Integer || o instanceof Boolean) return o.toString();
        return o.getClass().getSimpleName() + "(" + o + ")";
    }
    static String quote(String s) {
        StringBuilder b = new StringBuilder("\"");
        for (int i = 0; i < s.length(); i++) {
            char c = s.charAt(i);
            if (c == '"' || c == '\\') b.append('\\').append(c); else if (c == '\n') b.append("\\n"); else if (c < 32 || c > 126) b.append(String.format(java.util.Locale.ROOT, "\\u%04x", (int) c)); else b.append(c);
            if (b.length() > 3000) { b.append("…(").append(s.length()).append(" chars)"); break; }
        }
        return b.append('"').toString();
    }
}
