package vf;

import java.math.BigDecimal;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;

/** Reference expression tree, independent of the library's node classes. */
final class X {
    enum K { INT, DEC, VER, BOOL, STR, DATE, DT, FLD, CMP, RANGE, IN, ARR, AND, OR, NOT, NEG, ARI, FUN }

    final K k;
    /** operator symbol, function name (upper case), field path, or literal text. FLD with null = blank (default field). */
    final String s;
    /** IN: negated? */
    final boolean neg;
    final List<X> c;

    X(K k, String s, boolean neg, List<X> c) { this.k = k; this.s = s; this.neg = neg; this.c = c; }

    static X lit(K k, String s) { return new X(k, s, false, List.of()); }
    static X i(long v) { return v >= 0 ? lit(K.INT, Long.toString(v)) : neg(lit(K.INT, Long.toString(v).substring(1))); }
    static X dec(BigDecimal v) {
        if (v.signum() < 0) return neg(dec(v.negate()));
        String t = v.toPlainString();
        return lit(K.DEC, t.indexOf('.') < 0 ? t + ".0" : t);
    }
    static X str(String s) { return lit(K.STR, s); }
    static X bool(boolean b) { return lit(K.BOOL, b ? "true" : "false"); }
    static X ver(String s) { return lit(K.VER, s); }
    static X fld(String s) { return lit(K.FLD, s); }
    static X cmp(String op, X l, X r) { return new X(K.CMP, op, false, List.of(l, r)); }
    static X range(String f, X lo, X hi) { return new X(K.RANGE, f, false, List.of(lo, hi)); }
    static X in(String f, boolean not, List<X> items) { return new X(K.IN, f, not, items); }
    static X any(String f, List<X> items) { return new X(K.ARR, f, false, items); }
    static X all(String f, List<X> items) { return new X(K.ARR, f, true, items); }
    static X and(X l, X r) { return new X(K.AND, null, false, List.of(l, r)); }
    static X or(X l, X r) { return new X(K.OR, null, false, List.of(l, r)); }
    static X not(X x) { return new X(K.NOT, null, false, List.of(x)); }
    static X neg(X x) { return new X(K.NEG, null, false, List.of(x)); }
    static X ari(String op, X l, X r) { return new X(K.ARI, op, false, List.of(l, r)); }
    static X fun(String n, List<X> items) { return new X(K.FUN, n, false, items); }
    static X fun(String n, X... items) { return new X(K.FUN, n, false, Arrays.asList(items)); }

    boolean isLit() { return k.ordinal() <= K.DT.ordinal(); }
    boolean isLogical() { return k == K.CMP || k == K.RANGE || k == K.IN || k == K.ARR || k == K.AND || k == K.OR || k == K.NOT || k == K.BOOL; }
    X with(List<X> nc) { return new X(k, s, neg, nc); }
    int size() { int n = 1; for (X x : c) n += x.size(); return n; }
    int depth() { int n = 0; for (X x : c) n = Math.max(n, x.depth()); return n + 1; }

    /** Candidate simplifications, for shrinking. */
    List<X> shrinks() {
        List<X> out = new ArrayList<>();
        for (X x : c) if (x.isLogical() == isLogical() || !isLogical()) out.add(x);
        if (k == K.IN || k == K.ARR || k == K.FUN) {
            if (c.size() > 4) { out.add(with(c.subList(0, c.size() / 2))); out.add(with(c.subList(c.size() / 2, c.size()))); }
            if (c.size() > 1) for (int i = 0; i < c.size(); i++) { List<X> n = new ArrayList<>(c); n.remove(i); out.add(with(n)); }
        }
        for (int i = 0; i < c.size(); i++) for (X y : c.get(i).shrinks()) { List<X> n = new ArrayList<>(c); n.set(i, y); out.add(with(n)); }
        return out;
    }

    @Override public String toString() { return Printer.canonical(this); }
}
