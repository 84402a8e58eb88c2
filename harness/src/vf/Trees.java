package vf;

import java.math.BigDecimal;
import java.util.ArrayList;
import java.util.List;
import java.util.SplittableRandom;

/** Syntactically valid trees of any shape, typed or not, and damaged texts. */
final class Trees {
    static X any(Gen g, int depth) {
        if (depth <= 0 || g.p(12)) return leaf(g);
        switch (g.n(14)) {
            case 0: case 1: return X.cmp(g.cmpOp(), any(g, depth - 1), any(g, depth - 1));
            case 2: case 3: return X.and(any(g, depth - 1), any(g, depth - 1));
            case 4: return X.or(any(g, depth - 1), any(g, depth - 1));
            case 5: return X.not(any(g, depth - 1));
            case 6: return X.neg(any(g, depth - 1));
            case 7: case 8: case 9: return X.ari(g.of(Gen.ARIS), any(g, depth - 1), any(g, depth - 1));
            case 10: return X.fun(g.of("MIN", "MAX", "SUM", "AVG", "MEAN", "MEDIAN", "MODE", "LEN", "INT", "DAYS_ELAPSED"), items(g, depth));
            case 11: return X.in(name(g), g.p(40), items(g, depth));
            case 12: return g.p(50) ? X.any(name(g), items(g, depth)) : X.all(name(g), items(g, depth));
            default: return X.range(name(g), numLeaf(g), numLeaf(g));
        }
    }
    static List<X> items(Gen g, int depth) {
        int k = g.p(95) ? 1 + g.n(4) : 10 + g.n(60);
        List<X> l = new ArrayList<>();
        for (int i = 0; i < k; i++) l.add(g.p(60) ? leaf(g) : any(g, depth - 2));
        return l;
    }
    static String name(Gen g) { String s = g.freshName(); return g.p(25) ? s + "." + g.of("a", "b.c", "age", "0.x", "in", "not") : s; }
    static X numLeaf(Gen g) { X x = g.numLit(g.number().abs()); return x == null || x.k == X.K.NEG ? X.i(3) : x; }
    static X leaf(Gen g) {
        switch (g.n(12)) {
            case 0: case 1: return X.lit(X.K.INT, new BigDecimal(g.integer().abs().min(java.math.BigInteger.valueOf(Long.MAX_VALUE))).toPlainString());
            case 2: { X x = numLeaf(g); return x; }
            case 3: return X.ver(g.version(3));
            case 4: return X.bool(g.p(50));
            case 5: { String s = g.anyString(); return X.str(Gen.quotable(s) ? s : "q"); }
            case 6: return X.lit(X.K.DATE, Gen.fmt(g.date()));
            case 7: return X.lit(X.K.DT, Gen.fmt(g.dateTime()));
            default: return X.fld(g.p(5) ? g.of("null", "NULL") : name(g));
        }
    }
    /** Long chains and deep nests, which stay within what the parser can hold. */
    static X tall(Gen g) {
        int n = 10 + g.n(g.p(92) ? 120 : 500);
        X x = g.p(50) ? leaf(g) : any(g, 2);
        int style = g.n(7);
        for (int i = 0; i < n; i++) {
            switch (style) {
                case 0: x = X.and(x, any(g, 1)); break;
                case 1: x = X.or(any(g, 1), x); break;
                case 2: x = X.ari(g.of(Gen.ARIS), x, leaf(g)); break;
                case 3: x = X.ari(g.of(Gen.ARIS), leaf(g), x); break;
                case 4: x = X.not(x); break;
                case 5: x = X.neg(x); break;
                default: x = X.fun(g.of("MIN", "MAX"), leaf(g), x);
            }
            if (style == 5 && i > 50 || style == 6 && i > 80) break;
        }
        return x;
    }

    private static final String[] TOKS = {"(", ")", ",", "=", "!=", ">", ">=", "<", "<=", "+", "-", "*", "/", "%", "^", "AND", "or", "NOT", "not", "IN", "TO", "CONTAINS_ANY", "contains_all", "true", "FALSE", "MIN", "len", "a", "b.c", "null", "1", "2.5", "1.2.3", "'s'", "\"t\"",
        "2024-01-01", "2024-01-01 10:00:00", "2023-02-30", "&&", "||", "&", "|", "!", "'", "\"", "@", "#", ";", "\u00a0", "\u00e9", "{", "}", "[", "$", "?", ":", "~", "`", "\\", "==", "<>", "99999999999999999999", "1..2", "1.", ".5", "And", "nOT"};

    /** A text derived from a valid one by small damage, or a soup of tokens. */
    static String damaged(Gen g) {
        SplittableRandom r = g.r;
        if (g.p(25)) { int n = 1 + g.n(9); StringBuilder b = new StringBuilder(); for (int i = 0; i < n; i++) b.append(TOKS[g.n(TOKS.length)]).append(g.p(85) ? " " : ""); return b.toString(); }
        X x = any(g, 1 + g.n(4));
        String s = Printer.random(x, r);
        int edits = g.p(75) ? 1 : 2;
        for (int i = 0; i < edits; i++) s = edit(g, s);
        return s;
    }
    private static String edit(Gen g, String s) {
        List<int[]> t = spans(s);
        if (t.isEmpty()) return TOKS[g.n(TOKS.length)];
        int i = g.n(t.size()); int[] a = t.get(i);
        switch (g.n(9)) {
            case 0: case 1: return s.substring(0, a[0]) + " " + s.substring(a[1]);                                  // delete token
            case 2: return s.substring(0, a[0]) + " " + TOKS[g.n(TOKS.length)] + " " + s.substring(a[0]);            // insert token
            case 3: return s.substring(0, a[0]) + TOKS[g.n(TOKS.length)] + s.substring(a[1]);                        // replace token
            case 4: return s.substring(0, a[1]) + " " + s.substring(a[0], a[1]) + s.substring(a[1]);                 // repeat token
            case 5: { if (i + 1 >= t.size()) return s + " " + TOKS[g.n(TOKS.length)]; int[] b = t.get(i + 1); return s.substring(0, a[0]) + s.substring(b[0], b[1]) + s.substring(a[1], b[0]) + s.substring(a[0], a[1]) + s.substring(b[1]); }
            case 6: if (g.p(40)) { String c = g.of("\ufeff", "\ufffe", "\u200b", "\u00a0", "\u3000", "\u2028", "\u0085", "\u000b", "\u0000", "\u001a", "\u0004", "#", ";", ".", ",", ":", "`", "\\", "//", "--", "=", "?", "$", "\u00ab", "\u201c"); return g.p(40) ? c + s : g.p(60) ? s + c : s.substring(0, a[0]) + c + s.substring(a[0]); }
                return s.substring(0, a[0]);                                                                      // truncate
            case 7: { int c = g.n(s.length()); return s.substring(0, c) + "@#!&|'\"();,.x1 -=\u00e9\u0000".charAt(g.n(19)) + s.substring(c); }
            default: return s + " " + TOKS[g.n(TOKS.length)];
        }
    }
    private static List<int[]> spans(String s) {
        List<int[]> out = new ArrayList<>();
        int i = 0;
        while (i < s.length()) {
            char c = s.charAt(i);
            if (" \t\r\n\f".indexOf(c) >= 0) { i++; continue; }
            int j = i + 1;
            if (c == '\'' || c == '"') { int e = s.indexOf(c, i + 1); j = e < 0 ? s.length() : e + 1; }
            else if (RefParser.word(c)) { if (RefParser.pat(s, i, "dddd-dd-dd dd:dd:dd")) j = i + 19; else if (RefParser.pat(s, i, "dddd-dd-dd")) j = i + 10; else while (j < s.length() && RefParser.word(s.charAt(j))) j++; }
            else if (j < s.length() && "=&|".indexOf(s.charAt(j)) >= 0 && "<>!=&|".indexOf(c) >= 0) j++;
            out.add(new int[]{i, j});
            i = j;
        }
        return out;
    }
}
