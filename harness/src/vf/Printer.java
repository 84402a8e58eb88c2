package vf;

import java.util.ArrayList;
import java.util.List;
import java.util.SplittableRandom;

/** Writes a reference tree in the library's syntax; precedences are those of the documented grammar. */
final class Printer {
    static final int CMP = 14, EXP = 12, DIV = 11, MUL = 10, MOD = 9, ADD = 8, SUB = 7, BIN = 5, PRIMARY = 99;
    private final SplittableRandom r;   // null: canonical
    private final boolean fancy;        // random white space, case and symbol variants
    private final int redundant;        // percent chance of redundant parentheses
    private final List<String> t = new ArrayList<>();

    private Printer(SplittableRandom r, boolean fancy, int redundant) { this.r = r; this.fancy = fancy; this.redundant = redundant; }

    static String canonical(X x) { Printer p = new Printer(null, false, 0); p.expr(x); return p.join(); }
    static String random(X x, SplittableRandom r) {
        Printer p = new Printer(r, r.nextInt(4) != 0, r.nextInt(3) == 0 ? 25 : 0);
        p.expr(x);
        return p.join();
    }

    static int prec(X x) {
        switch (x.k) {
            case CMP: return CMP;
            case AND: case OR: return BIN;
            case ARI: return ariPrec(x.s);
            case NEG: return 13;
            default: return PRIMARY;
        }
    }
    static int ariPrec(String op) {
        switch (op) { case "^": return EXP; case "/": return DIV; case "*": return MUL; case "%": return MOD; case "+": return ADD; default: return SUB; }
    }

    private String kw(String upper) {
        if (!fancy) return upper;
        if (upper.equals("AND")) { int i = r.nextInt(3); return i == 0 ? "AND" : i == 1 ? "and" : "&&"; }
        if (upper.equals("OR")) { int i = r.nextInt(3); return i == 0 ? "OR" : i == 1 ? "or" : "||"; }
        return r.nextBoolean() ? upper : upper.toLowerCase(java.util.Locale.ROOT);
    }

    private void paren(X x) { t.add("("); expr(x); t.add(")"); }

    private void operand(X x, boolean needParen) {
        if (needParen || (redundant > 0 && x.k != X.K.FLD && r.nextInt(100) < redundant)) paren(x); else expr(x);
    }

    private void binary(X x, int p, String op) {
        X l = x.c.get(0), rr = x.c.get(1);
        boolean lp, rp;
        if (p == CMP) {
            lp = prec(l) <= CMP || l.k == X.K.NEG || isPostfix(l) || l.k == X.K.NOT;
            rp = prec(rr) <= CMP && rr.k != X.K.NEG || isPostfix(rr) || rr.k == X.K.NOT;
        } else {
            lp = prec(l) < p && l.k != X.K.NEG;
            rp = prec(rr) <= p && rr.k != X.K.NEG;
            if (p != BIN) { lp |= l.isLogical() && l.k != X.K.BOOL; rp |= rr.isLogical() && rr.k != X.K.BOOL; }
        }
        operand(l, lp);
        t.add(op);
        operand(rr, rp);
    }
    private static boolean isPostfix(X x) { return x.k == X.K.RANGE || x.k == X.K.IN || x.k == X.K.ARR; }

    private void list(List<X> items) {
        t.add("(");
        for (int i = 0; i < items.size(); i++) { if (i > 0) t.add(","); operand(items.get(i), false); }
        t.add(")");
    }

    private String quote(String s) {
        boolean sq = s.indexOf('\'') >= 0, dq = s.indexOf('"') >= 0;
        char q = sq ? '"' : dq ? '\'' : (fancy && r.nextBoolean() ? '"' : '\'');
        return q + s + q;
    }

    private void expr(X x) {
        switch (x.k) {
            case INT: case DEC: case VER: case DATE: case DT: t.add(x.s); break;
            case BOOL: t.add(kw(x.s.toUpperCase(java.util.Locale.ROOT))); break;
            case STR: t.add(quote(x.s)); break;
            case FLD: if (x.s != null) t.add(x.s); break;
            case CMP: binary(x, CMP, x.s); break;
            case ARI: binary(x, ariPrec(x.s), x.s); break;
            case AND: binary(x, BIN, kw("AND")); break;
            case OR: binary(x, BIN, kw("OR")); break;
            case NOT: t.add(kw("NOT")); operand(x.c.get(0), prec(x.c.get(0)) != PRIMARY); break;
            case NEG: t.add("-"); operand(x.c.get(0), prec(x.c.get(0)) != PRIMARY && x.c.get(0).k != X.K.NEG || x.c.get(0).isLogical()); break;
            case RANGE: t.add(x.s); expr(x.c.get(0)); t.add(kw("TO")); expr(x.c.get(1)); break;
            case IN: t.add(x.s); if (x.neg) t.add(kw("NOT")); t.add(kw("IN")); list(x.c); break;
            case ARR: t.add(x.s); t.add(kw(x.neg ? "CONTAINS_ALL" : "CONTAINS_ANY")); list(x.c); break;
            case FUN: t.add(kw(x.s)); list(x.c); break;
        }
    }

    private static boolean isOperator(String s) { return s.length() <= 2 && !wordy(s.charAt(0)) && !s.equals(")") || s.equalsIgnoreCase("and") || s.equalsIgnoreCase("or") || s.equalsIgnoreCase("not"); }
    private static boolean wordy(char c) { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.'; }

    private String join() {
        StringBuilder b = new StringBuilder();
        if (fancy && r.nextInt(6) == 0) ws(b);
        for (int i = 0; i < t.size(); i++) {
            String cur = t.get(i);
            if (i > 0) {
                String prev = t.get(i - 1);
                boolean unary = prev.equals("-") && (i == 1 || isOperator(t.get(i - 2)));
                boolean must = wordy(prev.charAt(prev.length() - 1)) && wordy(cur.charAt(0)) || prev.equals("-") && !unary || cur.equals("-") && wordy(prev.charAt(prev.length() - 1));
                if (!fancy) { if (!unary && !prev.equals("(") && !cur.equals(")") && !cur.equals(",") || must) b.append(' '); }
                else if (must || r.nextInt(3) != 0) ws(b);
            }
            b.append(cur);
        }
        if (fancy && r.nextInt(6) == 0) ws(b);
        return b.toString();
    }
    private void ws(StringBuilder b) {
        int n = r.nextInt(5) == 0 ? 1 + r.nextInt(4) : 1;
        for (int i = 0; i < n; i++) b.append(r.nextInt(4) != 0 ? ' ' : " \t\n\r\f".charAt(r.nextInt(5)));
    }
}
