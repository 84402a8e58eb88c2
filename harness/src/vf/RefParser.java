package vf;

import java.util.ArrayList;
import java.util.List;
import java.util.Set;

/**
 * Independent recogniser and parser of the documented grammar (no default field: every operand has to be written).
 * Returns null when the text is not an expression of the language.
 */
final class RefParser {
    static final class Bad extends RuntimeException { Bad(String m) { super(m, null, false, false); } }

    private static final Set<String> FUN = Set.of("MIN", "MAX", "AVG", "SUM", "MEAN", "MODE", "MEDIAN", "LEN", "INT", "DAYS_ELAPSED");
    private static final Set<String> KW = Set.of("IN", "TO", "AND", "OR", "NOT", "TRUE", "FALSE", "CONTAINS_ALL", "CONTAINS_ANY");

    record Tok(String type, String text) {}

    private final List<Tok> toks;
    private int p;
    /** closing parentheses may be missing (the library forgives that) */
    private boolean lenient;

    private RefParser(List<Tok> toks) { this.toks = toks; }

    static boolean word(char c) { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.'; }
    static boolean dig(char c) { return c >= '0' && c <= '9'; }

    static boolean pat(String s, int i, String pat) {
        if (i + pat.length() > s.length()) return false;
        for (int j = 0; j < pat.length(); j++) { char a = s.charAt(i + j), b = pat.charAt(j); if (b == 'd' ? !dig(a) : a != b) return false; }
        return true;
    }

    static List<Tok> lex(String s) {
        List<Tok> out = new ArrayList<>();
        int i = 0;
        while (i < s.length()) {
            char c = s.charAt(i);
            if (c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f') { i++; continue; }
            if (pat(s, i, "dddd-dd-dd dd:dd:dd")) { int e = run(s, i); if (e - i < 19) { out.add(new Tok("DT", s.substring(i, i + 19))); i += 19; continue; } }
            if (pat(s, i, "dddd-dd-dd")) { out.add(new Tok("DATE", s.substring(i, i + 10))); i += 10; continue; }
            if (word(c)) {
                int e = run(s, i);
                String w = s.substring(i, e);
                out.add(new Tok(classify(w), w));
                i = e; continue;
            }
            if (c == '\'' || c == '"') {
                int e = s.indexOf(c, i + 1);
                if (e < 0) throw new Bad("unterminated");
                out.add(new Tok("STR", s.substring(i + 1, e)));
                i = e + 1; continue;
            }
            String two = i + 1 < s.length() ? s.substring(i, i + 2) : "";
            if (two.equals("&&")) { out.add(new Tok("AND", two)); i += 2; continue; }
            if (two.equals("||")) { out.add(new Tok("OR", two)); i += 2; continue; }
            if (two.equals(">=") || two.equals("<=") || two.equals("!=")) { out.add(new Tok("CMP", two)); i += 2; continue; }
            if (c == '>' || c == '<' || c == '=') { out.add(new Tok("CMP", "" + c)); i++; continue; }
            if ("+-*/%^(),".indexOf(c) >= 0) { out.add(new Tok("" + c, "" + c)); i++; continue; }
            throw new Bad("char");
        }
        out.add(new Tok("EOF", ""));
        return out;
    }
    private static int run(String s, int i) { while (i < s.length() && word(s.charAt(i))) i++; return i; }

    static String classify(String w) {
        String u = w.toUpperCase(java.util.Locale.ROOT), l = w.toLowerCase(java.util.Locale.ROOT);
        if (w.equals(u) || w.equals(l)) { if (KW.contains(u)) return u; if (FUN.contains(u)) return "FUN"; }
        boolean digits = true; int dots = 0; boolean ok = true;
        for (int i = 0; i < w.length(); i++) {
            char c = w.charAt(i);
            if (c == '.') { dots++; if (i == 0 || i == w.length() - 1 || w.charAt(i - 1) == '.') ok = false; }
            else if (!dig(c)) digits = false;
        }
        if (digits && ok) return dots == 0 ? "INT" : dots == 1 ? "DEC" : "VER";
        return "FLD";
    }

    static X parse(String s) {
        try { return parseOrThrow(s); } catch (Bad b) { return null; }
    }
    /** An expression of the language but for closing parentheses which are not there. */
    static boolean lacksParentheses(String s) {
        try { RefParser q = new RefParser(lex(s)); q.lenient = true; q.expr(0); q.need("EOF"); return true; } catch (Bad b) { return false; }
    }
    static X parseOrThrow(String s) {
        RefParser q = new RefParser(lex(s));
        X x = q.expr(0);
        q.need("EOF");
        return x;
    }

    private Tok peek() { return toks.get(p); }
    private boolean at(String t) { return peek().type.equals(t); }
    private Tok need(String t) { if (lenient && t.equals(")") && !at(t)) return peek(); if (!at(t)) throw new Bad("expected " + t); return toks.get(p++); }

    private X expr(int min) {
        X l = primary();
        while (true) {
            Tok t = peek();
            int pr;
            switch (t.type) {
                case "CMP": pr = 14; break;
                case "^": pr = 12; break;
                case "/": pr = 11; break;
                case "*": pr = 10; break;
                case "%": pr = 9; break;
                case "+": pr = 8; break;
                case "-": pr = 7; break;
                case "AND": case "OR": pr = 5; break;
                default: return l;
            }
            if (pr < min) return l;
            p++;
            X r = expr(pr + 1);
            l = pr == 14 ? X.cmp(t.text, l, r) : t.type.equals("AND") ? X.and(l, r) : t.type.equals("OR") ? X.or(l, r) : X.ari(t.text, l, r);
        }
    }

    private X num() {
        Tok t = toks.get(p++);
        if (t.type.equals("INT")) { checkLong(t.text); return X.lit(X.K.INT, norm(t.text)); }
        if (t.type.equals("DEC")) return X.lit(X.K.DEC, t.text);
        throw new Bad("number");
    }
    private static String norm(String d) { return Long.toString(Long.parseLong(d)); }
    private static void checkLong(String s) { try { Long.parseLong(s); } catch (NumberFormatException e) { throw new Bad("range"); } }

    private X primary() {
        Tok t = toks.get(p++);
        switch (t.type) {
            case "(": { X x = expr(0); need(")"); return x; }
            case "NOT": return X.not(expr(15));
            case "-": return X.neg(expr(13));
            case "FUN": return X.fun(t.text.toUpperCase(java.util.Locale.ROOT), words());
            case "INT": p--; return num();
            case "DEC": p--; return num();
            case "VER": return X.lit(X.K.VER, t.text);
            case "TRUE": return X.bool(true);
            case "FALSE": return X.bool(false);
            case "STR": return X.str(t.text);
            case "DATE": try { java.time.LocalDate.parse(t.text); } catch (Exception e) { throw new Bad("date"); } return X.lit(X.K.DATE, t.text);
            case "DT": try { java.time.LocalDateTime.parse(t.text.replace(' ', 'T')); } catch (Exception e) { throw new Bad("datetime"); } return X.lit(X.K.DT, t.text);
            case "FLD":
                if (at("INT") || at("DEC")) { X lo = num(); need("TO"); X hi = num(); return X.range(t.text, lo, hi); }
                if (at("IN")) { p++; return X.in(t.text, false, words()); }
                if (at("NOT")) { p++; need("IN"); return X.in(t.text, true, words()); }
                if (at("CONTAINS_ANY")) { p++; return X.any(t.text, words()); }
                if (at("CONTAINS_ALL")) { p++; return X.all(t.text, words()); }
                return X.fld(t.text);
            default: throw new Bad("primary " + t.type);
        }
    }

    private List<X> words() {
        need("(");
        List<X> l = new ArrayList<>();
        l.add(expr(0));
        while (at(",")) { p++; l.add(expr(0)); }
        need(")");
        return l;
    }
}
