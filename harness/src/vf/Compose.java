package vf;

import java.util.*;

/** The value of an expression is made of the values of its parts, and of nothing else about them. */
final class Compose {
    private Compose() { }

    static final class Parts extends Check {
        String rule() { return "expressions of every kind (well and badly typed, lacking entries); one to four of their parts (calculations, function calls, conditions; operands, arguments, items at any depth) are evaluated on their own with the same data, and each part which has a value is replaced by a new field holding exactly that value: same value of the same class, or a failure of the same class, as for the whole; distinct = distinct (text, replaced text)"; }
        String assumes() { return "the replaced text is what the reference parser reads as the replaced tree; nothing else but the law itself"; }

        /** Paths (child indices) to the parts. A part is an inner node, not the root and not the bound of a range. */
        private static void parts(X x, String at, List<String> out) {
            if (x.k == X.K.RANGE) return;
            for (int i = 0; i < x.c.size(); i++) {
                X y = x.c.get(i);
                String p = at + (char) i;
                if (!y.isLit() && y.k != X.K.FLD) { out.add(p); parts(y, p, out); }
            }
        }
        private static X at(X x, String p) { for (int i = 0; i < p.length(); i++) x = x.c.get(p.charAt(i)); return x; }
        private static X put(X x, String p, X y) {
            if (p.isEmpty()) return y;
            List<X> c = new ArrayList<>(x.c);
            c.set(p.charAt(0), put(c.get(p.charAt(0)), p.substring(1), y));
            return x.with(c);
        }
        private static boolean same(String text, X x) { X y = RefParser.parse(text); return y != null && Dump.x(y, null).equals(Dump.x(x, null)); }
        static boolean logical(X x) { return x.isLogical(); }

        /** Text put together from two pieces: ordinary text, or what reads as a number, a version, a date or a truth value. */
        private static X text(Gen g) {
            String s;
            switch (g.n(8)) {
                case 0: s = Gen.fmt(g.date()); break;
                case 1: s = Gen.fmt(g.dateTime()); break;
                case 2: s = g.version(1); break;
                case 3: s = g.number().toPlainString(); break;
                case 4: s = g.of("true", "false", "null", "1e3", "0x10", "5", "05", "5.0", "-3", "2023-02-29", "1L", "NaN"); break;
                default: s = g.anyString();
            }
            if (s.indexOf('\'') >= 0 && s.indexOf('"') >= 0) s = s.replace('"', '.');
            if (g.p(25)) return X.str(s);
            int i = g.n(s.length() + 1);
            X l = g.p(70) ? X.str(s.substring(0, i)) : g.field(s.substring(0, i)), r = g.p(70) ? X.str(s.substring(i)) : g.field(s.substring(i));
            return X.ari("+", l, r);
        }
        private static X other(Gen g) {
            switch (g.n(9)) {
                case 0: return g.dateOperand(g.date());
                case 1: return g.dtOperand(g.dateTime());
                case 2: return g.verOperand(g.version(3));
                case 3: case 4: return g.num();
                case 5: return g.truth();
                case 6: return g.field(Frames.value(g));
                default: return text(g);
            }
        }
        /** Calculations with texts which read as numbers, put together from pieces, beside numbers. */
        private static X digits(Gen g) {
            String s = g.of("" + g.n(1000), g.version(1), g.number().toPlainString(), "true", "-" + g.n(50), Gen.fmt(g.date()), "0" + g.n(10), g.n(100) + ".5");
            int i = g.n(s.length() + 1);
            X l = g.p(70) ? X.str(s.substring(0, i)) : g.field(s.substring(0, i)), r = g.p(60) ? X.str(s.substring(i)) : g.p(50) ? g.field(s.substring(i)) : X.i(g.n(100));
            X t = X.ari("+", l, r), n = g.p(70) ? g.smallNum() : g.num();
            if (g.p(20)) return X.fun(g.of("MAX", "SUM", "LEN", "INT", "AVG", "MODE", "DAYS_ELAPSED"), g.p(50) ? List.of(t) : List.of(n, t));
            if (g.p(10)) return X.neg(t);
            String op = g.p(60) ? "+" : g.of(Gen.ARIS);
            X x = g.p(60) ? X.ari(op, n, t) : X.ari(op, t, n);
            return g.p(25) ? X.ari(g.of(Gen.ARIS), g.p(50) ? n : X.str(""), x) : x;
        }
        private static X texts(Gen g) {
            X l = text(g), r = g.p(25) ? l : other(g);
            if (g.p(20)) return X.cmp(g.cmpOp(), digits(g), g.p(50) ? digits(g) : r);
            switch (g.n(7)) {
                case 0: case 1: return X.cmp(g.cmpOp(), l, r);
                case 2: return X.cmp(g.cmpOp(), r, l);
                case 3: return X.in(g.put(g.p(50) ? g.anyString() : Frames.value(g)), g.p(40), new ArrayList<>(List.of(l, r, text(g))));
                case 4: { String f = g.put(Frames.value(g)); return g.p(50) ? X.any(f, List.of(l, text(g))) : X.all(f, List.of(l, r)); }
                case 5: return X.cmp(g.cmpOp(), X.fun(g.of("LEN", "LEN", "DAYS_ELAPSED", "MIN", "SUM", "INT"), l), g.smallNum());
                default: return X.cmp(g.cmpOp(), X.ari("+", l, g.p(50) ? r : text(g)), other(g));
            }
        }
        void one(Env e) {
            Gen g = new Gen(e.r);
            boolean bool = g.p(70);
            X x = bool && g.p(25) ? g.combine(1 + g.n(3), () -> texts(g)) : !bool && g.p(30) ? digits(g) : Frames.tree(g, bool);
            if (g.p(10)) Frames.removeSome(g);
            if (g.p(15)) Decoys.add(x, g.data, null, e.r);
            String def = bool && g.p(15) ? g.put(Frames.value(g)) : null;
            List<String> ps = new ArrayList<>();
            parts(x, "", ps);
            if (ps.isEmpty()) return;
            String tx = Printer.random(x, e.r);
            if (!same(tx, x)) { e.count("not expressible (left out)"); return; }
            Lib.Set a = e.lib.any(e.r), b = e.lib.any(e.r), c = e.lib.any(e.r);
            Outcome one = bool ? Lib.bool(a, tx, g.data, def, e.r) : Lib.arith(a, tx, g.data);
            Map<String, Object> data = new LinkedHashMap<>(g.data);
            X y = x;
            int wanted = g.of(1, 1, 2, 4), done = 0;
            StringBuilder told = new StringBuilder();
            List<String> taken = new ArrayList<>();
            for (int tries = 0; tries < 8 && done < wanted; tries++) {
                String p = g.pick(ps);
                boolean clash = false;
                for (String q : taken) clash |= q.startsWith(p) || p.startsWith(q);
                if (clash) continue;
                X part = at(x, p);
                X.K in = at(x, p.substring(0, p.length() - 1)).k;
                boolean condition = in == X.K.AND || in == X.K.OR || in == X.K.NOT, calculation = in == X.K.ARI || in == X.K.NEG || in == X.K.FUN;
                if (logical(part) ? calculation : condition) { e.count("does not belong there (left alone)"); continue; }
                String tp = Printer.random(part, e.r);
                if (!same(tp, part)) continue;
                Outcome v = logical(part) ? Lib.bool(b, tp, g.data, def, e.r) : Lib.arith(b, tp, g.data);
                e.run.evaluations.increment();
                if (v.broken != null) throw new Violation("a part of an expression\n expression: " + Gen.quote(tp) + "\n data: " + Gen.show(g.data) + "\n observed: " + v);
                if (!v.ok()) { e.count("part without a value (left alone)"); taken.add(p); continue; }
                String name = "part" + done + (g.p(30) ? g.of("_x", "A", "_in", "99") : "");
                while (data.containsKey(name)) name += "_";
                if (g.p(25)) { Map<String, Object> m = new LinkedHashMap<>(); m.put("v", v.value); data.put(name, m); name += ".v"; } else data.put(name, v.value);
                y = put(y, p, X.fld(name));
                taken.add(p); done++;
                e.count("replaced " + part.k.name().toLowerCase(Locale.ROOT) + " in " + in.name().toLowerCase(Locale.ROOT));
                told.append("\n ").append(name).append(" = ").append(Gen.show(v.value)).append(" of ").append(v.value.getClass()).append(" for ").append(Gen.quote(tp));
            }
            if (done == 0) return;
            String ty = Printer.random(y, e.r);
            if (!same(ty, y)) { e.count("not expressible (left out)"); return; }
            Outcome two = bool ? Lib.bool(c, ty, data, def, e.r) : Lib.arith(c, ty, data);
            e.run.evaluations.add(2);
            e.run.distinct(tx + '\u0001' + ty);
            e.count(one.ok() ? "value" : "failure");
            boolean same = one.broken == null && one.same(two) && (one.ok() ? one.value.getClass() == two.value.getClass() : one.failure.getClass() == two.failure.getClass());
            if (!same) throw new Violation("an expression is worth something else when parts of it are replaced by fields with their values\n expression: " + Gen.quote(tx) + (def == null ? "" : " with default field " + def) + "\n data: " + Gen.show(g.data) + "\n outcome: " + one + "\n replaced:   " + Gen.quote(ty) + told + "\n outcome: " + two);
            e.sample(Gen.quote(tx) + " and " + Gen.quote(ty) + told.toString().replace('\n', ';') + " -> " + two);
        }
    }
}
