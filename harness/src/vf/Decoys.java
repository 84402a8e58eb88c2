package vf;

import java.math.BigDecimal;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Locale;
import java.util.Map;

/** Adds entries to the data which no reference of an expression means, but a careless lookup might find. */
final class Decoys {
    private Decoys() { }

    /** Returns how many entries were added for the paths in x. Existing entries are left alone. */
    static int add(X x, Map<String, Object> data, String def, java.util.SplittableRandom r) {
        List<String> paths = new ArrayList<>();
        paths(x, paths);
        if (def != null) paths.add(def);
        int n = 0;
        for (String p : paths) if (r.nextInt(3) > 0) n += add(p, data, r);
        return n;
    }
    private static void paths(X x, List<String> out) {
        if (x.k == X.K.FLD || x.k == X.K.RANGE || x.k == X.K.IN || x.k == X.K.ARR) { if (x.s != null && !x.s.equalsIgnoreCase("null") && !x.s.isEmpty()) out.add(x.s); }
        for (X c : x.c) paths(c, out);
    }
    @SuppressWarnings("unchecked")
    static int add(String path, Map<String, Object> data, java.util.SplittableRandom r) {
        String[] s = path.split("\\.");
        int n = 0;
        Map<String, Object> cur = data;
        try {
            for (int i = 0; i < s.length; i++) {
                String rest = tail(s, i), key = s[i];
                // the rest of the path as one key, similar names, and the end of the path where it does not belong
                String[] keys = {rest, key.toUpperCase(Locale.ROOT), key.toLowerCase(Locale.ROOT), Character.toUpperCase(key.charAt(0)) + key.substring(1), key + " ", " " + key, "'" + key + "'", "\"" + key + "\"", key + "[0]", key + ".", "." + key, "$" + key, "${" + key + "}",
                    key.replace("_", ""), s[s.length - 1], i + 1 < s.length ? s[i + 1] : path + ".value", String.join("_", s), String.join("/", s), "", "null", "*"};
                for (String k : keys) {
                    if (r.nextInt(3) != 0 || k.equals(key) || cur.containsKey(k)) continue;
                    // never what the path itself means
                    cur.put(k, k.equals(rest) || s.length == 1 || r.nextBoolean() ? value(r) : nested(s, i, r));
                    n++;
                }
                if (i > 0 && r.nextInt(3) == 0 && !data.containsKey(s[i])) { data.put(s[i], i + 1 < s.length ? nested(s, i + 1, r) : value(r)); n++; }
                Object next = cur.get(key);
                if (!(next instanceof Map)) break;
                cur = (Map<String, Object>) next;
            }
        } catch (UnsupportedOperationException | ClassCastException | NullPointerException immutable) { return n; }
        return n;
    }
    private static String tail(String[] s, int from) { return String.join(".", java.util.Arrays.asList(s).subList(from, s.length)); }
    private static Map<String, Object> nested(String[] s, int from, java.util.SplittableRandom r) {
        Map<String, Object> m = new LinkedHashMap<>(), cur = m;
        for (int i = from; i < s.length; i++) { if (i == s.length - 1) cur.put(s[i], value(r)); else { Map<String, Object> next = new LinkedHashMap<>(); cur.put(s[i], next); cur = next; } }
        return m;
    }
    private static Object value(java.util.SplittableRandom r) {
        switch (r.nextInt(8)) {
            case 0: return r.nextInt(5);
            case 1: return "decoy";
            case 2: return r.nextBoolean();
            case 3: return new BigDecimal("0.5");
            case 4: return new ArrayList<>(List.of(1, "a"));
            case 5: return "";
            case 6: return 1L;
            default: return new LinkedHashMap<>(Map.of("a", 1));
        }
    }
}
