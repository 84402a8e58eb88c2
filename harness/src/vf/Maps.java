package vf;

import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.ConcurrentSkipListMap;

/** The same entries in other implementations of Map. */
final class Maps {
    private Maps() { }

    /** A map which is a Map and nothing else: no common superclass, no order, read only. */
    static final class Plain implements Map<String, Object> {
        private final Map<String, Object> m;
        Plain(Map<String, Object> m) { this.m = m; }
        @Override public int size() { return m.size(); } @Override public boolean isEmpty() { return m.isEmpty(); }
        @Override public boolean containsKey(Object k) { return m.containsKey(k); } @Override public boolean containsValue(Object v) { return m.containsValue(v); }
        @Override public Object get(Object k) { return m.get(k); }
        @Override public Object put(String k, Object v) { throw new UnsupportedOperationException(); } @Override public Object remove(Object k) { throw new UnsupportedOperationException(); }
        @Override public void putAll(Map<? extends String, ?> o) { throw new UnsupportedOperationException(); } @Override public void clear() { throw new UnsupportedOperationException(); }
        @Override public Set<String> keySet() { return Collections.unmodifiableSet(m.keySet()); } @Override public Collection<Object> values() { return Collections.unmodifiableCollection(m.values()); }
        @Override public Set<Entry<String, Object>> entrySet() { return Collections.unmodifiableSet(m.entrySet()); }
        @Override public String toString() { return m.toString(); } @Override public boolean equals(Object o) { return m.equals(o); } @Override public int hashCode() { return m.hashCode(); }
    }

    /** A copy with the same entries; maps inside maps too (those with keys of other classes, and those inside lists, stay as they are). */
    static Map<String, Object> odd(Map<?, ?> m, SplittableRandom r) {
        Map<String, Object> c = new LinkedHashMap<>();
        boolean nulls = false;
        for (Map.Entry<?, ?> e : m.entrySet()) {
            Object v = e.getValue();
            if (named(v)) v = odd((Map<?, ?>) v, r);
            nulls |= v == null;
            c.put((String) e.getKey(), v);
        }
        switch (r.nextInt(nulls ? 8 : 14)) {
            case 0: return c;
            case 1: return new HashMap<>(c);
            case 2: return new TreeMap<>(c);
            case 3: return Collections.unmodifiableMap(c);
            case 4: return Collections.synchronizedMap(c);
            case 5: return new Plain(c);
            case 6: { TreeMap<String, Object> t = new TreeMap<>(Comparator.reverseOrder()); t.putAll(c); return t; }
            case 7: return Collections.checkedMap(new WeakHashMap<>(c), String.class, Object.class);
            case 8: return new Hashtable<>(c);
            case 9: return new ConcurrentHashMap<>(c);
            case 10: return new ConcurrentSkipListMap<>(c);
            case 11: return Map.copyOf(c);
            case 12: { @SuppressWarnings({"unchecked", "rawtypes"}) Map<String, Object> p = (Map) new Properties(); p.putAll(c); return p; }
            default: { LinkedHashMap<String, Object> l = new LinkedHashMap<>(16, 0.75f, true); l.putAll(c); return l; }
        }
    }
    /** A map all of whose keys are strings. */
    static boolean named(Object o) { return o instanceof Map && strings((Map<?, ?>) o); }
    static boolean strings(Map<?, ?> m) { for (Object k : m.keySet()) if (!(k instanceof String)) return false; return true; }
}
