package vf;

import java.util.ArrayList;
import java.util.BitSet;
import java.util.List;
import java.util.SplittableRandom;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.atomic.LongAdder;

/** Called from the instrumented library around accesses to fields and collections: perturbs the schedule of the threads of a round. */
public final class Noise {
    static final int MAX_SITES = 1 << 14;
    static final class State { int x; int hits; int yields; int tag; Round round; final boolean[] seen = new boolean[MAX_SITES]; }
    /** what one round observes */
    static final class Round {
        final AtomicLong order = new AtomicLong(7); volatile int intensity;
        /** the places at which the first threads to arrive are held up */
        int[] slow = {}; int slowMicros; final boolean[] isSlow = new boolean[MAX_SITES];
        void hold(int[] at, int micros, int times) { slow = at; for (int i : at) if (i >= 0) isSlow[i] = true; slowMicros = micros; slowLeft.set(times); }
        final AtomicInteger slowLeft = new AtomicInteger(); final AtomicInteger stalls = new AtomicInteger();
        final BitSet seen = new BitSet();
        /** in a watched round: who touches what, and the places at which something is touched that several threads touch and one of them changes */
        boolean watch; private final java.util.IdentityHashMap<Object, Touched> touched = new java.util.IdentityHashMap<>();
        synchronized BitSet contended() {
            BitSet b = new BitSet();
            for (Touched t : touched.values()) if (Long.bitCount(t.threads) > 1 && t.writers != 0) for (int i = 0; i < t.n; i++) { b.set(t.sites[i]); b.set(t.sites[i] + 1); }
            return b;
        }
        synchronized int objects() { return touched.size(); }
    }
    private static final class Touched { long threads, writers; int n; int[] sites = new int[4]; }

    /** Called before an access to a field, an array or a collection, with the object (or the name of the static field). */
    public static void touch(Object o, int site) {
        State s = STATE.get();
        if (s == null || !s.round.watch || o == null) return;
        Round r = s.round;
        synchronized (r) {
            Touched t = r.touched.get(o);
            if (t == null) { if (r.touched.size() > 300_000) return; r.touched.put(o, t = new Touched()); }
            t.threads |= 1L << s.tag;
            if (WRITES[site]) t.writers |= 1L << s.tag;
            for (int i = 0; i < t.n; i++) if (t.sites[i] == site) return;
            if (t.n == 200) return;
            if (t.n == t.sites.length) t.sites = java.util.Arrays.copyOf(t.sites, t.n * 2);
            t.sites[t.n++] = site;
        }
    }
    private static final boolean[] WRITES = new boolean[MAX_SITES];
    /** a woven place: 0 a read or a call, 1 a change of something which may be shared, 2 the same while the library sets itself up */
    record Site(int kind, String method) {}
    private static final List<Site> SITES = new ArrayList<>();
    /** Two places, before and after something. */
    static synchronized int site(int kind, String method, boolean write) {
        if (SITES.size() > MAX_SITES - 4) return MAX_SITES - 2;
        int id = SITES.size();
        SITES.add(new Site(kind, method)); SITES.add(new Site(kind, method));
        WRITES[id] = write;
        return id;
    }

    /** A place which was passed before, most often one where threads met: the same chance for every kind of place, method and place of the method. */
    static synchronized int choose(BitSet seen, BitSet contended, SplittableRandom r, boolean cold) {
        if (!contended.isEmpty() && r.nextInt(10) < 6) return choose(contended, r, -1);
        return choose(seen, r, r.nextInt(10) < 4 ? (cold ? 2 : 1) : r.nextInt(2) == 0 ? 1 : 0);
    }
    private static int choose(BitSet seen, SplittableRandom r, int kind) {
        List<Integer> of = new ArrayList<>();
        List<String> methods = new ArrayList<>();
        seen.stream().forEach(i -> { if (i < SITES.size() && (kind < 0 || SITES.get(i).kind == kind)) { of.add(i); if (!methods.contains(SITES.get(i).method)) methods.add(SITES.get(i).method); } });
        if (of.isEmpty()) return -1;
        String m = methods.get(r.nextInt(methods.size()));
        of.removeIf(i -> !SITES.get(i).method.equals(m));
        return of.get(r.nextInt(of.size()));
    }
    static synchronized String describe(int[] sites) { StringBuilder b = new StringBuilder(); for (int i : sites) if (i >= 0) b.append(b.length() == 0 ? "" : ", ").append(SITES.get(i).method); return b.length() == 0 ? "no chosen place" : b.toString(); }

    private static final ThreadLocal<State> STATE = new ThreadLocal<>();
    static final LongAdder HITS = new LongAdder(), SWITCHES = new LongAdder(), STALLS = new LongAdder();

    static void enter(Round r, int tag, int seed) { State s = new State(); s.x = seed | 1; s.tag = tag; s.round = r; STATE.set(s); }
    static void leave() {
        State s = STATE.get(); STATE.remove();
        if (s == null) return;
        HITS.add(s.hits); SWITCHES.add(s.yields);
        synchronized (s.round.seen) { for (int i = 0; i < s.seen.length; i++) if (s.seen[i]) s.round.seen.set(i); }
    }

    public static void hit(int site) {
        State s = STATE.get();
        if (s == null) return;
        s.hits++; s.seen[site] = true;
        if (s.round.isSlow[site] && s.round.slowLeft.get() > 0 && s.round.slowLeft.getAndDecrement() > 0) {
            s.round.stalls.incrementAndGet(); STALLS.increment();
            s.round.order.updateAndGet(h -> (h * 37 + s.tag) * 0x9E3779B97F4A7C15L);
            try { Thread.sleep(s.round.slowMicros / 1000, s.round.slowMicros % 1000 * 1000); } catch (InterruptedException e) { Thread.currentThread().interrupt(); }
            return;
        }
        int x = s.x; x ^= x << 13; x ^= x >>> 17; x ^= x << 5; s.x = x;
        int k = x & 0x3fff, lim = s.round.intensity;
        if (k >= lim) return;
        s.yields++;
        s.round.order.updateAndGet(h -> (h * 31 + s.tag) * 0x9E3779B97F4A7C15L);
        if (k < lim / 64 + 1) { try { Thread.sleep(0, 50_000); } catch (InterruptedException e) { Thread.currentThread().interrupt(); } }
        else if ((k & 3) == 0) { for (int i = (x >>> 8) & 1023; i > 0; i--) Thread.onSpinWait(); }
        else Thread.yield();
    }
}
