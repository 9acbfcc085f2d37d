package sx;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.LocalTime;
import java.util.*;

/**
 * The vocabulary of the harnesses.  The interpreter replaces every method by a symbolic operation (SymNatives); run
 * natively, the same harness replays one concrete input: values come from the map of the current {@link Replay}.
 */
public final class Sym {
    private Sym() { }

    /** one native run of a harness */
    public static final class Replay {
        public final Map<String, BigInteger> model; public final Map<String, Integer> choices; public final boolean thorough;
        public final List<String> failed = new ArrayList<>();
        public final List<String> observed = new ArrayList<>();
        public final Map<String, String> inputs = new LinkedHashMap<>();
        public boolean assumptionFailed, blocked;
        public Locale locale;
        Sched sched;
        public Replay(Map<String, BigInteger> m, Map<String, Integer> c, boolean thorough) { model = m; choices = c; this.thorough = thorough; }
        BigInteger get(String name, BigInteger lo, BigInteger hi) {
            BigInteger v = model.get(name);
            if (v == null || v.compareTo(lo) < 0 || v.compareTo(hi) > 0) v = lo.signum() > 0 ? lo : hi.signum() < 0 ? hi : BigInteger.ZERO;
            return v;
        }
    }
    public static final class AssumptionFailed extends Error {
        AssumptionFailed() {
            super("assumption", null, false, false);
            Replay r = CUR.get();
            if (r != null) r.assumptionFailed = true; // the code under test may swallow this error
        }
    }
    static final ThreadLocal<Replay> CUR = new ThreadLocal<>();
    private static Replay cur() {
        Replay r = CUR.get();
        if (r == null) throw new IllegalStateException("no replay in progress");
        return r;
    }
    private static long num(String name, long lo, long hi) {
        return cur().get(name, BigInteger.valueOf(lo), BigInteger.valueOf(hi)).longValueExact();
    }
    private static void in(String name, Object v) { cur().inputs.put(name, render(v)); }

    // ---- inputs
    public static int anyInt(String name) { return anyInt(name, Integer.MIN_VALUE, Integer.MAX_VALUE); }
    public static int anyInt(String name, int lo, int hi) { int v = (int) num(name, lo, hi); in(name, v); return v; }
    public static long anyLong(String name) { return anyLong(name, Long.MIN_VALUE, Long.MAX_VALUE); }
    public static long anyLong(String name, long lo, long hi) { long v = num(name, lo, hi); in(name, v); return v; }
    public static boolean anyBool(String name) { boolean v = num(name, 0, 1) != 0; in(name, v); return v; }
    /** unscaled / 10^scale with the unscaled value in [lo, hi] */
    public static BigDecimal anyDecimal(String name, int scale, long lo, long hi) { BigDecimal v = BigDecimal.valueOf(num(name, lo, hi), scale); in(name, v); return v; }
    /** n / 2^k with n in [lo, hi] */
    public static double anyDouble(String name, int k, long lo, long hi) { double v = (double) num(name, lo, hi) / (1L << k); in(name, v); return v; }
    /** exactly len characters drawn from the given alphabet */
    public static String anyString(String name, int len, String alphabet) {
        StringBuilder sb = new StringBuilder();
        int lo = min(alphabet), hi = max(alphabet);
        for (int k = 0; k < len; k++) sb.append((char) cur().get(name + "." + k, BigInteger.valueOf(lo), BigInteger.valueOf(hi)).intValue());
        for (int k = 0; k < len; k++) if (alphabet.indexOf(sb.charAt(k)) < 0) throw new AssumptionFailed();
        String v = sb.toString();
        in(name, v);
        return v;
    }
    static int min(String a) { int m = a.charAt(0); for (int k = 1; k < a.length(); k++) m = Math.min(m, a.charAt(k)); return m; }
    static int max(String a) { int m = a.charAt(0); for (int k = 1; k < a.length(); k++) m = Math.max(m, a.charAt(k)); return m; }
    public static LocalDate anyDate(String name, int y0, int y1) { LocalDate v = date(name, y0, y1); in(name, v); return v; }
    private static LocalDate date(String name, int y0, int y1) {
        if (!cur().model.containsKey(name + ".m0")) return LocalDate.of(Math.max(y0, Math.min(y1, 2024)), 5, 17);
        int y = (int) (1000 * num(name + ".y3", y0 / 1000, y1 / 1000) + 100 * num(name + ".y2", 0, 9) + 10 * num(name + ".y1", 0, 9) + num(name + ".y0", 0, 9));
        int m = (int) (10 * num(name + ".m1", 0, 1) + num(name + ".m0", 0, 9)), d = (int) (10 * num(name + ".d1", 0, 3) + num(name + ".d0", 0, 9));
        if (y < y0 || y > y1 || m < 1 || m > 12 || d < 1) throw new AssumptionFailed();
        if (d > java.time.YearMonth.of(y, m).lengthOfMonth()) throw new AssumptionFailed();
        return LocalDate.of(y, m, d);
    }
    public static LocalDateTime anyDateTime(String name, int y0, int y1) {
        LocalDateTime v = dateTime(name, y0, y1);
        in(name, v);
        return v;
    }
    private static LocalDateTime dateTime(String name, int y0, int y1) {
        int h = (int) (10 * num(name + ".H1", 0, 2) + num(name + ".H0", 0, 9));
        if (h > 23) throw new AssumptionFailed();
        return LocalDateTime.of(date(name, y0, y1), LocalTime.of(h, (int) (10 * num(name + ".M1", 0, 5) + num(name + ".M0", 0, 9)), (int) (10 * num(name + ".S1", 0, 5) + num(name + ".S0", 0, 9))));
    }
    /** a nondeterministic choice, explored exhaustively */
    public static int choose(String name, int n) {
        Integer c = cur().choices.get(name);
        int v = c == null || c >= n ? 0 : c;
        in(name, v);
        return v;
    }
    /** the date the code under test sees as today */
    public static LocalDate today() { return date("now", 1990, 2060); }
    public static LocalDateTime now() { return dateTime("now", 1990, 2060); }

    // the clock as the code under test sees it in a native run
    private static int ahead(java.time.ZoneId z) { return z.equals(java.time.ZoneId.systemDefault()) ? 0 : choose("elsewhere", 2); }
    public static LocalDate today(java.time.ZoneId z) { return today().plusDays(ahead(z)); }
    public static LocalDate today(java.time.Clock c) { return today(c.getZone()); }
    public static LocalDateTime now(java.time.ZoneId z) { return now().plusDays(ahead(z)); }
    public static LocalDateTime now(java.time.Clock c) { return now(c.getZone()); }
    public static LocalTime nowTime() { return now().toLocalTime(); }
    public static java.time.ZonedDateTime nowZoned() { return now().atZone(java.time.ZoneId.systemDefault()); }
    public static java.time.ZonedDateTime nowZoned(java.time.ZoneId z) { return now(z).atZone(z); }
    public static java.time.OffsetDateTime nowOffset() { return nowZoned().toOffsetDateTime(); }
    public static java.time.Instant nowInstant() { return nowZoned().toInstant(); }
    public static long nowMillis() { return nowInstant().toEpochMilli(); }
    /** a use of the clock that has no model: the run says nothing */
    public static void unmodelled() { cur().assumptionFailed = true; }

    /** the default locale the code under test sees from here on */
    public static void locale(String tag) { cur().locale = Locale.forLanguageTag(tag); }
    // calls of the code under test that depend on the default locale come here in a native run
    public static Locale defaultLocale() { Replay r = CUR.get(); return r == null || r.locale == null ? Locale.getDefault() : r.locale; }
    public static String lower(String s) { return s.toLowerCase(defaultLocale()); }
    public static String upper(String s) { return s.toUpperCase(defaultLocale()); }

    // ---- two callers
    static final class Sched { long n, at; int clinit; boolean inB, done; Runnable b; Thread a; }
    /**
     * two threads that use the same objects: at a nondeterministic point of the first, where it is about to touch what existed
     * before, the second runs from its start to its end
     */
    public static void concurrently(String id, Runnable a, Runnable b) {
        Replay r = cur();
        Sched s = new Sched();
        s.at = -1; s.b = b; s.a = Thread.currentThread();
        for (Map.Entry<String, Integer> e : r.choices.entrySet()) if (e.getValue() == 1 && e.getKey().startsWith("switch." + id + ".")) s.at = Long.parseLong(e.getKey().substring(id.length() + 8));
        in("switch", s.at);
        r.sched = s;
        try {
            a.run();
            if (!s.done) second(r, s);
        } finally { r.sched = null; }
    }
    private static void second(Replay r, Sched s) {
        s.done = true; s.inB = true;
        Throwable[] f = {null};
        Thread t = new Thread(null, () -> { CUR.set(r); try { s.b.run(); } catch (Throwable e) { f[0] = e; } finally { CUR.remove(); } }, "second", 64L << 20);
        t.setDaemon(true);
        t.start();
        try {
            for (int idle = 0, k = 0; t.isAlive() && idle < 25 && k < 1000; k++) {
                t.join(10);
                idle = t.getState() == Thread.State.BLOCKED || t.getState() == Thread.State.WAITING || t.getState() == Thread.State.TIMED_WAITING ? idle + 1 : 0;
            }
        } catch (InterruptedException e) { r.assumptionFailed = true; }
        if (t.isAlive()) { r.blocked = r.assumptionFailed = true; throw new AssumptionFailed(); } // it waits for the first: no such schedule
        s.inB = false;
        if (f[0] instanceof AssumptionFailed) throw (AssumptionFailed) f[0];
        if (f[0] != null) r.failed.add("uncaught:" + f[0].getClass().getName());
    }
    /** an instruction of the code under test that may touch what others see */
    public static void point() {
        Replay r = CUR.get();
        Sched s = r == null ? null : r.sched;
        if (s == null || s.inB || s.clinit > 0 || Thread.currentThread() != s.a) return;
        if (s.n++ == s.at && !s.done) second(r, s);
    }
    public static void clinit(int d) {
        Replay r = CUR.get();
        if (r != null && r.sched != null && !r.sched.inB) r.sched.clinit += d;
    }

    // ---- propositions without forking
    public static boolean and(boolean x, boolean y) { return x & y; }
    public static boolean or(boolean x, boolean y) { return x | y; }
    public static boolean not(boolean x) { return !x; }
    public static boolean iff(boolean x, boolean y) { return x == y; }
    public static boolean implies(boolean x, boolean y) { return !x | y; }

    // ---- claims
    public static void assume(boolean c) { if (!c) { cur().assumptionFailed = true; throw new AssumptionFailed(); } }
    public static void check(boolean c, String tag) { if (!c) cur().failed.add(tag); }
    /** the path reaches this point: used to show that a harness is not vacuous */
    public static void cover(String what) { }
    /** compared between the symbolic path and its native replay */
    public static void observe(String name, Object v) { cur().observed.add(name + "=" + render(v)); }
    public static void bound(String text) { }
    public static boolean thorough() { return cur().thorough; }
    public static void hashZero() { }

    static String render(Object v) {
        if (v == null) return "null";
        if (v instanceof BigDecimal) return "BigDecimal:" + ((BigDecimal) v).toString();
        if (v instanceof Number || v instanceof Boolean || v instanceof Character) return v.getClass().getSimpleName() + ":" + v;
        if (v instanceof CharSequence || v instanceof Enum) return v.toString();
        if (v instanceof LocalDate || v instanceof LocalDateTime) return v.getClass().getSimpleName() + ":" + v;
        return v.getClass().getName();
    }
}
