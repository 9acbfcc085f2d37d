package h;

import org.apache.maven.artifact.versioning.ComparableVersion;
import sx.Sym;

/** Versions are ordered component by component, numerically. */
public class C05 {
    static final String[] ORDER = {"<", "<=", ">", ">="};
    /** dotted decimal components with symbolic digits, of the lengths given; fills value[] with their numeric values */
    private static String version(String n, int[] value, int... lens) {
        String s = "";
        for (int i = 0; i < value.length; i++) {
            String d = Sym.anyString(n + i, lens[i], "0123456789");
            int v = 0;
            for (int k = 0; k < lens[i]; k++) v = v * 10 + (d.charAt(k) - '0');
            value[i] = v;
            s = s + (i == 0 ? "" : ".") + d;
        }
        return s;
    }
    private static int[] ones(int n) { int[] r = new int[n]; for (int i = 0; i < n; i++) r[i] = 1; return r; }
    /** the order of two component lists, the shorter one padded with zeros; no forks */
    private static int order(int[] x, int[] y) {
        long kx = 0, ky = 0;
        for (int i = 0; i < Math.max(x.length, y.length); i++) {
            kx = kx * 1000 + (i < x.length ? x[i] : 0);
            ky = ky * 1000 + (i < y.length ? y[i] : 0);
        }
        return Long.compare(kx, ky);
    }
    private static void run(int[] la, int[] lb) {
        int[] x = new int[la.length], y = new int[lb.length];
        String a = version("a", x, la), b = version("b", y, lb);
        int form = Sym.choose("form", 3);
        boolean left = form == 2;
        int c = order(x, y);
        for (String op : ORDER)
            H.checkBool(H.bool(left ? b + " " + op + " v" : "v " + op + " " + b, H.data("v", form == 1 ? new ComparableVersion(a) : a)), H.holds(op, left ? -c : c), "version " + op + " version literal");
        Sym.cover("compared");
    }
    static final int[][] LA = {{1, 1, 1}, {1, 2, 1}, {1, 1, 2}, {2, 1, 1}, {1, 2, 2}}, LB = {{1, 1, 1}, {1, 1, 1}, {1, 2, 1}, {1, 1, 1}, {1, 1, 2}};
    /** version text or a version object against a version literal */
    public static void literal3() {
        Sym.bound("three components of 1 to 2 digits in 5 length combinations (leading zeros included), the literal's first component one digit");
        int k = Sym.choose("lens", LA.length);
        run(LA[k], LB[k]);
    }
    static final int[][] PAIRS = {{2, 3}, {3, 4}, {4, 3}, {5, 3}, {3, 5}, {4, 4}};
    public static void literalOtherLength() {
        Sym.bound("2 to 5 components of one digit against a literal of 3 to 5 in 6 combinations, missing components counting as 0");
        int[] p = PAIRS[Sym.choose("pair", PAIRS.length)];
        run(ones(p[0]), ones(p[1]));
    }
    public static void literal3Thorough() {
        Sym.bound("three components of 1 to 3 digits, all combinations of up to 2 for the literal");
        run(new int[]{1 + Sym.choose("a0", 2), 1 + Sym.choose("a1", 3), 1 + Sym.choose("a2", 2)}, new int[]{1, 1 + Sym.choose("b1", 2), 1 + Sym.choose("b2", 3)});
    }
    /** long components, beyond int and long */
    public static void longComponents() {
        String d = "20240131235959123456";
        int k = Sym.choose("place", 3), len = 8 + 4 * Sym.choose("len", 4);
        String p = d.substring(0, len - 1);
        String a = "1." + p + Sym.anyString("a", 1, "0123456789"), b = "1." + p + Sym.anyString("b", 1, "0123456789");
        String tail = k == 0 ? ".3" : k == 1 ? ".0" : ".14";
        int c = a.charAt(a.length() - 1) - b.charAt(b.length() - 1);
        Sym.bound("one component of 8 to 20 digits that differs in its last digit");
        for (String op : ORDER) H.checkBool(H.bool("v " + op + " " + b + tail, H.data("v", a + tail)), H.holds(op, c), "long version component " + op);
        Sym.cover("compared");
    }
    /** two fields, at least one of them a version object */
    public static void fields() {
        int[] x = new int[3], y = new int[3];
        int k = Sym.choose("lens", LA.length);
        String a = version("a", x, LA[k]), b = version("b", y, LB[k]);
        int rep = Sym.choose("rep", 3);
        for (String op : ORDER)
            H.checkBool(H.bool("v " + op + " w", H.data("v", rep == 1 ? a : new ComparableVersion(a), "w", rep == 2 ? b : new ComparableVersion(b))),
                H.holds(op, order(x, y)), "version " + op + " version field");
        Sym.cover("compared");
    }
    /** a version equals its own text and differs from other text, as literal and as field */
    public static void equality() {
        int[] x = new int[3], y = new int[3];
        int k = Sym.choose("lens", 3);
        String a = version("a", x, 1, k == 1 ? 2 : 1, k == 2 ? 2 : 1), b = version("b", y, 1, 1, 1);
        boolean eq = Sym.choose("eq", 2) == 0;
        String op = eq ? "=" : "!=";
        int form = Sym.choose("form", 3);
        Sym.bound("equality: components without leading zeros");
          Sym.assume(Sym.and(a.charAt(2) != '0', a.charAt(a.length() - 1) != '0'));
          int last = a.lastIndexOf('.');
        Sym.assume(a.charAt(last + 1) != '0');
        boolean same = Sym.and(x[0] == y[0], Sym.and(x[1] == y[1], x[2] == y[2]));
        Object v = form == 0 ? (Object) a : new ComparableVersion(a);
        String e = form == 2 ? "v " + op + " w" : "v " + op + " " + b;
        H.checkBool(H.bool(e, H.data("v", v, "w", new ComparableVersion(b))), eq ? same : !same, "version " + op + " version");
        Sym.cover("compared");
    }
    /** a version literal whose first component has several digits */
    public static void multiDigitFirst() {
        Sym.hashZero();
        String a = H.digits("a0", 2) + ".4.7";
        Sym.check(H.bool("v <= " + a, H.data("v", "9.9.9")).isSuccess(), "version literal with a multi-digit first component");
        Sym.cover("compared");
    }
    /** long components in two fields, texts and version objects */
    public static void longFields() {
        String d = "20240131235959123456";
        int len = 8 + Sym.choose("len", 12), rep = Sym.choose("rep", 3);
        String p = d.substring(0, len - 1), tail = Sym.choose("place", 2) == 0 ? ".3" : "";
        String a = "1.2." + p + Sym.anyString("a", 1, "0123456789") + tail, b = "1.2." + p + Sym.anyString("b", 1, "0123456789") + tail;
        int c = a.charAt(3 + len) - b.charAt(3 + len);
        Sym.bound("fields with one component of 8 to 19 digits that differs in its last digit");
        for (String op : ORDER)
            H.checkBool(H.bool("v " + op + " w", H.data("v", rep == 1 ? a : new ComparableVersion(a), "w", rep == 2 ? b : new ComparableVersion(b))), H.holds(op, c), "long version component of a field " + op);
        Sym.cover("compared");
    }
}
