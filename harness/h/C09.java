package h;

import io.vavr.control.Try;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Map;
import sx.Sym;

/** AND, OR and NOT combine predicates of every kind by their truth tables. */
public class C09 {
    static final String[] AND = {"and", "AND", "&&"}, OR = {"or", "OR", "||"}, NOT = {"not", "NOT"};
    private static boolean op(boolean or, boolean x, boolean y) { return or ? Sym.or(x, y) : Sym.and(x, y); }
    private static String w(boolean or) { return or ? "or" : "and"; }
    /** two boolean fields, every alias, with and without negations and parentheses */
    public static void two() {
        boolean a = Sym.anyBool("a"), b = Sym.anyBool("b");
        boolean or = Sym.choose("or", 2) == 1;
        String o = H.pick("alias", or ? OR : AND), n = H.pick("not", NOT);
        int na = Sym.choose("na", 4), nb = Sym.choose("nb", 4);
        boolean paren = Sym.choose("paren", 2) == 1;
        String e = neg(n, na, "a") + " " + o + " " + neg(n, nb, "b");
        if (paren) e = "(" + e + ")";
        boolean x = (na & 1) != 0 ? !a : a, y = (nb & 1) != 0 ? !b : b;
        H.checkBool(H.bool(e, H.data("a", a, "b", b)), op(or, x, y), "two operands");
        Sym.cover("evaluated");
    }
    private static String neg(String n, int k, String f) { return k == 0 ? f : k == 1 ? n + " " + f : k == 2 ? n + " " + n + " " + f : n + " (" + f + ")"; }
    /** every full bracketing of 3 and 4 leaves with every choice of operators and negated groups */
    public static void grouping() {
        int leaves = 3 + Sym.choose("leaves", 2);
        boolean[] v = new boolean[leaves];
        Map<String, Object> d = H.data();
        for (int i = 0; i < leaves; i++) { v[i] = Sym.anyBool("p" + i); d.put("p" + i, v[i]); }
        boolean o0 = Sym.choose("o0", 2) == 1, o1 = Sym.choose("o1", 2) == 1, o2 = leaves == 4 && Sym.choose("o2", 2) == 1;
        boolean n = Sym.choose("neg", 2) == 1;
        String N = n ? "not " : "";
        String e;
        boolean x;
        if (leaves == 3) {
            if (Sym.choose("shape", 2) == 0) { e = N + "(p0 " + w(o0) + " p1) " + w(o1) + " p2"; boolean g = op(o0, v[0], v[1]); x = op(o1, n ? !g : g, v[2]); }
            else { e = "p0 " + w(o0) + " " + N + "(p1 " + w(o1) + " p2)"; boolean g = op(o1, v[1], v[2]); x = op(o0, v[0], n ? !g : g); }
        } else {
            int s = Sym.choose("shape", 5);
            boolean g, h;
            switch (s) {
                case 0: e = N + "((p0 " + w(o0) + " p1) " + w(o1) + " p2) " + w(o2) + " p3"; g = op(o1, op(o0, v[0], v[1]), v[2]); x = op(o2, n ? !g : g, v[3]); break;
                case 1: e = "(p0 " + w(o0) + " " + N + "(p1 " + w(o1) + " p2)) " + w(o2) + " p3"; g = op(o1, v[1], v[2]); x = op(o2, op(o0, v[0], n ? !g : g), v[3]); break;
                case 2: e = "(p0 " + w(o0) + " p1) " + w(o1) + " " + N + "(p2 " + w(o2) + " p3)"; g = op(o0, v[0], v[1]); h = op(o2, v[2], v[3]); x = op(o1, g, n ? !h : h); break;
                case 3: e = "p0 " + w(o0) + " ((p1 " + w(o1) + " p2) " + w(o2) + " p3)"; g = op(o2, op(o1, v[1], v[2]), v[3]); x = op(o0, v[0], g); break;
                default: e = "p0 " + w(o0) + " (p1 " + w(o1) + " " + N + "(p2 " + w(o2) + " p3))"; g = op(o2, v[2], v[3]); x = op(o0, v[0], op(o1, v[1], n ? !g : g));
            }
        }
        Sym.bound("all bracketings of 3 and 4 operands");
        H.checkBool(H.bool(e, d), x, "bracketed operands");
        Sym.cover("evaluated");
    }
    /** chains of one operator without parentheses */
    public static void chains() {
        int n = 3 + Sym.choose("n", 6);
        boolean or = Sym.choose("or", 2) == 1;
        String e = "";
        boolean x = !or;
        Map<String, Object> d = H.data();
        for (int i = 0; i < n; i++) {
            boolean v = Sym.anyBool("p" + i);
            d.put("p" + i, v);
            boolean neg = i == 1;
            e = e + (i == 0 ? "" : " " + w(or) + " ") + (neg ? "not p" : "p") + i;
            x = op(or, x, neg ? !v : v);
        }
        Sym.bound("chains of 3 to 8 operands");
        H.checkBool(H.bool(e, d), x, "chain of one operator");
        Sym.cover("evaluated");
    }
    static final int KINDS = 14;
    static String pred(int k) {
        switch (k) {
            case 0: return "i > 10";
            case 1: return "i 5 to 20";
            case 2: return "i in (1, 12, 30)";
            case 3: return "i not in (1, 12, 30)";
            case 4: return "l contains_any (4, 7)";
            case 5: return "l contains_all (3, 4)";
            case 6: return "b";
            case 7: return "not b";
            case 8: return "z = null";
            case 9: return "i != null";
            case 10: return "(i + j) > 10";
            case 11: return "min(i, j) < 4";
            case 12: return "(b or i = 7)";
            default: return "10 >= i";
        }
    }
    static boolean truth(int k, int i, int j, boolean b, int l0) {
        boolean in = Sym.or(i == 1, Sym.or(i == 12, i == 30));
        switch (k) {
            case 0: return i > 10;
            case 1: return Sym.and(i >= 5, i <= 20);
            case 2: return in;
            case 3: return Sym.not(in);
            case 4: return Sym.or(l0 == 4, l0 == 7);
            case 5: return l0 == 4;
            case 6: return b;
            case 7: return Sym.not(b);
            case 8: return true;
            case 9: return true;
            case 10: return (long) i + j > 10;
            case 11: return Sym.or(i < 4, j < 4);
            case 12: return Sym.or(b, i == 7);
            default: return i <= 10;
        }
    }
    private static void combine(int p, int q, boolean or, int form) {
        int i = Sym.anyInt("i"), j = Sym.anyInt("j"), l0 = Sym.anyInt("l0");
        boolean b = Sym.anyBool("b");
        Map<String, Object> d = H.data("i", i, "j", j, "b", b, "l", new ArrayList<Object>(Arrays.asList(l0, 3)), "z", null);
        boolean x = truth(p, i, j, b, l0), y = truth(q, i, j, b, l0);
        String P = pred(p), Q = pred(q), e;
        boolean r;
        if (form == 0) { e = P + " " + w(or) + " " + Q; r = op(or, x, y); }
        else if (form == 1) { e = "not (" + P + ") " + w(or) + " (" + Q + ")"; r = op(or, Sym.not(x), y); }
        else { e = "(" + P + ") " + w(or) + " not (" + Q + ")"; r = op(or, x, Sym.not(y)); }
        H.checkBool(H.bool(e, d), r, "predicates of two kinds");
        Sym.cover("evaluated");
    }
    /** every ordered pair of predicate kinds */
    public static void kinds() {
        int p = Sym.choose("p", KINDS), q = Sym.choose("q", KINDS);
        Sym.bound("every ordered pair of 14 kinds of predicate under AND or OR");
        combine(p, q, ((p + q) & 1) == 0, 0);
    }
    public static void kindsNegated() {
        int p = Sym.choose("p", KINDS), q = Sym.choose("q", 3);
        combine(p, new int[]{2, 6, 10}[q], (p & 1) == 0, 1 + ((p >> 1) & 1));
    }
    public static void kindsThorough() { combine(Sym.choose("p", KINDS), Sym.choose("q", KINDS), Sym.choose("or", 2) == 1, Sym.choose("form", 3)); }
    /** three predicates of different kinds, bracketed either way */
    public static void threeKinds() {
        int i = Sym.anyInt("i"), j = Sym.anyInt("j"), l0 = Sym.anyInt("l0");
        boolean b = Sym.anyBool("b");
        Map<String, Object> d = H.data("i", i, "j", j, "b", b, "l", new ArrayList<Object>(Arrays.asList(l0, 3)), "z", null);
        int s = Sym.choose("start", KINDS), step = Sym.thorough() ? 1 + 2 * Sym.choose("step", 3) : 3;
        int p = s, q = (s + step) % KINDS, r = (s + 2 * step + 1) % KINDS;
        boolean x = truth(p, i, j, b, l0), y = truth(q, i, j, b, l0), z = truth(r, i, j, b, l0);
        if ((Sym.thorough() ? Sym.choose("shape", 2) : s & 1) == 0) H.checkBool(H.bool("(" + pred(p) + " and " + pred(q) + ") or " + pred(r), d), Sym.or(Sym.and(x, y), z), "three kinds");
        else H.checkBool(H.bool(pred(p) + " and (" + pred(q) + " or " + pred(r) + ")", d), Sym.and(x, Sym.or(y, z)), "three kinds");
        Sym.cover("evaluated");
    }
    /** the left operand decides without the right one being evaluated */
    public static void shortCircuit() {
        boolean a = Sym.anyBool("a");
        Try<Boolean> r = H.bool("a and missing > 3", H.data("a", a)), s = H.bool("a or missing > 3", H.data("a", a));
        if (a) { H.fails(r, "right operand of AND needed"); H.checkBool(s, true, "OR decided by its left operand"); }
        else { H.checkBool(r, false, "AND decided by its left operand"); H.fails(s, "right operand of OR needed"); }
        Sym.cover("evaluated");
    }
    /** AND and OR mixed without parentheses */
    public static void precedence() {
        boolean a = Sym.anyBool("a"), b = Sym.anyBool("b"), c = Sym.anyBool("c");
        Map<String, Object> d = H.data("a", a, "b", b, "c", c);
        boolean r = H.bool("a or b and c", d).get(), s = H.bool("a and b or c", d).get();
        boolean good = Sym.or(a, Sym.and(b, c)), leftToRight = Sym.and(Sym.or(a, b), c);
        Sym.check(Sym.iff(r, good), "AND binds tighter than OR");
        Sym.check(Sym.or(Sym.iff(r, good), Sym.iff(r, leftToRight)), "a or b and c read in one of the two ways");
        Sym.check(Sym.iff(s, Sym.or(Sym.and(a, b), c)), "a and b or c");
        Sym.cover("evaluated");
    }
    /** nesting depth */
    public static void deep() {
        int n = 1 + Sym.choose("depth", 6);
        String e = "p0";
        boolean v = Sym.anyBool("p0"), x = v;
        Map<String, Object> d = H.data("p0", v);
        for (int i = 1; i <= n; i++) {
            boolean p = Sym.anyBool("p" + i), or = (i & 1) == 0;
            d.put("p" + i, p);
            if (i % 3 == 2) { e = "p" + i + " " + w(or) + " not (" + e + ")"; x = op(or, p, Sym.not(x)); }
            else { e = "(" + e + ") " + w(or) + " p" + i; x = op(or, x, p); }
        }
        Sym.bound("nesting to depth 6");
        H.checkBool(H.bool(e, d), x, "deep nesting");
        Sym.cover("evaluated");
    }
    private static final int[] DEPTHS = {7, 8, 9, 10, 12, 15, 16, 17, 18, 20, 24, 31, 32, 33, 40};
    /** groups nested on the right, on the left or within each other, far beyond what anybody writes */
    public static void veryDeep() {
        int n = DEPTHS[Sym.choose("depth", Sym.thorough() ? DEPTHS.length : 12)], shape = Sym.choose("shape", 4);
        boolean p = Sym.anyBool("p"), q = Sym.anyBool("q"), or = Sym.choose("or", 2) == 1;
        // the outermost and the innermost leaf decide; the others are neutral
        String neutral = or ? "f" : "t", e = shape == 3 ? "q" : "q = true";
        String suffix = H.pick("leaf", "", " = true", " != false");
        for (int i = 1; i <= n; i++) {
            String leaf = (i == n ? "p" : neutral) + suffix;
            if (shape == 0) e = leaf + " " + w(or) + " (" + e + ")";
            else if (shape == 1) e = "(" + e + ") " + w(or) + " " + leaf;
            else if (shape == 2) e = i == n ? leaf + " " + w(or) + " " + e : "(" + e + ")";
            else e = i == n ? leaf + " " + w(or) + " (" + e + ")" : "not (" + e + ")";
        }
        boolean x = shape == 3 && n % 2 == 0 ? !q : q;
        Sym.bound("veryDeep: groups or negations nested to a depth of 31 (thorough: 40), innermost and outermost operand symbolic");
        H.checkBool(H.bool(e, H.data("p", p, "q", q, "t", true, "f", false)), op(or, p, x), "very deep nesting");
        Sym.cover("evaluated");
    }
    /** long chains: the first, a middle and the last operand decide */
    public static void longChains() {
        int n = DEPTHS[Sym.choose("n", DEPTHS.length)] + 1, at = Sym.choose("at", 2) == 0 ? n / 2 : n - 2;
        boolean p = Sym.anyBool("p"), q = Sym.anyBool("q"), r = Sym.anyBool("r"), or = Sym.choose("or", 2) == 1, mixed = Sym.choose("mixed", 2) == 1;
        StringBuilder e = new StringBuilder();
        for (int i = 0; i < n; i++) {
            String leaf = i == 0 ? "p" : i == at ? "q" : i == n - 1 ? "r" : !mixed ? or ? "f" : "t" : i % 2 == 0 ? or ? "i > 9" : "i 1 to 9" : or ? "i in (8, 9)" : "(not f)";
            e.append(i == 0 ? "" : " " + w(or) + " ").append(leaf);
        }
        Sym.bound("longChains: chains of 8 to 41 operands, three of them symbolic");
        H.checkBool(H.bool(e.toString(), H.data("p", p, "q", q, "r", r, "t", true, "f", false, "i", 5)), op(or, op(or, p, q), r), "long chain");
        Sym.cover("evaluated");
    }
}
