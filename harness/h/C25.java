package h;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import io.vavr.control.Try;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Map;
import sx.Sym;

/** With a caching parser every evaluation answers as without one, whatever was evaluated before and whatever was evicted. */
public class C25 {
    private static final String[] BOOL = {"a > 10", "a > b", "> 10", "a > 10 and b < 3", "not (a > 10)", "a in (1, b)", "a 1 to 5", "(a + b) > 10", "l contains_any (1)", "a >"};
    private static final String[] ARITH = {"a + b", "a - b", "min(a, b)", "-a", "a > 10", "a * 2", "len(l)"};
    private static Map<String, Object> data(String sfx) {
        int a = Sym.anyInt("a" + sfx), b = Sym.anyInt("b" + sfx);
        return H.data("a", a, "b", b, "l", new ArrayList<Object>(Arrays.asList(a, 1)));
    }
    static void same(Try<?> x, Try<?> y, String tag) {
        Sym.check(x.isSuccess() == y.isSuccess(), tag + ": both succeed or both fail");
        if (x.isSuccess() && y.isSuccess()) {
            Object v = x.get(), w = y.get();
            if (v instanceof Boolean) Sym.check((boolean) (Boolean) v == (boolean) (Boolean) w, tag);
            else if (H.isNumber(v)) Sym.check(H.dec(v).compareTo(H.dec(w)) == 0, tag);
            else Sym.check(v.equals(w), tag);
        }
        if (x.isFailure() && y.isFailure()) Sym.check(x.getCause().getClass() == y.getCause().getClass(), tag + ": same failure");
    }
    /** a sequence of predicates with different data, the parser shared */
    public static void sequence() {
        int n = Sym.thorough() ? 4 : 3, pool = Sym.thorough() ? 6 : 10;
        BooleanExpressionEvaluator cached = new BooleanExpressionEvaluator(new CachedBoolParser(2));
        Sym.bound("histories of 3 evaluations over 10 predicates (thorough: 4 over 6), every eviction");
        int prev = -1;
        for (int i = 0; i < n; i++) {
            int k = i == n - 1 && !Sym.thorough() ? prev : Sym.choose("e" + i, pool);
            if (i == 0) prev = k;
            Map<String, Object> d = data("" + i);
            same(cached.evaluate(BOOL[k], d), new BooleanExpressionEvaluator(new BoolParser()).evaluate(BOOL[k], d), "cached predicate");
        }
        Sym.cover("evaluated");
    }
    /** the default field is part of what is cached */
    public static void defaultFields() {
        String[] e = {"> 10", "a > 10", "< b and > 3", "a > b"}, f = {null, "a", "b", "c", "", "a > 10"};
        CachedBoolParser p = new CachedBoolParser(10);
        Sym.bound("histories of 2 evaluations over 4 expressions and 6 default fields");
        for (int i = 0; i < 2; i++) {
            String x = e[Sym.choose("e" + i, 4)], g = f[Sym.choose("f" + i, 6)];
            Map<String, Object> d = data("" + i);
            same(new BooleanExpressionEvaluator(p).evaluate(x, d, g), new BooleanExpressionEvaluator(new BoolParser()).evaluate(x, d, g), "cached predicate with default field");
        }
        Sym.cover("evaluated");
    }
    /** expressions that differ in one character; text and default field that together spell the same */
    public static void similar() {
        String s = Sym.anyString("s", 2, "aAbB 0"), t = Sym.anyString("t", 2, "aAbB 0"), x = Sym.anyString("x", 2, "aAbB 0");
        BooleanExpressionEvaluator cached = new BooleanExpressionEvaluator(new CachedBoolParser(10));
        Sym.bound("two expressions that differ in the two characters of a literal");
        H.checkBool(cached.evaluate("x = '" + s + "'", H.data("x", x)), x.equals(s), "cached literal");
        H.checkBool(cached.evaluate("x = '" + t + "'", H.data("x", x)), x.equals(t), "cached literal");
        H.checkBool(cached.evaluate("x = '" + s + "'", H.data("x", x)), x.equals(s), "cached literal");
        Sym.cover("evaluated");
    }
    public static void similarNumbers() {
        String k = Sym.anyString("k", 2, "123"), l = Sym.anyString("l", 2, "123");
        int x = Sym.anyInt("x");
        BooleanExpressionEvaluator cached = new BooleanExpressionEvaluator(new CachedBoolParser(1));
        H.checkBool(cached.evaluate("x > " + k, H.data("x", x)), x > Integer.parseInt(k), "cached number");
        H.checkBool(cached.evaluate("x > " + l, H.data("x", x)), x > Integer.parseInt(l), "cached number");
        Sym.cover("evaluated");
    }
    public static void concatenation() {
        CachedBoolParser p = new CachedBoolParser(10);
        String[] e = {"> 1", "> 12", "> 1", "= 'a", "> "}, f = {"2a", "a", "2", "a'", "1"};
        int i = Sym.choose("i", 5), j = Sym.choose("j", 5);
        int v = Sym.anyInt("v"), w = Sym.anyInt("w");
        Map<String, Object> d = H.data("a", v, "2a", w, "2", w);
        same(new BooleanExpressionEvaluator(p).evaluate(e[i], d, f[i]), new BooleanExpressionEvaluator(new BoolParser()).evaluate(e[i], d, f[i]), "cached with default field");
        same(new BooleanExpressionEvaluator(p).evaluate(e[j], d, f[j]), new BooleanExpressionEvaluator(new BoolParser()).evaluate(e[j], d, f[j]), "cached with default field");
        Sym.cover("evaluated");
    }
    /** one parser for predicates and arithmetic */
    public static void shared() {
        CachedBoolParser p = new CachedBoolParser(3);
        BooleanExpressionEvaluator be = new BooleanExpressionEvaluator(p);
        ArithmeticExpressionEvaluator ae = new ArithmeticExpressionEvaluator(p);
        int i = Sym.choose("i", Sym.thorough() ? 7 : 4), j = Sym.choose("j", Sym.thorough() ? 10 : 3);
        Sym.bound("histories of 4 evaluations, arithmetic and predicates in turn, over 4 x 3 pairs (thorough: 7 x 10)");
        for (int k = 0; k < 2; k++) {
            Map<String, Object> d = data("" + k);
            same(ae.evaluate(ARITH[i], d), new ArithmeticExpressionEvaluator(new BoolParser()).evaluate(ARITH[i], d), "cached arithmetic");
            same(be.evaluate(BOOL[j], d), new BooleanExpressionEvaluator(new BoolParser()).evaluate(BOOL[j], d), "cached predicate");
        }
        Sym.cover("evaluated");
    }
    /** unreadable expressions stay failures */
    public static void failures() {
        String e = H.pick("e", "a = 10 b", "", "a = 'x", ")", "a and", "a in 1");
        CachedBoolParser p = new CachedBoolParser(3);
        Map<String, Object> d = data("");
        for (int k = 0; k < 3; k++) H.fails(new BooleanExpressionEvaluator(p).evaluate(e, d), "unreadable again: " + e);
        H.checkBool(new BooleanExpressionEvaluator(p).evaluate("a = a", d), true, "readable after unreadable");
        Sym.cover("evaluated");
    }
    /** keys made of the two texts joined by anything */
    public static void joined() {
        String sep = H.pick("sep", "", " ", "|", "||", ":", "::", "_", "-", "#", ",", ";", "\n", "\t", "\u0000", "@", "/", "~", ".", "=", "null");
        CachedBoolParser p = new CachedBoolParser(10);
        String x = H.pick("expr", "> 1", "> 12", "> 1 and < 99");
        boolean front = Sym.choose("front", 2) == 1, swap = Sym.choose("swap", 2) == 1;
        String[] e = front ? new String[]{"b" + sep + x, x} : new String[]{x + sep + "2", x}, f = front ? new String[]{"a", "a" + sep + "b"} : new String[]{"a", "2" + sep + "a"};
        int v = Sym.anyInt("v"), w = Sym.anyInt("w"), u = Sym.anyInt("u");
        Map<String, Object> d = H.data("a", v, f[1], w, "b", u);
        Sym.bound("joined: 20 separators between an expression and a default field, in either order");
        for (int k = 0; k < 2; k++) {
            int i = swap ? 1 - k : k;
            same(new BooleanExpressionEvaluator(p).evaluate(e[i], d, f[i]), new BooleanExpressionEvaluator(new BoolParser()).evaluate(e[i], d, f[i]), "cached with default field");
        }
        Sym.cover("evaluated");
    }
    /** spellings that are easily taken for one */
    static final String[][] ALIKE = {{"a > 10", "A > 10"}, {"a = 'x'", "a = 'X'"}, {"a = 'x'", "a = 'x '"}, {"a = 'x  y'", "a = 'x y'"}, {"a > 1", "a > 10"}, {"a = '1'", "a = 1"}, {"a = 'Aa'", "a = 'BB'"}, {"s = 'AaBB'", "s = 'BBAa'"}, {"aAa > 1", "aBB > 1"}, {"a > b", "b > a"}, {"a > 1 and b < 2", "a > 1 or b < 2"}, {"a in (1, 2)", "a not in (1, 2)"}, {"a = 'x\ty'", "a = 'x y'"}, {"a = \"x\"", "a = 'x'"}, {"a - b > 0", "a -b > 0"}, {"(a + b) > 3", "(b + a) > 4"}, {"a = null", "a != null"}, {"a = 'null'", "a = null"}, {"a = 1.0", "a = 1.00"}, {"m.a > 1", "m.b > 1"}, {"> 10", " > 10"}, {"a > 10 ", "a > 10"}, {"a=1", "a=11"}};
    public static void alike() {
        String[] e = ALIKE[Sym.choose("pair", ALIKE.length)];
        int i = Sym.choose("first", 2);
        int v = Sym.anyInt("v", -100, 100), w = Sym.anyInt("w", -100, 100);
        Map<String, Object> d = H.data("a", Sym.choose("text", 2) == 0 ? (Object) v : Sym.anyString("t", 2, "xXAaB "), "A", w, "b", w, "s", Sym.anyString("t", 2, "xXAaB ") + "Aa", "aAa", v, "aBB", w, "m", H.data("a", v, "b", w));
        CachedBoolParser p = new CachedBoolParser(10);
        Sym.bound("alike: 23 pairs of expressions that differ in case, blanks, hash code only or order");
        for (int k = 0; k < 3; k++) {
            String x = e[k == 1 ? 1 - i : i];
            same(new BooleanExpressionEvaluator(p).evaluate(x, d, "a"), new BooleanExpressionEvaluator(new BoolParser()).evaluate(x, d, "a"), "cached predicate, one like it before");
        }
        Sym.cover("evaluated");
    }
    public static void alikeDefaults() {
        String[] f = {"a", "A", "a ", " a", "Aa", "BB", "m.a", "m.b", "null", "", null, "aa", "b"};
        int i = Sym.choose("i", f.length), j = Sym.choose("j", f.length);
        int v = Sym.anyInt("v"), w = Sym.anyInt("w");
        Map<String, Object> d = H.data("a", v, "A", w, "a ", w, "Aa", v, "BB", w, "m", H.data("a", v, "b", w), "null", w, "", v, "aa", w, "b", v, " a", w);
        CachedBoolParser p = new CachedBoolParser(10);
        Sym.bound("alikeDefaults: all ordered pairs of 13 default fields, null and the empty one among them");
        for (int k = 0; k < 2; k++) {
            String g = f[k == 0 ? i : j];
            same(new BooleanExpressionEvaluator(p).evaluate("> 10", d, g), new BooleanExpressionEvaluator(new BoolParser()).evaluate("> 10", d, g), "cached default field, one like it before");
        }
        Sym.cover("evaluated");
    }
}
