package h;

import io.vavr.control.Try;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Map;
import sx.Sym;

/** Spelling variants of keywords and the amount of white space do not change the meaning. */
public class C28 {
    private static Map<String, Object> data() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b");
        return H.data("a", a, "b", b, "c", Sym.anyBool("c"), "d", Sym.anyBool("d"), "l", new ArrayList<Object>(Arrays.asList(a, b, 3)), "s", Sym.anyString("s", 2, "ab "));
    }
    private static final String[] BOOL = {"c and d", "c or d", "not c", "c and not d", "a in ( 1 , b )", "a not in ( 1 , b )", "a 1 to 5", "l contains_any ( 1 , 2 )", "l contains_all ( 1 , 3 )", "min ( a , b ) < 3", "max ( a , b ) < 3", "sum ( a , b ) < 3", "avg ( a , b ) < 3", "mean ( a , b ) < 3", "median ( a , b ) < 3", "mode ( a , b ) < 3", "len ( s ) < 3", "int ( a ) < 3", "days_elapsed ( 2020-01-01 ) > 3", "c = true", "c != false", "( c or d ) and ( a = 10 )", "( a + b ) * 2 = 7", "( a - b ) % 3 = 7", "a >= 5 and b <= 6", "s = 'a b'", "not ( a > b or c )"};
    private static final String[] WORDS = {"and", "or", "not", "in", "to", "contains_any", "contains_all", "min", "max", "sum", "avg", "mean", "median", "mode", "len", "int", "days_elapsed", "true", "false"};
    private static boolean word(String t) { for (String w : WORDS) if (w.equals(t)) return true; return false; }
    private static String[] tokens(String e) { return e.replace("'a b'", "'a~b'").split(" "); }
    /** upper case, and the symbols for AND and OR */
    public static void aliases() {
        int i = Sym.choose("e", BOOL.length);
        Map<String, Object> d = data();
        Try<Boolean> r = H.bool(BOOL[i], d);
        String upper = "", symbols = "";
        for (String t : tokens(BOOL[i])) {
            String u = t.replace("~", " ");
            upper = upper + " " + (word(t) ? t.toUpperCase() : u);
            symbols = symbols + " " + (t.equals("and") ? "&&" : t.equals("or") ? "||" : u);
        }
        Sym.bound("27 expressions that use every keyword");
        C25.same(H.bool(upper.substring(1), d), r, "upper case");
        C25.same(H.bool(symbols.substring(1), d), r, "&& and ||");
        Sym.cover("evaluated");
    }
    /** any white space between tokens, and around the expression */
    public static void whiteSpace() {
        int i = Sym.choose("e", BOOL.length);
        Map<String, Object> d = data();
        Try<Boolean> r = H.bool(BOOL[i], d);
        String w = Sym.anyString("w", 1 + Sym.choose("n", Sym.thorough() ? 3 : 2), " \t\n\r");
        String e = w;
        for (String t : tokens(BOOL[i])) e = e + t.replace("~", " ") + w;
        Sym.bound("1 or 2 (thorough: 1 to 3) characters of white space (blank, tab, newline, return) between all tokens");
        C25.same(H.bool(e, d), r, "white space");
        Sym.cover("evaluated");
    }
    /** no white space where none is needed */
    public static void noWhiteSpace() {
        int i = Sym.choose("e", BOOL.length);
        Map<String, Object> d = data();
        Try<Boolean> r = H.bool(BOOL[i], d);
        String e = "", last = "(";
        for (String t : tokens(BOOL[i])) {
            boolean glue = Character.isLetterOrDigit(last.charAt(last.length() - 1)) && Character.isLetterOrDigit(t.charAt(0));
            e = e + (glue ? " " : "") + t.replace("~", " ");
            last = t;
        }
        C25.same(H.bool(e, d), r, "no white space");
        Sym.cover("evaluated");
    }
    /** superfluous parentheses */
    public static void parentheses() {
        int i = Sym.choose("e", BOOL.length);
        Map<String, Object> d = data();
        C25.same(H.bool("(" + BOOL[i] + ")", d), H.bool(BOOL[i], d), "parentheses around the expression");
        C25.same(H.bool("((" + BOOL[i] + ")) and (true)", d), H.bool(BOOL[i], d), "parentheses around the operands");
        Sym.cover("evaluated");
    }
    /** either kind of quotes */
    public static void quotes() {
        String t = Sym.anyString("t", 2, "ab ");
        Map<String, Object> d = data();
        C25.same(H.bool("s = \"" + t + "\"", d), H.bool("s = '" + t + "'", d), "quotes");
        C25.same(H.bool("s in (\"" + t + "\", 'b')", d), H.bool("s in ('" + t + "', \"b\")", d), "quotes");
        Sym.cover("evaluated");
    }
    /** keywords in mixed case */
    public static void mixedCase() {
        Map<String, Object> d = data();
        String[] e = {"c And d", "c Or d", "Not c", "a In (1, b)", "a 1 To 5", "l Contains_Any (1)", "Min(a, b) < 3", "c = True", "Len(s) < 3"};
        int i = Sym.choose("e", e.length);
        C25.same(H.bool(e[i], d), H.bool(e[i].toLowerCase(), d), "mixed-case keyword: " + e[i]);
        Sym.cover("evaluated");
    }
    /** the language of the machine, where the letter i has another upper case */
    public static void locale() {
        int i = Sym.choose("e", BOOL.length);
        boolean up = Sym.choose("upper", 2) == 1;
        Map<String, Object> d = data();
        Try<Boolean> r = H.bool(BOOL[i], d);
        String e = "";
        for (String t : tokens(BOOL[i])) e = e + " " + (up && word(t) ? t.toUpperCase() : t.replace("~", " "));
        Sym.bound("default locales: the neutral and the Turkish one");
        Sym.locale("tr");
        C25.same(H.bool(e.substring(1), d), r, "default locale");
        Sym.cover("evaluated");
    }
}
