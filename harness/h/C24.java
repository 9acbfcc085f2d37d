package h;

import io.vavr.control.Try;
import java.math.BigDecimal;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Map;
import sx.Sym;

/** A literal stands for exactly the value it spells; one that cannot be represented is a failure. */
public class C24 {
    /** integers of any length */
    public static void integers() {
        int n = 1 + Sym.choose("len", Sym.thorough() ? 21 : 19);
        String k = H.digits("k", n);
        Sym.bound("integer literals of 1 to 19 digits (thorough: 21), with 0 to 2 leading zeros");
        String z = n > 6 ? "" : new String[]{"", "0", "00"}[Sym.choose("zeros", 3)];
        Try<Object> r = H.arith(z + k, H.data());
        BigDecimal v = new BigDecimal(k);
        boolean fits = v.compareTo(C13.MAX) <= 0;
        if (r.isFailure()) { Sym.check(Sym.not(fits), "integer literal: fails only beyond 64 bits"); Sym.cover("rejected"); return; }
        H.checkNum(r, v, "integer literal");
        Sym.cover("evaluated");
    }
    public static void zero() {
        for (String z : new String[]{"0", "00", "0.0", "0.00", "000.000"}) H.checkNum(H.arith(z, H.data()), BigDecimal.ZERO, "zero literal");
        Sym.cover("evaluated");
    }
    /** decimals keep every digit */
    public static void decimals() {
        int n = 1 + Sym.choose("whole", Sym.thorough() ? 12 : 6), f = 1 + Sym.choose("frac", Sym.thorough() ? 10 : 6);
        String k = H.digits("k", n) + "." + Sym.anyString("f", f, "0123456789");
        Sym.bound("decimal literals with 1 to 6 whole and 1 to 6 fraction digits (thorough: 12 and 10), and long ones of 25 and 20 digits");
        H.checkNum(H.arith(k, H.data()), new BigDecimal(k), "decimal literal");
        Sym.cover("evaluated");
    }
    public static void longDecimals() {
        String k = H.digits("k", 25) + "." + Sym.anyString("f", 20, "0123456789"), l = "0." + Sym.anyString("g", 30, "0123456789");
        H.checkNum(H.arith(k, H.data()), new BigDecimal(k), "long decimal literal");
        H.checkNum(H.arith(l, H.data()), new BigDecimal(l), "long decimal literal");
        Sym.cover("evaluated");
    }
    /** quoted text: every character counts, nothing inside is interpreted */
    public static void text() {
        int n = Sym.choose("len", Sym.thorough() ? 7 : 5);
        boolean dq = Sym.choose("double", 2) == 1;
        String s = Sym.anyString("s", n, "aZ09 _-.+*/%^()=<>!,;&|#\t\\\u00e9" + (dq ? "'" : "\""));
        Sym.bound("quoted texts of 0 to 4 characters (thorough: 6) over 32 characters including operators, parentheses and the other quote");
        String q = dq ? "\"" : "'";
        Try<Object> r = H.arith(q + s + q, H.data());
        Sym.check(r.isSuccess(), "quoted text: evaluation succeeds");
        Sym.check(r.get() instanceof String, "quoted text is a text");
        Sym.check(s.equals(r.get()), "quoted text");
        String t = Sym.anyString("t", n, "aZ09 (=");
        H.checkBool(H.bool("x = " + q + s + q, H.data("x", t)), s.equals(t), "quoted text in a comparison");
        Sym.cover("evaluated");
    }
    /** keywords, numbers and dates in quotes are text */
    public static void quotedWords() {
        String[] w = {"and", "NOT", "true", "null", "12", "1.5", "1.2.3", "2020-01-01", "2020-01-01 10:00:00", "min", "a and b", "(x)", "x = 3", "in (1, 2)", "  x  ", "It's", ""};
        for (String s : w) {
            Try<Object> r = H.arith("\"" + s + "\"", H.data());
            Sym.check(r.isSuccess() && s.equals(r.get()), "quoted word " + s);
            H.checkBool(H.bool("x = \"" + s + "\" and y != \"" + s + "\"", H.data("x", s, "y", s + "y")), true, "quoted word in a comparison: " + s);
        }
        Sym.cover("evaluated");
    }
    public static void booleans() {
        boolean b = Sym.anyBool("b");
        Map<String, Object> d = H.data("b", b);
        for (String t : new String[]{"true", "TRUE"}) {
            H.checkBool(H.bool(t, d), true, "true"); H.checkBool(H.bool("b = " + t, d), b, "= true"); H.checkBool(H.bool("b != " + t, d), !b, "!= true"); H.checkBool(H.bool("b and " + t, d), b, "and true"); H.checkBool(H.bool("not " + t, d), false, "not true");
        }
        for (String f : new String[]{"false", "FALSE"}) {
            H.checkBool(H.bool(f, d), false, "false"); H.checkBool(H.bool("b = " + f, d), !b, "= false"); H.checkBool(H.bool("b or " + f, d), b, "or false"); H.checkBool(H.bool("not " + f, d), true, "not false");
        }
        Sym.cover("evaluated");
    }
    public static void dates() {
        LocalDate x = Sym.anyDate("x", 1000, 9999);
        Try<Object> r = H.arith("" + x, H.data());
        Sym.bound("all dates and times of the years 1000 to 9999 (times by the second)");
        Sym.check(r.isSuccess() && r.get() instanceof LocalDate, "date literal: evaluation succeeds");
        Sym.check(x.equals(r.get()), "date literal");
        Sym.cover("evaluated");
    }
    public static void dateTimes() {
        LocalDateTime x = Sym.anyDateTime("x", 1000, 9999);
        String h = Sym.anyString("h", 2, "0123456789"), m = Sym.anyString("m", 2, "0123456789"), s = Sym.anyString("s", 2, "0123456789");
        Sym.assume(Sym.and(number(h) == x.getHour(), Sym.and(number(m) == x.getMinute(), number(s) == x.getSecond())));
        Try<Object> r = H.arith(x.toLocalDate() + " " + h + ":" + m + ":" + s, H.data());
        Sym.check(r.isSuccess() && r.get() instanceof LocalDateTime, "datetime literal: evaluation succeeds");
        Sym.check(x.equals(r.get()), "datetime literal");
        Sym.cover("evaluated");
    }
    private static int number(String s) { return (s.charAt(0) - '0') * 10 + s.charAt(1) - '0'; }
    /** days and months that do not exist are not dates, wherever the literal stands */
    public static void notADate() {
        String y = Sym.anyString("y", 4, "0123456789"), m = Sym.anyString("m", 2, "0123456789"), d = Sym.anyString("d", 2, "0123456789");
        int year = number(y) * 100 + number(y.substring(2)), month = number(m), day = number(d);
        boolean leap = Sym.and(year % 4 == 0, Sym.or(year % 100 != 0, year % 400 == 0));
        boolean shortMonth = Sym.or(Sym.or(month == 4, month == 6), Sym.or(month == 9, month == 11));
        boolean beyond = Sym.or(day > 31, Sym.or(Sym.and(shortMonth, day > 30), Sym.and(month == 2, Sym.or(day > 29, Sym.and(Sym.not(leap), day > 28)))));
        Sym.assume(Sym.or(Sym.or(month < 1, month > 12), Sym.or(day < 1, beyond)));
        Sym.bound("all texts in the form of a date that are none");
        String k = y + "-" + m + "-" + d;
        int f = Sym.choose("form", 10);
        LocalDate x = Sym.anyDate("x", 1900, 2100);
        Map<String, Object> v = H.data("x", x, "n", 3, "l", new ArrayList<Object>(Arrays.asList(x, 3)));
        String[] e = {"x = K", "x != K", "x > K", "x in (2020-01-01, K)", "x not in (K)", "l contains_any (K)", "not (x < K)", "K", "K + n", "len(K)"};
        String t = Sym.choose("time", 2) == 1 ? k + " 10:00:00" : k;
        H.fails(f < 7 ? H.bool(e[f].replace("K", t), v) : H.arith(e[f].replace("K", t), v), "a date literal that is no date fails");
        if (f == 8) H.fails(H.bool("days_elapsed(" + k + ") > n", v), "a date literal that is no date fails");
        Sym.cover("evaluated");
    }
    /** a time that does not exist */
    public static void notATime() {
        String h = Sym.anyString("h", 2, "0123456789"), m = Sym.anyString("m", 2, "0123456789"), s = Sym.anyString("s", 2, "0123456789");
        Sym.assume(Sym.or(number(h) > 23, Sym.or(number(m) > 59, number(s) > 59)));
        String k = "2024-02-28 " + h + ":" + m + ":" + s;
        H.fails(H.bool("x = " + k, H.data("x", LocalDateTime.of(2024, 2, 29, 0, 0))), "a time that does not exist fails");
        H.fails(H.arith(k, H.data()), "a time that does not exist fails");
        Sym.cover("evaluated");
    }
    /** text in the form of a date that is none stays text */
    public static void textLikeADate() {
        String k = "20" + Sym.anyString("k", 2, "0123456789") + "-02-" + H.pick("d", "30", "31", "29");
        int year = 2000 + number(k.substring(2, 4));
        Sym.assume(Sym.or(!k.endsWith("9"), year % 4 != 0));
        H.checkBool(H.bool("x = '" + k + "'", H.data("x", k)), true, "text like a date equals itself");
        String l = k.substring(0, 8) + "28";
        H.checkBool(H.bool("x = '" + l + "'", H.data("x", k)), false, "text like a date is not another date");
        H.checkBool(H.bool("x = '" + k + "'", H.data("x", l)), false, "text like a date is not another date");
        Try<Boolean> r = H.bool("x = y", H.data("x", k, "y", LocalDate.parse(l)));
        Sym.check(r.isFailure() || !r.get(), "text like a date is no date");
        Sym.cover("evaluated");
    }
    /** quoted text and numbers are never read as the field of that name */
    public static void quotedNames() {
        boolean c = Sym.anyBool("c");
        String t = H.pick("name", "c", "cd", "5", "a.b", "c d", "true");
        Map<String, Object> d = H.data(t, c, "b", true, "f", false);
        String[] e = {"Q", "not Q", "b and Q", "Q and b", "f or Q", "Q or f", "(Q)", "not (Q)", "b and not Q", "(Q or f) and b"};
        String f = H.pick("form", e), q = H.pick("quote", "'", "\"");
        H.fails(H.bool(f.replace("Q", q + t + q), d), "quoted text is not a predicate");
        for (String k : new String[]{"5", "12", "1.5", "1.2.3", "2020-01-01"}) H.fails(H.bool(f.replace("Q", k), H.data(k, c, "b", true, "f", false)), "a number or date is not a predicate");
        Sym.cover("evaluated");
    }
    /** field names: what the map holds under exactly that name */
    public static void fieldNames() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b");
        String[] n = {"x", "X", "x1", "1x", "_x", "x_y", "minimum", "android", "x9.y", "order", "inner", "nothing", "truely", "Min_", "toto", "nullable"};
        String f = n[Sym.choose("name", n.length)], g = f + "_";
        Map<String, Object> d = f.contains(".") ? H.data("x9", H.data("y", a, "y_", b)) : H.data(f, a, g, b);
        H.checkNum(H.arith(f + " - " + g, d), H.dec(a).subtract(H.dec(b)), "field name " + f);
        H.checkBool(H.bool(f + " < " + g, d), a < b, "field name " + f);
        H.checkBool(H.bool(f + " in (1, " + g + ")", d), Sym.or(a == 1, a == b), "field name " + f);
        Sym.cover("evaluated");
    }
    /** white space of every kind counts inside quotes */
    public static void quotedWhiteSpace() {
        int n = 1 + Sym.choose("len", 3);
        String s = Sym.anyString("s", n, " \t\n\r\f\u000b\u0085\u00a0"), q = H.pick("quote", "'", "\""), pre = H.pick("pre", "", "x"), t = pre + s + H.pick("post", "", "y");
        Sym.bound("quotedWhiteSpace: 1 to 3 of 8 white-space characters inside quotes");
        Try<Object> r = H.arith(q + t + q, H.data());
        Sym.check(r.isSuccess() && t.equals(r.get()), "quoted white space");
        H.checkBool(H.bool("x = " + q + t + q + " and x in (" + q + t + q + ", 'z')", H.data("x", t)), true, "quoted white space in a comparison");
        String u = pre + Sym.anyString("u", n, " \t\n\r");
        H.checkBool(H.bool("x = " + q + t + q, H.data("x", u)), t.equals(u), "quoted white space in a comparison");
        Sym.cover("evaluated");
    }
    /** text of other scripts in quotes */
    public static void quotedScripts() {
        String s = Sym.anyString("s", 1 + Sym.choose("len", 2), H.pick("script", C03.CYRILLIC, C03.GREEK, C03.KANA, C03.WIDE)), q = H.pick("quote", "'", "\"");
        String t = H.pick("pre", "", "x ", "7") + s;
        Sym.bound("quotedScripts: 1 or 2 Cyrillic, Greek, kana or full-width characters in quotes");
        Try<Object> r = H.arith(q + t + q, H.data());
        Sym.check(r.isSuccess() && t.equals(r.get()), "quoted text of another script");
        H.checkBool(H.bool("x = " + q + t + q, H.data("x", t)), true, "quoted text of another script in a comparison");
        Sym.cover("evaluated");
    }
}
