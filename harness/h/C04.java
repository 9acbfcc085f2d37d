package h;

import java.time.LocalDate;
import java.time.LocalDateTime;
import sx.Sym;

/** Dates and date-times are compared chronologically in every representation. */
public class C04 {
    static final int Y0 = 1000, Y1 = 9999;
    static long key(LocalDate d) { return d.getYear() * 10000L + d.getMonthValue() * 100L + d.getDayOfMonth(); }
    static long key(LocalDateTime t) { return key(t.toLocalDate()) * 1000000L + t.getHour() * 10000L + t.getMinute() * 100L + t.getSecond(); }
    private static boolean holds(String op, long x, long y) {
        switch (op) {
            case "=": return x == y;
            case "!=": return x != y;
            case "<": return x < y;
            case "<=": return x <= y;
            case ">": return x > y;
            default: return x >= y;
        }
    }
    /** LocalDate fields and ISO text fields in any combination */
    public static void dateFields() {
        LocalDate a = Sym.anyDate("a", Y0, Y1), b = Sym.anyDate("b", Y0, Y1);
        int rep = Sym.choose("rep", 4);
        Object x = (rep & 1) == 0 ? a : a.toString(), y = (rep & 2) == 0 ? b : b.toString();
        String op = H.pick("op", H.OPS);
        Sym.bound("dates of the years 1000 to 9999, date-times to the second");
        H.checkBool(H.bool("a " + op + " b", H.data("a", x, "b", y)), holds(op, key(a), key(b)), "date " + op + " date");
        Sym.cover("compared");
    }
    /** a date literal */
    public static void dateLiteral() {
        LocalDate a = Sym.anyDate("a", Y0, Y1), b = Sym.anyDate("b", Y0, Y1);
        Object x = Sym.choose("rep", 2) == 0 ? a : a.toString();
        String op = H.pick("op", H.OPS);
        boolean left = Sym.choose("side", 2) == 1;
        H.checkBool(H.bool(left ? b + " " + op + " a" : "a " + op + " " + b, H.data("a", x)), left ? holds(op, key(b), key(a)) : holds(op, key(a), key(b)), "date " + op + " date literal");
        Sym.cover("compared");
    }
    static String text(LocalDateTime t) { return t.toLocalDate() + " " + p(t.getHour()) + ":" + p(t.getMinute()) + ":" + p(t.getSecond()); }
    private static String p(int n) { return "" + (char) ('0' + n / 10) + (char) ('0' + n % 10); }
    public static void dateTimeFields() {
        LocalDateTime a = Sym.anyDateTime("a", Y0, Y1), b = Sym.anyDateTime("b", Y0, Y1);
        int rep = Sym.choose("rep", 4);
        Object x = (rep & 1) == 0 ? a : text(a), y = (rep & 2) == 0 ? b : text(b);
        String op = H.pick("op", H.OPS);
        H.checkBool(H.bool("a " + op + " b", H.data("a", x, "b", y)), holds(op, key(a), key(b)), "date-time " + op + " date-time");
        Sym.cover("compared");
    }
    public static void dateTimeLiteral() {
        LocalDateTime a = Sym.anyDateTime("a", Y0, Y1), b = Sym.anyDateTime("b", Y0, Y1);
        Object x = Sym.choose("rep", 2) == 0 ? a : text(a);
        String op = H.pick("op", H.OPS);
        boolean left = Sym.choose("side", 2) == 1;
        H.checkBool(H.bool(left ? text(b) + " " + op + " a" : "a " + op + " " + text(b), H.data("a", x)), left ? holds(op, key(b), key(a)) : holds(op, key(a), key(b)), "date-time " + op + " date-time literal");
        Sym.cover("compared");
    }
    /** IN and NOT IN over dates and date-times, as literals, fields and text */
    public static void membership() {
        LocalDate a = Sym.anyDate("a", Y0, Y1), b = Sym.anyDate("b", Y0, Y1), c = Sym.anyDate("c", Y0, Y1);
        boolean not = Sym.choose("not", 2) == 1;
        int rep = Sym.choose("rep", 4);
        Object x = (rep & 1) == 0 ? a : a.toString(), z = (rep & 2) == 0 ? c : c.toString();
        boolean in = Sym.or(key(a) == key(b), key(a) == key(c));
        H.checkBool(H.bool("a " + (not ? "not in" : "in") + " (" + b + ", c)", H.data("a", x, "c", z)), not ? !in : in, "date IN dates");
        Sym.cover("compared");
    }
    public static void membershipDateTime() {
        LocalDateTime a = Sym.anyDateTime("a", Y0, Y1), b = Sym.anyDateTime("b", Y0, Y1), c = Sym.anyDateTime("c", Y0, Y1);
        int rep = Sym.choose("rep", 4);
        Object x = (rep & 1) == 0 ? a : text(a), z = (rep & 2) == 0 ? c : text(c);
        H.checkBool(H.bool("a in (" + text(b) + ", c)", H.data("a", x, "c", z)), Sym.or(key(a) == key(b), key(a) == key(c)), "date-time IN date-times");
        Sym.cover("compared");
    }
    /** date-time objects down to the nanosecond, against each other and against text */
    public static void fractions() {
        int an = Sym.anyInt("a.nano", 0, 999999999), bn = Sym.anyInt("b.nano", 0, 999999999);
        LocalDateTime a = Sym.anyDateTime("a", Y0, Y1).withNano(an), b = Sym.anyDateTime("b", Y0, Y1);
        boolean text = Sym.choose("text", 2) == 1, swap = Sym.choose("swap", 2) == 1;
        if (!text) b = b.withNano(bn);
        String op = H.pick("op", H.OPS);
        Sym.bound("fractions: date-time objects with any nanosecond, against another or against text");
        long ka = key(a), kb = key(b);
        int nb = text ? 0 : bn;
        boolean lt = Sym.or(ka < kb, Sym.and(ka == kb, an < nb)), eq = Sym.and(ka == kb, an == nb), gt = Sym.not(Sym.or(lt, eq));
        boolean less = swap ? gt : lt;
        boolean expected = op.equals("=") ? eq : op.equals("!=") ? Sym.not(eq) : op.equals("<") ? less : op.equals("<=") ? Sym.or(less, eq) : op.equals(">") ? Sym.not(Sym.or(less, eq)) : Sym.not(less);
        Object y = text ? text(b) : b;
        H.checkBool(H.bool(swap ? "b " + op + " a" : "a " + op + " b", H.data("a", a, "b", y)), expected, "date-time with fraction " + op + " date-time");
        Sym.cover("compared");
    }
}
