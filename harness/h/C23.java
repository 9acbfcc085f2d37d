package h;

import java.math.BigDecimal;
import java.time.LocalDate;
import java.util.Map;
import sx.Sym;

/** DAYS_ELAPSED counts the days from the date to today; negative when the date is still to come. */
public class C23 {
    private static long day(LocalDate d) { return d.toEpochDay(); }
    public static void field() {
        LocalDate x = Sym.anyDate("x", 1900, 2100);
        Sym.bound("dates from 1900 to 2100, today from 1990 to 2060");
        long e = day(Sym.today()) - day(x);
        H.checkNum(H.arith("days_elapsed(x)", H.data("x", x)), new BigDecimal(e), "DAYS_ELAPSED of a date");
        Sym.cover("evaluated");
    }
    /** the same against an independent calendar: days counted from 0000-03-01 by the civil rules */
    public static void calendarThorough() {
        LocalDate x = Sym.anyDate("x", 1990, 2030);
        H.checkNum(H.arith("days_elapsed(x)", H.data("x", x)), new BigDecimal(civil(Sym.today()) - civil(x)), "DAYS_ELAPSED by the civil calendar");
        Sym.cover("evaluated");
    }
    private static long civil(LocalDate d) {
        int y = d.getYear(), m = d.getMonthValue(), k = d.getDayOfMonth();
        long f = m > 2 ? m - 3 : m + 9, z = m > 2 ? y : y - 1;
        return z * 365 + z / 4 - z / 100 + z / 400 + (153 * f + 2) / 5 + k;
    }
    /** a date given as text */
    public static void text() {
        LocalDate x = Sym.anyDate("x", 1900, 2100);
        H.checkNum(H.arith("DAYS_ELAPSED(m.x)", H.data("m", H.data("x", x.toString()))), new BigDecimal(day(Sym.today()) - day(x)), "DAYS_ELAPSED of a date as text");
        Sym.cover("evaluated");
    }
    public static void literal() {
        LocalDate x = Sym.anyDate("x", 1900, 2100);
        H.checkNum(H.arith("days_elapsed(" + x + ")", H.data()), new BigDecimal(day(Sym.today()) - day(x)), "DAYS_ELAPSED of a date literal");
        Sym.cover("evaluated");
    }
    public static void today() {
        H.checkNum(H.arith("days_elapsed(x)", H.data("x", Sym.today())), BigDecimal.ZERO, "no days have elapsed today");
        H.checkBool(H.bool("days_elapsed(x) = 0", H.data("x", Sym.today().toString())), true, "no days have elapsed today");
        Sym.cover("evaluated");
    }
    public static void compared() {
        LocalDate x = Sym.anyDate("x", 1900, 2100);
        int z = Sym.anyInt("z");
        long e = day(Sym.today()) - day(x);
        Map<String, Object> d = H.data("x", x, "z", z);
        for (String cmp : H.OPS) H.checkBool(H.bool("days_elapsed(x) " + cmp + " z", d), H.holds(cmp, Long.compare(e, z)), "comparison of DAYS_ELAPSED");
        H.checkBool(H.bool("days_elapsed(x) > 30", d), e > 30, "comparison of DAYS_ELAPSED with a literal");
        H.checkBool(H.bool("not (days_elapsed(x) <= 365)", d), e > 365, "comparison of DAYS_ELAPSED with a literal");
        Sym.cover("evaluated");
    }
    /** in arithmetic: the difference of two dates */
    public static void difference() {
        LocalDate x = Sym.anyDate("x", 1990, 2030), y = Sym.anyDate("y", 1990, 2030);
        H.checkNum(H.arith("days_elapsed(x) - days_elapsed(y)", H.data("x", x, "y", y)), new BigDecimal(day(y) - day(x)), "difference of DAYS_ELAPSED");
        H.checkNum(H.arith("max(days_elapsed(x), days_elapsed(y))", H.data("x", x, "y", y)), new BigDecimal(day(Sym.today()) - Math.min(day(x), day(y))), "MAX of DAYS_ELAPSED");
        Sym.cover("evaluated");
    }
    /** only dates */
    public static void notDates() {
        int a = Sym.anyInt("a");
        Map<String, Object> d = H.data("a", a, "t", Sym.anyDateTime("t", 1990, 2030), "s", Sym.anyString("s", 4, "0123-a"));
        for (String e : new String[]{"days_elapsed(a)", "days_elapsed(t)", "days_elapsed(s)", "days_elapsed(x)", "days_elapsed(2.5)", "days_elapsed(true)"}) H.fails(H.arith(e, d), "not a date: " + e);
        Sym.cover("evaluated");
    }
}
