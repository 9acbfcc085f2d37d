package h;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import io.vavr.control.Try;
import java.math.BigDecimal;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.Map;
import sx.Sym;

/** Evaluating changes nothing: not the data, not the evaluator, not the answer of any other evaluation. */
public class C26 {
    private static final String[] BOOL = {"a > 10", "a = x and b < 3", "a in (1, b, l)", "a not in (l)", "l contains_any (1, b)", "l contains_all (w)", "m.k = a", "(a + b) > min(a, b, 5)", "not (c) or a 1 to 5", "median(l) > 1", "mode(l) = a", "sum(l, w) > 3", "z = 1", "a > 'x'", "s = 'q' or len(s) > 2"};
    private static final String[] ARITH = {"a + b", "-a", "min(l)", "max(l, w)", "median(l, a, 2)", "mode(l, w)", "avg(l)", "sum(l, 3)", "len(l)", "int(a / 2)", "(a - b) * 3", "z + 1"};
    private static Map<String, Object> data(int a, int b, boolean c) {
        return H.data("a", a, "b", b, "c", c, "s", "qq", "l", new ArrayList<Object>(Arrays.asList(b, a, 7)), "w", new ArrayList<Object>(Arrays.asList(a, new BigDecimal("2.5"))), "m", H.data("k", b), "x", null);
    }
    /** same keys, same values, same elements, same types, same order */
    private static void unchanged(Map<String, Object> d, int a, int b, boolean c, String tag) {
        boolean ok = d.keySet().toString().equals("[a, b, c, s, l, w, m, x]");
        Sym.check(ok, tag + ": same fields");
        List<?> l = (List<?>) d.get("l"), w = (List<?>) d.get("w");
        Map<?, ?> m = (Map<?, ?>) d.get("m");
        Sym.check(l.size() == 3 && w.size() == 2 && m.size() == 1 && d.get("x") == null, tag + ": same sizes");
        boolean types = d.get("a") instanceof Integer && d.get("b") instanceof Integer && d.get("c") instanceof Boolean && l.get(0) instanceof Integer && l.get(1) instanceof Integer && l.get(2) instanceof Integer && w.get(0) instanceof Integer && w.get(1) instanceof BigDecimal && m.get("k") instanceof Integer && d.get("s") instanceof String;
        Sym.check(types, tag + ": same types");
        if (!types) return;
        boolean v = Sym.and((Integer) d.get("a") == a, Sym.and((Integer) d.get("b") == b, (Boolean) d.get("c") == c));
        v = Sym.and(v, Sym.and((Integer) l.get(0) == b, Sym.and((Integer) l.get(1) == a, (Integer) l.get(2) == 7)));
        v = Sym.and(v, Sym.and((Integer) w.get(0) == a, (Integer) m.get("k") == b));
        Sym.check(v && w.get(1).equals(new BigDecimal("2.5")) && d.get("s").equals("qq"), tag + ": same values");
    }
    public static void dataUnchanged() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b");
        boolean c = Sym.anyBool("c");
        Map<String, Object> d = data(a, b, c);
        Sym.bound("15 predicates and 12 arithmetic expressions over 8 fields including collections and a nested map");
        if (Sym.choose("arith", 2) == 0) H.bool(BOOL[Sym.choose("e", BOOL.length)], d); else H.arith(ARITH[Sym.choose("e", ARITH.length)], d);
        unchanged(d, a, b, c, "data after an evaluation");
        Sym.cover("evaluated");
    }
    /** null elements, unusual elements and nested collections of the caller stay where they are */
    public static void elementsUnchanged() {
        int a = Sym.anyInt("a");
        String s = Sym.anyString("s", 2, "aB ");
        List<Object> in = new ArrayList<Object>(Arrays.asList(a, null)), l = new ArrayList<Object>(Arrays.asList(3, null, s, a, null, in, new BigDecimal("1.50"), true, 3));
        Object[] arr = {a, null, s};
        java.util.LinkedHashSet<Object> set = new java.util.LinkedHashSet<>(Arrays.asList("zz", null, 5));
        Map<String, Object> d = H.data("a", a, "l", l, "arr", arr, "set", set);
        String f = H.pick("f", "l", "arr", "set");
        String e = H.pick("e", "F contains_any (1, a)", "F contains_all (a)", "F contains_any ('aB')", "a in (F)", "a not in (1, F)", "F = a", "F = null", "len(F) > 2", "min(F) > 1", "median(F, 1) = 2", "mode(F) = 3", "sum(F, 2) > 1", "F contains_any (l)", "not (F contains_all (l, 1))", "avg(F) > 0", "max(F, a) = a", "F 1 to 5", "(F + 1) > 3").replace("F", f);
        Sym.bound("18 predicates over a list, an array and a set with null elements, texts, decimals and a nested list");
        H.bool(e, d);
        boolean sizes = l.size() == 9 && in.size() == 2 && arr.length == 3 && set.size() == 3 && d.size() == 4;
        Sym.check(sizes, "elements after an evaluation: same sizes");
        if (!sizes) return;
        Sym.check(l.get(0).equals(3) && l.get(1) == null && l.get(2) == s && l.get(4) == null && l.get(5) == in && l.get(6).equals(new BigDecimal("1.50")) && l.get(7).equals(true) && l.get(8).equals(3) && in.get(1) == null && arr[1] == null && arr[2] == s && d.get("l") == l && d.get("arr") == arr && d.get("set") == set, "elements after an evaluation: same elements");
        boolean ints = l.get(3) instanceof Integer && in.get(0) instanceof Integer && arr[0] instanceof Integer;
        Sym.check(ints, "elements after an evaluation: same types");
        if (ints) Sym.check((Integer) l.get(3) == a && (Integer) in.get(0) == a && (Integer) arr[0] == a, "elements after an evaluation: same values");
        java.util.Iterator<Object> it = set.iterator();
        Sym.check("zz".equals(it.next()) && it.next() == null, "elements after an evaluation: same order");
        Sym.cover("evaluated");
    }
    /** an evaluation of some text does not show in a later evaluation of another: dates, date-times, versions, numbers, words */
    public static void texts() {
        String[] text = {"2024-01-01", "2024-01-01 10:30:00", "1.2.3", "12", "ab"};
        // two other characters at the end; among them pairs with the hash code of the end of the later text
        String[] al = {"01-/P", "0/OP", ".3-R", "012Q", "abC "};
        int i = Sym.choose("later", text.length);
        String t = text[i], s = t.substring(0, t.length() - 2) + Sym.anyString("s", 2, Sym.thorough() ? "0123456789-./ :PORQabBC" : al[i]);
        int n = Sym.anyInt("n", -100, 100);
        Sym.bound("two evaluations, the text of the first ends in two other characters");
        Map<String, Object> first = H.data("s", s, "n", n), later = H.data("s", t, "n", n);
        String[][] preds = {{"s = 2024-01-01", "s < 2024-06-01", "s != 2023-12-31", "s in ('x', 2024-01-01)", "days_elapsed(s) < 1000000"}, {"s = 2024-01-01 10:30:00", "s < 2024-01-01 10:30:01"}, {"s = '1.2.3'", "s != '1.2.4'", "len(s) = 5"}, {"s = 12", "s > 11", "s <= 12", "len(s) = 2"}, {"s = 'ab'", "s in ('x', 'ab')", "not (s = 'aa')", "len(s) = 2"}};
        String e = H.pick("e", preds[i]);
        H.bool(Sym.choose("same", 2) == 0 ? e : H.pick("f", "days_elapsed(s) > 3", "s > n", "s = 'x'"), first);
        H.checkBool(H.bool(e, later), true, "text after an evaluation of another text: " + e);
        Sym.cover("evaluated");
    }
    /** twice the same; another evaluation in between; a fresh evaluator: no difference */
    public static void repeatable() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b"), p = Sym.anyInt("p"), q = Sym.anyInt("q");
        boolean c = Sym.anyBool("c");
        BooleanExpressionEvaluator be = new BooleanExpressionEvaluator(new BoolParser());
        String e = BOOL[Sym.choose("e", BOOL.length)];
        int stride = Sym.thorough() ? 1 : 4;
        String f = BOOL[(Sym.choose("f", (BOOL.length + stride - 1) / stride) * stride) % BOOL.length];
        Try<Boolean> first = be.evaluate(e, data(a, b, c));
        be.evaluate(f, data(p, q, !c));
        be.evaluate("a >", data(p, q, !c));
        C25.same(be.evaluate(e, data(a, b, c)), first, "same predicate again");
        C25.same(new BooleanExpressionEvaluator(new BoolParser()).evaluate(e, data(a, b, c)), first, "same predicate, new evaluator");
        Sym.cover("evaluated");
    }
    public static void repeatableArithmetic() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b"), p = Sym.anyInt("p"), q = Sym.anyInt("q");
        ArithmeticExpressionEvaluator ae = new ArithmeticExpressionEvaluator(new BoolParser());
        String e = ARITH[Sym.choose("e", ARITH.length)], f = ARITH[Sym.choose("f", Sym.thorough() ? ARITH.length : 4)];
        Try<Object> first = ae.evaluate(e, data(a, b, true));
        ae.evaluate(f, data(p, q, false));
        C25.same(ae.evaluate(e, data(a, b, true)), first, "same arithmetic again");
        C25.same(new ArithmeticExpressionEvaluator(new BoolParser()).evaluate(e, data(a, b, true)), first, "same arithmetic, new evaluator");
        Sym.cover("evaluated");
    }
    /** unmodifiable data is enough */
    public static void unmodifiable() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b");
        Map<String, Object> m = java.util.Collections.unmodifiableMap(H.data("k", b));
        List<Object> l = java.util.Collections.unmodifiableList(new ArrayList<Object>(Arrays.asList(b, a, 7)));
        Map<String, Object> d = java.util.Collections.unmodifiableMap(H.data("a", a, "m", m, "l", l));
        H.checkBool(H.bool("a > m.k", d), a > b, "unmodifiable map");
        H.checkBool(H.bool("l contains_any (7)", d), true, "unmodifiable collection");
        H.checkNum(H.arith("sum(l)", d), new BigDecimal((long) a + b + 7), "unmodifiable collection");
        H.checkNum(H.arith("len(l)", d), new BigDecimal(3), "unmodifiable collection");
        Sym.check(H.arith("median(l)", d).isSuccess(), "unmodifiable collection: MEDIAN");
        Sym.check(H.arith("mode(l)", d).isSuccess(), "unmodifiable collection: MODE");
        Sym.cover("evaluated");
    }
    /** fields that the expression does not mention do not matter, nor does the order of the fields */
    public static void irrelevantData() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b"), y = Sym.anyInt("y");
        String e = H.pick("e", "a > b", "a in (1, b)", "a = 3 or b = 4", "(a + b) > 0", "min(a, b) = a");
        Try<Boolean> r = H.bool(e, H.data("a", a, "b", b));
        Map<String, Object> d = H.data("aa", y, "b", b, "A", y, "m", H.data("a", y), "a", a, "a_", "x");
        C25.same(H.bool(e, d), r, "further fields");
        C25.same(H.bool(e, H.data("b", b, "a", a)), r, "another order of the fields");
        Sym.cover("evaluated");
    }
    /** the default field of an evaluation is forgotten afterwards, whichever way the later one is called */
    public static void defaultForgotten() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b");
        Map<String, Object> d = H.data("a", a, "b", b, "m", H.data("a", b));
        BooleanExpressionEvaluator be = new BooleanExpressionEvaluator(new BoolParser());
        String[] fs = {"a", "b", "m.a", "zz", "", null};
        String f = fs[Sym.choose("f", 6)], g = fs[Sym.choose("g", 6)], x = H.pick("x", "> 10", "in (1, 2)", "1 to 5", "a > 10"), y = H.pick("y", "> 10", "in (1, 2)", "a > 10 and < 20");
        int how = Sym.choose("how", 2);
        Sym.bound("defaultForgotten: histories of 3 evaluations with 6 default fields and without any");
        be.evaluate(x, d, f);
        C25.same(how == 0 ? be.evaluate(y, d) : be.evaluate(y, d, g), how == 0 ? new BooleanExpressionEvaluator(new BoolParser()).evaluate(y, d, null) : new BooleanExpressionEvaluator(new BoolParser()).evaluate(y, d, g), "predicate after another default field");
        C25.same(be.evaluate(x, d, f), new BooleanExpressionEvaluator(new BoolParser()).evaluate(x, d, f), "default field again");
        Sym.cover("evaluated");
    }
}
