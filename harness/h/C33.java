package h;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import io.vavr.control.Try;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Map;
import sx.Sym;

/** Evaluators and parsers may be shared by threads: every caller gets the answer it would get alone. */
public class C33 {
    private static final String[] BOOL = {"a > 10 and not (b in (a, 3))", "> 10 or b 1 to 5", "l contains_any (a, 3) and (a + b) > 4", "min(a, b) = 3 or median(l) > a", "v >= 1.2.3 and d > 2020-01-01", "a >", "x = null"};
    private static final String[] ARITH = {"(a + b) * 2 - min(a, 3)", "avg(l)", "-a % 7", "mode(a, b, 3)", "len(t) + int(2.5)", "a /"};
    private static Map<String, Object> data(String s) {
        int a = Sym.anyInt("a" + s, -100, 100), b = s.equals("1") ? 3 : 40;
        return H.data("a", a, "b", b, "l", new ArrayList<Object>(Arrays.asList(a, 1, b)), "v", "1.2.10", "d", "2021-05-06", "t", "abc");
    }
    /** what the second caller asks: the same or another one */
    private static String second(String[] pool, String e) { return pool[(Arrays.asList(pool).indexOf(e) + new int[]{0, 1, 2, pool.length - 1}[Sym.choose("second", Sym.thorough() ? 4 : 3)]) % pool.length]; }
    private static void bound() { Sym.bound("two callers, the second running as a whole at any point where the first touches what they share and either writes; the pool of expressions in the harness, one integer from -100 to 100 per caller"); }
    private static void two(String id, BooleanExpressionEvaluator first, String e, BooleanExpressionEvaluator second, String f) {
        bound();
        two(id, () -> eval(first, e, "1"), () -> eval(second, f, "2"));
    }
    private static void two(String id, Runnable a, Runnable b) {
        Sym.concurrently(id, a, b);
        Sym.cover("both answered");
    }
    /** the answer is the one of an evaluator of its own; outside, so that it is not disturbed itself */
    private static void eval(BooleanExpressionEvaluator ev, String e, String s) {
        Map<String, Object> d = data(s);
        String def = e.startsWith(">") ? "a" : null;
        ASKED.get(s)[0] = def == null ? ev.evaluate(e, d) : ev.evaluate(e, d, def);
        ASKED.get(s)[1] = d;
        ASKED.get(s)[2] = e;
    }
    private static void evalA(ArithmeticExpressionEvaluator ev, String e, String s) {
        Map<String, Object> d = data(s);
        ASKED.get(s)[0] = ev.evaluate(e, d);
        ASKED.get(s)[1] = d;
        ASKED.get(s)[2] = e;
    }
    private static final Map<String, Object[]> ASKED = new java.util.LinkedHashMap<>();
    private static void begin() { ASKED.put("1", new Object[3]); ASKED.put("2", new Object[3]); }
    private static void compare(boolean bool1, boolean bool2) {
        for (String s : new String[]{"1", "2"}) {
            Object[] q = ASKED.get(s);
            @SuppressWarnings("unchecked") Map<String, Object> d = (Map<String, Object>) q[1];
            String e = (String) q[2];
            Try<?> r = (Try<?>) q[0];
            Sym.observe("answer", r.isSuccess() ? r.get() : r.getCause().getClass().getName());
            C25.same(r, (s.equals("1") ? bool1 : bool2) ? H.bool(e, d, e.startsWith(">") ? "a" : null) : H.arith(e, d), "concurrent evaluation");
        }
    }
    /** one evaluator */
    public static void evaluator() {
        begin();
        BooleanExpressionEvaluator ev = new BooleanExpressionEvaluator(new BoolParser());
        String e = H.pick("first", BOOL), f = second(BOOL, e);
        two("s", ev, e, ev, f);
        compare(true, true);
    }
    /** one caching parser: the same expression, or one that displaces it */
    public static void cached() {
        begin();
        BoolExpressionParser p = new CachedBoolParser(1);
        String e = H.pick("first", BOOL), f = second(BOOL, e);
        BooleanExpressionEvaluator ev = new BooleanExpressionEvaluator(p);
        if (Sym.choose("warm", 2) == 1) ev.evaluate(e, H.data("a", 4, "b", 5), "a");
        two("s", ev, e, new BooleanExpressionEvaluator(p), f);
        compare(true, true);
    }
    public static void arithmetic() {
        begin();
        BoolExpressionParser p = Sym.choose("cached", 2) == 0 ? new BoolParser() : new CachedBoolParser(10);
        ArithmeticExpressionEvaluator ev = new ArithmeticExpressionEvaluator(p);
        String e = H.pick("first", ARITH), f = second(ARITH, e);
        bound();
        two("s", () -> evalA(ev, e, "1"), () -> evalA(ev, f, "2"));
        compare(false, false);
    }
    /** a boolean and an arithmetic evaluator over one parser */
    public static void mixed() {
        begin();
        BoolExpressionParser p = new BoolParser();
        ArithmeticExpressionEvaluator ar = new ArithmeticExpressionEvaluator(p);
        BooleanExpressionEvaluator ev = new BooleanExpressionEvaluator(p);
        String e = BOOL[2 + Sym.choose("e", 2)], f = ARITH[Sym.choose("f", 3)];
        bound();
        if (Sym.choose("order", 2) == 0) { two("s", () -> eval(ev, e, "1"), () -> evalA(ar, f, "2")); compare(true, false); }
        else { two("s", () -> evalA(ar, f, "1"), () -> eval(ev, e, "2")); compare(false, true); }
    }
    /** an evaluator is made while another one is in use */
    public static void making() {
        begin();
        BooleanExpressionEvaluator ev = new BooleanExpressionEvaluator(new BoolParser());
        ArithmeticExpressionEvaluator ar = new ArithmeticExpressionEvaluator(new BoolParser());
        int m = Sym.thorough() ? 2 : 1;
        String e = BOOL[3 - Sym.choose("e", m)], f = ARITH[Sym.choose("f", m)];
        bound();
        switch (Sym.choose("form", 3)) {
            case 0: two("s", () -> eval(ev, e, "1"), () -> evalA(new ArithmeticExpressionEvaluator(new BoolParser()), f, "2")); compare(true, false); break;
            case 1: two("s", () -> evalA(new ArithmeticExpressionEvaluator(new CachedBoolParser(3)), f, "1"), () -> eval(ev, e, "2")); compare(false, true); break;
            default: two("s", () -> eval(new BooleanExpressionEvaluator(new BoolParser()), e, "1"), () -> evalA(ar, f, "2")); compare(true, false); break;
        }
    }
    /** trees from one parser */
    public static void parsing() {
        BoolExpressionParser p = Sym.choose("cached", 2) == 0 ? new BoolParser() : new CachedBoolParser(10);
        Try<?>[] r = {null, null};
        String k = H.digits("k", 2), l = H.digits("l", 2);
        bound();
        String same = H.pick("fields", "f", "g");
        two("s", () -> r[0] = p.parseExpression("f > " + k + " and g in (1, " + k + ")", "f"), () -> r[1] = p.parseExpression(same + " > " + l + " or > 3", "g"));
        Sym.check(r[0].isSuccess() && r[1].isSuccess(), "concurrent parsing succeeds");
        C31.E a = C31.and(C31.cmp(C31.field("f"), ">", C31.literal(com.github.sidhant92.boolparser.constant.DataType.INTEGER, Integer.parseInt(k))),
            C31.inList("g", C31.literal(com.github.sidhant92.boolparser.constant.DataType.INTEGER, 1), C31.literal(com.github.sidhant92.boolparser.constant.DataType.INTEGER, Integer.parseInt(k))));
        C31.E b = C31.or(C31.cmp(C31.field(same), ">", C31.literal(com.github.sidhant92.boolparser.constant.DataType.INTEGER, Integer.parseInt(l))),
            C31.cmp(C31.field("g"), ">", C31.literal(com.github.sidhant92.boolparser.constant.DataType.INTEGER, 3)));
        if (r[0].isSuccess()) a.in((Node) r[0].get(), "concurrent parsing, first tree");
        if (r[1].isSuccess()) b.in((Node) r[1].get(), "concurrent parsing, second tree");
    }
}
