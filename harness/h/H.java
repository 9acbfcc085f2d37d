package h;

import com.github.sidhant92.boolparser.application.ArithmeticExpressionEvaluator;
import com.github.sidhant92.boolparser.application.BooleanExpressionEvaluator;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import io.vavr.control.Try;
import java.math.BigDecimal;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.Map;
import sx.Sym;

/** What the harnesses share: running the public API and describing its outcome. */
public final class H {
    private H() { }

    public static Map<String, Object> data(Object... kv) {
        Map<String, Object> m = new LinkedHashMap<>();
        for (int i = 0; i < kv.length; i += 2) m.put((String) kv[i], kv[i + 1]);
        return m;
    }

    /** evaluates a boolean expression through the public API */
    public static Try<Boolean> bool(String expr, Map<String, Object> data) { return bool(expr, data, null); }
    public static Try<Boolean> bool(String expr, Map<String, Object> data, String defaultField) {
        Try<Boolean> r = new BooleanExpressionEvaluator(new BoolParser()).evaluate(expr, data, defaultField);
        Sym.observe("bool", r.isSuccess() ? r.get() : r.getCause().getClass().getName());
        return r;
    }
    /** evaluates an arithmetic expression through the public API */
    public static Try<Object> arith(String expr, Map<String, Object> data) {
        Try<Object> r = new ArithmeticExpressionEvaluator(new BoolParser()).evaluate(expr, data);
        Sym.observe("arith", r.isSuccess() ? r.get() : r.getCause().getClass().getName());
        return r;
    }

    /** the evaluation succeeds with exactly this truth value */
    public static void checkBool(Try<Boolean> r, boolean expected, String tag) {
        Sym.check(r.isSuccess(), tag + ": evaluation succeeds");
        if (r.isSuccess()) Sym.check(r.get() == expected, tag);
    }
    public static boolean isNumber(Object o) { return o instanceof Integer || o instanceof Long || o instanceof BigDecimal || o instanceof Double || o instanceof Float; }
    public static BigDecimal dec(Object o) {
        if (o instanceof BigDecimal) return (BigDecimal) o;
        if (o instanceof Double) return new BigDecimal((Double) o);
        if (o instanceof Integer) return new BigDecimal((Integer) o);
        return new BigDecimal((Long) o);
    }
    /** the evaluation succeeds with a number that equals the expected value exactly */
    public static void checkNum(Try<Object> r, BigDecimal expected, String tag) {
        Sym.check(r.isSuccess(), tag + ": evaluation succeeds");
        if (!r.isSuccess()) return;
        Object v = r.get();
        Sym.check(isNumber(v), tag + ": result is a number");
        if (isNumber(v)) Sym.check(dec(v).compareTo(expected) == 0, tag);
    }
    public static String pick(String name, String... xs) { return xs[Sym.choose(name, xs.length)]; }

    public static final String[] OPS = {"=", "!=", "<", "<=", ">", ">="};
    /** whether the comparison operator holds for operands whose order is c */
    public static boolean holds(String op, int c) {
        switch (op) {
            case "=": return c == 0;
            case "!=": return c != 0;
            case "<": return c < 0;
            case "<=": return c <= 0;
            case ">": return c > 0;
            default: return c >= 0;
        }
    }
    /** the operator with its operands exchanged */
    public static String mirror(String op) {
        switch (op) {
            case "<": return ">";
            case "<=": return ">=";
            case ">": return "<";
            case ">=": return "<=";
            default: return op;
        }
    }
    /** a number of one of the supported Java types; exact() gives its value */
    public static Object number(String name) {
        switch (Sym.choose(name + ".kind", 5)) {
            case 0: return Sym.anyInt(name);
            case 1: return Sym.anyLong(name);
            case 2: return Sym.anyDecimal(name, 2, -100000000000L, 100000000000L);
            case 3: return Sym.anyDecimal(name, 0, -100000000000L, 100000000000L);
            default: return Sym.anyDouble(name, 2, -100000, 100000);
        }
    }
    public static BigDecimal exact(Object o) { return dec(o); }
    /** decimal digits, the first of them not zero */
    public static String digits(String name, int len) {
        return len == 1 ? Sym.anyString(name, 1, "123456789") : Sym.anyString(name + "0", 1, "123456789") + Sym.anyString(name, len - 1, "0123456789");
    }
    public static void fails(Try<?> r, String tag) { Sym.check(r.isFailure(), tag); }
}
