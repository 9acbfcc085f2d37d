package h;

import com.github.sidhant92.boolparser.constant.DataType;
import com.github.sidhant92.boolparser.constant.FunctionType;
import com.github.sidhant92.boolparser.constant.LogicalOperationType;
import com.github.sidhant92.boolparser.constant.NodeType;
import com.github.sidhant92.boolparser.constant.Operator;
import com.github.sidhant92.boolparser.domain.FieldNode;
import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticFunctionNode;
import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticNode;
import com.github.sidhant92.boolparser.domain.arithmetic.UnaryNode;
import com.github.sidhant92.boolparser.domain.logical.ArrayNode;
import com.github.sidhant92.boolparser.domain.logical.BooleanNode;
import com.github.sidhant92.boolparser.domain.logical.ComparisonNode;
import com.github.sidhant92.boolparser.domain.logical.InNode;
import com.github.sidhant92.boolparser.domain.logical.Node;
import com.github.sidhant92.boolparser.domain.logical.NumericRangeNode;
import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import io.vavr.control.Try;
import java.math.BigDecimal;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import sx.Sym;

/** The tree the parser returns states the operators, fields and literals as they are written, in that order. */
public class C31 {
    /** what a node must say */
    interface E { void in(Node n, String tag); }

    private static boolean type(Node n, NodeType t, String tag) {
        boolean is = n != null && n.getTokenType() == t;
        Sym.check(is, tag + ": kind of node");
        return is;
    }
    static E field(String name) {
        return (n, tag) -> { if (type(n, NodeType.FIELD, tag)) Sym.check(name.equals(((FieldNode) n).getField()), tag + ": field"); };
    }
    static boolean sameValue(Object v, Object w) {
        if (v == null) return false;
        if (w instanceof Integer) return v instanceof Integer && (int) (Integer) v == (int) (Integer) w;
        if (w instanceof Long) return v instanceof Long && (long) (Long) v == (long) (Long) w;
        if (w instanceof BigDecimal) return v instanceof BigDecimal && ((BigDecimal) v).compareTo((BigDecimal) w) == 0;
        if (w instanceof Boolean) return v instanceof Boolean && (boolean) (Boolean) v == (boolean) (Boolean) w;
        if (w instanceof String) return v instanceof String && w.equals(v);
        return w.equals(v);
    }
    static E literal(DataType t, Object value) {
        return (n, tag) -> {
            if (!type(n, NodeType.UNARY, tag)) return;
            UnaryNode u = (UnaryNode) n;
            Sym.check(u.getDataType() == t, tag + ": type of the literal");
            if (t == DataType.VERSION) Sym.check(value.equals(String.valueOf(u.getValue())), tag + ": value of the literal");
            else Sym.check(sameValue(u.getValue(), value), tag + ": value of the literal");
        };
    }
    static E cmp(E l, String op, E r) { return cmp(l, op, r, null); }
    static E cmp(E l, String op, E r, DataType t) {
        return (n, tag) -> {
            if (!type(n, NodeType.COMPARISON, tag)) return;
            ComparisonNode c = (ComparisonNode) n;
            Sym.check(c.getOperator() == OPERATORS[Arrays.asList(SYMBOLS).indexOf(op)], tag + ": comparison operator");
            if (t != null) Sym.check(c.getDataType() == t, tag + ": type of the comparison");
            l.in(c.getLeft(), tag);
            r.in(c.getRight(), tag);
        };
    }
    static E bool(LogicalOperationType op, E l, E r) {
        return (n, tag) -> {
            if (!type(n, NodeType.BOOLEAN, tag)) return;
            BooleanNode c = (BooleanNode) n;
            Sym.check(c.getOperator() == op, tag + ": logical operator");
            l.in(c.getLeft(), tag);
            if (r == null) Sym.check(c.getRight() == null, tag + ": NOT has one operand"); else r.in(c.getRight(), tag);
        };
    }
    static E and(E l, E r) { return bool(LogicalOperationType.AND, l, r); }
    static E or(E l, E r) { return bool(LogicalOperationType.OR, l, r); }
    static E not(E l) { return bool(LogicalOperationType.NOT, l, null); }
    static E arith(E l, String op, E r) {
        return (n, tag) -> {
            if (!type(n, NodeType.ARITHMETIC, tag)) return;
            ArithmeticNode c = (ArithmeticNode) n;
            Sym.check(c.getOperator() == (r == null ? Operator.UNARY : OPERATORS[Arrays.asList(SYMBOLS).indexOf(op)]), tag + ": arithmetic operator");
            l.in(c.getLeft(), tag);
            if (r == null) Sym.check(c.getRight() == null, tag + ": the sign has one operand"); else r.in(c.getRight(), tag);
        };
    }
    static void items(List<Node> l, E[] es, String tag) {
        Sym.check(l != null && l.size() == es.length, tag + ": number of items");
        if (l != null && l.size() == es.length) for (int i = 0; i < es.length; i++) es[i].in(l.get(i), tag);
    }
    static E call(FunctionType f, E... es) {
        return (n, tag) -> {
            if (!type(n, NodeType.ARITHMETIC_FUNCTION, tag)) return;
            Sym.check(((ArithmeticFunctionNode) n).getFunctionType() == f, tag + ": function");
            items(((ArithmeticFunctionNode) n).getItems(), es, tag);
        };
    }
    static E inList(String field, E... es) {
        return (n, tag) -> {
            if (!type(n, NodeType.IN, tag)) return;
            Sym.check(field.equals(((InNode) n).getField()), tag + ": field");
            items(((InNode) n).getItems(), es, tag);
        };
    }
    static E contains(String field, Operator op, E... es) {
        return (n, tag) -> {
            if (!type(n, NodeType.ARRAY, tag)) return;
            Sym.check(field.equals(((ArrayNode) n).getField()), tag + ": field");
            Sym.check(((ArrayNode) n).getOperator() == op, tag + ": array operator");
            items(((ArrayNode) n).getItems(), es, tag);
        };
    }
    static E range(String field, DataType ft, Object from, DataType tt, Object to) {
        return (n, tag) -> {
            if (!type(n, NodeType.NUMERIC_RANGE, tag)) return;
            NumericRangeNode r = (NumericRangeNode) n;
            Sym.check(field.equals(r.getField()), tag + ": field");
            Sym.check(r.getFromDataType() == ft && r.getToDataType() == tt, tag + ": types of the bounds");
            Sym.check(sameValue(r.getFromValue(), from), tag + ": lower bound");
            Sym.check(sameValue(r.getToValue(), to), tag + ": upper bound");
        };
    }
    private static final String[] SYMBOLS = {"=", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "^"};
    private static final Operator[] OPERATORS = {Operator.EQUALS, Operator.NOT_EQUAL, Operator.LESS_THAN, Operator.LESS_THAN_EQUAL, Operator.GREATER_THAN, Operator.GREATER_THAN_EQUAL,
        Operator.ADD, Operator.SUBTRACT, Operator.MULTIPLY, Operator.DIVIDE, Operator.MODULUS, Operator.EXPONENT};

    private static void run(String expr, E expected, String tag) { run(expr, null, expected, tag); }
    private static void run(String expr, String defaultField, E expected, String tag) {
        Try<Node> r = defaultField == null ? new BoolParser().parseExpression(expr) : new BoolParser().parseExpression(expr, defaultField);
        Sym.observe("parsed", r.isSuccess() ? r.get().getClass().getName() : r.getCause().getClass().getName());
        Sym.check(r.isSuccess(), tag + ": is parsed");
        if (r.isSuccess()) expected.in(r.get(), tag);
        Sym.cover("parsed");
    }
    /** a field name of symbolic letters that is no keyword */
    private static String name(String n) { return "f" + Sym.anyString(n, 1, "bdghkABDGHK0189_"); }
    private static String names(String n) { return "f" + Sym.anyString(n, 1 + Sym.choose(n + ".len", 2), "bdghkABDGHK0189_"); }

    private static final class Lit { final String text; final E e; final DataType type; final Object value; Lit(String t, DataType d, Object v) { text = t; type = d; value = v; e = literal(d, v); } }
    /** a literal of symbolic digits or characters, of a fixed length */
    private static Lit lit(String n, int kind) {
        switch (kind) {
            case 0: { String k = H.digits(n, 2); return new Lit(k, DataType.INTEGER, Integer.parseInt(k)); }
            case 1: { String k = H.digits(n, 12); return new Lit(k, DataType.LONG, Long.parseLong(k)); }
            case 2: { String k = H.digits(n, 1) + "." + Sym.anyString(n + "f", 2, "0123456789"); return new Lit(k, DataType.DECIMAL, new BigDecimal(k)); }
            case 3: { String s = Sym.anyString(n, 2, "aB 9.,()<=-"); return new Lit("'" + s + "'", DataType.STRING, s); }
            default: return lits(n, kind);
        }
    }
    private static Lit lits(String n, int kind) {
        switch (kind) {
            case 0: { String k = H.digits(n, 1 + Sym.choose(n + ".len", 4)); return new Lit(k, DataType.INTEGER, Integer.parseInt(k)); }
            case 1: { String k = H.digits(n, 11 + Sym.choose(n + ".len", 7)); return new Lit(k, DataType.LONG, Long.parseLong(k)); }
            case 2: { String k = H.digits(n, 1 + Sym.choose(n + ".len", 3)) + "." + Sym.anyString(n + "f", 1 + Sym.choose(n + ".frac", 3), "0123456789"); return new Lit(k, DataType.DECIMAL, new BigDecimal(k)); }
            case 3: { String s = Sym.anyString(n, Sym.choose(n + ".len", 4), "aB 9.,()<=-"); String q = H.pick(n + ".quote", "'", "\""); return new Lit(q + s + q, DataType.STRING, s); }
            case 4: { LocalDate d = Sym.anyDate(n, 1000, 9999); return new Lit(d.toString(), DataType.DATE, d); }
            case 5: { boolean t = Sym.choose(n, 2) == 1; return new Lit(t ? H.pick(n + ".case", "true", "TRUE") : H.pick(n + ".case", "false", "FALSE"), DataType.BOOLEAN, t); }
            case 6: { String k = "1." + Sym.anyString(n, 1, "0123456789") + ".2" + Sym.anyString(n + "b", 1, "0123456789"); return new Lit(k, DataType.VERSION, k); }
            default: { LocalDateTime d = LocalDateTime.of(Sym.anyDate(n, 1000, 9999), java.time.LocalTime.of(7, 8, 59)); return new Lit(d.toLocalDate() + " 07:08:59", DataType.DATETIME, d); }
        }
    }
    /** a comparison of a field with a literal of any kind, either way round */
    public static void comparison() {
        String op = H.pick("op", H.OPS), f = op.equals("=") ? names("f") : name("f");
        int kind = Sym.choose("kind", 8);
        Lit k = op.equals("!=") ? lits("k", kind) : lit("k", kind);
        Sym.bound("comparison: field names of 2 and 3 characters, six operators, literals of all eight types with symbolic digits or characters");
        if (Sym.choose("side", 2) == 0) run(f + " " + op + " " + k.text, cmp(field(f), op, k.e, k.type), "field and literal");
        else run(k.text + op + f, cmp(k.e, op, field(f)), "literal and field");
    }
    public static void fields() {
        String f = names("f"), g = "m." + name("g"), op = H.pick("op", H.OPS);
        run(f + " " + op + " " + g, cmp(field(f), op, field(g)), "two fields");
        run(f, field(f), "a field");
        run("(" + g + ")", field(g), "a nested field");
    }
    public static void ranges() {
        String f = name("f");
        Lit a = lits("a", Sym.choose("from", 3)), b = lit("b", Sym.choose("to", 3));
        Sym.bound("ranges: integer, long and decimal bounds of symbolic digits");
        run(f + " " + a.text + (b.type == DataType.INTEGER ? " TO " : " to ") + b.text, range(f, a.type, a.value, b.type, b.value), "range");
    }
    public static void lists() {
        String f = name("f");
        int n = 1 + Sym.choose("n", 3);
        String items = "";
        E[] es = new E[n];
        for (int i = 0; i < n; i++) {
            int kind = (i * 2 + Sym.choose("kind", 4)) % 9;
            String t;
            if (kind == 4) { String g = name("g" + i); t = g; es[i] = field(g); }
            else if (kind == 7) { Lit k = lit("k" + i, 0); t = "a + " + k.text; es[i] = arith(field("a"), "+", k.e); }
            else if (kind == 8) { Lit k = lit("k" + i, 0); t = "min(a, " + k.text + ")"; es[i] = call(FunctionType.MIN, field("a"), k.e); }
            else { Lit k = lit("k" + i, kind); t = k.text; es[i] = k.e; }
            items += (i == 0 ? "" : (n == 2 ? "," : ", ")) + t;
        }
        Sym.bound("lists: one to three items, literals of several types, fields, sums and calls");
        switch (Sym.choose("form", 6)) {
            case 0: run(f + " in (" + items + ")", inList(f, es), "IN"); break;
            case 1: run(f + " NOT IN (" + items + ")", not(inList(f, es)), "NOT IN"); break;
            case 2: run(f + " contains_any (" + items + ")", contains(f, Operator.CONTAINS_ANY, es), "CONTAINS_ANY"); break;
            case 3: run(f + " CONTAINS_ALL (" + items + ")", contains(f, Operator.CONTAINS_ALL, es), "CONTAINS_ALL"); break;
            case 4: run("not (" + f + " in (" + items + "))", not(inList(f, es)), "negated IN"); break;
            default: run("z > 1 and " + f + " in (" + items + ")", and(cmp(field("z"), ">", literal(DataType.INTEGER, 1)), inList(f, es)), "IN in a conjunction"); break;
        }
    }
    public static void functions() {
        FunctionType t = FunctionType.values()[Sym.choose("function", FunctionType.values().length)];
        String w = t.name(), g = name("g");
        Lit k = lit("k", Sym.choose("kind", 4));
        if (k.type == DataType.LONG) w = w.toLowerCase();
        Sym.bound("functions: all ten, with two and three arguments, nested");
        run(w + " (" + g + ", " + k.text + ")", call(t, field(g), k.e), "call");
        run(w + "(" + k.text + "," + g + ", max(a, 2))", call(t, k.e, field(g), call(FunctionType.MAX, field("a"), literal(DataType.INTEGER, 2))), "nested call");
        run(w + "(" + g + ") > " + k.text, cmp(call(t, field(g)), ">", k.e), "comparison of a call");
        run("sum(" + w + "(" + g + "), -" + g + ") * 2", arith(call(FunctionType.SUM, call(t, field(g)), arith(field(g), "-", null)), "*", literal(DataType.INTEGER, 2)), "call in a product");
    }
    private static final String[] BIN = {"^", "/", "*", "%", "+", "-"};
    private static int rank(String op) { return Arrays.asList(BIN).indexOf(op); }
    /** three operands without parentheses: ^ / * % + - in this order of binding, from the left */
    public static void arithmetic() {
        String f = name("f"), p = H.pick("p", BIN), q = H.pick("q", BIN), sep = p.equals(q) ? "" : " ";
        Lit k = lit("k", 0);
        E a = field(f), b = k.e, c = field("c");
        run(f + sep + p + sep + k.text + sep + q + sep + "c", rank(q) < rank(p) ? arith(a, p, arith(b, q, c)) : arith(arith(a, p, b), q, c), "three operands");
        run("(" + f + " " + p + " " + k.text + ") " + q + " c", arith(arith(a, p, b), q, c), "group on the left");
        run(f + " " + p + " (" + k.text + " " + q + " c)", arith(a, p, arith(b, q, c)), "group on the right");
        run("-" + f + " " + p + " (-" + k.text + ")", arith(arith(a, "-", null), p, arith(b, "-", null)), "signs");
        Sym.bound("arithmetic: all pairs of operators over three operands");
    }
    public static void arithmeticComparison() {
        String f = name("f"), p = H.pick("p", BIN), op = H.pick("op", H.OPS);
        Lit k = lit("k", 2 * Sym.choose("kind", 2));
        run("(" + f + " " + p + " " + k.text + ") " + op + " (c - 1)", cmp(arith(field(f), p, k.e), op, arith(field("c"), "-", literal(DataType.INTEGER, 1))), "comparison of computed values");
        run(k.text + " " + op + " (" + f + " " + p + " b)", cmp(k.e, op, arith(field(f), p, field("b"))), "literal and computed value");
    }
    /** conjunctions, disjunctions and negations group as written, otherwise from the left */
    public static void logic() {
        String f = name("f");
        Lit k = lit("k", Sym.choose("kind", 2) * 3);
        String p = H.pick("p", "and", "or", "&&", "||"), q = H.pick("q", "AND", "OR");
        LogicalOperationType x = p.equals("and") || p.equals("&&") ? LogicalOperationType.AND : LogicalOperationType.OR, y = q.equals("AND") ? LogicalOperationType.AND : LogicalOperationType.OR;
        E a = cmp(field(f), "=", k.e), b = cmp(field("b"), ">", literal(DataType.INTEGER, 7)), c = range("c", DataType.INTEGER, 1, DataType.INTEGER, 5);
        String A = f + " = " + k.text, B = "b > 7", C = "c 1 to 5";
        switch (Sym.choose("shape", 7)) {
            case 0: run(A + " " + p + " " + B + " " + q + " " + C, bool(y, bool(x, a, b), c), "chain"); break;
            case 1: run(A + " " + p + " (" + B + " " + q + " " + C + ")", bool(x, a, bool(y, b, c)), "group on the right"); break;
            case 2: run("(" + A + " " + p + " " + B + ") " + q + " " + C, bool(y, bool(x, a, b), c), "group on the left"); break;
            case 3: run("not (" + A + " " + p + " " + B + ") " + q + " " + C, bool(y, not(bool(x, a, b)), c), "negated group"); break;
            case 4: run("(" + A + ") " + p + " NOT (" + B + " " + q + " " + C + ")", bool(x, a, not(bool(y, b, c))), "negated group on the right"); break;
            case 5: run("((" + A + ") " + p + " (" + B + ")) " + q + " ((" + C + ") " + p + " (" + A + "))", bool(y, bool(x, a, b), bool(x, c, a)), "two groups"); break;
            default: run("not (not (" + A + ")) " + p + " " + C, bool(x, not(not(a)), c), "double negation"); break;
        }
    }
    /** the default field is the missing operand */
    public static void defaults() {
        String g = name("g"), op = H.pick("op", H.OPS);
        Lit k = lit("k", Sym.choose("kind", 4));
        run(op + " " + k.text, g, cmp(field(g), op, k.e, k.type), "missing left side");
        run("b " + op + " " + k.text, g, cmp(field("b"), op, k.e, k.type), "no operand missing");
        run(op + " " + k.text + " and b < 3", g, and(cmp(field(g), op, k.e), cmp(field("b"), "<", literal(DataType.INTEGER, 3))), "missing left side in a conjunction");
        run("b in (" + k.text + ") or (" + op + " " + k.text + ")", g, or(inList("b", k.e), cmp(field(g), op, k.e)), "missing left side in a group");
    }
    /** a caching parser returns the same tree, also the second time */
    public static void cached() {
        String f = "f1", g = name("g");
        Lit k = lit("k", Sym.choose("kind", 4));
        CachedBoolParser p = new CachedBoolParser(10);
        E e = and(cmp(field(f), ">=", k.e), not(inList(g, k.e, field(f)))), d = cmp(field(g), "<", arith(field(f), "+", k.e));
        String x = f + " >= " + k.text + " and " + g + " not in (" + k.text + ", " + f + ")", y = "< (" + f + " + " + k.text + ")";
        for (int i = 0; i < 2; i++) {
            Try<Node> r = p.parseExpression(x), s = p.parseExpression(y, g);
            Sym.check(r.isSuccess() && s.isSuccess(), "cached: is parsed");
            if (r.isSuccess()) e.in(r.get(), "cached");
            if (s.isSuccess()) d.in(s.get(), "cached with default field");
        }
        Sym.cover("parsed");
    }
    /** what is written twice is there twice, and what does not change the value is there all the same */
    public static void repeats() {
        String f = name("f");
        Lit k = lit("k", Sym.choose("kind", 4)), j = lit("j", Sym.choose("kind", 4)); // the same kind: they may have the same value
        E kk = k.e, jj = j.e, a = cmp(field(f), "<", kk), b = cmp(field(f), "<", jj);
        String A = f + " < " + k.text, B = f + " < " + j.text;
        switch (Sym.choose("form", 10)) {
            case 0: run(f + " in (" + k.text + ", " + j.text + ", " + k.text + ")", inList(f, kk, jj, kk), "repeated member"); break;
            case 1: run(f + " contains_any (" + k.text + "," + k.text + ")", contains(f, Operator.CONTAINS_ANY, kk, kk), "repeated item"); break;
            case 2: run("sum(" + k.text + ", " + f + ", " + j.text + ", " + f + ")", call(FunctionType.SUM, kk, field(f), jj, field(f)), "repeated argument"); break;
            case 3: run(A + " and " + B + " and " + A, and(and(a, b), a), "repeated conjunct"); break;
            case 4: run(A + " or " + A, or(a, a), "repeated disjunct"); break;
            case 5: run("(" + k.text + " + " + j.text + ") = " + k.text, cmp(arith(kk, "+", jj), "=", kk), "literals only"); break;
            case 6: run("(" + f + " * 1) + 0", arith(arith(field(f), "*", literal(DataType.INTEGER, 1)), "+", literal(DataType.INTEGER, 0)), "neutral operands"); break;
            case 7: run("min(" + k.text + ") > " + f + " - " + f, arith(cmp(call(FunctionType.MIN, kk), ">", field(f)), "-", field(f)), "one argument"); break;
            case 8: run(A + " and true or false", or(and(a, literal(DataType.BOOLEAN, true)), literal(DataType.BOOLEAN, false)), "constants in a chain"); break;
            default: run("not (" + f + " not in (" + k.text + ")) and " + f + " contains_all (" + j.text + ")", and(not(not(inList(f, kk))), contains(f, Operator.CONTAINS_ALL, jj)), "one member"); break;
        }
        Sym.bound("repeats: repeated and neutral operands, the same literal or two that may have the same value");
    }
    /** a sign stands in front of what it is written in front of */
    public static void signs() {
        String f = name("f");
        int form = Sym.choose("form", 7);
        String op = form < 2 ? H.pick("op", H.OPS) : "";
        Lit k = lit("k", Sym.choose("kind", 3));
        E minus = arith(k.e, "-", null);
        switch (form) {
            case 0: run(f + " " + op + " -" + k.text, cmp(field(f), op, minus), "sign in a comparison"); break;
            case 1: run("-" + k.text + " " + op + " " + f, arith(cmp(k.e, op, field(f)), "-", null), "sign of a comparison"); break;
            case 2: run(f + " in (-" + k.text + ", " + k.text + ", -" + f + ")", inList(f, minus, k.e, arith(field(f), "-", null)), "sign in a list"); break;
            case 3: run("max(-" + k.text + ", " + f + ")", call(FunctionType.MAX, minus, field(f)), "sign in a call"); break;
            case 4: run("-(-" + k.text + ")", arith(minus, "-", null), "two signs"); break;
            case 5: run("-" + f + " - -" + k.text, arith(arith(field(f), "-", null), "-", minus), "difference of signs"); break;
            default: run("-min(" + k.text + ", -(" + f + " + 1))", arith(call(FunctionType.MIN, k.e, arith(arith(field(f), "+", literal(DataType.INTEGER, 1)), "-", null)), "-", null), "sign of a call"); break;
        }
        Sym.bound("signs: of literals of the three numeric types, fields, groups and calls");
    }
}
