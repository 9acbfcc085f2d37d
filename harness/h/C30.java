package h;

import com.github.sidhant92.boolparser.parser.antlr.BoolParser;
import com.github.sidhant92.boolparser.parser.antlr.CachedBoolParser;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Map;
import sx.Sym;

/** Text that is not an expression is rejected as a whole, never evaluated in part. */
public class C30 {
    static final String[] BOOL = {"a = 10", "a > b", "a = 10 and b < 3", "not a = 10", "a = 10 or not ( b = 3 )", "a in ( 1 , 2 )", "a not in ( b , 'x' )", "a 1 to 5", "l contains_any ( 1 , 2 )", "min ( a , b ) > 3", "( a + b ) * 2 = 7", "a = null", "a >= 2020-01-01", "( a = 10 and b = 3 ) or c", "c and ( a 1 to 5 )", "m.a != \"xy\""};
    static final String[] ARITH = {"a + b", "a * ( b - 3 )", "min ( a , b , 3 )", "sum ( l ) / 2", "a % 7 ^ 2", "len ( 'x' ) + 1", "days_elapsed ( 2020-01-01 )"};
    private static Map<String, Object> data() {
        int a = Sym.anyInt("a"), b = Sym.anyInt("b");
        return H.data("a", a, "b", b, "c", Sym.anyBool("c"), "l", new ArrayList<Object>(Arrays.asList(a, b)), "m", H.data("a", "x"));
    }
    private static void rejected(String e, Map<String, Object> d, String what) {
        H.fails(new BoolParser().parseExpression(e), "not parsed: " + what);
        H.fails(new CachedBoolParser(5).parseExpression(e, "a"), "not parsed with a default field: " + what);
        H.fails(H.bool(e, d), "not evaluated as a predicate: " + what);
        H.fails(H.arith(e, d), "not evaluated as arithmetic: " + what);
        Sym.cover("rejected");
    }
    private static String insert(String junk) {
        String[] all = Sym.choose("arith", 2) == 0 ? BOOL : ARITH;
        String[] t = all[Sym.choose("expr", all.length)].split(" ");
        int pos = Sym.choose("pos", t.length + 1);
        String e = "";
        for (int i = 0; i <= t.length; i++) {
            if (i == pos) e = e + " " + junk;
            if (i < t.length) e = e + " " + t[i];
        }
        return e.substring(1);
    }
    /** every one of them is accepted as it stands */
    public static void wellFormed() {
        String[] all = Sym.choose("arith", 2) == 0 ? BOOL : ARITH;
        String e = all[Sym.choose("expr", all.length)];
        Sym.check(new BoolParser().parseExpression(e).isSuccess(), "parsed: " + e);
        Sym.check(new CachedBoolParser(5).parseExpression(e, "a").isSuccess(), "parsed: " + e);
        Sym.cover("parsed");
    }
    /** a character that belongs to no token, at any position */
    public static void strayCharacter() {
        String j = Sym.anyString("j", 1, "#;:?@~$&|{}[]\\`!\u00e9\u00a7");
        Sym.bound("23 expressions, every position, 18 stray characters");
        rejected(insert(j), data(), "a stray character");
    }
    /** an operand too many, at any position */
    public static void strayOperand() {
        String[] ops = {"", "7", "2.5", "'w'", "true", "2020-01-01", "1.2.3"};
        String j = ops[Sym.choose("operand", Sym.thorough() ? 7 : 4)];
        if (j.isEmpty()) j = Sym.anyString("j", 2, "xyz");
        Sym.bound("23 expressions, every position, 4 stray operands (thorough: 7)");
        rejected(insert(j), data(), "an operand too many");
    }
    /** a closing parenthesis too many, at any position */
    public static void strayParenthesis() {
        rejected(insert(")"), data(), "a closing parenthesis too many");
    }
    /** a keyword where none belongs */
    public static void strayKeyword() {
        String e = H.pick("expr", "a to 5", "to a", "a = 10 to 5", "in ( 1 )", "a not 10", "a contains_any", "a contains_any 1", "a in 1", "min a", "min", "min max", "a min b", "a is 3", "a like 'x'", "a between 1 and 5", "10 in ( 1 , 2 )", "'x' in ( 'x' )", "( a ) in ( 1 )", "a = 10 xor b = 3", "a = 10 adn b = 3", "10 1 to 20", "a and or b", "and a", "c or", "not", "a = 10 b = 3", "a = 10 ; b = 3", "a = 'x", "a = x'", "a = \"x'", "", " ", "( )", "a , b", ", a", "a = 10 ,", "! c", "a => 10", "a =< 10", "a = 1 = 'x' )", "min(a b)", "a (b)", "(a)(b)");
        Sym.bound("43 malformed texts");
        Map<String, Object> d = data();
        d.remove("a"); d.put("a", 10);
        H.fails(H.bool(e, d), "not evaluated as a predicate: " + e);
        H.fails(H.arith(e, d), "not evaluated as arithmetic: " + e);
        Sym.cover("rejected");
    }
}
