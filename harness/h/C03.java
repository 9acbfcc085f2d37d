package h;

import sx.Sym;

/** String comparison is exact, case-sensitive and lexicographic. */
public class C03 {
    static final String AB = "aAbBzZ09 _-.,(=/";
    private static int cmp(String x, String y) { return x.compareTo(y); }
    public static void fields() {
        int n = Sym.choose("la", 4), m = Sym.choose("lb", 4);
        String a = Sym.anyString("a", n, AB), b = Sym.anyString("b", m, AB);
        String op = H.pick("op", H.OPS);
        Sym.bound("fields: texts of 0 to 3 characters over " + AB);
        H.checkBool(H.bool("a " + op + " b", H.data("a", a, "b", b)), H.holds(op, cmp(a, b)), "text " + op + " text");
        Sym.cover("compared");
    }
    private static String quoted(String s, int q) { return q == 0 ? "'" + s + "'" : "\"" + s + "\""; }
    /** a quoted literal against a field */
    public static void literal() {
        int n = Sym.choose("la", 3), m = Sym.choose("lb", 3), q = Sym.choose("quote", 2);
        String al = q == 0 ? AB + "\"" : AB + "'";
        String a = Sym.anyString("a", n, al), b = Sym.anyString("b", m, al);
        String op = H.pick("op", H.OPS);
        boolean left = Sym.choose("side", 2) == 1;
        Sym.bound("literals: 0 to 2 characters in either kind of quotes, the other kind of quote among them");
        int c = cmp(a, b);
        H.checkBool(H.bool(left ? quoted(b, q) + " " + op + " a" : "a " + op + " " + quoted(b, q), H.data("a", a)), H.holds(op, left ? -c : c), "text " + op + " quoted literal");
        Sym.cover("compared");
    }
    /** long texts that share all but one character */
    public static void longText() {
        String pre = "The quick brown fox jumps over the lazy dog; ", post = " and runs away.";
        String a = pre + Sym.anyString("a", 1, AB) + post, b = pre + Sym.anyString("b", 1, AB) + post;
        String op = H.pick("op", H.OPS);
        H.checkBool(H.bool("a " + op + " '" + b + "'", H.data("a", a)), H.holds(op, cmp(a, b)), "long text " + op + " literal");
        Sym.cover("compared");
    }
    /** equality with text of another type is by its text */
    public static void boolText() {
        boolean a = Sym.anyBool("a");
        String op = H.pick("op", "=", "!=");
        int w = Sym.choose("lit", 2);
        H.checkBool(H.bool("a " + op + " " + (w == 0 ? "true" : "false"), H.data("a", a)), (op.equals("=")) == (a == (w == 0)), "boolean " + op + " literal");
        boolean b = Sym.anyBool("b");
        H.checkBool(H.bool("a " + op + " b", H.data("a", a, "b", b)), (op.equals("=")) == (a == b), "boolean " + op + " boolean");
        Sym.cover("compared");
    }
    static final String CYRILLIC = "\u0410\u0411\u042f\u0430\u0431\u044f", GREEK = "\u0391\u0392\u03a9\u03b1\u03b2\u03c9", KANA = "\u3041\u3042\u30a1\u30a2", WIDE = "\uff11\uff12\uff21\uff41";
    /** texts outside Latin-1, of one script or of two */
    public static void scripts() {
        String al = H.pick("script", CYRILLIC, GREEK, KANA, WIDE), bl = Sym.choose("same", 2) == 0 ? al : AB;
        int n = 1 + Sym.choose("la", 2), m = 1 + Sym.choose("lb", 2), mix = Sym.choose("mix", 3);
        String a = Sym.anyString("a", n, al), b = Sym.anyString("b", m, bl);
        if (mix == 1) { a = "x" + a; b = "x" + b; }
        if (mix == 2) { a = a + "1"; b = b + "1"; }
        String op = H.pick("op", H.OPS);
        boolean lit = Sym.choose("literal", 2) == 1;
        Sym.bound("scripts: 1 or 2 Cyrillic, Greek, kana or full-width characters, alone or next to a Latin letter or digit");
        H.checkBool(H.bool("a " + op + (lit ? " '" + b + "'" : " b"), H.data("a", a, "b", b)), H.holds(op, cmp(a, b)), "text " + op + " text of another script");
        Sym.cover("compared");
    }
    /** pairs of texts that some other notion of equality or order would confuse */
    static final String[][] PAIRS = {
        {"\u00e9", "e\u0301"}, {"\ufb01", "fi"}, {"\u00df", "ss"}, {"\u00c5", "\u212b"}, {"\u0130", "i"}, {"\u0131", "i"}, {"\u017f", "s"}, {"\u212a", "K"}, {"\u212a", "k"},
        {"\uff11", "1"}, {"\u00b2", "2"}, {"\u00bd", "1/2"}, {"a\u00ad", "a"}, {"a\u200b", "a"}, {"\ufeffa", "a"}, {"a\u00a0", "a "}, {"a\u00a0", "a"}, {"\ud83d\ude00", "\ud83d\ude01"},
        {"\ud83d\ude00", "\uffff"}, {"\u00e4", "z"}, {"\u00e4", "a"}, {"\u0391", "A"}, {"\u0410", "A"}, {"a\n", "a"}, {"a\r\n", "a\n"}, {"a\u0000", "a"}, {"a\t", "a "}, {"I", "\u0131"}, {"\u03c3", "\u03c2"},
        {"a  b", "a b"}, {" a", "a"}, {"a ", "a"}, {"", " "}, {"null", ""}, {"NULL", "null"}, {"a10", "a9"}, {"a-b", "ab"}, {"co-op", "coop"}, {"\u20ac", "EUR"}};
    public static void confusable() {
        int k = Sym.choose("pair", PAIRS.length), swap = Sym.choose("swap", 2);
        String a = PAIRS[k][swap], b = PAIRS[k][1 - swap], t = Sym.anyString("t", 1, AB);
        int where = Sym.choose("where", 3);
        if (where == 1) { a = t + a; b = t + b; }
        if (where == 2) { a = a + t; b = b + t; }
        String op = H.pick("op", "=", "<");
        Sym.bound("confusable: " + PAIRS.length + " pairs of texts that differ in case, accents, width, blanks, compatibility or code-point order, alone or next to a character");
        H.checkBool(H.bool("a " + op + " b", H.data("a", a, "b", b)), H.holds(op, cmp(a, b)), "text " + op + " text that looks alike");
        H.checkBool(H.bool("a in (b)", H.data("a", a, "b", b)), H.holds("=", cmp(a, b)), "text IN a text that looks alike");
        Sym.cover("compared");
    }
    /** texts that agree in their first characters, up to several thousand of them */
    public static void longPrefix() {
        int[] lens = {15, 31, 63, 64, 100, 127, 128, 255, 256, 300, 1000, 1023, 1024, 4096, 5000};
        int n = lens[Sym.choose("prefix", lens.length)];
        StringBuilder p = new StringBuilder();
        for (int i = 0; i < n; i++) p.append((char) ('a' + i % 26));
        String a = p + Sym.anyString("a", 1, AB), b = p + Sym.anyString("b", 1, AB);
        String op = H.pick("op", H.OPS);
        Sym.bound("longPrefix: a common prefix of up to 5000 characters before the one that differs");
        H.checkBool(H.bool("a " + op + " b", H.data("a", a, "b", b)), H.holds(op, cmp(a, b)), "text " + op + " text with a long common prefix");
        Sym.cover("compared");
    }
}
