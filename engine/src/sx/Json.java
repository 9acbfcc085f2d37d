package sx;

import java.util.*;

/** A minimal JSON writer and reader. */
final class Json {
    static String write(Object o) { StringBuilder s = new StringBuilder(); w(s, o, 0); return s.toString(); }
    private static void nl(StringBuilder s, int d) { s.append('\n'); for (int k = 0; k < d; k++) s.append(' '); }
    private static void w(StringBuilder s, Object o, int d) {
        if (o == null) s.append("null");
        else if (o instanceof Map) {
            s.append('{');
            boolean first = true;
            for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) {
                if (!first) s.append(',');
                first = false;
                nl(s, d + 1); q(s, e.getKey().toString()); s.append(": "); w(s, e.getValue(), d + 1);
            }
            if (!first) nl(s, d);
            s.append('}');
        } else if (o instanceof Collection) {
            s.append('[');
            boolean first = true;
            for (Object e : (Collection<?>) o) { if (!first) s.append(','); first = false; nl(s, d + 1); w(s, e, d + 1); }
            if (!first) nl(s, d);
            s.append(']');
        } else if (o instanceof Number || o instanceof Boolean) s.append(o);
        else q(s, o.toString());
    }
    private static void q(StringBuilder s, String t) {
        s.append('"');
        for (char c : t.toCharArray()) {
            if (c == '"' || c == '\\') s.append('\\').append(c);
            else if (c < 32 || c > 126) s.append(String.format("\\u%04x", (int) c));
            else s.append(c);
        }
        s.append('"');
    }

    static Object read(String s) { return new Json(s).val(); }
    private final String s; private int p;
    private Json(String s) { this.s = s; }
    private void ws() { while (p < s.length() && Character.isWhitespace(s.charAt(p))) p++; }
    private Object val() {
        ws();
        char c = s.charAt(p);
        if (c == '{') {
            Map<String, Object> m = new LinkedHashMap<>();
            p++; ws();
            if (s.charAt(p) == '}') { p++; return m; }
            for (;;) {
                ws(); String k = (String) val(); ws(); p++;
                m.put(k, val()); ws();
                if (s.charAt(p++) == '}') return m;
            }
        }
        if (c == '[') {
            List<Object> l = new ArrayList<>();
            p++; ws();
            if (s.charAt(p) == ']') { p++; return l; }
            for (;;) { l.add(val()); ws(); if (s.charAt(p++) == ']') return l; }
        }
        if (c == '"') {
            StringBuilder b = new StringBuilder();
            for (p++; s.charAt(p) != '"'; p++) {
                char x = s.charAt(p);
                if (x == '\\') {
                    x = s.charAt(++p);
                    if (x == 'u') { b.append((char) Integer.parseInt(s.substring(p + 1, p + 5), 16)); p += 4; }
                    else b.append(x == 'n' ? '\n' : x == 't' ? '\t' : x);
                } else b.append(x);
            }
            p++;
            return b.toString();
        }
        int q = p;
        while (p < s.length() && "}],".indexOf(s.charAt(p)) < 0 && !Character.isWhitespace(s.charAt(p))) p++;
        String t = s.substring(q, p);
        if (t.equals("true")) return true;
        if (t.equals("false")) return false;
        if (t.equals("null")) return null;
        return t.matches("-?\\d+") ? (Object) new java.math.BigInteger(t) : (Object) Double.valueOf(t);
    }
}
