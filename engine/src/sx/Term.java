package sx;

import java.math.BigInteger;
import java.util.*;

/**
 * Hash-consed terms over mathematical integers and booleans.  Every integer term carries a finite interval; machine
 * wrap-around is made explicit by the callers (wrap32/wrap64), so the integers are exact models of int/long arithmetic.
 */
public final class Term {
    public enum Op { CONST, VAR, ADD, MUL, DIV, MOD, ITE, STRIPSCALE, BAND, BOR, BXOR, BTRUE, BFALSE, LE, EQ, NOT, AND, OR }

    public final Op op;
    public final Term a, b, c;
    public final BigInteger k;      // CONST value
    public final String name;       // VAR
    public final BigInteger lo, hi; // integer terms only
    private final int hash;
    private String[] vars;

    private Term(Op op, Term a, Term b, Term c, BigInteger k, String name, BigInteger lo, BigInteger hi) {
        this.op = op; this.a = a; this.b = b; this.c = c; this.k = k; this.name = name; this.lo = lo; this.hi = hi;
        int h = op.ordinal();
        h = h * 31 + System.identityHashCode(a);
        h = h * 31 + System.identityHashCode(b);
        h = h * 31 + System.identityHashCode(c);
        h = h * 31 + (k == null ? 0 : k.hashCode());
        h = h * 31 + (name == null ? 0 : name.hashCode());
        this.hash = h;
    }

    @Override public int hashCode() { return hash; }

    @Override public boolean equals(Object o) {
        if (this == o) return true;
        if (!(o instanceof Term)) return false;
        Term t = (Term) o;
        return op == t.op && a == t.a && b == t.b && c == t.c && Objects.equals(k, t.k) && Objects.equals(name, t.name);
    }

    public boolean isBool() { return op.ordinal() >= Op.BTRUE.ordinal(); }
    public boolean isConst() { return op == Op.CONST; }
    public boolean isTrue() { return op == Op.BTRUE; }
    public boolean isFalse() { return op == Op.BFALSE; }

    // ---- interning (per worker thread) ----
    private static final ThreadLocal<HashMap<Term, Term>> TABLE = ThreadLocal.withInitial(HashMap::new);
    public static void clearTable() { TABLE.get().clear(); COPIES.get().clear(); }
    private static Term in(Op op, Term a, Term b, Term c, BigInteger k, String name, BigInteger lo, BigInteger hi) {
        Term t = new Term(op, a, b, c, k, name, lo, hi);
        HashMap<Term, Term> tb = TABLE.get();
        Term o = tb.putIfAbsent(t, t);
        return o == null ? t : o;
    }

    public static final Term TRUE = new Term(Op.BTRUE, null, null, null, null, null, null, null);
    public static final Term FALSE = new Term(Op.BFALSE, null, null, null, null, null, null, null);
    public static final BigInteger Z = BigInteger.ZERO, ONE = BigInteger.ONE, M1 = BigInteger.ONE.negate();
    public static final BigInteger I_MIN = BigInteger.valueOf(Integer.MIN_VALUE), I_MAX = BigInteger.valueOf(Integer.MAX_VALUE);
    public static final BigInteger L_MIN = BigInteger.valueOf(Long.MIN_VALUE), L_MAX = BigInteger.valueOf(Long.MAX_VALUE);
    public static final BigInteger TWO32 = BigInteger.ONE.shiftLeft(32), TWO64 = BigInteger.ONE.shiftLeft(64);

    public static Term c(long v) { return c(BigInteger.valueOf(v)); }
    public static Term c(BigInteger v) { return in(Op.CONST, null, null, null, v, null, v, v); }
    public static Term var(String name, BigInteger lo, BigInteger hi) {
        if (lo.equals(hi)) return c(lo);
        Term t = in(Op.VAR, null, null, null, null, name, lo, hi);
        if (!t.lo.equals(lo) || !t.hi.equals(hi)) { // the same name with another range: must not happen within a path
            TABLE.get().remove(t);
            t = in(Op.VAR, null, null, null, null, name, lo, hi);
        }
        return t;
    }

    public static Term add(Term x, Term y) {
        if (x.isConst() && y.isConst()) return c(x.k.add(y.k));
        if (x.isConst()) { Term t = x; x = y; y = t; }
        if (y.isConst()) {
            if (y.k.signum() == 0) return x;
            if (x.op == Op.ADD && x.b.isConst()) return add(x.a, c(x.b.k.add(y.k)));
            if (x.op == Op.ITE && x.b.isConst() && x.c.isConst()) return ite(x.a, c(x.b.k.add(y.k)), c(x.c.k.add(y.k)));
        }
        else {
            if (x.op == Op.ADD && x.b.isConst()) return add(add(x.a, y), x.b);
            if (y.op == Op.ADD && y.b.isConst()) return add(add(x, y.a), y.b);
            // x + (-1)x
            if (y.op == Op.MUL && y.a == x && y.b.isConst() && y.b.k.equals(M1)) return c(0);
            if (x.op == Op.MUL && x.a == y && x.b.isConst() && x.b.k.equals(M1)) return c(0);
            Term m = merged(x, y);
            if (m != null) return m;
            // canonical order for commutativity
            if (cmp(x, y) > 0) { Term t = x; x = y; y = t; }
        }
        return in(Op.ADD, x, y, null, null, null, x.lo.add(y.lo), x.hi.add(y.hi));
    }

    private static void addends(Term x, Map<Term, BigInteger> into) {
        ArrayDeque<Term> todo = new ArrayDeque<>();
        todo.push(x);
        while (!todo.isEmpty()) {
            Term t = todo.pop();
            if (t.op == Op.ADD) { todo.push(t.b); todo.push(t.a); }
            else if (t.isConst()) into.merge(c(1), t.k, BigInteger::add);
            else if (t.op == Op.MUL && t.b.isConst()) into.merge(t.a, t.b.k, BigInteger::add);
            else into.merge(t, ONE, BigInteger::add);
        }
    }

    /** x + y with equal addends collected, or null when no addend of one occurs in the other */
    private static Term merged(Term x, Term y) {
        Map<Term, BigInteger> p = new LinkedHashMap<>(), q = new LinkedHashMap<>();
        addends(x, p);
        addends(y, q);
        boolean common = false;
        for (Term t : q.keySet()) if (p.containsKey(t)) { common = true; break; }
        if (!common) return null;
        q.forEach((t, k) -> p.merge(t, k, BigInteger::add));
        Term r = c(0);
        for (Map.Entry<Term, BigInteger> e : p.entrySet()) r = add(r, mul(e.getKey(), c(e.getValue())));
        return clampCopy(r, x.lo.add(y.lo), x.hi.add(y.hi));
    }

    private static int cmp(Term x, Term y) {
        if (x == y) return 0;
        int d = x.op.ordinal() - y.op.ordinal();
        if (d != 0) return d;
        if (x.op == Op.VAR) return x.name.compareTo(y.name);
        if (x.op == Op.CONST) return x.k.compareTo(y.k);
        if (x.a != null && y.a != null) { d = cmp(x.a, y.a); if (d != 0) return d; }
        if (x.b != null && y.b != null) { d = cmp(x.b, y.b); if (d != 0) return d; }
        if (x.c != null && y.c != null) { d = cmp(x.c, y.c); if (d != 0) return d; }
        return 0;
    }

    public static Term neg(Term x) { return mul(x, c(M1)); }
    public static Term sub(Term x, Term y) { return x == y && !x.isBool() ? c(0) : add(x, neg(y)); }

    public static Term mul(Term x, Term y) {
        if (x.isConst() && y.isConst()) return c(x.k.multiply(y.k));
        if (x.isConst()) { Term t = x; x = y; y = t; }
        if (y.isConst()) {
            if (y.k.signum() == 0) return c(0);
            if (y.k.equals(ONE)) return x;
            if (x.op == Op.MUL && x.b.isConst()) return mul(x.a, c(x.b.k.multiply(y.k)));
            if (x.op == Op.ADD) return add(mul(x.a, y), mul(x.b, y));
            if (x.op == Op.ITE && x.b.isConst() && x.c.isConst()) return ite(x.a, c(x.b.k.multiply(y.k)), c(x.c.k.multiply(y.k)));
        } else {
            if (x.op == Op.MUL && x.b.isConst()) return mul(mul(x.a, y), x.b);
            if (y.op == Op.MUL && y.b.isConst()) return mul(mul(x, y.a), y.b);
            if (cmp(x, y) > 0) { Term t = x; x = y; y = t; }
        }
        BigInteger p = x.lo.multiply(y.lo), q = x.lo.multiply(y.hi), r = x.hi.multiply(y.lo), s = x.hi.multiply(y.hi);
        BigInteger lo = p.min(q).min(r).min(s), hi = p.max(q).max(r).max(s);
        if (x == y && lo.signum() < 0) lo = Z;
        return in(Op.MUL, x, y, null, null, null, lo, hi);
    }

    private static BigInteger fdiv(BigInteger x, BigInteger y) { // floor for y > 0
        BigInteger[] q = x.divideAndRemainder(y);
        return q[1].signum() < 0 ? q[0].subtract(ONE) : q[0];
    }

    /** floor division, divisor > 0 on every model */
    public static Term div(Term x, Term y) {
        if (x.isConst() && y.isConst()) return c(fdiv(x.k, y.k));
        if (y.isConst()) {
            if (y.k.equals(ONE)) return x;
            if (x.op == Op.MUL && x.b.isConst() && x.b.k.mod(y.k).signum() == 0) return mul(x.a, c(x.b.k.divide(y.k)));
            BigInteger l = fdiv(x.lo, y.k), h = fdiv(x.hi, y.k);
            if (l.equals(h)) return c(l);
            if (x.op == Op.DIV && x.b.isConst()) return div(x.a, c(x.b.k.multiply(y.k)));
            Term[] qr = split(x, y.k);
            if (qr != null) return add(qr[0], div(qr[1], y));
            return in(Op.DIV, x, y, null, null, null, l, h);
        }
        BigInteger m = x.lo.abs().max(x.hi.abs());
        return in(Op.DIV, x, y, null, null, null, x.lo.signum() >= 0 ? Z : m.negate(), x.hi.signum() < 0 ? M1 : m);
    }

    /** x = k*q + r for a sum x with some addends that are multiples of k: {q, r}, or null */
    private static Term[] split(Term x, BigInteger k) {
        if (x.op != Op.ADD) return null;
        Term q = c(0), r = c(0);
        boolean any = false;
        ArrayDeque<Term> todo = new ArrayDeque<>();
        todo.push(x);
        while (!todo.isEmpty()) {
            Term t = todo.pop();
            if (t.op == Op.ADD) { todo.push(t.b); todo.push(t.a); }
            else if (t.isConst()) {
                BigInteger f = fdiv(t.k, k);
                if (f.signum() != 0) { any = true; q = add(q, c(f)); }
                r = add(r, c(t.k.mod(k)));
            } else if (t.op == Op.MUL && t.b.isConst() && t.b.k.mod(k).signum() == 0) { any = true; q = add(q, mul(t.a, c(t.b.k.divide(k)))); }
            else r = add(r, t);
        }
        return any ? new Term[]{q, r} : null;
    }

    /** floor modulus, divisor > 0 on every model */
    public static Term mod(Term x, Term y) {
        if (x.isConst() && y.isConst()) return c(x.k.mod(y.k));
        if (y.isConst()) {
            if (y.k.equals(ONE)) return c(0);
            if (x.lo.signum() >= 0 && x.hi.compareTo(y.k) < 0) return x;
            if (x.op == Op.MUL && x.b.isConst() && x.b.k.mod(y.k).signum() == 0) return c(0);
            BigInteger l = fdiv(x.lo, y.k), h = fdiv(x.hi, y.k);
            if (l.equals(h)) return sub(x, c(l.multiply(y.k)));
            if (x.op == Op.MOD && x.b.isConst() && x.b.k.mod(y.k).signum() == 0) return mod(x.a, y);
            Term[] qr = split(x, y.k);
            if (qr != null) return mod(qr[1], y);
            return in(Op.MOD, x, y, null, null, null, Z, y.k.subtract(ONE));
        }
        BigInteger h = y.hi.subtract(ONE);
        if (x.lo.signum() >= 0) h = h.min(x.hi);
        return in(Op.MOD, x, y, null, null, null, Z, h.max(Z));
    }

    /** Java truncating division; divisor nonzero on every model */
    public static Term tdiv(Term x, Term y) {
        if (y.isConst()) {
            if (y.k.signum() < 0) return neg(tdiv(x, c(y.k.negate())));
            if (x.lo.signum() >= 0) return div(x, y);
            if (x.hi.signum() <= 0) return neg(div(neg(x), y));
            return ite(ge(x, c(0)), div(x, y), neg(div(neg(x), y)));
        }
        if (y.lo.signum() > 0) {
            if (x.lo.signum() >= 0) return div(x, y);
            if (x.hi.signum() <= 0) return neg(div(neg(x), y));
            return ite(ge(x, c(0)), div(x, y), neg(div(neg(x), y)));
        }
        if (y.hi.signum() < 0) return neg(tdiv(x, neg(y)));
        // split by sign of y; guards keep the divisor positive through absPos
        Term ay = absPos(y);
        Term q = x.lo.signum() >= 0 ? div(x, ay) : ite(ge(x, c(0)), div(x, ay), neg(div(neg(x), ay)));
        return ite(ge(y, c(0)), q, neg(q));
    }

    private static Term absPos(Term y) { // |y| with 0 excluded by callers; interval kept >= 1 through ite(y==0,1,|y|)
        return ite(eq(y, c(0)), c(1), ite(ge(y, c(0)), y, neg(y)));
    }

    /** Java remainder */
    public static Term trem(Term x, Term y) {
        if (x.isConst() && y.isConst()) return c(x.k.remainder(y.k));
        Term ay = y.isConst() ? c(y.k.abs()) : y.lo.signum() > 0 ? y : y.hi.signum() < 0 ? neg(y) : absPos(y);
        if (x.lo.signum() >= 0) return mod(x, ay);
        if (x.hi.signum() <= 0) return neg(mod(neg(x), ay));
        return ite(ge(x, c(0)), mod(x, ay), neg(mod(neg(x), ay)));
    }

    public static Term ite(Term cond, Term x, Term y) {
        if (cond.isTrue()) return x;
        if (cond.isFalse()) return y;
        if (x == y) return x;
        if (x.isBool() || y.isBool()) return or(and(cond, x), and(not(cond), y));
        if (cond.op == Op.NOT) return ite(cond.a, y, x);
        return in(Op.ITE, cond, x, y, null, null, x.lo.min(y.lo), x.hi.max(y.hi));
    }

    /** scale of stripTrailingZeros() of unscaled u with scale s (u symbolic) */
    public static Term stripScale(Term u, int s) {
        if (u.isConst()) return c(new java.math.BigDecimal(u.k, s).stripTrailingZeros().scale());
        int digits = u.lo.abs().max(u.hi.abs()).toString().length();
        return in(Op.STRIPSCALE, u, c(s), null, null, null, BigInteger.valueOf(Math.min(0, s - digits)), BigInteger.valueOf(Math.max(s, 0)));
    }

    public static Term bits(Op op, Term x, Term y) {
        if (x.isConst() && y.isConst()) return c(op == Op.BAND ? x.k.and(y.k) : op == Op.BOR ? x.k.or(y.k) : x.k.xor(y.k));
        if (x.isConst()) { Term t = x; x = y; y = t; }
        if (isBoolInt(x) && isBoolInt(y)) {
            Term p = boolOf(x), q = boolOf(y);
            return ofBool(op == Op.BAND ? and(p, q) : op == Op.BOR ? or(p, q) : xor(p, q));
        }
        if (y.isConst()) {
            if (y.k.signum() == 0) return op == Op.BAND ? c(0) : x;
            if (y.k.equals(M1)) return op == Op.BAND ? x : op == Op.BOR ? y : sub(neg(x), c(1));
            if (op == Op.BAND && y.k.signum() > 0 && y.k.add(ONE).bitCount() == 1) return mod(x, c(y.k.add(ONE)));
            if (op == Op.BAND && y.k.signum() > 0 && y.k.bitCount() == 1) { // single bit test
                int n = y.k.getLowestSetBit();
                return mul(mod(div(x, c(y.k)), c(2)), c(ONE.shiftLeft(n)));
            }
            if (op == Op.BAND && y.k.signum() < 0 && y.k.negate().bitCount() == 1) return sub(x, mod(x, c(y.k.negate()))); // clear low bits
            if (op == Op.BOR && y.k.signum() > 0 && x.lo.signum() >= 0) { // disjoint bits
                int low = y.k.getLowestSetBit();
                if (x.hi.bitLength() <= low) return add(x, y);
            }
        }
        BigInteger lo, hi;
        if (x.lo.signum() >= 0 && y.lo.signum() >= 0) {
            int bl = Math.max(x.hi.bitLength(), y.hi.bitLength());
            lo = Z; hi = op == Op.BAND ? x.hi.min(y.hi) : ONE.shiftLeft(bl).subtract(ONE);
        } else if (op == Op.BAND && (x.lo.signum() >= 0 || y.lo.signum() >= 0)) {
            lo = Z; hi = x.lo.signum() >= 0 ? x.hi : y.hi;
        } else {
            int bl = Math.max(Math.max(x.lo.bitLength(), x.hi.bitLength()), Math.max(y.lo.bitLength(), y.hi.bitLength()));
            lo = ONE.shiftLeft(bl).negate(); hi = ONE.shiftLeft(bl).subtract(ONE);
        }
        return in(op, x, y, null, null, null, lo, hi);
    }

    // ---- booleans ----
    public static Term bool(boolean b) { return b ? TRUE : FALSE; }
    public static Term ofBool(Term b) {
        if (b.isTrue()) return c(1);
        if (b.isFalse()) return c(0);
        return ite(b, c(1), c(0));
    }
    public static boolean isBoolInt(Term t) { return t.lo.signum() >= 0 && t.hi.compareTo(ONE) <= 0; }
    public static Term boolOf(Term i) { return not(eq(i, c(0))); }

    public static Term not(Term x) {
        if (x.isTrue()) return FALSE;
        if (x.isFalse()) return TRUE;
        if (x.op == Op.NOT) return x.a;
        return in(Op.NOT, x, null, null, null, null, null, null);
    }
    public static Term and(Term x, Term y) {
        if (x.isFalse() || y.isFalse()) return FALSE;
        if (x.isTrue()) return y;
        if (y.isTrue() || x == y) return x;
        if (x == not(y)) return FALSE;
        return in(Op.AND, x, y, null, null, null, null, null);
    }
    public static Term or(Term x, Term y) {
        if (x.isTrue() || y.isTrue()) return TRUE;
        if (x.isFalse()) return y;
        if (y.isFalse() || x == y) return x;
        if (x == not(y)) return TRUE;
        return in(Op.OR, x, y, null, null, null, null, null);
    }
    public static Term xor(Term x, Term y) { return or(and(x, not(y)), and(not(x), y)); }
    public static Term iff(Term x, Term y) {
        if (x == y) return TRUE;
        if (x.isTrue()) return y; if (y.isTrue()) return x;
        if (x.isFalse()) return not(y); if (y.isFalse()) return not(x);
        return or(and(x, y), and(not(x), not(y)));
    }

    public static Term le(Term x, Term y) {
        if (x == y) return TRUE;
        if (x.hi.compareTo(y.lo) <= 0) return TRUE;
        if (x.lo.compareTo(y.hi) > 0) return FALSE;
        if (x.op == Op.ITE && y.isConst() && (x.b.isConst() || x.c.isConst())) return ite(x.a, le(x.b, y), le(x.c, y));
        if (y.op == Op.ITE && x.isConst() && (y.b.isConst() || y.c.isConst())) return ite(y.a, le(x, y.b), le(x, y.c));
        if (y.isConst() && x.op == Op.ADD && x.b.isConst()) return le(x.a, c(y.k.subtract(x.b.k)));
        if (x.isConst() && y.op == Op.ADD && y.b.isConst()) return le(c(x.k.subtract(y.b.k)), y.a);
        if (y.isConst() && x.op == Op.MUL && x.b.isConst()) {
            if (x.b.k.signum() > 0) return le(x.a, c(fdiv(y.k, x.b.k)));
            return le(c(fdiv(y.k, x.b.k.negate()).negate()), x.a);
        }
        if (x.isConst() && y.op == Op.MUL && y.b.isConst()) {
            if (y.b.k.signum() > 0) return le(c(fdiv(x.k.negate(), y.b.k).negate()), y.a);
            return le(y.a, c(fdiv(x.k.negate(), y.b.k.negate())));
        }
        if (x.op == Op.STRIPSCALE && y.isConst()) { // scale <= k  <=>  u divisible by 10^(s-k) (or zero and k >= 0)
            int s = x.b.k.intValue(), k = y.k.intValue();
            Term d = eq(mod(x.a, c(BigInteger.TEN.pow(Math.max(0, s - k)))), c(0));
            return k >= 0 ? d : and(d, not(eq(x.a, c(0))));
        }
        if (y.op == Op.STRIPSCALE && x.isConst()) return not(le(y, c(x.k.subtract(ONE))));
        return in(Op.LE, x, y, null, null, null, null, null);
    }
    public static Term lt(Term x, Term y) { return not(le(y, x)); }
    public static Term ge(Term x, Term y) { return le(y, x); }
    public static Term gt(Term x, Term y) { return not(le(x, y)); }
    public static Term eq(Term x, Term y) {
        if (x == y) return TRUE;
        if (x.lo.compareTo(y.hi) > 0 || x.hi.compareTo(y.lo) < 0) return FALSE;
        if (x.isConst()) { Term t = x; x = y; y = t; }
        if (x.isConst() && y.isConst()) return bool(x.k.equals(y.k));
        if (y.isConst()) {
            if (x.op == Op.ITE && (x.b.isConst() || x.c.isConst())) return ite(x.a, eq(x.b, y), eq(x.c, y));
            if (x.op == Op.ADD && x.b.isConst()) return eq(x.a, c(y.k.subtract(x.b.k)));
            if (x.op == Op.MUL && x.b.isConst())
                return y.k.mod(x.b.k.abs()).signum() == 0 ? eq(x.a, c(y.k.divide(x.b.k))) : FALSE;
            if (x.op == Op.BOR && y.k.signum() == 0) return and(eq(x.a, y), eq(x.b, y));
            if (x.op == Op.STRIPSCALE) return and(le(x, y), not(le(x, c(y.k.subtract(ONE)))));
        } else if (cmp(x, y) > 0) { Term t = x; x = y; y = t; }
        return in(Op.EQ, x, y, null, null, null, null, null);
    }

    /** three-way comparison as -1/0/1 */
    public static Term compare(Term x, Term y) {
        return ite(lt(x, y), c(-1), ite(eq(x, y), c(0), c(1)));
    }

    public static Term wrap(Term x, int bits) {
        BigInteger half = ONE.shiftLeft(bits - 1), full = ONE.shiftLeft(bits);
        BigInteger min = half.negate(), max = half.subtract(ONE);
        if (x.lo.compareTo(min) >= 0 && x.hi.compareTo(max) <= 0) return x;
        if (x.op == Op.ITE) return ite(x.a, wrap(x.b, bits), wrap(x.c, bits));
        if (x.lo.compareTo(min.subtract(full)) >= 0 && x.hi.compareTo(max.add(full)) <= 0) {
            Term hi = le(c(max.add(ONE)), x), lo = le(x, c(min.subtract(ONE)));
            Term r = ite(hi, sub(x, c(full)), ite(lo, add(x, c(full)), x));
            return clamp(r, min, max);
        }
        return sub(mod(add(x, c(half)), c(full)), c(half));
    }
    public static Term wrap32(Term x) { return wrap(x, 32); }
    public static Term wrap64(Term x) { return wrap(x, 64); }

    /** same term with a tighter interval that the caller knows to hold */
    public static Term clamp(Term x, BigInteger lo, BigInteger hi) {
        if (x.lo.compareTo(lo) >= 0 && x.hi.compareTo(hi) <= 0) return x;
        if (x.isConst()) return x;
        BigInteger l = x.lo.max(lo), h = x.hi.min(hi);
        if (x.op == Op.VAR) return x;
        if (l.compareTo(h) > 0) return x;
        // hash-consing ignores the interval, so wrap in an ITE-free copy under a distinct identity
        Term t = new Term(x.op, x.a, x.b, x.c, x.k, x.name, l, h);
        TABLE.get().put(t, t);
        HashMap<Term, Term> tb = TABLE.get();
        Term o = tb.get(t);
        if (o.lo.equals(l) && o.hi.equals(h)) return o;
        tb.remove(t); tb.put(t, t);
        return t;
    }

    private static final ThreadLocal<HashMap<List<Object>, Term>> COPIES = ThreadLocal.withInitial(HashMap::new);
    /**
     * The same value with a tighter interval that holds wherever this copy is used (on this path, or under the ite guard
     * it is placed in).  Never interned, so other uses of x keep their own interval.
     */
    public static Term clampCopy(Term x, BigInteger lo, BigInteger hi) {
        if (x.isConst() || x.lo.compareTo(lo) >= 0 && x.hi.compareTo(hi) <= 0) return x;
        BigInteger l = x.lo.max(lo), h = x.hi.min(hi);
        if (l.compareTo(h) > 0) return x;
        return COPIES.get().computeIfAbsent(Arrays.asList(x, l, h), k -> x.op == Op.VAR
            ? new Term(Op.ADD, x, c(0), null, null, null, l, h)
            : new Term(x.op, x.a, x.b, x.c, x.k, x.name, l, h));
    }

    public String[] vars() {
        if (vars == null) {
            if (op == Op.VAR) vars = new String[]{name};
            else {
                TreeSet<String> s = new TreeSet<>();
                if (a != null) Collections.addAll(s, a.vars());
                if (b != null) Collections.addAll(s, b.vars());
                if (c != null) Collections.addAll(s, c.vars());
                vars = s.toArray(new String[0]);
            }
        }
        return vars;
    }

    // ---- evaluation under a model ----
    public interface Model { BigInteger get(Term var); }

    public static BigInteger evalInt(Term t, Model m) { return (BigInteger) eval(t, m, new IdentityHashMap<>()); }
    public static boolean evalBool(Term t, Model m) { return (Boolean) eval(t, m, new IdentityHashMap<>()); }

    public static Object eval(Term t, Model m, IdentityHashMap<Term, Object> memo) {
        switch (t.op) {
            case CONST: return t.k;
            case VAR: return m.get(t);
            case BTRUE: return true;
            case BFALSE: return false;
            default:
        }
        Object r = memo.get(t);
        if (r != null) return r;
        switch (t.op) {
            case ADD: r = ((BigInteger) eval(t.a, m, memo)).add((BigInteger) eval(t.b, m, memo)); break;
            case MUL: r = ((BigInteger) eval(t.a, m, memo)).multiply((BigInteger) eval(t.b, m, memo)); break;
            case DIV: {
                BigInteger y = (BigInteger) eval(t.b, m, memo);
                r = y.signum() <= 0 ? Z : fdiv((BigInteger) eval(t.a, m, memo), y); break;
            }
            case MOD: {
                BigInteger y = (BigInteger) eval(t.b, m, memo);
                r = y.signum() <= 0 ? Z : ((BigInteger) eval(t.a, m, memo)).mod(y); break;
            }
            case ITE: r = (Boolean) eval(t.a, m, memo) ? eval(t.b, m, memo) : eval(t.c, m, memo); break;
            case STRIPSCALE: r = BigInteger.valueOf(new java.math.BigDecimal((BigInteger) eval(t.a, m, memo), t.b.k.intValue()).stripTrailingZeros().scale()); break;
            case BAND: r = ((BigInteger) eval(t.a, m, memo)).and((BigInteger) eval(t.b, m, memo)); break;
            case BOR: r = ((BigInteger) eval(t.a, m, memo)).or((BigInteger) eval(t.b, m, memo)); break;
            case BXOR: r = ((BigInteger) eval(t.a, m, memo)).xor((BigInteger) eval(t.b, m, memo)); break;
            case LE: r = ((BigInteger) eval(t.a, m, memo)).compareTo((BigInteger) eval(t.b, m, memo)) <= 0; break;
            case EQ: r = eval(t.a, m, memo).equals(eval(t.b, m, memo)); break;
            case NOT: r = !(Boolean) eval(t.a, m, memo); break;
            case AND: r = (Boolean) eval(t.a, m, memo) && (Boolean) eval(t.b, m, memo); break;
            case OR: r = (Boolean) eval(t.a, m, memo) || (Boolean) eval(t.b, m, memo); break;
            default: throw new IllegalStateException();
        }
        memo.put(t, r);
        return r;
    }

    @Override public String toString() { return str(new StringBuilder(), 0).toString(); }
    private StringBuilder str(StringBuilder s, int depth) {
        if (s.length() > 400) return s.append("..");
        switch (op) {
            case CONST: return s.append(k);
            case VAR: return s.append(name);
            case BTRUE: return s.append("true");
            case BFALSE: return s.append("false");
            default:
                s.append('(').append(op.name().toLowerCase());
                if (a != null) a.str(s.append(' '), depth + 1);
                if (b != null) b.str(s.append(' '), depth + 1);
                if (c != null) c.str(s.append(' '), depth + 1);
                return s.append(')');
        }
    }
}
