package sx;

import com.microsoft.z3.*;
import java.math.BigInteger;
import java.util.*;

/** One Z3 context per worker; queries are sliced to the constraints that share variables with the goal. */
public final class Smt {
    public enum R { SAT, UNSAT, UNKNOWN }

    public static final class Result {
        public final R r; public final Map<String, BigInteger> model;
        Result(R r, Map<String, BigInteger> m) { this.r = r; this.model = m; }
    }

    private static final boolean DUMP = System.getenv("SX_UNKNOWN") != null;
    private Context ctx;
    private final IdentityHashMap<Term, Expr<?>> memo = new IdentityHashMap<>();
    private int since;
    private final HashMap<Set<Term>, Result> cache = new HashMap<>();
    public int timeoutMs = 10000;
    // statistics
    public long queries, sat, unsat, unknown, cacheHits, nanos, maxNanos;
    public String slowest = "";
    private final Map<String, Term> varTerms = new HashMap<>();

    public Smt() { fresh(); }

    private void fresh() {
        if (ctx != null) ctx.close();
        HashMap<String, String> cfg = new HashMap<>();
        cfg.put("model", "true");
        ctx = new Context(cfg);
        memo.clear();
        since = 0;
    }

    public void newPath() {
        cache.clear();
        varTerms.clear();
        memo.clear();
        if (since > 3000) fresh();
    }

    private IntExpr i(Term t) { return (IntExpr) conv(t); }
    private BoolExpr b(Term t) { return (BoolExpr) conv(t); }

    private Expr<?> conv(Term t) {
        Expr<?> e = memo.get(t);
        if (e != null) return e;
        switch (t.op) {
            case CONST: e = ctx.mkInt(t.k.toString()); break;
            case VAR:
                if (t.name.startsWith("~order")) throw new Unsupported("order of the texts of numbers");
                e = ctx.mkIntConst(t.name); varTerms.put(t.name, t); break;
            case BTRUE: e = ctx.mkTrue(); break;
            case BFALSE: e = ctx.mkFalse(); break;
            case ADD: e = ctx.mkAdd(i(t.a), i(t.b)); break;
            case MUL: e = ctx.mkMul(i(t.a), i(t.b)); break;
            case DIV: e = ctx.mkDiv(i(t.a), i(t.b)); break;
            case MOD: e = ctx.mkMod(i(t.a), i(t.b)); break;
            case ITE: e = ctx.mkITE(b(t.a), i(t.b), i(t.c)); break;
            case LE: e = ctx.mkLe(i(t.a), i(t.b)); break;
            case EQ: e = ctx.mkEq(i(t.a), i(t.b)); break;
            case NOT: e = ctx.mkNot(b(t.a)); break;
            case AND: e = ctx.mkAnd(b(t.a), b(t.b)); break;
            case OR: e = ctx.mkOr(b(t.a), b(t.b)); break;
            case STRIPSCALE: {
                int s = t.b.k.intValue();
                IntExpr u = i(t.a);
                int digits = t.a.lo.abs().max(t.a.hi.abs()).toString().length();
                Expr<?> r = ctx.mkInt(s - digits);
                for (int d = digits; d >= 1; d--) {
                    // not divisible by 10^d: scale is at least s-d+1
                    BoolExpr nd = ctx.mkNot(ctx.mkEq(ctx.mkMod(u, (IntExpr) ctx.mkInt(BigInteger.TEN.pow(d).toString())), ctx.mkInt(0)));
                    r = d == digits ? ctx.mkITE(nd, ctx.mkInt(s - d + 1), r) : ctx.mkITE(nd, ctx.mkInt(s - d + 1), r);
                }
                e = ctx.mkITE(ctx.mkEq(u, ctx.mkInt(0)), ctx.mkInt(0), (Expr) r);
                break;
            }
            case BAND: case BOR: case BXOR: {
                BigInteger m = t.a.lo.abs().max(t.a.hi.abs()).max(t.b.lo.abs()).max(t.b.hi.abs());
                int w = m.bitLength() + 1;
                BitVecExpr x = ctx.mkInt2BV(w, i(t.a)), y = ctx.mkInt2BV(w, i(t.b));
                BitVecExpr z = t.op == Term.Op.BAND ? ctx.mkBVAND(x, y) : t.op == Term.Op.BOR ? ctx.mkBVOR(x, y) : ctx.mkBVXOR(x, y);
                e = ctx.mkBV2Int(z, true);
                break;
            }
            default: throw new IllegalStateException(t.op.toString());
        }
        memo.put(t, e);
        return e;
    }

    /** the constraints transitively connected to the goal */
    private static List<Term> slice(List<Term> pc, Term goal) {
        Set<String> vars = new HashSet<>(Arrays.asList(goal.vars()));
        List<Term> out = new ArrayList<>();
        boolean[] used = new boolean[pc.size()];
        boolean changed = true;
        while (changed) {
            changed = false;
            for (int k = 0; k < used.length; k++) {
                if (used[k]) continue;
                String[] vs = pc.get(k).vars();
                for (String v : vs) if (vars.contains(v)) {
                    used[k] = true; changed = true; out.add(pc.get(k));
                    Collections.addAll(vars, vs);
                    break;
                }
            }
        }
        return out;
    }

    public Result check(List<Term> pc, Term goal) {
        if (goal.isFalse()) return new Result(R.UNSAT, null);
        List<Term> sl = slice(pc, goal);
        Set<Term> key = new HashSet<>(sl);
        key.add(goal);
        Result res = cache.get(key);
        if (res != null) { cacheHits++; return res; }
        sl.add(goal);
        res = solve(sl);
        if (res.r != R.UNKNOWN) cache.put(key, res);
        return res;
    }

    private Result solve(List<Term> cs) {
        since++;
        queries++;
        long t0 = System.nanoTime();
        Result out = null;
        try {
            for (int attempt = 0; attempt < 2 && out == null; attempt++) {
                if (attempt == 1) fresh();
                Solver s = attempt == 0 ? ctx.mkSimpleSolver() : ctx.mkSolver();
                Params p = ctx.mkParams();
                p.add("timeout", timeoutMs);
                p.add("random_seed", 7 * attempt);
                s.setParameters(p);
                Set<String> vs = new TreeSet<>();
                for (Term t : cs) { s.add(b(t)); Collections.addAll(vs, t.vars()); }
                for (String v : vs) {
                    Term t = varTerms.get(v);
                    IntExpr x = i(t);
                    s.add(ctx.mkGe(x, ctx.mkInt(t.lo.toString())), ctx.mkLe(x, ctx.mkInt(t.hi.toString())));
                }
                Status st = s.check();
                if (st == Status.UNSATISFIABLE) out = new Result(R.UNSAT, null);
                else if (st == Status.SATISFIABLE) {
                    Model m = s.getModel();
                    Map<String, BigInteger> mm = new HashMap<>();
                    for (String v : vs) {
                        Expr<?> e = m.eval(ctx.mkIntConst(v), true);
                        mm.put(v, ((IntNum) e).getBigInteger());
                    }
                    // trust only models that our own evaluator confirms
                    Term.Model ev = t -> mm.get(t.name);
                    boolean ok = true;
                    for (Term t : cs) if (!Term.evalBool(t, ev)) { ok = false; break; }
                    if (ok) out = new Result(R.SAT, mm);
                }
            }
        } catch (Z3Exception ex) {
            fresh();
        }
        if (out == null && DUMP) for (Term t : cs) System.err.println("UNKNOWN " + t + "\n");
        if (out == null) out = new Result(R.UNKNOWN, null);
        long dt = System.nanoTime() - t0;
        nanos += dt;
        if (dt > maxNanos) { maxNanos = dt; slowest = cs.get(cs.size() - 1).toString(); }
        if (out.r == R.SAT) sat++; else if (out.r == R.UNSAT) unsat++; else unknown++;
        return out;
    }
}
