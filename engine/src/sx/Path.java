package sx;

import java.math.BigInteger;
import java.util.*;

/** The state of one symbolic path: decisions, path condition, current model, checks and observations. */
public final class Path {
    /** one recorded decision; replayed in order when a path is re-executed from its prefix */
    static final class Dec {
        final char kind; // B branch, C choose, P pick
        final boolean taken; final boolean implied; final int n; final BigInteger v; final int site;
        Dec(char kind, boolean taken, boolean implied, int n, BigInteger v, int site) { this.kind = kind; this.taken = taken; this.implied = implied; this.n = n; this.v = v; this.site = site; }
    }
    static final class Task {
        final String harness; final List<Dec> prefix; final Map<String, BigInteger> model;
        Set<String> conflicts = Collections.emptySet(); // what concurrent callers were seen to write
        Task(String h, List<Dec> p, Map<String, BigInteger> m) { harness = h; prefix = p; model = m; }
    }
    static final class Candidate {
        final String harness, tag, detail; final Map<String, BigInteger> model; final Map<String, Integer> choices;
        Candidate(String harness, String tag, String detail, Map<String, BigInteger> m, Map<String, Integer> c) { this.harness = harness; this.tag = tag; this.detail = detail; model = m; choices = c; }
    }

    Vm vm;
    final Smt smt;
    // per path
    Task task; int pos;
    List<Dec> decs; List<Term> pc; Map<String, BigInteger> model; Map<String, Term> vars;
    Map<String, Integer> choices; List<Task> alts; List<Candidate> cands; List<Object[]> observations;
    Set<String> covers, bounds = new LinkedHashSet<>(); List<String> inconclusive;
    int checksSym, checksConst; int branches;
    Map<String, int[]> tagCounts = new TreeMap<>();
    int maxDecisions = 4000;
    boolean thorough;
    Locale locale;
    Set<String> writes;
    void wrote(String k) { if (!task.conflicts.contains(k)) writes.add(k); }

    Path(Smt smt) { this.smt = smt; }

    void begin(Task t) {
        task = t; pos = 0; locale = null; writes = new TreeSet<>();
        decs = new ArrayList<>(); pc = new ArrayList<>(); model = new HashMap<>(t.model); vars = new LinkedHashMap<>();
        choices = new LinkedHashMap<>(); alts = new ArrayList<>(); cands = new ArrayList<>(); observations = new ArrayList<>();
        covers = new LinkedHashSet<>(); bounds = new LinkedHashSet<>(); inconclusive = new ArrayList<>();
        checksSym = checksConst = branches = finds = 0;
        tagCounts = new TreeMap<>();
        Term.clearTable();
        smt.newPath();
    }

    BigInteger val(Term v) {
        BigInteger x = model.get(v.name);
        if (x == null || x.compareTo(v.lo) < 0 || x.compareTo(v.hi) > 0) {
            x = v.lo.signum() > 0 ? v.lo : v.hi.signum() < 0 ? v.hi : BigInteger.ZERO;
            model.put(v.name, x);
        }
        return x;
    }
    final Term.Model ev = this::val;

    Map<String, BigInteger> merged(Map<String, BigInteger> upd) {
        Map<String, BigInteger> m = new HashMap<>(model);
        if (upd != null) m.putAll(upd);
        return m;
    }

    private int site() { return vm.curM == null ? 0 : vm.curM.key.hashCode(); }

    private Dec next(char kind) {
        if (pos < task.prefix.size()) {
            Dec d = task.prefix.get(pos);
            if (d.kind != kind) throw new Unsupported("replay diverged: expected " + d.kind + " got " + kind + " in " + vm.curM);
            if (d.site != site()) throw new Unsupported("replay diverged at " + vm.curM);
            pos++;
            decs.add(d);
            return d;
        }
        if (decs.size() > maxDecisions) throw new Unsupported("too many decisions");
        return null;
    }

    /** true when the branch is taken on this path */
    boolean branch(Term cond) {
        if (cond.isTrue()) return true;
        if (cond.isFalse()) return false;
        branches++;
        Dec d = next('B');
        if (d != null) {
            if (!d.implied) pc.add(d.taken ? cond : Term.not(cond));
            return d.taken;
        }
        boolean v = Term.evalBool(cond, ev);
        Term other = v ? Term.not(cond) : cond;
        Smt.Result r = find(smt.check(pc, other), other);
        boolean implied = r.r == Smt.R.UNSAT;
        if (r.r == Smt.R.SAT) {
            List<Dec> p = new ArrayList<>(decs);
            p.add(new Dec('B', !v, false, 0, null, site()));
            alts.add(new Task(task.harness, p, merged(r.model)));
        } else if (r.r == Smt.R.UNKNOWN) inconclusive.add("solver unknown at " + vm.curM + ": " + cond);
        if (!implied) pc.add(v ? cond : Term.not(cond));
        decs.add(new Dec('B', v, implied, 0, null, site()));
        return v;
    }

    /** whether the path condition implies the term; never forks */
    boolean implied(Term cond) {
        if (cond.isTrue() || cond.isFalse()) return cond.isTrue();
        Dec d = next('K');
        if (d == null) {
            d = new Dec('K', Term.evalBool(cond, ev) && smt.check(pc, Term.not(cond)).r == Smt.R.UNSAT, true, 0, null, site());
            decs.add(d);
        }
        return d.taken;
    }

    /** concrete fork without the solver */
    int choose(String name, int n) {
        Integer seen = choices.get(name);
        if (seen != null) return seen;
        if (n <= 1) { choices.put(name, 0); return 0; }
        Dec d = next('C');
        int k;
        if (d != null) k = d.n;
        else {
            for (int j = n - 1; j >= 1; j--) {
                List<Dec> p = new ArrayList<>(decs);
                p.add(new Dec('C', true, false, j, null, site()));
                alts.add(new Task(task.harness, p, new HashMap<>(model)));
            }
            decs.add(new Dec('C', true, false, 0, null, site()));
            k = 0;
        }
        choices.put(name, k);
        return k;
    }

    /** fork over the feasible values of a term */
    BigInteger pick(Term t) {
        if (t.isConst()) return t.k;
        for (int tries = 0; ; tries++) {
            Dec d = next('P');
            if (d == null) {
                BigInteger v = Term.evalInt(t, ev);
                Term other = Term.not(Term.eq(t, Term.c(v)));
                Smt.Result r = find(smt.check(pc, other), other);
                if (r.r == Smt.R.SAT) {
                    List<Dec> p = new ArrayList<>(decs);
                    p.add(new Dec('P', false, false, 0, v, site()));
                    alts.add(new Task(task.harness, p, merged(r.model)));
                } else if (r.r == Smt.R.UNKNOWN) inconclusive.add("solver unknown (pick) at " + vm.curM);
                d = new Dec('P', true, r.r == Smt.R.UNSAT, 0, v, site());
                decs.add(d);
            }
            Term e = Term.eq(t, Term.c(d.v));
            if (d.taken) { if (!d.implied && !e.isTrue()) pc.add(e); return d.v; }
            pc.add(Term.not(e));
            if (tries > 600) throw new Unsupported("too many values for a concretised term in " + vm.curM);
        }
    }

    void assume(Term cond) {
        if (cond.isTrue()) return;
        if (cond.isFalse()) throw new PathEnd("assume");
        if (pos < task.prefix.size()) { pc.add(cond); return; } // the task's model satisfies every prefix constraint
        if (Term.evalBool(cond, ev)) { pc.add(cond); return; }
        Smt.Result r = smt.check(pc, cond);
        if (r.r == Smt.R.UNSAT) throw new PathEnd("assume");
        if (r.r == Smt.R.UNKNOWN) { inconclusive.add("solver unknown (assume)"); throw new PathEnd("inconclusive assume"); }
        model = merged(r.model);
        pc.add(cond);
    }

    void check(Term cond, String tag, String detail) {
        int[] c = tagCounts.computeIfAbsent(tag, k -> new int[3]);
        if (cond.isTrue()) { checksConst++; c[0]++; return; }
        checksSym++; c[1]++;
        if (cond.isFalse()) {
            if (pos < task.prefix.size()) return; // reported on the path this one forked from
            cands.add(new Candidate(task.harness, tag, detail, new HashMap<>(model), new LinkedHashMap<>(choices)));
            c[2]++;
            return;
        }
        if (pos < task.prefix.size()) { if (Term.evalBool(cond, ev)) pc.add(cond); return; } // decided on the path this one forked from
        // the current model satisfies the path condition: where it refutes the check no query is needed
        boolean now = Term.evalBool(cond, ev);
        Smt.Result r = now ? find(smt.check(pc, Term.not(cond)), Term.not(cond)) : new Smt.Result(Smt.R.SAT, null);
        if (r.r == Smt.R.SAT) {
            cands.add(new Candidate(task.harness, tag, detail, merged(r.model), new LinkedHashMap<>(choices)));
            c[2]++;
            // continue on the side where the check holds
            if (now) { pc.add(cond); return; }
            Smt.Result q = smt.check(pc, cond);
            if (q.r != Smt.R.SAT) throw new PathEnd("check never holds here");
            model = merged(q.model);
            pc.add(cond);
        } else if (r.r == Smt.R.UNKNOWN) {
            inconclusive.add("solver unknown (check " + tag + ")");
        }
    }

    /** where the solver gives up a model may still be found: any assignment that satisfies everything is one */
    private Smt.Result find(Smt.Result r, Term goal) {
        if (r.r != Smt.R.UNKNOWN || pos < task.prefix.size()) return r;
        if (finds++ > 40) return r;
        for (Map<String, BigInteger> m : diverse(30)) if (Term.evalBool(goal, t -> value(m, t))) return new Smt.Result(Smt.R.SAT, m);
        return r;
    }
    private int finds;

    private static BigInteger value(Map<String, BigInteger> m, Term v) {
        BigInteger x = m.get(v.name);
        return x != null ? x : v.lo.signum() > 0 ? v.lo : v.hi.signum() < 0 ? v.hi : BigInteger.ZERO;
    }
    /** further models of the path condition, spread over the ranges of the inputs; the same on every run */
    List<Map<String, BigInteger>> diverse(int count) { return diverse(count, false); }
    /** with free: any inputs within their ranges, whatever path they take */
    List<Map<String, BigInteger>> diverse(int count, boolean free) {
        List<Map<String, BigInteger>> out = new ArrayList<>();
        List<Term> vs = new ArrayList<>();
        for (Term v : vars.values()) if (!v.isConst()) vs.add(v);
        if (vs.isEmpty()) return out;
        Random rnd = new Random(20240229L + vs.size() + (free ? 7919L * decs.size() : 0));
        for (int k = 0; k < count; k++) {
            List<Term> fix = new ArrayList<>();
            Map<String, BigInteger> want = new HashMap<>();
            BigInteger shared = null;
            for (Term v : vs) {
                BigInteger x;
                BigInteger span = v.hi.subtract(v.lo);
                if (k == 1) x = v.hi;
                else if (k == 2) x = v.lo;
                else if (span.bitLength() <= 10) x = v.lo.add(BigInteger.valueOf(rnd.nextInt(span.intValue() + 1)));
                else {
                    BigInteger mag = new BigInteger(1 + rnd.nextInt(Math.max(v.hi.abs().bitLength(), v.lo.abs().bitLength())), rnd);
                    x = rnd.nextBoolean() ? mag : mag.negate();
                    if (k % 4 == 3 && shared != null) x = shared.add(BigInteger.valueOf(rnd.nextInt(3) - 1));
                    shared = x;
                    if (x.compareTo(v.lo) < 0 || x.compareTo(v.hi) > 0) x = v.lo.add(x.abs().mod(span.add(BigInteger.ONE)));
                }
                want.put(v.name, x);
            }
            Map<String, BigInteger> m = new HashMap<>(want);
            if (!free && !satisfies(m)) {
                m = new HashMap<>(model);
                int[] budget = {14};
                Map<String, BigInteger> got = approach(vs, want, fix, budget);
                if (got == null) continue;
                m.putAll(got);
                if (!satisfies(m)) continue;
            }
            if (!out.contains(m)) out.add(m);
        }
        return out;
    }
    private boolean satisfies(Map<String, BigInteger> m) {
        for (Term t : pc) if (!Term.evalBool(t, v -> value(m, v))) return false;
        return true;
    }
    /** a model of the path condition with as many inputs at their wanted values as a few queries can tell */
    private Map<String, BigInteger> approach(List<Term> vs, Map<String, BigInteger> want, List<Term> fixed, int[] budget) {
        if (budget[0]-- <= 0) return null;
        Term all = Term.TRUE;
        for (Term f : fixed) all = Term.and(all, f);
        Term here = all;
        for (Term v : vs) here = Term.and(here, Term.eq(v, Term.c(want.get(v.name))));
        Smt.Result r = here.isFalse() ? new Smt.Result(Smt.R.UNSAT, null) : smt.check(pc, here);
        if (r.r == Smt.R.SAT) { for (Term v : vs) fixed.add(Term.eq(v, Term.c(want.get(v.name)))); return r.model; }
        if (vs.size() <= 1) return null;
        Map<String, BigInteger> x = approach(vs.subList(0, vs.size() / 2), want, fixed, budget), y = approach(vs.subList(vs.size() / 2, vs.size()), want, fixed, budget);
        return y != null ? y : x;
    }

    Term newVar(String name, BigInteger lo, BigInteger hi) {
        Term t = vars.get(name);
        if (t != null) return t;
        t = Term.var(name, lo, hi);
        vars.put(name, t);
        if (!t.isConst()) val(t);
        return t;
    }
}
