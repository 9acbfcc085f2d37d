package sx;

import java.io.File;
import java.lang.reflect.Method;
import java.lang.reflect.Modifier;
import java.math.BigInteger;
import java.net.URL;
import java.net.URLClassLoader;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/** Explores every path of the harnesses of one property and reports what the solver decided. */
public final class Main {
    static final class Hs { // state of one harness
        final String name; final ArrayDeque<Path.Task> queue = new ArrayDeque<>();
        int active; long diverse, paths, ended, started, branches, checksConst, checksSym, unsupported, traces, decisions; boolean capped;
        final TreeSet<String> covers = new TreeSet<>(), bounds = new TreeSet<>();
        final TreeMap<String, int[]> tags = new TreeMap<>();
        final TreeMap<String, Integer> unsup = new TreeMap<>(), inconclusive = new TreeMap<>(), mismatch = new TreeMap<>(), spurious = new TreeMap<>();
        final List<String> samples = new ArrayList<>();
        long nanos;
        Set<String> conflicts = Collections.emptySet();
        Hs(String n) { name = n; }
    }
    static final class Violation { String harness, tag; Map<String, String> inputs; Map<String, BigInteger> model; Map<String, Integer> choices; List<String> observed; String trace, found; }

    final String property, hcls; final boolean thorough, verbose; final int threads; final long deadline; final long maxPaths;
    final URL[] urls; final Map<String, String> known; // tag -> text
    final List<Hs> hs = new ArrayList<>();
    final Map<String, Integer> confirmed = new TreeMap<>();
    final Map<String, Violation> knownSeen = new TreeMap<>();
    final List<Violation> violations = new ArrayList<>();
    boolean stop, timedOut; int idle;
    final TreeSet<String> encoded = new TreeSet<>(), encodedSym = new TreeSet<>();
    final List<Smt> smts = new ArrayList<>();
    String engineError;

    Main(String property, String hcls, boolean thorough, boolean verbose, int threads, long limitSec, long maxPaths, URL[] urls, Map<String, String> known) {
        this.property = property; this.hcls = hcls; this.thorough = thorough; this.verbose = verbose; this.threads = threads;
        this.deadline = System.nanoTime() + limitSec * 1_000_000_000L; this.maxPaths = maxPaths; this.urls = urls; this.known = known;
    }

    synchronized Path.Task take() {
        for (;;) {
            if (stop) return null;
            if (System.nanoTime() > deadline) { timedOut = true; stop = true; notifyAll(); return null; }
            Hs best = null; boolean act = false;
            for (Hs h : hs) {
                if (h.active > 0) act = true;
                if (h.queue.isEmpty()) continue;
                if (best == null || h.started < best.started) best = h;
            }
            if (best != null) {
                best.started++; best.active++;
                // mostly depth first, now and then the oldest alternative for breadth under a time limit
                return best.started % 4 == 0 ? best.queue.pollFirst() : best.queue.pollLast();
            }
            if (!act) { notifyAll(); return null; }
            try { wait(200); } catch (InterruptedException e) { return null; }
        }
    }
    Hs byName(String n) { for (Hs h : hs) if (h.name.equals(n)) return h; throw new IllegalStateException(); }

    private static void bump(Map<String, Integer> m, String k) { if (m.size() < 60 || m.containsKey(k)) m.merge(k, 1, Integer::sum); }

    void worker() {
        Smt smt = new Smt();
        Path path = new Path(smt);
        path.thorough = thorough;
        synchronized (this) { smts.add(smt); }
        URLClassLoader vl = new URLClassLoader(urls, Main.class.getClassLoader());
        Vm vm = new Vm(vl, path);
        vm.budget = thorough ? 400_000_000L : 120_000_000L;
        Replayer rep = new Replayer(urls, Main.class.getClassLoader(), 20);
        boolean dirty = false;
        for (;;) {
            Path.Task t = take();
            if (t == null) break;
            Hs h = byName(t.harness);
            String end = "complete", why = null; Path.Candidate unc = null;
            long t0 = System.nanoTime();
            path.begin(t);
            vm.resetPath(dirty);
            dirty = false;
            try {
                ClassInfo c = vm.cls(hcls);
                vm.ensureInit(c);
                vm.call(c.methods.get(t.harness + "()V"));
                if (path.pos < t.prefix.size()) { end = "unsupported"; why = "replay ended early"; }
            } catch (PathEnd e) { end = "ended"; }
            catch (JavaThrow e) {
                if (e.ex.cls.name.equals("sx/Sym$AssumptionFailed")) end = "ended";
                else { end = "uncaught"; unc = new Path.Candidate(t.harness, "uncaught:" + e.ex.cls.name.replace('/', '.'), "", new HashMap<>(path.model), new LinkedHashMap<>(path.choices)); }
            } catch (Unsupported e) { end = "unsupported"; why = e.getMessage(); dirty = true; }
            catch (StackOverflowError e) { end = "unsupported"; why = "interpreter stack overflow"; dirty = true; }
            catch (OutOfMemoryError e) { end = "unsupported"; why = "out of memory"; dirty = true; }
            catch (RuntimeException e) {
                StackTraceElement[] st = e.getStackTrace();
                end = "unsupported"; why = "engine: " + e + (st.length > 0 ? " at " + st[0] : "") + " in " + vm.curM; dirty = true;
                if (verbose) e.printStackTrace();
            }
            long dt = System.nanoTime() - t0;
            List<Path.Candidate> cands = new ArrayList<>(path.cands);
            if (unc != null) cands.add(unc);
            List<Violation> found = new ArrayList<>();
            List<String> spur = new ArrayList<>();
            for (Path.Candidate c : cands) {
                String key = c.harness + "|" + c.tag;
                synchronized (this) { if (confirmed.getOrDefault(key, 0) >= 1) continue; }
                Replayer.Outcome o = rep.run(hcls, c.harness, c.model, c.choices, thorough, true);
                if (o.failed.contains(c.tag)) { found.add(viol(c.harness, c.tag, c.model, c.choices, o, "solver model")); }
                else {
                    // the input may break the property in another way than the path predicted
                    boolean other = false;
                    for (String f : o.failed) if (!f.startsWith("replay-error")) { found.add(viol(c.harness, f, c.model, c.choices, o, "solver model for " + c.tag)); other = true; }
                    if (o.blocked) end = "ended"; // no such schedule: the second caller waits for the first
                    else if (!other) spur.add(c.tag + " not reproduced natively: inputs " + o.inputs + " observed " + o.observed + (o.assumption ? " (assumption failed)" : ""));
                }
            }
            String mism = null; boolean traced = false; String sample = null;
            if (!end.equals("ended")) {
                Map<String, BigInteger> md = new HashMap<>(path.model);
                boolean wantFresh = end.equals("unsupported") || !path.inconclusive.isEmpty();
                Replayer.Outcome o = rep.run(hcls, t.harness, md, path.choices, thorough, false);
                if (!o.failed.isEmpty() && cands.isEmpty() || o.timeout) {
                    o = rep.run(hcls, t.harness, md, path.choices, thorough, true);
                    for (String f : o.failed) if (!f.startsWith("replay-error") && !(end.equals("uncaught"))) found.add(viol(t.harness, f, md, path.choices, o, "native replay of a path model"));
                }
                if (wantFresh && found.isEmpty() && h.unsupported < 400) {
                    // what the encoding does not reach is at least tried on further models of the path condition
                    boolean few = h.unsupported + h.inconclusive.size() < 60;
                    List<Map<String, BigInteger>> more = path.diverse(few ? 12 : 4);
                    more.addAll(path.diverse(few ? 20 : 4, true));
                    Map<String, Integer> away = new LinkedHashMap<>(path.choices);
                    away.putIfAbsent("elsewhere", 1);
                    int turn = 0;
                    for (Map<String, BigInteger> m : more) {
                        Map<String, Integer> ch = (turn++ & 1) == 0 ? path.choices : away;
                        Replayer.Outcome x = rep.run(hcls, t.harness, m, ch, thorough, false);
                        h.diverse++;
                        if (x.failed.isEmpty() && !x.timeout || x.assumption) continue;
                        x = rep.run(hcls, t.harness, m, ch, thorough, true);
                        for (String f : x.failed) if (!f.startsWith("replay-error")) found.add(viol(t.harness, f, m, ch, x, "native replay of further inputs for a path the solver did not decide"));
                        if (!found.isEmpty()) break;
                    }
                }
                if (o.blocked && end.equals("complete")) end = "ended";
                if (end.equals("complete")) {
                    List<String> mine = new ArrayList<>();
                    for (Object[] ob : path.observations) mine.add(ob[0] + "=" + SymNatives.render(vm, ob[1], path.ev));
                    if (!mine.equals(o.observed) || o.assumption) {
                        o = rep.run(hcls, t.harness, md, path.choices, thorough, true);
                    }
                    if (!mine.equals(o.observed) || o.assumption) mism = "symbolic " + mine + " native " + o.observed + " inputs " + o.inputs + " failed " + o.failed + (o.assumption ? " (assumption failed)" : "");
                    else traced = true;
                    sample = t.harness + " " + o.inputs + " -> " + o.observed;
                }
            }
            synchronized (this) {
                h.active--;
                h.nanos += dt;
                h.decisions += path.decs.size();
                h.branches += path.branches; h.checksConst += path.checksConst; h.checksSym += path.checksSym;
                if (end.equals("complete")) h.paths++; else if (end.equals("ended") || end.equals("uncaught")) h.ended++;
                else { h.unsupported++; bump(h.unsup, why); }
                h.covers.addAll(path.covers); h.bounds.addAll(path.bounds);
                for (Map.Entry<String, int[]> e : path.tagCounts.entrySet()) {
                    int[] a = h.tags.computeIfAbsent(e.getKey(), k -> new int[3]);
                    for (int k = 0; k < 3; k++) a[k] += e.getValue()[k];
                }
                for (String s : path.inconclusive) bump(h.inconclusive, s.length() > 300 ? s.substring(0, 300) : s);
                for (String s : spur) bump(h.spurious, s);
                if (traced) h.traces++;
                if (mism != null) { bump(h.mismatch, mism); }
                if (sample != null && h.samples.size() < 3 && (h.paths % 7 == 1)) h.samples.add(sample);
                for (Violation v : found) {
                    confirmed.merge(v.harness + "|" + v.tag, 1, Integer::sum);
                    if (known.containsKey(v.tag)) knownSeen.putIfAbsent(v.tag, v);
                    else {
                        boolean dup = false;
                        for (Violation w : violations) if (w.tag.equals(v.tag) && w.harness.equals(v.harness)) dup = true;
                        if (!dup) violations.add(v);
                        if (violations.size() >= (thorough ? 8 : 1)) stop = true;
                    }
                }
                for (Path.Task a : path.alts) a.conflicts = t.conflicts;
                if (!h.conflicts.containsAll(path.writes)) {
                    h.conflicts = new TreeSet<>(h.conflicts);
                    h.conflicts.addAll(path.writes);
                    h.paths = h.ended = 0;
                    h.queue.clear();
                    Path.Task again = new Path.Task(h.name, new ArrayList<>(), new HashMap<>());
                    again.conflicts = h.conflicts;
                    h.queue.add(again);
                } else if (t.conflicts != h.conflicts) { } // explored again with more points
                else if (h.paths + h.ended + h.unsupported + h.queue.size() < maxPaths) h.queue.addAll(path.alts);
                else if (!path.alts.isEmpty()) h.capped = true;
                if (verbose && (h.paths + h.ended) % 500 == 0) System.err.println(h.name + " paths " + h.paths + " ended " + h.ended + " queue " + h.queue.size());
                notifyAll();
            }
        }
        synchronized (this) { encoded.addAll(vm.encoded); encodedSym.addAll(vm.encodedSym); }
        rep.close();
    }

    private Violation viol(String h, String tag, Map<String, BigInteger> m, Map<String, Integer> c, Replayer.Outcome o, String found) {
        Violation v = new Violation();
        v.harness = h; v.tag = tag; v.model = m; v.choices = new LinkedHashMap<>(c); v.inputs = o.inputs; v.observed = o.observed; v.trace = o.trace; v.found = found;
        return v;
    }

    public static void main(String[] args) throws Exception {
        Map<String, String> o = new HashMap<>();
        for (int k = 0; k + 1 < args.length; k += 2) o.put(args[k].substring(2), args[k + 1]);
        String prop = o.get("property");
        boolean thorough = "thorough".equals(o.getOrDefault("tier", "quick"));
        boolean verbose = "1".equals(o.get("verbose"));
        int threads = Integer.parseInt(o.getOrDefault("threads", String.valueOf(Math.max(2, Math.min(8, Runtime.getRuntime().availableProcessors())))));
        long limit = Long.parseLong(o.getOrDefault("limit", thorough ? "800" : "420"));
        String[] cp = o.get("cp").split(File.pathSeparator);
        URL[] urls = new URL[cp.length];
        for (int k = 0; k < cp.length; k++) urls[k] = new File(cp[k]).toURI().toURL();
        String hcls = "h/" + prop;
        if (o.containsKey("replay")) { replay(o.get("replay"), urls, verbose); return; }
        Map<String, String> known = new LinkedHashMap<>();
        java.nio.file.Path kf = Paths.get(o.getOrDefault("known", "known-findings.jsonl"));
        if (Files.exists(kf)) for (String line : Files.readAllLines(kf)) {
            line = line.trim();
            if (!line.startsWith("{")) continue;
            Map<?, ?> m = (Map<?, ?>) Json.read(line);
            if (prop.equals(m.get("property")) && m.get("tag") != null) known.put((String) m.get("tag"), (String) m.get("what"));
        }
        long t0 = System.nanoTime();
        Main mn = new Main(prop, hcls, thorough, verbose, threads, limit, Long.parseLong(o.getOrDefault("paths", "2000000")), urls, known);
        URLClassLoader probe = new URLClassLoader(urls, Main.class.getClassLoader());
        TreeSet<String> names = new TreeSet<>();
        for (Method m : Class.forName(hcls.replace('/', '.'), false, probe).getDeclaredMethods())
            if (Modifier.isPublic(m.getModifiers()) && Modifier.isStatic(m.getModifiers()) && m.getParameterCount() == 0 && m.getReturnType() == void.class) {
                if (m.getName().endsWith("Thorough") && !thorough) continue;
                if (o.containsKey("harness") && !m.getName().matches(o.get("harness"))) continue;
                names.add(m.getName());
            }
        for (String n : names) {
            Hs h = new Hs(n);
            h.queue.add(new Path.Task(n, new ArrayList<>(), new HashMap<>()));
            mn.hs.add(h);
        }
        List<Thread> ts = new ArrayList<>();
        for (int k = 0; k < threads; k++) {
            Thread t = new Thread(null, () -> {
                try { mn.worker(); } catch (Throwable e) {
                    e.printStackTrace();
                    synchronized (mn) { mn.engineError = e.toString(); mn.stop = true; mn.notifyAll(); }
                }
            }, "worker" + k, 1L << 30);
            t.setDaemon(true);
            t.start();
            ts.add(t);
        }
        for (Thread t : ts) t.join(Math.max(1000, (mn.deadline - System.nanoTime()) / 1_000_000 + 90_000));
        synchronized (mn) { mn.report(o, (System.nanoTime() - t0) / 1e9, thorough); }
        System.out.flush();
        Runtime.getRuntime().halt(mn.engineError != null ? 2 : mn.violations.isEmpty() ? 0 : 1);
    }

    static void replay(String file, URL[] urls, boolean verbose) throws Exception {
        Map<?, ?> m = (Map<?, ?>) Json.read(Files.readString(Paths.get(file)));
        Map<String, BigInteger> model = new HashMap<>();
        for (Map.Entry<?, ?> e : ((Map<?, ?>) m.get("model")).entrySet()) model.put((String) e.getKey(), new BigInteger(e.getValue().toString()));
        Map<String, Integer> ch = new HashMap<>();
        for (Map.Entry<?, ?> e : ((Map<?, ?>) m.get("choices")).entrySet()) ch.put((String) e.getKey(), Integer.valueOf(e.getValue().toString()));
        Replayer r = new Replayer(urls, Main.class.getClassLoader(), 60);
        Replayer.Outcome o = r.run("h/" + m.get("property"), (String) m.get("harness"), model, ch, "thorough".equals(m.get("tier")), true);
        System.out.println("inputs   " + o.inputs + "\nobserved " + o.observed + "\nfailed   " + o.failed + "\n" + o.trace);
        System.out.flush();
        Runtime.getRuntime().halt(o.failed.isEmpty() ? 0 : 1);
    }

    void report(Map<String, String> o, double wall, boolean thorough) throws Exception {
        long paths = 0, ended = 0, unsup = 0, traces = 0, branches = 0, cc = 0, cs = 0, decs = 0, inc = 0, mis = 0, left = 0;
        List<Object> per = new ArrayList<>(); List<String> samples = new ArrayList<>();
        TreeSet<String> bounds = new TreeSet<>();
        for (Hs h : hs) {
            paths += h.paths; ended += h.ended; unsup += h.unsupported; traces += h.traces; branches += h.branches; cc += h.checksConst; cs += h.checksSym; decs += h.decisions;
            left += h.queue.size();
            for (int v : h.inconclusive.values()) inc += v;
            for (int v : h.mismatch.values()) mis += v;
            samples.addAll(h.samples); bounds.addAll(h.bounds);
            Map<String, Object> m = new LinkedHashMap<>();
            m.put("harness", h.name); m.put("paths_complete", h.paths); m.put("paths_ended_by_assumption_or_failure", h.ended); m.put("paths_unsupported", h.unsupported); if (h.diverse > 0) m.put("further_inputs_replayed_for_undecided_paths", h.diverse);
            m.put("paths_left_unexplored", h.queue.size());
            m.put("seconds", Math.round(h.nanos / 1e8) / 10.0);
            Map<String, Object> tg = new LinkedHashMap<>();
            for (Map.Entry<String, int[]> e : h.tags.entrySet()) tg.put(e.getKey(), "trivially true " + e.getValue()[0] + ", decided by solver " + e.getValue()[1] + ", refuted " + e.getValue()[2]);
            m.put("checks", tg);
            m.put("reachability_witnesses", h.covers);
            if (!h.bounds.isEmpty()) m.put("bounds", h.bounds);
            if (!h.unsup.isEmpty()) m.put("unsupported", h.unsup);
            if (!h.inconclusive.isEmpty()) m.put("inconclusive", h.inconclusive);
            if (!h.mismatch.isEmpty()) m.put("model_mismatch", h.mismatch);
            if (!h.spurious.isEmpty()) m.put("not_reproduced", h.spurious);
            if (!h.conflicts.isEmpty()) m.put("written_by_concurrent_callers", h.conflicts);
            if (h.capped) m.put("path_cap_hit", true);
            if (h.paths == 0) m.put("vacuous", true);
            per.add(m);
        }
        long q = 0, sat = 0, uns = 0, unk = 0, hits = 0, ns = 0, mx = 0; String slow = "";
        for (Smt s : smts) { q += s.queries; sat += s.sat; uns += s.unsat; unk += s.unknown; hits += s.cacheHits; ns += s.nanos; if (s.maxNanos > mx) { mx = s.maxNanos; slow = s.slowest; } }
        boolean complete = !timedOut && unsup == 0 && inc == 0 && mis == 0 && left == 0;
        Map<String, Object> cov = new LinkedHashMap<>();
        cov.put("states", paths + ended + unsup);
        cov.put("transitions", decs);
        cov.put("traces_validated_against_impl", traces);
        cov.put("samples", samples.isEmpty() ? List.of("no path completed") : samples);
        cov.put("meaning", "states: symbolic paths of the harnesses through the bytecode of the code under test; transitions: decisions along them; traces_validated_against_impl: completed paths whose model was rerun natively with identical observations");
        cov.put("exhaustive_within_bounds", complete);
        cov.put("bounds", bounds);
        Map<String, Object> sv = new LinkedHashMap<>();
        sv.put("queries", q); sv.put("sat", sat); sv.put("unsat", uns); sv.put("unknown", unk); sv.put("cache_hits", hits);
        sv.put("solver_seconds", Math.round(ns / 1e7) / 100.0); sv.put("slowest_query_seconds", Math.round(mx / 1e7) / 100.0);
        sv.put("slowest_query", slow.length() > 200 ? slow.substring(0, 200) : slow);
        sv.put("assertions_decided_by_solver", cs); sv.put("assertions_constant_on_their_path", cc); sv.put("symbolic_branches", branches);
        cov.put("solver", sv);
        cov.put("functions_encoded", encoded);
        cov.put("functions_with_symbolic_arguments", encodedSym.size());
        cov.put("harnesses", per);
        if (!complete) cov.put("incomplete_because", (timedOut ? "time limit; " : "") + unsup + " unsupported paths, " + inc + " inconclusive queries, " + mis + " model mismatches, " + left + " paths left");
        List<Object> kn = new ArrayList<>();
        for (Map.Entry<String, Violation> e : knownSeen.entrySet()) kn.add(vmap(e.getValue(), thorough));
        if (!kn.isEmpty()) cov.put("known_findings_reproduced", kn);
        Map<String, Object> ev = new LinkedHashMap<>();
        ev.put("property", property);
        ev.put("tier", thorough ? "thorough" : "quick");
        String seed = System.getenv("VERIF_SEED");
        ev.put("seed", seed != null && seed.matches("\\d+") ? Integer.parseInt(seed) : 1);
        ev.put("level", "model_checking");
        ev.put("coverage", cov);
        ev.put("assumptions", ASSUMPTIONS);
        ev.put("wall_s", Math.round(wall * 100) / 100.0);
        ev.put("violations", violations.size());
        java.nio.file.Path evf = Paths.get(o.getOrDefault("evidence", "evidence/" + property + ".json"));
        Files.createDirectories(evf.toAbsolutePath().getParent());
        Files.writeString(evf, Json.write(ev) + "\n", StandardCharsets.UTF_8);
        for (Map.Entry<String, Violation> e : knownSeen.entrySet())
            System.out.println("KNOWN-FINDING: property=" + property + " " + known.get(e.getKey()));
        int n = 0;
        for (Violation v : violations) {
            java.nio.file.Path rf = evf.toAbsolutePath().getParent().resolve("replay").resolve(property + "-" + (++n) + ".json");
            Files.createDirectories(rf.getParent());
            Files.writeString(rf, Json.write(vmap(v, thorough)) + "\n");
            System.out.println("VIOLATION property=" + property + " replay=" + rf);
            System.out.println("  harness  " + v.harness + "\n  check    " + v.tag + "\n  inputs   " + v.inputs + "\n  observed " + v.observed + (v.trace.isEmpty() ? "" : "\n  " + v.trace.lines().limit(8).reduce("", (a, b) -> a + "\n    " + b)));
        }
        System.out.printf("%s %s: %d paths complete, %d ended, %d unsupported, %d left; %d checks decided by solver, %d constant; %d queries (%d sat, %d unsat, %d unknown) %.1fs solver; %d traces replayed, %d mismatches; %.1fs%s%n",
            property, thorough ? "thorough" : "quick", paths, ended, unsup, left, cs, cc, q, sat, uns, unk, ns / 1e9, traces, mis, wall, complete ? "; exhaustive within bounds" : "; INCOMPLETE");
        if (verbose) for (Object x : per) System.out.println(Json.write(x));
    }
    private Map<String, Object> vmap(Violation v, boolean thorough) {
        Map<String, Object> m = new LinkedHashMap<>();
        m.put("property", property); m.put("harness", v.harness); m.put("tier", thorough ? "thorough" : "quick"); m.put("check", v.tag); m.put("found_by", v.found); m.put("inputs", v.inputs); m.put("observed", v.observed);
        Map<String, Object> md = new TreeMap<>();
        md.putAll(v.model);
        m.put("model", md); m.put("choices", v.choices);
        return m;
    }
    static final List<String> ASSUMPTIONS = List.of(
        "Bytecode of the code under test, ANTLR runtime and generated parser, vavr and java.util is interpreted; java.lang/java.math value classes on concrete arguments run on the host JVM",
        "BigDecimal/BigInteger/String/Character/Math operations on symbolic values are engine models over mathematical integers with explicit wrap-around; every completed path's model is replayed natively and compared",
        "Stubs: CharStreams.fromString builds the 8-bit stream directly; lexer DFA edge cache bypassed for symbolic characters; console error listener prints nothing; stack traces empty; exception message text with symbolic arguments is a placeholder",
        "Clock: LocalDate.now/LocalDateTime.now return one arbitrary instant per path, years 1990-2060",
        "Caffeine: equals-based map with nondeterministic eviction; native replay uses the real Caffeine when no eviction was chosen",
        "Symbolic doubles are dyadic rationals n/2^k whose arithmetic is exact; NaN, infinities and rounding are outside",
        "Single-threaded execution; hash iteration order of HashMap/HashSet with numeric keys is insertion order within a bucket");
}
