"""writes DESIGN.md: hand-written parts below, bounds and oracles from the checks themselves"""
import importlib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
sys.path[:0] = [V + "/mc", V + "/mc/checks", "/repo"]
sys.dont_write_bytecode = True

INTRO = """# Model checking pydsge

pydsge reads DSGE models with an occasionally binding constraint from a file, solves them, simulates them and
estimates them. Its guarantees are semantic (the numbers belong to the model that was written down, to the
current parameters, to the stored chain) and stateful (one mutable model object with several caches, files
and worker pools behind it). Both kinds are decided here in the same way:

**Stateless explicit-state exploration of the real code.** For each property a bounded space of behaviours is
enumerated completely - model programs of a grammar, points of lattices of parameters/states/shocks, histories
of API calls up to a depth, interleavings of pool tasks, interruptions of a sampling run, placements of draws -
and *every* element is executed on the code in /repo as it is at that moment (nothing is cached, built or
copied; pydsge is imported from /repo). After each execution the observable result is compared with an
independent reference semantics. Nothing is sampled, no solver decides anything. There is no separate model
that could drift away from the code: the explored transition system *is* the implementation, the reference
machine is only the oracle, and each reference trace is replayed on the implementation, which is what
`traces_validated_against_impl` counts in the evidence.

## Machinery

* `mc/harness.py` - enumerates `cases(tier)` of a check (simplest first), executes them in forked workers (a
  crashed or hanging worker is a violation of the case it was executing, never of the check itself), stops at
  the first violations, writes `evidence/<id>.json` and a replay file (`./check <id> --replay <file>`).
  An exception that comes out of pydsge where none is due is a violation.
* `mc/refmodel.py` - reference semantics of a model file, written from the documentation and not from the
  parser: equations are evaluated with first-order dual numbers, which gives the coefficient of each symbol and
  date; companion form; generalized-eigenvalue count and rank condition for uniqueness; time iteration for the
  linear solution; backward recursion over assumed regimes for the constrained one; the documented selection of
  durations.
* `mc/reffilter.py` - reference likelihood, filtered and smoothed moments: no recursion, just conditional
  moments of the joint Gaussian distribution of all states and observations; for the nonlinear filter the
  ensemble filter of econsieve fed with the reference transition.
* `mc/ctlpool.py` - a pool with a controlled scheduler that takes the place of the process pool: number of
  workers, assignment of tasks to workers and order of completion are chosen by the exploration; each worker is a
  separate copy of the state (as after a fork), so state that leaks between tasks shows up.
* `mc/pranges.py` - a controlled scheduler for the parallel loops of compiled functions (`prange`): the iterations
  become coroutines that may be suspended before each statement; orders of iterations and all single (thorough:
  double) preemptions of pairs of iterations are executed, and each must leave the same result. Used by C03, C04, C12 and C19.
* `check`, `mc/run.py` - entry point. Every run uses a scratch directory of its own and removes it.

Jitted functions are executed in pure Python mode (`NUMBA_DISABLE_JIT=1`), which is the same code; the thorough tier
of C03, C04, C05 and C10 first runs the bounds of quick on the compiled functions. No hooks in /repo were needed.

Comparisons use a relative tolerance of 1e-6 (looser only where stated). Points at which a discrete
decision hangs on less than 1e-7 are skipped and counted (`comparisons_skipped_as_ties`).
All judgements are made through public calls; code structure is never inspected, so refactorings are invisible.

Tiers: quick runs on each change; thorough widens every bound (see below). Measured times of quick on 8 cores are
given with each property.
"""

TEXT = {
"C01": ("", "Two files are parsed by the tests; a lag that enters with a wrong sign, an auxiliary variable that is wired to the wrong lead, or an order-dependent declaration is invisible unless the written equations are evaluated on the compiled model's paths. Rejections are explored as well: a file that is malformed or uses something unsupported must raise."),
"C02": ("", "The boundary between determinate, indeterminate and explosive parametrizations is crossed in several dimensions, including vanishing and very small coefficients (which change the number of states) and roots within 1e-5..1e-3 of the unit circle."),
"C03": ("", "Given durations the transition is affine, hence a complete affine basis decides all states and shocks; all pairs of durations up to the maxima are executed, also after the maxima were changed on the same object. The oracle is twofold: the reference path, and the residuals of the written equations."),
"C04": ("", "The selection is a discrete search: wrong candidates matter only on thin sets of states (spells in the future, oscillating or multiple equilibria, spells that touch the maxima), which is why dense lattices over several directions are explored for models with news shocks, oscillations and multiplicity, and for tiny maxima."),
"C05": ("", "All schedules of shocks within the bound are executed, in all notations and with all options. Where several equilibria coexist, irfs may either continue the spell expected before or select anew (`force_init_equil`); both are accepted where the documentation leaves it open."),
"C06": ("", "A state machine {parameters, maxima} is the oracle; the implementation's state is spread over par, ppar, the tables, hx, the filter and fdict. Every history up to the depth is executed and observed completely (including the likelihood of the linear filter and the transition)."),
"C07": ("", "All labelled dependency graphs are enumerated, so that every acyclic structure appears in every order of declaration and every cycle is seen."),
"C08": ("", "Histories of writing, reading, altering and re-reading files; the cache is global state of the module and the classic source of aliasing."),
"C09": ("", "All states of preparation are saved, loaded in the same and in a fresh process, from the stored object and re-parsed, saved again and loaded again, also over an earlier version and after the original files were changed."),
"C10": ("", "The joint Gaussian oracle shares no recursion with the filter. Histories of filter runs, parameter changes and smoothing on one object decide repeatability."),
"C11": ("", "Histories of evaluations (including failing ones) before the evaluation that counts; the oracle is prior density times reference likelihood; the global random state is compared before and after."),
"C12": ("", "Every number of workers up to the bound and every assignment and completion order of tasks is executed through a controlled pool; histories of creating, closing and disabling pools decide that no operation fails."),
"C13": ("", "The smoothed path is known exactly in the linear case; decompositions are checked for every combination of samples, initial states and shock histories, with binding constraints in the present and future."),
"C14": ("", "Histories of runs; interruptions are injected at every log-posterior evaluation of a run (a fault point enumeration), and the stored file is compared with the recorded evaluations."),
"C15": ("", "All windows over all kinds of index; all columns orders; all positions of missing values."),
"C16": ("", "Matrices are taken from the reference interpretation of files, so that the dictionary route and the file route must coincide; histories of dictionaries decide caching."),
"C17": ("", "All routes at all combinations of states, batches and parametrizations; interleaved histories decide that nothing is altered."),
"C18": ("", "Chains are synthetic: every draw is a distinct, recognisable number, so that each statistic reveals exactly which draws entered. Routes: in memory, from file, after loading."),
"C19": ("", "Affine in the state, hence a basis decides; all durations and periods; histories of parametrizations and calls decide that nothing is stale."),
"C20": ("", "Each share is recomputed from two reference paths per shock; all selections of parametrizations and all subsets of draws are compared, so that a draw that is combined with the parameters of another one shows up."),
"C24": ("", "Aliasing shows only in the combination of an operation, an overwritten object and a particular later call; all of them are executed."),
"C23": ("", "Operations over samples of parametrizations set one after the other; whatever fails in between leaves traces unless all is restored, and restoring only fails to happen for specific kinds of failure at specific positions. All of them are injected."),
"C22": ("", "A report that evaluates something, or a debugging flag that stays set, changes results only for some operations at some levels in some state; all combinations, each followed by other operations, are compared with quiet executions."),
"C21": ("", "Whether a candidate is tried at the right parameters depends on what was tried before and on the state of the model; with scripted candidates every such history up to the bound is executed."),
}

def section(e, times):
    m = importlib.import_module("checks." + e["id"].lower())
    s = "### %s %s\n\n" % (e["id"], e["title"])
    s += "%s\n\n" % e["statement"]
    s += "* Decided by: %s.\n" % m.HOW
    s += "* Bounds, quick (%s s): %s.\n" % (times.get(e["id"], "?"), m.BOUNDS["quick"])
    s += "* Bounds, thorough: %s.\n" % m.BOUNDS["thorough"]
    s += "* Assumptions: %s.\n" % "; ".join(m.ASSUMPTIONS)
    s += "* Why this reaches what tests cannot: %s\n\n" % TEXT[e["id"]][1]
    return s

def main():
    P = [json.loads(l) for l in open(V + "/properties.jsonl")]
    notes = json.load(open(V + "/tools/notes.json"))
    out = INTRO + "\n## Properties\n\n"
    for e in P:
        out += section(e, notes["times"])
    out += open(V + "/tools/design_tail.md").read()
    out += "\n## Planted bugs\n\nAll pass the stable tests; `caught` names the check that reports them in the quick tier.\n\n| bug | property | needs | caught |\n|---|---|---|---|\n"
    for d in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(V + "/seeded/%s/meta.json" % d))
        out += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/"), notes["caught"].get(d, "?"))
    open(V + "/DESIGN.md", "w").write(out)

main()
