#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None,
         observe=None):
    a = {"files": files, "mechanism": mechanism}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Every evaluated parameter vector lies within the bounds",
 "Every parameter vector handed to the user's evaluation function, during population setup and for every challenger of a run (fresh or resumed from a file with refined bounds), has each coordinate within that parameter's lower and upper bound. "
 "Bound handling never alters a coordinate that is already in range; a coordinate that is out of range is mirrored about the bound it crossed whenever that mirror image is in range, and ends up in range in any case.",
 ["inputs", "configurations", "histories"],
 "All vectors (any number of parameters, any distance outside the bounds), all bounds with lower <= upper including degenerate, negative and integer ones, all mutation weights and base choices.",
 "Tests feed a handful of hand-picked vectors to the limiter and check a few runs on one 2-parameter problem; they never quantify over bounds, dimensions or overshoot distance.",
 ["ade/population.py", "ade/de.py", "ade/individual.py"],
 "ParameterManager.limit/fromUnity, Population.limit/setup/load and DifferentialEvolution.challenge carry pre/postconditions; the evaluation entry point has the in-bounds vector as a precondition that its callers must establish.",
 [("ParameterManager.mins/maxs", "lower and upper bounds"), ("Individual.values", "parameter vector")],
 "argument of the user's evaluation function")

prop("C02", "Constraint-violating vectors are never evaluated or admitted",
 "During setup and in every challenge, a parameter vector is evaluated or admitted to the population only if every registered constraint answered true for exactly that vector, presented as a mapping from each parameter name to that parameter's value. "
 "A vector for which all constraints answer true is never turned away because of constraints, and having no constraints turns nothing away.",
 ["inputs", "configurations", "histories"],
 "All vectors, any number and order of constraints given as one callable, a sequence or a constraint collection, any answer pattern, with constraints replaced between runs.",
 "Tests use one or two fixed constraints on fixed data; a short-circuit, ordering or stale-value mistake that needs a particular answer pattern is not exercised.",
 ["ade/population.py", "ade/de.py"],
 "passesConstraints: result <=> all constraints hold of {name: value}; loop invariant 'all constraints so far answered true'; challenge/setup: evaluation has the conjunction of constraints as precondition.",
 [("ParameterManager.constraints", "registered constraint callables")],
 "arguments of constraint callables and of the evaluation function")

prop("C03", "A member is replaced only by a strictly better challenger",
 "In each challenge the target's slot receives the challenger if the run is still live, the evaluation was not fatal and the challenger's error is strictly lower than the target's, and in every other case the slot keeps the very same individual; undefined, missing or infinite errors never beat anything. "
 "No other slot of the population changes, so barring blacklisting neither any slot's error nor the population's best error ever gets worse during a run.",
 ["inputs", "schedules", "histories"],
 "All pairs of errors (finite, equal, zero, huge, infinite, not-a-number, missing), with or without the early-termination threshold, for every interleaving of concurrent challenges.",
 "Tests check final SSE thresholds of a few runs and a couple of single challenges; ties, undefined errors and concurrent completions are not quantified over.",
 ["ade/de.py", "ade/population.py", "ade/individual.py"],
 "challenge: postcondition relating slot contents before/after plus a frame for all other slots, proved with rely/guarantee at each suspension point; Individual comparison contracts.",
 [("Population.iList", "members by slot"), ("Individual.SSE", "error of a member")],
 "population contents before/after each challenge")

prop("C04", "Drawn members are valid, distinct and follow the base policy",
 "Indices drawn from the population always refer to existing members, differ from one another and from every excluded index, and a challenge's target, base and two difference members are four different members. "
 "With random base selection off the draw is the best non-excluded member and asking for more than one is refused; with it fully on every eligible member is equally likely; in between, every draw stays within the eligible members with better-ranked ones at least as likely as worse-ranked ones; a setting above one is refused.",
 ["inputs", "configurations"],
 "All population sizes, error rankings, exclusion sets, sample counts that can be satisfied, and base settings from 0 to beyond 1.",
 "Tests draw a few hundred random samples from one population and look at histograms; off-by-one or aliasing mistakes at particular ranks or settings need a quantified argument.",
 ["ade/population.py", "ade/de.py"],
 "sample/ProbabilitySampler contracts: membership, distinctness, exclusion, index range of the variate-to-rank map, best-first when the base policy is deterministic.",
 [("Population.KS", "ranking by error")],
 "return value of index draws, indices used by each challenge")

prop("C05", "Challengers follow the mutation and crossover recipe without aliasing",
 "The vector a challenge evaluates is, apart from bound handling, equal in at least one coordinate to base plus weight times the difference of the two difference members, and in every other coordinate to either that value or the target's value; crossover rate one takes every coordinate from the mutant and rate zero exactly one. "
 "One weight from the currently configured or adapted range is used for all coordinates, and constructing or evaluating a challenger never alters the values or error of any existing member.",
 ["inputs", "configurations"],
 "All member vectors, dimensions, weights, crossover rates in [0,1] and outcomes of the random draws.",
 "Tests check crossover statistics and end-to-end convergence only; the formula, the guaranteed mutant coordinate and freedom from aliasing are never asserted for all inputs.",
 ["ade/de.py", "ade/individual.py", "ade/population.py"],
 "Contracts on Individual arithmetic (fresh result, operands framed), crossover (pointwise loop invariant with Skolem index), challenge (evaluated vector = recipe), FManager.get range.",
 [("Individual.values", "parameter vector"), ("DifferentialEvolution.CR", "crossover rate")],
 "argument of the evaluation function vs. member vectors read at lock time")

prop("C06", "Slot locking: no overlap, no leaked locks, no deadlock",
 "While a challenge is in progress against a slot, from reading its target until the slot's outcome is decided, no other challenge reads that slot in any role or changes it. "
 "Whether a challenge wins, loses, is turned away by constraints or turns out fatal, every slot it reserved is free again once it is over, so every issued challenge finishes once its evaluations do and no slot stays reserved at the end of a run. "
 "Reserving one slot twice in a single request is refused instead of deadlocking.",
 ["schedules", "fault_sequences"],
 "All interleavings of any number of concurrent challenges and all completion orders of their evaluations, including fatal results and shutdown in between.",
 "Tests run with whatever order the scheduler happens to produce; they cannot enumerate completion orders or show absence of a leak on rare exits.",
 ["ade/de.py", "ade/population.py"],
 "Lock-set ghost state: lock/release contracts, challenge's path-wise obligations (target lock held at decision; lock set empty at every exit), ordering lemma for deadlock freedom.",
 [("Population.dLocks", "one lock per slot")],
 "lock state at evaluation, replacement and completion of challenges")

prop("C07", "Ranking and best member are always up to date",
 "After any sequence of replacing members, pushing a member in, blacklisting, clearing and setting up again, the population's ranking is a permutation of its slots in non-decreasing order of current error, its sorted listing agrees with that ranking, and the best member reported is one with the lowest current error. "
 "Pushing a member evicts one with the highest error and leaves every other slot alone.",
 ["histories", "inputs"],
 "All sequences of mutations and queries in any order, all error patterns including ties, infinite and missing errors.",
 "Tests query the ranking at fixed points of fixed scenarios; stale-cache mistakes need a specific query-mutate-query sequence.",
 ["ade/population.py", "ade/individual.py"],
 "Representation invariant 'cached order is absent or equals the order of current errors' preserved by every mutator; observer postconditions.",
 [("Population._KS", "cached ranking"), ("Population._iSorted", "cached sorted listing")],
 "ranking/best queries after each operation")

prop("C08", "Adaptation keeps the differential weight within its limits",
 "In adaptive mode, any sequence of up and down adaptations keeps the weight (or each end of its range) at or below its original value and positive, never lowers it further once the next step would reach the critical value determined by crossover rate and population size, and keeps the upper end of a range at or above the lower end. "
 "The 'limited' indication is raised exactly when a downward request could not lower anything and is withdrawn by the next upward request; an upward request restores a lowered upper end before touching the lower end and never changes anything already at its original value. "
 "Without adaptive mode, or when the range's lower end was given as zero (which stands for the critical value), the weight never changes.",
 ["histories", "configurations"],
 "All initial weights and ranges, crossover rates, population sizes and sequences of up/down requests.",
 "Tests drive two or three fixed configurations for a fixed number of steps; an invariant over all request sequences and configurations cannot be tested out.",
 ["ade/de.py"],
 "Class invariant of the weight manager (critical/original bounds, order of range ends) proved inductive over up/down for symbolic state; two-state postconditions.",
 [("FManager.F", "current weight or range"), ("FManager.limited", "exhaustion flag")],
 "weight drawn for challenges after each adaptation")

prop("C09", "Successful setup yields a complete, finite-error population",
 "When setup reports success, the population holds exactly the configured number of members (popsize times the number of parameters, at least 20 and at most 500, unless those limits are overridden), each a distinct individual carrying the finite, non-negative error its own evaluation returned, whatever the order in which evaluations finish and however many of them come back infinite, missing or undefined. "
 "If setup is aborted or an evaluation is fatal, it does not report success.",
 ["schedules", "inputs", "fault_sequences", "configurations"],
 "All evaluation outcomes, completion orders, parallelism, parameter counts, popsize values and sampling modes.",
 "Tests set up a few populations with well-behaved functions and one completion order.",
 ["ade/population.py", "ade/individual.py"],
 "Loop invariant of population filling (count <= N, members finite and evaluated) and postcondition of setup; size formula as a postcondition of construction.",
 [("Population.iList", "members"), ("Population.Np", "configured size"), ("Population.running", "run status")],
 "result of setup and population contents")

prop("C10", "The history roster is sorted, duplicate-free, bounded and faithful",
 "At rest the history's records are listed in non-decreasing order of error, each occupies storage shared with no other live record, and each listed record still holds the error and parameter values with which it was added (to storage precision), whatever mix of additions, population departures, purges, clears and overflow evictions came before. "
 "It never lists more records than its configured maximum, and individuals without a finite error leave no record.",
 ["histories", "inputs"],
 "All operation sequences, all error patterns including ties, and all maximum sizes.",
 "Tests add a few dozen individuals in fixed patterns; the storage allocator's behaviour depends on which rows were freed before, which only sequence-quantified reasoning covers.",
 ["ade/history.py"],
 "Class invariant over record order list and storage rows; allocator contract 'returned row is free and in range, position keeps order'.",
 [("History.K", "row indices ordered by error"), ("History.X", "record storage")],
 "listing of history after each operation")

prop("C11", "History knows who is in the population and never evicts them",
 "At rest the history marks as belonging to the population exactly the records of the members currently in it (as long as members differ from one another), marks as never-in-population exactly those added as such, and treats all others as former members. "
 "When the roster is full, room is made by dropping one record that is not a current member, chosen from the most similar pair examined, and a current member's record is never dropped.",
 ["histories", "inputs", "schedules"],
 "All sequences of member additions and replacements (including blacklisted members and huge errors), losing challengers and overflow evictions, in any interleaving of the asynchronous updates.",
 "Tests exercise small fixed sequences; membership drift only shows after particular replace/evict/blacklist orders or in a resumed run.",
 ["ade/history.py", "ade/individual.py", "ade/population.py"],
 "Ghost map member -> record; contracts of add/notInPop/purge keep the three sets disjoint and in step; eviction candidate set excludes members.",
 [("History.Kp", "rows of current members"), ("History.Kn", "rows never in population"), ("ClosestPairFinder.K", "eviction candidates")],
 "inPop/notInPop/neverInPop queries")

prop("C12", "Saving and loading preserves the population",
 "A population saved to a file and loaded back, in the same or another process, has the same size, members (values and errors, in the same slots), ranking, parameter names, bounds, settings and history listing with the same membership marks, and its members belong to the loaded population. "
 "The loaded population can resume a run with a supplied evaluation function under all the usual guarantees, with refined bounds (if supplied) applied to every member and to everything evaluated later.",
 ["histories", "inputs", "crash_points"],
 "All populations reachable by runs, including aborted ones, with infinite errors, evicted histories and refined bounds; loading in a process different from the saving one.",
 "Tests save and load once in one process and compare a few attributes; they never resume in a second process or check bookkeeping afterwards.",
 ["ade/population.py", "ade/history.py", "ade/individual.py"],
 "Round-trip contract: observers of load(save(p)) equal observers of p, field by field; resumed-run obligations re-checked from the loaded state.",
 [("saved file", "BZ2 pickle of the population")],
 "loaded population's observers; subsequent run")

prop("C13", "Reported best is the best so far and callbacks are delivered in order",
 "Unless a report callback complains, the reporter's best is always one with the lowest error among all individuals reported so far, regardless of order and of missing, infinite or undefined errors in between. "
 "Report callbacks never overlap, receive the values and error of one and the same reported individual, never receive the same individual twice in a row, and by the time reports have been waited for, the last individual due for reporting has been delivered to every callback in registration order; an individual merely equivalent in error to the last one reported triggers no new delivery unless forced.",
 ["histories", "schedules", "inputs"],
 "All sequences of reports arriving while callbacks are running or idle, all error patterns, callbacks finishing immediately or later.",
 "Tests report short fixed sequences; coalescing of reports that arrive during a slow callback depends on timing.",
 ["ade/report.py", "ade/population.py"],
 "Contracts of report/newBest/equivalence with the running minimum as ghost state; monitor invariant for the pending-report slot.",
 [("Reporter.iBest", "best reported"), ("Reporter.cbrScheduled", "pending report")],
 "callback invocations and the reporter's best")

prop("C14", "A complained-about individual is blacklisted and the former best restored",
 "When a report callback returns a complaint, the complaint handler is called once with that individual and that result, the individual's error becomes infinite, and the population's ranking reflects it immediately. "
 "The reporter's best then is the previous best again whenever that one is better than the blacklisted individual, so later reports are compared with a legitimate best.",
 ["histories", "schedules", "inputs"],
 "All report histories, complaints at any callback position, immediate or deferred, with other reports arriving meanwhile.",
 "The one existing complaint test has a single callback and no previous best.",
 ["ade/report.py", "ade/individual.py", "ade/population.py"],
 "Postcondition of the callback run: complained individual has infinite error, handler trace, best = better of previous best and the blacklisted one.",
 [("Reporter.iBest", "best reported")],
 "complaint handler calls, reporter's best, ranking")

prop("C15", "Improvement ratios and the replacement score follow their definition",
 "Comparing a former member with its successful challenger yields nothing when the former is better, 0 when the improvement is insignificant (errors within the configured fraction of each other), otherwise the error ratio rounded to an integer, and a very high ratio when a member with a bogus error is replaced by one with a proper error. "
 "Between two status-quo inquiries the score grows by 0.1 for each ratio of 0 and by ratio minus 0.5 for each other, plus the fixed bonus for a new overall best; the inquiry resets it, the first inquiry ever always answers yes, and one whose score exceeds the threshold always answers yes, with the chance of yes otherwise rising with the score from none to certainty.",
 ["inputs", "histories"],
 "All pairs of errors and all sequences of reports and inquiries.",
 "Tests check a table of ratios and a few sums; boundaries and the accumulation over arbitrary sequences are not quantified.",
 ["ade/report.py", "ade/population.py"],
 "Case-complete postcondition of the ratio; two-state contract of the score update and inquiry.",
 [("Population.replacementScore", "score since last inquiry")],
 "ratio returned by reports; answers of inquiries")

prop("C16", "Fatal results and aborts stop everything cleanly",
 "A negative error or a failure from the evaluation function is treated as fatal: the individual concerned never enters the population or history, the run (or setup) ends without starting another generation, and whoever waits for the run or setup gets its result. "
 "Once the population is aborted no further parameter vector reaches the evaluation function (only the shutdown marker may), no slot remains reserved, no waiting operation hangs, and each abort handler has run exactly once.",
 ["fault_sequences", "schedules"],
 "A fatal result, exception, report-callback failure or abort request at every point of setup and run, for every order of outstanding evaluations.",
 "Tests inject one failure at one point; other points and outstanding-evaluation orders are not covered.",
 ["ade/de.py", "ade/population.py", "ade/individual.py", "ade/report.py", "ade/abort.py"],
 "Exceptional postconditions of evaluate/challenge/setup/run; ghost 'aborted' flag as precondition of vector evaluation.",
 [("Population.running", "run status"), ("DifferentialEvolution.running", "run status")],
 "evaluation-function arguments after the fault, completion of the run")

prop("C17", "A run performs whole generations and stops when it should",
 "A run issues exactly one challenge per slot in each generation, finishes one generation before starting the next, and calls the per-generation callback with 0, 1, 2, ... exactly once for each generation it continues from. "
 "It never exceeds the maximum number of generations, and stops earlier only on shutdown, when the best error is below the goal at the end of a generation, or (unless told to go to the bitter end) after more than the configured number of consecutive exhausted generations; the final best is reported and the population is what the run delivers.",
 ["configurations", "histories", "schedules"],
 "All maximum generation counts, goals, dwell settings, base policies and evaluation outcomes.",
 "Tests run a few configurations to completion; the goal option is not exercised at all, and counts are not asserted for all configurations.",
 ["ade/de.py"],
 "Generation loop invariant (challenge count, callback count, dwell counter), contract of each exit.",
 [("DifferentialEvolution.dwellCount", "consecutive exhausted generations")],
 "generation callback, evaluation counts, termination")

prop("C18", "Specification files parse to exactly what they say",
 "Reading a specification file yields, for each 'name value' or 'name = value' line, that name with its value, or the list of values if several are given; numbers become floats, none/true/false the corresponding constants, and other words lowercase text, while blank lines and comments (whole-line or trailing, on any line) have no effect. "
 "A name line followed by lines between two hyphen lines yields a dict with exactly those entries, colon-separated keys nesting dicts and all-digit keys being integers, and malformed input is refused with a value error rather than misread.",
 ["inputs"],
 "All specification texts composed of the documented line forms, with arbitrary spacing, commas, comments and nesting depth.",
 "Tests load one fixture file.",
 ["ade/specs.py"],
 "Contracts of token and value parsing; line-loop invariant relating the entries so far to the denotation of the lines read so far.",
 None, "attributes of the loaded specification")

prop("C19", "Constraint helper classes judge parameters as specified",
 "The relations checker accepts a parameter set exactly if, for every specified pair, the second parameter deviates from slope times the first plus intercept by no more than the given tolerance. "
 "A constraint collection presents each registered check with that check's linear parameters unchanged and its log-space parameters as ten to the power of their value, independently of other checks and of earlier parameter sets, counts a check as satisfied when one of its parameters is absent, and passes appended functions the parameters as they are.",
 ["inputs", "configurations"],
 "All parameter sets, relation tables, registries (including names shared between checks) and consumption patterns of the collection.",
 "Tests use one registry and a few points.",
 ["ade/constraints.py"],
 "Contract of the relations checker over all relation entries (nested loop invariant); contract of each wrapper as a pure function of the parameter set.",
 None, "answers of the helper objects; arguments of wrapped checks")

prop("C20", "History analysis answers match the records",
 "Value-versus-error queries return, for each requested parameter, the values of exactly the records in the requested membership class whose error is within the allowed ratio of the best record's, aligned with the returned errors and in ascending error order. "
 "Name-to-column conversion is inverse to column-to-name, fractional selections return exactly the records between the two fractions, and generated plot file names never repeat.",
 ["inputs", "histories"],
 "All record sets, name selections, membership filters, ratio limits and fractions.",
 "Tests compare a few queries on one data set.",
 ["ade/history.py"],
 "Postconditions of the analysis queries as set comprehensions over the records.",
 None, "results of analysis queries")

prop("C21", "Timed partial evaluations are counted and ordered by average time",
 "Running parts of an evaluation through the evaluation timer returns each part's own result or failure unchanged, and iterating over the timer afterwards gives every part's identifier exactly once in ascending order of that part's average elapsed time over all its calls. "
 "Calls of the same part with the same identifier accumulate; parts still running do not appear.",
 ["inputs", "schedules"],
 "All sequences and overlaps of timed calls, durations and identifier positions.",
 "No existing test checks the ordering against controlled durations.",
 ["ade/util.py"],
 "Two-state contract of the completion callback (total += elapsed, count += 1), postcondition of iteration (sorted by average).",
 [("EvalTimer.times", "total elapsed per part"), ("EvalTimer.Ns", "calls per part")],
 "iteration order of the timer")

prop("C22", "An individual's error, truth value, order and equality are consistent",
 "An individual's error is the value its last evaluation returned, except that a missing, undefined or negative one counts as infinite; it is falsy exactly when that value was negative or the evaluation failed; and less-than/greater-than against another individual or number compare those errors as floats. "
 "Equality holds exactly for same error and same values, copies are equal but share no storage, and evaluation stores its result, counts it and yields the same individual without altering its values.",
 ["inputs"],
 "All values, errors (finite, zero, infinite, not-a-number, missing, negative, float-like objects) and pairs of individuals.",
 "Tests compare a few individuals with ordinary errors.",
 ["ade/individual.py"],
 "Contracts on the error property, truth value, comparison operators, equality, copy and evaluate.",
 [("Individual.SSE", "error")],
 "operators applied to individuals")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        fh.write(json.dumps(p) + "\n")
print(len(P))
