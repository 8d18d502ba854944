"""Source of properties.jsonl: python3 tools/properties.py (run in /verif)."""
import json

P = []
B = "hypothesis-python/src/hypothesis/"


def p(id, title, statement, over, text, why, files, mech):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": [f if f.startswith("hypothesis-python") else B + f for f in files.split()],
                    "mechanism": [{"name": n, "where": w} for n, w in mech]},
    })


# ------------------------------------------------------------------ example database
p("D01", "Database wrappers forward faithfully",
  "A read-only wrapper never changes the database it wraps while still answering every fetch from it; a multiplexed database applies every save, delete and move to all its members with the same arguments and fetches the de-duplicated union; a background-writing database applies every queued write exactly once and in order, keeps working after a failed write, and a fetch sees all writes queued before it.",
  "histories fault_sequences", "every sequence of operations on a wrapped database, with the wrapped database failing at any operation",
  "tests run a few short operation sequences against well-behaved in-memory databases; a member that raises, or a skipped forward on one method, needs a particular history",
  "database.py", [("per-method forwarding", "ReadOnlyDatabase, MultiplexedDatabase, BackgroundWriteDatabase"), ("worker queue", "BackgroundWriteDatabase._worker/_join/fetch")])
p("D02", "Directory database publishes atomically and contains I/O errors",
  "A concurrent reader of a directory-based example database sees either nothing or the complete bytes of a saved value, never a partial file; and no operating-system error during fetch, save, move or delete escapes into the running test or leaves a temporary file behind.",
  "crash_points fault_sequences schedules", "every file-system error at every call, every interleaving with another process using the same directory",
  "tests use a healthy private directory; errors and races at a particular system call are not sampled",
  "database.py", [("write-to-temporary-then-rename", "DirectoryBasedExampleDatabase.save"), ("OSError handlers", "DirectoryBasedExampleDatabase.fetch/save/move/delete")])
p("D03", "Moving a saved example never loses it",
  "Moving a value from one key to another leaves the value saved under the destination whether or not it was present at the source, removes it from the source, and when source and destination are the same key leaves it saved.",
  "histories fault_sequences", "every database implementation, every prior content, every error of the underlying rename",
  "tests move existing values between fresh keys on healthy storage",
  "database.py", [("move", "ExampleDatabase.move and overrides")])
p("D04", "Database listeners hear every change, once subscribed and only then",
  "Every registered listener is told of every save, delete and move event of the database, starting and stopping the underlying subscription exactly when the first listener is added and the last one removed; an in-memory database announces only changes that really happened, and directory or Redis backends announce the key and value that changed under the right event kind.",
  "histories schedules", "every sequence of add/remove listener and write operations, and every backend event",
  "the file-system and Redis listener tests race against real events and are excluded or sampled; per-branch event kinds and the first/last transitions need histories",
  "database.py extra/redis.py", [("listener list transitions", "ExampleDatabase.add_listener/remove_listener/clear_listeners"), ("event construction", "DirectoryBasedExampleDatabase._start_listening Handler, RedisExampleDatabase")])
p("D05", "Choice serialization reader and writer agree",
  "Every choice type the library can save is decoded with the same type tag, size field and byte layout it was encoded with, and the decoder answers every byte string either with choices or with a clean refusal, never an exception, so that corrupt database entries are discarded.",
  "inputs crash_points", "every choice sequence and every byte string, including truncated ones",
  "round trips are sampled on generated sequences; agreement of the tag tables is a statement about all branches of both functions",
  "database.py", [("tag table", "choices_to_bytes/_choices_from_bytes"), ("refusal", "choices_from_bytes")])

# ------------------------------------------------------------------ engine and runner
p("E01", "No user failure or control signal is swallowed",
  "Any exception raised by user code under test reaches the user unless it is one the documentation says is a rejection (a failed assumption or an explicit reject), and library control-flow exceptions are only ever caught by the layer that owns them; in particular KeyboardInterrupt and SystemExit always propagate, skip exceptions skip the test, and a failed health check is raised as itself.",
  "programs inputs", "every exception type raised at every point of the test body, rules, invariants, strategies or callbacks",
  "tests raise a handful of exception types at a handful of places; a broadened handler elsewhere is invisible until that place raises",
  "core.py internal/conjecture/engine.py internal/conjecture/data.py internal/escalation.py stateful.py control.py strategies/_internal/strategies.py", [("exception routing", "StateForActualGivenExecution._execute_once_for_engine, run_engine, process_arguments_to_given.. wrapped_test"), ("broad handlers", "every except clause of the library")])
p("E02", "Phases decide what runs",
  "Explicit examples run only with the explicit phase, saved examples are read and replayed only with reuse, new test cases are generated only with generate, targeted optimisation happens only with target, shrinking only with shrink and the explanation experiments only with explain; and each of them does happen when its phase is enabled and applicable.",
  "configurations programs", "all 64 subsets of phases and every test",
  "a few subsets are tried; a site missing its guard matters only in an unsampled combination",
  "internal/conjecture/engine.py core.py internal/conjecture/shrinker.py", [("phase guards", "ConjectureRunner._run and the stages it calls"), ("explicit phase", "execute_explicit_examples"), ("explain flag", "Shrinker.explain")])
p("E03", "Example, call, shrink and time budgets are enforced",
  "A run never executes more than max_examples valid test cases before a failure is found, stops when its total-call bound, its shrink bound, its five-minute shrink deadline or the exhaustion of all possible test cases is reached, counts every executed test case exactly once under its own status, and is not cut short by the example budget while a failure is being shrunk.",
  "programs configurations", "every test, every setting of max_examples, every sequence of test-case outcomes",
  "tests observe small budgets with constant outcomes; a missed bound or a double count depends on the history of statuses",
  "internal/conjecture/engine.py", [("counters and exits", "ConjectureRunner.test_function, exit_with"), ("generation loop", "should_generate_more, generate_new_examples")])
p("E04", "Health checks fire on their own condition and only through the gate",
  "A health check raises if and only if its own metric crosses its threshold, it is not listed in suppress_health_check and no failing test case has been found yet; every documented health check is raised from somewhere, none is raised without consulting the suppression list, and checking ends for good once enough valid examples were seen.",
  "programs configurations", "every health check, every suppression set, every sequence of outcomes",
  "each check has one or two tests; a swapped metric or a bypass of the suppression list on another path is not exercised",
  "internal/healthcheck.py internal/conjecture/engine.py core.py", [("gate", "fail_health_check"), ("metrics", "ConjectureRunner.record_for_health_check, generate_new_examples")])
p("E05", "Failing examples are saved at once and stale ones removed under the right key",
  "With a database configured, every test case that becomes the best known failure for its error, and every one that aborts the run with an internal error, is saved before the run continues; a saved example is deleted only after replaying it this run showed it no longer fails or it could not be decoded, and only under the key it was loaded from; a displaced failing example is kept as a secondary example rather than lost.",
  "histories crash_points programs", "every sequence of failures, replays and interruptions, every database content",
  "tests check the final database content of complete runs; a crash between finding and saving, or a stale secondary entry, needs a particular history",
  "internal/conjecture/engine.py core.py", [("save on discovery", "ConjectureRunner.test_function"), ("downgrade", "downgrade_choices"), ("replay and discard", "reuse_existing_examples, clear_secondary_key, on_pareto_evict")])
p("E06", "The reported failing example only ever gets simpler",
  "While shrinking, the current best failing test case for an error is replaced only by a test case with the same error that is strictly simpler in the shortlex order, every shrink pass proposes its candidates through that single acceptance test, and the shrinker never adopts a candidate it has not executed.",
  "programs histories", "every failing test and every order of shrink passes",
  "final minimal examples of sample tests are compared; a single acceptance that does not compare, or compares the wrong way, only shows for particular failures",
  "internal/conjecture/engine.py internal/conjecture/shrinker.py internal/conjecture/shrinking/common.py", [("acceptance", "ConjectureRunner.test_function, Shrinker.incorporate_test_data/cached_test_function/consider_new_nodes"), ("value shrinkers", "shrinking.common.Shrinker.consider/incorporate")])
p("E07", "The deadline measures test time and reports flaky timing as such",
  "With a deadline set, each test case whose own run time (excluding data generation and garbage collection) exceeds it fails with DeadlineExceeded, except that while generating and shrinking a tolerance is added so that the final report is reproducible; a final replay that no longer exceeds the deadline is reported as flaky, and with deadline None no time is ever compared.",
  "programs configurations schedules", "every run time, every deadline, every draw and collection pause",
  "timing tests fake the clock in a few patterns",
  "core.py", [("timing wrapper", "StateForActualGivenExecution.execute_once / test wrapper")])
p("E08", "Reproduction blobs round-trip and never pass silently",
  "A blob printed for a failure is decoded by the exact inverse of its encoding, malformed blobs are refused with InvalidArgument, a blob from another version is refused, and a test decorated with reproduce_failure always ends in the original failure or in an error saying that it did not reproduce.",
  "inputs programs", "every blob, every test outcome on replay",
  "a few blobs and outcomes are tested; the outcome matrix is per exception class",
  "core.py", [("codec", "encode_failure/decode_failure"), ("outcome routing", "wrapped_test reproduce_failure block")])
p("E09", "A found failure always ends in an error",
  "If any executed test case failed, the test as a whole raises: either the failure itself reproduced on the final replay, or a flaky-test error naming the discrepancy; several distinct failures are raised together, and no outcome of the final replay (pass, rejection, different error, interruption) lets the test pass.",
  "programs histories schedules", "every outcome of the final replay of every failing example",
  "tests simulate a few flaky patterns; the outcome matrix of the final replay is not exhausted",
  "core.py internal/conjecture/engine.py", [("final replay", "StateForActualGivenExecution.run_engine"), ("raising", "_raise_to_user")])
p("E10", "Targeting keeps the best score and its example",
  "The best score recorded for a target label never decreases, comes only from valid or failing test cases, and the example kept for it attained that score; target() refuses non-finite or non-numeric scores, repeated labels, and use outside a test.",
  "programs histories", "every sequence of scores and statuses",
  "tests check convergence on a few objective functions",
  "control.py internal/conjecture/engine.py internal/conjecture/optimiser.py internal/conjecture/pareto.py", [("score bookkeeping", "ConjectureRunner.test_function"), ("hill climb acceptance", "Optimiser.consider_new_data"), ("validation", "target")])
p("E11", "Explicit examples all run and report faithfully",
  "With the explicit phase enabled, every @example runs before anything is generated, in order, with exactly the given arguments; a failing one is reported (all of them when multiple bugs are reported), one marked xfail fails the test when it passes or raises an unexpected error, and rejected ones are skipped.",
  "programs configurations", "every set of explicit examples with every outcome",
  "each marker is tested in isolation",
  "core.py", [("explicit loop", "execute_explicit_examples"), ("markers", "example.xfail / via")])

# ------------------------------------------------------------------ choice layer
p("C01", "Every choice type is handled at every dispatch",
  "Wherever behaviour depends on the kind of a choice (integer, float, boolean, string, bytes), every kind is handled with its own rule: drawing, permission, equality, indexing and its inverse, counting, simplest value, shrinking and serialization; and every provider offers every kind with the same parameters.",
  "inputs programs", "all five choice kinds at all dispatch sites and all providers",
  "a dispatch site that mishandles one kind shows only on tests mixing that kind into that operation",
  "internal/conjecture/choice.py internal/conjecture/data.py internal/conjecture/providers.py internal/conjecture/datatree.py internal/conjecture/shrinker.py internal/conjecture/optimiser.py internal/conjecture/engine.py", [("dispatch chains", "every comparison against choice-type names")])
p("C02", "Replay and simulation only ever use permitted values",
  "A value taken from a recorded prefix, a template or a seen test case is used for a draw only if it has the right type and satisfies that draw's constraints, otherwise it is replaced by a permitted one (and the replay is marked as misaligned); and the recorded sequence is exactly the sequence of values handed to the test.",
  "inputs histories programs", "every prefix and every sequence of draws, including draws that changed since recording",
  "replays of matching tests dominate; misaligned replays are sampled on few types",
  "internal/conjecture/data.py internal/conjecture/choice.py", [("draw path", "ConjectureData._draw/_pop_choice"), ("permission", "choice_permitted")])
p("C03", "A finished test case is immutable",
  "Once a test case is concluded no further choice can be drawn, no note, span or status recorded, its status is assigned exactly once, and concluding twice is harmless.",
  "histories programs", "every sequence of draws and conclusions",
  "tests call a few methods after freezing",
  "internal/conjecture/data.py", [("frozen typestate", "ConjectureData.freeze/conclude_test/_draw/start_span/stop_span")])
p("C04", "Spans are balanced on every exit",
  "Every region of a test case that is opened is closed exactly once on every path, including rejections and exceptions, so the recorded tree of regions covers the choice sequence without crossing.",
  "programs inputs", "every draw and every exception inside it",
  "completed draws are tested; exits by exception at each opener are not enumerated",
  "internal/conjecture/data.py internal/conjecture/utils.py strategies/_internal/strategies.py", [("open/close pairing", "every start_span/stop_span call site")])
p("C05", "The record of tried test cases is exact",
  "A branch is recorded as exhausted only if every child of it has been tried or concluded, a novel prefix never leads into an exhausted branch, simulation answers only from branches that were really recorded, and a test that draws differently for the same prefix is reported as flaky rather than merged.",
  "histories programs", "every set of executed test cases",
  "tests build small trees; the exhaustion bookkeeping is checked by convergence of sample tests",
  "internal/conjecture/datatree.py", [("exhaustion", "TreeNode.check_exhausted, Branch/Conclusion/Killed"), ("recording", "TreeRecordingObserver"), ("prefix", "DataTree.generate_novel_prefix/simulate_test_function")])
p("C06", "Caches never change results and stay bounded",
  "Every internal cache is keyed by all inputs its value depends on, distinguishing values that compare equal but differ (such as 0.0 and -0.0, or 1 and True) wherever they matter; a cache of test-case results is consulted only for an identical choice sequence, eviction never exceeds the declared size, and pinned entries survive.",
  "inputs histories", "every sequence of lookups and insertions",
  "a stale or colliding entry needs two specific inputs in one process",
  "internal/cache.py internal/conjecture/engine.py internal/conjecture/choice.py strategies/_internal/utils.py internal/reflection.py", [("keys", "ConjectureRunner._cache_key, cacheable, choice_key"), ("eviction", "GenericCache")])

# ------------------------------------------------------------------ strategies
p("S01", "Drawing never changes a strategy or its inputs",
  "Generating an example never modifies the strategy, the sequences and mappings it was built from, or any value handed out earlier, so that a strategy can be reused, shared between tests and replayed: containers passed by the user are copied, and mutable values are built afresh for every draw.",
  "programs histories", "every strategy and every sequence of draws from it",
  "tests draw from fresh strategies; aliasing shows only when a user mutates a drawn value or reuses a strategy",
  "strategies/_internal/collections.py strategies/_internal/strategies.py strategies/_internal/misc.py strategies/_internal/core.py", [("effects of do_draw", "every do_draw and the helpers it reaches"), ("copies", "FixedDictStrategy, SampledFromStrategy, PermutationStrategy, just/builds")])
p("S02", "Rewritten filters accept exactly what the predicate accepts",
  "When a filter is turned into tighter bounds instead of being applied by rejection, every value the result generates satisfies the predicate and no satisfying value is excluded by an off-by-one or swapped bound; a predicate that is not fully understood is kept as a filter.",
  "inputs programs", "every comparison operator, bound type, bound exclusivity and strategy combination",
  "tests sample operators and bounds per strategy; one wrong table entry affects one operator on one side",
  "internal/filtering.py strategies/_internal/numbers.py strategies/_internal/datetime.py strategies/_internal/collections.py strategies/_internal/strings.py strategies/_internal/strategies.py", [("operator tables", "get_numeric_predicate_bounds, convert"), ("type rounding", "get_integer_predicate_bounds, get_float_predicate_bounds"), ("use", "filter methods")])
p("S03", "Collections respect size and uniqueness bounds",
  "Every collection strategy returns between min_size and max_size elements, and with uniqueness requested no two elements agree under any uniqueness key; when the elements cannot satisfy the bounds the test case is rejected, never returned out of bounds.",
  "inputs programs", "every collection strategy, bounds, and element strategy",
  "bounds are sampled with well-behaved elements; exhausting duplicates or filtered elements is rare",
  "strategies/_internal/collections.py internal/conjecture/utils.py", [("size control", "many.more/reject"), ("seen sets", "UniqueListStrategy, UniqueSampledListStrategy")])
p("S04", "Strategy combinators pass values through unchanged",
  "map returns the function applied to one drawn base value, filter returns a drawn value satisfying the predicate or rejects the test case, flatmap draws once from the strategy built from the drawn value, one_of returns a value of one of its branches, shared returns the same value for the same key in one test case, and recursive never exceeds its leaf bound.",
  "programs inputs", "every composition of combinators",
  "compositions are sampled; a path returning an unfiltered or stale value needs specific retries",
  "strategies/_internal/strategies.py strategies/_internal/flatmapped.py strategies/_internal/shared.py strategies/_internal/recursive.py strategies/_internal/deferred.py strategies/_internal/lazy.py", [("value flow", "MappedStrategy.do_draw, FilteredStrategy.do_filtered_draw, FlatMapStrategy.do_draw, OneOfStrategy.do_draw, SharedStrategy.do_draw, RecursiveStrategy.do_draw")])
p("S05", "Invalid strategy arguments are refused before generation",
  "Every size, bound, flag, type and element strategy given to a built-in strategy function goes through its validator on every path on which the function returns a strategy; a validator accepts exactly the valid arguments and refuses all others with InvalidArgument. Documented impossible combinations (a bad width, uuid version or IP version, nan or infinity with bounds that exclude them, unique with unique_by, an empty collection to sample from, timezones that are no strategy) never give a strategy. Strategy functions raise nothing but InvalidArgument, and neither building nor validating a strategy draws data. Every strategy, with its parts, is validated before its first draw, and a failed validation is not remembered as a success.",
  "inputs configurations", "every built-in strategy function and every argument combination",
  "each check is tested once per function; a dropped check on one parameter is not noticed if the tests use another",
  "strategies/_internal/core.py strategies/_internal/numbers.py strategies/_internal/datetime.py internal/validation.py strategies/_internal/collections.py strategies/_internal/strategies.py strategies/_internal/ipaddress.py internal/conjecture/data.py", [("validators", "check_type, check_valid_*, try_convert, check_strategy, check_sample"), ("argument checks", "the public strategy functions"), ("validation", "SearchStrategy.validate, do_validate, ConjectureData.draw")])
p("S06", "Type resolution is registered, cached and invalidated consistently",
  "Registering a strategy for a type takes effect for every later resolution of that type, in every thread, unless the registered function declines; invalid registrations are refused with InvalidArgument and leave the registry unchanged. A registered function that gives no strategy or an empty one raises ResolutionFailed, recursion while resolving is recognised only for the very type being resolved, and results cached before a registration are never served after it.",
  "histories programs", "every sequence of registrations and resolutions",
  "tests register and resolve once; stale cache entries need a resolve-register-resolve history",
  "strategies/_internal/core.py strategies/_internal/types.py strategies/_internal/utils.py extra/ghostwriter.py", [("registry write", "register_type_strategy"), ("lookup", "_from_type, as_strategy, from_type_guarded"), ("cache", "get_cache, clear_cache, cacheable")])
p("S07", "Generated values satisfy the declared bounds of numeric and text draws",
  "A strategy built with bounds, exclusions or an alphabet passes exactly those bounds to the underlying draw and to the validity predicate: no strategy widens, swaps or drops a bound between its constructor, its draw and its filter-rewriting path.",
  "inputs configurations", "every bounded strategy and argument combination",
  "bounds are sampled at a few values; a swapped or dropped bound on one path shows only there",
  "strategies/_internal/numbers.py strategies/_internal/strings.py strategies/_internal/datetime.py strategies/_internal/core.py internal/conjecture/providers.py internal/conjecture/data.py", [("bound plumbing", "IntegersStrategy, FloatStrategy, TextStrategy, DatetimeStrategy, TimeStrategy, DateStrategy, TimedeltaStrategy"), ("draw entry points", "ConjectureData.draw_*")])

# ------------------------------------------------------------------ global effects
p("G01", "Process-wide state is restored on every exit",
  "Anything process-wide that the library changes for the duration of a test (random states, build contexts, the active reporter and settings, the recursion limit, tracing hooks, patched methods, warning filters) is restored on every exit, including exceptions and interrupts, and cleanups registered during a test case all run when it ends.",
  "programs crash_points", "every exit path of every context manager and patching function",
  "restoration after normal exits is tested; after an exception at each point it is not",
  "control.py core.py reporting.py utils/dynamicvariables.py internal/entropy.py internal/scrutineer.py internal/conjecture/junkdrawer.py internal/observability.py _settings.py", [("acquire/release pairs", "DynamicVariable.with_value, deterministic_PRNG, ensure_free_stackframes, BuildContext, Tracer")])
p("G02", "Runs are deterministic given a seed, and user randomness is not disturbed",
  "An explicit seed decorator, then derandomize, then a command-line seed, then fresh entropy determines all randomness of a run in that order of precedence; generation draws only from the run's own generator, the global random generators are seeded identically for every test case and put back afterwards, and a generated random object replays its own results consistently.",
  "programs configurations histories", "every test and every combination of seed sources",
  "tests check single sources; a stray use of the global generator is invisible when outcomes are not compared",
  "core.py internal/entropy.py control.py internal/conjecture/engine.py strategies/_internal/random.py", [("seed precedence", "get_random_for_wrapped_test"), ("who may use global randomness", "every use of the random module"), ("seeding", "deterministic_PRNG")])
p("G03", "Settings are immutable, validated and scoped",
  "A settings object never changes after construction, every field is validated on the way in and unspecified fields come from the explicit parent or the active default, profiles are registered and loaded by name with unknown names refused, and applying settings to a test binds exactly that object.",
  "configurations histories", "every combination of fields, parents and profiles",
  "tests set one field at a time",
  "_settings.py", [("construction", "settings.__init__"), ("write protection", "settings.__setattr__, settingsMeta.__setattr__"), ("profiles", "register_profile/get_profile/load_profile")])
p("G04", "Nothing is written to standard output behind the reporter's back",
  "The library writes to standard output or standard error only through the active reporter (or documented command-line and debugging entry points), verbosity quiet prints nothing, and notes, calls on generated random objects and the test's arguments are shown exactly for the final replay or at verbose levels.",
  "programs configurations", "every code path of the library",
  "tests capture output of a few scenarios; a leftover print on another path is not seen",
  "reporting.py control.py core.py internal/conjecture/engine.py", [("who may print", "every print/sys.stdout use"), ("verbosity gates", "reporting.report/verbose_report/debug_report, control.note/should_note")])

# ------------------------------------------------------------------ stateful
p("T01", "Stateful tests run initialize rules first and invariants after every step",
  "In a stateful test every initialize rule runs exactly once before any ordinary rule, invariants are checked after initialization and after every step (before it only when asked to), a step runs only while the step budget lasts, and the values a rule returns go to exactly its target bundles.",
  "programs histories", "every machine and every sequence of rules",
  "tests run small machines; a missed invariant check at one boundary only shows for a machine failing there",
  "stateful.py", [("step loop", "run_state_machine_as_test / get_state_machine_test"), ("invariants", "check_invariants"), ("results", "_add_results_to_targets")])
p("T02", "Preconditions and bundles gate every rule",
  "A rule is selected only if its preconditions hold at that moment and every bundle it draws from is non-empty; consuming from a bundle removes exactly the drawn value, other draws leave the bundle unchanged, and invariants are skipped only when their own preconditions fail or initialization is still pending.",
  "programs histories", "every machine, bundle content and rule order",
  "machines in tests rarely combine preconditions, consumption and empty bundles",
  "stateful.py", [("validity", "RuleStrategy.is_valid/do_draw"), ("bundles", "BundleReferenceStrategy.do_draw, Bundle.available"), ("precondition attachment", "precondition")])
p("T03", "Teardown always runs and a failing program is printed in order",
  "Every stateful test case runs the machine's teardown exactly once after its last step, whatever the steps raised, and the printed program lists exactly the executed steps in order followed by the teardown call.",
  "programs crash_points", "an exception at every step, invariant or initialization",
  "teardown is tested after a failing rule; not after a failure in each other place",
  "stateful.py", [("teardown", "get_state_machine_test run_state_machine finally")])

# ------------------------------------------------------------------ integrations
p("P01", "The pytest plugin marks, seeds and reports without changing outcomes",
  "The pytest plugin changes the outcome of a test only to skip or fail as documented: every hook it wraps runs the wrapped hook exactly once, command-line options are validated and applied before tests run, it never forces the library to be imported for unrelated tests, and settings or seeds given on the command line reach every test.",
  "programs configurations", "every combination of options and every outcome of the wrapped hook",
  "plugin tests run a few sample files",
  "hypothesis-python/src/_hypothesis_pytestplugin.py extra/pytestplugin.py", [("hook wrappers", "pytest_runtest_call, pytest_runtest_makereport, pytest_collection_modifyitems"), ("lazy import", "module-level imports")])
p("P02", "Extra integrations only reject with the library's own errors",
  "The optional integrations (Django, NumPy, pandas, Lark, dateutil, pytz, Redis, array API) validate their arguments before drawing, turn an unsatisfiable model or value into a rejection of the test case instead of an unrelated error, and never share mutable state between examples.",
  "inputs programs", "every model, dtype, shape, grammar or timezone argument",
  "integration tests cover common arguments only",
  "extra/django/_impl.py extra/django/_fields.py extra/numpy.py extra/pandas/impl.py extra/lark.py extra/array_api.py", [("validation", "public strategy functions"), ("ValidationError to reject", "ModelStrategy.do_draw")])
p("O01", "Exactly one observability record per executed test case",
  "With observability callbacks installed, every executed test case - generated, explicit example or final replay - produces exactly one record, delivered to every callback, whose status matches what happened, whatever the test did; with none installed no record is built for generated test cases.",
  "programs configurations", "every outcome of a test case with callbacks on and off",
  "records are counted for a few outcomes",
  "core.py internal/observability.py", [("delivery", "_execute_once_for_engine finally, execute_explicit_examples, run_engine"), ("status mapping", "make_testcase")])

# ------------------------------------------------------------------ runtime-value properties
p("N01", "Generated strings match their regular expression",
  "Every string produced by from_regex matches the pattern (and fully matches it when requested).",
  "inputs", "every pattern and every draw", "patterns are sampled", "strategies/_internal/regex.py", [("regex compilation", "regex_strategy")])
p("N02", "Float and string indexing are inverse bijections",
  "Mapping a choice to its index and back is the identity for every permitted value, and the index order is the shrink order.",
  "inputs", "every value of every constraint", "indices are sampled", "internal/conjecture/choice.py internal/conjecture/floats.py", [("index maps", "choice_to_index/choice_from_index, float_to_lex/lex_to_float")])
p("N03", "Shrinking reaches a local minimum and the distribution covers the domain",
  "A shrunk example cannot be simplified by any single shrink pass, and every permitted value has positive probability.",
  "programs inputs", "every failing test", "minimal examples of sample tests only", "internal/conjecture/shrinker.py internal/conjecture/providers.py", [("fixpoint", "Shrinker.fixate_shrink_passes"), ("distributions", "HypothesisProvider")])
p("N04", "Ghostwritten tests run",
  "Source code produced by the ghostwriter parses, imports what it uses and exercises the given functions.",
  "programs inputs", "every function or module given", "fixed sample outputs", "extra/ghostwriter.py", [("source construction", "_make_test")])
p("N05", "Printed reproduction code evaluates to the drawn value",
  "The printed representation of a failing example evaluates back to the same arguments whenever all strategies used have a constructor representation.",
  "inputs programs", "every drawn value", "a few types are tested", "vendor/pretty.py internal/reflection.py", [("printer", "RepresentationPrinter")])

if __name__ == "__main__":
    with open("properties.jsonl", "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
