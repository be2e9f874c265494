import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=False):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m,where=files[0]) for m in mech],state=[dict(name=a,meaning=b) for a,b in (state or [])],observe_at=observe or [],hook_needed=None)))
I="include/mimic++/"
HIST=["histories","inputs","configurations"]
CORETEST="The unit tests of the engine check hand-written histories of one to three calls (and most of them are not part of the 729 runnable tests); which expectations exist, in which state, when a call arrives is an unbounded history."
p("C01","Every mock call ends in exactly one correct verdict",
 "Every call to a mock is handled by exactly one live expectation of that mock that accepts the call and may still be used, whenever such an expectation exists. If none exists, the call is reported as inapplicable with exactly those live expectations that accept the call but may not be used now (exhausted, or blocked by a sequence), or, if there are none of these either, as unmatched with every live expectation of that mock that rejected it. The call then never returns a value.",
 HIST,"all histories of creating, moving and destroying expectations and sequences and of calls, over all expectation configurations and arguments",CORETEST,
 [I+"Expectation.hpp",I+"Reports.hpp"],["ExpectationCollection::handle_call classification and dispatch","evaluate_match_report"],
 [("live expectations","the ordered registry of a mock's signature"),("match counters","matches handled so far per expectation"),("sequence cursors","position of each sequence")],
 ["result of the call","reports received by the installed reporter"])
p("C02","An expectation's match count honours its times range",
 "An expectation handles at most its configured maximum number of calls and is satisfied exactly while the number of calls it handled is within its configured range (and its custom policies are satisfied too). The count goes up by exactly one for each call it handles and by nothing else, and every report about it states the configured limits and that count. Without explicit configuration the range is exactly one.",
 HIST,"all ranges 0<=min<=max<=INT_MAX, all numbers and interleavings of calls to any number of expectations",
 "Tests try a handful of ranges with few calls; large counts, mixed interleavings and boundary ranges are unbounded.",
 [I+"ControlPolicy.hpp",I+"Expectation.hpp"],["ControlPolicy::consume / is_satisfied / state","make_control_state","BasicExpectation::is_satisfied"],
 [("count,min,max","per expectation")],["ScopedExpectation::is_satisfied()","control state in match reports","times text of expectation reports"])
p("C03","The newest usable expectation wins",
 "When several usable expectations without sequences accept a call, the most recently created one of them handles it. An older one is used only once every newer accepting one is exhausted or destroyed, independent of the order in which others were destroyed or moved.",
 HIST,"all sets of overlapping expectations and all creation/destruction/call orders",
 "Tests use two or three expectations in one fixed order.",
 [I+"Expectation.hpp",I+"Sequence.hpp"],["reverse scan in ExpectationCollection::handle_call","pick_best_match"],
 [("registry order","creation order of live expectations")],["which expectation handled a call (its finalizer result, full-match report)"])
p("C04","Unfulfilled expectations are reported exactly once, at destruction",
 "When an expectation's owner is destroyed (or overwritten), the expectation is reported as unfulfilled exactly once if it is unsatisfied at that moment and not at all otherwise; from then on it takes part in no call. Moving the owning object transfers that duty without reporting, and destroying the mock first does neither drop nor duplicate the report.",
 HIST,"all histories of calls, moves, overwrites and destructions in any order, with throwing and non-throwing reporters",
 "Tests destroy one or two expectations in scope order.",
 [I+"Expectation.hpp"],["ScopedExpectation destructor and move operations","ExpectationCollection::remove"],
 [("ownership","which object owns which expectation")],["report_unfulfilled_expectation calls of the installed reporter"])
p("C05","Sequenced expectations only match in their order",
 "An expectation that is part of a sequence can handle a call only if every element placed before it in that sequence, and not yet passed, has reached its minimum; and once it has handled a call, no earlier element of the sequence handles a call any more. Conversely, an unexhausted sequenced expectation that is not passed and whose predecessors all reached their minimum does accept.",
 HIST,"all sequences of any length with any mix of times ranges, all call orders",
 "Tests use short sequences of mostly `once` elements.",
 [I+"Sequence.hpp",I+"ControlPolicy.hpp"],["BasicSequence::is_consumable / consume / set_satisfied","ControlPolicy::update_sequence_states"],
 [("cursor, element states","per sequence")],["verdict of calls","inapplicable/applicable control state in reports"])
p("C06","Lazy and greedy sequences decide between several candidates",
 "If several elements of one sequence could handle a call, a lazy sequence selects the earliest and a greedy sequence the latest of them. In general, a newer candidate gives way to an older one only if the older one is in all sequences of the newer one and strictly more of these sequences prefer the older one.",
 HIST,"all sequence kinds, lengths and memberships, all positions, all candidate sets",
 "Tests cover two-element cases of the strategies; candidate sets over multiple sequences are combinatorial.",
 [I+"Sequence.hpp",I+"Expectation.hpp"],["LazyStrategy/GreedyStrategy","has_better_rating","pick_best_match"],
 [("sequence ratings","priority of each candidate in its sequences")],["which expectation handled a call"])
p("C07","Several sequences on one expectation act as a conjunction",
 "An expectation in several sequences is usable only if all of them allow it, and handling a call advances every one of them and no other sequence. Attaching the same sequence twice to one expectation, in any way, is rejected with std::invalid_argument and leaves sequence and mock unchanged.",
 HIST,"all memberships in up to several sequences in any order and spelling, all histories",
 "Tests use two fixed sequences and one history each.",
 [I+"Sequence.hpp",I+"ControlPolicy.hpp",I+"ExpectationBuilder.hpp"],["sequence::detail::Config","make_sequence_entries","ControlPolicy::consume"],
 [("memberships","sequence and position per expectation")],["verdict of calls","control state in reports","exceptions while building expectations"])
p("C08","An unfinished sequence is reported exactly once when it ends",
 "When a sequence and all expectations attached to it are gone, exactly one error is reported if any element at or behind the last matched position never reached its minimum, naming how many elements precede the first such element and how many elements the sequence has; otherwise nothing is reported.",
 HIST,"all sequences, all histories, all orders of destroying the sequence object and its expectations",
 "Tests destroy a sequence with one or two elements in one order.",
 [I+"Sequence.hpp"],["BasicSequence destructor"],[("element states","per sequence")],["report_error calls of the installed reporter"])
p("C09","Overloads of a mock never mix up their expectations",
 "A call through one overload (signature, const-ness, ref-qualification) is only handled by expectations created for that overload; expectations created for other overloads neither handle it nor change because of it. The call's reports name the const-ness and value category of the overload that was called.",
 ["configurations","histories"],"all overload sets of const/ref/noexcept-qualified and differently typed signatures, all call expressions and histories",
 "Tests check single qualifier pairs, one call each.",
 [I+"Mock.hpp",I+"ExpectationPolicies.hpp",I+"TypeTraits.hpp",I+"Fwd.hpp"],["MockFrontend specialisations","Category / Constness policies","shared ExpectationCollection per decayed signature"],
 [("overload of each expectation","signature, category, const-ness")],["which expectation handled a call","reported call category and const-ness"])
p("C10","All requirements of an expectation must accept the call",
 "An expectation accepts a call exactly if each of its argument requirements (positional, additional, projected) and custom policies accepts it, whatever their number and order. A requirement that throws makes only that expectation ineligible for that call, is reported once as unhandled exception for that expectation with the thrown exception, and the remaining expectations are still considered.",
 HIST,"all combinations of accepting, rejecting and throwing requirements, over all arguments and sets of expectations",
 "Tests use one or two policies and one throwing policy.",
 [I+"Expectation.hpp",I+"ExpectationPolicies.hpp",I+"ExpectationBuilder.hpp"],["BasicExpectation::matches","make_match_report","Requirement::matches"],
 [],["verdict of calls","per-requirement verdicts in reports","report_unhandled_exception calls"])
p("C11","A matched call yields exactly its finalizer's result",
 "A call handled by an expectation returns exactly what that expectation's finalizer specifies (stored value or reference, result of an invocable, selected or transformed argument) or throws exactly the specified exception, on every match. The finalizer is evaluated exactly once per handled call, and finalizers of other expectations are not evaluated.",
 HIST,"all finalizer kinds, values, argument positions and match histories",
 "Tests check each finalizer in isolation, once.",
 [I+"ExpectationPolicies.hpp",I+"Expectation.hpp"],["ReturnsResultOf, Throws, ApplyArgsAction, ApplyAllArgsAction"],[],
 ["return value / reference identity / exception of calls"])
p("C12","Side effects run exactly once per match, in order, before the result",
 "Each side effect of the handling expectation runs exactly once per handled call, in the order it was attached, with the selected arguments of that call, after the call has been counted and before the finalizer. Side effects of other expectations never run, and a side effect may itself call mocks or create and destroy other expectations.",
 HIST,"all lists of side effects, argument selections, re-entrant actions and match histories",
 "Tests attach one or two side effects; nested calls are a history.",
 [I+"Expectation.hpp",I+"ExpectationPolicies.hpp"],["BasicExpectation::consume","SideEffectAction","ApplyArgsAction"],[],
 ["log of side effect invocations","count seen by nested calls"])
p("C13","Call arguments reach matchers, side effects and finalizers unaltered",
 "Requirements, side effects and finalizers receive the very arguments of the call (reference parameters by identity, others with the value passed), at the selected positions and in the selected order. Changes made by a side effect are visible to later side effects, the finalizer and, for reference parameters, the caller; no argument is copied or moved from behind the user's back.",
 ["inputs","configurations"],"all parameter kinds (value, lvalue, const, rvalue reference, move-only), positions, index selections",
 "Tests check few signatures.",
 [I+"Mock.hpp",I+"Call.hpp",I+"ExpectationPolicies.hpp"],["MockFrontend::operator()","call::Info","ApplyArgsAction / ApplyAllArgsAction"],[],
 ["addresses, values and copy/move counters seen by user code"])
p("C14","Every event reaches the installed reporter exactly once",
 "Each handled call, unmatched call, inapplicable call, unfulfilled expectation, unfinished sequence or throwing requirement is reported exactly once, through the matching channel, to the reporter installed at that moment and to no other. Exceptions thrown by the reporter reach the user's code unchanged.",
 HIST,"all histories, including replacing the reporter between any two events",
 "Tests install one reporter per test.",
 [I+"Reporter.hpp",I+"Expectation.hpp"],["detail::report_* free functions","install_reporter"],[("installed reporter","global")],["calls received by each reporter object"])
p("C15","Comparison matchers, predicates and inversion decide as their operator",
 "The comparison, wildcard, predicate, instance and direct-value matchers accept a value exactly if the corresponding relation holds between the value and the matcher's operand, in that operand order, and an inverted matcher accepts exactly what the original rejects, for any nesting. Matching does not alter the value or the matcher.",
 ["inputs"],"all values and operands of the supported types, including extremes, and all matcher nestings",
 "Tests sample a few ints.",
 [I+"Matcher.hpp",I+"ExpectationBuilder.hpp"],["PredicateMatcher","InvertiblePolicy","make_arg_matcher"],[],["matches() of matchers, verdict of calls using them"])
p("C16","String matchers decide by content and case folding",
 "String equality, prefix, suffix and contains matchers accept exactly if the relation holds between the complete contents of target and pattern (including empty strings, repeated and overlapping occurrences, embedded zeros, and patterns longer than the target), and case-insensitive ones exactly if it holds after case folding of both sides. Inversion accepts the complement; owning and viewing string types behave alike.",
 ["inputs"],"all pairs of strings over all character values, all relations, char and wide types",
 "Tests sample a few literals.",
 [I+"Matcher.hpp",I+"String.hpp"],["matches::str::*","string_traits / string_case_fold_converter"],[],["matches() of matchers, verdict of calls using them"])
p("C17","Range matchers decide by elements",
 "Range equality, unordered equality (as multisets, under the given comparator), sortedness, emptiness, size, each-element and any-element matchers accept exactly if the stated relation holds for the complete range. Their inversions accept exactly the complement, for any container type and length including empty.",
 ["inputs"],"all finite ranges, comparators and element matchers",
 "Tests sample ranges of up to a few elements.",
 [I+"Matcher.hpp"],["matches::range::*"],[],["matches() of matchers"])
p("C18","Watched objects report destruction exactly as expected",
 "A watched object's destruction is matched against its destruct expectation exactly once per object: destroying it without one is an unmatched call, and not destroying it while the expectation ends is reported as unfulfilled. Moving the object moves the pending expectation with it and its moved-from shell reports nothing, copies start without any expectation, and setting a second expectation on one object is an error.",
 HIST,"all histories of construct, copy, move, assign, destroy and expectation setting over several objects",
 "Tests check single operations.",
 [I+"ObjectWatcher.hpp"],["LifetimeWatcher"],[("pending destruct expectation","per object")],["reports, exceptions, is_satisfied of the destruct expectation"])
p("C19","Watched objects report relocation exactly as expected",
 "Every move construction from, or move assignment from, a watched object counts as exactly one relocation matched against the relocation expectations of the source, which then travel to the target. Copying is never a relocation and the copy starts without expectations.",
 HIST,"all histories of construct, copy, move, assign, destroy over several objects",
 "Tests check single operations.",
 [I+"ObjectWatcher.hpp"],["RelocationWatcher"],[("pending relocation expectations","per object")],["reports, is_satisfied of the relocation expectation"])
p("C20","Reports describe the call and the expectation faithfully",
 "Reports carry the call's arguments in order (printed value and type), return type, source location, const-ness and value category, and for each expectation its own source location, its requirement descriptions paired with their individual verdicts, and the state of its times range and sequences (limits, count, which sequences allow or block it). The rendered text of a report contains each of these facts once, with failed and passed requirements under the right heading.",
 HIST,"all calls, expectation configurations and states",
 "Tests compare a few fixed reports.",
 [I+"Reports.hpp",I+"Reporter.hpp",I+"Expectation.hpp"],["make_call_report","BasicExpectation::report / matches","print_times_state","control_state_printer","stringify_*"],[],["report objects and rendered text"])
p("C21","Interface mocks route each virtual call to its own mock",
 "A call through the mocked interface, with any listed signature, qualifiers and arguments, is exactly a call to the mock object of that method with the same arguments, and its result or exception is the mock's. Each overload is routed to the expectations for that overload and methods do not affect each other.",
 ["configurations","inputs","histories"],"all method shapes (arity, const/ref/noexcept, overload sets, bases) and call histories",
 "Tests check a few macro expansions.",
 [I+"InterfaceMock.hpp"],["MIMICPP_MOCK_METHOD, MIMICPP_MOCK_OVERLOADED_METHOD and MIMICPP_ADD_OVERLOAD macros"],[],["results of virtual calls and reports"])
p("C22","Expectations of one mock may be used from several threads",
 "Creating, destroying and calling expectations without sequences of one mock concurrently has the effect of some sequential order of these operations: no update is lost, no call fails or is handled beyond what that order allows, and no deadlock occurs.",
 ["schedules"],"all interleavings of two or three threads that call, create and destroy expectations of one mock",
 "No test runs threads.",
 [I+"Expectation.hpp"],["ExpectationCollection mutex: push, remove, handle_call scan versus consume"],[("registry, counters","shared between threads")],["results of calls, reports, final counts under forced schedules"])
p("C23","Values are printed faithfully and never break a report",
 "Printing a value (as it appears in reports) renders strings completely, quoted and with the right prefix, ranges with all elements in order, pointers, optionals, tuples and nested values in their documented form, prefers a user-provided printer, and renders '{?}' for unprintable types. It terminates for every value without altering it.",
 ["inputs"],"all values of supported, nested and user-defined types",
 "Tests print a few literals.",
 [I+"Printer.hpp",I+"String.hpp"],["detail::PrintFn and Printer specialisations"],[],["mimicpp::print output, argument text in reports"])
p("C24","Signature traits classify and transform every function signature correctly",
 "For every function signature, with any const, ref and noexcept qualifiers, the traits that add or remove noexcept, decay it (drop all qualifiers), or query its return type, each parameter type or the parameter list give the signature's actual properties (parameter queries for signatures without C-variadic parameters). Two of the latter are overloadable, and a list of them is an overload set and may share one mock, exactly if C++ allows member functions with these signatures and one name in one class.",
 ["configurations"],"all combinations of qualifiers, arities, return and parameter types; all lists of signatures",
 "Tests enumerate some combinations by hand, hardly any with parameters or with more than two signatures.",
 [I+"TypeTraits.hpp",I+"Mock.hpp",I+"Call.hpp"],["signature_* traits","is_overloadable_with","is_overload_set","Mock's constraint","info_for_signature"],[],["types and values of the traits","whether the mock type exists"])
p("C25","Test-framework adapters translate each report into the framework's verdict",
 "With an adapter installed, an unmatched or inapplicable call, an unfulfilled expectation and an unfinished sequence end the running test as failed with the report's text, and a handled call never does. Unfulfilled expectations found while the test is already being unwound do not raise a second failure.",
 ["configurations","histories"],"all report kinds, in plain and unwinding context, for each adapter available",
 "Adapter tests check one message per report kind.",
 [I+"adapters/gtest.hpp",I+"adapters/Catch2.hpp",I+"adapters/Doctest.hpp",I+"Reporter.hpp"],["BasicReporter","send_fail/send_warning/send_success"],[],["verdict and output of a framework test program"])
p("C26","Only valid times ranges can be configured",
 "Configuring a times range succeeds exactly if both limits are non-negative and min does not exceed max, and then means exactly that range; otherwise it throws std::invalid_argument and nothing is created. The exact, at-least, at-most, once and twice forms denote [n,n], [n,INT_MAX], [0,n], [1,1] and [2,2].",
 ["inputs"],"all pairs of ints","Tests sample a few pairs.",
 [I+"ControlPolicy.hpp"],["TimesConfig","expect::times/at_least/at_most/once/twice"],[],["exception or resulting limits in reports and behaviour"])
p("C27","Expectations stay valid when mocks are moved or destroyed",
 "Moving a mock keeps all its expectations in force for the new mock object, with their counts and order; destroying a mock leaves its expectations' owners valid, with unchanged satisfaction and reporting duties. Distinct mock objects never share expectations.",
 HIST,"all histories of moving, assigning and destroying mocks interleaved with calls and expectations",
 "Tests move a mock once.",
 [I+"Mock.hpp",I+"Expectation.hpp"],["Mock move operations","shared ownership of ExpectationCollection"],[("mock object to registry mapping","which mock uses which registry")],["verdict of calls after moves","is_satisfied and reports after destruction"])
p("C28","A call that is not handled changes nothing",
 "If a call ends as unmatched or inapplicable, no counter, sequence position, satisfaction state or future verdict changes, no side effect or finalizer runs and every other expectation behaves as if the call had not happened. The same holds for a rejected expectation configuration.",
 HIST,"all states reached by any history, all failing calls",
 "Tests stop after a failing call.",
 [I+"Expectation.hpp",I+"Sequence.hpp",I+"ControlPolicy.hpp"],["ExpectationCollection::handle_call failure path"],[("whole engine state","before and after")],["later verdicts, counts in reports, is_satisfied"])
p("C29","The default and basic reporters turn reports into the right outcome",
 "The default reporter throws its unmatched-call error, with the report's data, location and rendered text, for unmatched and inapplicable calls and its unfulfilled error for unfulfilled expectations; unfulfilled expectations and errors are silently dropped exactly while an exception is being unwound. Handled calls and throwing requirements never throw, and everything except handled calls is also written to its stream once.",
 HIST,"all report kinds in all unwinding contexts, with and without stream",
 "Tests feed single hand-made reports.",
 [I+"Reporter.hpp"],["DefaultReporter","BasicReporter","stringify_*"],[],["exceptions, their data and text; stream content"])
p("C30","A mock is callable exactly like an object with such member functions",
 "For every overload set, a mock of it, as mutable or const lvalue or rvalue, accepts a call with given arguments exactly if C++ overload resolution among member functions with these signatures would, and the call then has the result type and the noexcept-ness of the selected signature. expect_call is available on exactly these kinds of mock objects.",
 ["configurations"],"all overload sets, objects of each constness and value category, argument lists that match one of the parameter lists exactly",
 "Tests call a few overload sets only; that a call is rejected, or is noexcept, is checked for hardly any of them.",
 [I+"Mock.hpp"],["MockFrontend specializations","Mock's using-declarations of operator() and expect_call"],[],["is_invocable, invoke_result, is_nothrow_invocable of mocks"])
p("C31","An expectation takes exactly the elements that fit, and all are in force",
 "While an expectation is set up it takes, at compile time, exactly what fits its signature and what it has already: one positional argument per parameter that can be compared or matched with it, limits once, one finalizer whose result converts explicitly to the return type, requirements and side effects on existing parameters that they accept, and any number of sequences and own policies. In whatever order the elements were written, the finished expectation then has exactly these limits, sequence memberships, requirements and result, and runs all its side effects in the order of writing. Naming a sequence twice throws std::invalid_argument and creates nothing.",
 ["configurations"],"all signatures, all lists of positional arguments, all sequences of elements",
 "Tests try single elements on a few signatures; hardly any test combines more than two, or checks that something is not accepted.",
 [I+"ExpectationBuilder.hpp",I+"ExpectationPolicies.hpp",I+"ControlPolicy.hpp",I+"Expectation.hpp",I+"Mock.hpp"],["BasicExpectationBuilder::operator &&","make_arg_matcher","expectation_policy_for, finalize_policy_for","sequence Config::concat"],[("the elements written so far","the builder's type and contents")],["whether an expression compiles (requires-expressions)","reports, results, side effects and satisfaction in calls"])
json_lines="\n".join(json.dumps(x) for x in P)+"\n"
open("/verif/properties.jsonl","w").write(json_lines)
import jsonschema
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,S); assert x["statement"].count(". ")<=2,(x["id"])
print(len(P))
