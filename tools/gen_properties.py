#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable).
import json, os
H = "include/mimic++/"
def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=[H + f for f in files],
                             state=state or [],
                             mechanism=[dict(name=n, where=H + w) for n, w in mech],
                             observe_at=observe or [], hook_needed=None))
L = []
L.append(P("C01", "Concurrent use of one mock behaves like some sequential order",
 "Calls, expectation creations and expectation destructions issued concurrently from several threads on the same mock have the same results, reports and match counts as if they had been executed one after another in some order consistent with real time. In particular an expectation never accepts more calls than its upper limit, no accepted call is lost from its count, and no such execution contains a data race, a memory error or a crash. Expectations attached to sequences are included as long as all members of a sequence belong to the same mock function (a sequence itself is not synchronized).",
 ["schedules", "programs"], "every interleaving, at the level of single memory accesses, of 2-4 threads calling the mock and creating/destroying expectations of it (expectations without sequences; each handle itself is used by one thread at a time)",
 "The repository has no multi-threaded test at all; a unit test can only sample whatever interleaving the machine happens to produce.",
 ["Expectation.hpp", "ControlPolicy.hpp"],
 [("collection mutex held over selection and counting", "Expectation.hpp ExpectationCollection::handle_call/push/remove"), ("count and saturation", "ControlPolicy.hpp ControlPolicy::consume/state")],
 ["call results", "reporter callbacks", "unfulfilled reports at destruction"],
 [dict(name="expectation list", meaning="live expectations of one signature", where=H+"Expectation.hpp ExpectationCollection"), dict(name="match count", meaning="accepted calls so far", where=H+"ControlPolicy.hpp")]))
L.append(P("C02", "An expectation may be destroyed while a call matched by it is running",
 "If the owner of an expectation destroys it while a call it has already accepted is still running its side effects or finalizer - from another thread or from within that expectation's own side effects or finalizer - the running call completes normally with that expectation's remaining side effects, return value or exception, and no destroyed object is accessed. The destruction itself completes without waiting for the call and judges fulfilment including that call, and later calls do not match the destroyed expectation.",
 ["schedules", "histories"], "every point at which the destruction can hit an in-flight call, every nesting depth, every mix of other live expectations",
 "Tests only destroy expectations when no call is active.",
 ["Expectation.hpp"], [("shared ownership of the selected expectation", "Expectation.hpp ExpectationCollection::handle_call"), ("removal from the collection", "Expectation.hpp ScopedExpectation")],
 ["call result", "side-effect log", "memory accesses"]))
L.append(P("C03", "User actions may re-enter or block without blocking the mock",
 "While a side effect or finalizer of a matched call runs, the same mock (and every other mock) can still be called, and expectations for it can be created, queried and destroyed, from the action itself and from any other thread, and all of these complete; an action that waits for another thread's such operation is therefore always released. Only the action's own call waits for the action.",
 ["schedules", "histories"], "every nesting of mock operations inside side effects and finalizers, and every schedule in which such an action blocks until operations of other threads have completed",
 "No test performs mock operations inside an action or with a second thread; deadlocks only show for specific nestings or schedules.",
 ["Expectation.hpp"], [("lock released before user actions", "Expectation.hpp handle_call / BasicExpectation::consume")], ["progress of all threads", "call results"]))
L.append(P("C04", "An exception inside one matcher disables only that expectation for that call",
 "If evaluating an expectation's matchers for a call throws, that failure is reported to the reporter exactly once for that expectation and call, with the thrown exception, that expectation is treated as not available for this call only, and the outcome of the call is decided by the remaining expectations exactly as if it were absent. The exception never escapes into the caller and changes no expectation or sequence state.",
 ["fault_sequences", "histories"], "every set of throwing matchers, in every position among the live expectations, at every point of a call history",
 "Tests use a single expectation with a matcher that always throws; they do not cover intermittent faults mixed with other matching, saturated or sequenced expectations.",
 ["Expectation.hpp", "Reporter.hpp"], [("guarded match evaluation", "Expectation.hpp detail::make_match_report")], ["unhandled-exception reports", "call result", "later match behaviour"]))
L.append(P("C05", "A call that is not accepted changes nothing",
 "A call that ends without being accepted - no expectation matches, the matching ones are exhausted or not their sequence's turn, or printing its arguments throws - runs no side effect or finalizer and leaves every expectation's count and satisfaction and every sequence position unchanged, so all later calls, queries and destructions behave as if it had never been made.",
 ["histories", "fault_sequences"], "every history with rejected or aborted calls inserted at any position, including from inside side effects, with any installed throwing reporter",
 "Tests check one rejected call against one expectation; they do not continue the history afterwards.",
 ["Expectation.hpp", "ControlPolicy.hpp", "Sequence.hpp", "Reporter.hpp"], [("state is only advanced after selection", "Expectation.hpp handle_call")], ["later call results", "reports", "satisfaction queries"]))
L.append(P("C06", "An accepted call counts exactly once however it ends",
 "An accepted call advances its expectation's count and each of its sequences exactly once, whether its finalizer returns or throws and whether the call is left normally or by an exception; a finalizer's exception reaches the caller unchanged and its returned value reaches the caller unmodified.",
 ["fault_sequences", "histories"], "every pattern of throwing and returning finalizers along a call history, including nested calls",
 "Tests exercise a throwing finalizer once and do not continue the history.",
 ["Expectation.hpp", "ExpectationPolicies.hpp", "ControlPolicy.hpp"], [("counting precedes finalization", "Expectation.hpp BasicExpectation::consume/finalize_call"), ("finalizers", "ExpectationPolicies.hpp finally::*")], ["call results", "counts in later reports"]))
L.append(P("C07", "Every unfulfilled expectation is reported exactly once, at the end of its life",
 "When a live expectation ends - scope exit, explicit reset, or being replaced by move-assignment - the reporter receives exactly one unfulfilled report for it if and only if its count is below its lower limit or a user-written policy of it says it is not satisfied, the report names that expectation, and moving or swapping expectation handles neither triggers nor loses it. With the built-in reporters the failure is raised as an exception when no exception is in flight on that thread, and is suppressed without terminating the program while that thread is unwinding; unwinding on another thread does not matter.",
 ["histories", "fault_sequences", "schedules"], "every history of handle moves, assignments, swaps and destructions, interleaved with matching and rejected calls, exceptions unwinding through the owning scope, and other threads",
 "Tests check single expectations in straight-line code; move-assignment over a live expectation and concurrent unwinding are not covered.",
 ["Expectation.hpp", "Reporter.hpp"], [("RAII handle", "Expectation.hpp ScopedExpectation"), ("removal and check", "Expectation.hpp ExpectationCollection::remove"), ("suppression", "Reporter.hpp BasicReporter/DefaultReporter")], ["unfulfilled reports", "exceptions"]))
L.append(P("C08", "Times limits are enforced exactly over the whole history",
 "At every point of a history an expectation with limits [min,max] accepts a further otherwise matching call if and only if it has accepted fewer than max calls so far, is satisfied if and only if it has accepted at least min (and, where it carries user-written policies, these all say they are satisfied), and an expectation without explicit limits behaves as [1,1]. Exhausted expectations let older matching ones take over, and calls for which only exhausted expectations match are rejected as inapplicable.",
 ["histories", "programs"], "every interleaved history of calls over several expectations with arbitrary limits (once, twice, exact, ranges, at_least, at_most, never), including nested and rejected calls",
 "Unit tests drive single counters through a few steps.",
 ["ControlPolicy.hpp", "Expectation.hpp"], [("control policy", "ControlPolicy.hpp ControlPolicy, TimesConfig, make_control_state")], ["call results", "reported counts", "satisfaction queries"]))
L.append(P("C09", "Sequenced expectations are matched only in their sequence's order",
 "An expectation attached to sequences accepts a call only when, in every one of its sequences, all earlier members have reached their lower limit and no later member has accepted a call yet; otherwise it is inapplicable. This holds across different mocks, for members added while the sequence is in use, and regardless of failed, rejected or throwing calls in between.",
 ["histories", "programs", "fault_sequences"], "every history of calls and attachments over several mocks and several lazy or greedy sequences, with failing calls interleaved",
 "Tests use a handful of fixed scripts with one or two sequences.",
 ["Sequence.hpp", "ControlPolicy.hpp"], [("cursor and entry states", "Sequence.hpp BasicSequence"), ("applicability", "ControlPolicy.hpp make_control_state/update_sequence_states")], ["call results", "inapplicable reports"]))
L.append(P("C10", "Among applicable sequence members the documented strategy decides",
 "If several matching, applicable expectations share exactly the same single sequence, the earliest member is chosen for a lazy sequence and the latest for a greedy one, wherever and in which order their handles were created. If they are attached to exactly the same set of several sequences, an expectation preferred by all of those sequences is chosen over the others.",
 ["histories", "programs"], "every history and sequence position, i.e. every combination of skipped, partially and fully used members",
 "Tests cover two-member scripts at the beginning of a sequence.",
 ["Sequence.hpp", "Expectation.hpp"], [("priority strategies", "Sequence.hpp LazyStrategy/GreedyStrategy"), ("best match", "Expectation.hpp detail::pick_best_match, Sequence.hpp has_better_rating")], ["which expectation accepts"]))
L.append(P("C11", "Without sequences the newest applicable expectation accepts the call",
 "If no sequence is involved, a call is accepted by the most recently created live expectation of that mock function that matches it and is not exhausted, and by no other; expectations of inner scopes therefore win over outer ones and destroying them restores the outer ones. Expectations of other mocks or of other functions of the same mock are never affected.",
 ["histories", "programs", "schedules"], "every history of creations, destructions in any order, handle moves and calls, by one or several interleaved clients",
 "Tests use two expectations in fixed order.",
 ["Expectation.hpp", "Mock.hpp"], [("newest-first selection", "Expectation.hpp handle_call, pick_best_match")], ["which expectation accepts"]))
L.append(P("C12", "Overloads and methods are routed exactly",
 "A call through a given overload (parameter list, constness and value category, free mock or interface method generated by the mocking macros) is only ever accepted by expectations created for that same overload, with the arguments, constness and value category of that very call, and expectations of sibling overloads neither accept it nor change because of it.",
 ["histories", "programs"], "every interleaved history of expectations and calls over complete overload sets, interface mocks and mocks with shared parameter lists, including nested calls from one overload into another",
 "Tests call each overload against one expectation at a time.",
 ["Mock.hpp", "InterfaceMock.hpp", "ExpectationPolicies.hpp", "Call.hpp"], [("shared collection per parameter list", "Mock.hpp Mock"), ("category and constness policies", "ExpectationPolicies.hpp Category/Constness"), ("macro generated overrides", "InterfaceMock.hpp")], ["which expectation accepts", "reports"]))
L.append(P("C13", "Mocks, sequences and expectations may be moved and torn down in any order",
 "Moving a mock carries all its expectations with it, and mocks, sequence handles and expectations may be destroyed in any order: every remaining expectation keeps its count, its place in its sequences, its reporting duty and its effect on the remaining objects. No teardown order crashes, accesses dead objects or reports anything but unfulfilled expectations and sequences.",
 ["histories"], "every order of mock moves, destructions of mocks, sequence handles and expectations, interleaved with calls and with in-flight calls whose side effects perform them",
 "Tests always tear down in reverse construction order.",
 ["Mock.hpp", "Sequence.hpp", "Expectation.hpp"], [("shared ownership", "Mock.hpp BasicMockFrontend, Sequence.hpp BasicSequenceInterface, Expectation.hpp Model")], ["reports", "memory accesses", "call results"]))
L.append(P("C14", "Every call produces exactly one truthful verdict for the installed reporter",
 "Each call delivers to the reporter installed at that moment exactly one of: full match, inapplicable, or no match, before any side effect runs; the report names the call's own arguments and origin, for a match the accepting expectation, and otherwise every relevant live expectation with its true count and match state. A call whose verdict is a failure never returns normally to its caller, and a call whose verdict is a match never fails because of the framework. The provided reporters (DefaultReporter and the adapters for Catch2, gtest, Boost.Test and doctest) deliver these verdicts to their stream or test framework, and always leave a failed call by an exception.",
 ["histories", "fault_sequences", "schedules"], "every history with reporter replacement at any point, any reporter kind, nested and concurrent calls, and matcher faults",
 "Tests check one report per scenario with one reporter.",
 ["Reporter.hpp", "Expectation.hpp", "Reports.hpp", "adapters/Catch2.hpp", "adapters/gtest.hpp", "adapters/BoostTest.hpp", "adapters/Doctest.hpp"], [("report dispatch", "Reporter.hpp detail::report_*, install_reporter"), ("adapters", "adapters/*.hpp send_success, send_warning, send_fail"), ("report creation", "Expectation.hpp handle_call, Reports.hpp")], ["reporter callbacks"]))
L.append(P("C15", "Lifetime watching accounts for every object exactly once",
 "For every watched object identity exactly one destruction is reported when that identity ends (destruction of its current holder, or being overwritten by copy-assignment), never for moved-from shells; it is accepted by that identity's destruct expectation if one is live and is reported as unmatched otherwise. Moving transfers identity and expectation, copying creates a fresh identity without expectation, and a second destruct expectation for the same identity is refused without affecting the first.",
 ["histories"], "every history of constructing, moving, copying, assigning and destroying watched objects and their destruct expectations, optionally sequenced with other expectations",
 "Tests cover each operation once on fresh objects.",
 ["ObjectWatcher.hpp"], [("destruct mock ownership", "ObjectWatcher.hpp LifetimeWatcher"), ("combination with the watched base", "ObjectWatcher.hpp Watched/CombinedWatchers")], ["reports", "exceptions"]))
L.append(P("C16", "Relocation watching reports every move exactly once",
 "Every move-construction or move-assignment from a watched object reports exactly one relocation to the source's relocation expectations before the object changes hands; accepted relocations carry the remaining relocation expectations over to the destination, a move-assignment replaces the destination's own, copies start without expectations and report nothing, and a refused relocation leaves the source's expectations intact.",
 ["histories", "fault_sequences"], "every history of moves, assignments, copies and expectations with arbitrary limits, including refused relocations",
 "Tests perform one relocation per object.",
 ["ObjectWatcher.hpp"], [("relocation mock ownership", "ObjectWatcher.hpp RelocationWatcher")], ["reports", "exceptions"]))
L.append(P("C17", "Side effects run exactly once, in order, on the call's own arguments",
 "An accepted call runs each side effect of the accepting expectation exactly once, in the order they were attached, after the verdict was reported and before the finalizer, and all of them as well as the finalizer operate on the actual argument objects of that call, so each sees the modifications made by the previous ones. No other expectation's side effects run, also when calls are nested or concurrent.",
 ["histories", "schedules", "programs"], "every history with nested, interleaved and concurrent calls over expectations with any mix of side-effect kinds",
 "Tests run one call with one or two actions.",
 ["ExpectationPolicies.hpp", "Expectation.hpp", "Call.hpp"], [("ordered policies", "Expectation.hpp BasicExpectation::consume"), ("actions", "ExpectationPolicies.hpp SideEffectAction, ApplyArgsAction, ApplyAllArgsAction")], ["side-effect log", "argument objects"]))
L.append(P("C18", "An unfinished sequence is reported exactly once, when it dies",
 "When the last owner of a sequence (its handle or an attached expectation) is gone, the reporter receives exactly one error for it if and only if some member from the current position on has not reached its lower limit, and none otherwise; with the built-in reporters the error is suppressed while an exception is in flight. It is never reported earlier, whatever the teardown order.",
 ["histories", "fault_sequences"], "every history of attachments and calls and every order in which handles and attached expectations die",
 "Tests destroy single sequences directly.",
 ["Sequence.hpp", "Reporter.hpp"], [("end-of-life check", "Sequence.hpp BasicSequence::~BasicSequence")], ["error reports"]))
L.append(P("C19", "An expectation that is not completed leaves no trace",
 "If building an expectation fails (invalid limits, duplicated sequence, a refused duplicate, a part whose copy constructor throws when the complete expectation is created) or the unfinished builder is dropped, neither the mock nor any sequence nor any other expectation is affected: no report is made, later calls behave as if it had never been attempted, and the same expectation can be built again successfully (a watcher's destruct expectation is the one documented exception: it can be requested only once per object, even if the builder is dropped).",
 ["histories", "fault_sequences"], "every point of a history at which an incomplete or failing build is attempted, including inside side effects",
 "Tests only check that an exception is thrown.",
 ["ExpectationBuilder.hpp", "ControlPolicy.hpp", "Sequence.hpp"], [("late registration", "ExpectationBuilder.hpp BasicExpectationBuilder::finalize"), ("validation", "ControlPolicy.hpp TimesConfig, Sequence.hpp Config")], ["later call results", "reports"]))
L.append(P("C20", "A failing allocation inside a call cannot corrupt the bookkeeping",
 "If a memory allocation fails during a call, a query, the creation or the destruction of an expectation, the program either stops at once, or the failure surfaces as std::bad_alloc or as a reported unavailable expectation, with every count, sequence and expectation afterwards in exactly the state it had before the operation or the state after its regular completion (a destroyed expectation is always gone); the mock stays usable and no lock stays held.",
 ["fault_sequences", "histories"], "every single failing allocation point of every operation of a history",
 "No test injects allocation failures.",
 ["Expectation.hpp", "ExpectationBuilder.hpp", "ControlPolicy.hpp", "Reports.hpp"], [("ordering of state changes after allocations", "Expectation.hpp handle_call/push/remove"), ("scoped locking", "Expectation.hpp")], ["exceptions", "later call results"]))
L.append(P("C21", "An expectation owns what it was defined with",
 "Values, built-in comparison and string matchers, custom matchers, callables, return values and exceptions given to a definition belong to the expectation from then on: named objects are copied and never modified by the definition, and changing or destroying them later, or defining further expectations from the same objects, has no effect on it. Every repeated call is matched against, and answered with, the same values, and function objects keep their own state from call to call. (Reference wrappers, pointers, views and the ranges given to range matchers keep referring to what they refer to.)",
 ["histories", "programs", "fault_sequences"], "every number and order of calls after the objects used in the definition are gone, for operands given as temporaries, named and constant objects, with any mix of policies",
 "Tests build expectations from literals which outlive the expectation and mostly call them once.",
 ["ExpectationPolicies.hpp", "ExpectationBuilder.hpp", "Matcher.hpp"], [("stored operands", "ExpectationPolicies.hpp Returns, Throws, ArgumentMatcher, SideEffectAction"), ("forwarded operands", "ExpectationPolicies.hpp expect::arg, then::*, finally::*, Matcher.hpp PredicateMatcher")], ["call results", "verdicts", "memory accesses", "state of the caller's objects"]))
# --- properties of pure functions of their input: stated, not claimed (see DESIGN.md)
L.append(P("C30", "Comparison, string and range matchers implement their documented predicate",
 "Each built-in matcher accepts an argument if and only if the documented relation between pattern and argument holds, and its negation accepts exactly the complement, for every argument value.",
 ["inputs"], "every pattern and argument value", "Tests sample a few values per matcher.",
 ["Matcher.hpp", "String.hpp"], [("matcher predicates", "Matcher.hpp matches::*")], ["matches()"]))
L.append(P("C31", "Printing is total and faithful for every supported type",
 "Every value of every printable type (strings of any encoding, ranges, optionals, nested and unprintable types) is rendered without failure, and custom printers take precedence.",
 ["inputs"], "every value", "Tests sample a few values per type.", ["Printer.hpp", "Reports.hpp"], [("printer selection", "Printer.hpp mimicpp::print")], ["report texts"]))
L.append(P("C32", "Signature traits and overload-set checks are exact for every function type",
 "Adding or removing qualifiers, decaying signatures and detecting invalid overload sets give the language-defined answer for every function type.",
 ["programs"], "every function type", "Tests instantiate a finite list.", ["TypeTraits.hpp"], [("traits", "TypeTraits.hpp")], ["compilation"]))
L.append(P("C33", "Ill-formed expectation definitions are rejected at compile time",
 "Defining limits or a finalizer twice, or omitting the finalizer of a non-void function, never compiles, for every chain of policies.",
 ["programs"], "every builder chain", "Tests cannot contain code that must not compile.", ["ExpectationBuilder.hpp"], [("constraints", "ExpectationBuilder.hpp operator&&")], ["compilation"]))
L.append(P("C34", "Times configuration accepts exactly the valid limits",
 "A times configuration is accepted if and only if 0 <= min <= max and is refused with an invalid-argument error otherwise, for all integer pairs.",
 ["inputs"], "every pair of integers", "Tests sample pairs.", ["ControlPolicy.hpp"], [("validation", "ControlPolicy.hpp TimesConfig")], ["exception"]))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in L:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
