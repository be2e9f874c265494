"""Which machinery decides which property."""
import adapters
import core
import flow
import iface
import matchers
import mt
import printer
import reporter
import setup
import signature
import watcher

STEPS = {p: [core.check] for p in core.PLAN}
STEPS['C11'].append(flow.check)
STEPS['C12'].append(flow.check)
STEPS['C13'] = [flow.check]
for p in ('C15', 'C16', 'C17'):
    STEPS[p] = [matchers.check]
for p in ('C18', 'C19'):
    STEPS[p] = [watcher.check]
STEPS['C20'].append(matchers.check_texts)
STEPS['C20'].append(reporter.check)
STEPS['C29'] = [reporter.check, adapters.check_plain]
STEPS['C25'] = [adapters.check]
STEPS['C21'] = [iface.check]
STEPS['C23'] = [printer.check]
STEPS['C20'].append(printer.check_calls)
STEPS['C22'] = [mt.check]
STEPS['C24'] = [signature.check]
STEPS['C30'] = [signature.check]
STEPS['C31'] = [setup.check]
STEPS['C14'].append(adapters.check_plain)

NOT_APPLICABLE = {}

# the model(s) that decide a property, in words
MODELS = {p: 'Mimic (expectation engine)' for p in core.PLAN}
MODELS.update({
    'C11': 'Mimic (expectation engine) and Flow (values of one call)', 'C12': 'Mimic (expectation engine) and Flow (values of one call)',
    'C13': 'Flow (values of one call)',
    'C14': 'Mimic (expectation engine) and TestCase (reporters exchanged while a test runs)',
    'C15': 'Matchers', 'C16': 'Matchers', 'C17': 'Matchers', 'C18': 'Watcher (watched objects)', 'C19': 'Watcher (watched objects)',
    'C20': 'Mimic (contents of reports), Matchers (descriptions), Reporter (rendered texts) and Printer (arguments)',
    'C21': 'Interface (routing of calls through a mocked interface)', 'C23': 'Printer',
    'C22': 'Registry (threads, lock and linearizability)',
    'C24': 'Signature', 'C30': 'Signature (overload resolution)',
    'C31': 'Builder (setting up an expectation)',
    'C25': 'TestCase (engine, reporters and unwinding of a test body)',
    'C29': 'Reporter (outcome and text of each report) and TestCase',
})
NOTES = {
    'C22': 'Schedules are forced through user code (matchers, reporter, finalizers); two windows of the current library are listed as known findings. ',
    'C24': 'Signatures enumerated by TLC are compiled into a program that records their traits. ',
    'C31': 'Expectations set up in behaviours of the specification are compiled into a program that also records what else each of them takes. ',
    'C25': 'One executable per framework (gtest, Catch2, doctest, Boost.Test as installed), each script one test case of it. ',
    'C15': 'Comparisons, predicates and instances over all small operands and templates as listed in harness/matchers. ',
}
GENERAL = ('Exhaustive over the specification in small scopes; the code is bound by validating with TLC the trace of every replayed script '
           '(behaviours of the specification and seeded random ones). Assumes that the harness records what the library does; bounded sizes.')


def describe(pid):
    """technique, level, level note"""
    return ('TLA+ specification %s: model checked with TLC, its behaviours replayed on the library, recorded traces validated by TLC' % MODELS[pid],
            'model_checking', NOTES.get(pid, '') + GENERAL)
