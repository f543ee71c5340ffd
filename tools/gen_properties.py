#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(obs), hook_needed=None)))
F = 'include/fakeit/'
M = 'include/mockutils/'

p('C01', 'The most recent matching stubbing answers a call; no match is an unexpected call',
  'A call on a mocked method is answered by the most recently recorded stubbing of that method whose argument criteria accept the actual arguments, and by no other; the call is then part of the history of the mock. '
  'If no stubbing accepts the arguments, one "unmatched" unexpected-call event that carries this call is reported, an UnexpectedMethodCallException is thrown to the caller, no action runs and the call does not enter the history.',
  ['inputs', 'histories'], 'every finite list of stubbings with arbitrary argument criteria, every argument tuple, every preceding history',
  'The tests use one to three fixed stubbings and a handful of arguments; the rule quantifies over stubbing lists of any length, any overlap of criteria and any argument.',
  [F+'RecordedMethodBody.hpp', F+'ActualInvocation.hpp', F+'FakeitEvents.hpp'],
  [('reverse scan of the recorded handlers', F+'RecordedMethodBody.hpp getInvocationHandlerForActualArgs'),
   ('record-then-run, unexpected event otherwise', F+'RecordedMethodBody.hpp handleMethodInvocation')],
  [('recorded handlers', 'one entry per stubbing, in recording order', F+'RecordedMethodBody.hpp'),
   ('actual invocations', 'history of the method', F+'RecordedMethodBody.hpp')],
  ['return value / exception of the call', 'event handlers', 'Verify / Using'])

p('C02', 'Recorded actions are used in order and exactly as often as recorded',
  'Within one stubbing the recorded actions are used strictly in recording order: an action recorded n times answers exactly n calls, also when it throws or calls the same method again, and an "always" action answers every later call. '
  'A call that arrives when all actions are used up is reported as an unexpected call and throws UnexpectedMethodCallException; it never re-runs or skips an action.',
  ['inputs', 'histories'], 'every finite list of actions, every repetition count n >= 0, returning, throwing and re-entrant actions, every number of calls',
  'The tests try fixed short action lists; the count law has to hold for every list, every n, and for actions that end by exception or re-enter the mock.',
  [F+'ActionSequence.hpp', F+'Action.hpp', F+'StubbingProgress.hpp', F+'Quantifier.hpp', M+'Finally.hpp'],
  [('front action is executed, erased when done', F+'ActionSequence.hpp handleMethodInvocation'),
   ('remaining-uses counter', F+'Action.hpp Repeat'), ('terminal sentinel action', F+'ActionSequence.hpp NoMoreRecordedAction')],
  [('recorded actions', 'queue of pending actions ending in the sentinel', F+'ActionSequence.hpp')],
  ['return value / exception of the n-th call'])

p('C03', 'Verify counts greedy, non-overlapping, in-order matches of the pattern',
  'Verify(s1,...,sk) looks at the involved invocations in call order and repeatedly takes the earliest contiguous occurrence of s1 after the previous match, then of s2 after it, and so on; the number of complete rounds is the match count. '
  'The verification passes exactly when the count meets the quantity: equal to n for Exactly/Once/Twice/Never, at least n for AtLeast/AtLeastOnce (default at least 1), anything for Any; when it fails, exactly one event carries the pattern, the expected kind and count, the actual count and the actual sequence.',
  ['inputs', 'histories'], 'every invocation history, every pattern of sequences of any length, every expected count',
  'The tests check selected patterns on histories of a few calls; the counting rule is over all histories and patterns, in particular overlaps, repetitions and incomplete tails.',
  [F+'MatchAnalysis.hpp', F+'SequenceVerificationExpectation.hpp', F+'SequenceVerificationProgress.hpp'],
  [('greedy search', F+'MatchAnalysis.hpp countMatches/findNextMatch/isMatch'),
   ('count comparison', F+'SequenceVerificationExpectation.hpp VerifyExpectation')],
  [('actual sequence', 'involved invocations sorted by call order', F+'MatchAnalysis.hpp')],
  ['bool value of a verification', 'SequenceVerificationEvent'])

p('C04', 'Exactly the matched invocations become verified; NoOther sees the rest',
  'A passing verification marks as verified exactly the invocations that take part in its complete matches; a failing one marks none, and the mark is never taken back. '
  'VerifyNoOtherInvocations fails if and only if some invocation of the given sources is unverified, and then reports once all invocations and precisely the unverified ones, each in call order; Unverified(...) exposes exactly the unverified invocations to later verifications.',
  ['inputs', 'histories'], 'every history and every sequence of passing and failing verifications on it',
  'The tests look at a few verify / no-other combinations; which of the invocations is marked depends on the whole history and pattern.',
  [F+'MatchAnalysis.hpp', F+'SequenceVerificationExpectation.hpp', F+'VerifyNoOtherInvocationsVerificationProgress.hpp', F+'SortInvocations.hpp', F+'ActualInvocationsSource.hpp', F+'UnverifiedFunctor.hpp'],
  [('collection of matched invocations', F+'MatchAnalysis.hpp'), ('markAsVerified on success only', F+'SequenceVerificationExpectation.hpp'),
   ('filter of unverified invocations', F+'SortInvocations.hpp selectNonVerifiedInvocations, '+F+'ActualInvocationsSource.hpp')],
  [('verified flag', 'set once, never cleared', F+'Invocation.hpp')],
  ['VerifyNoOtherInvocations result', 'NoMoreInvocationsVerificationEvent', 'Using(Unverified(..))'])

p('C05', 'A verification sees every involved call exactly once, in call order',
  'The actual sequence of a verification is the list, ordered by the moment of the call across all mocks, of the recorded calls of the involved sources, each exactly once, however many times a source is named. '
  'For Verify the sources are the mocks the pattern mentions; for Using they are the given mocks, or for a given method phrase the calls of that method its criteria accept.',
  ['inputs', 'histories'], 'every interleaving of calls over any number of mocks and methods, every list of sources including repeated ones',
  'The tests interleave a few calls on one or two mocks; hash-set iteration order and duplicated sources make the result depend on the run.',
  [F+'SortInvocations.hpp', F+'ActualInvocationsSource.hpp', F+'Invocation.hpp', F+'UsingFunctor.hpp', F+'VerifyFunctor.hpp', F+'MockImpl.hpp', F+'MethodMockingContext.hpp', F+'RecordedMethodBody.hpp'],
  [('global ordinal, taken at the call', F+'Invocation.hpp nextInvocationOrdinal'),
   ('set union then ordering', F+'SortInvocations.hpp sortByInvocationOrder, '+F+'ActualInvocationsSource.hpp')],
  [('ordinal', 'strictly increasing per call', F+'Invocation.hpp')],
  ['SequenceVerificationEvent::actualSequence', 'NoMoreInvocationsVerificationEvent'])

p('C06', 'Sequence expressions denote concatenation and repetition',
  'A method phrase denotes itself, a + b the sequence a followed by b, and a * n and n * a the n-fold repetition of a, for every nesting; a verification uses exactly this list and the mocks mentioned in it. '
  'Repetition with n <= 0 throws std::invalid_argument.',
  ['inputs', 'programs'], 'every expression tree over +, * and method phrases and every int n',
  'The tests use small flat expressions; nesting and counts are unbounded.',
  [F+'Sequence.hpp', F+'MethodMockingContext.hpp'],
  [('ConcatenatedSequence / RepeatedSequence', F+'Sequence.hpp'), ('leaf sequence', F+'MethodMockingContext.hpp')],
  [], ['Verify results', 'SequenceVerificationEvent::expectedPattern'])

p('C07', 'Argument criteria accept exactly the arguments they name',
  'Eq, Ne, Gt, Ge, Lt and Le accept an argument exactly when actual ==, !=, >, >=, <, <= expected with the expected value captured when the phrase was written; Any and _ accept everything; StrEq, StrNe, StrGt, StrGe, StrLt, StrLe compare C strings by content; ApproxEq accepts exactly when |actual - expected| <= margin. '
  'A phrase with one criterion per parameter accepts a call exactly when every criterion accepts the argument at its own position, and a user predicate (Matching) accepts exactly when it returns true for the actual arguments.',
  ['inputs'], 'every actual value, expected value and margin; every number of parameters; every combination of criteria',
  'The tests sample a few values; boundary values, sign and floating point cases and every position combination are not covered.',
  [F+'argument_matchers.hpp', F+'invocation_matchers.hpp', F+'MatchersCollector.hpp', M+'TupleDispatcher.hpp'],
  [('one matcher object per criterion', F+'argument_matchers.hpp'), ('conjunction over positions', F+'invocation_matchers.hpp'), ('one criterion per parameter', F+'MatchersCollector.hpp')],
  [], ['which stubbing answers', 'Verify counts'])

p('C08', 'Every argument reaches actions and criteria at its own position',
  'The action that answers a call and the predicates that examine it receive all arguments of the call, each at its own position: an argument passed by value with the value it had at the call (later changes of the caller\'s variable do not alter what the history shows), an argument passed by reference as the caller\'s own object. '
  'What the action returns or throws is what the caller gets.',
  ['inputs', 'histories'], 'every signature shape and argument tuple; every later mutation by the caller',
  'The tests use a few signatures with few distinct values; a mix-up of two equal-typed arguments or a stale capture needs specific values.',
  [M+'TupleDispatcher.hpp', M+'MethodProxyCreator.hpp', F+'ActualInvocation.hpp', F+'RecordedMethodBody.hpp', M+'type_utils.hpp'],
  [('argument tuple captured at the call', F+'ActualInvocation.hpp'), ('tuple application', M+'TupleDispatcher.hpp'), ('proxy forwards to handler', M+'MethodProxyCreator.hpp')],
  [], ['arguments seen by Do / Matching', 'return value'])

p('C09', 'Reset makes a mock behave like a new one',
  'After Reset() no earlier stubbing, invocation or data-member stub of the mock has any effect: owned methods are unmocked again, a spied object runs its original methods, the history is empty, and methods, data members and the destructor can be stubbed again with the result they have on a new mock. '
  'Other mocks are not affected.',
  ['histories'], 'every history of stubbings, calls, verifications and resets before the Reset and every use after it',
  'The tests reset after one stubbing; leftovers show only for particular methods stubbed before and after.',
  [F+'MockImpl.hpp', M+'DynamicProxy.hpp', M+'FakeObject.hpp', F+'Mock.hpp'],
  [('proxy tables rebuilt, vtable recopied', M+'DynamicProxy.hpp Reset'), ('data area zeroed', M+'FakeObject.hpp')],
  [('method slots', 'handler and proxy id per vtable slot', M+'DynamicProxy.hpp')],
  ['calls on the mock', 'Verify / VerifyNoOtherInvocations'])

p('C10', 'ClearInvocationHistory forgets the calls and nothing else',
  'After ClearInvocationHistory() no earlier call of any method of the mock is visible to any verification, while every stubbing, the remaining uses of every action, the stubbed data members and their values, and all other mocks stay exactly as they were.',
  ['histories'], 'every history of stubbings and calls before it and every use after it',
  'The tests clear after a single stubbing; partial consumption, several methods and data members are not combined.',
  [F+'MockImpl.hpp', F+'RecordedMethodBody.hpp', M+'DynamicProxy.hpp'],
  [('per-method history cleared', F+'MockImpl.hpp clear, '+F+'RecordedMethodBody.hpp clear')],
  [], ['Verify after clear', 'calls after clear', 'data member values'])

p('C11', 'A spied method runs the original with the caller\'s arguments, every time',
  'A call on a spied method runs the original implementation of exactly that method exactly once with the caller\'s arguments, hands its result or exception to the caller, and is recorded like any mocked call; the method is still spied afterwards, also when the original throws. '
  'Methods of the object that were not spied, stubbed or named in a phrase keep running their original implementation.',
  ['inputs', 'histories'], 'every method position, argument tuple, sequence of calls, returning and throwing originals',
  'The tests spy single methods once; the swap and swap-back have to work at every slot and on every exit path.',
  [M+'DynamicProxy.hpp', F+'MockImpl.hpp', F+'SpyFunctor.hpp', F+'SpyWithoutVerifyFunctor.hpp', M+'Finally.hpp'],
  [('temporary swap of the vtable slot', M+'DynamicProxy.hpp createRaiiMethodSwapper'), ('restore on every exit', M+'Finally.hpp'), ('delegate action', F+'Action.hpp ReturnDelegateValue')],
  [('cloned vtable', 'vtable of the spied object', M+'DynamicProxy.hpp')],
  ['effects of the original method', 'Verify'])

p('C12', 'Mocking touches only its own method and object, and is undone at the end',
  'Stubbing a virtual method redirects calls of exactly that method on exactly that object: other methods of it, other objects of the same class and other mocks behave as before, whatever the position of the method among the virtual methods. '
  'At most one mock of an object is alive at a time. When a mock of an existing object is destroyed, the object is back to its original behaviour, and a destructor stub intercepts both explicit destructor calls and delete.',
  ['inputs', 'histories', 'configurations'], 'every virtual method position, every set of stubbed methods, every number of mocks of one class',
  'The tests mock classes with few methods; slot arithmetic has to be right for every slot.',
  [M+'gcc/VirtualTable.hpp', M+'VTUtils.hpp', M+'VirtualOffestSelector.hpp', M+'DynamicProxy.hpp', M+'MethodProxyCreator.hpp', M+'FakeObject.hpp', F+'MockImpl.hpp'],
  [('slot lookup', M+'VTUtils.hpp, '+M+'VirtualOffestSelector.hpp'), ('slot writes', M+'gcc/VirtualTable.hpp'), ('id to slot table', M+'DynamicProxy.hpp InvocationHandlers'), ('detach', M+'DynamicProxy.hpp')],
  [('vtable clone', 'per-mock copy of the vtable with two cookies', M+'gcc/VirtualTable.hpp')],
  ['calls on all methods and objects'])

p('C13', 'Every event reaches every listener once, then the framework adapter',
  'Each unexpected-call, sequence-verification and no-more-invocations event is delivered exactly once to every registered event handler in registration order and then once to the testing-framework adapter in force; after clearEventHandlers no earlier handler is called. '
  'The text of the event comes from the custom formatter if one is set and from the default formatter otherwise.',
  ['inputs', 'histories'], 'every number of registered handlers, every kind of event, every sequence of registrations, clears, sets and resets',
  'The tests register one handler; order and multiplicity need several.',
  [F+'FakeitContext.hpp', F+'DefaultFakeit.hpp'],
  [('fireEvent loop then adapter', F+'FakeitContext.hpp'), ('custom over default', F+'DefaultFakeit.hpp')],
  [('listener list', 'registration order', F+'FakeitContext.hpp')],
  ['EventHandler::handle', 'EventFormatter::format'])

p('C14', 'A verification phrase is evaluated exactly once and reports the right way',
  'A Verify or VerifyNoOtherInvocations phrase is evaluated exactly once: when it is converted to bool, which never throws or reports and yields whether it passed, or otherwise at the end of the full expression, where a failure is reported to the event handlers; it is not evaluated when it is destroyed while an exception is being propagated. '
  'Exactly(n) and AtLeast(n) with n < 0 throw std::invalid_argument, and the reported event carries the file, line and function of the phrase.',
  ['inputs', 'histories'], 'every phrase, every count n, normal and exceptional exit',
  'The tests use each form once; double evaluation and evaluation during unwinding show only in special contexts.',
  [F+'SequenceVerificationProgress.hpp', F+'SequenceVerificationExpectation.hpp', F+'VerifyNoOtherInvocationsVerificationProgress.hpp', F+'ThrowFalseEventHandler.hpp', M+'smart_ptr.hpp'],
  [('evaluate in the destructor of the last owner', M+'smart_ptr.hpp'), ('already-evaluated flag', F+'SequenceVerificationExpectation.hpp'), ('bool through a throwing handler', F+'ThrowFalseEventHandler.hpp')],
  [], ['bool value', 'events', 'exceptions'])

p('C15', 'A stubbing phrase takes effect exactly once when its statement completes',
  'A When, Fake, Spy or assignment phrase, written with a method expression of its own, becomes one stubbing of the mock when its statement completes; a When phrase whose statement ends while an exception is being propagated adds nothing. '
  'Every matcher, action and recorded invocation object is destroyed exactly once, at the latest with the mock.',
  ['histories', 'fault_sequences'], 'every chain of stubbing calls, every exit path, every order of destruction',
  'The tests do not count commits or object lifetimes.',
  [F+'WhenFunctor.hpp', F+'MethodMockingContext.hpp', F+'FakeFunctor.hpp', M+'smart_ptr.hpp', F+'RecordedMethodBody.hpp'],
  [('commit in the destructor of the last progress copy', F+'WhenFunctor.hpp StubbingChange, '+M+'smart_ptr.hpp'), ('ownership hand-over at commit', F+'MethodMockingContext.hpp Implementation')],
  [('commited flag', 'ownership moved to the mock', F+'MethodMockingContext.hpp')],
  ['calls after the phrase', 'destructor counts'])

p('C16', 'ReturnAndSet writes the given values to the right arguments and only those',
  'An action made by ReturnAndSet or AlwaysReturnAndSet assigns the i-th given value to the i-th parameter, or a value given as _k <= v to parameter k, through references and pointers alike, leaves all other arguments unchanged and returns the given result, on every call it answers; a value given as a variable is the value it had when the phrase was written.',
  ['inputs'], 'every signature, every selection of positions, every value',
  'The tests check a few selections; a shifted position is visible only for particular selections and values.',
  [F+'StubbingProgress.hpp'],
  [('ParamWalker / ArgLocator recursion', F+'StubbingProgress.hpp')], [],
  ['out arguments after the call'])

p('C17', 'Stubbed data members are constructed, usable and destroyed exactly once',
  'Stub(&C::member, args...) leaves the member of the mocked object constructed from the given arguments and touches no other member; it keeps values written through the object until Reset or the end of the mock, where it is destroyed exactly once. '
  'Members that are not stubbed read as zero on a new or reset mock.',
  ['inputs', 'histories'], 'every member type and offset, every order of stubs and resets',
  'The tests stub an int or two; lifetime and neighbours are not observed.',
  [M+'DynamicProxy.hpp', M+'FakeObject.hpp', F+'MockImpl.hpp'],
  [('placement construction and owning wrapper', M+'DynamicProxy.hpp DataMemeberWrapper'), ('zeroed area', M+'FakeObject.hpp')], [],
  ['member values', 'constructor / destructor counts'])

p('C18', 'Failure texts list the pattern, the counts and the calls faithfully',
  'The default text of a verification failure names the expected pattern with + and * structure, the expected kind and count, the actual count, the total number of actual invocations and the first min(n,50) of them in order, followed by "..." exactly when more exist; the no-more-invocations text lists the unverified ones the same way. '
  'The unexpected-call text names the method with its arguments and says whether the method is unmocked or unmatched.',
  ['inputs', 'histories'], 'every pattern, count and history, in particular list lengths around the limit',
  'The tests compare a few complete texts; list lengths around 50 and nested patterns are not covered.',
  [F+'DefaultEventFormatter.hpp', M+'TuplePrinter.hpp', M+'Formatter.hpp', F+'ActualInvocation.hpp'],
  [('formatInvocationList, formatExpectedPattern', F+'DefaultEventFormatter.hpp')], [],
  ['EventFormatter::format', 'UnexpectedMethodCallException::what'])

p('C19', 'Faked and unmocked methods behave as documented on every call',
  'A method stubbed with Fake, Return() or AlwaysReturn() answers every such call with the default value of its return type: zero, false, null, the empty string or a value-initialised object, or a DefaultValueInstatiationException if the type has none. '
  'A call, on an owned mock, of a method that was never stubbed, spied or named in a phrase reports one "unmocked" event and throws UnexpectedMethodCallException.',
  ['inputs', 'histories'], 'every return type category, every number of calls, every unmocked slot',
  'The tests fake a few types once; that the value stays the default on later calls and on each slot is not covered.',
  [M+'DefaultValue.hpp', F+'Action.hpp', F+'FakeFunctor.hpp', F+'MockImpl.hpp', F+'StubbingProgress.hpp'],
  [('default value objects', M+'DefaultValue.hpp'), ('unmocked handler in every slot', F+'MockImpl.hpp createFakeInstance/unmocked')], [],
  ['return values', 'events'])

p('C20', 'Concurrent calls get distinct positions in the call order',
  'When several threads call mocked methods at the same time, every call gets its own position in the global call order, and the order of two calls made one after the other by one thread is preserved.',
  ['schedules'], 'every interleaving of calls from any number of threads',
  'The tests are single threaded.',
  [F+'Invocation.hpp', F+'DomainObjects.hpp'], [('atomic counter', F+'Invocation.hpp nextInvocationOrdinal')], [],
  ['ordinals of the actual sequence'])

p('C21', 'Each single-file header behaves like the modular headers it is generated from',
  'A program compiled with a single_header variant behaves like the same program compiled with include/ and the corresponding config directory.',
  ['programs', 'configurations'], 'every program using the library and every testing-framework variant',
  'The tests are compiled against the modular headers only.',
  ['single_header', 'generate_fakeit_single_header.py', 'config'], [('textual amalgamation', 'generate_fakeit_single_header.py')], [],
  ['program behaviour'])

p('C22', 'The vtable layout used under MSVC matches the compiler\'s layout',
  'On MSVC builds the slot, cookie, RTTI and deleting-destructor layout assumed for a mocked class is the one the compiler generates, so that C11 and C12 hold there as well.',
  ['configurations'], 'every mocked class under every supported MSVC version',
  'The tests here are built with GCC and Clang only.',
  [M+'mscpp/VirtualTable.hpp'], [('RTTI object locator and slot arithmetic', M+'mscpp/VirtualTable.hpp')], [],
  ['calls on mocks'])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
