From d34abf382f0997128887dd147014141215cf65c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:22 +0000
Subject: [PATCH 1/8] fix: keep invocations of an incomplete pattern match
 unverified

When the last attempt to match a multi-sequence pattern failed half way,
the invocations matched so far were still reported as matched. A passing
Verify then marked them as verified and VerifyNoOtherInvocations missed
them.
---
 include/fakeit/MatchAnalysis.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fakeit/MatchAnalysis.hpp b/include/fakeit/MatchAnalysis.hpp
index 8cac066..d604b4a 100644
--- a/include/fakeit/MatchAnalysis.hpp
+++ b/include/fakeit/MatchAnalysis.hpp
@@ -46,9 +46,11 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            const size_t matchedBefore = matchedInvocations.size();
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
+                    matchedInvocations.resize(matchedBefore); // drop the invocations of the incomplete match
                     return false;
                 }
                 collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
-- 
2.43.0


From 7121fe552c7d77ac22731491a90dc2ab3a891a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:22 +0000
Subject: [PATCH 2/8] fix: mark all proxy slots unused when a mock is reset

Reset() filled the slot table with 0, which is the id of the destructor
proxy. Stubbing the destructor after a Reset() then dispatched to slot 0
and crashed. Use the same unused marker as the constructor.
---
 include/mockutils/DynamicProxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index 0d06a71..f7cea28 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -93,7 +93,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
-- 
2.43.0


From df71836c445b1d7d9fcd60d01dc51a70d30e9490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:22 +0000
Subject: [PATCH 3/8] fix: make AtLeast(0) accept any number of matches

A negative expected count stands for "at least", so AtLeast(0) was taken
as Exactly(0) and failed as soon as the pattern matched once.
---
 include/fakeit/SequenceVerificationProgress.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fakeit/SequenceVerificationProgress.hpp b/include/fakeit/SequenceVerificationProgress.hpp
index 0c12d3a..5a5c88b 100644
--- a/include/fakeit/SequenceVerificationProgress.hpp
+++ b/include/fakeit/SequenceVerificationProgress.hpp
@@ -112,6 +112,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any(); // -0 would mean "exactly 0"
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
-- 
2.43.0


From 674e2a41c2edab3aa550e17db01ded2c579a6d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:22 +0000
Subject: [PATCH 4/8] fix: consume each recorded action exactly as often as
 recorded

An action recorded with 0_Times was never done and was used forever. An
action that called the same mocked method again was executed too often,
or its second completion removed the action that followed it. Skip
actions that are already done and only remove the action that was
executed.
---
 include/fakeit/ActionSequence.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/fakeit/ActionSequence.hpp b/include/fakeit/ActionSequence.hpp
index b1f6018..292222a 100644
--- a/include/fakeit/ActionSequence.hpp
+++ b/include/fakeit/ActionSequence.hpp
@@ -39,11 +39,12 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+            retireDoneActions();
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
             Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
+                if (action.isDone() && _recordedActions.front() == destructablePtr)
                 {
                     _recordedActions.erase(_recordedActions.begin());
                     _usedActions.push_back(destructablePtr);
@@ -77,6 +78,15 @@ namespace fakeit {
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
         }
 
+        // An action may already be done when a call arrives: it was recorded with 0_Times or it is still
+        // being executed and the current call was made from within it.
+        void retireDoneActions() {
+            while (dynamic_cast<Action<R, arglist...> &>(*_recordedActions.front()).isDone()) {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
+        }
+
         void clear() {
             _recordedActions.clear();
             _usedActions.clear();
-- 
2.43.0


From 3bafa5bc79ed5290c601e2329e225c0f049eb398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:22 +0000
Subject: [PATCH 5/8] fix: keep stubbed data members when the invocation
 history is cleared

ClearInvocationHistory() zeroed the memory of the data members of the
fake object although they stay stubbed. Their values were lost and
members with a destructor were destroyed in a corrupt state.
---
 include/fakeit/MockImpl.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index c8d6e35..cc72ae6 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -72,7 +72,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
-- 
2.43.0


From 7e7d754619c2dfa7a3b7fec80207471ec864fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:04 +0000
Subject: [PATCH 6/8] fix: report calls of unmocked methods that return objects
 by value

The stand-in for unmocked methods looked up the mock through its own
object pointer. A method that returns an object in memory passes the
address of the result first, so the lookup read unrelated memory and
crashed instead of reporting the call.
---
 include/fakeit/MockImpl.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index cc72ae6..64d42da 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -35,6 +35,7 @@ namespace fakeit {
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
             FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
             fake->getVirtualTable().setCookie(1, this);
+            unmockedContext(&fakeit);
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -269,10 +270,17 @@ namespace fakeit {
 
 		void unmockedDtor() {}
 
+        // unmocked() stands in for methods of any signature. If the replaced method returns an object in memory
+        // then 'this' is not the mocked object, so the context can't be taken from it.
+        static FakeitContext &unmockedContext(FakeitContext *context = nullptr) {
+            static FakeitContext &fakeit = *context;
+            return fakeit;
+        }
+
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            auto &fakeit = unmockedContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
-- 
2.43.0


From 534f399ba2c27a4ea3442781555b1c51c01cbcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:22 +0000
Subject: [PATCH 7/8] fix: destroy a data member before it is stubbed again

Stubbing the same data member twice constructed the second value over the
live first one. Both were destroyed at the end of the mock, so the member
was destroyed twice and the first value was lost.
---
 include/mockutils/DynamicProxy.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index f7cea28..0c55012 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -10,6 +10,7 @@
 #undef max
 #include <functional>
 #include <type_traits>
+#include <utility>
 #include <vector>
 #include <array>
 #include <new>
@@ -153,7 +154,14 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
+            // a member that is stubbed again is destroyed before it is constructed again.
+            for (auto it = _members.begin(); it != _members.end(); ++it) {
+                if (it->first == memberPtr) {
+                    _members.erase(it);
+                    break;
+                }
+            }
+            _members.emplace_back(memberPtr,
                     std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
                     {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
                     initargs...)});
@@ -211,7 +219,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
         //
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::vector<std::pair<void *, std::shared_ptr<Destructible>>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
-- 
2.43.0


From a63e3d74fae98f96465a7ac710af8b1e5ade026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:31:48 +0000
Subject: [PATCH 8/8] fix: keep copies of the values given to ReturnAndSet

ReturnAndSet and AlwaysReturnAndSet kept references to values that were
given as variables. A call after the variable changed or went out of scope
wrote the changed value or read freed memory. The values are now copied
when the phrase is written.
---
 include/fakeit/StubbingProgress.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fakeit/StubbingProgress.hpp b/include/fakeit/StubbingProgress.hpp
index a93252e..b438c70 100644
--- a/include/fakeit/StubbingProgress.hpp
+++ b/include/fakeit/StubbingProgress.hpp
@@ -190,7 +190,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -333,7 +333,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -496,10 +496,10 @@ namespace fakeit {
 
         template <typename PlaceHolder, typename ArgType,
             typename std::enable_if<static_cast<bool>(std::is_placeholder<PlaceHolder>::value), bool>::type = true>
-        helper::ArgValue<ArgType, std::is_placeholder<PlaceHolder>::value>
+        helper::ArgValue<typename std::decay<ArgType>::type, std::is_placeholder<PlaceHolder>::value>
         operator<=(PlaceHolder, ArgType &&arg)
         {
-            return { std::forward<ArgType>(arg) };
+            return { typename std::decay<ArgType>::type(std::forward<ArgType>(arg)) };
         }
 
     }  // namespace placeholders
-- 
2.43.0

