From 806eb12803ac0ab97b6bd9476f65b55fb484cfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 01/77] fix: n-ary OR is unknown when no operand is true and
 one is unknown

---
 src/expr/BooleanOperators.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/expr/BooleanOperators.cc b/src/expr/BooleanOperators.cc
index d7d2f73..12bc844 100644
--- a/src/expr/BooleanOperators.cc
+++ b/src/expr/BooleanOperators.cc
@@ -100,7 +100,7 @@ namespace PLEXIL
   bool BooleanOr::operator()(Boolean &result, Function const &args) const
   {
     size_t const n = args.size();
-    bool anyKnown = false;
+    bool allKnown = true;
     for (size_t i = 0; i < n; ++i) {
       bool temp;
       if (args[i]->getValue(temp)) {
@@ -109,12 +109,14 @@ namespace PLEXIL
           result = true;
           return true;
         }
-        anyKnown = true; // but no true value yet
       }
+      else
+        allKnown = false;
     }
-    if (anyKnown)
-      result = false; // or we would have returned above
-    return anyKnown;
+    // No arg is true, so the result is known only if every arg is
+    if (allKnown)
+      result = false;
+    return allKnown;
   }
 
   //
-- 
2.43.0


From eef81348550949fabc8f2765248d94d72e0309f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 02/77] fix: n-ary XOR tests for unknown operands the right way
 round

---
 src/expr/BooleanOperators.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/BooleanOperators.cc b/src/expr/BooleanOperators.cc
index 12bc844..481ba94 100644
--- a/src/expr/BooleanOperators.cc
+++ b/src/expr/BooleanOperators.cc
@@ -225,7 +225,7 @@ namespace PLEXIL
     for (size_t i = 0; i < n; ++i) {
       bool temp2;
       // Return unknown if any arg is unknown
-      if (args[i]->getValue(temp2))
+      if (!args[i]->getValue(temp2))
         return false;
       temp1 = (temp1 != temp2);
     }
-- 
2.43.0


From 56de69f27bca3d0c9c2e38b462b17c10a123e018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 03/77] fix: real value of integer operators that implement
 operator() instead of calc

---
 src/expr/OperatorImpl.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr/OperatorImpl.cc b/src/expr/OperatorImpl.cc
index 135f372..f9af746 100644
--- a/src/expr/OperatorImpl.cc
+++ b/src/expr/OperatorImpl.cc
@@ -182,7 +182,7 @@ namespace PLEXIL
   bool OperatorImpl<Integer>::operator()(Real &result, Expression const *arg) const
   {
     Integer temp;
-    if (!this->calc(temp, arg))
+    if (!(*this)(temp, arg))
       return false;
     result = (Real) temp;
     return true;
@@ -193,7 +193,7 @@ namespace PLEXIL
                                          Expression const *arg1) const
   {
     Integer temp;
-    if (!this->calc(temp, arg0, arg1))
+    if (!(*this)(temp, arg0, arg1))
       return false;
     result = (Real) temp;
     return true;
@@ -202,7 +202,7 @@ namespace PLEXIL
   bool OperatorImpl<Integer>::operator()(Real &result, Function const &args) const
   {
     Integer temp;
-    if (!this->calc(temp, args))
+    if (!(*this)(temp, args))
       return false;
     result = (Real) temp;
     return true;
-- 
2.43.0


From 8f3334d96976259e10525d2d57c45b69add07b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 04/77] fix: equality of dates and durations no longer ends in
 an internal error

---
 src/expr/Comparisons.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr/Comparisons.cc b/src/expr/Comparisons.cc
index 356e713..673c528 100644
--- a/src/expr/Comparisons.cc
+++ b/src/expr/Comparisons.cc
@@ -129,6 +129,8 @@ namespace PLEXIL
       // else fall through to Real case
 
     case REAL_TYPE:
+    case DATE_TYPE:
+    case DURATION_TYPE:
       return compareEqual<Real>(result, argA, argB);
 
     case STRING_TYPE:
-- 
2.43.0


From bf2b339397377290c2f41f5fb27b6c81f1f37401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 05/77] fix: minimum integer divided by -1 no longer traps

---
 src/expr/ArithmeticOperators.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/expr/ArithmeticOperators.cc b/src/expr/ArithmeticOperators.cc
index 075771d..dd24486 100644
--- a/src/expr/ArithmeticOperators.cc
+++ b/src/expr/ArithmeticOperators.cc
@@ -29,6 +29,7 @@
 #include "PlanError.hh"
 
 #include <cmath>
+#include <limits>
 
 namespace PLEXIL
 {
@@ -228,6 +229,19 @@ namespace PLEXIL
     return true;
   }
 
+  // The quotient of the minimum integer and -1 is not representable
+  template <>
+  bool Division<Integer>::calc(Integer &result, Expression const *arg0, Expression const *arg1) const
+  {
+    Integer temp0, temp1;
+    if (!(arg0->getValue(temp0) && arg1->getValue(temp1))
+        || temp1 == 0
+        || (temp1 == -1 && temp0 == std::numeric_limits<Integer>::min()))
+      return false;
+    result = temp0 / temp1;
+    return true;
+  }
+
   //
   // Modulo
   //
@@ -252,7 +266,10 @@ namespace PLEXIL
     if (!(arg0->getValue(temp0) && arg1->getValue(temp1))
         || temp1 == 0)
       return false;
-    result = temp0 % temp1;
+    if (temp1 == -1)
+      result = 0; // % traps on the minimum integer
+    else
+      result = temp0 % temp1;
     return true;
   }
 
-- 
2.43.0


From 0b26ad5e8f9ca3ca8f09aaa7a497acbd5335eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 06/77] fix: three- and four-argument function objects pass the
 argument list, not themselves, to array operators

---
 src/expr/CachedFunction.cc | 2 +-
 src/expr/Function.cc       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/CachedFunction.cc b/src/expr/CachedFunction.cc
index 6aba63e..dc8d0f7 100644
--- a/src/expr/CachedFunction.cc
+++ b/src/expr/CachedFunction.cc
@@ -268,7 +268,7 @@ namespace PLEXIL
     // Default method, overridden in specialized variants
     virtual bool apply(Operator const *oper, Array &result) const
     {
-      return (*oper)(result, this);
+      return (*oper)(result, *this);
     }
 
     // Default method, overridden in specialized variants
diff --git a/src/expr/Function.cc b/src/expr/Function.cc
index 5668dd4..ce25bd7 100644
--- a/src/expr/Function.cc
+++ b/src/expr/Function.cc
@@ -271,7 +271,7 @@ namespace PLEXIL
     // Default method, overridden in specialized variants
     virtual bool apply(Operator const *oper, Array &result) const override
     {
-      return (*oper)(result, this);
+      return (*oper)(result, *this);
     }
 
     // Default method, overridden in specialized variants
-- 
2.43.0


From 9d34aedeb0ab779ce019ba86ee1d3fcacea2bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 07/77] fix: release mutexes of a node which goes to FINISHED
 from EXECUTING or FAILING

---
 src/exec/NodeImpl.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 87d8b75..05467e1 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -1376,8 +1376,9 @@ namespace PLEXIL
   // Wrapped by AssignmentNode
   void NodeImpl::transitionToFinished()
   {
-    // If transitioning from FAILING,, Release any mutexes held by this node
-    if (m_usingMutexes && m_state == WAITING_STATE) {
+    // If transitioning from EXECUTING or FAILING, release any mutexes held by this node
+    if (m_usingMutexes
+        && (m_state == EXECUTING_STATE || m_state == FAILING_STATE)) {
       for (Mutex *m : *m_usingMutexes)
         m->release(this);
     }
-- 
2.43.0


From 9d2c97636b171ad3ed4d8f26ce6fac36ed780963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 08/77] fix: do not activate exit condition of a Command node
 twice

---
 src/exec/CommandNode.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/exec/CommandNode.cc b/src/exec/CommandNode.cc
index cf52343..d4d3065 100644
--- a/src/exec/CommandNode.cc
+++ b/src/exec/CommandNode.cc
@@ -202,7 +202,6 @@ namespace PLEXIL
     activateLocalVariables();
 
     activateInvariantCondition();
-    activateExitCondition();
     activateEndCondition();
   }
 
-- 
2.43.0


From d8ab8c936f4d4d0a13bfaa9dc7675a0a043f4399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 09/77] fix: keep the queue status of a node which was removed
 from the pending queue

---
 src/exec/PlexilExec.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index aefeda2..aea0151 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -500,9 +500,11 @@ namespace PLEXIL
           removePendingNode(node);
           addStateChangeNode(node);
         }
-        // else still eligible to transition to EXECUTING,
-        // but resources not available
-        node->setQueueStatus(QUEUE_PENDING);
+        else {
+          // Still eligible to transition to EXECUTING,
+          // but resources not available
+          node->setQueueStatus(QUEUE_PENDING);
+        }
         return false;
 
       case QUEUE_PENDING_TRY_CHECK:
-- 
2.43.0


From 0e4b2576c56da00a32d2136de8a81f54a037125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 10/77] fix: consider all pending nodes when one of them is
 removed from the pending queue

---
 src/exec/PlexilExec.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index aea0151..7cba579 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -558,10 +558,12 @@ namespace PLEXIL
 
         Node *temp = priorityHead;
         do {
+          // Get successor first, as temp may be removed from the queue
+          Node *successor = temp->next();
           if (resourceCheckEligible(temp)) 
             // Resource(s) were released, give it a look
             priorityNodes.push_back(temp);
-          temp = temp->next();
+          temp = successor;
         } while (temp && temp->getPriority() == thisPriority);
 
         // temp is at end of queue,
-- 
2.43.0


From b68496cb7507c13568e8a8a3eba0ac65ad559857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 11/77] fix: accept repeated change notification of a node
 whose resources were released

---
 src/exec/NodeImpl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 05467e1..7dcfc88 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -606,6 +606,7 @@ namespace PLEXIL
       return;
 
     case QUEUE_PENDING_CHECK:     // already a candidate, silently ignore
+    case QUEUE_PENDING_TRY_CHECK: // already a candidate, silently ignore
       return;
 
     case QUEUE_TRANSITION_CHECK:  // already a candidate, silently ignore
-- 
2.43.0


From c2df571f59131265d96d4f163da23ab5cae8cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 12/77] fix: LinkedQueue::insert_after left a null tail when
 inserting at the end

---
 src/utils/LinkedQueue.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/LinkedQueue.hh b/src/utils/LinkedQueue.hh
index d3bd1ed..e2d1fcf 100644
--- a/src/utils/LinkedQueue.hh
+++ b/src/utils/LinkedQueue.hh
@@ -191,7 +191,7 @@ namespace PLEXIL
         *nxtPtr = item;
         *(item->nextPtr()) = nxt;
         if (!nxt)
-          m_tail = nxt;
+          m_tail = item;
         ++m_count;
       }
       return iterator(item);
-- 
2.43.0


From 87fdd51fee692515c52f4017366d2bc6fc269145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:25 +0000
Subject: [PATCH 13/77] fix: initialise UserVariable::m_initializerIsGarbage in
 every constructor

---
 src/expr/UserVariable.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/expr/UserVariable.cc b/src/expr/UserVariable.cc
index 144f015..5a1fa66 100644
--- a/src/expr/UserVariable.cc
+++ b/src/expr/UserVariable.cc
@@ -49,7 +49,8 @@ namespace PLEXIL
       m_initializer(nullptr),
       m_name(nullptr),
       m_known(false),
-      m_savedKnown(false)
+      m_savedKnown(false),
+      m_initializerIsGarbage(false)
   {
   }
 
@@ -59,7 +60,8 @@ namespace PLEXIL
       m_initializer(nullptr),
       m_name(nullptr),
       m_known(false),
-      m_savedKnown(false)
+      m_savedKnown(false),
+      m_initializerIsGarbage(false)
   {
   }
 
@@ -70,7 +72,8 @@ namespace PLEXIL
       m_initializer(new Constant<T>(initVal)),
       m_name(nullptr),
       m_known(false),
-      m_savedKnown(false)
+      m_savedKnown(false),
+      m_initializerIsGarbage(true)
   {
   }
 
-- 
2.43.0


From ad6b164c15e0cbfafebcb5be4f10a7786905fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 14/77] fix: getSavedValue reports unknown when the saved value
 was unknown

---
 src/expr/ArrayVariable.cc | 2 +-
 src/expr/UserVariable.cc  | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 708b10d..259f02d 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -204,7 +204,7 @@ namespace PLEXIL
 
   Value ArrayVariable::getSavedValue() const
   {
-    if (m_savedValue)
+    if (m_savedKnown && m_savedValue)
       return Value(*m_savedValue);
     return Value();
   }
diff --git a/src/expr/UserVariable.cc b/src/expr/UserVariable.cc
index 5a1fa66..9012ec2 100644
--- a/src/expr/UserVariable.cc
+++ b/src/expr/UserVariable.cc
@@ -396,11 +396,15 @@ namespace PLEXIL
   template <typename T>
   Value UserVariable<T>::getSavedValue() const
   {
+   if (!m_savedKnown)
+     return Value(this->valueType()); // unknown
    return Value(m_savedValue);
   }
 
   Value UserVariable<String>::getSavedValue() const
   {
+   if (!m_savedKnown)
+     return Value(this->valueType()); // unknown
    return Value(m_savedValue);
   }
 
-- 
2.43.0


From c522ccd0fe6be27d85a38b5f8a0bb082d3b267cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 15/77] fix: ArrayVariable::setElementUnknown announces the
 change

---
 src/expr/ArrayVariable.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 259f02d..41368b1 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -285,8 +285,10 @@ namespace PLEXIL
 
   void ArrayVariable::setElementUnknown(size_t idx)
   {
-    if (m_known)
+    if (m_known && m_value->elementKnown(idx)) {
       m_value->setElementUnknown(idx);
+      publishChange();
+    }
     // else fail silently
   }
 
-- 
2.43.0


From 8bd6f482d4821e26d01b4d872f87beb65a2d8992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 16/77] fix: an aborted array element assignment restores the
 element it wrote

---
 src/expr/ArrayReference.cc | 18 ++++++++++++++----
 src/expr/ArrayReference.hh |  3 +++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/expr/ArrayReference.cc b/src/expr/ArrayReference.cc
index 89087f8..03b28b6 100644
--- a/src/expr/ArrayReference.cc
+++ b/src/expr/ArrayReference.cc
@@ -228,6 +228,7 @@ namespace PLEXIL
     : Assignable(),
       ArrayReference(ary, idx, aryIsGarbage, idxIsGarbage),
       m_mutableArray(dynamic_cast<ArrayVariable *>(ary->getBaseExpression())),
+      m_savedIndex(0),
       m_saved(false)
   {
   }
@@ -252,6 +253,13 @@ namespace PLEXIL
     size_t idx;
     if (!mutableSelfCheck(idx))
       return;
+    if (!m_saved || idx != m_savedIndex) {
+      // The index has changed since saveCurrentValue() -
+      // save the element which will actually be overwritten
+      m_savedValue = m_mutableArray->getElementValue(idx);
+      m_savedIndex = idx;
+      m_saved = true;
+    }
     m_mutableArray->setElement(idx, value);
   }
 
@@ -268,20 +276,22 @@ namespace PLEXIL
     size_t idx;
     if (!mutableSelfCheck(idx)) {
       // unknown or invalid
+      m_savedValue.setUnknown();
       m_saved = false;
       return;
     }
     m_savedValue = m_mutableArray->getElementValue(idx);
+    m_savedIndex = idx;
     m_saved = true;
   }
 
   void MutableArrayReference::restoreSavedValue()
   {
-    size_t idx;
-    if (!mutableSelfCheck(idx) || !m_saved) 
+    // Restore the element that was saved, even if the index has changed since.
+    if (!m_saved || !m_mutableArray || !m_mutableArray->isKnown())
       return;
-    if (m_savedValue != m_mutableArray->getElementValue(idx)) {
-      m_mutableArray->setElement(idx, m_savedValue);
+    if (m_savedValue != m_mutableArray->getElementValue(m_savedIndex)) {
+      m_mutableArray->setElement(m_savedIndex, m_savedValue);
     }
     m_saved = false;
   }
diff --git a/src/expr/ArrayReference.hh b/src/expr/ArrayReference.hh
index 309893e..7bc866c 100644
--- a/src/expr/ArrayReference.hh
+++ b/src/expr/ArrayReference.hh
@@ -250,6 +250,9 @@ namespace PLEXIL {
     //! \brief Value saved by saveCurrentValue().
     Value m_savedValue;
 
+    //! \brief Index of the element whose value was saved.
+    size_t m_savedIndex;
+
     //! \brief True if saveCurrentValue() has been called, false otherwise.
     bool m_saved;
   };
-- 
2.43.0


From 1f1fa89052f78699aff5596b9f7fdef121ebe099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:01 +0000
Subject: [PATCH 17/77] fix: an inactive command handle variable is not known

---
 src/intfc/CommandHandleVariable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intfc/CommandHandleVariable.cc b/src/intfc/CommandHandleVariable.cc
index 84d4f8c..93d32a4 100644
--- a/src/intfc/CommandHandleVariable.cc
+++ b/src/intfc/CommandHandleVariable.cc
@@ -65,7 +65,7 @@ namespace PLEXIL
 
   bool CommandHandleVariable::isKnown() const
   {
-    return NO_COMMAND_HANDLE != m_command.getCommandHandle();
+    return isActive() && NO_COMMAND_HANDLE != m_command.getCommandHandle();
   }
 
   bool CommandHandleVariable::getValue(CommandHandleValue &result) const
-- 
2.43.0


From 3467e3031cca96fd60d4f424221cd72186e47612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:40 +0000
Subject: [PATCH 18/77] fix: restore the saved array even when the variable
 became unknown meanwhile

---
 src/expr/ArrayVariable.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 41368b1..0dad913 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -698,7 +698,7 @@ namespace PLEXIL
   void ArrayVariableImpl<T>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
+    if (m_savedKnown
         && !equals(m_savedValue.get())) {
       changed = true;
       ArrayImpl<T> const *saved =
@@ -714,7 +714,7 @@ namespace PLEXIL
   void ArrayVariableImpl<Integer>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
+    if (m_savedKnown
         && !equals(m_savedValue.get())) {
       changed = true;
       ArrayImpl<Integer> const *saved =
@@ -730,7 +730,7 @@ namespace PLEXIL
   void ArrayVariableImpl<String>::restoreSavedValue()
   {
     bool changed = m_known != m_savedKnown;
-    if (m_known && m_savedKnown
+    if (m_savedKnown
         && !equals(m_savedValue.get())) {
       changed = true;
       ArrayImpl<String> const *saved =
-- 
2.43.0


From 5a012b4202a5d9ef9fd909776bf046c30ef47dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:10 +0000
Subject: [PATCH 19/77] fix: removing a listener from a vector of five or more
 expressions

---
 src/intfc/ExprVec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intfc/ExprVec.cc b/src/intfc/ExprVec.cc
index a75241d..e43af0c 100644
--- a/src/intfc/ExprVec.cc
+++ b/src/intfc/ExprVec.cc
@@ -261,7 +261,7 @@ namespace PLEXIL
     virtual void removeListener(ExpressionListener *l) override
     {
       for (size_t i = 0; i < m_size; ++i)
-        exprs[i]->addListener(l);
+        exprs[i]->removeListener(l);
     }
 
     //! \brief Call a function on all subexpressions of this object.
-- 
2.43.0


From fe9d8b77e8fb2318ac93b460bfeb7ee116f4e70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:07 +0000
Subject: [PATCH 20/77] fix: unknown integer and real values compare equal, so
 neither is less than the other

---
 src/value/Value.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value/Value.cc b/src/value/Value.cc
index 9ea0967..d585e6a 100644
--- a/src/value/Value.cc
+++ b/src/value/Value.cc
@@ -1082,7 +1082,7 @@ namespace PLEXIL
       else if (REAL_TYPE == other.m_type) {
         if (m_known)
           return ((Real) integerValue) < other.realValue;
-        return true; // real unknown > int unknown
+        return false; // unknown numbers are equal
       }
       return m_type < other.m_type;
 
@@ -1095,7 +1095,7 @@ namespace PLEXIL
       else if (INTEGER_TYPE == other.m_type) {
         if (m_known)
           return realValue < (Real) other.integerValue;
-        return false; // real unknown > int unknown
+        return false; // unknown numbers are equal
       }
       return m_type < other.m_type;
 
-- 
2.43.0


From be37d0a16cb2360ad51aad58797a5cb30b9aa725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:19 +0000
Subject: [PATCH 21/77] fix: array equality ignores the leftover contents of
 unknown elements

---
 src/value/ArrayImpl.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/value/ArrayImpl.cc b/src/value/ArrayImpl.cc
index f3bf677..8bf6ebf 100644
--- a/src/value/ArrayImpl.cc
+++ b/src/value/ArrayImpl.cc
@@ -309,14 +309,22 @@ namespace PLEXIL
   {
     if (!(this->getKnownVector() == other.getKnownVector()))
       return false;
-    return m_contents == other.m_contents;
+    // The contents of unknown elements are not significant
+    for (size_t i = 0; i < m_known.size(); ++i)
+      if (m_known[i] && m_contents[i] != other.m_contents[i])
+        return false;
+    return true;
   }
 
   bool ArrayImpl<String>::operator==(ArrayImpl<String> const &other) const
   {
     if (!(this->getKnownVector() == other.getKnownVector()))
       return false;
-    return m_contents == other.m_contents;
+    // The contents of unknown elements are not significant
+    for (size_t i = 0; i < m_known.size(); ++i)
+      if (m_known[i] && m_contents[i] != other.m_contents[i])
+        return false;
+    return true;
   }
 
   template <typename T>
@@ -420,12 +428,7 @@ namespace PLEXIL
   template <typename T>
   bool operator==(ArrayImpl<T> const &arya, ArrayImpl<T> const &aryb)
   {
-    if (!(arya.getKnownVector() == aryb.getKnownVector()))
-      return false;
-    std::vector<T> const *avec, *bvec;
-    arya.getContentsVector(avec);
-    aryb.getContentsVector(bvec);
-    return *avec == *bvec;
+    return arya.operator==(aryb);
   }
 
   // Generic
-- 
2.43.0


From 47331c96a1de7783058c0bdca917d03190bc37fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:19 +0000
Subject: [PATCH 22/77] fix: an unknown cached value equals unknown ones, not
 known ones

---
 src/intfc/CachedValueImpl.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/intfc/CachedValueImpl.cc b/src/intfc/CachedValueImpl.cc
index 57fd294..91b41d8 100644
--- a/src/intfc/CachedValueImpl.cc
+++ b/src/intfc/CachedValueImpl.cc
@@ -437,7 +437,7 @@ namespace PLEXIL
   template <typename T>
   bool CachedValueImpl<T>::operator==(CachedValue const &other) const
   {
-    if (!m_known && other.isKnown())
+    if (!m_known && !other.isKnown())
       return true;
     CachedValueImpl<T> const *otherPtr = 
       dynamic_cast<CachedValueImpl<T> const *>(&other);
@@ -451,7 +451,7 @@ namespace PLEXIL
 
   bool CachedValueImpl<Integer>::operator==(CachedValue const &other) const
   {
-    if (!m_known && other.isKnown())
+    if (!m_known && !other.isKnown())
       return true;
     CachedValueImpl<Integer> const *otherPtr = 
       dynamic_cast<CachedValueImpl<Integer> const *>(&other);
@@ -465,7 +465,7 @@ namespace PLEXIL
 
   bool CachedValueImpl<Real>::operator==(CachedValue const &other) const
   {
-    if (!m_known && other.isKnown())
+    if (!m_known && !other.isKnown())
       return true;
     CachedValueImpl<Real> const *otherPtr = 
       dynamic_cast<CachedValueImpl<Real> const *>(&other);
@@ -479,7 +479,7 @@ namespace PLEXIL
 
   bool CachedValueImpl<String>::operator==(CachedValue const &other) const
   {
-    if (!m_known && other.isKnown())
+    if (!m_known && !other.isKnown())
       return true;
     CachedValueImpl<String> const *otherPtr = 
       dynamic_cast<CachedValueImpl<String> const *>(&other);
@@ -494,7 +494,7 @@ namespace PLEXIL
   template <typename T>
   bool CachedValueImpl<ArrayImpl<T> >::operator==(CachedValue const &other) const
   {
-    if (!m_known && other.isKnown())
+    if (!m_known && !other.isKnown())
       return true;
     CachedValueImpl<ArrayImpl<T> > const *otherPtr = 
       dynamic_cast<CachedValueImpl<ArrayImpl<T> > const *>(&other);
-- 
2.43.0


From 618c7e2a7f5713f308856ba237156e8bf5914f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:19 +0000
Subject: [PATCH 23/77] fix: updating an untyped cached value with unknown is
 not a change

---
 src/intfc/CachedValueImpl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intfc/CachedValueImpl.cc b/src/intfc/CachedValueImpl.cc
index 91b41d8..885ac32 100644
--- a/src/intfc/CachedValueImpl.cc
+++ b/src/intfc/CachedValueImpl.cc
@@ -90,7 +90,7 @@ namespace PLEXIL
       return false;
     }
     this->m_timestamp = timestamp;
-    return true;
+    return false; // was and remains unknown
   }
 
   //
-- 
2.43.0


From f8e2922e8f2620d23ae94b1d52895f24bd5e8c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:28 +0000
Subject: [PATCH 24/77] fix: a moved-from string or array value is unknown, not
 a known value without contents

---
 src/value/Value.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/value/Value.cc b/src/value/Value.cc
index d585e6a..de65d1c 100644
--- a/src/value/Value.cc
+++ b/src/value/Value.cc
@@ -147,6 +147,7 @@ namespace PLEXIL
       // Pointer data - move it
     case STRING_TYPE:
       new (&stringValue) std::unique_ptr<String>(std::move(other.stringValue));
+      other.m_known = false; // it has nothing left
       break;
 
       // Copy the entire array
@@ -155,6 +156,7 @@ namespace PLEXIL
     case REAL_ARRAY_TYPE:
     case STRING_ARRAY_TYPE:
       new (&arrayValue) std::unique_ptr<Array>(std::move(other.arrayValue));
+      other.m_known = false; // it has nothing left
       break;
 
     default:
@@ -515,6 +517,7 @@ namespace PLEXIL
     case STRING_TYPE:
       cleanupForString();
       stringValue = std::move(other.stringValue);
+      other.m_known = false; // it has nothing left
       break;
 
       // Copy the entire array
@@ -524,6 +527,7 @@ namespace PLEXIL
     case STRING_ARRAY_TYPE:
       cleanupForArray();
       arrayValue = std::move(other.arrayValue);
+      other.m_known = false; // it has nothing left
       break;
 
     default:
-- 
2.43.0


From fd8a43e38744f49dad662e0306a22d7b3e05832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 25/77] fix: a moved-from array has no elements left, known or
 unknown

---
 src/value/ArrayImpl.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/value/ArrayImpl.cc b/src/value/ArrayImpl.cc
index 8bf6ebf..a380cbf 100644
--- a/src/value/ArrayImpl.cc
+++ b/src/value/ArrayImpl.cc
@@ -62,13 +62,13 @@ namespace PLEXIL
 
   template <typename T>
   ArrayImpl<T>::ArrayImpl(ArrayImpl<T> &&orig)
-    : Array(orig),
+    : Array(std::move(orig)),
     m_contents(std::move(orig.m_contents))
   {
   }
 
   ArrayImpl<String>::ArrayImpl(ArrayImpl<String> &&orig)
-    : Array(orig),
+    : Array(std::move(orig)),
     m_contents(std::move(orig.m_contents))
   {
   }
@@ -201,14 +201,14 @@ namespace PLEXIL
   template <typename T>
   ArrayImpl<T> &ArrayImpl<T>::operator=(ArrayImpl<T> &&orig)
   {
-    Array::operator=(orig);
+    Array::operator=(std::move(orig));
     m_contents = std::move(orig.m_contents);
     return *this;
   }
 
   ArrayImpl<String> &ArrayImpl<String>::operator=(ArrayImpl<String> &&orig)
   {
-    Array::operator=(orig);
+    Array::operator=(std::move(orig));
     m_contents = std::move(orig.m_contents);
     return *this;
   }
-- 
2.43.0


From 9c2ed264481f8bfba524f93b7d18ced342220897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 26/77] fix: reading back the byte form of an array of 128 or
 more elements

---
 src/value/ArrayImpl.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/value/ArrayImpl.cc b/src/value/ArrayImpl.cc
index a380cbf..1dcec3f 100644
--- a/src/value/ArrayImpl.cc
+++ b/src/value/ArrayImpl.cc
@@ -930,9 +930,9 @@ namespace PLEXIL
       return nullptr; // not an appropriate array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     
     this->resize(siz);
     
@@ -951,9 +951,9 @@ namespace PLEXIL
       return nullptr; // not a Boolean array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     this->resize(siz);
     
     buf = deserializeBoolVector(this->m_known, buf);
@@ -969,9 +969,9 @@ namespace PLEXIL
       return nullptr; // not an appropriate array
 
     // Get 3 bytes of size
-    size_t siz = (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++; siz = siz << 8;
-    siz += (size_t) *buf++;
+    size_t siz = (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++; siz = siz << 8;
+    siz += (size_t) (unsigned char) *buf++;
     
     this->resize(siz);
     
-- 
2.43.0


From c92505d756e18aa4084834ca7c803666906cc344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 27/77] fix: a state whose name cannot be serialised is refused
 instead of writing through a null pointer

---
 src/intfc/State.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/intfc/State.cc b/src/intfc/State.cc
index 3d5318f..f5ace2c 100644
--- a/src/intfc/State.cc
+++ b/src/intfc/State.cc
@@ -219,6 +219,8 @@ namespace PLEXIL
   {
     *buf++ = STATE_TYPE;
     buf = PLEXIL::serialize(m_name, buf);
+    if (!buf)
+      return nullptr; // name too big
     // Put 3 bytes of parameter count
     size_t siz = m_parameters.size();
     *buf++ = (char) (0xFF & (siz >> 16));
@@ -240,6 +242,8 @@ namespace PLEXIL
     if (STATE_TYPE != (ValueType) *buf++)
       return nullptr;
     buf = PLEXIL::deserialize(m_name, buf);
+    if (!buf)
+      return nullptr; // not a name
     // Get parameter count
     size_t siz = ((size_t) (unsigned char) *buf++) << 8;
     siz = (siz + (size_t) (unsigned char) *buf++) << 8;
-- 
2.43.0


From f69f7030736558b7c421f13fc7f2bd2fe92107ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:50 +0000
Subject: [PATCH 28/77] fix: the handle of an accepted message is kept in its
 queue entry

---
 src/intfc/QueueEntry.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intfc/QueueEntry.cc b/src/intfc/QueueEntry.cc
index 74965ae..f6b0ab8 100644
--- a/src/intfc/QueueEntry.cc
+++ b/src/intfc/QueueEntry.cc
@@ -127,6 +127,7 @@ namespace PLEXIL
   void QueueEntry::initForAcceptMessage(Message *msg, std::string const &handle)
   {
     message = msg;
+    value = handle;
     type = Q_ACCEPT_MSG;
   }
 
-- 
2.43.0


From c9b0ba271fbc11f3b8cd8f9b640f0bb8f509f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:50 +0000
Subject: [PATCH 29/77] fix: flushing the serialized input queue no longer
 locks its own mutex twice

---
 src/app-framework/SerializedInputQueue.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app-framework/SerializedInputQueue.cc b/src/app-framework/SerializedInputQueue.cc
index 239a8a6..ce8efad 100644
--- a/src/app-framework/SerializedInputQueue.cc
+++ b/src/app-framework/SerializedInputQueue.cc
@@ -131,7 +131,10 @@ namespace PLEXIL
     QueueEntry *temp;
     while ((temp = m_queueGet)) {
       m_queueGet = temp->next;
-      release(temp);
+      // can't call release() here, we already hold the mutex
+      temp->reset();
+      temp->next = m_freeList;
+      m_freeList = temp;
     }
     m_queuePut = nullptr;
   }
-- 
2.43.0


From 6b3f14d68887be7bb3c79f8369943ff67fec2fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:34 +0000
Subject: [PATCH 30/77] fix: a failure to install the worker's stop signal
 handler is reported

---
 src/app-framework/ExecApplication.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index d35c18c..f92450b 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -141,7 +141,7 @@ namespace PLEXIL
     errnum = sigaction(SIGUSR2, &sa, nullptr);
     if (errnum != 0) {
       debugMsg("initializeWorkerSignalHandling", " sigaction returned " << errnum);
-      return errnum;
+      return false;
     }
 
     debugMsg("initializeWorkerSignalHandling", " complete");
-- 
2.43.0


From f14f39cb87d22c9676865334ca5a2f730ed3fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:34 +0000
Subject: [PATCH 31/77] fix: addLibrary reports that the library was refused

---
 src/app-framework/ExecApplication.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index f92450b..1a58caf 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -758,7 +758,7 @@ namespace PLEXIL
       }
       else {
         debugMsg("ExecApplication:addLibrary", " failed");
-        return true;
+        return false;
       }
     }
 
-- 
2.43.0


From 9c0b8c49b2eef988c41e5868e4f36dd2328531a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:28 +0000
Subject: [PATCH 32/77] fix: universalExec -v no longer crashes for want of a
 listener hub

---
 src/universal-exec/UniversalExec.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/universal-exec/UniversalExec.cc b/src/universal-exec/UniversalExec.cc
index 85e8960..79e4dae 100644
--- a/src/universal-exec/UniversalExec.cc
+++ b/src/universal-exec/UniversalExec.cc
@@ -28,6 +28,7 @@
 #include "Debug.hh"
 #include "Error.hh"
 #include "ExecApplication.hh"
+#include "ExecListenerHub.hh"
 #include "InterfaceManager.hh"
 #include "InterfaceSchema.hh"
 #include "lifecycle-utils.h"
@@ -271,9 +272,9 @@ int main_internal(int argc, char** argv)
 #ifdef HAVE_LUV_LISTENER
   // Construct interface to the PLEXIL Viewer if requested on the command line
   if (luvRequest) {
-    _app->configuration()->addExecListener(makeLuvListener(luvHost.c_str(),
-                                                           luvPort,
-                                                           luvBlock));
+    _app->listenerHub()->addListener(makeLuvListener(luvHost.c_str(),
+                                                     luvPort,
+                                                     luvBlock));
   }
 #endif
 
-- 
2.43.0


From b08a331b7273b2de90596e057f7def50c0d83778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:26 +0000
Subject: [PATCH 33/77] fix: notifyExec no longer locks the executive's mutex
 twice when it runs the exec itself

---
 src/app-framework/ExecApplication.cc | 48 +++++++++++++++-------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index 1a58caf..eb83983 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -478,32 +478,36 @@ namespace PLEXIL
     //! @note Acquires m_execMutex and holds until done.  
     virtual void runExec() override
     {
+#ifdef PLEXIL_WITH_THREADS
+      ThreadMutexGuard guard(m_execMutex);
+#endif
+      runExecLocked();
+    }
+
+    //! Run the exec until the queue is empty and the plan state is quiescent.
+    //! @note The caller must hold m_execMutex.
+    void runExecLocked()
+    {
       assertTrue_2(m_interfacesStarted,
                    "ExecApplication: Fatal error: step() called before startInterfaces()");
 
 #ifdef PLEXIL_WITH_THREADS
       unsigned int oldMark = m_lastMark;
 #endif
-      bool allFinished = false;
-      {
-#ifdef PLEXIL_WITH_THREADS
-        ThreadMutexGuard guard(m_execMutex);
-#endif
-        debugMsg("ExecApplication:runExec", " Processing queue");
-        m_manager->processQueue();
+      debugMsg("ExecApplication:runExec", " Processing queue");
+      m_manager->processQueue();
+      do {
         do {
-          do {
-            debugMsg("ExecApplication:runExec", " Stepping exec");
-            m_exec->step(StateCache::queryTime());
-          } while (m_exec->needsStep());
-          debugMsg("ExecApplication:runExec", " Processing queue");
-        } while (m_manager->processQueue());
-
-        // Clean up
-        m_exec->deleteFinishedPlans();
-        allFinished = m_exec->allPlansFinished();
-        debugMsg("ExecApplication:runExec", " Queue empty and exec quiescent");
-      }
+          debugMsg("ExecApplication:runExec", " Stepping exec");
+          m_exec->step(StateCache::queryTime());
+        } while (m_exec->needsStep());
+        debugMsg("ExecApplication:runExec", " Processing queue");
+      } while (m_manager->processQueue());
+
+      // Clean up
+      m_exec->deleteFinishedPlans();
+      bool allFinished = m_exec->allPlansFinished();
+      debugMsg("ExecApplication:runExec", " Queue empty and exec quiescent");
 #ifdef PLEXIL_WITH_THREADS
       if (m_planLoaded && allFinished) {
         debugMsg("ExecApplication:runExec", " All plans finished ");
@@ -659,11 +663,11 @@ namespace PLEXIL
 #ifdef PLEXIL_WITH_THREADS
       // FIXME: Don't run if called from thread holding mutex - undefined behavior
       // How to fix? Call command handlers from outside the mutex hold.
-      if (!m_runExecInBkgndOnly && m_execMutex.try_lock()) {
+      std::unique_lock<std::mutex> guard(m_execMutex, std::defer_lock);
+      if (!m_runExecInBkgndOnly && guard.try_lock()) {
         // Exec is idle, so run it
         debugMsg("ExecApplication:notify", " exec was idle, stepping it");
-        this->runExec();
-        m_execMutex.unlock();
+        runExecLocked();
       }
       else {
         // Some thread currently owns the exec. Could be this thread.
-- 
2.43.0


From ee4ddd578237d321c0d0ab6832f4bedf2e09cbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:58 +0000
Subject: [PATCH 34/77] fix: run state shared between the threads of the
 application is atomic

---
 src/app-framework/ExecApplication.cc  | 12 +++++++-----
 src/app-framework/InterfaceManager.hh |  3 ++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index eb83983..b8fdb17 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -39,6 +39,8 @@
 
 #include "pugixml.hpp"
 
+#include <atomic>
+
 #ifdef PLEXIL_WITH_THREADS
 
 #include "ThreadSemaphore.hh"
@@ -221,7 +223,7 @@ namespace PLEXIL
     ThreadSemaphore m_allFinishedSem;
 
     //! Last mark seen
-    unsigned int m_lastMark;
+    std::atomic<unsigned int> m_lastMark;
 #endif 
 
     //! Interfacing database and dispatcher
@@ -237,7 +239,7 @@ namespace PLEXIL
     ExecListenerHubPtr m_listener;
 
     // Flag to determine whether exec should run conservatively
-    bool m_runExecInBkgndOnly;
+    std::atomic<bool> m_runExecInBkgndOnly;
 
     // True if application initialized, false otherwise.
     bool m_initialized;
@@ -246,13 +248,13 @@ namespace PLEXIL
     bool m_interfacesStarted;
 
     //! True if at least one plan has been loaded.
-    bool m_planLoaded;
+    std::atomic<bool> m_planLoaded;
 
     // Flag for halting the Exec thread
-    bool m_stop;
+    std::atomic<bool> m_stop;
 
     // Flag for suspend/resume
-    bool m_suspended;
+    std::atomic<bool> m_suspended;
 
   public:
 
diff --git a/src/app-framework/InterfaceManager.hh b/src/app-framework/InterfaceManager.hh
index 69877f9..197f77d 100644
--- a/src/app-framework/InterfaceManager.hh
+++ b/src/app-framework/InterfaceManager.hh
@@ -28,6 +28,7 @@
 
 #include "AdapterExecInterface.hh"
 
+#include <atomic>
 #include <memory>
 
 // Forward reference
@@ -211,7 +212,7 @@ namespace PLEXIL
     std::unique_ptr<InputQueue> m_inputQueue;
 
     //! Index of last queue mark enqueued.
-    unsigned int m_markCount;
+    std::atomic<unsigned int> m_markCount;
   };
 
 }
-- 
2.43.0


From 9dfc0271814c4c2cb9477f2c570334f4c9622b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:46 +0000
Subject: [PATCH 35/77] fix: message queues are only touched with their mutex
 held

---
 src/interfaces/IpcAdapter/MessageQueueMap.cc | 78 ++++++++++++--------
 src/interfaces/IpcAdapter/MessageQueueMap.hh |  3 +-
 src/interfaces/UdpAdapter/MessageQueueMap.cc | 78 ++++++++++++--------
 src/interfaces/UdpAdapter/MessageQueueMap.hh |  3 +-
 4 files changed, 98 insertions(+), 64 deletions(-)

diff --git a/src/interfaces/IpcAdapter/MessageQueueMap.cc b/src/interfaces/IpcAdapter/MessageQueueMap.cc
index 225b82a..32b7bfc 100644
--- a/src/interfaces/IpcAdapter/MessageQueueMap.cc
+++ b/src/interfaces/IpcAdapter/MessageQueueMap.cc
@@ -59,10 +59,16 @@ namespace PLEXIL
    */
   void MessageQueueMap::addRecipient(const std::string& message, Command *cmd) {
     debugMsg("MessageQueueMap:addRecipient", ' ' << this << " for \"" << message << "\"");
-    PairingQueue* que = ensureQueue(message);
-    que->m_recipientQueue.push(cmd);
-    updateQueue(que);
-    debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << que->m_name << '"');
+    bool paired = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* que = ensureQueue(message);
+      que->m_recipientQueue.push(cmd);
+      paired = updateQueue(que);
+    }
+    debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << message << '"');
+    if (paired)
+      m_execInterface.notifyOfExternalEvent();
   }
 
   /**
@@ -72,13 +78,19 @@ namespace PLEXIL
    */
   void MessageQueueMap::addMessage(const std::string& message) {
     debugMsg("MessageQueueMap:addMessage", ' ' << this << " entered for \"" << message << "\"");
-    PairingQueue* pq = ensureQueue(message);
-    if (!m_allowDuplicateMessages)
-      while (!pq->m_messageQueue.empty())
-        pq->m_messageQueue.pop();
-    pq->m_messageQueue.emplace(Value(message));
-    updateQueue(pq);
-    debugMsg("MessageQueueMap:addMessage", ' ' << this << " Message \"" << pq->m_name << "\" added");
+    bool paired = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* pq = ensureQueue(message);
+      if (!m_allowDuplicateMessages)
+        while (!pq->m_messageQueue.empty())
+          pq->m_messageQueue.pop();
+      pq->m_messageQueue.emplace(Value(message));
+      paired = updateQueue(pq);
+    }
+    debugMsg("MessageQueueMap:addMessage", ' ' << this << " Message \"" << message << "\" added");
+    if (paired)
+      m_execInterface.notifyOfExternalEvent();
   }
 
   /**
@@ -90,14 +102,20 @@ namespace PLEXIL
    */
   void MessageQueueMap::addMessage(const std::string& message, const Value& param) {
     debugMsg("MessageQueueMap:addMessage", ' ' << this << " entered for \"" << message << "\"");
-    PairingQueue* pq = ensureQueue(message);
-    if (!m_allowDuplicateMessages)
-      while (!pq->m_messageQueue.empty())
-        pq->m_messageQueue.pop();
-    pq->m_messageQueue.emplace(param);
-    updateQueue(pq);
+    bool paired = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* pq = ensureQueue(message);
+      if (!m_allowDuplicateMessages)
+        while (!pq->m_messageQueue.empty())
+          pq->m_messageQueue.pop();
+      pq->m_messageQueue.emplace(param);
+      paired = updateQueue(pq);
+    }
     debugMsg("MessageQueueMap:addMessage",
-             ' ' << this << " Message \"" << pq->m_name << "\" added, value = \"" << param << '"');
+             ' ' << this << " Message \"" << message << "\" added, value = \"" << param << '"');
+    if (paired)
+      m_execInterface.notifyOfExternalEvent();
   }
 
   /**
@@ -114,6 +132,7 @@ namespace PLEXIL
    */
   void MessageQueueMap::setAllowDuplicateMessages(bool flag) {
     debugMsg("MessageQueueMap:setAllowDuplicateMessages", ' ' << this << " to " << flag);
+    std::lock_guard<std::mutex> guard(m_mutex);
     m_allowDuplicateMessages = flag;
   }
 
@@ -128,26 +147,23 @@ namespace PLEXIL
   }
 
   //! @brief Get or construct the PairingQueue for this message.
+  //! @note The caller must hold m_mutex.
   MessageQueueMap::PairingQueue * MessageQueueMap::ensureQueue(const std::string& message)
   {
-    PairingQueue* result = nullptr;
-    {
-      std::lock_guard<std::mutex> guard(m_mutex);
-      QueueMap::iterator it = m_map.find(message);
-      if (m_map.end() == it) {
-        it = m_map.emplace(QueueMap::value_type(message,
-                                                std::unique_ptr<PairingQueue>(new PairingQueue(message)))).first;
-      }
-      return it->second.get();
+    QueueMap::iterator it = m_map.find(message);
+    if (m_map.end() == it) {
+      it = m_map.emplace(QueueMap::value_type(message,
+                                              std::unique_ptr<PairingQueue>(new PairingQueue(message)))).first;
     }
-    debugMsg("MessageQueueMap:ensureQueue", " created new queue with name \"" << message << '"');
-    return result;
+    return it->second.get();
   }
 
   /**
    * @brief Resolves matches between messages and recipients. Should be called whenever updates occur to a queue.
+   * @return True if anything was sent, false otherwise. The caller, who must hold m_mutex,
+   *         should notify the exec after releasing it.
    */
-  void MessageQueueMap::updateQueue(PairingQueue* queue)
+  bool MessageQueueMap::updateQueue(PairingQueue* queue)
   {
     debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name << " entered");
     MessageQueue& mq = queue->m_messageQueue;
@@ -164,8 +180,8 @@ namespace PLEXIL
     }
     if (valChanged) {
       debugMsg("MessageQueueMap:updateQueue", " Message \"" << queue->m_name << "\" paired and sent");
-      m_execInterface.notifyOfExternalEvent();
     }
+    return valChanged;
   }
 
 }
diff --git a/src/interfaces/IpcAdapter/MessageQueueMap.hh b/src/interfaces/IpcAdapter/MessageQueueMap.hh
index d38df4d..8858ffa 100644
--- a/src/interfaces/IpcAdapter/MessageQueueMap.hh
+++ b/src/interfaces/IpcAdapter/MessageQueueMap.hh
@@ -132,8 +132,9 @@ namespace PLEXIL
 
     /**
      * @brief Resolves matches between messages and recipients. Should be called whenever updates occur to a queue.
+     * @return True if anything was sent, false otherwise.
      */
-    void updateQueue(PairingQueue* queue);
+    bool updateQueue(PairingQueue* queue);
 
     //* @brief Map holding all message queues
     using QueueMap = std::map<std::string, std::unique_ptr<PairingQueue>>;
diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.cc b/src/interfaces/UdpAdapter/MessageQueueMap.cc
index 225b82a..32b7bfc 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.cc
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.cc
@@ -59,10 +59,16 @@ namespace PLEXIL
    */
   void MessageQueueMap::addRecipient(const std::string& message, Command *cmd) {
     debugMsg("MessageQueueMap:addRecipient", ' ' << this << " for \"" << message << "\"");
-    PairingQueue* que = ensureQueue(message);
-    que->m_recipientQueue.push(cmd);
-    updateQueue(que);
-    debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << que->m_name << '"');
+    bool paired = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* que = ensureQueue(message);
+      que->m_recipientQueue.push(cmd);
+      paired = updateQueue(que);
+    }
+    debugMsg("MessageQueueMap:addRecipient", ' ' << this << " added for message \"" << message << '"');
+    if (paired)
+      m_execInterface.notifyOfExternalEvent();
   }
 
   /**
@@ -72,13 +78,19 @@ namespace PLEXIL
    */
   void MessageQueueMap::addMessage(const std::string& message) {
     debugMsg("MessageQueueMap:addMessage", ' ' << this << " entered for \"" << message << "\"");
-    PairingQueue* pq = ensureQueue(message);
-    if (!m_allowDuplicateMessages)
-      while (!pq->m_messageQueue.empty())
-        pq->m_messageQueue.pop();
-    pq->m_messageQueue.emplace(Value(message));
-    updateQueue(pq);
-    debugMsg("MessageQueueMap:addMessage", ' ' << this << " Message \"" << pq->m_name << "\" added");
+    bool paired = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* pq = ensureQueue(message);
+      if (!m_allowDuplicateMessages)
+        while (!pq->m_messageQueue.empty())
+          pq->m_messageQueue.pop();
+      pq->m_messageQueue.emplace(Value(message));
+      paired = updateQueue(pq);
+    }
+    debugMsg("MessageQueueMap:addMessage", ' ' << this << " Message \"" << message << "\" added");
+    if (paired)
+      m_execInterface.notifyOfExternalEvent();
   }
 
   /**
@@ -90,14 +102,20 @@ namespace PLEXIL
    */
   void MessageQueueMap::addMessage(const std::string& message, const Value& param) {
     debugMsg("MessageQueueMap:addMessage", ' ' << this << " entered for \"" << message << "\"");
-    PairingQueue* pq = ensureQueue(message);
-    if (!m_allowDuplicateMessages)
-      while (!pq->m_messageQueue.empty())
-        pq->m_messageQueue.pop();
-    pq->m_messageQueue.emplace(param);
-    updateQueue(pq);
+    bool paired = false;
+    {
+      std::lock_guard<std::mutex> guard(m_mutex);
+      PairingQueue* pq = ensureQueue(message);
+      if (!m_allowDuplicateMessages)
+        while (!pq->m_messageQueue.empty())
+          pq->m_messageQueue.pop();
+      pq->m_messageQueue.emplace(param);
+      paired = updateQueue(pq);
+    }
     debugMsg("MessageQueueMap:addMessage",
-             ' ' << this << " Message \"" << pq->m_name << "\" added, value = \"" << param << '"');
+             ' ' << this << " Message \"" << message << "\" added, value = \"" << param << '"');
+    if (paired)
+      m_execInterface.notifyOfExternalEvent();
   }
 
   /**
@@ -114,6 +132,7 @@ namespace PLEXIL
    */
   void MessageQueueMap::setAllowDuplicateMessages(bool flag) {
     debugMsg("MessageQueueMap:setAllowDuplicateMessages", ' ' << this << " to " << flag);
+    std::lock_guard<std::mutex> guard(m_mutex);
     m_allowDuplicateMessages = flag;
   }
 
@@ -128,26 +147,23 @@ namespace PLEXIL
   }
 
   //! @brief Get or construct the PairingQueue for this message.
+  //! @note The caller must hold m_mutex.
   MessageQueueMap::PairingQueue * MessageQueueMap::ensureQueue(const std::string& message)
   {
-    PairingQueue* result = nullptr;
-    {
-      std::lock_guard<std::mutex> guard(m_mutex);
-      QueueMap::iterator it = m_map.find(message);
-      if (m_map.end() == it) {
-        it = m_map.emplace(QueueMap::value_type(message,
-                                                std::unique_ptr<PairingQueue>(new PairingQueue(message)))).first;
-      }
-      return it->second.get();
+    QueueMap::iterator it = m_map.find(message);
+    if (m_map.end() == it) {
+      it = m_map.emplace(QueueMap::value_type(message,
+                                              std::unique_ptr<PairingQueue>(new PairingQueue(message)))).first;
     }
-    debugMsg("MessageQueueMap:ensureQueue", " created new queue with name \"" << message << '"');
-    return result;
+    return it->second.get();
   }
 
   /**
    * @brief Resolves matches between messages and recipients. Should be called whenever updates occur to a queue.
+   * @return True if anything was sent, false otherwise. The caller, who must hold m_mutex,
+   *         should notify the exec after releasing it.
    */
-  void MessageQueueMap::updateQueue(PairingQueue* queue)
+  bool MessageQueueMap::updateQueue(PairingQueue* queue)
   {
     debugMsg("MessageQueueMap:updateQueue", ' ' << queue->m_name << " entered");
     MessageQueue& mq = queue->m_messageQueue;
@@ -164,8 +180,8 @@ namespace PLEXIL
     }
     if (valChanged) {
       debugMsg("MessageQueueMap:updateQueue", " Message \"" << queue->m_name << "\" paired and sent");
-      m_execInterface.notifyOfExternalEvent();
     }
+    return valChanged;
   }
 
 }
diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.hh b/src/interfaces/UdpAdapter/MessageQueueMap.hh
index d38df4d..8858ffa 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.hh
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.hh
@@ -132,8 +132,9 @@ namespace PLEXIL
 
     /**
      * @brief Resolves matches between messages and recipients. Should be called whenever updates occur to a queue.
+     * @return True if anything was sent, false otherwise.
      */
-    void updateQueue(PairingQueue* queue);
+    bool updateQueue(PairingQueue* queue);
 
     //* @brief Map holding all message queues
     using QueueMap = std::map<std::string, std::unique_ptr<PairingQueue>>;
-- 
2.43.0


From 53cd8bb53b9f8626876bc6a424f5232f851253b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:24 +0000
Subject: [PATCH 36/77] fix: the UDP event loop only touches its listeners with
 their mutex held

---
 src/interfaces/UdpAdapter/UdpEventLoop.cc | 26 +++++++++++++++--------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/interfaces/UdpAdapter/UdpEventLoop.cc b/src/interfaces/UdpAdapter/UdpEventLoop.cc
index d91d0ef..c335a30 100644
--- a/src/interfaces/UdpAdapter/UdpEventLoop.cc
+++ b/src/interfaces/UdpAdapter/UdpEventLoop.cc
@@ -262,18 +262,25 @@ namespace PLEXIL
         warn("UdpEventLoop: Event loop thread has crashed!");
       }
 
-      // Close socket
-      if (close(m_listeners[port]->socketFD)) {
-        warn("UdpEventLoop: close() failed for file descriptor "
-             << m_listeners[port]->socketFD << " (port " << port << "):\n "
-             << strerror(errno));
-      }
-
-      // Listener can now be deleted
       {
         std::lock_guard<std::mutex> guard(m_listenerMutex);
-        m_listeners.erase(port);
+        ListenerMap::iterator it = m_listeners.find(port);
+        if (it == m_listeners.end() || !it->second) {
+          warn("UdpEventLoop: no listener on port " << port);
+          return;
+        }
+
+        // Close socket
+        if (close(it->second->socketFD)) {
+          warn("UdpEventLoop: close() failed for file descriptor "
+               << it->second->socketFD << " (port " << port << "):\n "
+               << strerror(errno));
+        }
+
+        // Listener can now be deleted
+        m_listeners.erase(it);
       }
+
       debugMsg("UdpEventLoop:closeListener", " port " << port << " complete");
     }
 
@@ -329,6 +336,7 @@ namespace PLEXIL
       }
 
       // Close any remaining open sockets
+      std::lock_guard<std::mutex> guard(m_listenerMutex);
       for (ListenerMap::value_type const &pr : m_listeners) {
         if (close(pr.second->socketFD)) {
           warn("UdpEventLoop: close() failed for file descriptor "
-- 
2.43.0


From 6c58eef4ad287c66998d103523e5d945c1d28e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:33 +0000
Subject: [PATCH 37/77] fix: IpcAdapter releases its lookup mutex before
 calling the receiver, which may look up again

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 35 ++++++++++++++++---------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index e7d4e97..1b94fdf 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -599,7 +599,7 @@ namespace PLEXIL
         state.setParameter(i - 2, args[i]);
 
       {
-        std::lock_guard<std::mutex> guard(m_cmdMutex);
+        std::lock_guard<std::mutex> guard(m_lookupMutex);
         //Set value internally
         m_externalLookups[state] = args[1];
       }
@@ -705,17 +705,24 @@ namespace PLEXIL
     void lookupNow(const State &state, LookupReceiver *rcvr)
     {
       // Check whether this is a state we publish to the world
+      bool isExternal = false;
+      Value external;
       {
         std::lock_guard<std::mutex> g(m_lookupMutex);
         ExternalLookupMap::iterator it = m_externalLookups.find(state);
         if (it != m_externalLookups.end()) {
-          debugMsg("IpcAdapter:lookupNow",
-                   " returning external lookup " << state
-                   << " with internal value " << it->second);
-          rcvr->update(it->second);
-          return;
+          isExternal = true;
+          external = it->second;
         }
       }
+      // The receiver may cause further lookups, so call it without the mutex.
+      if (isExternal) {
+        debugMsg("IpcAdapter:lookupNow",
+                 " returning external lookup " << state
+                 << " with internal value " << external);
+        rcvr->update(external);
+        return;
+      }
 
       const std::string& stateName = state.name();
       const std::vector<Value>& params = state.parameters();
@@ -752,13 +759,17 @@ namespace PLEXIL
       assertTrueMsg(errnum == 0,
                     "lookupNow: semaphore wait failed, result = " << errnum);
 
-      std::lock_guard<std::mutex> g(m_lookupMutex);
-      rcvr->update(m_pendingLookupResult);
+      Value result;
+      {
+        std::lock_guard<std::mutex> g(m_lookupMutex);
+        result = m_pendingLookupResult;
 
-      // Clean up
-      m_pendingLookupSerial = 0;
-      m_pendingLookupState = State();
-      m_pendingLookupResult.setUnknown();
+        // Clean up
+        m_pendingLookupSerial = 0;
+        m_pendingLookupState = State();
+        m_pendingLookupResult.setUnknown();
+      }
+      rcvr->update(result);
     }
 
     /**
-- 
2.43.0


From 0e77f23793be7750346e11c80e1d3d808c83bcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:17 +0000
Subject: [PATCH 38/77] fix: IPC threads only see copies of published lookups,
 and an atomic stop flag

---
 src/interfaces/IpcAdapter/IpcAdapter.cc | 32 ++++++++++++++-----------
 src/interfaces/IpcUtils/IpcFacade.cc    |  4 ++--
 src/interfaces/IpcUtils/IpcFacade.hh    |  3 ++-
 3 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index 1b94fdf..cc6466e 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -1025,20 +1025,22 @@ namespace PLEXIL
       for (size_t i = 1 ; i <= nParms ; ++i)
         lookup.setParameter(i - 1, getPlexilMsgValue(msgs[i]));
 
-      Value const *resultPtr = nullptr;
-      ExternalLookupMap::const_iterator it;
+      bool found = false;
+      Value result;
       {
         std::lock_guard<std::mutex> guard(m_lookupMutex);      
-        it = m_externalLookups.find(lookup);
-        if (it != m_externalLookups.end())
-          resultPtr = &it->second;
+        ExternalLookupMap::const_iterator it = m_externalLookups.find(lookup);
+        if (it != m_externalLookups.end()) {
+          found = true;
+          result = it->second;
+        }
       }
 
-      if (resultPtr) {
+      if (found) {
         debugMsg("IpcAdapter:handleLookupNowMessages",
                  " Publishing value of external lookup \"" << lookup
-                 << "\" with internal value '" << *resultPtr << "'");
-        m_ipcFacade.publishReturnValues(msg->header.serial, msg->header.senderUID, *resultPtr);
+                 << "\" with internal value '" << result << "'");
+        m_ipcFacade.publishReturnValues(msg->header.serial, msg->header.senderUID, result);
         return;
       }
 
@@ -1047,15 +1049,17 @@ namespace PLEXIL
         lookup.setParameterCount(0);
         {
           std::lock_guard<std::mutex> guard(m_lookupMutex);      
-          it = m_externalLookups.find(lookup);
-          if (it != m_externalLookups.end())
-            resultPtr = &it->second;
+          ExternalLookupMap::const_iterator it = m_externalLookups.find(lookup);
+          if (it != m_externalLookups.end()) {
+            found = true;
+            result = it->second;
+          }
         }
-        if (resultPtr) {
+        if (found) {
           debugMsg("IpcAdapter:handleLookupNowMessages",
                    " Publishing default value of external lookup \"" << name
-                   << "\" = '" << (*it).second << "'");
-          m_ipcFacade.publishReturnValues(msg->header.serial, msg->header.senderUID, *resultPtr);
+                   << "\" = '" << result << "'");
+          m_ipcFacade.publishReturnValues(msg->header.serial, msg->header.senderUID, result);
           return;
         } 
       }
diff --git a/src/interfaces/IpcUtils/IpcFacade.cc b/src/interfaces/IpcUtils/IpcFacade.cc
index fe81b57..bbc376d 100644
--- a/src/interfaces/IpcUtils/IpcFacade.cc
+++ b/src/interfaces/IpcUtils/IpcFacade.cc
@@ -43,7 +43,7 @@ namespace PLEXIL
 {
   // forward reference
   static bool definePlexilIPCMessageTypes(std::string uid);
-  static void myIpcDispatch(bool *flag_ptr);
+  static void myIpcDispatch(std::atomic<bool> *flag_ptr);
   static void ipcMessageHandler(MSG_INSTANCE /* rawMsg */,
                                 void * unmarshalledMsg,
                                 void * this_as_void_ptr);
@@ -1115,7 +1115,7 @@ namespace PLEXIL
 
   //! IPC listener thread top level.
   //! Exits when the stop flag is set.
-  void myIpcDispatch(bool *flag_ptr)
+  void myIpcDispatch(std::atomic<bool> *flag_ptr)
   {
     assertTrue_2(flag_ptr,
                  "IpcFacade dispatch thread: pointer to stop flag is null!");
diff --git a/src/interfaces/IpcUtils/IpcFacade.hh b/src/interfaces/IpcUtils/IpcFacade.hh
index 808f8f7..96a8e1e 100644
--- a/src/interfaces/IpcUtils/IpcFacade.hh
+++ b/src/interfaces/IpcUtils/IpcFacade.hh
@@ -32,6 +32,7 @@
 
 #include "Value.hh"
 
+#include <atomic>
 #include <limits>
 #include <list>
 #include <map>
@@ -379,7 +380,7 @@ namespace PLEXIL {
     bool m_isStarted;
 
     //* @brief True if the dispatch thread should stop.
-    bool m_stopDispatchThread;
+    std::atomic<bool> m_stopDispatchThread;
   };
 
   /**
-- 
2.43.0


From 46130e5a9b3fcd190edd1eb32e70fff97d228a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:22 +0000
Subject: [PATCH 39/77] fix: the agenda hands out a copy of its next response
 time, not a reference to unlocked data

---
 src/apps/StandAloneSimulator/Agenda.cc    | 4 ++--
 src/apps/StandAloneSimulator/Agenda.hh    | 2 +-
 src/apps/StandAloneSimulator/Simulator.cc | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/apps/StandAloneSimulator/Agenda.cc b/src/apps/StandAloneSimulator/Agenda.cc
index 599b497..98fae86 100644
--- a/src/apps/StandAloneSimulator/Agenda.cc
+++ b/src/apps/StandAloneSimulator/Agenda.cc
@@ -91,9 +91,9 @@ public:
   }
     
   // Only valid when not empty.
-  virtual timeval const &nextResponseTime() const
+  virtual timeval nextResponseTime() const
   {
-    static struct timeval sl_zero = {0, 0};
+    static struct timeval const sl_zero = {0, 0};
     std::lock_guard<std::mutex> g(*m_mutex);
     if (m_queue.empty())
       return sl_zero;
diff --git a/src/apps/StandAloneSimulator/Agenda.hh b/src/apps/StandAloneSimulator/Agenda.hh
index fb49695..aa0d073 100644
--- a/src/apps/StandAloneSimulator/Agenda.hh
+++ b/src/apps/StandAloneSimulator/Agenda.hh
@@ -48,7 +48,7 @@ public:
   virtual size_t size() const = 0;
   virtual bool empty() const = 0;
   virtual void setSimulatorStartTime(timeval const &tym) = 0;
-  virtual timeval const &nextResponseTime() const = 0;
+  virtual timeval nextResponseTime() const = 0;
   virtual ResponseMessage *popResponse() = 0;
   virtual void scheduleResponse(timeval tym, ResponseMessage *msg) = 0;
 
diff --git a/src/apps/StandAloneSimulator/Simulator.cc b/src/apps/StandAloneSimulator/Simulator.cc
index 97a93d2..f1be70a 100644
--- a/src/apps/StandAloneSimulator/Simulator.cc
+++ b/src/apps/StandAloneSimulator/Simulator.cc
@@ -313,7 +313,7 @@ private:
     // Send every message with a scheduled time earlier than now.
     //
     while (!m_Agenda->empty()) {
-      timeval const &responseTime = m_Agenda->nextResponseTime();
+      timeval const responseTime = m_Agenda->nextResponseTime();
       debugMsg("Simulator:handleWakeUp", " next response at "
                << responseTime.tv_sec << '.' << responseTime.tv_usec);
       if (responseTime > now)
-- 
2.43.0


From 8a8c952fef221241e99b318d4bcfb94e0c46fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:03 +0000
Subject: [PATCH 40/77] fix: lookups that come and go during a notification no
 longer upset the walk over them

---
 src/intfc/StateCacheEntry.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/intfc/StateCacheEntry.cc b/src/intfc/StateCacheEntry.cc
index b94e5ba..41c1b4b 100644
--- a/src/intfc/StateCacheEntry.cc
+++ b/src/intfc/StateCacheEntry.cc
@@ -379,8 +379,11 @@ namespace PLEXIL
     //! \brief Notify all subscribed Lookups of a change in value.
     void notify() const
     {
-      for (Lookup *lkup : m_lookups)
-        lkup->valueChanged();
+      // Being told of a change may cause lookups to enter or leave m_lookups
+      std::vector<Lookup *> const lookups(m_lookups);
+      for (Lookup *lkup : lookups)
+        if (std::find(m_lookups.begin(), m_lookups.end(), lkup) != m_lookups.end())
+          lkup->valueChanged();
     }
 
     //! \brief Ensure the state cache entry has a CachedValue object
-- 
2.43.0


From 4a07ae9fd5d57e0b7169dba15f7222043558993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:03 +0000
Subject: [PATCH 41/77] fix: a deactivated lookup no longer holds a cache entry
 that may be deleted

---
 src/intfc/Lookup.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 31a0504..93e2431 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -396,9 +396,8 @@ namespace PLEXIL
       if (m_stateKnown)
         unregister();
 
-      // Preserve cache entry if state is known constant
-      if (!m_stateIsConstant)
-        m_entry = nullptr;
+      // Once unregistered, the cache is free to delete the entry
+      m_entry = nullptr;
     }
 
     //
-- 
2.43.0


From 34b587bd2fa29a382cdaaab5e8c17f75e83b4b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:03 +0000
Subject: [PATCH 42/77] fix: releasing a message handle forgets all of the
 message, whoever still looks up its parameter count

---
 src/intfc/StateCache.cc | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/intfc/StateCache.cc b/src/intfc/StateCache.cc
index d0c8780..ef903eb 100644
--- a/src/intfc/StateCache.cc
+++ b/src/intfc/StateCache.cc
@@ -182,19 +182,13 @@ namespace PLEXIL
       if (iter == m_map.end())
         return; // not there, therefore already deleted or never existed
 
-      Integer count;
-      if (!iter->second->cachedValue()->getValue(count)) {
-        // warn of internal error (NYI)
-        return;
-      }
-      
-      if (iter->second->hasRegisteredLookups()) {
-        // BIG OOPS - can't delete these w/o leaving dangling pointers
-        // warn (NYI)
-        return;
-      }
+      Integer count = 0;
+      CachedValue const *countValue = iter->second->cachedValue();
+      if (countValue && !countValue->getValue(count))
+        count = 0; // warn of internal error (NYI)
 
-      m_map.erase(iter);
+      // Entries with lookups still registered are left alone
+      deleteStateCacheEntry(State("MessageParameterCount", handleValue));
       for (Integer i = 0; i < count; ++i) {
         deleteStateCacheEntry(State("MessageParameter",
                                     handleValue,
-- 
2.43.0


From 712f16c9387c390659c1ffb26b70118533993ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:33 +0000
Subject: [PATCH 43/77] fix: a state whose last change lookup goes away asks no
 more thresholds of the outside

---
 src/intfc/StateCacheEntry.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/intfc/StateCacheEntry.cc b/src/intfc/StateCacheEntry.cc
index 41c1b4b..eb6f3a0 100644
--- a/src/intfc/StateCacheEntry.cc
+++ b/src/intfc/StateCacheEntry.cc
@@ -133,6 +133,9 @@ namespace PLEXIL
         if (m_lowThreshold || m_highThreshold) {
           m_lowThreshold.reset();
           m_highThreshold.reset();
+          // No dispatcher when lookups are being deleted at exit
+          if (g_dispatcher)
+            g_dispatcher->clearThresholds(state);
         }
       }
       else if (m_lowThreshold || m_highThreshold) {
@@ -461,13 +464,15 @@ namespace PLEXIL
         }
         m_lowThreshold->update(timestamp, ilo);
         m_highThreshold->update(timestamp, ihi);
-        g_dispatcher->setThresholds(state, ihi, ilo);
+        if (g_dispatcher)
+          g_dispatcher->setThresholds(state, ihi, ilo);
       }
       else if (m_lowThreshold) {
         // Had thresholds, but they're no longer in effect
         m_lowThreshold->setUnknown(timestamp);
         m_highThreshold->setUnknown(timestamp);
-        g_dispatcher->clearThresholds(state);
+        if (g_dispatcher)
+          g_dispatcher->clearThresholds(state);
       }
       return hasThresholds;
     }
@@ -507,13 +512,15 @@ namespace PLEXIL
         }
         m_lowThreshold->update(timestamp, rlo);
         m_highThreshold->update(timestamp, rhi);
-        g_dispatcher->setThresholds(state, rhi, rlo);
+        if (g_dispatcher)
+          g_dispatcher->setThresholds(state, rhi, rlo);
       }
       else if (m_lowThreshold) {
         // Had thresholds, but they're no longer in effect
         m_lowThreshold->setUnknown(timestamp);
         m_highThreshold->setUnknown(timestamp);
-        g_dispatcher->clearThresholds(state);
+        if (g_dispatcher)
+          g_dispatcher->clearThresholds(state);
       }
       return hasThresholds;
     }
-- 
2.43.0


From efc2ccf790d3db355f0f0b512d47697e28b9f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:33 +0000
Subject: [PATCH 44/77] fix: change lookups of an integer state notice a value
 becoming known, and set no thresholds while it is unknown

---
 src/intfc/Lookup.cc | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 93e2431..10c81c7 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -543,18 +543,21 @@ namespace PLEXIL
     //! \brief Get the current thresholds.
     //! \param high Place to store the current high threshold.
     //! \param low Place to store the current low threshold.
+    //! \return true if there are thresholds, false if the value was unknown.
     //! \note Default methods report an error.
     ///@{
-    virtual void getThresholds(Integer & /* high */, Integer & /* low */) const
+    virtual bool getThresholds(Integer & /* high */, Integer & /* low */) const
     {
       errorMsg("LookupOnChange:getThresholds: "
                "attempt to get Integer thresholds from non-Integer Lookup");
+      return false;
     }
 
-    virtual void getThresholds(Real & /* high */, Real & /* low */) const
+    virtual bool getThresholds(Real & /* high */, Real & /* low */) const
     {
       errorMsg("LookupOnChange:getThresholds: "
                "attempt to get Real thresholds from non-Real Lookup");
+      return false;
     }
     ///@}
 
@@ -637,10 +640,13 @@ namespace PLEXIL
       }
     }
 
-    virtual void getThresholds(NUM &high, NUM &low) const override
+    virtual bool getThresholds(NUM &high, NUM &low) const override
     {
+      if (!m_wasKnown)
+        return false;
       high = m_high;
       low = m_low;
+      return true;
     }
 
   private:
@@ -659,7 +665,7 @@ namespace PLEXIL
   {
     Integer currentValue;
     if (value->getValue(currentValue))
-      return (currentValue >= m_high) || (currentValue <= m_low);
+      return !m_wasKnown || (currentValue >= m_high) || (currentValue <= m_low);
     // Current value is unknown
     return m_wasKnown; 
   }
@@ -824,10 +830,14 @@ namespace PLEXIL
       }
       assertTrueMsg(valueType() == INTEGER_TYPE,
                     "getThresholds: calling Integer method on non-Integer lookup");
+      if (!m_thresholds->getThresholds(high, low)) {
+        debugMsg("LookupOnChange:getThresholds",
+                 ' ' << m_cachedState << ": value was unknown, returning false");
+        return false;
+      }
       debugMsg("LookupOnChange:getThresholds",
                ' ' << m_cachedState << ": thresholds are ["
                << low << ", " << high << "], returning true");
-      m_thresholds->getThresholds(high, low);
       return true;
     }
 
@@ -845,7 +855,11 @@ namespace PLEXIL
       }
       assertTrueMsg(valueType() == REAL_TYPE,
                     "getThresholds: calling Real method on non-Real lookup");
-      m_thresholds->getThresholds(high, low);
+      if (!m_thresholds->getThresholds(high, low)) {
+        debugMsg("LookupOnChange:getThresholds",
+                 ' ' << m_cachedState << ": value was unknown, returning false");
+        return false;
+      }
       debugMsg("LookupOnChange:getThresholds",
                ' ' << m_cachedState << ": thresholds are ["
                << low << ", " << high << "], returning true");
-- 
2.43.0


From fae4822d4ec8ddce78491d62dbf41ff0047cdb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:33 +0000
Subject: [PATCH 45/77] fix: a change lookup whose tolerance changes updates
 the thresholds, and its value when the tolerance becomes unknown

---
 src/intfc/Lookup.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 10c81c7..06a8c37 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1024,6 +1024,7 @@ namespace PLEXIL
                      ' ' << this->m_cachedState
                      << " tolerance changed, updating thresholds");
             m_thresholds->setThresholds(m_cachedValue.get(), m_tolerance);
+            m_entry->updateThresholds(m_cachedState);
           }
 
           // Has the (possibly updated) threshold been exceeded?
@@ -1048,13 +1049,13 @@ namespace PLEXIL
                    ' ' << this->m_cachedState
                    << " thresholds set but tolerance is now unknown; deleting thresholds");
           m_thresholds.reset();
-          // *** Do we need to delete m_cachedValue here??? ***
-          // Is case of tolerance becoming unknown independent of state/value
-          // worth optimizing?
+          // The cache entry's value may have moved on within the tolerance
+          if (!(*m_cachedValue == *m_entry->cachedValue()))
+            valueChanged = true;
           m_cachedValue.reset();
           // Tell the cache entry about it
           m_entry->updateThresholds(m_cachedState);
-          return valueChanged; // ??
+          return valueChanged;
         }
       }
       else if (this->m_entry && this->m_entry->isKnown() && m_tolerance->isKnown()) {
-- 
2.43.0


From 2f243c837e28e7397258373dbe7d06791f26f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:21 +0000
Subject: [PATCH 46/77] fix: a command denied by its adapter returns the
 resources it was granted

---
 src/intfc/CommandImpl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intfc/CommandImpl.cc b/src/intfc/CommandImpl.cc
index 6ca5d64..f94ddcd 100644
--- a/src/intfc/CommandImpl.cc
+++ b/src/intfc/CommandImpl.cc
@@ -495,7 +495,7 @@ namespace PLEXIL
     check_error_1(m_active);
     m_active = false;
 
-    if (m_commandHandle != COMMAND_DENIED && arbiter) // handle unit tests
+    if (arbiter) // handle unit tests
       arbiter->releaseResourcesForCommand(this);
 
     m_abortComplete.deactivate();
-- 
2.43.0


From 6f3e613ce2c26037421d900cbdc42374d04e0e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:21 +0000
Subject: [PATCH 47/77] fix: rounding errors left by released resources no
 longer deny all later requests

---
 src/intfc/ResourceArbiterInterface.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/intfc/ResourceArbiterInterface.cc b/src/intfc/ResourceArbiterInterface.cc
index 503812a..e7e704c 100644
--- a/src/intfc/ResourceArbiterInterface.cc
+++ b/src/intfc/ResourceArbiterInterface.cc
@@ -36,6 +36,7 @@
 #include <set>
 
 #include <cctype>
+#include <cmath>   // std::fabs()
 #include <cstdlib> // strtod()
 #include <cstring> // strspn(), strcspn() et al
 
@@ -544,9 +545,12 @@ namespace PLEXIL
 
       for (ChildResourceNode const &res : resListIter->second) {
         if (res.release) {
-          m_allocated[res.name] -= res.weight;
-          if (m_allocated[res.name] == 0.0)
+          double rest = m_allocated[res.name] - res.weight;
+          // Don't let a rounding error count against the limits
+          if (std::fabs(rest) <= 1e-12 * maxConsumableResourceValue(res.name))
             m_allocated.erase(res.name);
+          else
+            m_allocated[res.name] = rest;
         }
       }
       m_cmdResMap.erase(resListIter);
-- 
2.43.0


From 82c8ab7de6181d0cc9c1e1133f11b938e05c840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:21 +0000
Subject: [PATCH 48/77] fix: a resource requested explicitly overrides what a
 request for its parent implies, whatever their order

---
 src/intfc/ResourceArbiterInterface.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/intfc/ResourceArbiterInterface.cc b/src/intfc/ResourceArbiterInterface.cc
index e7e704c..7fb235a 100644
--- a/src/intfc/ResourceArbiterInterface.cc
+++ b/src/intfc/ResourceArbiterInterface.cc
@@ -309,7 +309,7 @@ namespace PLEXIL
     for (ChildResourceNode const &fres : flattenedRes) {
       if (resourcesNeeded.find(fres) == resourcesNeeded.end())
         resourcesNeeded.insert(fres);
-      else if (fres.name == requestName)
+      else if (fres.name == requestName) {
         // If current is explicitly specified in 
         // the command then the value can be overwritten. The
         // child resource scales will not be overwritten however.
@@ -317,7 +317,9 @@ namespace PLEXIL
         // of the flattened vector. This means that if a resource value
         // has to be overwritten it has to be explicitly scpecified in the 
         // plan
+        resourcesNeeded.erase(fres);
         resourcesNeeded.insert(fres);
+      }
     }
   }
 
-- 
2.43.0


From 0de77053bc0469d40cc474f64be1ffc51d0e876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:25 +0000
Subject: [PATCH 49/77] fix: a receiver which was aborted or refused no longer
 takes the next message

---
 src/interfaces/IpcAdapter/IpcAdapter.cc      |  2 ++
 src/interfaces/IpcAdapter/MessageQueueMap.cc | 20 ++++++++++++++++++++
 src/interfaces/IpcAdapter/MessageQueueMap.hh |  7 +++++++
 src/interfaces/UdpAdapter/MessageQueueMap.cc | 20 ++++++++++++++++++++
 src/interfaces/UdpAdapter/MessageQueueMap.hh |  7 +++++++
 src/interfaces/UdpAdapter/UdpAdapter.cc      | 13 ++++++++++++-
 6 files changed, 68 insertions(+), 1 deletion(-)

diff --git a/src/interfaces/IpcAdapter/IpcAdapter.cc b/src/interfaces/IpcAdapter/IpcAdapter.cc
index cc6466e..7b060a6 100644
--- a/src/interfaces/IpcAdapter/IpcAdapter.cc
+++ b/src/interfaces/IpcAdapter/IpcAdapter.cc
@@ -668,6 +668,8 @@ namespace PLEXIL
     //! Acknowledge an abortCommand() call
     void acknowledgeCommandAbort(Command *command, AdapterExecInterface *intf)
     {
+      // A command waiting for a message no longer wants it
+      m_messageQueues.removeRecipient(command);
       intf->handleCommandAbortAck(command, true);
       intf->notifyOfExternalEvent();
     }
diff --git a/src/interfaces/IpcAdapter/MessageQueueMap.cc b/src/interfaces/IpcAdapter/MessageQueueMap.cc
index 32b7bfc..60b5470 100644
--- a/src/interfaces/IpcAdapter/MessageQueueMap.cc
+++ b/src/interfaces/IpcAdapter/MessageQueueMap.cc
@@ -71,6 +71,26 @@ namespace PLEXIL
       m_execInterface.notifyOfExternalEvent();
   }
 
+  /**
+   * @brief Removes the given recipient from every queue in which it is waiting.
+   * @param cmd The command instance
+   * @note Always executed from the Exec thread.
+   */
+  void MessageQueueMap::removeRecipient(Command *cmd) {
+    debugMsg("MessageQueueMap:removeRecipient", ' ' << this);
+    std::lock_guard<std::mutex> guard(m_mutex);
+    for (QueueMap::value_type const &entry : m_map) {
+      RecipientQueue &rq = entry.second->m_recipientQueue;
+      // Rotate the queue once, leaving out the command; the order is preserved
+      for (size_t n = rq.size(); n > 0; --n) {
+        Command *front = rq.front();
+        rq.pop();
+        if (front != cmd)
+          rq.push(front);
+      }
+    }
+  }
+
   /**
    * @brief Adds the given message to its queue. If there is a recipient waiting for the message, it is sent immediately.
    * @param message The message string to be added
diff --git a/src/interfaces/IpcAdapter/MessageQueueMap.hh b/src/interfaces/IpcAdapter/MessageQueueMap.hh
index 8858ffa..e037c6d 100644
--- a/src/interfaces/IpcAdapter/MessageQueueMap.hh
+++ b/src/interfaces/IpcAdapter/MessageQueueMap.hh
@@ -61,6 +61,13 @@ namespace PLEXIL
      */
     void addRecipient(const std::string &message, Command *cmd);
 
+    /**
+     * @brief Removes the given recipient from every queue in which it is waiting.
+     * Messages which arrive later go to the recipients behind it.
+     * @param cmd Pointer to the command which no longer wants a message.
+     */
+    void removeRecipient(Command *cmd);
+
     /**
      * @brief Adds the given message to its queue. If there is a recipient
      * waiting for the message, it is sent immediately.
diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.cc b/src/interfaces/UdpAdapter/MessageQueueMap.cc
index 32b7bfc..60b5470 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.cc
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.cc
@@ -71,6 +71,26 @@ namespace PLEXIL
       m_execInterface.notifyOfExternalEvent();
   }
 
+  /**
+   * @brief Removes the given recipient from every queue in which it is waiting.
+   * @param cmd The command instance
+   * @note Always executed from the Exec thread.
+   */
+  void MessageQueueMap::removeRecipient(Command *cmd) {
+    debugMsg("MessageQueueMap:removeRecipient", ' ' << this);
+    std::lock_guard<std::mutex> guard(m_mutex);
+    for (QueueMap::value_type const &entry : m_map) {
+      RecipientQueue &rq = entry.second->m_recipientQueue;
+      // Rotate the queue once, leaving out the command; the order is preserved
+      for (size_t n = rq.size(); n > 0; --n) {
+        Command *front = rq.front();
+        rq.pop();
+        if (front != cmd)
+          rq.push(front);
+      }
+    }
+  }
+
   /**
    * @brief Adds the given message to its queue. If there is a recipient waiting for the message, it is sent immediately.
    * @param message The message string to be added
diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.hh b/src/interfaces/UdpAdapter/MessageQueueMap.hh
index 8858ffa..e037c6d 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.hh
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.hh
@@ -61,6 +61,13 @@ namespace PLEXIL
      */
     void addRecipient(const std::string &message, Command *cmd);
 
+    /**
+     * @brief Removes the given recipient from every queue in which it is waiting.
+     * Messages which arrive later go to the recipients behind it.
+     * @param cmd Pointer to the command which no longer wants a message.
+     */
+    void removeRecipient(Command *cmd);
+
     /**
      * @brief Adds the given message to its queue. If there is a recipient
      * waiting for the message, it is sent immediately.
diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index 3818609..ac39763 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -182,7 +182,9 @@ namespace PLEXIL
                                              { this->abortReceiveCommandCommand(cmd, intf); });
       config->registerCommandHandlerFunction(GET_PARAMETER_COMMAND,
                                              [this](Command *cmd, AdapterExecInterface *intf) -> void
-                                             { this->executeGetParameterCommand(cmd, intf); });
+                                             { this->executeGetParameterCommand(cmd, intf); },
+                                             [this](Command *cmd, AdapterExecInterface *intf) -> void
+                                             { this->abortGetParameterCommand(cmd, intf); });
       config->registerCommandHandlerFunction(SEND_RETURN_VALUE_COMMAND,
                                              [this](Command *cmd, AdapterExecInterface *intf) -> void
                                              { this->executeSendReturnValueCommand(cmd, intf); });
@@ -328,6 +330,7 @@ namespace PLEXIL
       int status = startUdpMessageReceiver(msgName, cmd);
       if (status) {
         warn("executeReceiveCommandCommand: startUdpMessageReceiver failed");
+        m_messageQueues.removeRecipient(cmd);
         intf->handleCommandAck(cmd, COMMAND_FAILED);
       }
       else {
@@ -567,6 +570,7 @@ namespace PLEXIL
         return;
       }
       m_eventLoop->closeListener(msg.local_port);
+      m_messageQueues.removeRecipient(cmd);
 
       debugMsg("UdpAdapter:abortCommand", " ReceiveCommand(\"" << msgName << "\") complete");
 
@@ -574,6 +578,13 @@ namespace PLEXIL
       abortCommand(cmd, intf, true);
     }
 
+    // Abort a GetParameter command
+    void abortGetParameterCommand(Command *cmd, AdapterExecInterface *intf)
+    {
+      m_messageQueues.removeRecipient(cmd);
+      abortCommand(cmd, intf, true);
+    }
+
     //
     // Configuration parsing
     //
-- 
2.43.0


From 05760c0dc8110296efab111d3fb0a0ac5706420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:25 +0000
Subject: [PATCH 50/77] fix: MessageQueueMap drops queued duplicates when they
 become disallowed, as documented

---
 src/interfaces/IpcAdapter/MessageQueueMap.cc | 6 ++++++
 src/interfaces/UdpAdapter/MessageQueueMap.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/interfaces/IpcAdapter/MessageQueueMap.cc b/src/interfaces/IpcAdapter/MessageQueueMap.cc
index 60b5470..480dc4d 100644
--- a/src/interfaces/IpcAdapter/MessageQueueMap.cc
+++ b/src/interfaces/IpcAdapter/MessageQueueMap.cc
@@ -154,6 +154,12 @@ namespace PLEXIL
     debugMsg("MessageQueueMap:setAllowDuplicateMessages", ' ' << this << " to " << flag);
     std::lock_guard<std::mutex> guard(m_mutex);
     m_allowDuplicateMessages = flag;
+    if (!flag) {
+      // Keep only the newest of the messages already queued
+      for (QueueMap::value_type const &entry : m_map)
+        while (entry.second->m_messageQueue.size() > 1)
+          entry.second->m_messageQueue.pop();
+    }
   }
 
   //! @brief Get the PairingQueue for this message, if it exists.
diff --git a/src/interfaces/UdpAdapter/MessageQueueMap.cc b/src/interfaces/UdpAdapter/MessageQueueMap.cc
index 60b5470..480dc4d 100644
--- a/src/interfaces/UdpAdapter/MessageQueueMap.cc
+++ b/src/interfaces/UdpAdapter/MessageQueueMap.cc
@@ -154,6 +154,12 @@ namespace PLEXIL
     debugMsg("MessageQueueMap:setAllowDuplicateMessages", ' ' << this << " to " << flag);
     std::lock_guard<std::mutex> guard(m_mutex);
     m_allowDuplicateMessages = flag;
+    if (!flag) {
+      // Keep only the newest of the messages already queued
+      for (QueueMap::value_type const &entry : m_map)
+        while (entry.second->m_messageQueue.size() > 1)
+          entry.second->m_messageQueue.pop();
+    }
   }
 
   //! @brief Get the PairingQueue for this message, if it exists.
-- 
2.43.0


From 8b694129e0ae246ae700d1b8dbd59f5b3814e187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:25 +0000
Subject: [PATCH 51/77] fix: message command handlers stop at the first bad
 parameter

---
 src/app-framework/MessageAdapter.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/app-framework/MessageAdapter.cc b/src/app-framework/MessageAdapter.cc
index a986f28..436322a 100644
--- a/src/app-framework/MessageAdapter.cc
+++ b/src/app-framework/MessageAdapter.cc
@@ -201,17 +201,20 @@ namespace PLEXIL
           warn("ReleaseMessageHandle command requires exactly one argument");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(0) != STRING_TYPE) {
           // report arg-type error
           warn("ReleaseMessageHandle command: first argument must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(0).isKnown()) {
           // do nothing, but report success
           intf->handleCommandAck(cmd, COMMAND_SUCCESS);
           intf->notifyOfExternalEvent();
+          return;
         }
 
         // All good? Hand it off for implementation.
@@ -229,18 +232,21 @@ namespace PLEXIL
           warn("PublishMessage command requires exactly one argument");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(0) != STRING_TYPE) {
           // report arg-type error
           warn("PublishMessage command: first argument must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(0).isKnown()) {
           // report arg-unknown error
           warn("PublishMessage command: first argument, message, is unknown");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
 
         // Then hand it off for implementation
@@ -251,37 +257,41 @@ namespace PLEXIL
       [this] (Command *cmd, AdapterExecInterface *intf) -> void
       {
         // Check that there are at least two parameters and that they are strings
-        // Check that there is at least one parameter and that it is a string
         State const &command = cmd->getCommand();
-        if (command.parameterCount() < 1) {
+        if (command.parameterCount() < 2) {
           // report arg-count error
           warn("SendMessage command requires at least two arguments");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(0) != STRING_TYPE) {
           // report arg-type error
           warn("SendMessage command: first argument, recipient, must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(0).isKnown()) {
           // report arg-unknown error
           warn("SendMessage command: first argument, recipient, is unknown");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (command.parameterType(1) != STRING_TYPE) {
           // report arg-type error
           warn("SendMessage command: second argument, message, must be a String");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
         if (!command.parameter(1).isKnown()) {
           // report arg-unknown error
           warn("SendMessage command: second argument, message, is unknown");
           intf->handleCommandAck(cmd, COMMAND_FAILED);
           intf->notifyOfExternalEvent();
+          return;
         }
 
         // Then hand it off for implementation
-- 
2.43.0


From ac45c805dc9b7df7851b025b1ee36548857a73bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:25 +0000
Subject: [PATCH 52/77] fix: MessageAdapter gives each accepted message a
 handle of its own

---
 src/app-framework/MessageAdapter.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/app-framework/MessageAdapter.cc b/src/app-framework/MessageAdapter.cc
index 436322a..0903d75 100644
--- a/src/app-framework/MessageAdapter.cc
+++ b/src/app-framework/MessageAdapter.cc
@@ -128,8 +128,7 @@ namespace PLEXIL
       }
       else {
         // Generate a handle
-        std::string handle;
-        // TODO - generate UID?
+        std::string const handle = "MessageHandle" + std::to_string(m_nextHandle++);
         intf->notifyMessageAccepted(m_queue.front(), handle);
         m_queue.pop();
         intf->handleCommandReturn(cmd, Value(handle));
@@ -323,6 +322,9 @@ namespace PLEXIL
     using MessageQueue = std::queue<Message *>;
 
     MessageQueue m_queue;
+
+    //! Serial number of the next message handle.
+    unsigned long m_nextHandle = 0;
   }; // class MessageAdapterImpl
 
 } // namespace PLEXIL
-- 
2.43.0


From bff3f7e8b5f96b792c8aee6b4a94370e9071ff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:18 +0000
Subject: [PATCH 53/77] fix: a timebase which was stopped can be started again

---
 src/app-framework/ItimerTimebase.cc | 1 +
 src/app-framework/PosixTimebase.cc  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index a73eb1f..642667b 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -148,6 +148,7 @@ namespace PLEXIL
              << errno << ":\n " << strerror(errno));
       }
 
+      m_started = false;
       debugMsg("ItimerTimebase:stop", " complete");
     }
 
diff --git a/src/app-framework/PosixTimebase.cc b/src/app-framework/PosixTimebase.cc
index 833bbac..8ac8edd 100644
--- a/src/app-framework/PosixTimebase.cc
+++ b/src/app-framework/PosixTimebase.cc
@@ -157,6 +157,7 @@ namespace PLEXIL
         warn("PosixTimebase:stop: timer_delete failed, errno = "
              << errno << ":\n " << strerror(errno));
       }
+      m_started = false;
       debugMsg("PosixTimebase:stop", " complete");
     }
 
-- 
2.43.0


From d48e163c2b23f000e2ffbd31f8bbe3ca5a6a78c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:30 +0000
Subject: [PATCH 54/77] fix: a timebase whose start failed does not count as
 started

---
 src/app-framework/ItimerTimebase.cc |  2 +-
 src/app-framework/PosixTimebase.cc  | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index 642667b..e60f71f 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -83,7 +83,6 @@ namespace PLEXIL
         return;
       }
 
-      m_started = true;
       debugMsg("ItimerTimebase:start", " entered");
 
       // Set up timer signal handling
@@ -120,6 +119,7 @@ namespace PLEXIL
       else {
         debugMsg("ItimerTimebase:start", " deadline mode");
       }        
+      m_started = true;
     }
 
     virtual void stop()
diff --git a/src/app-framework/PosixTimebase.cc b/src/app-framework/PosixTimebase.cc
index 8ac8edd..0902073 100644
--- a/src/app-framework/PosixTimebase.cc
+++ b/src/app-framework/PosixTimebase.cc
@@ -87,7 +87,6 @@ namespace PLEXIL
         return;
       }
 
-      m_started = true;
       debugMsg("PosixTimebase:start", " entered");
 
       // Construct the timer
@@ -104,6 +103,7 @@ namespace PLEXIL
                           << errno << ":\n " << strerror(errno));
 
       if (!m_interval_usec) {
+        m_started = true;
         debugMsg("PosixTimebase:start", " deadline mode");
         return;
       }
@@ -124,13 +124,17 @@ namespace PLEXIL
                << ", repeat interval " << timespecToDouble(tymrSpec.it_interval));
 
       // Set the timer
-      checkInterfaceError(!timer_settime(m_timer,
-                                         0, // flags
-                                         &tymrSpec,
-                                         nullptr),
-                          "PosixTimebase::start: timer_settime failed, errno = "
-                          << errno << ":\n " << strerror(errno));
+      if (timer_settime(m_timer,
+                        0, // flags
+                        &tymrSpec,
+                        nullptr)) {
+        int const err = errno;
+        timer_delete(m_timer);
+        reportInterfaceError("PosixTimebase::start: timer_settime failed, errno = "
+                             << err << ":\n " << strerror(err));
+      }
 
+      m_started = true;
       debugMsg("PosixTimebase:start", " tick mode");
     }
 
-- 
2.43.0


From f8f780b13370c2ac07ac4f3dbfde5168ed240f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:30 +0000
Subject: [PATCH 55/77] fix: a deadline equal to the current time wakes the
 exec instead of disarming the interval timer

---
 src/app-framework/ItimerTimebase.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/app-framework/ItimerTimebase.cc b/src/app-framework/ItimerTimebase.cc
index e60f71f..cd3c5e3 100644
--- a/src/app-framework/ItimerTimebase.cc
+++ b/src/app-framework/ItimerTimebase.cc
@@ -174,8 +174,9 @@ namespace PLEXIL
                           << errno << ":\n " << strerror(errno));
                           
       // Have we missed the deadline already?
-      if (deadline < now) {
-        // Already past the scheduled time
+      // N.B. setitimer() takes a zero interval as a request to disarm the timer.
+      if (!(now < deadline)) {
+        // Already at or past the scheduled time
         debugMsg("ItimerTimebase:setTimer",
                  " new value " << std::fixed << std::setprecision(6) << d
                  << " is in past, calling wakeup function now");
-- 
2.43.0


From 76ec823bdf16bbcb1751f37a7f811ef1bf2869b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:30 +0000
Subject: [PATCH 56/77] fix: the nanoseconds of a long tick interval no longer
 overflow

---
 src/app-framework/PosixTimebase.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app-framework/PosixTimebase.cc b/src/app-framework/PosixTimebase.cc
index 0902073..fe8935f 100644
--- a/src/app-framework/PosixTimebase.cc
+++ b/src/app-framework/PosixTimebase.cc
@@ -112,7 +112,7 @@ namespace PLEXIL
       struct itimerspec tymrSpec = {{0, 0}, {0, 0}};
 
       // Calculate repeat interval in nanosec.
-      uint64_t nanos = 1000 * m_interval_usec;
+      uint64_t nanos = UINT64_C(1000) * m_interval_usec;
       tymrSpec.it_interval.tv_sec  = nanos / NSEC_PER_SEC; // better be *integer* divide!
       tymrSpec.it_interval.tv_nsec = nanos % NSEC_PER_SEC;
       // Set initial interval to the same
-- 
2.43.0


From 4081db86af1a8b853ed729b91ccf0b27151b95b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:58 +0000
Subject: [PATCH 57/77] fix: OperationFactory deletes the operands created
 before the one that failed

The cleanup loop in the parser exception handler indexed with the failing
operand's index instead of the loop variable, so it leaked every operand
already created.
---
 src/xml-parser/OperationFactory.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xml-parser/OperationFactory.cc b/src/xml-parser/OperationFactory.cc
index 681a6c5..20f2d56 100644
--- a/src/xml-parser/OperationFactory.cc
+++ b/src/xml-parser/OperationFactory.cc
@@ -99,8 +99,8 @@ namespace PLEXIL
       }
       catch (ParserException & /* e */) {
         for (size_t j = 0; j < i; j++)
-          if (argCreated[i])
-            delete args[i];
+          if (argCreated[j])
+            delete args[j];
         throw;
       }
 
-- 
2.43.0


From 8bff5c2fe4a596a6e86ad184e04fd3b83a572188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:58 +0000
Subject: [PATCH 58/77] fix: report a missing operator without reading past the
 operand types

The error message read the types of two operands even for one-operand
operations, and the operands already created were leaked.
---
 src/xml-parser/OperationFactory.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/xml-parser/OperationFactory.cc b/src/xml-parser/OperationFactory.cc
index 20f2d56..59e308b 100644
--- a/src/xml-parser/OperationFactory.cc
+++ b/src/xml-parser/OperationFactory.cc
@@ -105,12 +105,21 @@ namespace PLEXIL
       }
 
       Operator const *oper = m_operation->getOperator(argTypes, desiredType);
-      checkParserExceptionWithLocation(oper,
-                                       expr,
-                                       "OperationFactory::allocate: no operator found for "
-                                       << m_operation->getName()
-                                       << "\n Arg types " << valueTypeName(argTypes[0])
-                                       << ", " << valueTypeName(argTypes[1]));
+      if (!oper) {
+        for (size_t j = 0; j < n; j++)
+          if (argCreated[j])
+            delete args[j];
+        std::string typeNames;
+        for (ValueType typ : argTypes) {
+          if (!typeNames.empty())
+            typeNames += ", ";
+          typeNames += valueTypeName(typ);
+        }
+        reportParserExceptionWithLocation(expr,
+                                          "OperationFactory::allocate: no operator found for "
+                                          << m_operation->getName()
+                                          << "\n Arg types " << typeNames);
+      }
       Function *result = m_operation->constructFunction(oper, n);
 
       for (size_t j = 0 ; j < n; ++j) {
-- 
2.43.0


From 5d7b9b667e16aceca2933d4f8b2e8a34615f5d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:59 +0000
Subject: [PATCH 59/77] fix: CEIL, FLOOR, ROUND and TRUNC of a Date or Duration
 select the Real operator

They passed the type check but no operator was found for them.
---
 src/xml-parser/Operations.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xml-parser/Operations.cc b/src/xml-parser/Operations.cc
index 3c2d189..b52e58d 100644
--- a/src/xml-parser/Operations.cc
+++ b/src/xml-parser/Operations.cc
@@ -457,10 +457,10 @@ namespace PLEXIL
       return INTEGER_TYPE;
     else if (desiredType == REAL_TYPE)
       return REAL_TYPE;
-    else if (argType == UNKNOWN_TYPE)
-      return REAL_TYPE; // default is safe
+    else if (argType == INTEGER_TYPE)
+      return INTEGER_TYPE;
     else
-      return argType;
+      return REAL_TYPE; // Date, Duration, or unknown; default is safe
   }
 
   class ArithmeticConversionOperation : public OperationBase
-- 
2.43.0


From cb308ae428bba3b328f3af536821754018d59d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:59 +0000
Subject: [PATCH 60/77] fix: ordering comparisons treat an operand of unknown
 type alike on either side

An unknown-typed operand (e.g. an undeclared lookup) compared with an
Integer used the Integer operator when on the left, for which a Real value
is always unknown, but the Real operator when on the right; compared with
a String it was accepted on the left and rejected on the right.
---
 src/xml-parser/Operations.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/xml-parser/Operations.cc b/src/xml-parser/Operations.cc
index b52e58d..7066303 100644
--- a/src/xml-parser/Operations.cc
+++ b/src/xml-parser/Operations.cc
@@ -635,9 +635,8 @@ namespace PLEXIL
     if (typeA == UNKNOWN_TYPE) {
       switch (typeB) {
       case REAL_TYPE:
-        return REAL_TYPE;
       case INTEGER_TYPE:
-        return INTEGER_TYPE;
+        return REAL_TYPE; // safe
       case STRING_TYPE:
         return STRING_TYPE;
       default:
@@ -662,6 +661,12 @@ namespace PLEXIL
       else
         return UNKNOWN_TYPE; // illegal
 
+    case STRING_TYPE:
+      if (typeB == UNKNOWN_TYPE)
+        return STRING_TYPE;
+      else
+        return UNKNOWN_TYPE; // illegal
+
     default:
       return UNKNOWN_TYPE;
     }
-- 
2.43.0


From 29731a99be02d2e8151f8f2ed8ae8807868afc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:59 +0000
Subject: [PATCH 61/77] fix: DIV takes exactly two operands

Any operand count was accepted, though Division only evaluates two.
---
 src/xml-parser/ExpressionMap.gperf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml-parser/ExpressionMap.gperf b/src/xml-parser/ExpressionMap.gperf
index 79245eb..6d6df25 100644
--- a/src/xml-parser/ExpressionMap.gperf
+++ b/src/xml-parser/ExpressionMap.gperf
@@ -51,7 +51,7 @@ BooleanValue, REGISTER_EXPRESSION(BooleanConstant, BooleanValue)
 BooleanVariable, makeVariableReferenceFactory("BooleanVariable", BOOLEAN_TYPE)
 CEIL, REGISTER_ARITHMETIC_CONVERSION_OPERATION(CEIL, Ceiling)
 Concat, REGISTER_CACHED_SIMPLE_OPERATION(Concat, StringConcat, STRING_TYPE, STRING_TYPE)
-DIV, REGISTER_ARITHMETIC_OPERATION(DIV, Division)
+DIV, REGISTER_TWO_ARG_ARITHMETIC_OPERATION(DIV, Division)
 DeclareArray, REGISTER_EXPRESSION(ArrayVariable, DeclareArray)
 DeclareVariable, makeUserVariableFactory("DeclareVariable")
 EQArray, REGISTER_EQUALITY_OPERATION(EQArray, Equal)
-- 
2.43.0


From 8eb86cccde1d291c7fff712ee098313ed5f053fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:59 +0000
Subject: [PATCH 62/77] fix: AND, OR and XOR need at least one operand

Their operators require one, but the parser accepted none.
---
 src/xml-parser/OperationFactory.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml-parser/OperationFactory.hh b/src/xml-parser/OperationFactory.hh
index 71bb572..af5f1d0 100644
--- a/src/xml-parser/OperationFactory.hh
+++ b/src/xml-parser/OperationFactory.hh
@@ -63,7 +63,7 @@ namespace PLEXIL
 // Boolean ops
 #define REGISTER_BOOLEAN_OPERATION(NAME,CLASS) \
   PLEXIL::makeOperationFactory(#NAME, \
-                               PLEXIL::makeSimpleOperation(#NAME, CLASS::instance(), BOOLEAN_TYPE, BOOLEAN_TYPE))
+                               PLEXIL::makeSimpleOperation(#NAME, CLASS::instance(), BOOLEAN_TYPE, BOOLEAN_TYPE, 1))
 
 // Cached simple operations (mostly for string concatenation)
 #define REGISTER_CACHED_SIMPLE_OPERATION(NAME,CLASS,ARGTYPE,RETTYPE) \
-- 
2.43.0


From a615312b2dcfe372b0405e3cb0cb4ada47c4027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:10 +0000
Subject: [PATCH 63/77] fix: a library's children without declarations in
 between see the call's aliases, not the caller's variables

---
 src/exec/ListNode.cc | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/exec/ListNode.cc b/src/exec/ListNode.cc
index 18629d6..3ef38b3 100644
--- a/src/exec/ListNode.cc
+++ b/src/exec/ListNode.cc
@@ -220,15 +220,9 @@ namespace PLEXIL
     if (m_variablesByName)
       return m_variablesByName.get();
 
-    // Search ancestors for first in chain
-    NodeImpl *n = m_parent;
-    NodeVariableMap const *map = nullptr;
-    while (n && !map) {
-      map = n->getVariableMap();
-      if (!map)
-        n = n->m_parent;
-    }
-    return map;
+    // Use whatever the parent offers its children
+    // (for a library call, its aliases, and not the caller's variables)
+    return m_parent ? m_parent->getChildVariableMap() : nullptr;
   }
 
   // Create the ancestor end, ancestor exit, and ancestor invariant conditions required by children
-- 
2.43.0


From 1f9eaadf34050c91289d877baaabfd03bec10a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:10 +0000
Subject: [PATCH 64/77] fix: a mutex name in a library does not refer to the
 caller's mutexes

---
 src/exec/NodeImpl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 7dcfc88..54790d3 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -1667,6 +1667,8 @@ namespace PLEXIL
         }
       }
       node = node->m_parent;
+      if (node && node->getType() == NodeType_LibraryNodeCall)
+        break; // names in a library don't refer to the caller's mutexes
     }
 
     // Search global mutexes
-- 
2.43.0


From 0289838fd03fb698d11df1d103bcf2f440d2bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:23 +0000
Subject: [PATCH 65/77] fix: check the value expressions of library call
 aliases

---
 src/xml-parser/parseLibraryCall.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml-parser/parseLibraryCall.cc b/src/xml-parser/parseLibraryCall.cc
index 629cc5c..e98c6af 100644
--- a/src/xml-parser/parseLibraryCall.cc
+++ b/src/xml-parser/parseLibraryCall.cc
@@ -84,6 +84,7 @@ namespace PLEXIL
                                      "Alias for \"" << name
                                      << "\" has malformed value expression in LibraryNodeCall node " 
                                      << callerId);
+    checkExpression(callerId.c_str(), temp); // for effect; can throw ParserException
   }
 
   void checkLibraryCall(char const *callerId, xml_node const callXml)
-- 
2.43.0


From 7ed89befdfaad332af49f9933ba7f28b8b191087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:12 +0000
Subject: [PATCH 66/77] fix: refuse library nodes that call themselves instead
 of expanding them for ever

---
 src/xml-parser/parseLibraryCall.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xml-parser/parseLibraryCall.cc b/src/xml-parser/parseLibraryCall.cc
index e98c6af..712e2de 100644
--- a/src/xml-parser/parseLibraryCall.cc
+++ b/src/xml-parser/parseLibraryCall.cc
@@ -137,6 +137,18 @@ namespace PLEXIL
                                      << node->getNodeId());
     // Construct call
     // Template was checked before it was added to library
+
+    // A library which calls itself, even indirectly, can't be expanded
+    char const *libName = callXml.first_child().child_value();
+    for (NodeImpl const *n = node; n->getParentNode(); n = n->getParentNode()) {
+      checkParserExceptionWithLocation(n->getParentNode()->getType() != NodeType_LibraryNodeCall
+                                       || n->getNodeId() != libName,
+                                       callXml,
+                                       "Library node " << libName
+                                       << " calls itself, in LibraryNodeCall node "
+                                       << node->getNodeId());
+    }
+
     node->addChild(constructPlan(l->doc->document_element(), l->symtab, node));
   }
 
-- 
2.43.0


From 81ddb92614733399619526152ca535ef7313f943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:18 +0000
Subject: [PATCH 67/77] fix: compare the names of a list node and its children,
 not their addresses

---
 src/xml-parser/parseNode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index 77c23dc..a2feb88 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -381,7 +381,7 @@ namespace PLEXIL
 
       // Check that parent and child don't have same name
       char const *kidId = kidXml.child_value(NODEID_TAG);
-      checkParserExceptionWithLocation(parentId != kidId,
+      checkParserExceptionWithLocation(strcmp(parentId, kidId),
                                        kidXml,
                                        "List Node " << parentId
                                        << " has a child node with the same NodeId");
-- 
2.43.0


From 58e7cbd83888835561f5b5aecdb4332b2c114326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:03 +0000
Subject: [PATCH 68/77] fix: refuse a command resource with two upper bounds or
 two release flags

---
 src/xml-parser/commandXmlParser.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/xml-parser/commandXmlParser.cc b/src/xml-parser/commandXmlParser.cc
index bd51465..5b24239 100644
--- a/src/xml-parser/commandXmlParser.cc
+++ b/src/xml-parser/commandXmlParser.cc
@@ -47,7 +47,7 @@ namespace PLEXIL
   static void checkResource(char const *nodeId, xml_node const resourceElt)
   {
     checkTag(RESOURCE_TAG, resourceElt);
-    xml_node nameXml, prioXml;
+    xml_node nameXml, prioXml, upperBoundXml, releaseAtTermXml;
 
     // check the fields
     for (xml_node rtemp = resourceElt.first_child();
@@ -56,7 +56,6 @@ namespace PLEXIL
       ValueType tempType = UNKNOWN_TYPE;
       char const* tag = rtemp.name();
       size_t taglen = strlen(tag);
-      xml_node upperBoundXml, releaseAtTermXml;
       switch (taglen) {
       case 12: // ResourceName
         checkParserExceptionWithLocation(!strcmp(RESOURCE_NAME_TAG, tag),
-- 
2.43.0


From 2af7dc0389cb7a5cf249deec83337ee7473ec9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:03 +0000
Subject: [PATCH 69/77] fix: refuse a command without arguments when its
 declaration has parameters

---
 src/xml-parser/commandXmlParser.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/xml-parser/commandXmlParser.cc b/src/xml-parser/commandXmlParser.cc
index 5b24239..4c3edd3 100644
--- a/src/xml-parser/commandXmlParser.cc
+++ b/src/xml-parser/commandXmlParser.cc
@@ -422,6 +422,14 @@ namespace PLEXIL
         }
       }
     }
+    else if (cmdSym) {
+      checkParserExceptionWithLocation(!cmdSym->parameterCount(),
+                                       cmdXml,
+                                       "Command " << cmdSym->name() << " expects "
+                                       << (cmdSym->anyParameters() ? "at least " : "")
+                                       << cmdSym->parameterCount()
+                                       << " arguments, but was supplied none");
+    }
   }
 
 
-- 
2.43.0


From 2cb6727a67d809c2f186381f48af26a26c9eea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:03 +0000
Subject: [PATCH 70/77] fix: the body of a Command node must be a Command
 element

---
 src/xml-parser/commandXmlParser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml-parser/commandXmlParser.cc b/src/xml-parser/commandXmlParser.cc
index 4c3edd3..569db22 100644
--- a/src/xml-parser/commandXmlParser.cc
+++ b/src/xml-parser/commandXmlParser.cc
@@ -193,6 +193,7 @@ namespace PLEXIL
   // First pass: XML checks
   void checkCommandBody(char const *nodeId, pugi::xml_node const cmdXml)
   {
+    checkTag(CMD_TAG, cmdXml);
     checkHasChildElement(cmdXml);
     xml_node temp = cmdXml.first_child();
 
-- 
2.43.0


From 1bf337d76aea0ae37e290fa7542e16a86350e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:20 +0000
Subject: [PATCH 71/77] fix: refuse content which is not part of a command or
 library node declaration

---
 src/xml-parser/parseGlobalDeclarations.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/xml-parser/parseGlobalDeclarations.cc b/src/xml-parser/parseGlobalDeclarations.cc
index c48797f..fe02127 100644
--- a/src/xml-parser/parseGlobalDeclarations.cc
+++ b/src/xml-parser/parseGlobalDeclarations.cc
@@ -101,7 +101,12 @@ namespace PLEXIL
 
     if (elt && testTag(RESOURCE_LIST_TAG, elt)) {
       // TODO check ResourceList
+      elt = elt.next_sibling();
     }
+
+    checkParserExceptionWithLocation(!elt,
+                                     elt,
+                                     "Extraneous content at end of " << COMMAND_DECLARATION_TAG);
   }
 
   static void checkStateDeclaration(xml_node const declXml)
@@ -254,7 +259,12 @@ namespace PLEXIL
                                             << " in " << INTERFACE_TAG);
         }
       }
+      elt = elt.next_sibling();
     }
+
+    checkParserExceptionWithLocation(!elt,
+                                     elt,
+                                     "Extraneous content at end of " << LIBRARY_NODE_DECLARATION_TAG);
   }
 
   void checkMutexDeclaration(xml_node const &declXml)
-- 
2.43.0


From 0c128f63339aaa4b5f50aab6a985ad4040447d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:20 +0000
Subject: [PATCH 72/77] fix: refuse a mutex declaration with an initial value
 instead of failing on an assertion

---
 src/xml-parser/parseNode.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index a2feb88..1129929 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -166,6 +166,11 @@ namespace PLEXIL
                                      decl,
                                      "Malformed or empty " << decl.name()
                                      << " in node " << nodeId);
+    // A mutex has no type and no initial value
+    checkParserExceptionWithLocation(decl.first_child() == decl.last_child(),
+                                     decl,
+                                     "Extraneous content in " << decl.name()
+                                     << " in node " << nodeId);
   }
 
   static void checkVariableDeclarations(char const *nodeId, xml_node const decls)
-- 
2.43.0


From bc9c59cfbf6e543b04dd6c5c7d5234ecea913533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:36 +0000
Subject: [PATCH 73/77] fix: the body of a list node must be a NodeList element

---
 src/xml-parser/parseNode.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index 1129929..1d2563c 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -378,6 +378,7 @@ namespace PLEXIL
 
   static void checkChildNodes(char const *parentId, xml_node const kidsXml)
   {
+    checkTag(NODELIST_TAG, kidsXml);
     std::vector<char const *> nodeIds;
     xml_node kidXml = kidsXml.first_child();
     while (kidXml) { // empty list node is legal
-- 
2.43.0


From 057ffbc4b74bfbd897e4247548c8b8b5f4fc3911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:11 +0000
Subject: [PATCH 74/77] fix: refuse a lookup of a constant state with an
 unknown argument instead of failing on a plan error

---
 src/xml-parser/LookupFactory.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/xml-parser/LookupFactory.cc b/src/xml-parser/LookupFactory.cc
index aec5174..0566b16 100644
--- a/src/xml-parser/LookupFactory.cc
+++ b/src/xml-parser/LookupFactory.cc
@@ -231,6 +231,19 @@ namespace PLEXIL
                                              << ", but has type " << valueTypeName(actual));
           }
         }
+
+        // A lookup whose state can never be known is an error
+        bool allConstant = stateName->isConstant();
+        bool someUnknown = false;
+        for (size_t j = 0; j < nargs; ++j) {
+          if (!(*argVec)[j]->isConstant())
+            allConstant = false;
+          else if (!(*argVec)[j]->isKnown())
+            someUnknown = true;
+        }
+        checkParserExceptionWithLocation(!allConstant || !someUnknown,
+                                         expr,
+                                         "Lookup with constant state has an unknown argument");
       }
       wasCreated = true;
       if (tolXml) {
-- 
2.43.0


From 6d251b95eae5a6292d2b7c3ae5c37e10ab23be9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:23 +0000
Subject: [PATCH 75/77] fix: elements of read-only arrays can not be written

---
 src/xml-parser/ArrayReferenceFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml-parser/ArrayReferenceFactory.cc b/src/xml-parser/ArrayReferenceFactory.cc
index 7171123..b0b7fbe 100644
--- a/src/xml-parser/ArrayReferenceFactory.cc
+++ b/src/xml-parser/ArrayReferenceFactory.cc
@@ -186,6 +186,7 @@ namespace PLEXIL
         delete arrayExpr;
       if (indexCreated)
         delete indexExpr;
+      throw;
     }
 
     wasCreated = true;
-- 
2.43.0


From 2470f3f59c73cf06f9c4fd9cd818162997056ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:05 +0000
Subject: [PATCH 76/77] fix: UDP messages too long for a datagram are refused

---
 src/interfaces/UdpAdapter/UdpAdapter.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index ac39763..446ac73 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -79,6 +79,9 @@ namespace PLEXIL
   static constexpr char const COMMAND_PREFIX[] = "__COMMAND__";
   static constexpr char const PARAM_PREFIX[] = "__PARAMETER__";
 
+  // Largest payload of a UDP datagram over IPv4
+  static constexpr unsigned int MAX_DATAGRAM_BYTES = 65507;
+
   //
   // Local helper function
   //
@@ -762,6 +765,13 @@ namespace PLEXIL
         if (param_desc)
           arg.desc = param_desc.value();
 
+        // The whole message must fit in one datagram
+        if (arg.len > (MAX_DATAGRAM_BYTES - msg.len) / arg.elements) {
+          warn("UdpAdapter: Message " << name
+               << ": parameters do not fit in a datagram of " << MAX_DATAGRAM_BYTES << " bytes");
+          return false;
+        }
+
         // Success!
         msg.len += arg.len * arg.elements;
         msg.parameters.push_back(arg);
-- 
2.43.0


From b3d2f4709d5b53a45a9030824ede6670e0fa1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:05 +0000
Subject: [PATCH 77/77] fix: UDP messages shorter than their definition are not
 decoded

---
 src/interfaces/UdpAdapter/UdpAdapter.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interfaces/UdpAdapter/UdpAdapter.cc b/src/interfaces/UdpAdapter/UdpAdapter.cc
index 446ac73..a13bbb3 100644
--- a/src/interfaces/UdpAdapter/UdpAdapter.cc
+++ b/src/interfaces/UdpAdapter/UdpAdapter.cc
@@ -854,6 +854,12 @@ namespace PLEXIL
         std::cout << "  handleUdpMessage: buffer: ";
         print_buffer(buffer, msgDef.len);
       }
+      if (length < msgDef.len) {
+        // The rest of the buffer is not from this message
+        warn("UdpAdapter: " << msgDef.name << " message of " << length
+             << " bytes ignored; expected " << msgDef.len);
+        return -1;
+      }
       // (1) addMessage for expected message
       static int counter = 1;     // gensym counter
       std::ostringstream unique_id;
-- 
2.43.0

