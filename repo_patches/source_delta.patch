From 5e160c021887aa7b93176ab1ec149e08716f5cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:15 +0000
Subject: [PATCH 001/106] fix: give timepoints added with a reference point
 their initial reference time

addTimepoint built the node itself and so skipped makeNode, which is what
initialises the reference time: until the next full propagation the new
timepoint reported 0 instead of the unconstrained value.
---
 src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
index 4c19bf8..bcb4d0f 100644
--- a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
+++ b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
@@ -523,8 +523,8 @@ Timepoint& TemporalNetwork::getOrigin() {
 }
 
 Timepoint& TemporalNetwork::addTimepoint() {
-  TimepointId node = boost::make_shared<Tnode>(this);
-  addNode(node);
+  // createNode calls makeNode, which sets up the reftime as well
+  TimepointId node = boost::dynamic_pointer_cast<Timepoint>(createNode());
   node->ordinal=++(this->nodeCounter);
   return *node.get();
 }
-- 
2.43.0


From 484a7b2e530dc45a6f3236182e1f1b4bbffc2078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:15 +0000
Subject: [PATCH 002/106] fix: do not move a timepoint that leads or follows a
 ring into another ring

The test was inverted with respect to its own comment: a source that already
had a leader was moved to the target's ring while the old ring kept pointing
at it (or was its own follower), and cleanupTEQ then left dangling leaders
behind when a timepoint was deleted: use after free.
---
 src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
index bcb4d0f..0c8b143 100644
--- a/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
+++ b/src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc
@@ -969,7 +969,7 @@ Void TemporalNetwork::maintainTEQ (Time lb, Time ub, Timepoint& src, Timepoint&
       targ.ringLeader = src.ringLeader;
       src.ringLeader->ringFollowers.push_back(&targ);
     }
-    if (src.ringLeader) {
+    if (src.ringLeader == NULL) {
       // In this case targ->ringLeader must be non-null
       src.ringLeader = targ.ringLeader;
       targ.ringLeader->ringFollowers.push_back(&src);
-- 
2.43.0


From 8d91e75ef4550a771b5a4fc484cade438569d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 003/106] fix: divide, not multiply, when an integer is divided
 by an unsigned one

---
 src/PLASMA/Utils/Number.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/Utils/Number.hh b/src/PLASMA/Utils/Number.hh
index 3de61e7..e80f344 100644
--- a/src/PLASMA/Utils/Number.hh
+++ b/src/PLASMA/Utils/Number.hh
@@ -454,7 +454,7 @@ namespace EUROPA {
     inline eint operator*(const basis_type o) const {handle_inf_mul(eint, m_v, o); op(eint, m_v, *, o);}
     inline eint operator*(const eint o) const {return operator*(o.m_v);}
     inline eint operator/(const int o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
-    inline eint operator/(const unsigned long o) const {handle_inf_mul(eint, m_v, o); op(eint, m_v, *, o);}
+    inline eint operator/(const unsigned long o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
     inline eint operator/(const basis_type o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
     inline eint operator/(const eint o) const {return operator/(o.m_v);}
 
-- 
2.43.0


From 27af23dc70cab9232f2ee9b3cbb7f1a6e1caefff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 004/106] fix: assign both bounds of an interval domain

operator= took the upper bound for both bounds and the finiteness of the
source for its open/closed flag: an assigned interval became a singleton,
and open when it came from an infinite one.
---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 9d7897b..a201263 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -660,9 +660,9 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
   Domain& IntervalDomain::operator=(const Domain& dom) {
     safeComparison(*this, dom);
     check_error(m_listener.isNoId());
-    m_lb = dom.getUpperBound();
+    m_lb = dom.getLowerBound();
     m_ub = dom.getUpperBound();
-    m_closed = dom.isFinite();
+    m_closed = dom.isClosed();
     return(*this);
   }
 
-- 
2.43.0


From bb1ebcb7f768df67f1914db638e9b523bc893467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 005/106] fix: report a change when equating a set with an
 interval only changes the set

The answer reflected changes to the other domain only, also when the set had
just been emptied, so the equality constraint did not notice the emptied
domain and went on with it.
---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index a201263..067878f 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -167,8 +167,11 @@ EnumeratedDomain::EnumeratedDomain(const Domain& org)
 		  return true;
 
 	  // Have to intersect again for the case of mixed types (enumeration and interval)
-	  if(intersect(dom) && !isEmpty())
-		  changed = dom.intersect(*this) || changed;
+	  if(intersect(dom)) {
+		  changed = true;
+		  if(!isEmpty())
+			  dom.intersect(*this);
+	  }
 
 	  return changed;
   }
-- 
2.43.0


From 8f9a34f99a060284bd8ae65ae0f414c20b4d273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 006/106] fix: do not take fractional values for members of a
 set of integers

Membership allowed for the granularity of the type, 1 for integers, so 5.5
was a member of {6}, and intersecting with the bounds [-5, -4.5] kept -4.
---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 5 +++--
 src/PLASMA/ConstraintEngine/component/Domains.hh | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 067878f..49240c4 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -453,8 +453,9 @@ EnumeratedDomain::EnumeratedDomain(const Domain& org)
 		  return true;
 	  }
 
-	  // Allocate as an interval and delegate to existing method
-	  IntervalDomain intervalDomain(lb, ub, getDataType());
+	  // Allocate as an interval and delegate to existing method. Not one of this domain's own type, since
+	  // with the granularity of integers a bound such as 4.5 would take in its neighbours.
+	  IntervalDomain intervalDomain(lb, ub);
 
 	  return intersect(intervalDomain);
   }
diff --git a/src/PLASMA/ConstraintEngine/component/Domains.hh b/src/PLASMA/ConstraintEngine/component/Domains.hh
index 8e6aa75..79ce1b9 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.hh
+++ b/src/PLASMA/ConstraintEngine/component/Domains.hh
@@ -269,6 +269,13 @@ namespace EUROPA {
 	   */
 	  virtual EnumeratedDomain *copy() const;
 
+	  /**
+	   * @brief Members are listed one by one, so two values are the same only if they differ by no more than
+	   * rounding, whatever the granularity of the data type.
+	   */
+	  virtual bool compareEqual(edouble a, edouble b) const
+	  { return(a < b ? b - a < EPSILON : a - b < EPSILON); }
+
 	  /**
 	   * @brief Creates a verbose string for displaying the contents of the domain
 	   */
-- 
2.43.0


From a372051219ff43c284304f064fe19cc308ab6a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 007/106] fix: compare an interval with a set by the set's
 values, not by its bounds

[1,3] was equal to, and a subset of, {1,3}, and [4,5] intersected {1,9}.
---
 .../ConstraintEngine/component/Domains.cc     | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 49240c4..5932c88 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -711,6 +711,11 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
   bool IntervalDomain::operator==(const Domain& dom) const {
     safeComparison(*this, dom);
 
+    // A set can have the same bounds and leave out values in between
+    if(dom.isEnumerated())
+      return(dom == *this);
+
+
     return(eq(m_lb, dom.getLowerBound()) &&
            eq(m_ub, dom.getUpperBound()) &&
 	   Domain::operator==(dom));
@@ -724,6 +729,19 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
     safeComparison(*this, dom);
     check_error(!isOpen());
     check_error(!dom.isEmpty());
+
+    // A set need not have all the values between its bounds
+    if(dom.isEnumerated() && dom.isClosed()) {
+      if(!isFinite() || getSize() > dom.getSize())
+        return(false);
+      std::list<edouble> values;
+      getValues(values);
+      for(std::list<edouble>::const_iterator it = values.begin(); it != values.end(); ++it)
+        if(!dom.isMember(*it))
+          return(false);
+      return(true);
+    }
+
     bool result = ((isFinite() || dom.isInfinite()) &&
                    leq(m_ub, dom.getUpperBound()) &&
                    leq(dom.getLowerBound(), m_lb));
@@ -735,6 +753,10 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
     check_error(!isOpen());
     check_error(!dom.isEmpty());
 
+    // A set can have values on both sides of the interval and none in it
+    if(dom.isEnumerated())
+      return(dom.intersects(*this));
+
     edouble ub = dom.getUpperBound();
 
     if( lt(ub, m_lb) )
-- 
2.43.0


From f077147a4be2308db277fa8a6d2cc8ab8c178cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 008/106] fix: saturate numbers beyond the infinities instead
 of aborting

---
 src/PLASMA/Utils/Number.hh | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/PLASMA/Utils/Number.hh b/src/PLASMA/Utils/Number.hh
index e80f344..b65253a 100644
--- a/src/PLASMA/Utils/Number.hh
+++ b/src/PLASMA/Utils/Number.hh
@@ -203,11 +203,9 @@ namespace EUROPA {
 
 #define handle_inf_constructor(type, v) {				\
     if(m_v > std::numeric_limits<e ## type>::infinity()) {			\
-      assert(m_v <= std::numeric_limits<e ## type>::infinity());		\
       m_v = cast_ ## type(std::numeric_limits<e ## type>::infinity());		\
     }									\
     else if(m_v < std::numeric_limits<e ## type>::minus_infinity()) {	\
-      assert(m_v >= std::numeric_limits<e ## type>::minus_infinity());	\
       m_v = cast_ ## type(std::numeric_limits<e ## type>::minus_infinity());	\
     }									\
   }
-- 
2.43.0


From bdaa90e8c23bad504b166c48adbd70c8bb2acf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 009/106] fix: do not lose sums to rounding in mixed integer
 and real addition

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 2 ++
 src/PLASMA/ConstraintEngine/component/Domains.cc     | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 68692eb..9557c19 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -165,6 +165,8 @@ namespace EUROPA {
      * B:Int[-10,10] == C:Real[0.01, 0.99].
      */
     if (m_z.isInterval() &&
+	m_x.isInterval() && m_x.minDelta() == 1 &&
+	m_y.isInterval() && m_y.minDelta() == 1 &&
 	(!m_z.isMember(Infinity::plus(yMax, xMin, zMin)) ||
 	 !m_z.isMember(Infinity::plus(yMin, xMax, zMin))))
       m_z.empty();
diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 5932c88..0051920 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -1189,10 +1189,11 @@ edouble IntervalIntDomain::convert(const edouble& value) const {
   edouble IntervalIntDomain::translateNumber(edouble number, bool asMin) const {
     edouble result = IntervalDomain::translateNumber(eint(number), asMin);
 
-    // Incrementing result will round up.
-    // Why the condition that number is positive? It breaks symmetry if nothing else. --wedgingt 2004 Mar 4
+    // The conversion rounds towards zero: round up for a minimum, down for a maximum.
     if ((std::abs(result - number) >= EPSILON) && asMin && number > 0)
       result = result + 1;
+    else if ((std::abs(result - number) >= EPSILON) && !asMin && number < 0)
+      result = result - 1;
     return(result);
   }
 
-- 
2.43.0


From dbe2c7387b6e218ae0348f520333c19d8bdd2ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 010/106] fix: delete the parts of a product constraint before
 its internal variables

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 9557c19..329eb23 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1015,6 +1015,12 @@ EqualSumConstraint::EqualSumConstraint(const std::string& name,
   }
 
   void EqualProductConstraint::handleDiscard(){
+    // The contained constraints go before the contained variables they use
+    m_eqProductC1.reset();
+    m_eqProductC2.reset();
+    m_eqProductC3.reset();
+    m_eqProductC4.reset();
+    m_eqProductC5.reset();
     // Further unwind for contained variables
     // m_product1.discard();
     // m_product2.discard();
-- 
2.43.0


From f1f28787c29e5247ccac1d669b04d775aad7d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 011/106] fix: an integer may be less than a real by less than
 one

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 329eb23..de5ac8a 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -754,15 +754,17 @@ bool NotEqualConstraint::canIgnore(const ConstrainedVariableId variable,
 
     debugMsg("LessThanConstraint:handleExecute", "Computing " << domx.toString() << " < " << domy.toString() << " x.minDelta = " <<
 	     domx.minDelta() << " y.minDelta = " << domy.minDelta());
+    // Between an integer and a real, the real's resolution decides how close they may come
+    const edouble delta = std::min(domx.minDelta(), domy.minDelta());
     if(domx.getUpperBound() >= domy.getUpperBound() &&
        domy.getUpperBound() < PLUS_INFINITY &&
-       domx.intersect(domx.getLowerBound(), domy.getUpperBound() - domx.minDelta()) &&
+       domx.intersect(domx.getLowerBound(), domy.getUpperBound() - delta) &&
        domx.isEmpty())
       return;
 
     if(domy.getLowerBound() <= domx.getLowerBound() &&
        domx.getLowerBound() > MINUS_INFINITY &&
-       domy.intersect(domx.getLowerBound() + domy.minDelta(), domy.getUpperBound()) &&
+       domy.intersect(domx.getLowerBound() + delta, domy.getUpperBound()) &&
        domy.isEmpty())
       return;
 
-- 
2.43.0


From 5384a93251b716c5331436b316ecfc5ec658dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 012/106] fix: compare integers with reals at the resolution of
 the reals in (in)equality constraints

---
 .../ConstraintEngine/component/Constraints.cc | 27 ++++++++++---------
 .../ConstraintEngine/component/Domains.cc     |  7 +++--
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index de5ac8a..3ad8ed3 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -697,13 +697,13 @@ bool LessThanEqualConstraint::testIsRedundant(const ConstrainedVariableId var) c
       return(true);
     }
 
-    if (domx.compareEqual(domx.getSingletonValue(), domy.getLowerBound())) {
-      edouble low = domx.getSingletonValue() + domx.minDelta();
+    if (domy.compareEqual(value, domy.getLowerBound())) {
+      edouble low = value + domy.minDelta();
       domy.intersect(IntervalDomain(low, domy.getUpperBound()));
       return(true);
     }
-    if (domx.compareEqual(domx.getSingletonValue(), domy.getUpperBound())) {
-      edouble hi = domx.getSingletonValue() - domx.minDelta();
+    if (domy.compareEqual(value, domy.getUpperBound())) {
+      edouble hi = value - domy.minDelta();
       domy.intersect(IntervalDomain(domy.getLowerBound(), hi));
       return(true);
     }
@@ -1085,7 +1085,8 @@ EqualSumConstraint::EqualSumConstraint(const std::string& name,
           if (i == 1)
             single = current.getSingletonValue();
           else
-            if (std::abs(single - current.getSingletonValue()) >= getCurrentDomain(m_variables[1]).minDelta()) {
+            if (std::abs(single - current.getSingletonValue()) >=
+                std::min(getCurrentDomain(m_variables[1]).minDelta(), current.minDelta())) {
               // Two singletons with different values: can't be all same, so:
               canProveTrue = false;
               boolDom.remove(true);
@@ -1170,7 +1171,7 @@ EqualSumConstraint::EqualSumConstraint(const std::string& name,
           changedOne = false;
           for (i = 2; i < ARG_COUNT; i++) {
             changedOne = dom1.equate(getCurrentDomain(m_variables[i])) || changedOne;
-            if (dom1.isEmpty())
+            if (dom1.isEmpty() || getCurrentDomain(m_variables[i]).isEmpty())
               return; // inconsistent: cannot all be the same but condition var requires they are.
           }
         }
@@ -1968,18 +1969,18 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
       } else {
 	m_test.remove(0);
       }
+      if(m_test.isEmpty())
+	return;
     }
 
     if(m_test.isSingleton()) {
       if(m_test.getSingletonValue() == true) { //Enforce inequality
-	if(m_arg1.isSingleton()) {
-	  m_arg2.remove(m_arg1.getSingletonValue());
-	}
-	if(m_arg2.isSingleton()) {
-	  m_arg1.remove(m_arg2.getSingletonValue());
-	}
+	// (which leaves values within an interval alone)
+	if(!NotEqualConstraint::checkAndRemove(m_arg1, m_arg2))
+	  NotEqualConstraint::checkAndRemove(m_arg2, m_arg1);
       } else { //Enforce equality
-	m_arg2.intersect(m_arg1);
+	if(m_arg2.intersect(m_arg1) && m_arg2.isEmpty())
+	  return;
 	m_arg1.intersect(m_arg2);
       }
     }
diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 0051920..14ea4e2 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -757,14 +757,17 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
     if(dom.isEnumerated())
       return(dom.intersects(*this));
 
+    // Between an integer and a real, the real's resolution decides
+    const Domain& fine = (dom.minDelta() < minDelta() ? dom : *this);
+
     edouble ub = dom.getUpperBound();
 
-    if( lt(ub, m_lb) )
+    if( fine.lt(ub, m_lb) )
       return false;
 
     edouble lb = dom.getLowerBound();
 
-    if( lt(m_ub, lb))
+    if( fine.lt(m_ub, lb))
       return false;
 
     return true;
-- 
2.43.0


From db5aa9e9b8c8a8a688a5db5e0448685e516b88b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 013/106] fix: restrict the argument of an absolute value only
 to what its result allows

---
 .../ConstraintEngine/component/Constraints.cc | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 3ad8ed3..e888ce4 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2213,24 +2213,20 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
       ub = std::max(std::abs(m_y.getLowerBound()), m_y.getUpperBound());
     }
 
-    m_x.intersect(IntervalDomain(lb, ub));
+    if(m_x.intersect(lb, ub) && m_x.isEmpty())
+      return;
     lb = m_x.getLowerBound();
     ub = m_x.getUpperBound();
 
     //for any absolute value domain [lb ub], there are two domains that could have
-    //produced it: [lb ub] and [-ub lb].  If there is a non-empty intersection between y
-    //and both domains, then we cannot determine a correct further restriction for y
-    //except when a == 0 and [-ub ub] is a subset of y
-    if(lb == 0 && m_y.isMember(-ub) && m_y.isMember(ub))
-      m_y.intersect(IntervalDomain(-ub, ub));
-
-    if((m_y.isMember(lb) || m_y.isMember(ub)) && (m_y.isMember(-lb) || m_y.isMember(-ub)))
-      return;
-
-    if(m_y.isMember(lb) || m_y.isMember(ub))
-      m_y.intersect(IntervalDomain(lb, ub));
-    else if(m_y.isMember(-lb) || m_y.isMember(-ub))
-      m_y.intersect(IntervalDomain(-ub, -lb));
+    //produced it: [lb ub] and [-ub -lb].  If y lies on one side only of the gap between
+    //them, then that one bounds it; otherwise only the outer bounds do.
+    if(m_y.getLowerBound() > -lb)
+      m_y.intersect(lb, ub);
+    else if(m_y.getUpperBound() < lb)
+      m_y.intersect(-ub, -lb);
+    else
+      m_y.intersect(-ub, ub);
   }
 
   SquareOfDifferenceConstraint::SquareOfDifferenceConstraint(const std::string& name,
-- 
2.43.0


From 838af71eb723e057556047f25e7f753e68715796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 014/106] fix: keep every member when uniting domains in the
 all-different constraint

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index e888ce4..a62b13d 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1217,6 +1217,8 @@ void addToUnion(Domain **unionOfDomains,
   Domain *newUnion = 0;
   std::list<edouble> membersToAdd;
   std::list<edouble> newMembers;
+  // Integers and reals together make reals
+  const bool addReal = domToAdd.minDelta() < (*unionOfDomains)->minDelta();
   if (((*unionOfDomains)->isEnumerated() || (*unionOfDomains)->isSingleton())
       && (domToAdd.isEnumerated() || domToAdd.isSingleton())) {
     if (domToAdd.isEnumerated())
@@ -1237,7 +1239,7 @@ void addToUnion(Domain **unionOfDomains,
         newMembers.push_back(*it);
     }
     newUnion = new EnumeratedDomain(
-        (*unionOfDomains)->getDataType(),
+        addReal ? domToAdd.getDataType() : (*unionOfDomains)->getDataType(),
         newMembers);
 
     // Could just add to current unionOfDomains rather than failing here, but
@@ -1252,7 +1254,7 @@ void addToUnion(Domain **unionOfDomains,
   edouble toAddMin, toAddMax, newMin, newMax;
   domToAdd.getBounds(toAddMin, toAddMax);
   (*unionOfDomains)->getBounds(newMin, newMax);
-  bool changing = false;
+  bool changing = addReal || !(*unionOfDomains)->isInterval();
   if (toAddMin < newMin) {
     newMin = toAddMin;
     changing = true;
@@ -1262,7 +1264,7 @@ void addToUnion(Domain **unionOfDomains,
     changing = true;
   }
   if (changing) {
-    if((*unionOfDomains)->minDelta() < 1.0)
+    if(addReal || (*unionOfDomains)->minDelta() < 1.0)
       newUnion = new IntervalDomain(newMin, newMax);
     else
       newUnion = new IntervalIntDomain(static_cast<eint>(newMin), static_cast<eint>(newMax));
@@ -1297,6 +1299,7 @@ void addToUnion(Domain **unionOfDomains,
     bool canProveTrue = true;
     unsigned int firstNonDynamic = 0;
     unsigned int firstDynamic = 0;
+    unsigned int closedCount = 0;
     unsigned int i = 1;
     Domain* unionOfOthers = 0;
     for ( ; i < ARG_COUNT; i++) {
@@ -1307,6 +1310,7 @@ void addToUnion(Domain **unionOfDomains,
           firstDynamic = i;
         continue;
       }
+      ++closedCount;
       if (firstNonDynamic == 0)
         firstNonDynamic = i;
       if (unionOfOthers == 0) {
@@ -1325,7 +1329,7 @@ void addToUnion(Domain **unionOfDomains,
           canProveTrue = false;
         // Add members of current to unionOfOthers "usefully".
         addToUnion(&unionOfOthers, current);
-        if (unionOfOthers->isFinite() && (unionOfOthers->getSize()) < i) {
+        if (unionOfOthers->isFinite() && (unionOfOthers->getSize()) < closedCount) {
           // At least two of the variables must have same value.
           boolDom.remove(true);
           canProveTrue = false;
-- 
2.43.0


From 4164641223012d14de9fd27c24e882e78cb90a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 015/106] fix: coordinates whose ranges overlap may be closer
 than their range ends

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index a62b13d..40faf18 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2328,7 +2328,7 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     dx.insert(std::abs(m_x1.getLowerBound() - m_x2.getUpperBound()));
     dx.insert(std::abs(m_x1.getUpperBound() - m_x2.getLowerBound()));
     dx.insert(std::abs(m_x1.getUpperBound() - m_x2.getUpperBound()));
-    if(m_x1.intersects(m_x2))
+    if(m_x1.getLowerBound() <= m_x2.getUpperBound() && m_x2.getLowerBound() <= m_x1.getUpperBound())
       dx.insert(0.0);
     dx.close();
 
@@ -2338,7 +2338,7 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     dy.insert(std::abs(m_y1.getLowerBound() - m_y2.getUpperBound()));
     dy.insert(std::abs(m_y1.getUpperBound() - m_y2.getLowerBound()));
     dy.insert(std::abs(m_y1.getUpperBound() - m_y2.getUpperBound()));
-    if(m_y1.intersects(m_y2))
+    if(m_y1.getLowerBound() <= m_y2.getUpperBound() && m_y2.getLowerBound() <= m_y1.getUpperBound())
       dy.insert(0.0);
     dy.close();
 
-- 
2.43.0


From c9f1ee1443a50ac7e343a9a222afbea9ee7d43c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 016/106] fix: functions without a result make their constraint
 inconsistent, and powers may be fractional

---
 .../ConstraintEngine/component/Constraints.cc       | 13 ++++++++++---
 .../ConstraintEngine/component/Constraints.hh       | 10 ++++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 40faf18..238aa90 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2295,6 +2295,12 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     y = domy.getSingletonValue();
     edouble distance = std::sqrt(x+y);
 
+    // No distance has a negative square
+    if ( distance != distance ) {
+      doma.empty();
+      return;
+    }
+
     doma.intersect( IntervalDomain(distance) );
 
     // cout << "DistanceFromSquares "<<x<<" "<<y<<" "<<distance<<endl;
@@ -2398,14 +2404,15 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
 
 namespace {
 //eint mod(eint a, eint b) { return a % b; }
-eint mod(edouble a, edouble b) {return static_cast<eint::basis_type>(std::fmod(cast_basis(a), cast_basis(b)));}
+edouble mod(edouble a, edouble b) {return trunc(std::fmod(cast_basis(a), cast_basis(b)));}
+edouble power(edouble a, edouble b) {return std::pow(cast_basis(a), cast_basis(b));}
 }
   CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Max, std::max, edouble);
   CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Min, std::min, edouble);
   CREATE_FUNCTION_CONSTRAINT_ONE_ARG(Abs, std::abs, edouble);
-  CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Pow, std::pow, edouble);
+  CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Pow, power, edouble);
   CREATE_FUNCTION_CONSTRAINT_ONE_ARG(Sqrt, std::sqrt, edouble);
-  CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Mod, mod, eint);
+  CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Mod, mod, edouble);
 
 
 
diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.hh b/src/PLASMA/ConstraintEngine/component/Constraints.hh
index 752a204..042a62c 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.hh
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.hh
@@ -38,7 +38,10 @@ namespace EUROPA {
     check_error(isActive());						\
     if (getCurrentDomain(m_variables[1]).isSingleton()) {		\
       rt value = function(getCurrentDomain(m_variables[1]).getSingletonValue()); \
-      getCurrentDomain(m_variables[0]).intersect(value, value);		\
+      if (value != value) /* not a number: no result */			\
+	getCurrentDomain(m_variables[0]).empty();			\
+      else								\
+	getCurrentDomain(m_variables[0]).intersect(value, value);		\
     }									\
   }
 
@@ -54,7 +57,10 @@ namespace EUROPA {
 	&& getCurrentDomain(m_variables[2]).isSingleton()) {		\
       rt value = function(getCurrentDomain(m_variables[1]).getSingletonValue(), \
 			  getCurrentDomain(m_variables[2]).getSingletonValue()); \
-      getCurrentDomain(m_variables[0]).intersect(value, value);		\
+      if (value != value) /* not a number: no result */			\
+	getCurrentDomain(m_variables[0]).empty();			\
+      else								\
+	getCurrentDomain(m_variables[0]).intersect(value, value);		\
     }									\
   }
 
-- 
2.43.0


From 01fb3107ce8e7f4fe4615c3aafe7cc695a35ac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:14 +0000
Subject: [PATCH 017/106] fix: products and quotients of bounds beyond the
 range are infinite, not errors

---
 .../ConstraintEngine/component/Constraints.cc | 37 +++++++++++++------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 238aa90..121aacc 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -287,6 +287,19 @@ namespace EUROPA {
   // Update Z's domain bounds using domains of X and Y in: X * Y = Z.
   // Return TRUE if we have new bounds for Z
 namespace {
+// Bounds out of range are infinite, they are not errors
+edouble boundedProduct(const edouble a, const edouble b) {
+  if(std::abs(a) >= PLUS_INFINITY || std::abs(b) >= PLUS_INFINITY)
+    return a * b;
+  return edouble(cast_basis(a) * cast_basis(b));
+}
+
+edouble boundedQuotient(const edouble a, const edouble b) {
+  if(std::abs(a) >= PLUS_INFINITY || std::abs(b) >= PLUS_INFINITY)
+    return a / b;
+  return edouble(cast_basis(a) / cast_basis(b));
+}
+
 bool updateMultBounds(IntervalDomain& domZ,
                       const IntervalDomain& domX,
                       const IntervalDomain& domY)
@@ -299,10 +312,10 @@ bool updateMultBounds(IntervalDomain& domZ,
   domX.getBounds(xMin, xMax);
   domY.getBounds(yMin, yMax);
 
-  a = xMin * yMin;
-  b = xMin * yMax;
-  c = xMax * yMin;
-  d = xMax * yMax;
+  a = boundedProduct(xMin, yMin);
+  b = boundedProduct(xMin, yMax);
+  c = boundedProduct(xMax, yMin);
+  d = boundedProduct(xMax, yMax);
 
   zMin = std::min(std::min(a,b),std::min(c,d));
   zMax = std::max(std::max(a,b),std::max(c,d));
@@ -348,10 +361,10 @@ bool updateDivBounds(IntervalDomain& domZ,
 
   // If [Y] doesn't contain 0. Safely compute the two possible new bounds
   if(yMin > 0.0 || yMax < 0.0) {
-    a = xMin / yMin;
-    b = xMin / yMax;
-    c = xMax / yMin;
-    d = xMax / yMax;
+    a = boundedQuotient(xMin, yMin);
+    b = boundedQuotient(xMin, yMax);
+    c = boundedQuotient(xMax, yMin);
+    d = boundedQuotient(xMax, yMax);
 
     zMin = std::min(std::min(a,b),std::min(c,d));
     zMax = std::max(std::max(a,b),std::max(c,d));
@@ -372,19 +385,19 @@ bool updateDivBounds(IntervalDomain& domZ,
 
   // Case 1 [+,+] / [0,+]: new bounds [xMin / yMax, +infinity]
   if(yMin == 0.0 && xMin > 0.0)
-    zMin = xMin / yMax;
+    zMin = boundedQuotient(xMin, yMax);
 
   // Case 2 [-,-] / [0,+] : new bounds [-infinity, xMax / yMax]
   if(yMin == 0.0 && xMax < 0.0)
-    zMax = xMax / yMax;
+    zMax = boundedQuotient(xMax, yMax);
 
   // Case 3 [+,+] / [-,0]: new bounds [-infinity, xMin /yMin]
   if(yMax == 0.0 && xMin > 0.0)
-    zMax = xMin / yMin;
+    zMax = boundedQuotient(xMin, yMin);
 
   // Case 4 [-,-] / [-,0]: new bounds [xMax / yMin, +infinity ]
   if(yMax == 0.0 && xMax < 0.0)
-    zMin = xMax / yMin;
+    zMin = boundedQuotient(xMax, yMin);
 
   // Set the new bounds
   return domZ.intersect(zMin,zMax);
-- 
2.43.0


From 25d6dbdfd5fc4180356cb0e012ceaec19dc5c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:16 +0000
Subject: [PATCH 018/106] fix: saturate numbers that are read or come from
 large unsigned ones

---
 src/PLASMA/Utils/Number.hh | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/Utils/Number.hh b/src/PLASMA/Utils/Number.hh
index b65253a..805766f 100644
--- a/src/PLASMA/Utils/Number.hh
+++ b/src/PLASMA/Utils/Number.hh
@@ -400,7 +400,8 @@ namespace EUROPA {
     eint(const unsigned int v) : m_v(static_cast<long>(v)) {
       handle_inf_constructor(int, m_v);
     }
-    eint(const unsigned long v) : m_v(static_cast<long>(v)) {
+    eint(const unsigned long v)
+      : m_v(static_cast<long>(std::min(v, static_cast<unsigned long>(std::numeric_limits<long>::max())))) {
       handle_inf_constructor(int, m_v);
     }
 
@@ -569,7 +570,11 @@ namespace EUROPA {
   GEN_FRIEND_COMPARISONS(double, eint);
   GEN_FRIEND_COMPARISONS(long double, eint);
   inline std::ostream& operator<<(std::ostream& o, const eint e) {return(o << e.m_v);}
-  inline std::istream& operator>>(std::istream& o, eint& e) {return(o >> e.m_v);}
+  inline std::istream& operator>>(std::istream& o, eint& e) {
+    eint::basis_type v = e.m_v;
+    o >> v;
+    e = eint(v);
+    return(o);}
 
   class edouble {
   public:
@@ -720,7 +725,10 @@ bool eint::operator!=(const edouble o) const {return m_v != o.m_v;}
 
   inline std::ostream& operator<<(std::ostream& o, const edouble e) {return(o << e.m_v);}
   inline std::istream& operator>>(std::istream& o, edouble& e) {
-    return(o >> e.m_v);}
+    edouble::basis_type v = e.m_v;
+    o >> v;
+    e = edouble(v);
+    return(o);}
 
   template<typename T>
   inline bool finite(const T& v) {
-- 
2.43.0


From a76f5f94b5fc4213adfe222ca7567d51339e74ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:36 +0000
Subject: [PATCH 019/106] fix: stop a union constraint once it has emptied a
 domain

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 121aacc..8b36f3a 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2466,8 +2466,8 @@ void EqUnionConstraint::handleExecuteInterval(IntervalDomain& dest,
   for(std::vector<ConstrainedVariableId>::const_iterator it = start; it != end; ++it) {
     if(dest.isEmpty())
       getCurrentDomain(*it).empty();
-    else
-      getCurrentDomain(*it).intersect(dest);
+    else if(getCurrentDomain(*it).intersect(dest) && getCurrentDomain(*it).isEmpty())
+      return;
   }
 }
 
@@ -2515,8 +2515,8 @@ void EqUnionConstraint::handleExecuteEnumerated(EnumeratedDomain& dest,
   for(std::vector<ConstrainedVariableId>::const_iterator it = start; it != end; ++it) {
     if(dest.isEmpty())
       getCurrentDomain(*it).empty();
-    else
-      getCurrentDomain(*it).intersect(dest);
+    else if(getCurrentDomain(*it).intersect(dest) && getCurrentDomain(*it).isEmpty())
+      return;
   }
 }
 
-- 
2.43.0


From 863d8d6c29368fdbc10c344c13e88b4fa647d7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:49 +0000
Subject: [PATCH 020/106] fix: sums and squares of bounds beyond the range are
 infinite, not errors

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 8b36f3a..3ffb720 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -86,7 +86,7 @@ namespace EUROPA {
     static edouble plus(edouble n1, edouble n2, edouble defaultValue) {
       if (std::abs(n1) >= PLUS_INFINITY || std::abs(n2) >= PLUS_INFINITY)
 	return(defaultValue);
-      edouble retval = n1 + n2;
+      edouble retval = edouble(cast_basis(n1) + cast_basis(n2)); // infinite beyond the range
       if(std::abs(retval) >= PLUS_INFINITY)
 	return defaultValue;
       return retval;
@@ -95,7 +95,7 @@ namespace EUROPA {
     static edouble minus(edouble n1, edouble n2, edouble defaultValue) {
       if (std::abs(n1) >= PLUS_INFINITY || std::abs(n2) >= PLUS_INFINITY)
 	return(defaultValue);
-      edouble retval = n1 - n2;
+      edouble retval = edouble(cast_basis(n1) - cast_basis(n2)); // infinite beyond the range
       if(std::abs(retval) >= PLUS_INFINITY)
 	return defaultValue;
       return retval;
@@ -2273,7 +2273,8 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     edouble x, y;
     x = domx.getSingletonValue();
     y = domy.getSingletonValue();
-    edouble square = (x-y)*(x-y);
+    const double difference = cast_basis(x) - cast_basis(y);
+    edouble square = difference * difference; // infinite beyond the range
 
     doma.intersect( IntervalDomain(square) );
 
@@ -2306,7 +2307,7 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     edouble x, y;
     x = domx.getSingletonValue();
     y = domy.getSingletonValue();
-    edouble distance = std::sqrt(x+y);
+    edouble distance = std::sqrt(edouble(cast_basis(x) + cast_basis(y)));
 
     // No distance has a negative square
     if ( distance != distance ) {
-- 
2.43.0


From 94f9a59a9cebd5f5cc44f83354bb92f3274b6f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:08 +0000
Subject: [PATCH 021/106] fix: empty a contributor to a minimum or maximum that
 cannot be in range

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 3ffb720..2624493 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1671,8 +1671,8 @@ CountNonZeroesConstraint::CountNonZeroesConstraint(const std::string& name,
       Domain& curDom = getCurrentDomain(m_variables[i]);
       if (minimum < curDom.getLowerBound())
         continue;
-      IntervalDomain restriction(minimum, curDom.getUpperBound());
-      if (curDom.intersect(restriction) && curDom.isEmpty())
+      // Empties it when even its largest value is too small
+      if (curDom.intersect(minimum, curDom.getUpperBound()) && curDom.isEmpty())
         return;
     }
   }
@@ -1755,8 +1755,8 @@ CountNonZeroesConstraint::CountNonZeroesConstraint(const std::string& name,
       Domain& curDom = getCurrentDomain(m_variables[i]);
       if (maximum > curDom.getUpperBound())
         continue;
-      IntervalDomain restriction(curDom.getLowerBound(), maximum);
-      if (curDom.intersect(restriction) && curDom.isEmpty())
+      // Empties it when even its smallest value is too large
+      if (curDom.intersect(curDom.getLowerBound(), maximum) && curDom.isEmpty())
         return;
     }
   }
-- 
2.43.0


From 890e687ed64681e6e9e7dbfe4b0ee7aa30469882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:41 +0000
Subject: [PATCH 022/106] fix: remove an integer interval's own end in the
 all-different constraint

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 2624493..0654ac1 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1419,7 +1419,10 @@ void addToUnion(Domain **unionOfDomains,
                || (!jDom.isEnumerated() && (singletonDom.isMember(jDom.getLowerBound())
                                             || singletonDom.isMember(jDom.getUpperBound()))))) {
             // Found one: remove singletonDom's value.
-            jDom.remove(singletonDom.getSingletonValue());
+            // (as the interval's own end, which may differ within the resolution)
+            jDom.remove(jDom.isEnumerated() ? singletonDom.getSingletonValue() :
+                        singletonDom.isMember(jDom.getLowerBound()) ? jDom.getLowerBound() :
+                        jDom.getUpperBound());
             if (jDom.isEmpty())
               return;
             // No point in going thru again if we're just starting.
-- 
2.43.0


From 809ab766a2be876fd2b00acbe22e763e74e5624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:41 +0000
Subject: [PATCH 023/106] fix: empty the sum of two integers only when no
 integer is left in it

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 0654ac1..0fbd8a9 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -161,14 +161,14 @@ namespace EUROPA {
     /* Now, rounding issues from mixed numeric types can lead to the
      * following inconsistency, not yet caught.  We handle it here
      * however, by emptying the domain if the invariant post-condition
-     * is not satisfied. The motivating case for this: A:Int[-10,10] +
+     * is not satisfied: two integers have no sum between two integers.
+     * The motivating case for this: A:Int[-10,10] +
      * B:Int[-10,10] == C:Real[0.01, 0.99].
      */
     if (m_z.isInterval() &&
 	m_x.isInterval() && m_x.minDelta() == 1 &&
 	m_y.isInterval() && m_y.minDelta() == 1 &&
-	(!m_z.isMember(Infinity::plus(yMax, xMin, zMin)) ||
-	 !m_z.isMember(Infinity::plus(yMin, xMax, zMin))))
+	std::ceil(m_z.getLowerBound() - EPSILON) > std::floor(m_z.getUpperBound() + EPSILON))
       m_z.empty();
   }
 
-- 
2.43.0


From 05c8fae0f30a7ca9317883a5ad7440b5623aaec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:35 +0000
Subject: [PATCH 024/106] fix: notice that a sum cannot equal its own
 contributor

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 0fbd8a9..388e0fa 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -164,11 +164,17 @@ namespace EUROPA {
      * is not satisfied: two integers have no sum between two integers.
      * The motivating case for this: A:Int[-10,10] +
      * B:Int[-10,10] == C:Real[0.01, 0.99].
+     * Where the sum is one of its own contributors, its bounds may have moved
+     * since they were read: the other contributor cannot be 0 then.
      */
+    const bool sumIsContributor = (&m_x == &m_z || &m_y == &m_z);
     if (m_z.isInterval() &&
 	m_x.isInterval() && m_x.minDelta() == 1 &&
 	m_y.isInterval() && m_y.minDelta() == 1 &&
-	std::ceil(m_z.getLowerBound() - EPSILON) > std::floor(m_z.getUpperBound() + EPSILON))
+	(sumIsContributor ?
+	 (!m_z.isMember(Infinity::plus(yMax, xMin, zMin)) ||
+	  !m_z.isMember(Infinity::plus(yMin, xMax, zMin))) :
+	 std::ceil(m_z.getLowerBound() - EPSILON) > std::floor(m_z.getUpperBound() + EPSILON)))
       m_z.empty();
   }
 
-- 
2.43.0


From caaba21c65ee0d3f307f9306eb26dbc0aced73c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:07 +0000
Subject: [PATCH 025/106] fix: execute a constraint again when it changed its
 own variables

---
 .../ConstraintEngine/component/Propagators.cc  | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Propagators.cc b/src/PLASMA/ConstraintEngine/component/Propagators.cc
index 108bed9..e6353c4 100644
--- a/src/PLASMA/ConstraintEngine/component/Propagators.cc
+++ b/src/PLASMA/ConstraintEngine/component/Propagators.cc
@@ -52,13 +52,19 @@ DefaultPropagator::DefaultPropagator(const std::string& name,
 					     unsigned int,
 					     const ConstraintId constraint,
 					     const DomainListener::ChangeType& changeType){
-    if(constraint->getKey() != m_activeConstraint) {
-      debugMsg("DefaultPropagator:handleNotification",
-          "Adding to the agenda: " << constraint->getName() << "(" << constraint->getKey() << ")"
-          << " because of " << DomainListener::toString(changeType) << " change to " << variable->toString()
-      );
-      m_agenda.insert(constraint);
+    // A constraint that changes its own variables is executed again: not every constraint is idempotent, and what is derived
+    // must not depend on what else happened to wake it. One that meets a variable twice could go on like that without end.
+    if(constraint->getKey() == m_activeConstraint) {
+      const std::vector<ConstrainedVariableId>& scope = constraint->getScope();
+      if(std::set<ConstrainedVariableId>(scope.begin(), scope.end()).size() != scope.size())
+        return;
     }
+
+    debugMsg("DefaultPropagator:handleNotification",
+        "Adding to the agenda: " << constraint->getName() << "(" << constraint->getKey() << ")"
+        << " because of " << DomainListener::toString(changeType) << " change to " << variable->toString()
+    );
+    m_agenda.insert(constraint);
   }
 
   void DefaultPropagator::execute(){
-- 
2.43.0


From ab53e7f3b5e30f082063bcfca1fc9a7da3b33d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:07 +0000
Subject: [PATCH 026/106] fix: let a not-equal constraint see its value become
 a bound of the other variable

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 388e0fa..b5bf18a 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -739,7 +739,8 @@ bool NotEqualConstraint::canIgnore(const ConstrainedVariableId variable,
 
   const Domain& domain = variable->lastDomain();
 
-  if(domain.isSingleton() ||
+  // When the other one is a singleton, its value may have become a bound of this one, from which it can be removed
+  if(m_variables[X]->lastDomain().isSingleton() || m_variables[Y]->lastDomain().isSingleton() ||
      (domain.isInterval() && domain.isFinite() && domain.getSize() <=2 )) // Since this transition is key for propagation
     return false;
 
-- 
2.43.0


From e22cc0d25b14231c44da9e4c4acdb003fcf6f27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:07 +0000
Subject: [PATCH 027/106] fix: count single values too when testing whether
 conditionally equal variables can meet

---
 .../ConstraintEngine/component/Constraints.cc | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index b5bf18a..4940eed 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1083,22 +1083,24 @@ EqualSumConstraint::EqualSumConstraint(const std::string& name,
           canProveTrue = false;
           continue;
         }
+        if (common == 0) {
+          // First one: copy it to intersect with later ones.
+          common = current.copy();
+
+          // Skipping this check merely results in less efficient propagation.
+          // check_error(common != 0);
+
+        } else if (!common->isEmpty()) {
+          // Intersect common with this one; if now empty, the other
+          // variables cannot all have the same value, so remove true
+          // from the condition.
+          if (common->intersect(current) && common->isEmpty()) {
+            canProveTrue = false;
+            boolDom.remove(true);
+          }
+        }
         if (!current.isSingleton()) {
           canProveTrue = false;
-          if (common == 0) {
-            // First one: copy it to intersect with later ones.
-            common = current.copy();
-
-            // Skipping this check merely results in less efficient propagation.
-            // check_error(common != 0);
-
-          } else {
-            // Intersect common with this one; if now empty, the other
-            // variables cannot all have the same value, so remove true
-            // from the condition.
-            if (common->intersect(current) && common->isEmpty())
-              boolDom.remove(true);
-          }
           continue;
         } // if !current.isSingleton()
         if (canProveTrue) {
-- 
2.43.0


From ea77132005c18c9e9b08c38cb78bd3050db14646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:56 +0000
Subject: [PATCH 028/106] fix: keep the constraints still to execute when an
 inconsistency is found

---
 .../ConstraintEngine/component/Propagators.cc      | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Propagators.cc b/src/PLASMA/ConstraintEngine/component/Propagators.cc
index e6353c4..6bd729e 100644
--- a/src/PLASMA/ConstraintEngine/component/Propagators.cc
+++ b/src/PLASMA/ConstraintEngine/component/Propagators.cc
@@ -83,18 +83,8 @@ DefaultPropagator::DefaultPropagator(const std::string& name,
       }
     }
 
-    // If we can continue propagation despite the discovered inconsistency,
-    // keep agenda for when the ConstraintEngine recovers and decides to resume propagation
-    if(getConstraintEngine()->provenInconsistent()) {
-        if (getConstraintEngine()->canContinuePropagation()) {
-	        debugMsg("DefaultPropagator:agenda","CE was proven inconsistent, keeping agenda because propagation can continue later");
-	        // TODO: should remove from the agenda any constraints associated with the empty variable, since it'll be relaxed and they'll ba added again
-        }
-        else {
-            m_agenda.clear();
-	        debugMsg("DefaultPropagator:agenda","Cleared agenda because CE was proven inconsistent");
-        }
-    }
+    // Keep the agenda when an inconsistency was found: what caused it may be withdrawn, and then only the constraints on the
+    // variables relaxed by that would be added again, not the ones elsewhere that have not been executed yet.
     m_activeConstraint = 0;
   }
 
-- 
2.43.0


From 8d00a8c8fd607f05c4667cea2c9fd131bf6cca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:24 +0000
Subject: [PATCH 029/106] fix: reactivate a redundant constraint that was
 deactivated for another reason

---
 src/PLASMA/ConstraintEngine/base/Constraint.cc       | 6 ++++--
 src/PLASMA/ConstraintEngine/base/Constraint.hh       | 1 +
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 3 +++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/Constraint.cc b/src/PLASMA/ConstraintEngine/base/Constraint.cc
index a7168e6..3bd493d 100644
--- a/src/PLASMA/ConstraintEngine/base/Constraint.cc
+++ b/src/PLASMA/ConstraintEngine/base/Constraint.cc
@@ -25,6 +25,7 @@ Constraint::Constraint(const std::string& name,
     , m_createdBy("UNKNOWN")
     , m_deactivationRefCount(0)
     , m_isRedundant(false)
+    , m_isRetired(false)
 {
   check_error(m_constraintEngine.isValid());
   check_error(!m_variables.empty());
@@ -293,8 +294,9 @@ Constraint::getModifiedVariables(const ConstrainedVariableId) const {
   void Constraint::undoDeactivation(){
     check_error(!Entity::isPurging());
 
-    // Prevent deactivation if redundant
-    if(isRedundant())
+    // Keep a redundant constraint deactivated, but only if that is why it is: one that was deactivated for another reason may
+    // never have been executed
+    if(m_isRetired && m_deactivationRefCount == 1)
       return;
 
     m_deactivationRefCount--;
diff --git a/src/PLASMA/ConstraintEngine/base/Constraint.hh b/src/PLASMA/ConstraintEngine/base/Constraint.hh
index 6aa0794..925486d 100644
--- a/src/PLASMA/ConstraintEngine/base/Constraint.hh
+++ b/src/PLASMA/ConstraintEngine/base/Constraint.hh
@@ -308,6 +308,7 @@ namespace EUROPA {
     const std::string m_createdBy; /**< Populated on construction. Indicates the user that created the constraint. */
     unsigned int m_deactivationRefCount; /*!< Tracks number of outstanding deactivation calls */
     bool m_isRedundant; /*!< True of the constraint is redundant */
+    bool m_isRetired; /*!< True once it has been executed and then deactivated for being redundant */
   };
 
   std::vector<ConstrainedVariableId> makeScope(const ConstrainedVariableId arg1);
diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 31b43cf..5f4858f 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -1029,7 +1029,10 @@ const PropagatorId ConstraintEngine::getPropagatorByName(const std::string& name
       ConstraintId constraint = *it;
       checkError(constraint.isValid(), constraint);
       checkError(constraint->isRedundant(), "Must be redundant. Buffering error.");
+      if(!constraint->isActive())
+        continue;
       constraint->deactivate();
+      constraint->m_isRetired = true;
       debugMsg("ConstraintEngine:processRedundantConstraints", constraint->toString());
     }
 
-- 
2.43.0


From 7f010e9b97b991b1be113cc6fe755d60933f959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 030/106] fix: allow a variable to be emptied while relaxations
 wait for propagation

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 5f4858f..4a2c780 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -824,8 +824,6 @@ void ConstraintEngine::notify(const ConstrainedVariableId source,
     if (variable->getCurrentPropagatingConstraint().isId()) {
     	debugMsg("ConstraintEngine:emptied","Var emptied by constraint:"<< variable->getCurrentPropagatingConstraint()->toLongString());
     }
-    //check_error(m_relaxed == false);
-    check_error(m_relaxed.empty());
     getViolationMgr().handleEmpty(variable);
   }
 
-- 
2.43.0


From a1b92c619fbe0afd77e6ce42ae1beffd8ccd3ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:43 +0000
Subject: [PATCH 031/106] fix: withdraw what a violated constraint had derived
 when it is removed

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 4a2c780..f3a5844 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -501,8 +501,9 @@ void ConstraintEngine::add(const ConstraintId constraint, const std::string& pro
 
     constraint->getPropagator()->removeConstraint(constraint);
 
-    // If the constraint is inactive, there is no need to relax. So just worry if it is actually active
-    if(constraint->isActive()){
+    // If the constraint is inactive, there is no need to relax. So just worry if it is actually active, or inactive only
+    // because it was found to be violated, with what it had derived until then still in place
+    if(constraint->isActive() || isViolated(constraint)){
     	debugMsg("ConstraintEngine:remove:Constraint",
     			"Propagating relaxations for " << constraint->getName() << "(" << constraint->getKey() << ")");
 
-- 
2.43.0


From 116c7414b8d0cc8232f6eefb321b19a3d82082d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:25 +0000
Subject: [PATCH 032/106] fix: deactivate a constraint once when one execution
 violates it several times

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index f3a5844..58f8a17 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -125,7 +125,8 @@ PSList<PSConstraint*> ViolationMgrImpl::getAllViolations() const {
   void ViolationMgrImpl::addViolatedConstraint(ConstraintId c)
   {
     debugMsg("ConstraintEngine:ViolationMgr", "Marking constraint as violated : " << c->toLongString());
-    m_violatedConstraints.insert(c);
+    if (!m_violatedConstraints.insert(c).second)
+      return; // One execution may empty several variables: only one deactivation will be undone
     c->deactivate(); // Deactivate will cause propagators to ignore constraint, including removing from current agendas
     m_ce.notifyViolationAdded(c); // tell constraint engine to publish
   }
-- 
2.43.0


From 448190af0eb4936a400c06d14a263980be65f309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:27 +0000
Subject: [PATCH 033/106] fix: try violated constraints again when a constraint
 on their variables is removed

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 58f8a17..f25a937 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -504,7 +504,8 @@ void ConstraintEngine::add(const ConstraintId constraint, const std::string& pro
 
     // If the constraint is inactive, there is no need to relax. So just worry if it is actually active, or inactive only
     // because it was found to be violated, with what it had derived until then still in place
-    if(constraint->isActive() || isViolated(constraint)){
+    const bool wasInForce = constraint->isActive() || isViolated(constraint);
+    if(wasInForce){
     	debugMsg("ConstraintEngine:remove:Constraint",
     			"Propagating relaxations for " << constraint->getName() << "(" << constraint->getKey() << ")");
 
@@ -517,6 +518,15 @@ void ConstraintEngine::add(const ConstraintId constraint, const std::string& pro
     }
     getViolationMgr().handleRemoved(constraint);
 
+    // What was found to be violated may be satisfiable now, even where no variable is restricted: those that were emptied by
+    // it have been relaxed since
+    if(wasInForce && getViolationMgr().getAllViolations().size() > 0) {
+    	const std::vector<ConstrainedVariableId>& scope = constraint->getScope();
+    	for(std::vector<ConstrainedVariableId>::const_iterator it = scope.begin(); it != scope.end(); ++it)
+    		if((*it)->isActive())
+    			handleRelax(*it);
+    }
+
     publish(notifyRemoved(constraint));
     debugMsg("ConstraintEngine:remove:Constraint",
 	     constraint->getName() << "(" << constraint->getKey() <<  ")");
-- 
2.43.0


From 10227004528e890a4da0b5daa450b2ca04d856b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:00 +0000
Subject: [PATCH 034/106] fix: withdraw what violated constraints had derived
 when their variables are relaxed

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index f25a937..f75a142 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -1127,7 +1127,8 @@ int ConstraintEngine::addLinkedVarsForRelaxation(const ConstrainedVariableId var
   for(ConstraintList::const_iterator cIt = var->m_constraints.begin();
       cIt != var->m_constraints.end(); ++cIt) {
     const ConstraintId constr = cIt->first;
-    if(constr->isActive()) {
+    // What a violated constraint had derived before it was found to be violated is still in place
+    if(constr->isActive() || isViolated(constr)) {
       const std::vector<ConstrainedVariableId>& scope = constr->getModifiedVariables(var);
       for(std::vector<ConstrainedVariableId>::const_iterator vIt = scope.begin();
           vIt != scope.end(); ++vIt) {
-- 
2.43.0


From 0f7d733b38d8bad6b9bbc91a8c3cc79fe4e1c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:49 +0000
Subject: [PATCH 035/106] fix: try violated constraints again when a variable
 in them is specified

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index f75a142..6a65c3a 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -797,8 +797,12 @@ void ConstraintEngine::notify(const ConstrainedVariableId source,
   else if (changeType == DomainListener::RELAXED ||
            changeType == DomainListener::OPENED)
     handleRelax(source);
-  else
+  else {
     handleRestrict(source);
+    // A specified value may agree with a constraint that was blamed for a contradiction with others
+    if(changeType == DomainListener::SET_TO_SINGLETON && !m_propInProgress)
+      m_violationMgr->handleRelax(source);
+  }
 
 
   // In all cases, notify the propagators as well, unless over-ruled by by an empty variable or a decision to ignore it
-- 
2.43.0


From 4b478ee984ade7e0d097739c07047ca27cff81bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:09 +0000
Subject: [PATCH 036/106] fix: do not read past the end of XML text that stops
 inside a comment or an attribute value

---
 src/PLASMA/TinyXml/base/tinyxmlparser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
index 8d6df65..3cc74d2 100644
--- a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
@@ -381,6 +381,8 @@ const char* TiXmlBase::ReadText(        const char* p,
                         }
                 }
         }
+        if ( !p || !*p )
+                return 0;               // the text ended before the end tag
         return p + strlen( endTag );
 }
 
@@ -974,11 +976,13 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data )
 
         if ( !StringEqual( p, startTag, false ) )
         {
-                document->SetError( TIXML_ERROR_PARSING_COMMENT, p, data );
+                if ( document ) document->SetError( TIXML_ERROR_PARSING_COMMENT, p, data );
                 return 0;
         }
         p += strlen( startTag );
         p = ReadText( p, &value, false, endTag, false );
+        if ( !p && document )
+                document->SetError( TIXML_ERROR_PARSING_COMMENT, 0, 0 );
         return p;
 }
 
-- 
2.43.0


From 99ffec80d3c629c8cc5ee9140593771f47cd29e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:09 +0000
Subject: [PATCH 037/106] fix: match XML end tags exactly and allow blanks in
 them

---
 src/PLASMA/TinyXml/base/tinyxmlparser.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
index 3cc74d2..5e72cbe 100644
--- a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
@@ -299,7 +299,7 @@ bool TiXmlBase::StringEqual( const char* p,
 
                 if (ignoreCase)
                 {
-                        while ( *q && *tag && *q == *tag )
+                        while ( *q && *tag && tolower( *q ) == tolower( *tag ) )
                         {
                                 ++q;
                                 ++tag;
@@ -312,7 +312,7 @@ bool TiXmlBase::StringEqual( const char* p,
                 }
                 else
                 {
-                        while ( *q && *tag && tolower( *q ) == tolower( *tag ) )
+                        while ( *q && *tag && *q == *tag )
                         {
                                 ++q;
                                 ++tag;
@@ -741,7 +741,6 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data )
 
     TIXML_STRING endTag ("</");
         endTag += value;
-        endTag += ">";
 
         // Check for and read attributes. Also look for an empty
         // tag or an end tag.
@@ -778,14 +777,12 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data )
                         // We should find the end tag now
                         if ( StringEqual( p, endTag.c_str(), false ) )
                         {
-                                p += endTag.length();
-                                return p;
-                        }
-                        else
-                        {
-                                if ( document ) document->SetError( TIXML_ERROR_READING_END_TAG, p, data );
-                                return 0;
+                                const char* pEnd = SkipWhiteSpace( p + endTag.length() );
+                                if ( pEnd && *pEnd == '>' )
+                                        return pEnd + 1;
                         }
+                        if ( document ) document->SetError( TIXML_ERROR_READING_END_TAG, p, data );
+                        return 0;
                 }
                 else
                 {
-- 
2.43.0


From e7b7caab00c0a41947d412f789e10355c731b62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:09 +0000
Subject: [PATCH 038/106] fix: report repeated attributes, text outside the
 root and cut off declarations in XML

---
 src/PLASMA/TinyXml/base/tinyxmlparser.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
index 5e72cbe..fc06b7a 100644
--- a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
@@ -494,7 +494,9 @@ const char* TiXmlDocument::Parse( const char* p, TiXmlParsingData* prevData )
                 }
                 else
                 {
-                        break;
+                        // neither an element nor anything else that may stand here
+                        SetError( TIXML_ERROR, p, &data );
+                        return 0;
                 }
                 p = SkipWhiteSpace( p );
         }
@@ -809,6 +811,7 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data )
                         TiXmlAttribute* node = attributeSet.Find( attrib->Name() );
                         if ( node )
                         {
+                                if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, pErr, data );
                                 node->SetValue( attrib->Value() );
                                 delete attrib;
                                 return 0;
@@ -925,13 +928,10 @@ const char* TiXmlUnknown::Parse( const char* p, TiXmlParsingData* data )
                 ++p;
         }
 
-        if ( !p )
-        {
-                if ( document ) document->SetError( TIXML_ERROR_PARSING_UNKNOWN, 0, 0 );
-        }
         if ( *p == '>' )
                 return p+1;
-        return p;
+        if ( document ) document->SetError( TIXML_ERROR_PARSING_UNKNOWN, 0, 0 );
+        return 0;
 }
 
 #ifdef TIXML_USE_STL
@@ -1133,6 +1133,8 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data )
                 }
 
                 p = SkipWhiteSpace( p );
+                if ( !p || !*p )
+                        break;
                 if ( StringEqual( p, "version", true ) )
                 {
                         TiXmlAttribute attrib;
@@ -1158,6 +1160,7 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data )
                                 ++p;
                 }
         }
+        if ( document ) document->SetError( TIXML_ERROR_PARSING_DECLARATION, 0, 0 );
         return 0;
 }
 
-- 
2.43.0


From aa3a4d3e307da6add93fe7c16a004e01bf6cbe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:39 +0000
Subject: [PATCH 039/106] fix: escape XML text that only begins like a
 character reference

---
 src/PLASMA/TinyXml/base/tinyxml.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/PLASMA/TinyXml/base/tinyxml.cpp b/src/PLASMA/TinyXml/base/tinyxml.cpp
index 4b938bb..c6babc3 100644
--- a/src/PLASMA/TinyXml/base/tinyxml.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxml.cpp
@@ -48,21 +48,22 @@ void TiXmlBase::PutString( const TIXML_STRING& str, TIXML_STRING* outString )
         {
                 int c = str[i];
 
-                if (    c == '&' 
-                        && i < ( static_cast<TIXML_STRING::size_type>(str.length() - 2 ))
-                         && str[i+1] == '#'
-                         && str[i+2] == 'x' )
+                // Hexadecimal character reference, &#xA9; -- copyright symbol, for example.
+                TIXML_STRING::size_type refEnd = i;
+                if ( c == '&' && str.compare( i, 3, "&#x" ) == 0 )
+                {
+                        refEnd = i + 3;
+                        while ( refEnd < str.length() && isxdigit( static_cast<unsigned char>(str[refEnd]) ) )
+                                ++refEnd;
+                        if ( refEnd < i + 4 || refEnd >= str.length() || str[refEnd] != ';' )
+                                refEnd = i;
+                }
+
+                if ( refEnd > i )
                 {
-                        // Hexadecimal character reference.
                         // Pass through unchanged.
-                        // &#xA9;       -- copyright symbol, for example.
-                  while ( i<static_cast<TIXML_STRING::size_type>(str.length()) )
-                        {
-                                outString->append( str.c_str() + i, 1 );
-                                ++i;
-                                if ( str[i] == ';' )
-                                        break;
-                        }
+                        outString->append( str, i, refEnd + 1 - i );
+                        i = refEnd + 1;
                 }
                 else if ( c == '&' )
                 {
-- 
2.43.0


From d877f6902cdecae12d217b820812186ffce3fe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:39 +0000
Subject: [PATCH 040/106] fix: read and write XML comments as they are and
 print unrecognised tags with their brackets

---
 src/PLASMA/TinyXml/base/tinyxml.cpp       |  6 ++----
 src/PLASMA/TinyXml/base/tinyxmlparser.cpp | 14 ++++++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/PLASMA/TinyXml/base/tinyxml.cpp b/src/PLASMA/TinyXml/base/tinyxml.cpp
index c6babc3..8e63be5 100644
--- a/src/PLASMA/TinyXml/base/tinyxml.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxml.cpp
@@ -908,9 +908,7 @@ void TiXmlComment::Print( FILE* cfile, int depth ) const
 
 void TiXmlComment::StreamOut( TIXML_OSTREAM * stream ) const
 {
-        (*stream) << "<!--";
-        PutString( value, stream );
-        (*stream) << "-->";
+        (*stream) << "<!--" << value << "-->";    // there are no entities in comments
 }
 
 TiXmlNode* TiXmlComment::Clone() const
@@ -1016,7 +1014,7 @@ void TiXmlUnknown::Print( FILE* cfile, int depth ) const
 {
         for ( int i=0; i<depth; i++ )
                 fprintf( cfile, "    " );
-        fprintf( cfile, "%s", value.c_str() );
+        fprintf( cfile, "<%s>", value.c_str() );
 }
 
 void TiXmlUnknown::StreamOut( TIXML_OSTREAM * stream ) const
diff --git a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
index fc06b7a..28553a5 100644
--- a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
@@ -977,10 +977,16 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data )
                 return 0;
         }
         p += strlen( startTag );
-        p = ReadText( p, &value, false, endTag, false );
-        if ( !p && document )
-                document->SetError( TIXML_ERROR_PARSING_COMMENT, 0, 0 );
-        return p;
+
+        // There are no entities in comments
+        const char* end = strstr( p, endTag );
+        if ( !end )
+        {
+                if ( document ) document->SetError( TIXML_ERROR_PARSING_COMMENT, p, data );
+                return 0;
+        }
+        value.assign( p, end - p );
+        return end + strlen( endTag );
 }
 
 
-- 
2.43.0


From 3731c8b40ab5b082a3d84abc51c7a53c1d4b7c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:38 +0000
Subject: [PATCH 041/106] fix: report XML that stops in blanks inside an
 element

---
 src/PLASMA/TinyXml/base/tinyxmlparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
index 28553a5..384e1ae 100644
--- a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
@@ -875,7 +875,7 @@ const char* TiXmlElement::ReadValue( const char* p, TiXmlParsingData* data )
                 p = SkipWhiteSpace( p );
         }
 
-        if ( !p )
+        if ( !p || !*p )
         {
                 if ( document ) document->SetError( TIXML_ERROR_READING_ELEMENT_VALUE, 0, 0 );
         }       
-- 
2.43.0


From 7d552f9501764e953a0fc03acced5dd9b3e25e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:00 +0000
Subject: [PATCH 042/106] fix: report unbounded temporal distances as infinite

---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 03c106a..4b55ff3 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -1106,7 +1106,7 @@ bool TemporalPropagator::isValidForPropagation() const {
     }
     Time lb, ub;
     m_tnet->calcDistanceBounds(*tstart, *tend, lb, ub, exact);
-    return(IntervalIntDomain(lb,ub));
+    return(IntervalIntDomain(mapToExternalInfinity(lb), mapToExternalInfinity(ub)));
   }
 
   void TemporalPropagator::getTemporalDistanceDomains(const ConstrainedVariableId first,
@@ -1126,7 +1126,7 @@ bool TemporalPropagator::isValidForPropagation() const {
     checkError((lbs.size() == seconds.size()) && (lbs.size() == ubs.size()),
                "size mismatch in TemporalPropagator getTemporalDistanceDomains");
     for (unsigned i=0; i<seconds.size(); i++) {
-      domains.push_back(IntervalIntDomain(lbs[i],ubs[i]));
+      domains.push_back(IntervalIntDomain(mapToExternalInfinity(lbs[i]), mapToExternalInfinity(ubs[i])));
     }
     return;
   }
-- 
2.43.0


From fad5af8c38a51fb8731047329643526057d63a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:00 +0000
Subject: [PATCH 043/106] fix: restrict a token's duration also when its start
 and end already have their final bounds

---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 4b55ff3..0b11b41 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -614,11 +614,9 @@ void TemporalPropagator::updateCnet() {
       }
     }
 
-    if (lb == dom.getLowerBound() && ub == dom.getUpperBound())
-      continue;  // PHM 06/06/11 This might often be the case
-
     dom.intersect(mapToExternalInfinity(lb), mapToExternalInfinity(ub));
 
+    // The duration depends on the bounds, however they came to be what they are
     if(TokenId::convertable(var->parent())){
       TokenId token = var->parent();
       // If we get a hit, then buffer the token for later update to duration (so we only do it once with updated bounds
-- 
2.43.0


From a825be4fd9675fda0348f31256538d40bd4222ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:00 +0000
Subject: [PATCH 044/106] fix: take the least distance between start and end as
 the room a token needs between two others

---
 .../component/TemporalPropagator.cc           | 21 +++++--------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 0b11b41..7af5657 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -712,24 +712,13 @@ void TemporalPropagator::updateCnet() {
     check_error(pend);
     check_error(sstart);
 
-    bool result = m_tnet->isDistanceLessThan(*pend,*sstart,1);
-    if (result)
+    // Each of the new neighbours has to leave room on its own side ...
+    if (m_tnet->isDistanceLessThan(*pend,*tstart,0) || m_tnet->isDistanceLessThan(*tend,*sstart,0))
       return false;
 
-    Time slb, sub;
-    m_tnet->getLastTimepointBounds(*tstart, slb, sub);
-
-    Time elb, eub;
-    m_tnet->getLastTimepointBounds(*tend, elb, eub);
-
-    Time minDuration = elb-sub;
-
-    if (m_tnet->isDistanceLessThan(*pend,*sstart,minDuration))
-      return false;
-
-    m_tnet->getTimepointBounds(*tstart, slb, sub);
-    m_tnet->getTimepointBounds(*tend, elb, eub);
-    minDuration = elb-sub;
+    // ... and both together for as long as the token has to take
+    Time minDuration, maxDuration;
+    m_tnet->calcDistanceBounds(*tstart, *tend, minDuration, maxDuration, true);
 
     return (!m_tnet->isDistanceLessThan(*pend,*sstart,minDuration));
   }
-- 
2.43.0


From 3cab3baffeddd4f921f4c52422bb6e9492ecabe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:59 +0000
Subject: [PATCH 045/106] fix: remove a token from each of its objects once
 when one removal causes another

---
 .../PlanDatabase/base/ObjectTokenRelation.cc  | 40 ++++++-------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
index 1787531..fa5765c 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
@@ -130,40 +130,24 @@ namespace EUROPA {
 
     // Remove token from objects where the domain has been restricted, and was previously notifed,
     // or where the Token is now inactive
-    bool active = m_token->isActive();
-
-    unsigned int startIndex = 0;
-
     debugMsg("ConstraintEngine", "[" << getKey() << "]");
 
-    while (m_notifiedObjects.size() > startIndex) {
-      std::set<ObjectId>::iterator it = m_notifiedObjects.begin();
-      for (unsigned int i = 0; i < startIndex; i++) {
-	it++;
-      }
-
+    // Removing the token from an object can delete constraints on the object variable, which gets us here
+    // again. So record each removal before it is made, and look afresh after it.
+    std::set<ObjectId>::iterator it = m_notifiedObjects.begin();
+    while (it != m_notifiedObjects.end()) {
       ObjectId object = *it;
 
-      if(!active || !m_currentDomain.isMember(object)){
-        debugMsg("ObjectTokenRelation:notifyRemovals", "Removing " << m_token->toString() << " from " << object->toString());
-	object->remove(m_token);
-	m_notifiedObjects.erase(object);
-      } else {
-	startIndex++;
+      if(m_token->isActive() && m_currentDomain.isMember(object)){
+        ++it;
+        continue;
       }
-      
-    }
-    
 
-    /*while(it!=m_notifiedObjects.end()){
-      ObjectId object = *it;
-      if(!isActive || !m_currentDomain.isMember(object)){
-	object->remove(m_token);
-	m_notifiedObjects.erase(it++);
-      }
-      else
-	++it;
-	}*/
+      debugMsg("ObjectTokenRelation:notifyRemovals", "Removing " << m_token->toString() << " from " << object->toString());
+      m_notifiedObjects.erase(it);
+      object->remove(m_token);
+      it = m_notifiedObjects.begin();
+    }
   }
 
 const std::vector<ConstrainedVariableId>&
-- 
2.43.0


From 870a6283fb934af94822449f1223159374fce97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:12 +0000
Subject: [PATCH 046/106] fix: answer exactly whether a distance is less than a
 bound

---
 .../TemporalNetwork/base/DistanceGraph.cc     | 91 +------------------
 .../TemporalNetwork/base/DistanceGraph.hh     |  2 -
 2 files changed, 2 insertions(+), 91 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc b/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
index ff47394..527e95f 100644
--- a/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
+++ b/src/PLASMA/TemporalNetwork/base/DistanceGraph.cc
@@ -410,101 +410,14 @@ Bool DistanceGraph::isDistanceLessThan (Dnode& src, Dnode& targ, Time bound)
  check_error(isValid(src), "node is not defined in this graph");
  check_error(isValid(targ), "node is not defined in this graph");
 
-  // Depth-first simulated propagation from src to targ as if
-  // a -bound constraint had been added from targ to src.
-  // This would cause a cycle iff isDistanceLessThan is true,
-  // so we need only check if the propagation reaches targ.
-
-  preventNodeMarkOverflow();
-  Dnode::unmarkAll();
-  Time newPotential = targ.potential - bound;
-
-  if (bound == 1) {
-    // In this case, the call is always from isSlotDurationZero().
-    // For efficiency, we use the approximation of only checking
-    // paths with all zero links.
-    return (isAllZeroPropagationPath(src, targ, newPotential));
-  }
-
-  return isPropagationPath(src, targ, newPotential);
+  dijkstra(src, &targ);
+  return getDistance(targ) < bound;
 }
 
 Bool DistanceGraph::isValid(const Dnode& node) {
   return hasNode(node);
 }
 
-Bool DistanceGraph::isAllZeroPropagationPath(Dnode& node, Dnode& targ,
-                                             Time potential)
-{
-
- check_error(isValid(node), "node is not defined in this graph");
- check_error(isValid(targ), "node is not defined in this graph");
-
-  if (potential >= node.potential)  // propagation is ineffective
-    return false;
-  if (&node == &targ)
-    return true;
-  if (node.isMarked())
-    return false;
-  node.mark();
-  // Cache node vars -- Chucko 22 Apr 2002
-  Int nodeOutCount = node.outCount;
-  if (nodeOutCount > 0) {
-    std::vector<Dedge*>& nodeOutArray = node.outArray;
-    for (int i=0; i< nodeOutCount; i++) {
-      Dedge* edge = nodeOutArray[i];
-      Time length = edge->length;
-      if (length == 0)
-	if (isAllZeroPropagationPath(edge->to, targ, potential))
-	  return true;
-    }
-  }
-  return false;
-}
-
-Bool DistanceGraph::isPropagationPath(Dnode& src, Dnode& targ, Time pot) {
-
-  check_error(isValid(src), "node is not defined in this graph");
-  check_error(isValid(targ), "node is not defined in this graph");
-
-
-  // Even though this seems like a full search, it is actually an
-  // approximation because the marking scheme could possibly prevent a
-  // new propagation with a smaller potential across nodes that have
-  // previously been propagated across.  Would need a Dijkstra-like
-  // priority queue to do a full search, but this seems a good enough
-  // approximation to satisfy the calls from the zigzag check.
-  if (pot >= src.potential)  // propagation is ineffective
-    return false;
-  src.mark();
-  src.distance = pot;
-  Dnode* propQ = &src; 
-  propQ->link = NULL;
-  while (propQ != NULL) {
-    Dnode* node = propQ; propQ = propQ->link;
-    // Cache node vars -- Chucko 22 Apr 2002
-    Int nodeOutCount = node->outCount;
-    std::vector<Dedge*>& nodeOutArray = node->outArray;
-    // We iterate downwards to simulate the behavior of the previous
-    // recursive version of this function (to satisfy make tests).
-    for (int i=nodeOutCount-1; i>=0 ; i--) {
-      Dedge* edge = nodeOutArray[i];
-      Dnode& next = edge->to;
-      if (next.isMarked())
-        continue;
-      Time newPotential = node->distance + edge->length;
-      if (newPotential >= next.potential)  // propagation is ineffective
-        continue;  // Don't mark---may be later effective propagation
-      if (&next == &targ)
-        return true;
-      next.mark();
-      next.distance = newPotential;
-      next.link = propQ; propQ = &next;
-    }
-  }
-  return false;
-}
-
 // Following marking method allows easy global unmarking.
 // Mark is used to tell whether node is in queue.
 // Note that an aborted propagation (due to detection of
diff --git a/src/PLASMA/TemporalNetwork/base/DistanceGraph.hh b/src/PLASMA/TemporalNetwork/base/DistanceGraph.hh
index 56ab477..72556ec 100644
--- a/src/PLASMA/TemporalNetwork/base/DistanceGraph.hh
+++ b/src/PLASMA/TemporalNetwork/base/DistanceGraph.hh
@@ -299,8 +299,6 @@ private:
   Void preventNodeMarkOverflow();
   Void preventGenerationOverflow();
   Void updateNogoodList(Dnode&);
-  Bool isAllZeroPropagationPath(Dnode& node, Dnode& targ, Time potential);
-  Bool isPropagationPath(Dnode& node, Dnode& targ, Time potential);
 };
 
 
-- 
2.43.0


From 3a8c1502893c48662df450e4eefecb81ef273fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:48 +0000
Subject: [PATCH 047/106] fix: keep the temporal constraints that an
 inconsistency left unapplied for the next propagation

---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 7af5657..5ae53d2 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -534,7 +534,8 @@ void TemporalPropagator::processVariableChanges() {
 
 void TemporalPropagator::processConstraintChanges() {
   debugMsg("TemporalPropagator:updateTnet", "Processing changed constraints... ");
-  for( ConstraintsSet::const_iterator it = m_changedConstraints.begin(); it != m_changedConstraints.end(); ++it){
+  ConstraintsSet::iterator it = m_changedConstraints.begin();
+  for(; it != m_changedConstraints.end(); ++it){
     ConstraintId constraint = *it;
     if(!constraint->isActive())
       continue;
@@ -542,11 +543,11 @@ void TemporalPropagator::processConstraintChanges() {
     updateTemporalConstraint(constraint);
 
     // If the cnet has become inconsistent, which can happen since distance bounds may be restricted as we apply
-    // a constraint, then we can skip out.
+    // a constraint, then we can skip out. What was not applied in full has to wait for the next time.
     if(getConstraintEngine()->provenInconsistent() && !getConstraintEngine()->getAllowViolations())
       break;
   }
-  m_changedConstraints.clear();
+  m_changedConstraints.erase(m_changedConstraints.begin(), it);
   debugMsg("TemporalPropagator:updateTnet", "DONE Processing changed constraints... ");
 
 }
-- 
2.43.0


From 1cd1506b069709676b758810a57a8751742f1afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:50 +0000
Subject: [PATCH 048/106] fix: forget only the removed variable, not every
 empty one, when an empty variable is removed

---
 .../ConstraintEngine/base/ConstraintEngine.cc     | 15 +++++----------
 .../ConstraintEngine/base/ConstraintEngine.hh     |  3 +--
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 6a65c3a..25ee140 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -43,7 +43,7 @@ namespace EUROPA
     virtual bool isEmpty(ConstrainedVariableId v) const;
     virtual void addEmptyVariable(ConstrainedVariableId c);
     virtual const ConstrainedVariableSet& getEmptyVariables() const;
-    virtual void clearEmptyVariables();
+    virtual void removeEmptyVariable(ConstrainedVariableId c);
     virtual void relaxEmptyVariables();
 
   protected:
@@ -198,9 +198,9 @@ PSList<PSConstraint*> ViolationMgrImpl::getAllViolations() const {
     return m_emptyVariables;
   }
 
-  void ViolationMgrImpl::clearEmptyVariables()
+  void ViolationMgrImpl::removeEmptyVariable(ConstrainedVariableId c)
   {
-    m_emptyVariables.clear();
+    m_emptyVariables.erase(c);
   }
 
   void ViolationMgrImpl::relaxEmptyVariables()
@@ -456,8 +456,8 @@ DomainListenerId ConstraintEngine::allocateVariableListener(const ConstrainedVar
     if(Entity::isPurging())
       return;
 
-    if(getViolationMgr().isEmpty(variable))
-      clearEmptyVariables();
+    // The others that are empty remain so until they are relaxed
+    getViolationMgr().removeEmptyVariable(variable);
 
     publish(notifyRemoved(variable));
 
@@ -660,11 +660,6 @@ void ConstraintEngine::add(const PropagatorId propagator){
     return (getViolationMgr().getEmptyVariables().size() > 0);
   }
 
-  void ConstraintEngine::clearEmptyVariables()
-  {
-    getViolationMgr().clearEmptyVariables();
-  }
-
   bool ConstraintEngine::doPropagate()
   {
     check_error(!Entity::isPurging(), 
diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
index 48113bc..29c33d2 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
@@ -47,7 +47,7 @@ typedef Id<ConstraintEngineListener> ConstraintEngineListenerId;
 	  virtual bool isEmpty(ConstrainedVariableId v) const = 0;
   	  virtual void addEmptyVariable(ConstrainedVariableId c) = 0;
   	  virtual const ConstrainedVariableSet& getEmptyVariables() const = 0;
-  	  virtual void clearEmptyVariables() = 0;
+  	  virtual void removeEmptyVariable(ConstrainedVariableId c) = 0;
       virtual void relaxEmptyVariables() = 0;
 
   	protected:
@@ -518,7 +518,6 @@ typedef Id<ConstraintEngineListener> ConstraintEngineListenerId;
      * @brief Internal helper methods
      */
     bool hasEmptyVariables() const;
-    void clearEmptyVariables();
     bool doPropagate();
 
 
-- 
2.43.0


From 979ddd44156c086fbb364ab97f60cc61384da23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:45 +0000
Subject: [PATCH 049/106] fix: copy a token state domain as what it is

---
 src/PLASMA/PlanDatabase/base/Token.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PLASMA/PlanDatabase/base/Token.hh b/src/PLASMA/PlanDatabase/base/Token.hh
index 9d4d450..9770c4b 100644
--- a/src/PLASMA/PlanDatabase/base/Token.hh
+++ b/src/PLASMA/PlanDatabase/base/Token.hh
@@ -564,6 +564,7 @@ namespace EUROPA {
     StateDomain(const Domain& org);
     virtual void operator>>(ostream& os) const;
     Domain& operator=(const Domain& o) {return EnumeratedDomain::operator=(o);}
+    virtual StateDomain *copy() const {return new StateDomain(*this);}
   };
 }
 
-- 
2.43.0


From 8a7483a302279ff68c14d7cd819deb0a97fa4846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:21 +0000
Subject: [PATCH 050/106] fix: hold the distance of a timepoint from itself at
 zero

Merging two tokens can leave a temporal constraint between a timepoint and
itself, which the temporal network refused with an error.
---
 .../TemporalNetwork/component/TemporalPropagator.cc   | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 5ae53d2..51e2bde 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -455,6 +455,17 @@ ConstraintId getConstraint(ConstrainedVariableId fromvar,
     check_error(startTp);
     check_error(endTp);
 
+    // Merging the tokens of both leaves a constraint of a timepoint with itself. There is no such thing in the tnet, but
+    // the only distance it can have is 0.
+    if(startTp == endTp) {
+      const ConstrainedVariableId culprit = (constraint->getScope().size() == 3 ? constraint->getScope()[1] : start);
+      culprit->setCurrentPropagatingConstraint(constraint);
+      if(constraint->getScope().size() == 3)
+        static_cast<IntervalIntDomain&>(Propagator::getCurrentDomain(culprit)).intersect(0, 0);
+      else if(lb > 0)
+        Propagator::getCurrentDomain(culprit).empty();
+      return;
+    }
 
     TemporalConstraint* c = m_tnet->addTemporalConstraint(*startTp,
                                                           *endTp,
-- 
2.43.0


From c6b8b7e93cf20045952229b49fe872eb7b34fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:21 +0000
Subject: [PATCH 051/106] fix: keep what merged tokens restrict when a variable
 relaxes

TokenVariable::relax first relaxed to the token's own base domain, so the
restrictions integrated from merged tokens were lost until the next merge.
---
 src/PLASMA/PlanDatabase/base/TokenVariable.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/TokenVariable.hh b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
index 477bcc5..5f2ea6b 100644
--- a/src/PLASMA/PlanDatabase/base/TokenVariable.hh
+++ b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
@@ -284,10 +284,11 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
 
   template<class DomainType>
   void TokenVariable<DomainType>::relax() {
-    Variable<DomainType>::relax();
-
-    if(!(this->isSpecified()))
-    	this->m_derivedDomain->relax(*m_integratedBaseDomain);
+    // The merged tokens restrict what the variable can be, so it must not go back to its own base domain alone.
+    if(this->isSpecified())
+      Variable<DomainType>::relax();
+    else
+      this->m_derivedDomain->relax(*m_integratedBaseDomain);
   }
 
 }
-- 
2.43.0


From 2da4f54d6c70e06f4f80fddeb37a5ae0bc9f66ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:01 +0000
Subject: [PATCH 052/106] fix: let a timepoint follow a variable whose temporal
 constraints are all redundant

While all constraints of a variable are deactivated as redundant, nothing told
the propagator of its changes; repropagating the network then failed with an
error about bounds outside the variable's domain.
---
 .../component/TemporalPropagator.cc              | 16 ++++++++++++++++
 .../component/TemporalPropagator.hh              |  1 +
 2 files changed, 17 insertions(+)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 51e2bde..b4de5f6 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -613,6 +613,13 @@ void TemporalPropagator::updateCnet() {
 
     checkError(!dom.isEmpty(), var->toString());
 
+    // Changes of a variable are not heard of while all its temporal constraints are deactivated as redundant, so that its
+    // timepoint can be behind. It has to follow the variable then.
+    if((!dom.isMember(lb) || !dom.isMember(ub)) && !hasActiveTemporalConstraint(var)){
+      buffer(var);
+      continue;
+    }
+
     checkError(dom.isMember(lb) && dom.isMember(ub),
                "Updated bounds [" << lb << " " << ub << "] from timepoint " << tp << " are outside of "
                << dom.toString() << " for " << var->toString());
@@ -1339,6 +1346,15 @@ void TemporalPropagator::unmap(TemporalConstraint* const temp) {
   }
 }
 
+bool TemporalPropagator::hasActiveTemporalConstraint(const ConstrainedVariableId var) const {
+  ConstraintSet constraints;
+  var->constraints(constraints);
+  for(ConstraintSet::const_iterator it = constraints.begin(); it != constraints.end(); ++it)
+    if((*it)->isActive() && (*it)->getPropagator() == getId())
+      return true;
+  return false;
+}
+
 void TemporalPropagator::incrementRefCount(const ConstrainedVariableId var) {
   std::map<ConstrainedVariableId, unsigned int>::iterator it = m_refCount.find(var);
   if(it == m_refCount.end())
diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh
index 19dd72e..f33e1c9 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh
@@ -205,6 +205,7 @@ namespace EUROPA {
     void unmap(const ConstraintId constr);
     void unmap(TemporalConstraint* const temp);
     
+    bool hasActiveTemporalConstraint(const ConstrainedVariableId var) const;
     void incrementRefCount(const ConstrainedVariableId var);
     void decrementRefCount(const ConstrainedVariableId var);
 
-- 
2.43.0


From e333f122fb5dd01d751ad5a94ca0ca6d71398258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:01 +0000
Subject: [PATCH 053/106] fix: refuse a value that the merged tokens exclude

The value passed the check against the token's own base domain, and the next
relaxation made the contradiction with the merged tokens disappear.
---
 src/PLASMA/PlanDatabase/base/TokenVariable.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/TokenVariable.hh b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
index 5f2ea6b..c077adf 100644
--- a/src/PLASMA/PlanDatabase/base/TokenVariable.hh
+++ b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
@@ -153,6 +153,9 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
 	       "Attempted to specify " << this->toString() <<
 	       " of merged token " << this->m_parentToken->toString() << ". ");
 
+    checkError(m_integratedBaseDomain->isMember(singletonValue),
+	       singletonValue << " is excluded by the tokens merged with " << this->m_parentToken->toString());
+
     this->internalSpecify(singletonValue);
 
     m_isLocallySpecified = true;
-- 
2.43.0


From f3e8549ff4eb1e0a0f4cd642f323ce33d201cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:08 +0000
Subject: [PATCH 054/106] fix: keep the neighbours of tokens freed from a
 timeline ordered

---
 src/PLASMA/PlanDatabase/component/Timeline.cc | 60 +------------------
 src/PLASMA/PlanDatabase/component/Timeline.hh |  3 -
 2 files changed, 3 insertions(+), 60 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/Timeline.cc b/src/PLASMA/PlanDatabase/component/Timeline.cc
index e601b9f..43a6efa 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.cc
+++ b/src/PLASMA/PlanDatabase/component/Timeline.cc
@@ -369,20 +369,12 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
       return;
     }
 
-    TokenId startTok(predecessor);
-    TokenId endTok(successor);
-
-    // If successor is not required, remove it. Update the end token.
+    // Remove each of the two which is not required. Its neighbours are ordered with respect to each other as it goes.
     if (!successorRequired)
-      endTok = removeSuccessor(successor);
+      unlink(successor);
 
-    // If predecessor is not required, remove it and update the start token
     if (!predecessorRequired)
-      startTok = removePredecessor(predecessor);
-
-    // If valid start and end tokens, currently unconstrained, and adjacemt
-    if (adjacent(startTok, endTok) && !isConstrainedToPrecede(startTok, endTok))
-      Object::constrain(startTok, endTok, false); // Add an implied constraint
+      unlink(predecessor);
 
     check_error(isValid());
   }
@@ -435,52 +427,6 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
     return(!m_tokenSequence.empty() && token == m_tokenSequence.back());
   }
 
-  TokenId Timeline::removeSuccessor(const TokenId token) {
-    freeImplicitConstraints(token);
-    std::list<TokenId>::iterator pos = m_tokenIndex.find(token->getKey())->second;
-    removeFromIndex(token);
-
-    if (m_tokenIndex.empty()) {
-      m_tokenSequence.clear();
-      return TokenId::noId();
-    }
-
-    if (atEnd(token)) {
-      m_tokenSequence.pop_back();
-      return m_tokenSequence.back();
-    }
-
-    m_tokenSequence.erase(pos++);
-    return *pos;
-  }
-
-  TokenId Timeline::removePredecessor(const TokenId token) {
-    freeImplicitConstraints(token);
-    std::list<TokenId>::iterator pos = m_tokenIndex.find(token->getKey())->second;
-    removeFromIndex(token);
-
-    if (m_tokenIndex.empty()) {
-      m_tokenSequence.clear();
-      return TokenId::noId();
-    }
-
-    if (atStart(token)) {
-      m_tokenSequence.pop_front();
-      return m_tokenSequence.front();
-    }
-
-    m_tokenSequence.erase(pos--);
-    return(*pos);
-  }
-
-  bool Timeline::adjacent(const TokenId x, const TokenId y) const {
-    if (x.isNoId() || y.isNoId())
-      return(false);
-    std::list<TokenId>::const_iterator pos = m_tokenIndex.find(x->getKey())->second;
-    ++pos;
-    return(pos != m_tokenSequence.end() && y == *pos);
-  }
-
   void Timeline::unlink(const TokenId token) {
     freeImplicitConstraints(token);
     std::list<TokenId>::iterator pos = m_tokenIndex.find(token->getKey())->second;
diff --git a/src/PLASMA/PlanDatabase/component/Timeline.hh b/src/PLASMA/PlanDatabase/component/Timeline.hh
index 15c58c9..b4cac93 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.hh
+++ b/src/PLASMA/PlanDatabase/component/Timeline.hh
@@ -89,9 +89,6 @@ namespace EUROPA {
 
     /** Helper methods for the 'free' algorithm */
     void unlink(const TokenId token);
-    TokenId removeSuccessor(const TokenId token);
-    TokenId removePredecessor(const TokenId token);
-    bool adjacent(const TokenId x, const TokenId y) const;
 
 
     /**
-- 
2.43.0


From 2ed83147b980c08acb0853384f6e62024ac0d2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:08 +0000
Subject: [PATCH 055/106] fix: refuse an ordering on a timeline before changing
 anything

---
 src/PLASMA/PlanDatabase/component/Timeline.cc | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/Timeline.cc b/src/PLASMA/PlanDatabase/component/Timeline.cc
index 43a6efa..8826c05 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.cc
+++ b/src/PLASMA/PlanDatabase/component/Timeline.cc
@@ -206,16 +206,6 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
 	       "At least one of predecessor and successor should not be sequenced yet." <<
 	       predecessor->toString() << " before " << successor->toString());
 
-    // Delegate to base class.
-    Object::constrain(predecessor, successor, true);
-
-    // Notify the PlanDatabase that an ordering is no longer required for either of these, if they were previously required
-    if(orderingRequired(predecessor))
-      notifyOrderingNoLongerRequired(predecessor);
-
-    if(predecessor != successor && orderingRequired(successor))
-      notifyOrderingNoLongerRequired(successor);
-
     checkError(m_tokenSequence.empty() ||
 	       m_tokenIndex.find(predecessor->getKey()) != m_tokenIndex.end() ||
 	       m_tokenIndex.find(successor->getKey()) != m_tokenIndex.end(),
@@ -226,6 +216,16 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
 	       "Can only constrain with respect to yourself on an empty timeline." <<
 	       predecessor->toString() << " before " << successor->toString());
 
+    // Delegate to base class.
+    Object::constrain(predecessor, successor, true);
+
+    // Notify the PlanDatabase that an ordering is no longer required for either of these, if they were previously required
+    if(orderingRequired(predecessor))
+      notifyOrderingNoLongerRequired(predecessor);
+
+    if(predecessor != successor && orderingRequired(successor))
+      notifyOrderingNoLongerRequired(successor);
+
     // CASE 0: No tokens are sequenced yet
     if (m_tokenSequence.empty()) {
       // Insert the successor and store its position
-- 
2.43.0


From 8071761a27474bb23f2873842e6d336456187c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:08 +0000
Subject: [PATCH 056/106] fix: keep an object's constraints on a token while
 propagation is under way

---
 src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
index fa5765c..536cf41 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
@@ -143,6 +143,15 @@ namespace EUROPA {
         continue;
       }
 
+      // The object's own constraint keeps a token that is constrained to it there. If propagation has excluded
+      // the object all the same then that constraint brings about the inconsistency; it cannot be deleted
+      // in the middle of propagation.
+      if(m_token->isActive() && m_token->getPlanDatabase()->getConstraintEngine()->isPropagating() &&
+         object->isConstrainedToThisObject(m_token)){
+        ++it;
+        continue;
+      }
+
       debugMsg("ObjectTokenRelation:notifyRemovals", "Removing " << m_token->toString() << " from " << object->toString());
       m_notifiedObjects.erase(it);
       object->remove(m_token);
-- 
2.43.0


From 46c7823373747f5ad8835b471766608c078598cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:22 +0000
Subject: [PATCH 057/106] fix: report a temporal contradiction on an active
 variable, the same one in every run

---
 .../component/TemporalPropagator.cc             | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index b4de5f6..4de13a6 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -303,11 +303,18 @@ ConstraintId getConstraint(ConstrainedVariableId fromvar,
   {
       const std::set<Timepoint*>& updatedTimepoints = m_tnet->getUpdatedTimepoints();
       checkError(!updatedTimepoints.empty(), "updated timepoints are expected if tnet is not consistent");
-      std::map<Timepoint*, ConstrainedVariableId>::const_iterator it =
-          m_timepointToVar.find(*(updatedTimepoints.begin()));
-      check_error(it != m_timepointToVar.end());
-      ConstrainedVariableId var = it->second;
-      
+
+      // The timepoint of a variable that was deactivated may still be there: emptying such a variable would have no effect.
+      // Among the others, the choice must not depend on the order of timepoints in memory.
+      ConstrainedVariableId var;
+      for (std::set<Timepoint*>::const_iterator tp = updatedTimepoints.begin(); tp != updatedTimepoints.end(); ++tp) {
+          std::map<Timepoint*, ConstrainedVariableId>::const_iterator it = m_timepointToVar.find(*tp);
+          check_error(it != m_timepointToVar.end());
+          if (it->second->isActive() && (var.isNoId() || it->second->getKey() < var->getKey()))
+              var = it->second;
+      }
+      check_error(var.isId(), "an updated timepoint of an active variable is expected if tnet is not consistent");
+
       if (getConstraintEngine()->getAllowViolations())
           collectViolations(var);
       else
-- 
2.43.0


From 1782a7c1f5615915afed52bcd1ad84d80725875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:48 +0000
Subject: [PATCH 058/106] fix: forget that a token was placed by itself when it
 leaves the object

---
 src/PLASMA/PlanDatabase/base/Object.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PLASMA/PlanDatabase/base/Object.cc b/src/PLASMA/PlanDatabase/base/Object.cc
index d85737b..4dedce8 100644
--- a/src/PLASMA/PlanDatabase/base/Object.cc
+++ b/src/PLASMA/PlanDatabase/base/Object.cc
@@ -195,6 +195,7 @@ const std::string& Object::getName() const {
     check_error(!Entity::isPurging());
 
     m_tokens.erase(token);
+    m_explicitConstraints.erase(token->getKey());
 
     // A set is used to avoid duplicate deletions
     std::set<ConstraintId> constraints;
-- 
2.43.0


From 1df551543ac71064a3b6913830f0b5fc3ccacca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:29 +0000
Subject: [PATCH 059/106] fix: keep a token on the timeline when the last token
 it was ordered with is freed

---
 src/PLASMA/PlanDatabase/base/Object.hh        | 3 ++-
 src/PLASMA/PlanDatabase/component/Timeline.cc | 8 ++++++++
 src/PLASMA/PlanDatabase/component/Timeline.hh | 6 ++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/Object.hh b/src/PLASMA/PlanDatabase/base/Object.hh
index 8f8f46c..2a7b58c 100644
--- a/src/PLASMA/PlanDatabase/base/Object.hh
+++ b/src/PLASMA/PlanDatabase/base/Object.hh
@@ -336,6 +336,8 @@ namespace EUROPA {
     std::map<eint, std::pair<eint, eint> > m_keyPairsByConstraintKey; /**< Reverse lookup to obtain the key pair */
     ConstrainedVariableId m_thisVar; /**< Used to constrain against */
 
+    void constrainToThisObjectAsNeeded(const TokenId token);
+
   private:
     /**
      * @brief Handle deallocation
@@ -344,7 +346,6 @@ namespace EUROPA {
 
     void clean(const TokenId token);
     void clean(const ConstraintId constraint, eint tokenKey);
-    void constrainToThisObjectAsNeeded(const TokenId token);
 
     Object(const Object&); /**< NO IMPL - Prevent use of copy constructor. */
   };
diff --git a/src/PLASMA/PlanDatabase/component/Timeline.cc b/src/PLASMA/PlanDatabase/component/Timeline.cc
index 8826c05..4c8c9e4 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.cc
+++ b/src/PLASMA/PlanDatabase/component/Timeline.cc
@@ -366,6 +366,7 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
     // In the event we are freeing based on a single token, unlink it and get out
     if (predecessor == successor) {
       unlink(predecessor);
+      keepSequenceOnThisObject();
       return;
     }
 
@@ -376,9 +377,16 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
     if (!predecessorRequired)
       unlink(predecessor);
 
+    keepSequenceOnThisObject();
+
     check_error(isValid());
   }
 
+  void Timeline::keepSequenceOnThisObject() {
+    for (std::list<TokenId>::const_iterator it = m_tokenSequence.begin(); it != m_tokenSequence.end(); ++it)
+      constrainToThisObjectAsNeeded(*it);
+  }
+
   bool Timeline::isValid(bool cleaningUp) const {
 #ifdef EUROPA_FAST
     assertTrue(ALWAYS_FAIL, "Timeline::isValid() should never be called when compiling #define EUROPA_FAST");
diff --git a/src/PLASMA/PlanDatabase/component/Timeline.hh b/src/PLASMA/PlanDatabase/component/Timeline.hh
index b4cac93..8185ba0 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.hh
+++ b/src/PLASMA/PlanDatabase/component/Timeline.hh
@@ -90,6 +90,12 @@ namespace EUROPA {
     /** Helper methods for the 'free' algorithm */
     void unlink(const TokenId token);
 
+    /**
+     * @brief Freeing a token takes along the last constraint that kept a neighbour on this object, if that neighbour
+     * has no other ordering. As it stays in the sequence, it has to stay on the object.
+     */
+    void keepSequenceOnThisObject();
+
 
     /**
      * A list indicating the temporal order of Tokens constrained for this timeline.
-- 
2.43.0


From 46ebf08ca9df5724e9e0c250c07570f13b8b6ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:54 +0000
Subject: [PATCH 060/106] fix: relax what depends on variables that are relaxed
 by constraints removed during a relaxation

---
 .../ConstraintEngine/base/ConstraintEngine.cc  | 18 +++++++++++++++++-
 .../ConstraintEngine/base/ConstraintEngine.hh  |  2 ++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 25ee140..bdf08d9 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -303,6 +303,8 @@ DomainListenerId ConstraintEngine::allocateVariableListener(const ConstrainedVar
     , m_propagators()
     , m_propagatorsByName()
     , m_relaxing(false)
+    , m_relaxingVariable()
+    , m_nestedRelaxed()
     , m_relaxingViolation(false)
       //, m_relaxed(false)
     , m_relaxed()
@@ -453,6 +455,7 @@ DomainListenerId ConstraintEngine::allocateVariableListener(const ConstrainedVar
     check_error(m_variables.find(variable) != m_variables.end());
     m_variables.erase(variable);
     m_relaxed.erase(variable);
+    m_nestedRelaxed.remove(variable);
     if(Entity::isPurging())
       return;
 
@@ -842,8 +845,13 @@ void ConstraintEngine::notify(const ConstrainedVariableId source,
     check_error(variable.isValid());
     check_error(!m_propInProgress); /*!< Prohibit relaxations during propagation */
 
-    if(m_relaxing)
+    if(m_relaxing) {
+      // Relaxing a variable can lead to constraints being removed elsewhere. What depends on the variables relaxed by that
+      // must be relaxed as well.
+      if(variable != m_relaxingVariable)
+        m_nestedRelaxed.push_back(variable);
       return;
+    }
     debugMsg("ConstraintEngine:relaxed",
 	     "Handling relaxation of " << variable->toLongString());
 
@@ -895,12 +903,20 @@ void ConstraintEngine::notify(const ConstrainedVariableId source,
     		debugMsg("ConstraintEngine:relaxed",
     				"Relaxing " << id->toLongString());
     		id->updateLastRelaxed(m_cycleCount);
+    		m_relaxingVariable = id;
     		id->relax();
+    		m_relaxingVariable = ConstrainedVariableId::noId();
     		if(!m_relaxingViolation)
     			m_violationMgr->handleRelax(id);
     	}
     }
     m_relaxing = false;
+
+    std::list<ConstrainedVariableId> nestedRelaxed;
+    nestedRelaxed.swap(m_nestedRelaxed);
+    for(std::list<ConstrainedVariableId>::const_iterator it = nestedRelaxed.begin(); it != nestedRelaxed.end(); ++it)
+      if(getVariables().find(*it) != getVariables().end())
+        handleRelax(*it);
   }
 
   void ConstraintEngine::handleRestrict(const ConstrainedVariableId var) {
diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
index 29c33d2..47fad27 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh
@@ -551,6 +551,8 @@ typedef Id<ConstraintEngineListener> ConstraintEngineListenerId;
     std::map<std::string, PropagatorId> m_propagatorsByName; /*!< Support configuration and lookup by name. */
 
     bool m_relaxing;
+    ConstrainedVariableId m_relaxingVariable; /*!< The variable being relaxed while m_relaxing */
+    std::list<ConstrainedVariableId> m_nestedRelaxed; /*!< Other variables relaxed as a consequence while m_relaxing */
     bool m_relaxingViolation; /*!< Flag to record if relax events should be ignored by the ViolationMgr */
     //bool m_relaxed;           /*!< Set when a domain is RELAXED. Implies PENDING. */
     std::set<ConstrainedVariableId> m_relaxed;
-- 
2.43.0


From 324ebc2e52becdda5a3ef076e1c208bfa379c001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:42 +0000
Subject: [PATCH 061/106] fix: let a token be cancelled and its constraints
 removed before it is taken apart

---
 src/PLASMA/PlanDatabase/base/Token.cc         | 21 +++++++++++++++++++
 src/PLASMA/PlanDatabase/base/Token.hh         |  5 +++--
 .../PlanDatabase/component/EventToken.cc      |  4 ++++
 .../PlanDatabase/component/EventToken.hh      |  2 ++
 .../PlanDatabase/component/IntervalToken.cc   |  4 ++++
 .../PlanDatabase/component/IntervalToken.hh   |  2 ++
 src/PLASMA/RulesEngine/base/RuleInstance.cc   |  8 +++++++
 7 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/Token.cc b/src/PLASMA/PlanDatabase/base/Token.cc
index 3bae4b2..9daf31f 100644
--- a/src/PLASMA/PlanDatabase/base/Token.cc
+++ b/src/PLASMA/PlanDatabase/base/Token.cc
@@ -151,12 +151,29 @@ Token::Token(const TokenId _master,
   commonInit(tokenTypeName, false, false, durationBaseDomain, objectName, closed);
 }
 
+  namespace {
+    void discardConstraints(const std::vector<ConstrainedVariableId>& variables) {
+      for(std::vector<ConstrainedVariableId>::const_iterator it = variables.begin(); it != variables.end(); ++it) {
+        ConstraintSet remaining;
+        (*it)->constraints(remaining);
+        while(!remaining.empty()) { // Removing one can lead to others being removed
+          delete static_cast<Constraint*>(*remaining.begin());
+          remaining.clear();
+          (*it)->constraints(remaining);
+        }
+      }
+    }
+  }
+
   Token::~Token(){
     handleDiscard();
     m_id.remove();
   }
 
   void Token::handleDiscard(){
+    if(m_deleted) // Already done by the derived class
+      return;
+
     debugMsg("Token:handleDiscard", "Discarding (" << getKey() << ") id==" << getId());
 
     m_deleted = true;
@@ -193,6 +210,10 @@ Token::Token(const TokenId _master,
 
       cleanup(m_standardConstraints); //TODO: is this the right thing?
 
+      // What else constrains the variables goes with them
+      discardConstraints(m_allVariables);
+      discardConstraints(m_pseudoVariables);
+
       // Now remove all the variables
       cleanup(m_allVariables);
 
diff --git a/src/PLASMA/PlanDatabase/base/Token.hh b/src/PLASMA/PlanDatabase/base/Token.hh
index 9770c4b..ed1b25b 100644
--- a/src/PLASMA/PlanDatabase/base/Token.hh
+++ b/src/PLASMA/PlanDatabase/base/Token.hh
@@ -520,12 +520,13 @@ namespace EUROPA {
     const PlanDatabaseId m_planDatabase;
 
 
-  private:
     /**
-     * @brief Handle deallocation
+     * @brief Handle deallocation. The token is cancelled here if it is not inactive, so it has to be called while the derived
+     * part is still there, in the destructor of the class that implements the temporal variables.
      */
     void handleDiscard();
 
+  private:
 
     bool isValid() const;
 
diff --git a/src/PLASMA/PlanDatabase/component/EventToken.cc b/src/PLASMA/PlanDatabase/component/EventToken.cc
index 25a3d1e..2e5eab0 100644
--- a/src/PLASMA/PlanDatabase/component/EventToken.cc
+++ b/src/PLASMA/PlanDatabase/component/EventToken.cc
@@ -35,6 +35,10 @@ EventToken::EventToken(const PlanDatabaseId planDatabase,
     commonInit(timeBaseDomain);
   }
 
+  EventToken::~EventToken() {
+    handleDiscard();
+  }
+
   const TempVarId EventToken::start() const{return m_time;}
   const TempVarId EventToken::end() const{return m_time;}
   const TempVarId EventToken::getTime() const{return m_time;}
diff --git a/src/PLASMA/PlanDatabase/component/EventToken.hh b/src/PLASMA/PlanDatabase/component/EventToken.hh
index bba3379..cccf4eb 100644
--- a/src/PLASMA/PlanDatabase/component/EventToken.hh
+++ b/src/PLASMA/PlanDatabase/component/EventToken.hh
@@ -27,6 +27,8 @@ namespace EUROPA {
 	       const std::string& objectName = Token::noObject(),
 	       bool closed = true);
 
+    ~EventToken();
+
     const TempVarId start() const;
     const TempVarId end() const;
     const TempVarId getTime() const;
diff --git a/src/PLASMA/PlanDatabase/component/IntervalToken.cc b/src/PLASMA/PlanDatabase/component/IntervalToken.cc
index 4318dd2..12a2c6a 100644
--- a/src/PLASMA/PlanDatabase/component/IntervalToken.cc
+++ b/src/PLASMA/PlanDatabase/component/IntervalToken.cc
@@ -42,6 +42,10 @@ IntervalToken::IntervalToken(const TokenId _master,
   commonInit(startBaseDomain, endBaseDomain, closed);
 }
 
+  IntervalToken::~IntervalToken() {
+    handleDiscard();
+  }
+
   const TempVarId IntervalToken::start() const{
     checkError(m_start.isValid(), m_start);
     return m_start;}
diff --git a/src/PLASMA/PlanDatabase/component/IntervalToken.hh b/src/PLASMA/PlanDatabase/component/IntervalToken.hh
index 4f21e79..1fa21a5 100644
--- a/src/PLASMA/PlanDatabase/component/IntervalToken.hh
+++ b/src/PLASMA/PlanDatabase/component/IntervalToken.hh
@@ -31,6 +31,8 @@ namespace EUROPA {
 		  const std::string& objectName = Token::noObject(),
 		  bool closed = true);
 
+    ~IntervalToken();
+
     const TempVarId start() const;
     const TempVarId end() const;
 
diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.cc b/src/PLASMA/RulesEngine/base/RuleInstance.cc
index 95400d4..aff64f6 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.cc
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.cc
@@ -347,6 +347,14 @@ void RuleInstance::undo() {
       getToken()->removeLocalVariable(var);
 
       if(var->parent() == m_id) {
+        // Constraints among local variables are not connected to the master, and go with the variables
+        ConstraintSet remaining;
+        var->constraints(remaining);
+        while(!remaining.empty()) { // Removing one can lead to others being removed
+          delete static_cast<Constraint*>(*remaining.begin());
+          remaining.clear();
+          var->constraints(remaining);
+        }
 	delete static_cast<ConstrainedVariable*>(var);
       }
 
-- 
2.43.0


From e5fda88831560ba83b562d9fa1302a57f98d7184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:42 +0000
Subject: [PATCH 062/106] fix: keep a token variable specified by its own base
 domain specified when a token merged with it is split

---
 src/PLASMA/PlanDatabase/base/TokenVariable.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/TokenVariable.hh b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
index c077adf..6cbe5af 100644
--- a/src/PLASMA/PlanDatabase/base/TokenVariable.hh
+++ b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
@@ -138,8 +138,15 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
 
   template <class DomainType>
   void TokenVariable<DomainType>::handleRestrictBaseDomain(const Domain& domain){
+    const bool wasSpecified = this->isSpecified();
     Variable<DomainType>::handleRestrictBaseDomain(domain);
 
+    // Restricting to a single value specifies it
+    if(!wasSpecified && this->isSpecified()) {
+      m_isLocallySpecified = true;
+      m_localSpecifiedValue = this->getSpecifiedValue();
+    }
+
     if(this->m_integratedBaseDomain->isOpen() && domain.isClosed())
       this->m_integratedBaseDomain->close();
 
-- 
2.43.0


From eb2c631a3a83b9829f87de5e3932ac9efc22cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:20 +0000
Subject: [PATCH 063/106] fix: don't delete the operands of an undefined method
 or function twice

---
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index 860fb3f..c2ecd8f 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -1009,9 +1009,7 @@ methodInvocation returns [Expr* result]
             
         MethodId method = CTX->SymbolTable->getMethod(mName.c_str(),v,args);
         if (method.isNoId()) {
-            delete v;
-            cleanup(args.begin(), args.end());
-            args.clear();
+            // v and args are on the cleanup stack
             reportSemanticError(CTX,"Method "+mName+" is not defined");
         }   
         result = new ExprMethodCall(method,v,args);
@@ -1063,17 +1061,14 @@ cexpression returns [CExpr* result]
             std::string fName = c_str($name.text->chars);
             CFunctionId func = CTX->SymbolTable->getCFunction(fName.c_str(),args);
             
+            // args are on the cleanup stack
             if (func.isNoId())  {
-                cleanup(args.begin(), args.end());
-                args.clear();
                 reportSemanticError(CTX, "CFunction does not exist: " + fName);
             }
             try {
                 CTX->SymbolTable->checkCFunction(fName, args);
             }
             catch(const std::string& errorMsg) {
-                cleanup(args.begin(), args.end());
-                args.clear();
                 reportSemanticError(CTX, errorMsg);
             }
             result = new CExprFunction(func, args);
-- 
2.43.0


From 7132d4066ea0b0c87d56c309e25cf6e88a859d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:20 +0000
Subject: [PATCH 064/106] fix: restrict the variable of an 'in' statement,
 which was read and then dropped

---
 src/PLASMA/NDDL/base/antlr/NDDL3.g     | 2 +-
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3.g b/src/PLASMA/NDDL/base/antlr/NDDL3.g
index 26a8bb6..205266b 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3.g
@@ -174,7 +174,7 @@ qualified
     ;
 
 assignment
-    :   qualified ('in' | '=') initializer ';' -> ^('=' qualified initializer)
+    :   qualified ('in'^ | '='^) initializer ';'!
     ;
     
 initializer
diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index c2ecd8f..472a5f1 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -590,7 +590,7 @@ constructorSuper[ObjectType* objType] returns [ExprConstructorSuperCall* result]
 	;
   
 assignment returns [ExprAssignment* result]
-	:	^('='
+	:	^(('=' | 'in')
 			lhs=qualified
 			rhs=initializer[lhs->toString().c_str()]
 		)
-- 
2.43.0


From d11ea80d18b1602e76713417753d543c52152487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:20 +0000
Subject: [PATCH 065/106] fix: set a variable declared with its initial value
 in parentheses

---
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index 472a5f1..d69c286 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -216,7 +216,7 @@ variableInitialization[const DataTypeId& dataType] returns [Expr* result]
    const char* varName; 
 }
     :   (   name=IDENT { varName = c_str($name.text->chars); }
-        |   ^('=' name=IDENT  { varName = c_str($name.text->chars); } initExpr=initializer[varName])
+        |   ^(('=' | '(') name=IDENT  { varName = c_str($name.text->chars); } initExpr=initializer[varName])
         )
         {
             if(initExpr != NULL)
-- 
2.43.0


From 89b498d9df434696fd7374530052645bb93eece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:20 +0000
Subject: [PATCH 066/106] fix: don't delete a statement twice when it can't be
 evaluated

---
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index d69c286..af75c5a 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -102,11 +102,12 @@ nddl
 		  ) 
 		  {
 		      if (child != NULL) { 
+                  // Deleted here from now on, also if it can't be evaluated
+                  CTX->SymbolTable->popFromCleanupStack();
                   boost::scoped_ptr<Expr> c(child);
 		          debugMsg("NddlInterpreter:nddl","Evaluating:" << child->toString());
                   evalExpr(CTX,child);
 		          debugMsg("NddlInterpreter:nddl","Done evaluating:" << child->toString());
-                  CTX->SymbolTable->popFromCleanupStack();
                   checkError(CTX->SymbolTable->cleanupStackSize() == 0,
                              CTX->SymbolTable->cleanupStackSize());
 		          // TODO!!: systematically deal with memory mgmt for all Exprs.
-- 
2.43.0


From 9a04ddeaf1c27cc103cf6e74fa6b9c739d1b63c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:20 +0000
Subject: [PATCH 067/106] fix: report statements the tree grammar has no place
 for

---
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index af75c5a..6317c81 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -25,6 +25,8 @@ options {
 #include <boost/cast.hpp>
 using namespace EUROPA;
 
+// Forward declaration so that we can use this function in apifuncs
+static void reportTreeError(pANTLR3_BASE_RECOGNIZER recognizer);
 }
 
 @members {
@@ -35,7 +37,6 @@ static const char* c_str(pANTLR3_UINT8 chars)
     return (const char*)chars;
 }
 
-// TODO: make sure we also get ANTLR errors, see apifuncs below
 static void reportSemanticError(pNDDL3Tree treeWalker, const std::string& msg)
 {
     treeWalker->SymbolTable->reportError(treeWalker,msg);
@@ -43,6 +44,13 @@ static void reportSemanticError(pNDDL3Tree treeWalker, const std::string& msg)
     throw msg;
 }
 
+// The tree doesn't match this grammar, nothing after this point can be relied on
+static void reportTreeError(pANTLR3_BASE_RECOGNIZER recognizer)
+{
+    pANTLR3_TREE_PARSER treeParser = (pANTLR3_TREE_PARSER)recognizer->super;
+    reportSemanticError((pNDDL3Tree)treeParser->super, "Statement is not supported here");
+}
+
 static std::string getAutoLabel(const char* prefix)
 {
     static int idx = 0;
@@ -74,12 +82,9 @@ static void popContext(pNDDL3Tree treeWalker)
 
 @apifuncs
 {
-    // TODO: Install custom error message display that gathers them in CTX->SymbolTable
-    //RECOGNIZER->displayRecognitionError = reportAntlrError;
-
-    // Add a function with the following signature:
-    // void reportAntlrError(pANTLR3_BASE_RECOGNIZER recognizer, pANTLR3_UINT8 *tokenNames);    
-    // use the meat from displayRecognitionError() in antlr3baserecognizer.c
+    RECOGNIZER->reportError = reportTreeError;
+    // This is needed so that we can get to the CTX from reportTreeError
+    ctx->pTreeParser->super = (void *)ctx;
 }
 
 nddl      
-- 
2.43.0


From 8f91cfafd8689e4b9e207d1f912a9a9c770dd3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:20 +0000
Subject: [PATCH 068/106] fix: read the values of restricted types like those
 of the types they restrict

---
 src/PLASMA/ConstraintEngine/component/DataTypes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/component/DataTypes.cc b/src/PLASMA/ConstraintEngine/component/DataTypes.cc
index 8ce007d..8c14f88 100644
--- a/src/PLASMA/ConstraintEngine/component/DataTypes.cc
+++ b/src/PLASMA/ConstraintEngine/component/DataTypes.cc
@@ -214,7 +214,7 @@ edouble RestrictedDT::minDelta() const  { return m_baseType->minDelta(); }
 edouble RestrictedDT::createValue(const std::string& value) const
 {
     if (isNumeric())
-        return(atof(value.c_str()));
+        return(m_baseType->createValue(value));
 
     return(LabelStr(value));
 }
-- 
2.43.0


From 848f911700e8f2a026debc798cfcc80c7a6f0fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:20 +0000
Subject: [PATCH 069/106] fix: read integers beyond 32 bits and refuse those
 out of range

---
 src/PLASMA/ConstraintEngine/component/DataTypes.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/component/DataTypes.cc b/src/PLASMA/ConstraintEngine/component/DataTypes.cc
index 8c14f88..fae2f66 100644
--- a/src/PLASMA/ConstraintEngine/component/DataTypes.cc
+++ b/src/PLASMA/ConstraintEngine/component/DataTypes.cc
@@ -7,6 +7,8 @@
 
 #include "Number.hh"
 #include "DataTypes.hh"
+#include <cerrno>
+#include <cstdlib>
 
 #include "Domains.hh"
 #include "Variable.hh"
@@ -108,7 +110,11 @@ edouble IntDT::createValue(const std::string& value) const
   if (value == "+inf" || value == "inf") {
     return PLUS_INFINITY;
   }
-  return atoi(value.c_str());
+  errno = 0;
+  const long result = strtol(value.c_str(), NULL, 10);
+  check_runtime_error(errno == 0 && result < cast_double(PLUS_INFINITY) && result > cast_double(MINUS_INFINITY),
+                      value + " is not in the range of the integers");
+  return static_cast<double>(result);
 }
 
 BoolDT::BoolDT()
-- 
2.43.0


From 7d963466bbb0448aab934cdea94019197331c8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:20 +0000
Subject: [PATCH 070/106] fix: refuse an initial value that is not of the
 variable's type

---
 src/PLASMA/NDDL/component/Interpreter.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index c0be9b0..c972748 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -1947,6 +1947,21 @@ const std::string& ExprVarDeclaration::getName() const { return m_name; }
       return DataRef(v);
   }
 
+namespace {
+void checkInitialValue(EvalContext& context, const std::string& name, const DataTypeId type, const Domain& value) {
+  bool fits = value.isSubsetOf(type->baseDomain()) &&
+      (!value.isSingleton() || type->baseDomain().isOpen() || type->baseDomain().isMember(value.getSingletonValue()));
+  if (fits && type->isEntity() && value.isEntity()) {
+    const SchemaId schema = getPDB(context)->getSchema();
+    std::list<edouble> objects;
+    value.getValues(objects);
+    for (std::list<edouble>::const_iterator it = objects.begin(); it != objects.end(); ++it)
+      fits = fits && schema->isA(Entity::getTypedEntity<Object>(*it)->getType(), type->getName());
+  }
+  check_runtime_error(fits, "Variable " + name + " of type " + type->getName() + " can not be set to " + value.toString());
+}
+}
+
 ConstrainedVariableId ExprVarDeclaration::makeGlobalVar(EvalContext& context) const {
   const std::string& name = getName();
   const std::string& type = getDataType()->getName();
@@ -1956,9 +1971,11 @@ ConstrainedVariableId ExprVarDeclaration::makeGlobalVar(EvalContext& context) co
   ConstrainedVariableId v;
 
   if (initValue != NULL) {
+    const ConstrainedVariableId init = initValue->eval(context).getValue();
+    checkInitialValue(context, name, getDataType(), init->baseDomain());
     v = pdb->createVariable(
         type.c_str(),
-        initValue->eval(context).getValue()->baseDomain(), // baseDomain
+        init->baseDomain(), // baseDomain
         name.c_str(),
         false, // isTmpVar
         m_canBeSpecified
-- 
2.43.0


From 5d2b46e70a6989b75e3a45e16c9c9537c8deddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:20 +0000
Subject: [PATCH 071/106] fix: let the relation equal mean equals

---
 src/PLASMA/NDDL/component/Interpreter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index c972748..027c6da 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -1092,7 +1092,7 @@ void createRelation(EvalContext& context,
   else if (relationName == "starts_before") {
     makeStrictPrecedenceRelation(origin, start, target, start);
   }
-  else if (relationName == "equals") {
+  else if (relationName == "equals" || relationName == "equal") {
     makeRelation(concurrent, origin, start, target, start);
     makeRelation(concurrent, target, end, origin, end);
     makeRelation(eq, origin, duration, target, duration);
-- 
2.43.0


From 30c5b635a4a8b6b96f75d741db34107f3025116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:20 +0000
Subject: [PATCH 072/106] fix: let contains_end order the ends as its name says

---
 src/PLASMA/NDDL/component/Interpreter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index 027c6da..7369eb3 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -1084,7 +1084,7 @@ void createRelation(EvalContext& context,
   }
   else if (relationName == "contains_end") {
     makeStrictPrecedenceRelation(origin, start, target, end);
-    makeRelation(precedes, origin, end, target, end);
+    makeRelation(precedes, target, end, origin, end);
   }
   else if (relationName == "starts_after") {
     makeStrictPrecedenceRelation(target, start, origin, start);
-- 
2.43.0


From 618a51790d8f2099f208017eb747dbda24733c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 073/106] fix: don't restrict the result of arithmetic on
 restricted numbers to their range

---
 src/PLASMA/NDDL/component/Interpreter.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index 7369eb3..9a35c7b 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -511,6 +511,13 @@ bool isTimepoint(DataRef var) {
   return dynamic_cast< TokenVariable<IntervalIntDomain>* >(cvar) != NULL
       && (cvar->getName() == "end" || cvar->getName() == "start");
 }
+
+// The result of an operation on restricted numbers is not restricted in the same way
+DataTypeId resultType(const DataTypeId dt) {
+  if (!dt->isNumeric() || dt->isBool())
+    return dt;
+  return dt->minDelta() < 1.0 ? FloatDT::instance() : IntDT::instance();
+}
 }
 
   bool CExprBinary::isSingleton() {
@@ -570,9 +577,9 @@ bool isTimepoint(DataRef var) {
           //Get the data type.
           DataTypeId data;
           if (returnType == "") {
-              returnType = left.getValue()->getDataType()->getName().c_str();
-              data = left.getValue()->getDataType();
-              check_runtime_error(returnType == right.getValue()->getDataType()->getName().c_str(), "We don't support expressions with different types going in to one var (e.g. float + int)");
+              data = resultType(left.getValue()->getDataType());
+              returnType = data->getName().c_str();
+              check_runtime_error(returnType == resultType(right.getValue()->getDataType())->getName().c_str(), "We don't support expressions with different types going in to one var (e.g. float + int)");
           } else if (returnType == "bool") {
               data = BoolDT::instance();
           } else {
-- 
2.43.0


From a4d63ba9794ae9c55ad3badf64a58ef74057be64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 074/106] fix: give an inherited member the type its class
 declares

---
 src/PLASMA/PlanDatabase/base/Object.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/Object.cc b/src/PLASMA/PlanDatabase/base/Object.cc
index 4dedce8..a08c7ca 100644
--- a/src/PLASMA/PlanDatabase/base/Object.cc
+++ b/src/PLASMA/PlanDatabase/base/Object.cc
@@ -629,12 +629,18 @@ void Object::constrain(const TokenId predecessor, const TokenId successor, bool
 
 ConstrainedVariableId Object::addVariable(const Domain& baseDomain, const std::string& name){
   std::string varTypeName = "";
-  Schema::NameValueVector members = m_planDatabase->getSchema()->getMembers(m_type);
-  for (unsigned int i = 0; i < members.size(); i++) {
-    debugMsg("Object:typeForNewMember", "member [" << members[i].first.c_str() << ", " << members[i].second.c_str() << "]");
-    if (members[i].second.c_str() ==  name) {
-      varTypeName = members[i].first.c_str();
+  const SchemaId& schema = m_planDatabase->getSchema();
+  // The member may be declared by an ancestor
+  for (std::string type = m_type; varTypeName == ""; type = schema->getParent(type)) {
+    Schema::NameValueVector members = schema->getMembers(type);
+    for (unsigned int i = 0; i < members.size(); i++) {
+      debugMsg("Object:typeForNewMember", "member [" << members[i].first.c_str() << ", " << members[i].second.c_str() << "]");
+      if (members[i].second.c_str() ==  name) {
+        varTypeName = members[i].first.c_str();
+      }
     }
+    if (!schema->hasParent(type))
+      break;
   }
 
   if (varTypeName == "") {
-- 
2.43.0


From 5f1ab70e5aea414285966674726f9754c9b85653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 075/106] fix: compare the names of object types when looking
 for a constructor

---
 src/PLASMA/PlanDatabase/base/ObjectType.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/ObjectType.cc b/src/PLASMA/PlanDatabase/base/ObjectType.cc
index e734851..afef1e0 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectType.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectType.cc
@@ -371,7 +371,7 @@ ObjectFactoryId ObjectTypeMgr::getFactory(const SchemaId schema,
     if(!schema->isA(objectType, signatureTypes[0]))
       continue;
 
-    if (signatureTypes[0].c_str() != objectType.c_str())
+    if (signatureTypes[0] != objectType)
       continue;
 
     // If the argument length does not match the signature, which includes the extra for the class
-- 
2.43.0


From ab4c9176f4c1413ab669170a09bce0232dacb19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 076/106] fix: let a token whose construction failed be taken
 apart

---
 src/PLASMA/PlanDatabase/base/Token.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/Token.cc b/src/PLASMA/PlanDatabase/base/Token.cc
index 9daf31f..4859490 100644
--- a/src/PLASMA/PlanDatabase/base/Token.cc
+++ b/src/PLASMA/PlanDatabase/base/Token.cc
@@ -184,25 +184,28 @@ Token::Token(const TokenId _master,
       decRefCount();
 
     if(!Entity::isPurging()){ // Exploit relationships for cascaded delete
-      check_error(!isIncomplete());
-      check_error(isValid());
+      // Nobody else knows about a token that could not be completed
+      const bool complete = !m_state.isNoId() && !isIncomplete();
+      check_error(!complete || isValid());
 
       // if(!m_unifyMemento.isNoId())
       // 	m_unifyMemento.release();
 
       // If it has been merged or activated then cancel it. This allows events to flow to unlink the implications
       // to dependent entities.
-      if (!isInactive())
+      if (complete && !isInactive())
 	cancel();
 
-      // Notify objects that the token is being deleted. Allows synchronization
-      const std::set<edouble>& objects = getObject()->getBaseDomain().getValues();
-      for(std::set<edouble>::const_iterator it = objects.begin(); it!= objects.end(); ++it){
-	ObjectId object = Entity::getTypedEntity<Object>(*it);
-	object->notifyDeleted(m_id);
-      }
+      if (complete) {
+	// Notify objects that the token is being deleted. Allows synchronization
+	const std::set<edouble>& objects = getObject()->getBaseDomain().getValues();
+	for(std::set<edouble>::const_iterator it = objects.begin(); it!= objects.end(); ++it){
+	  ObjectId object = Entity::getTypedEntity<Object>(*it);
+	  object->notifyDeleted(m_id);
+	}
 
-      m_planDatabase->notifyRemoved(m_id);
+	m_planDatabase->notifyRemoved(m_id);
+      }
 
       // Notify master of removal if appropriate - won't be done if this has arisen out of cascaded delete.
       if(!m_master.isNoId())
-- 
2.43.0


From 5db94404bd58fcef10206c7197d3c3d48e3df624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 077/106] fix: let rules be scheduled and discarded while rules
 are executed and undone

---
 src/PLASMA/RulesEngine/base/RuleInstance.cc |  3 +
 src/PLASMA/RulesEngine/base/RulesEngine.cc  | 73 +++++++++++----------
 src/PLASMA/RulesEngine/base/RulesEngine.hh  |  1 +
 3 files changed, 41 insertions(+), 36 deletions(-)

diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.cc b/src/PLASMA/RulesEngine/base/RuleInstance.cc
index aff64f6..a0541f6 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.cc
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.cc
@@ -141,6 +141,9 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
   void RuleInstance::handleDiscard(){
     checkError(m_token.isValid(), m_token);
 
+    if(!m_rulesEngine.isNoId() && !Entity::isPurging())
+      m_rulesEngine->unschedule(getId());
+
     if(isExecuted())
       undo();
 
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.cc b/src/PLASMA/RulesEngine/base/RulesEngine.cc
index 06d38b6..1e2d702 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.cc
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.cc
@@ -243,51 +243,52 @@ RulesEngine::~RulesEngine(){
     m_ruleInstancesToUndo.push_back(r);
   }
 
+  void RulesEngine::unschedule(const RuleInstanceId r) {
+    std::replace(m_ruleInstancesToExecute.begin(), m_ruleInstancesToExecute.end(), r, RuleInstanceId::noId());
+    std::replace(m_ruleInstancesToUndo.begin(), m_ruleInstancesToUndo.end(), r, RuleInstanceId::noId());
+  }
+
+  namespace {
+    class Executing {
+    public:
+      Executing(bool& executing) : m_executing(executing) {m_executing = true;}
+      ~Executing() {m_executing = false;}
+    private:
+      bool& m_executing;
+    };
+  }
+
   bool RulesEngine::doRules() {
-    check_error(!m_executing);
-    m_executing = true;
-    debugMsg("RulesEngine:doRules", "Executing rules.");
-    
-    // std::sort(m_ruleInstancesToExecute.begin(), m_ruleInstancesToExecute.end(), EntityComparator<RuleInstanceId>());
-    // std::sort(m_ruleInstancesToUndo.begin(), m_ruleInstancesToUndo.end(), EntityComparator<RuleInstanceId>());
-    // std::vector<RuleInstanceId>::iterator execEnd = std::unique(m_ruleInstancesToExecute.begin(),
-    //                                                             m_ruleInstancesToExecute.end(),
-    //                                                             EntityComparator<RuleInstanceId>());
-    // std::vector<RuleInstanceId>::iterator undoEnd = std::unique(m_ruleInstancesToUndo.begin(),
-    //                                                             m_ruleInstancesToUndo.end(),
-    //                                                             EntityComparator<RuleInstanceId>());
-    std::vector<RuleInstanceId>::iterator execEnd = m_ruleInstancesToExecute.end();
-    std::vector<RuleInstanceId>::iterator undoEnd = m_ruleInstancesToUndo.end();
-    
+    // Executing a rule may require propagation. The rules that get scheduled by that are handled below.
+    if(m_executing)
+      return false;
+
+    Executing executing(m_executing);
     bool retval = false;
 
-    debugMsg("RulesEngine:doRules", "Have " << m_ruleInstancesToExecute.size() << 
-	     " total rules in execution list, executing " << 
-	     std::distance(m_ruleInstancesToExecute.begin(), execEnd));
-    
-    for(std::vector<RuleInstanceId>::const_iterator it = m_ruleInstancesToExecute.begin(); it != execEnd; ++it) {
-      debugMsg("RulesEngine:doRules", 
-	       "In vector: " << (*it)->toString() << " : " <<
-	       ((*it)->isExecuted() ? "E" : "*") <<
-	       ((*it)->test() ? "T" : "*") <<
-	       ((*it)->hasEmptyGuard() ? "G" : "*"));
-    }
-    for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToExecute.begin(); it != execEnd; ++it)
-      if(!(*it)->isExecuted() && (*it)->test()) {
-        debugMsg("RulesEngine:doRules", "Executing rule " << (*it)->toString());
-        (*it)->execute();
+    debugMsg("RulesEngine:doRules", "Have " << m_ruleInstancesToExecute.size() <<
+	     " total rules in execution list");
+
+    // Both lists can grow, and rule instances on them can be discarded, while rules are executed and undone
+    for(unsigned int i = 0; i < m_ruleInstancesToExecute.size(); ++i) {
+      RuleInstanceId r = m_ruleInstancesToExecute[i];
+      if(r.isId() && !r->isExecuted() && r->test()) {
+        debugMsg("RulesEngine:doRules", "Executing rule " << r->toString());
+        r->execute();
         retval = true;
       }
-    for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToUndo.begin(); it != undoEnd; ++it)
-      if((*it)->isExecuted() && !(*it)->test() && !(*it)->hasEmptyGuard()) {
-        debugMsg("RulesEngine:doRules", "Undoing rule " << (*it)->toString());
-        (*it)->undo();
+    }
+    for(unsigned int i = 0; i < m_ruleInstancesToUndo.size(); ++i) {
+      RuleInstanceId r = m_ruleInstancesToUndo[i];
+      if(r.isId() && r->isExecuted() && !r->test() && !r->hasEmptyGuard()) {
+        debugMsg("RulesEngine:doRules", "Undoing rule " << r->toString());
+        r->undo();
         retval = true;
       }
+    }
     m_ruleInstancesToExecute.clear();
     m_ruleInstancesToUndo.clear();
-    debugMsg("RulesEngine:doRules", "Done executing rules " << m_executing << " returning " << (retval ? " true" : " false"));
-    m_executing = false;
+    debugMsg("RulesEngine:doRules", "Done executing rules, returning " << (retval ? " true" : " false"));
     return retval;
   }
 
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.hh b/src/PLASMA/RulesEngine/base/RulesEngine.hh
index 2b2cf61..afd55dc 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.hh
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.hh
@@ -59,6 +59,7 @@ namespace EUROPA {
     bool isPending(const RuleInstanceId r) const;
     void scheduleForExecution(const RuleInstanceId r);
     void scheduleForUndoing(const RuleInstanceId r);
+    void unschedule(const RuleInstanceId r);
     bool doRules();
     bool hasWork() const;
     
-- 
2.43.0


From 0773eb9aaaa5fc101a64479f4993384474856213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:13 +0000
Subject: [PATCH 078/106] fix: let a condition inside a loop see the names of
 its own iteration

---
 src/PLASMA/RulesEngine/base/RuleInstance.cc | 23 ++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.cc b/src/PLASMA/RulesEngine/base/RuleInstance.cc
index a0541f6..de220d1 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.cc
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.cc
@@ -57,14 +57,16 @@ RuleInstance::RuleInstance(const RuleId rule, const TokenId token,
 
 /**
  * @brief Constructor refers to parent for tokens, and variables that are accessible in its scope.
+ * Names are those of the parent when it is made: later a loop lets them stand for those of another iteration.
  */
 RuleInstance::RuleInstance(const RuleInstanceId parent, 
                            const std::vector<ConstrainedVariableId>& guards)
     : m_id(this), m_rule(parent->getRule()), m_token(parent->getToken()),
       m_planDb(parent->getPlanDatabase()),m_rulesEngine() , m_parent(parent), 
       m_guards(), m_guardDomain(0), m_guardListener(), m_isExecuted(false),
-      m_isPositive(true), m_constraints(), m_childRules(), m_variables(), m_slaves(), 
-      m_variablesByName(), m_slavesByName(), m_constraintsByName() {
+      m_isPositive(true), m_constraints(), m_childRules(), m_variables(), m_slaves(), m_variablesByName(parent->m_variablesByName),
+      m_slavesByName(parent->m_slavesByName),
+      m_constraintsByName(parent->m_constraintsByName) {
   check_error(isValid());
   setGuard(guards);
 }
@@ -79,7 +81,9 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
       m_planDb(parent->getPlanDatabase()), m_rulesEngine(), m_parent(parent), 
       m_guards(), m_guardDomain(0), m_guardListener(), m_isExecuted(false),
       m_isPositive(positive), m_constraints(), m_childRules(), m_variables(),
-      m_slaves(), m_variablesByName(), m_slavesByName(), m_constraintsByName() {
+      m_slaves(), m_variablesByName(parent->m_variablesByName),
+      m_slavesByName(parent->m_slavesByName),
+      m_constraintsByName(parent->m_constraintsByName) {
   check_error(isValid());
   setGuard(guards);
 }
@@ -92,8 +96,9 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
     : m_id(this), m_rule(parent->getRule()), m_token(parent->getToken()),
       m_planDb(parent->getPlanDatabase()), m_rulesEngine(), m_parent(parent),
       m_guards(), m_guardDomain(0), m_guardListener(), m_isExecuted(false),
-      m_isPositive(true), m_constraints(), m_childRules(), m_variables(), m_slaves(),
-      m_variablesByName(), m_slavesByName(), m_constraintsByName() {
+      m_isPositive(true), m_constraints(), m_childRules(), m_variables(), m_slaves(), m_variablesByName(parent->m_variablesByName),
+      m_slavesByName(parent->m_slavesByName),
+      m_constraintsByName(parent->m_constraintsByName) {
   check_error(isValid());
   setGuard(guard, domain);
 }
@@ -108,7 +113,9 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
       m_planDb(parent->getPlanDatabase()), m_rulesEngine(), m_parent(parent), 
       m_guards(), m_guardDomain(0), m_guardListener(), m_isExecuted(false),
       m_isPositive(positive), m_constraints(), m_childRules(), m_variables(), 
-      m_slaves(), m_variablesByName(), m_slavesByName(), m_constraintsByName() {
+      m_slaves(), m_variablesByName(parent->m_variablesByName),
+      m_slavesByName(parent->m_slavesByName),
+      m_constraintsByName(parent->m_constraintsByName) {
   check_error(isValid());
   setGuard(guard, domain);
 }
@@ -121,7 +128,9 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
       m_planDb(parent->getPlanDatabase()), m_rulesEngine(), m_parent(parent), 
       m_guards(), m_guardDomain(0), m_guardListener(), m_isExecuted(false),
       m_isPositive(positive), m_constraints(), m_childRules(), m_variables(), 
-      m_slaves(), m_variablesByName(), m_slavesByName(), m_constraintsByName() {
+      m_slaves(), m_variablesByName(parent->m_variablesByName),
+      m_slavesByName(parent->m_slavesByName),
+      m_constraintsByName(parent->m_constraintsByName) {
   check_error(isValid());
   setGuard(guard, domain, guardComponents);
 }
-- 
2.43.0


From 2333716e955fd299a724c6266a725fbd7980d254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:02 +0000
Subject: [PATCH 079/106] fix: close the files a text includes when reading it
 fails

---
 src/PLASMA/NDDL/component/NddlInterpreter.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/NDDL/component/NddlInterpreter.cc b/src/PLASMA/NDDL/component/NddlInterpreter.cc
index a2ec9b1..2671104 100644
--- a/src/PLASMA/NDDL/component/NddlInterpreter.cc
+++ b/src/PLASMA/NDDL/component/NddlInterpreter.cc
@@ -183,8 +183,11 @@ std::string NddlInterpreter::interpret(std::istream& ins, const std::string& sou
 
   std::string strInput;
   pANTLR3_INPUT_STREAM input = getInputStream(ins,source,strInput);
+  checkRuntimeError(input != NULL, "Cannot read " << source);
   CallClose<pANTLR3_INPUT_STREAM> closeInput(input);
 
+  // streams of included files are to be closed also when the text does not parse
+  CleanUpInputStreams cleanInputStreams(m_inputstreams);
   pNDDL3Lexer lexer = NDDL3LexerNew(input);
   CallFree<pNDDL3Lexer> freeLexer(lexer);
   lexer->parserObj = this;
@@ -233,7 +236,6 @@ std::string NddlInterpreter::interpret(std::istream& ins, const std::string& sou
   NddlSymbolTable symbolTable(m_engine);
   treeParser->SymbolTable = &symbolTable;
   CleanUpSymbolTable cleanUpSymbolTable(treeParser, &symbolTable);
-  CleanUpInputStreams cleanInputStreams(m_inputstreams);
   try {
     treeParser->nddl(treeParser);
     // TODO: report treeParser antlr errors the same way we do it for tree builder lexer and parser
@@ -799,6 +801,9 @@ std::string NddlToASTInterpreter::interpret(std::istream& ins, const std::string
 {
 	std::string strInput;
     pANTLR3_INPUT_STREAM input = getInputStream(ins,source,strInput);
+    checkRuntimeError(input != NULL, "Cannot read " << source);
+    // streams of included files are to be closed as well
+    CleanUpInputStreams cleanInputStreams(m_inputstreams);
 
     pNDDL3Lexer lexer = NDDL3LexerNew(input);
     lexer->parserObj = this;
-- 
2.43.0


From 6bd0476f7965ff0651c0fb11466ec0e62bf8df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:02 +0000
Subject: [PATCH 080/106] fix: report missing or unsuitable arguments of method
 calls

---
 src/PLASMA/PlanDatabase/component/Methods.cc | 38 +++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/Methods.cc b/src/PLASMA/PlanDatabase/component/Methods.cc
index e1d47bd..ac6e6eb 100644
--- a/src/PLASMA/PlanDatabase/component/Methods.cc
+++ b/src/PLASMA/PlanDatabase/component/Methods.cc
@@ -27,14 +27,24 @@ const DbClientId getCtxPDB(EvalContext& context) {
   return pdb->getClient();
 }
 
-TokenId varToToken(const ConstrainedVariableId v)
+ConstrainedVariableId getArg(const std::vector<ConstrainedVariableId>& args, unsigned int i)
 {
-    StateVarId stateVar = v;
+    checkRuntimeError(i < args.size() && args[i].isValid(), "Argument " << i << " of a method call is missing");
+    return args[i];
+}
+
+TokenId varToToken(const std::vector<ConstrainedVariableId>& args, unsigned int i)
+{
+    TokenVariable<StateDomain>* stateVar = dynamic_cast<TokenVariable<StateDomain>*>(static_cast<ConstrainedVariable*>(getArg(args,i)));
+    checkRuntimeError(stateVar != NULL, "Argument " << i << " of a method call is not a token");
     return stateVar->getParentToken();
 }
 
-ObjectId varToObject(const ConstrainedVariableId v)
+ObjectId varToObject(const std::vector<ConstrainedVariableId>& args, unsigned int i)
 {
+  const ConstrainedVariableId v = getArg(args,i);
+  checkRuntimeError(v->derivedDomain().isEntity() && v->derivedDomain().isSingleton(),
+                    "Argument " << i << " of a method call is not a single object: " << v->toString());
   return Entity::getTypedEntity<Object>(v->derivedDomain().getSingletonValue());
 }
 }
@@ -58,7 +68,7 @@ const DataTypeId PDBClose::getReturnType()
 
 DataRef VariableMethod::eval(EvalContext& context, const std::vector<ConstrainedVariableId>& args) const
 {
-    ConstrainedVariableId var = args[0];
+    ConstrainedVariableId var = getArg(args,0);
     return eval(context,var,args);
 }
 
@@ -76,7 +86,7 @@ const DataTypeId VariableMethod::getReturnType()
 
 DataRef SpecifyVariable::eval(EvalContext& context, ConstrainedVariableId var, const std::vector<ConstrainedVariableId>& args) const
 {
-    const Domain& ad = args[1]->lastDomain();
+    const Domain& ad = getArg(args,1)->lastDomain();
     if (ad.isSingleton())
         getCtxPDB(context)->specify(var,ad.getSingletonValue());
     else
@@ -99,7 +109,7 @@ DataRef CloseVariable::eval(EvalContext& context, ConstrainedVariableId var, con
 
 DataRef ObjectMethod::eval(EvalContext& context, const std::vector<ConstrainedVariableId>& args) const
 {
-    ObjectId obj = varToObject(args[0]);
+    ObjectId obj = varToObject(args,0);
     return eval(context,obj,args);
 }
 
@@ -117,8 +127,8 @@ const DataTypeId ObjectMethod::getReturnType()
 
 DataRef ConstrainToken::eval(EvalContext& context, ObjectId obj, const std::vector<ConstrainedVariableId>& args) const
 {
-    TokenId pred = varToToken(args[1]);
-    TokenId succ = (args.size()==3 ? varToToken(args[2]) : pred);
+    TokenId pred = varToToken(args,1);
+    TokenId succ = (args.size()==3 ? varToToken(args,2) : pred);
     getCtxPDB(context)->constrain(obj,pred,succ);
 
     return DataRef::null;
@@ -126,8 +136,8 @@ DataRef ConstrainToken::eval(EvalContext& context, ObjectId obj, const std::vect
 
 DataRef FreeToken::eval(EvalContext& context, ObjectId obj, const std::vector<ConstrainedVariableId>& args) const
 {
-    TokenId pred = varToToken(args[1]);
-    TokenId succ = (args.size()==3 ? varToToken(args[2]) : pred);
+    TokenId pred = varToToken(args,1);
+    TokenId succ = (args.size()==3 ? varToToken(args,2) : pred);
     getCtxPDB(context)->free(obj,pred,succ);
 
     return DataRef::null;
@@ -135,7 +145,7 @@ DataRef FreeToken::eval(EvalContext& context, ObjectId obj, const std::vector<Co
 
 DataRef TokenMethod::eval(EvalContext& context, const std::vector<ConstrainedVariableId>& args) const
 {
-    TokenId tok = varToToken(args[0]);
+    TokenId tok = varToToken(args,0);
     return eval(context,tok,args);
 }
 
@@ -161,7 +171,7 @@ DataRef ActivateToken::eval(EvalContext& context, TokenId tok, const std::vector
 
 DataRef MergeToken::eval(EvalContext& context, TokenId tok, const std::vector<ConstrainedVariableId>& args) const
 {
-    TokenId activeToken = varToToken(args[1]);
+    TokenId activeToken = varToToken(args,1);
     getCtxPDB(context)->merge(tok,activeToken);
     return DataRef::null;
 }
@@ -180,7 +190,9 @@ DataRef CancelToken::eval(EvalContext& context, TokenId tok, const std::vector<C
 
 DataRef CloseClass::eval(EvalContext& context, const std::vector<ConstrainedVariableId>& args) const
 {
-    LabelStr className(args[0]->derivedDomain().getSingletonValue());
+    const Domain& name = getArg(args,0)->derivedDomain();
+    checkRuntimeError(name.isSymbolic() && name.isSingleton(), "Not the name of a class: " << name.toString());
+    LabelStr className(name.getSingletonValue());
     getCtxPDB(context)->close(className.c_str());
     return DataRef::null;
 }
-- 
2.43.0


From 8e52315bd95bc207a843b9c5f85f54549833a896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:02 +0000
Subject: [PATCH 081/106] fix: report transactions that name nothing known

---
 .../component/DbClientTransactionPlayer.cc       | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
index f854afe..363d89c 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
@@ -458,6 +458,7 @@ std::string DbClientTransactionPlayer::getObjectAndType(const SchemaId schema,
     std::vector<std::string> components;
     boost::split(components, typeStr, boost::is_any_of("."));
     
+    checkError(components.size() > 1, "Unknown predicate " << predicate);
     object = client->getObject(components.front().c_str());
     check_error(object.isValid(), "Failed to find an object named " + components.front());
 
@@ -1050,6 +1051,7 @@ void DbClientTransactionPlayer::playTokenCreated(const TiXmlElement & element) {
     check_error(name != NULL);
     debugMsg("DbClientTransactionPlayer:playVariableAssigned", "assigning for " << name);
     ConstrainedVariableId variable = parseVariable(name);
+    checkError(variable.isValid(), "No variable named '" << name << "'");
     debugMsg("DbClientTransactionPlayer:playVariableAssigned", "found variable " << variable->getKey());
     TiXmlElement * value_el = element.FirstChildElement();
     check_error(value_el != NULL);
@@ -1169,6 +1171,7 @@ void DbClientTransactionPlayer::playTokenCreated(const TiXmlElement & element) {
     for (TiXmlElement * child_el = element.FirstChildElement() ;
          child_el != NULL ; child_el = child_el->NextSiblingElement()) {
        ConstrainedVariableId v = xmlAsVariable(*child_el);
+       check_error(v.isValid());
        variables.push_back(v);
        os << v->toString() <<",";
     }
@@ -1347,8 +1350,9 @@ void DbClientTransactionPlayer::playTokenCreated(const TiXmlElement & element) {
   DbClientTransactionPlayer::parseToken(const char * tokString)
   {
      check_error(tokString != NULL);
-     std::string token = tokString;
-     return m_tokens[token];
+     std::map<std::string, TokenId>::const_iterator it = m_tokens.find(tokString);
+     checkError(it != m_tokens.end() && it->second.isValid(), "No token named '" << tokString << "'");
+     return it->second;
   }
 
   //! XML input functions
@@ -1435,6 +1439,7 @@ void DbClientTransactionPlayer::playTokenCreated(const TiXmlElement & element) {
     edouble min = m_client->createValue(type_st, min_st);
     edouble max = m_client->createValue(type_st, max_st);
     domain->intersect(min, max);
+    check_error(!domain->isEmpty(), "No value lies in an interval from " + std::string(min_st) + " to " + max_st);
     debugMsg("DbClientTransactionPlayer:xmlAsIntervalDomain",
 	     "For " << element << ", created domain " << (*domain).toString());
     return domain;
@@ -1449,6 +1454,9 @@ DbClientTransactionPlayer::xmlAsEnumeratedDomain(const TiXmlElement & element,
   for (TiXmlElement * child_el = element.FirstChildElement() ;
        child_el != NULL ; child_el = child_el->NextSiblingElement()) {
     std::string thisType;
+    check_error(child_el->Attribute("type") != NULL ||
+                (strcmp(child_el->Value(), "value") != 0 && strcmp(child_el->Value(), "symbol") != 0),
+                "no type for value in an enumerated set");
     if (strcmp(child_el->Value(), "value") == 0)
       // New style XML for simple types: the type is within and tag is always 'value'
       thisType = child_el->Attribute("type");
@@ -1624,7 +1632,9 @@ DbClientTransactionPlayer::xmlAsEnumeratedDomain(const TiXmlElement & element,
                 "ident in transaction xml is deprecated");
     if (strcmp(variable.Value(), "id") == 0) {
       const char * name = variable.Attribute("name");
-      return parseVariable(name);
+      ConstrainedVariableId var = parseVariable(name);
+      checkError(var.isValid(), "No variable named '" << name << "'");
+      return var;
     }
     if (strcmp(variable.Value(), "variable") == 0) {
       int index = -1;
-- 
2.43.0


From e495c8f8a62997cc8b75aadd47a486eb00a8f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:02 +0000
Subject: [PATCH 082/106] fix: do not read a name past the end of an XML text

---
 src/PLASMA/TinyXml/base/tinyxmlparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
index 384e1ae..05b22fc 100644
--- a/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
+++ b/src/PLASMA/TinyXml/base/tinyxmlparser.cpp
@@ -734,7 +734,7 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data )
         // Read the name.
         const char* pErr = p;
 
-    p = ReadName( p, &value );
+    p = p ? ReadName( p, &value ) : 0;
         if ( !p || !*p )
         {
           if ( document )       document->SetError( TIXML_ERROR_FAILED_TO_READ_ELEMENT_NAME, pErr, data );
-- 
2.43.0


From 0c829a99103e79448286d664783a53c43b045346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:02 +0000
Subject: [PATCH 083/106] fix: report incomplete engine configurations

---
 src/PLASMA/Utils/base/Engine.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/Utils/base/Engine.cc b/src/PLASMA/Utils/base/Engine.cc
index 49114ef..09f9ffd 100644
--- a/src/PLASMA/Utils/base/Engine.cc
+++ b/src/PLASMA/Utils/base/Engine.cc
@@ -104,19 +104,25 @@ void EngineConfig::parseXML(TiXmlNode * pParent){
   {
     if( pParent->Type() == TiXmlNode::ELEMENT )
     {
-      if(strcmp(static_cast<const char *>(pChild->ToElement()->Value()),"Component") == 0
-         && pChild->ToElement())
+      if(pChild->ToElement() == NULL) // text or a comment
+        continue;
+      if(strcmp(static_cast<const char *>(pChild->ToElement()->Value()),"Component") == 0)
       {
+        checkRuntimeError(pChild->ToElement()->FirstAttribute() != NULL, "Component without a name");
         comp_name =
             static_cast<const char *>(pChild->ToElement()->FirstAttribute()->Value());
       }
       
+      pChildEle = 0;
       while((pChildEle = pChild->IterateChildren(pChildEle))
+            && pChild->FirstChildElement() != NULL
             && strcmp(static_cast<const char *>(pChild->ToElement()->FirstChildElement()->Value()),
                       "Property") == 0)
       {
         if(pChildEle->FirstChild())
         {
+          checkRuntimeError(pChildEle->ToElement()->FirstAttribute() != NULL, "Property without a name");
+          checkRuntimeError(pChildEle->FirstChild()->ToText() != NULL, "Property without a text value");
           prop_name =
               static_cast<const char *>(pChildEle->ToElement()->FirstAttribute()->Value());
           prop_value = static_cast<const char *>(pChildEle->FirstChild()->ToText()->Value());
-- 
2.43.0


From 26244a2a3057fbb5fb9093406f1cff6b1343f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:02 +0000
Subject: [PATCH 084/106] fix: let the network be propagated again after an
 error

---
 .../ConstraintEngine/base/ConstraintEngine.cc   | 13 +++++++++++++
 .../ConstraintEngine/component/Propagators.cc   | 17 +++++++++++++++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index bdf08d9..56edbfd 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -663,6 +663,18 @@ void ConstraintEngine::add(const PropagatorId propagator){
     return (getViolationMgr().getEmptyVariables().size() > 0);
   }
 
+  // Ends propagation when it is left by an error
+  namespace {
+  struct PropagationGuard {
+    PropagationGuard(bool& inProgress, bool& autoPropagate)
+      : m_inProgress(inProgress), m_autoPropagate(autoPropagate), m_oldAutoPropagate(autoPropagate) {}
+    ~PropagationGuard() { m_inProgress = false; m_autoPropagate = m_oldAutoPropagate; }
+    bool& m_inProgress;
+    bool& m_autoPropagate;
+    const bool m_oldAutoPropagate;
+  };
+  }
+
   bool ConstraintEngine::doPropagate()
   {
     check_error(!Entity::isPurging(), 
@@ -691,6 +703,7 @@ void ConstraintEngine::add(const PropagatorId propagator){
     //m_relaxed = false; // Reset by default
     m_relaxed.clear();
     bool started = false;
+    PropagationGuard guard(m_propInProgress, m_autoPropagate);
 
     bool continueProp = true;
 
diff --git a/src/PLASMA/ConstraintEngine/component/Propagators.cc b/src/PLASMA/ConstraintEngine/component/Propagators.cc
index 6bd729e..fffb128 100644
--- a/src/PLASMA/ConstraintEngine/component/Propagators.cc
+++ b/src/PLASMA/ConstraintEngine/component/Propagators.cc
@@ -79,7 +79,13 @@ DefaultPropagator::DefaultPropagator(const std::string& name,
 
       if(constraint->isActive()){
 	m_activeConstraint = constraint->getKey();
-	Propagator::execute(constraint);
+	try {
+	  Propagator::execute(constraint);
+	}
+	catch(...) { // Others can still be executed
+	  m_activeConstraint = 0;
+	  throw;
+	}
       }
     }
 
@@ -119,7 +125,14 @@ EqualityConstraintPropagator::EqualityConstraintPropagator(const std::string& na
     // Now process the agenda
     for(std::set<int>::iterator it = m_eqClassAgenda.begin(); it != m_eqClassAgenda.end(); ++it){
       const std::set<ConstrainedVariableId>& eqClassScope = m_eqClassCollection.getGraphVariables(*it);
-      equate(eqClassScope);
+      try {
+        equate(eqClassScope);
+      }
+      catch(...) { // The others can still be equated
+        m_eqClassAgenda.erase(m_eqClassAgenda.begin(), ++it);
+        m_active = false;
+        throw;
+      }
     }
 
     m_eqClassAgenda.clear();
-- 
2.43.0


From eca6fd38113429f3482d29b8d2ce5f40c9071708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:02 +0000
Subject: [PATCH 085/106] fix: refuse to construct an object from an argument
 without a value

---
 src/PLASMA/NDDL/component/Interpreter.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index 9a35c7b..a2ded60 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -314,13 +314,17 @@ DataRef ExprVarRef::eval(EvalContext& context) const {
     std::vector<const Domain*> arguments;
     for (unsigned int i=0; i < m_argExprs.size(); i++) {
       DataRef arg = m_argExprs[i]->eval(context);
-      arguments.push_back(&(arg.getValue()->derivedDomain()));
+      const Domain& value = arg.getValue()->derivedDomain();
+      // There are none once the network has been found to be inconsistent
+      checkRuntimeError(value.isOpen() || !value.isEmpty(),
+                        "No value for argument " << i << " of the constructor of " << m_objectType);
+      arguments.push_back(&value);
     }
 
     // TODO: using ObjectEvalContext may be cleaner?
     ConstrainedVariableId thisVar = context.getVar("this");
     ObjectId thisObject =
-      (thisVar.isId() ? Entity::getTypedEntity<Object>(thisVar->derivedDomain().getSingletonValue()) : ObjectId::noId());
+      (thisVar.isId() ? Entity::getTypedEntity<Object>(thisVar->lastDomain().getSingletonValue()) : ObjectId::noId());
     std::string prefix = (thisObject.isId() ? thisObject->getName() + "." : "");
 
     std::string name(prefix+m_objectName);
-- 
2.43.0


From 40c7891299515484d1e0c578a5c3d1a99960e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:02 +0000
Subject: [PATCH 086/106] fix: report members a token variable cannot have

---
 src/PLASMA/NDDL/component/Interpreter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index a2ded60..b1952e9 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -262,6 +262,7 @@ DataRef ExprVarRef::eval(EvalContext& context) const {
 
       if (tok.isId()) {
         var = tok->getVariable(varName,false);
+        checkRuntimeError(var.isId(), "Couldn't find variable " << varName << " in token " << m_parentName);
         idx++;
       }
 
-- 
2.43.0


From 430d7fa4c84bfd5c8e92a1ea4000f27479cd4027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:02 +0000
Subject: [PATCH 087/106] fix: take a token apart when its construction fails

---
 src/PLASMA/PlanDatabase/base/Token.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/Token.cc b/src/PLASMA/PlanDatabase/base/Token.cc
index 4859490..acdf0ba 100644
--- a/src/PLASMA/PlanDatabase/base/Token.cc
+++ b/src/PLASMA/PlanDatabase/base/Token.cc
@@ -107,7 +107,14 @@ const std::string& Token::noObject(){
           m_localVariables(),
           m_unqualifiedPredicateName()
 {
-    commonInit(tokenTypeName, rejectable, _isFact, durationBaseDomain, objectName, closed);
+    try {
+      commonInit(tokenTypeName, rejectable, _isFact, durationBaseDomain, objectName, closed);
+    }
+    catch(...) { // No destructor will run, so take apart what there is
+      handleDiscard();
+      m_id.remove();
+      throw;
+    }
   }
 
 // Slave tokens cannot be rejectable.
@@ -148,7 +155,14 @@ Token::Token(const TokenId _master,
   // Master must be active to add children
   check_error(m_master->isActive());
   m_master->add(m_id);
-  commonInit(tokenTypeName, false, false, durationBaseDomain, objectName, closed);
+  try {
+    commonInit(tokenTypeName, false, false, durationBaseDomain, objectName, closed);
+  }
+  catch(...) { // No destructor will run, so take apart what there is
+    handleDiscard();
+    m_id.remove();
+    throw;
+  }
 }
 
   namespace {
@@ -643,6 +657,7 @@ void Token::commonInit(const std::string& predicateName,
 						false, // TODO: fixme
 						true,
 						"object"))->getId();
+    m_allVariables.push_back(m_object);
 
     checkError(m_planDatabase->hasObjectInstances(m_baseObjectType),
 	       "Allocated a token with no object instance available of type " << m_baseObjectType);
@@ -657,8 +672,6 @@ void Token::commonInit(const std::string& predicateName,
       m_object->specify(object->getKey());
     }
 
-    m_allVariables.push_back(m_object);
-
     if(!m_object->isClosed())
       m_object->close();
 
-- 
2.43.0


From c2d1a114dc0156c620a4fa740150eddda2ccd837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:02 +0000
Subject: [PATCH 088/106] fix: refuse to delete a variable that constraints
 refer to

---
 src/PLASMA/PlanDatabase/base/DbClient.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/DbClient.cc b/src/PLASMA/PlanDatabase/base/DbClient.cc
index 2d32523..9b82a74 100644
--- a/src/PLASMA/PlanDatabase/base/DbClient.cc
+++ b/src/PLASMA/PlanDatabase/base/DbClient.cc
@@ -92,6 +92,11 @@ DbClient::DbClient(const PlanDatabaseId db)
   }
 
 void DbClient::deleteVariable(const ConstrainedVariableId var) {
+  // Its destructor could only give up
+  ConstraintSet constraints;
+  var->constraints(constraints);
+  checkRuntimeError(constraints.empty(),
+                    "Cannot delete " << var->getName() << " while constraints still refer to it");
   if(isGlobalVariable(var->getName()))
     m_planDb->unregisterGlobalVariable(var);
   publish(notifyVariableDeleted(var));
-- 
2.43.0


From 1687f2ab66b90116adc1f7b76f0a2a2989428cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:02 +0000
Subject: [PATCH 089/106] fix: print integer values that do not fit an int

---
 src/PLASMA/ConstraintEngine/base/PSVarValue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/base/PSVarValue.cc b/src/PLASMA/ConstraintEngine/base/PSVarValue.cc
index 272caa0..8b22a9e 100644
--- a/src/PLASMA/ConstraintEngine/base/PSVarValue.cc
+++ b/src/PLASMA/ConstraintEngine/base/PSVarValue.cc
@@ -11,7 +11,7 @@ namespace EUROPA {
 
     switch (getType()) {
     case INTEGER:
-      os << asInt();
+      os << static_cast<long>(m_val); // An infinite one does not fit an int
       break;
     case DOUBLE:
       os << std::setprecision(MAX_PRECISION);
-- 
2.43.0


From 19b72f4a0fdda172b0ece607dc480cffe585adc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:02 +0000
Subject: [PATCH 090/106] fix: let constraints without arguments be type
 checked

---
 src/PLASMA/ConstraintEngine/base/ConstraintTypeChecking.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintTypeChecking.hh b/src/PLASMA/ConstraintEngine/base/ConstraintTypeChecking.hh
index 273ab81..bf779bf 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintTypeChecking.hh
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintTypeChecking.hh
@@ -314,6 +314,8 @@ struct Mutually {
     Check m_c(start, end);
     type_iterator begin = Start()(start, end);
     type_iterator finish = End()(start, end);
+    if(std::distance(begin, finish) < 2)
+      return true; // No two to compare
     type_iterator next = begin;
     std::advance(next, 1);
     bool retval = true;
-- 
2.43.0


From f12964080d7592b1ced721196548598dfa4205b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:19 +0000
Subject: [PATCH 091/106] fix: refuse an interval without values

---
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index 6317c81..0db7298 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -361,6 +361,12 @@ numericInterval returns [Expr* result]
         {      
             edouble lb = lower->getSingletonValue();
             edouble ub = upper->getSingletonValue();
+            if (ub < lb) {
+                std::string interval = "[" + lower->toString() + " " + upper->toString() + "]";
+                delete lower;
+                delete upper;
+                reportSemanticError(CTX,"No value lies in the interval " + interval);
+            }
             Domain* baseDomain;
                     
             if (lower->getTypeName()=="float" || 
-- 
2.43.0


From d4755a562c854033c7f8a9582f5896ea5f11554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:47 +0000
Subject: [PATCH 092/106] fix: keep a variable with a single base value
 specified when it is reset

---
 src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
index 6cab23a..95dc17e 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
@@ -388,7 +388,11 @@ const std::string& ConstrainedVariable::getName() const {
     checkError(domain.isSubsetOf(internal_baseDomain()),
 				 domain.toString() << " not in " << internal_baseDomain().toString());
 
-    m_specifiedFlag = false;
+    // A variable with only one value to take stays specified to it
+    m_specifiedFlag = internal_baseDomain().isClosed() && internal_baseDomain().isSingleton();
+    if (m_specifiedFlag)
+      m_specifiedValue = internal_baseDomain().getSingletonValue();
+
     getCurrentDomain().reset(domain);
   }
 
-- 
2.43.0


From 9a539df6f39b9925b2d8521e8489dd6032bab7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:10 +0000
Subject: [PATCH 093/106] fix: apply changed temporal constraints though the
 agenda shrinks meanwhile

---
 .../component/TemporalPropagator.cc           | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 4de13a6..c28909e 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -552,18 +552,21 @@ void TemporalPropagator::processVariableChanges() {
 
 void TemporalPropagator::processConstraintChanges() {
   debugMsg("TemporalPropagator:updateTnet", "Processing changed constraints... ");
+  // Applying a constraint may itself take constraints off the agenda, so look up the next one each time.
   ConstraintsSet::iterator it = m_changedConstraints.begin();
-  for(; it != m_changedConstraints.end(); ++it){
+  while(it != m_changedConstraints.end()){
     ConstraintId constraint = *it;
-    if(!constraint->isActive())
-      continue;
-
-    updateTemporalConstraint(constraint);
-
-    // If the cnet has become inconsistent, which can happen since distance bounds may be restricted as we apply
-    // a constraint, then we can skip out. What was not applied in full has to wait for the next time.
-    if(getConstraintEngine()->provenInconsistent() && !getConstraintEngine()->getAllowViolations())
-      break;
+    if(constraint->isActive()){
+      updateTemporalConstraint(constraint);
+
+      // If the cnet has become inconsistent, which can happen since distance bounds may be restricted as we apply
+      // a constraint, then we can skip out. What was not applied in full has to wait for the next time.
+      if(getConstraintEngine()->provenInconsistent() && !getConstraintEngine()->getAllowViolations()){
+        it = m_changedConstraints.lower_bound(constraint);
+        break;
+      }
+    }
+    it = m_changedConstraints.upper_bound(constraint);
   }
   m_changedConstraints.erase(m_changedConstraints.begin(), it);
   debugMsg("TemporalPropagator:updateTnet", "DONE Processing changed constraints... ");
-- 
2.43.0


From b627a63e7faafc4fb78c410081500c12994ee62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:10 +0000
Subject: [PATCH 094/106] fix: leave a token duration alone when its bounds are
 contradictory

---
 .../TemporalNetwork/component/TemporalPropagator.cc      | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index c28909e..0515985 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -680,12 +680,9 @@ void TemporalPropagator::updateCnet() {
 
     IntervalIntDomain& duration = static_cast<IntervalIntDomain&>(Propagator::getCurrentDomain(token->duration()));
 
-    // TODO JRB : this check may may fail if we support violations
-    check_error(!start.isEmpty() && !end.isEmpty() && !duration.isEmpty(), "Can't update token duration with empty variable. Token:"
-    		+ token->toString()
-    		+ " start:"	+ start.toString()
-    		+ " end:" + end.toString()
-    		+ " duration:" + duration.toString());
+    // With violations tolerated a contradiction may leave any of them empty. There is nothing to derive from that.
+    if(start.isEmpty() || end.isEmpty() || duration.isEmpty())
+      return;
 
     edouble maxDuration = end.getUpperBound() - start.getLowerBound();
     edouble minDuration = end.getLowerBound() - start.getUpperBound();
-- 
2.43.0


From 27662f856b85e6b22652ac7e248827d68b098d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:57 +0000
Subject: [PATCH 095/106] fix: look for a temporal contradiction until it is
 gone, and update a variable whose timepoint is back where it was

---
 .../component/TemporalPropagator.cc           | 23 +++++++++++++++----
 .../component/TemporalPropagator.hh           |  2 ++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 0515985..93fb537 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -40,7 +40,7 @@ namespace EUROPA {
 TemporalPropagator::TemporalPropagator(const std::string& name, 
                                        const ConstraintEngineId constraintEngine)
     : Propagator(name, constraintEngine), m_tnet((new TemporalNetwork())->getId()),
-      m_activeVariables(), m_changedVariables(), m_changedConstraints(),
+      m_activeVariables(), m_changedVariables(), m_updatedVariables(), m_changedConstraints(), m_contradicted(false),
       m_constraintsForDeletion(), m_variablesForDeletion(),
       m_listeners(), m_mostRecentRepropagation(1){}
 
@@ -59,6 +59,7 @@ TemporalPropagator::TemporalPropagator(const std::string& name,
     check_error(!Entity::isPurging());
     debugMsg("TemporalPropagator:notifyDeleted", "Marking as deleted variable " << tempVar->getKey());
     m_changedVariables.erase(tempVar->getKey());
+    m_updatedVariables.erase(tempVar->getKey());
     m_activeVariables.erase(tempVar->getKey());
 
     m_variablesForDeletion.insert(tp);
@@ -178,6 +179,7 @@ void TemporalPropagator::handleVariableRemoved(const ConstrainedVariableId var)
     }
 
     m_changedVariables.erase(var->getKey());
+    m_updatedVariables.erase(var->getKey());
     m_activeVariables.erase(var->getKey());
   }
 
@@ -285,6 +287,7 @@ ConstraintId getConstraint(ConstrainedVariableId fromvar,
       return;
 
     debugMsg("TemporalPropagator:execute", "Propagating tnet");
+    m_contradicted = false;
     bool tnetConsistent=m_tnet->propagate();
 
     if (!tnetConsistent) {
@@ -317,8 +320,12 @@ ConstraintId getConstraint(ConstrainedVariableId fromvar,
 
       if (getConstraintEngine()->getAllowViolations())
           collectViolations(var);
-      else
+      else {
+          // The variable may be relaxed without any of its temporal constraints noticing (they may all be redundant), so a
+          // contradiction has to be looked for again until it is gone.
+          m_contradicted = true;
           Propagator::getCurrentDomain(var).empty();
+      }
   }
 
   void TemporalPropagator::collectViolations(ConstrainedVariableId var)
@@ -367,7 +374,8 @@ ConstraintId getConstraint(ConstrainedVariableId fromvar,
                             m_variablesForDeletion.empty() &&
                             m_changedConstraints.empty() &&
                             m_changedVariables.empty()
-                            && !m_tnet->updateRequired());
+                            && !m_tnet->updateRequired()
+                            && !m_contradicted);
 
     return (!fullyPropagated);
   }
@@ -546,6 +554,7 @@ void TemporalPropagator::processVariableChanges() {
     if (!wasRelaxed(var))
       updateTimepoint(var);
   }
+  m_updatedVariables.insert(m_changedVariables.begin(), m_changedVariables.end());
   m_changedVariables.clear();
   debugMsg("TemporalPropagator:updateTnet", "DONE Processing changed variables... ");
 }
@@ -600,7 +609,13 @@ void TemporalPropagator::updateCnet() {
   debugMsg("TemporalPropagator:updateCnet", "In updateCnet");
 
   std::vector<TokenId> updatedTokens; // Used to push update to duration
-  const std::set<Timepoint*> updatedTimepoints = m_tnet->getUpdatedTimepoints();
+  std::set<Timepoint*> updatedTimepoints = m_tnet->getUpdatedTimepoints();
+  // A variable that changed may be behind a timepoint that did not: set and reset, it is back at the bounds the tnet last saw.
+  for(std::map<eint,ConstrainedVariableId>::const_iterator it = m_updatedVariables.begin(); it != m_updatedVariables.end(); ++it){
+    if(it->second->isActive())
+      updatedTimepoints.insert(getTimepoint(it->second));
+  }
+  m_updatedVariables.clear();
   for(std::set<Timepoint*>::const_iterator it = updatedTimepoints.begin();
       it != updatedTimepoints.end(); ++it){
     Timepoint* const tp = *it;
diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh
index f33e1c9..c1ca5e1 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.hh
@@ -215,9 +215,11 @@ namespace EUROPA {
     std::map<eint, ConstrainedVariableId> m_activeVariables; /**< Maintain the set of active start and end variables. 
 							     Duration handled in constraints */
     std::map<eint, ConstrainedVariableId> m_changedVariables; /*!< Manage the set of changed variables to be synchronized */
+    std::map<eint, ConstrainedVariableId> m_updatedVariables; /*!< Changed variables the tnet knows of, still to be updated from it */
 
     typedef std::set<ConstraintId, EntityComparator<EntityId> > ConstraintsSet;
     ConstraintsSet m_changedConstraints; /*!< Constraint Agenda */
+    bool m_contradicted; /*!< The last execution found the temporal constraints contradictory. */
 
     typedef  std::set<TemporalConstraint*> TemporalConstraintsSet;
     TemporalConstraintsSet m_constraintsForDeletion; /*!< Buffer deletions till you have to propagate. */
-- 
2.43.0


From 1ee87e04cafdcea86eff8fa261f4443e9d2c9685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:57 +0000
Subject: [PATCH 096/106] fix: take a removed constraint off the agenda of the
 profile propagator

---
 src/PLASMA/Resource/base/ProfilePropagator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/Resource/base/ProfilePropagator.cc b/src/PLASMA/Resource/base/ProfilePropagator.cc
index ba9eb22..f26dda7 100644
--- a/src/PLASMA/Resource/base/ProfilePropagator.cc
+++ b/src/PLASMA/Resource/base/ProfilePropagator.cc
@@ -41,7 +41,9 @@ void ProfilePropagator::handleConstraintAdded(const ConstraintId) {
   // DefaultPropagator::handleConstraintAdded(constraint);
 }
 
-void ProfilePropagator::handleConstraintRemoved(const ConstraintId) {
+void ProfilePropagator::handleConstraintRemoved(const ConstraintId constraint) {
+  // It may still be waiting for its execution
+  m_agenda.erase(constraint);
   // check_error(constraint.isValid());
   // if(m_newConstraints.erase(constraint) > 0)
   //   m_updateRequired = true;
-- 
2.43.0


From 24931ddddaa597237d0b24681f5c678e6c1b33f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:57 +0000
Subject: [PATCH 097/106] fix: keep the instants of a profile in step with the
 times of its transactions

---
 src/PLASMA/Resource/base/Profile.cc | 146 ++++++++++------------------
 1 file changed, 50 insertions(+), 96 deletions(-)

diff --git a/src/PLASMA/Resource/base/Profile.cc b/src/PLASMA/Resource/base/Profile.cc
index cca2d16..cedf573 100644
--- a/src/PLASMA/Resource/base/Profile.cc
+++ b/src/PLASMA/Resource/base/Profile.cc
@@ -67,21 +67,23 @@ InstantId Profile::getInstant(const eint time) const {
       debugMsg("Profile:addTransaction", "Adding " << (t->isConsumer() ? "consumer " : "producer ") << "transaction " << t << " for time " <<
                t->time()->toString() << " with quantity " << t->quantity()->toString());
 
-      eint startTime = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-      eint endTime = static_cast<eint>(t->time()->lastDomain().getUpperBound());
-
-      //if instants for the start and end time don't already exist, add them
-      addInstantsForBounds(t);
-
-      //add the transaction to the set of instants
-      ProfileIterator profIt(m_id, startTime, endTime);
-      while(!profIt.done()) {
-        debugMsg("Profile:addTransaction", "Adding transaction " << t << " to instant for time " << profIt.getInstant()->getTime());
-        profIt.getInstant()->addTransaction(t);
-        profIt.next();
+      //a time that an inconsistency left empty gets its instants when it is relaxed
+      if(!t->time()->lastDomain().isEmpty()) {
+        eint startTime = static_cast<eint>(t->time()->lastDomain().getLowerBound());
+        eint endTime = static_cast<eint>(t->time()->lastDomain().getUpperBound());
+
+        //if instants for the start and end time don't already exist, add them
+        addInstantsForBounds(t);
+
+        //add the transaction to the set of instants
+        ProfileIterator profIt(m_id, startTime, endTime);
+        while(!profIt.done()) {
+          debugMsg("Profile:addTransaction", "Adding transaction " << t << " to instant for time " << profIt.getInstant()->getTime());
+          profIt.getInstant()->addTransaction(t);
+          profIt.next();
+        }
       }
 
-
       //add listener
       m_variableListeners.insert(std::make_pair(t,
 						boost::make_shared<VariableListener>(m_planDatabase->getConstraintEngine(), m_id, t, makeScope(t->time()))));
@@ -118,29 +120,21 @@ void Profile::removeTransaction(const TransactionId t) {
   debugMsg("Profile:removeTransaction",
            "Removing transaction " << t << " for time " << t->time()->toString() <<
            " with quantity " << t->quantity()->toString());
-  eint startTime =
-      static_cast<eint>((t->time()->lastDomain().isEmpty() ?
-                         t->time()->baseDomain() : t->time()->lastDomain()).getLowerBound());
-  eint endTime =
-      static_cast<eint>((t->time()->lastDomain().isEmpty() ?
-                         t->time()->baseDomain() : t->time()->lastDomain()).getUpperBound());
-  checkError(startTime <= endTime, startTime << " > " << endTime);
-  ProfileIterator profIt(m_id, startTime, endTime);
   std::vector<eint> emptyInstants;
-  //remove the transaction from its instants
-  while(!profIt.done()) {
+  //remove the transaction from its instants. it may be at instants that its time can no longer take, if the last change emptied it.
+  for(std::map<eint, InstantId>::const_iterator it = m_instants.begin(); it != m_instants.end(); ++it) {
+    InstantId inst = it->second;
+    if(inst->getTransactions().find(t) == inst->getTransactions().end())
+      continue;
     debugMsg("Profile:removeTransaction",
-             "Removing transaction " << t << " from instant for time " <<
-             profIt.getInstant()->getTime());
-    profIt.getInstant()->removeTransaction(t);
+             "Removing transaction " << t << " from instant for time " << inst->getTime());
+    inst->removeTransaction(t);
     //if the instant contains no transactions or doesn't represent the start or end of a transaction, it is empty and should be deleted.
-    if(profIt.getInstant()->getTransactions().empty() ||
-       !containsChange(profIt.getInstant())) {
+    if(inst->getTransactions().empty() || !containsChange(inst)) {
       debugMsg("Profile:removeTransaction",
-               "Instant for time " << profIt.getInstant()->getTime() << " is empty.");
-      emptyInstants.push_back(profIt.getInstant()->getTime());
+               "Instant for time " << inst->getTime() << " is empty.");
+      emptyInstants.push_back(inst->getTime());
     }
-    profIt.next();
   }
 
   //remove any constraints on the transaction from the profile.
@@ -206,47 +200,38 @@ void Profile::transactionTimeChanged(const TransactionId e,
   checkError(e.isValid(), "Invalid transaction.");
   checkError(m_transactions.find(e) != m_transactions.end(), "Unknown transaction " << e->time()->toString() << " " << e->quantity()->toString());
 
-  eint startTime = static_cast<eint>(e->time()->lastDomain().getLowerBound());
-  eint endTime = static_cast<eint>(e->time()->lastDomain().getUpperBound());
   switch(change) {
     case DomainListener::UPPER_BOUND_DECREASED:
     case DomainListener::LOWER_BOUND_INCREASED:
     case DomainListener::BOUNDS_RESTRICTED:
     case DomainListener::RESTRICT_TO_SINGLETON:
-    case DomainListener::SET_TO_SINGLETON: {
-      debugMsg("Profile:handleTimeChanged", "Handling restriction of transaction " << e << " at time " << e->time()->toString() << " with quantity " << e->quantity()->toString());
-      eint first, last;
-      std::map<eint, InstantId>::iterator it;
-      for(it = m_instants.begin(); it != m_instants.end(); ++it)
-        if(it->second->getTransactions().find(e) != it->second->getTransactions().end())
-          break;
-      checkError(it != m_instants.end(), "No instant containing this transaction.");
-      first = it->second->getTime();
-      it = m_instants.upper_bound(first);
-      if(it != m_instants.end())
-        for(; it != m_instants.end(); ++it)
-          if(it->second->getTransactions().find(e) == it->second->getTransactions().end())
-            break;
-      --it;
-      last = it->second->getTime();
-      debugMsg("Profile:handleTimeChanged", "Possibly removing transaction " << e << " from Instants in range [" << first << " " << last << "]");
-      ProfileIterator profIt(m_id, first, last);
+    case DomainListener::SET_TO_SINGLETON:
+    case DomainListener::RESET:
+    case DomainListener::RELAXED: {
+      debugMsg("Profile:handleTimeChanged", "Handling change of transaction " << e << " at time " << e->time()->toString() << " with quantity " << e->quantity()->toString());
+      if(e->time()->lastDomain().isEmpty())
+        break;
+
+      //a relaxation does not always lead to a superset of the times the transaction had before: the time may have been emptied in
+      //between, or be relaxed to a specified value.
+      addInstantsForBounds(e);
       std::vector<eint> emptyInstants;
-      while(!profIt.done()) {
-        InstantId inst = profIt.getInstant();
-        if(!e->time()->lastDomain().isMember(inst->getTime())) {
+      for(std::map<eint, InstantId>::const_iterator it = m_instants.begin(); it != m_instants.end(); ++it) {
+        InstantId inst = it->second;
+        const bool present = inst->getTransactions().find(e) != inst->getTransactions().end();
+        const bool possible = e->time()->lastDomain().isMember(inst->getTime());
+        if(present && !possible) {
           debugMsg("Profile:handleTimeChanged", "Removing transaction " << e << " from Instant at time " << inst->getTime());
           inst->removeTransaction(e);
-          if(inst->getTransactions().empty() || !containsChange(inst))
-            emptyInstants.push_back(inst->getTime());
         }
-        else
+        else if(present)
           inst->updateTransaction(e);
-        profIt.next();
-      }
+        else if(possible)
+          inst->addTransaction(e);
 
-      //add instants for start and end and add overlapping transactions to them
-      addInstantsForBounds(e);
+        if((present || possible) && (inst->getTransactions().empty() || !containsChange(inst)))
+          emptyInstants.push_back(inst->getTime());
+      }
 
       for(std::vector<eint>::iterator emptyIt = emptyInstants.begin();
           emptyIt != emptyInstants.end(); ++emptyIt) {
@@ -265,39 +250,6 @@ void Profile::transactionTimeChanged(const TransactionId e,
       }
     }
       break;
-    case DomainListener::RESET:
-    case DomainListener::RELAXED: {
-      debugMsg("Profile:handleTimeChanged",
-               "Handling relaxation of transaction " << e << " at time " <<
-               e->time()->toString() << " with quantity " << e->quantity()->toString());
-      ProfileIterator it(m_id, startTime, endTime);
-      addInstantsForBounds(e);
-      std::vector<eint> emptyInstants;
-      while(!it.done()) {
-        InstantId inst = it.getInstant();
-        if(!containsChange(inst))
-          emptyInstants.push_back(inst->getTime());
-        else if(inst->getTransactions().find(e) == inst->getTransactions().end())
-          inst->addTransaction(e);
-        else
-          inst->updateTransaction(e);
-        it.next();
-      }
-      for(std::vector<eint>::iterator emptyIt = emptyInstants.begin();
-          emptyIt != emptyInstants.end(); ++emptyIt) {
-        std::map<eint, InstantId>::iterator instIt = m_instants.find(*emptyIt);
-        checkError(instIt != m_instants.end(),
-                   "Computed empty instant at time " << *emptyIt << " but no such instant exists.");
-        InstantId inst = instIt->second;
-        debugMsg("Profile:handleTimeChanged", "Removing instant at time " << inst->getTime());
-        condDebugMsg(inst->getTransactions().empty(), "Profile:handleTimeChanged", "because it has no transactions.");
-        condDebugMsg(!containsChange(inst), "Profile:handleTimeChanged", "because it does not mark a change.");
-        m_instants.erase(*emptyIt);
-        m_detector->notifyDeleted(inst);
-        delete static_cast<Instant*>(inst);
-      }
-    }
-      break;
     case DomainListener::REFTIME_CHANGED:
     case DomainListener::VALUE_REMOVED:
     case DomainListener::CLOSED:
@@ -650,7 +602,8 @@ void Profile::addInstantsForBounds(const TransactionId t) {
     }
     else {
       InstantId inst = (*ite).second;
-      inst->updateTransaction( t );
+      if(inst->getTransactions().find(t) != inst->getTransactions().end())
+        inst->updateTransaction( t );
     }
   }
 
@@ -661,7 +614,8 @@ void Profile::addInstantsForBounds(const TransactionId t) {
     }
     else {
       InstantId inst = (*ite).second;
-      inst->updateTransaction( t );
+      if(inst->getTransactions().find(t) != inst->getTransactions().end())
+        inst->updateTransaction( t );
     }
   }
 }
-- 
2.43.0


From 8e2fd420b6da01b869a1804aeab6fb7abddf179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:03 +0000
Subject: [PATCH 098/106] fix: undo a resource ordering decision whose instant
 is gone

---
 .../Resource/component/Solvers/ResourceThreatDecisionPoint.cc  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/Resource/component/Solvers/ResourceThreatDecisionPoint.cc b/src/PLASMA/Resource/component/Solvers/ResourceThreatDecisionPoint.cc
index 0b63b93..d1f6c39 100644
--- a/src/PLASMA/Resource/component/Solvers/ResourceThreatDecisionPoint.cc
+++ b/src/PLASMA/Resource/component/Solvers/ResourceThreatDecisionPoint.cc
@@ -533,7 +533,8 @@ ResourceThreatDecisionPoint::ResourceThreatDecisionPoint(const DbClientId client
     }
 
     bool ResourceThreatDecisionPoint::canUndo() const {
-      return DecisionPoint::canUndo() && m_constr.isValid();
+      // The instant may be gone by now. The ordering that was decided is not.
+      return isExecuted() && m_constr.isValid();
     }
 
     void ResourceThreatDecisionPoint::handleExecute() {
-- 
2.43.0


From 79d4901f856ae30aa06dd568c08425cdb934181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:12 +0000
Subject: [PATCH 099/106] fix: close the script when its language reports an
 error

---
 src/PLASMA/Utils/base/Engine.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/Utils/base/Engine.cc b/src/PLASMA/Utils/base/Engine.cc
index 09f9ffd..8c3579d 100644
--- a/src/PLASMA/Utils/base/Engine.cc
+++ b/src/PLASMA/Utils/base/Engine.cc
@@ -370,7 +370,11 @@ std::string EngineBase::executeScript(const std::string& language,
   std::string source;
   if (isFile) {
     in = new std::ifstream(script.c_str());
-    checkRuntimeError(in->good(), "Cannot read script from location \"" << script << "\"");
+    if (!in->good()) {
+      delete in;
+      in = NULL;
+    }
+    checkRuntimeError(in != NULL, "Cannot read script from location \"" << script << "\"");
     source = script;
   }
   else {
@@ -378,7 +382,14 @@ std::string EngineBase::executeScript(const std::string& language,
     source = "<eval>";
   }
 
-  std::string retval = it->second->interpret(*in, source);
+  std::string retval;
+  try {
+    retval = it->second->interpret(*in, source);
+  }
+  catch (...) {
+    delete in;
+    throw;
+  }
   delete in;
 
   return retval;
-- 
2.43.0


From 552570b320e3df76dca76a1e894815cf3583cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:12 +0000
Subject: [PATCH 100/106] fix: free the message about a missing include file

---
 src/PLASMA/NDDL/base/antlr/NDDL3.g | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3.g b/src/PLASMA/NDDL/base/antlr/NDDL3.g
index 205266b..91e0ed2 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3.g
@@ -484,6 +484,7 @@ INCLUDE :	'#include' WS+ file=STRING
                             std::string message = ("File not found: " + std::string((const char*)$file.text->chars)
                                                    + ", search path \"" + path + "\"");
                             EXCEPTION->message      = (void*) strdup(message.c_str());
+                            EXCEPTION->freeMessage  = ANTLR3_TRUE;
                             EXCEPTION->token        = $file;
                             return; // generated code has GOTO to the end
                             // reportLexerError(RECOGNIZER, NULL); //Note: the second argument does not appear to be used for anything.
-- 
2.43.0


From 0c093303e831b093de8551312f576eacb94c4192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:12 +0000
Subject: [PATCH 101/106] fix: release the parts of a class whose definition is
 refused

---
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g       | 4 ++--
 src/PLASMA/NDDL/component/NddlInterpreter.cc | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index 0db7298..b29ae17 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -623,13 +623,13 @@ tokenType[ObjectType* objType]
 			ttName=IDENT 
 			{ 
 			    tokenTypeName = objType->getName() + "." + c_str($ttName.text->chars);
-			    tokenType = new InterpretedTokenType(objType->getId(),tokenTypeName,c_str($kind.text->chars)); //NOTE: This can leak if one of the tokenStatements throws
+			    tokenType = new InterpretedTokenType(objType->getId(),tokenTypeName,c_str($kind.text->chars));
+			    objType->addTokenType(tokenType->getId()); // owned by objType, also if one of the tokenStatements throws
 			    pushContext(CTX,new NddlTokenSymbolTable(CTX->SymbolTable,tokenType->getId(),objType->getId())); 
 			}
 			tokenStatements[tokenType]
 		)
 		{
-            objType->addTokenType(tokenType->getId());
             checkError(CTX->SymbolTable->cleanupStackSize() == 0,
                        CTX->SymbolTable->cleanupStackSize());
             popContext(CTX);
diff --git a/src/PLASMA/NDDL/component/NddlInterpreter.cc b/src/PLASMA/NDDL/component/NddlInterpreter.cc
index 2671104..8b38dc8 100644
--- a/src/PLASMA/NDDL/component/NddlInterpreter.cc
+++ b/src/PLASMA/NDDL/component/NddlInterpreter.cc
@@ -710,7 +710,10 @@ NddlClassSymbolTable::NddlClassSymbolTable(NddlSymbolTable* parent, ObjectType*
 NddlClassSymbolTable::~NddlClassSymbolTable()
 {
   if(!m_saveObjectType)
+  {
+    m_objectType->purgeAll(); // never registered, so nobody else owns them
     delete m_objectType;
+  }
 }
 
 void NddlClassSymbolTable::saveObjectType() {m_saveObjectType = true;}
-- 
2.43.0


From 51d1a51fe932725a78d1ae1e2e1932d76cdb15ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:12 +0000
Subject: [PATCH 102/106] fix: delete an object whose construction fails

---
 src/PLASMA/PlanDatabase/base/Object.cc     |  3 ++-
 src/PLASMA/PlanDatabase/base/ObjectType.cc | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/Object.cc b/src/PLASMA/PlanDatabase/base/Object.cc
index a08c7ca..00ab4fb 100644
--- a/src/PLASMA/PlanDatabase/base/Object.cc
+++ b/src/PLASMA/PlanDatabase/base/Object.cc
@@ -119,7 +119,8 @@ void Object::constructor(const std::vector<const Domain*>&) {}
       if (!m_parent.isNoId())
 	m_parent->remove(m_id);
 
-      m_planDatabase->notifyRemoved(m_id);
+      if (m_planDatabase->getObjects().find(m_id) != m_planDatabase->getObjects().end()) // else construction failed
+        m_planDatabase->notifyRemoved(m_id);
     }
   }
 
diff --git a/src/PLASMA/PlanDatabase/base/ObjectType.cc b/src/PLASMA/PlanDatabase/base/ObjectType.cc
index afef1e0..53e5c2d 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectType.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectType.cc
@@ -581,8 +581,15 @@ void* ObjectFactoryEvalContext::getElement(const std::string& name) const {
     debugMsg("InterpretedObjectFactory:createInstance", "Creating instance for type " << objectType << " with name " << objectName);
 
     ObjectId instance = makeNewObject(planDb, objectType, objectName,arguments);
-    evalConstructorBody(instance,arguments);
-    instance->close();
+    try {
+      evalConstructorBody(instance,arguments);
+      instance->close();
+    }
+    catch (...) {
+      // do not leave an object behind that could not be constructed
+      delete static_cast<Object*>(instance);
+      throw;
+    }
 
     debugMsg("InterpretedObjectFactory:createInstance", "Created instance " << instance->toString() << " for type " << objectType << " with name " << objectName);
 
-- 
2.43.0


From 9332eebe23e0704e3b3590b7b3db2b707f3c97bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:12 +0000
Subject: [PATCH 103/106] fix: release the domains read from transactions

---
 .../PlanDatabase/component/DbClientTransactionPlayer.cc  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
index 363d89c..afad973 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
@@ -18,6 +18,7 @@
 #include <iostream>
 #include <sstream>
 
+#include <boost/scoped_ptr.hpp>
 #include <boost/algorithm/string/split.hpp>
 #include <boost/algorithm/string/classification.hpp>
 
@@ -1057,6 +1058,7 @@ void DbClientTransactionPlayer::playTokenCreated(const TiXmlElement & element) {
     check_error(value_el != NULL);
     const Domain * value = xmlAsDomain(*value_el);
     debugMsg("DbClientTransactionPlayer:playVariableAssigned", "specifying to " << (*value));
+    boost::scoped_ptr<const Domain> owner(value);
     variable->restrictBaseDomain(*value);
   }
 
@@ -1101,6 +1103,7 @@ void DbClientTransactionPlayer::playTokenCreated(const TiXmlElement & element) {
     TiXmlElement * value_el = var_el->NextSiblingElement();
     check_error(value_el != NULL);
     const Domain * value = xmlAsDomain(*value_el);
+    boost::scoped_ptr<const Domain> owner(value);
     m_client->restrict(variable, *value);
   }
 
@@ -1715,8 +1718,10 @@ DbClientTransactionPlayer::xmlAsEnumeratedDomain(const TiXmlElement & element,
     }
 
     const Domain * baseDomain = NULL;
+    boost::scoped_ptr<const Domain> owner;
     if (value != NULL) {
       baseDomain = xmlAsDomain(*value, name);
+      owner.reset(baseDomain);
 
       if (type == NULL) {
         type = value->Value();
@@ -1730,9 +1735,7 @@ DbClientTransactionPlayer::xmlAsEnumeratedDomain(const TiXmlElement & element,
 
     check_error(type != NULL);
     if (baseDomain != NULL) {
-      ConstrainedVariableId variable = m_client->createVariable(type, *baseDomain, name, isTmpVar, canBeSpecified);
-      delete baseDomain;
-      return variable;
+      return m_client->createVariable(type, *baseDomain, name, isTmpVar, canBeSpecified);
     }
 
     return m_client->createVariable(type, name);
-- 
2.43.0


From d1a0134a7135f25c70d7e834416fba35c1d50caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:04 +0000
Subject: [PATCH 104/106] fix: offer resource ordering choices in the order of
 token keys, not of addresses

---
 src/PLASMA/Resource/base/Resource.cc | 49 +++++++++++-----------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/src/PLASMA/Resource/base/Resource.cc b/src/PLASMA/Resource/base/Resource.cc
index 3f8b8ba..f083189 100644
--- a/src/PLASMA/Resource/base/Resource.cc
+++ b/src/PLASMA/Resource/base/Resource.cc
@@ -212,7 +212,8 @@ void Resource::init(const edouble initCapacityLb, const edouble initCapacityUb,
       return;
     }
 
-    std::multimap<TokenId, TokenId> pairs;
+    // in the order of the keys of the tokens, which does not depend on where they lie in memory
+    std::map<std::pair<eint, eint>, std::pair<TokenId, TokenId> > pairs;
     std::map<eint, InstantId>::iterator first = m_flawedInstants.lower_bound(token->start()->lastDomain().getLowerBound());
     if(first == m_flawedInstants.end()) {
       debugMsg("Resource:getOrderingChoices", "No ordering choices:  no flawed instants after token start: " << token->start()->lastDomain().getLowerBound());
@@ -234,9 +235,14 @@ void Resource::init(const edouble initCapacityLb, const edouble initCapacityUb,
     for(; first != last && count < limit; ++first) {
       debugMsg("Resource:getOrderingChoices", "Generating orderings for time " << first->second->getTime());
 
-      const std::set<TransactionId>& transactions = first->second->getTransactions();
-      for(std::set<TransactionId>::const_iterator it = transactions.begin(); it != transactions.end() && count < limit; ++it) {
-        TransactionId predecessor = *it;
+      std::multimap<eint, TransactionId> transactions;
+      const std::set<TransactionId>& atInstant = first->second->getTransactions();
+      for(std::set<TransactionId>::const_iterator it = atInstant.begin(); it != atInstant.end(); ++it) {
+        check_error(m_transactionsToTokens.find(*it) != m_transactionsToTokens.end());
+        transactions.insert(std::make_pair(m_transactionsToTokens.find(*it)->second->getKey(), *it));
+      }
+      for(std::multimap<eint, TransactionId>::const_iterator it = transactions.begin(); it != transactions.end() && count < limit; ++it) {
+        TransactionId predecessor = it->second;
         check_error(predecessor.isValid());
         check_error(m_transactionsToTokens.find(predecessor) != m_transactionsToTokens.end());
 
@@ -245,11 +251,11 @@ void Resource::init(const edouble initCapacityLb, const edouble initCapacityUb,
         TokenId predecessorToken = m_transactionsToTokens.find(predecessor)->second;
         check_error(predecessorToken.isValid());
 
-        for(std::set<TransactionId>::const_iterator subIt = transactions.begin(); subIt != transactions.end() && count < limit; ++subIt) {
+        for(std::multimap<eint, TransactionId>::const_iterator subIt = transactions.begin(); subIt != transactions.end() && count < limit; ++subIt) {
           if(subIt == it)
             continue;
 
-          TransactionId successor = *subIt;
+          TransactionId successor = subIt->second;
           check_error(successor.isValid());
           check_error(m_transactionsToTokens.find(successor) != m_transactionsToTokens.end());
 
@@ -269,36 +275,19 @@ void Resource::init(const edouble initCapacityLb, const edouble initCapacityUb,
                    "Considering order <" << predecessorToken->getPredicateName() << "(" << predecessorToken->getKey() << "), " <<
                    successorToken->getPredicateName() << "(" << successorToken->getKey() << ")>");
 
-          std::multimap<TokenId, TokenId>::iterator checkFirst = pairs.lower_bound(predecessorToken);
-          //if we have an entry for the predecessor
-          if(checkFirst != pairs.end() && checkFirst->first == predecessorToken) {
-            bool foundPair = false;
-            //look for the successor
-            while(checkFirst != pairs.end() && checkFirst->first == predecessorToken) {
-              if(checkFirst->second == successorToken) {
-                debugMsg("Resource:getOrderingChoices", "Order already exists.");
-                foundPair = true;
-                break;
-              }
-              ++checkFirst;
-            }
-            //if we haven't found one
-            if(!foundPair) {
-              debugMsg("Resource:getOrderingChoices", "Adding order.");
-              pairs.insert(std::pair<TokenId, TokenId>(predecessorToken, successorToken));
-              ++count;
-            }
-          }
-          else {
+          if(pairs.insert(std::make_pair(std::make_pair(predecessorToken->getKey(), successorToken->getKey()),
+                                         std::make_pair(predecessorToken, successorToken))).second) {
             debugMsg("Resource:getOrderingChoices", "Adding order.");
-            pairs.insert(std::make_pair(predecessorToken, successorToken));
             ++count;
           }
+          else {
+            debugMsg("Resource:getOrderingChoices", "Order already exists.");
+          }
         }
       }
     }
-    for(std::multimap<TokenId, TokenId>::iterator it = pairs.begin(); it != pairs.end(); ++it)
-      results.push_back(*it);
+    for(std::map<std::pair<eint, eint>, std::pair<TokenId, TokenId> >::const_iterator it = pairs.begin(); it != pairs.end(); ++it)
+      results.push_back(it->second);
     debugMsg("Resource:getOrderingChoices", "Ultimately found " << results.size() << " orderings.");
   }
 
-- 
2.43.0


From b246e466b25b820b9b6869a8d296efcdd0354716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:11 +0000
Subject: [PATCH 105/106] fix: offer the first flaw of every flaw manager
 FlawIterator::next discarded one flaw whenever it moved from one manager's
 flaws to the next.

---
 src/PLASMA/Solvers/base/Solver.cc | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index c41fe21..04a53d9 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -559,23 +559,12 @@ Solver::FlawIterator::FlawIterator(const FlawManagers& flawManagers)
       if(done())
         return EntityId::noId();
 
-      IteratorId it = (*m_it);
-      //if current iterator is done, move to the next one
-      //and return that iterator's next
-      if(it->done()) {
-        ++m_it;
-        return next();
-      }
+      // done() has already been skipped past, so there is something to take here
+      EntityId retval = (*m_it)->next();
 
-      EntityId retval = EntityId::noId();
-      //get the next entity
-      retval = it->next();
-
-      //it's possible that it's returning a noId because
-      //it's nearly done, so the previous call should bump it
-      //into doneness.  call next to bump the meta-iterator forward.
-      if(it->done())
-        next();
+      //move on to the next iterator with something left, so that done() will always work consistently
+      while (m_it != m_iterators.end() && (*m_it)->done())
+        ++m_it;
 
       return retval;
     }
-- 
2.43.0


From 07f791dd38389df075486ddbfb82167bddad67e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:48 +0000
Subject: [PATCH 106/106] fix: withdraw a guarded flaw handler whose guard held
 when it was first looked up

Its listener started as not applied, so the lapse of the guard was ignored.
---
 src/PLASMA/Solvers/base/FlawHandler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/Solvers/base/FlawHandler.cc b/src/PLASMA/Solvers/base/FlawHandler.cc
index 2cc56a8..25f32a7 100644
--- a/src/PLASMA/Solvers/base/FlawHandler.cc
+++ b/src/PLASMA/Solvers/base/FlawHandler.cc
@@ -327,7 +327,7 @@ FlawHandler::VariableListener::VariableListener(const ConstraintEngineId ce,
                                                 const FlawHandlerId flawHandler,
                                                 const std::vector<ConstrainedVariableId>& scope)
   : ConstraintEngineListener(ce),
-    m_target(target), m_flawManager(flawManager), m_flawHandler(flawHandler), m_isApplied(false), m_scope(scope) {}
+    m_target(target), m_flawManager(flawManager), m_flawHandler(flawHandler), m_isApplied(flawHandler->test(scope)), m_scope(scope) {}
   
 void FlawHandler::VariableListener::notifyChanged(const ConstrainedVariableId variable,
 						  const DomainListener::ChangeType&) {
-- 
2.43.0

