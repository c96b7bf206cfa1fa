From 3fc2969f725742168d6ae722f6fde624c08e3a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:25 +0000
Subject: [PATCH 01/77] fix: domain comparisons, assignment and equate that
 lost or misreported values

An interval was assigned the upper bound twice; equating an enumeration with
an interval reported no change when only the enumeration shrank; an interval
was compared with an enumeration (==, isSubsetOf, intersects) by bounds only
and with reals at integer resolution; a bool met with a range around zero
lost false.
---
 .../ConstraintEngine/component/Domains.cc     | 65 ++++++++++++++-----
 1 file changed, 50 insertions(+), 15 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 9d7897b..823bfef 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -167,8 +167,11 @@ EnumeratedDomain::EnumeratedDomain(const Domain& org)
 		  return true;
 
 	  // Have to intersect again for the case of mixed types (enumeration and interval)
-	  if(intersect(dom) && !isEmpty())
-		  changed = dom.intersect(*this) || changed;
+	  if(intersect(dom)){
+		  changed = true;
+		  if(!isEmpty())
+			  dom.intersect(*this);
+	  }
 
 	  return changed;
   }
@@ -660,9 +663,9 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
   Domain& IntervalDomain::operator=(const Domain& dom) {
     safeComparison(*this, dom);
     check_error(m_listener.isNoId());
-    m_lb = dom.getUpperBound();
+    m_lb = dom.getLowerBound();
     m_ub = dom.getUpperBound();
-    m_closed = dom.isFinite();
+    m_closed = dom.isClosed();
     return(*this);
   }
 
@@ -707,6 +710,14 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
   bool IntervalDomain::operator==(const Domain& dom) const {
     safeComparison(*this, dom);
 
+    // The bounds alone do not tell an interval from an enumeration with gaps
+    if (dom.isEnumerated())
+      return(dom == *this);
+
+    // Compare with the finer resolution of the two
+    if (dom.minDelta() < minDelta())
+      return(dom == *this);
+
     return(eq(m_lb, dom.getLowerBound()) &&
            eq(m_ub, dom.getUpperBound()) &&
 	   Domain::operator==(dom));
@@ -719,26 +730,51 @@ void EnumeratedDomain::testPrecision(const edouble&) const {}
   bool IntervalDomain::isSubsetOf(const Domain& dom) const {
     safeComparison(*this, dom);
     check_error(!isOpen());
-    check_error(!dom.isEmpty());
+    check_error(dom.isOpen() || !dom.isEmpty());
+
+    // The bounds alone do not tell if an enumeration has all the values
+    if (dom.isEnumerated()) {
+      if (dom.isOpen() || isEmpty())
+        return(true);
+      if (isSingleton())
+        return(dom.isMember(getSingletonValue()));
+      if (!isFinite() || getSize() > dom.getSize())
+        return(false);
+      std::list<edouble> values;
+      getValues(values);
+      for (std::list<edouble>::const_iterator it = values.begin(); it != values.end(); ++it)
+        if (!dom.isMember(*it))
+          return(false);
+      return(true);
+    }
+
+    // Compare with the finer resolution of the two
+    const Domain& finer = (dom.minDelta() < minDelta() ? dom : *this);
     bool result = ((isFinite() || dom.isInfinite()) &&
-                   leq(m_ub, dom.getUpperBound()) &&
-                   leq(dom.getLowerBound(), m_lb));
+                   finer.leq(m_ub, dom.getUpperBound()) &&
+                   finer.leq(dom.getLowerBound(), m_lb));
     return result;
   }
 
   bool IntervalDomain::intersects(const Domain& dom) const {
     safeComparison(*this, dom);
     check_error(!isOpen());
-    check_error(!dom.isEmpty());
+    check_error(dom.isOpen() || !dom.isEmpty());
+
+    // The bounds alone do not tell which values between them an enumeration has
+    if (dom.isEnumerated())
+      return(dom.intersects(*this));
 
+    // Compare with the finer resolution of the two
+    const Domain& finer = (dom.minDelta() < minDelta() ? dom : *this);
     edouble ub = dom.getUpperBound();
 
-    if( lt(ub, m_lb) )
+    if( finer.lt(ub, m_lb) )
       return false;
 
     edouble lb = dom.getLowerBound();
 
-    if( lt(m_ub, lb))
+    if( finer.lt(m_ub, lb))
       return false;
 
     return true;
@@ -1235,10 +1271,9 @@ edouble IntervalIntDomain::convert(const edouble& value) const {
       boolLb = boolUb;
       boolUb = lb;
     }
-    if(boolLb != 0.0)
-      boolLb = 1.0;
-    if(boolUb != 0.0)
-      boolUb = 1.0;
-    return IntervalIntDomain::intersect(boolLb, boolUb);
+    // Zero is false, anything else is true
+    const bool hasFalse = (boolLb <= 0.0 && boolUb >= 0.0);
+    const bool hasTrue = (boolLb != 0.0 || boolUb != 0.0);
+    return IntervalIntDomain::intersect(hasFalse ? 0.0 : 1.0, hasTrue ? 1.0 : 0.0);
   }
 }
-- 
2.43.0


From ecd38ae8aeaf86e72db2ba0c40ba1264025c962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:53 +0000
Subject: [PATCH 02/77] fix: addEq: do not discard solutions with mixed integer
 and real terms

---
 .../ConstraintEngine/component/Constraints.cc | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 68692eb..142ab3b 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -159,14 +159,24 @@ namespace EUROPA {
 
 
     /* Now, rounding issues from mixed numeric types can lead to the
-     * following inconsistency, not yet caught.  We handle it here
-     * however, by emptying the domain if the invariant post-condition
-     * is not satisfied. The motivating case for this: A:Int[-10,10] +
-     * B:Int[-10,10] == C:Real[0.01, 0.99].
+     * following inconsistency, not yet caught: when two of the three
+     * only take integer values, so must the third.  If it has no
+     * integer left the constraint cannot be satisfied. The motivating
+     * case for this: A:Int[-10,10] + B:Int[-10,10] == C:Real[0.01, 0.99].
      */
-    if (m_z.isInterval() &&
-	(!m_z.isMember(Infinity::plus(yMax, xMin, zMin)) ||
-	 !m_z.isMember(Infinity::plus(yMin, xMax, zMin))))
+    const bool xInt = m_x.minDelta() >= 1.0, yInt = m_y.minDelta() >= 1.0, zInt = m_z.minDelta() >= 1.0;
+    if (xInt + yInt + zInt == 2) {
+      edouble lb, ub;
+      (!xInt ? m_x : (!yInt ? m_y : m_z)).getBounds(lb, ub);
+      if (std::ceil(lb) > std::floor(ub))
+        m_z.empty();
+    }
+
+    /* Likewise when the sum is also one of the terms: a finite value only
+     * equals itself plus zero.
+     */
+    if ((m_variables[X] == m_variables[Z] && m_x.isFinite() && !m_y.isMember(0)) ||
+        (m_variables[Y] == m_variables[Z] && m_y.isFinite() && !m_x.isMember(0)))
       m_z.empty();
   }
 
-- 
2.43.0


From 18c6ac230f0f7266636cbe90d1855a9465d118e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:53 +0000
Subject: [PATCH 03/77] fix: neq: use the resolution of the domain being pruned

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 142ab3b..7ebd213 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -705,13 +705,13 @@ bool LessThanEqualConstraint::testIsRedundant(const ConstrainedVariableId var) c
       return(true);
     }
 
-    if (domx.compareEqual(domx.getSingletonValue(), domy.getLowerBound())) {
-      edouble low = domx.getSingletonValue() + domx.minDelta();
+    if (domy.compareEqual(domx.getSingletonValue(), domy.getLowerBound())) {
+      edouble low = domx.getSingletonValue() + domy.minDelta();
       domy.intersect(IntervalDomain(low, domy.getUpperBound()));
       return(true);
     }
-    if (domx.compareEqual(domx.getSingletonValue(), domy.getUpperBound())) {
-      edouble hi = domx.getSingletonValue() - domx.minDelta();
+    if (domy.compareEqual(domx.getSingletonValue(), domy.getUpperBound())) {
+      edouble hi = domx.getSingletonValue() - domy.minDelta();
       domy.intersect(IntervalDomain(domy.getLowerBound(), hi));
       return(true);
     }
-- 
2.43.0


From 25813d5b02ce386ed2e73ca07a768693347482ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:53 +0000
Subject: [PATCH 04/77] fix: lt: use the finer resolution when comparing
 integers with reals

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 7ebd213..0449c45 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -762,15 +762,18 @@ bool NotEqualConstraint::canIgnore(const ConstrainedVariableId variable,
 
     debugMsg("LessThanConstraint:handleExecute", "Computing " << domx.toString() << " < " << domy.toString() << " x.minDelta = " <<
 	     domx.minDelta() << " y.minDelta = " << domy.minDelta());
+    // With mixed types the finer resolution decides: 1 < y allows y == 1.5
+    const edouble delta = std::min(domx.minDelta(), domy.minDelta());
+
     if(domx.getUpperBound() >= domy.getUpperBound() &&
        domy.getUpperBound() < PLUS_INFINITY &&
-       domx.intersect(domx.getLowerBound(), domy.getUpperBound() - domx.minDelta()) &&
+       domx.intersect(domx.getLowerBound(), domy.getUpperBound() - delta) &&
        domx.isEmpty())
       return;
 
     if(domy.getLowerBound() <= domx.getLowerBound() &&
        domx.getLowerBound() > MINUS_INFINITY &&
-       domy.intersect(domx.getLowerBound() + domy.minDelta(), domy.getUpperBound()) &&
+       domy.intersect(domx.getLowerBound() + delta, domy.getUpperBound()) &&
        domy.isEmpty())
       return;
 
-- 
2.43.0


From ae7fd0947a87edb666f2fd9285f510618c89f21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:53 +0000
Subject: [PATCH 05/77] fix: eqProduct: release the contained constraints
 before their variables

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 0449c45..60d2dc6 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1026,11 +1026,12 @@ EqualSumConstraint::EqualSumConstraint(const std::string& name,
   }
 
   void EqualProductConstraint::handleDiscard(){
-    // Further unwind for contained variables
-    // m_product1.discard();
-    // m_product2.discard();
-    // m_product3.discard();
-    // m_product4.discard();
+    // The contained constraints must go before the contained variables
+    m_eqProductC1.reset();
+    m_eqProductC2.reset();
+    m_eqProductC3.reset();
+    m_eqProductC4.reset();
+    m_eqProductC5.reset();
   }
 
   /*********** CondAllSameConstraint *************/
-- 
2.43.0


From 5cc90edd2fddce1f2eaab624e6b27ae73020909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:53 +0000
Subject: [PATCH 06/77] fix: allDiff: union of an enumeration and an interval
 covers both

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 60d2dc6..e2c9a92 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1255,7 +1255,8 @@ void addToUnion(Domain **unionOfDomains,
   edouble toAddMin, toAddMax, newMin, newMax;
   domToAdd.getBounds(toAddMin, toAddMax);
   (*unionOfDomains)->getBounds(newMin, newMax);
-  bool changing = false;
+  // An enumeration has to become the interval that covers both
+  bool changing = (*unionOfDomains)->isEnumerated();
   if (toAddMin < newMin) {
     newMin = toAddMin;
     changing = true;
@@ -1265,7 +1266,7 @@ void addToUnion(Domain **unionOfDomains,
     changing = true;
   }
   if (changing) {
-    if((*unionOfDomains)->minDelta() < 1.0)
+    if((*unionOfDomains)->minDelta() < 1.0 || domToAdd.minDelta() < 1.0)
       newUnion = new IntervalDomain(newMin, newMax);
     else
       newUnion = new IntervalIntDomain(static_cast<eint>(newMin), static_cast<eint>(newMax));
-- 
2.43.0


From 4f2e5a61bcecee6a7078ea93952c2319e7c39b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:53 +0000
Subject: [PATCH 07/77] fix: testNeq: do not cut interior values out of
 intervals

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index e2c9a92..4c4446b 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -1977,14 +1977,11 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
 
     if(m_test.isSingleton()) {
       if(m_test.getSingletonValue() == true) { //Enforce inequality
-	if(m_arg1.isSingleton()) {
-	  m_arg2.remove(m_arg1.getSingletonValue());
-	}
-	if(m_arg2.isSingleton()) {
-	  m_arg1.remove(m_arg2.getSingletonValue());
-	}
+	if(!NotEqualConstraint::checkAndRemove(m_arg1, m_arg2))
+	  NotEqualConstraint::checkAndRemove(m_arg2, m_arg1);
       } else { //Enforce equality
-	m_arg2.intersect(m_arg1);
+	if(m_arg2.intersect(m_arg1) && m_arg2.isEmpty())
+	  return;
 	m_arg1.intersect(m_arg2);
       }
     }
-- 
2.43.0


From 60921135508b18c0903325d14eeb2a592bdab742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:53 +0000
Subject: [PATCH 08/77] fix: absVal: stop once the argument is empty

---
 src/PLASMA/ConstraintEngine/component/Constraints.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index 4c4446b..a16b2ee 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2215,6 +2215,8 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     }
 
     m_x.intersect(IntervalDomain(lb, ub));
+    if(m_x.isEmpty())
+      return;
     lb = m_x.getLowerBound();
     ub = m_x.getUpperBound();
 
-- 
2.43.0


From d4687d75b3f0ab8107442ad696f3ef2041fb0d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:53 +0000
Subject: [PATCH 09/77] fix: function constraints: no value satisfies an
 undefined result; pow keeps real exponents

---
 .../ConstraintEngine/component/Constraints.cc    | 16 +++++++++++++---
 .../ConstraintEngine/component/Constraints.hh    | 11 +++++++++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.cc b/src/PLASMA/ConstraintEngine/component/Constraints.cc
index a16b2ee..3e000c8 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.cc
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.cc
@@ -2297,6 +2297,10 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
     x = domx.getSingletonValue();
     y = domy.getSingletonValue();
     edouble distance = std::sqrt(x+y);
+    if(std::isnan(cast_double(distance))) { // not the sum of two squares
+      doma.empty();
+      return;
+    }
 
     doma.intersect( IntervalDomain(distance) );
 
@@ -2401,14 +2405,20 @@ SwapTwoVarsConstraint::SwapTwoVarsConstraint(const std::string& name,
 
 namespace {
 //eint mod(eint a, eint b) { return a % b; }
-eint mod(edouble a, edouble b) {return static_cast<eint::basis_type>(std::fmod(cast_basis(a), cast_basis(b)));}
+edouble mod(edouble a, edouble b) {return edouble(std::fmod(cast_basis(a), cast_basis(b)));}
+edouble power(edouble a, edouble b) {
+  double value = std::pow(cast_basis(a), cast_basis(b));
+  if(std::fabs(value) > cast_basis(PLUS_INFINITY))
+    return edouble(std::numeric_limits<double>::quiet_NaN());
+  return edouble(value);
+}
 }
   CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Max, std::max, edouble);
   CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Min, std::min, edouble);
   CREATE_FUNCTION_CONSTRAINT_ONE_ARG(Abs, std::abs, edouble);
-  CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Pow, std::pow, edouble);
+  CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Pow, power, edouble);
   CREATE_FUNCTION_CONSTRAINT_ONE_ARG(Sqrt, std::sqrt, edouble);
-  CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Mod, mod, eint);
+  CREATE_FUNCTION_CONSTRAINT_TWO_ARG(Mod, mod, edouble);
 
 
 
diff --git a/src/PLASMA/ConstraintEngine/component/Constraints.hh b/src/PLASMA/ConstraintEngine/component/Constraints.hh
index 752a204..12a914a 100644
--- a/src/PLASMA/ConstraintEngine/component/Constraints.hh
+++ b/src/PLASMA/ConstraintEngine/component/Constraints.hh
@@ -1,6 +1,7 @@
 #ifndef H_Constraints
 #define H_Constraints
 
+#include <cmath>
 #include "ConstraintEngineDefs.hh"
 #include "Constraint.hh"
 #include "Variable.hh"
@@ -38,7 +39,10 @@ namespace EUROPA {
     check_error(isActive());						\
     if (getCurrentDomain(m_variables[1]).isSingleton()) {		\
       rt value = function(getCurrentDomain(m_variables[1]).getSingletonValue()); \
-      getCurrentDomain(m_variables[0]).intersect(value, value);		\
+      if (std::isnan(cast_double(value))) /* no value satisfies it */	\
+        getCurrentDomain(m_variables[0]).empty();			\
+      else								\
+        getCurrentDomain(m_variables[0]).intersect(value, value);	\
     }									\
   }
 
@@ -54,7 +58,10 @@ namespace EUROPA {
 	&& getCurrentDomain(m_variables[2]).isSingleton()) {		\
       rt value = function(getCurrentDomain(m_variables[1]).getSingletonValue(), \
 			  getCurrentDomain(m_variables[2]).getSingletonValue()); \
-      getCurrentDomain(m_variables[0]).intersect(value, value);		\
+      if (std::isnan(cast_double(value))) /* no value satisfies it */	\
+        getCurrentDomain(m_variables[0]).empty();			\
+      else								\
+        getCurrentDomain(m_variables[0]).intersect(value, value);	\
     }									\
   }
 
-- 
2.43.0


From f05d8bc3e05eb6481c2ea3be57ff17c7918ca219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 10/77] fix: BoolDomain: intersecting with an inverted range
 empties the domain

---
 src/PLASMA/ConstraintEngine/component/Domains.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Domains.cc b/src/PLASMA/ConstraintEngine/component/Domains.cc
index 823bfef..3dcb7a0 100644
--- a/src/PLASMA/ConstraintEngine/component/Domains.cc
+++ b/src/PLASMA/ConstraintEngine/component/Domains.cc
@@ -1265,15 +1265,13 @@ edouble IntervalIntDomain::convert(const edouble& value) const {
   }
 
   bool BoolDomain::intersect(edouble lb, edouble ub) {
-    edouble boolLb = lb;
-    edouble boolUb = ub;
-    if(boolLb > boolUb) {
-      boolLb = boolUb;
-      boolUb = lb;
+    if(lb > ub) { // nothing lies between, as for every other interval
+      empty();
+      return true;
     }
     // Zero is false, anything else is true
-    const bool hasFalse = (boolLb <= 0.0 && boolUb >= 0.0);
-    const bool hasTrue = (boolLb != 0.0 || boolUb != 0.0);
+    const bool hasFalse = (lb <= 0.0 && ub >= 0.0);
+    const bool hasTrue = (lb != 0.0 || ub != 0.0);
     return IntervalIntDomain::intersect(hasFalse ? 0.0 : 1.0, hasTrue ? 1.0 : 0.0);
   }
 }
-- 
2.43.0


From 73dee538e4647e3626e700b5380d37b88519a49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 11/77] fix: keep pending constraints on the agenda when an
 inconsistency is found

---
 .../ConstraintEngine/component/Propagators.cc      | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Propagators.cc b/src/PLASMA/ConstraintEngine/component/Propagators.cc
index 108bed9..575a324 100644
--- a/src/PLASMA/ConstraintEngine/component/Propagators.cc
+++ b/src/PLASMA/ConstraintEngine/component/Propagators.cc
@@ -77,18 +77,8 @@ DefaultPropagator::DefaultPropagator(const std::string& name,
       }
     }
 
-    // If we can continue propagation despite the discovered inconsistency,
-    // keep agenda for when the ConstraintEngine recovers and decides to resume propagation
-    if(getConstraintEngine()->provenInconsistent()) {
-        if (getConstraintEngine()->canContinuePropagation()) {
-	        debugMsg("DefaultPropagator:agenda","CE was proven inconsistent, keeping agenda because propagation can continue later");
-	        // TODO: should remove from the agenda any constraints associated with the empty variable, since it'll be relaxed and they'll ba added again
-        }
-        else {
-            m_agenda.clear();
-	        debugMsg("DefaultPropagator:agenda","Cleared agenda because CE was proven inconsistent");
-        }
-    }
+    // If an inconsistency was discovered, the rest of the agenda is kept: those constraints must still
+    // be executed once the inconsistency is repaired.
     m_activeConstraint = 0;
   }
 
-- 
2.43.0


From 7512c192e632bc2c913a7a08a5db07856546510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:37 +0000
Subject: [PATCH 12/77] fix: derivedDomain propagates again when a relaxation
 follows an inconsistency

---
 src/PLASMA/ConstraintEngine/component/Variable.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/component/Variable.hh b/src/PLASMA/ConstraintEngine/component/Variable.hh
index 193aab6..82e2419 100644
--- a/src/PLASMA/ConstraintEngine/component/Variable.hh
+++ b/src/PLASMA/ConstraintEngine/component/Variable.hh
@@ -145,7 +145,9 @@ namespace EUROPA {
 
   template<class DomainType>
   const DomainType& Variable<DomainType>::getDerivedDomain() {
-    if (!getConstraintEngine()->isPropagating() && pending())
+    // A relaxation may have undone an inconsistency found earlier, so that verdict has to be reached afresh
+    if (!getConstraintEngine()->isPropagating() &&
+        (pending() || (provenInconsistent() && getConstraintEngine()->isRelaxed())))
       update();
     
     if(provenInconsistent())
-- 
2.43.0


From 84cebc7f2fc1f14366f4ce31a7bf04ce8528ea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:04 +0000
Subject: [PATCH 13/77] fix: deleting a violated constraint relaxes the
 variables it restricted

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 31b43cf..90830f3 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -501,8 +501,9 @@ void ConstraintEngine::add(const ConstraintId constraint, const std::string& pro
 
     constraint->getPropagator()->removeConstraint(constraint);
 
-    // If the constraint is inactive, there is no need to relax. So just worry if it is actually active
-    if(constraint->isActive()){
+    // If the constraint is inactive, there is no need to relax. So just worry if it is actually active,
+    // or violated: it was active until then and may have restricted its variables.
+    if(constraint->isActive() || getViolationMgr().isViolated(constraint)){
     	debugMsg("ConstraintEngine:remove:Constraint",
     			"Propagating relaxations for " << constraint->getName() << "(" << constraint->getKey() << ")");
 
-- 
2.43.0


From bbee0af019e75190ef27347caf2063ca01d735f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:04 +0000
Subject: [PATCH 14/77] fix: a constraint that became redundant while inactive
 is executed once activated

---
 src/PLASMA/ConstraintEngine/base/Constraint.cc       | 5 +++--
 src/PLASMA/ConstraintEngine/base/Constraint.hh       | 1 +
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 4 ++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/Constraint.cc b/src/PLASMA/ConstraintEngine/base/Constraint.cc
index a7168e6..1c46b69 100644
--- a/src/PLASMA/ConstraintEngine/base/Constraint.cc
+++ b/src/PLASMA/ConstraintEngine/base/Constraint.cc
@@ -25,6 +25,7 @@ Constraint::Constraint(const std::string& name,
     , m_createdBy("UNKNOWN")
     , m_deactivationRefCount(0)
     , m_isRedundant(false)
+    , m_isRetired(false)
 {
   check_error(m_constraintEngine.isValid());
   check_error(!m_variables.empty());
@@ -293,8 +294,8 @@ Constraint::getModifiedVariables(const ConstrainedVariableId) const {
   void Constraint::undoDeactivation(){
     check_error(!Entity::isPurging());
 
-    // Prevent deactivation if redundant
-    if(isRedundant())
+    // Prevent activation once deactivated on account of redundancy
+    if(m_isRetired && m_deactivationRefCount == 1)
       return;
 
     m_deactivationRefCount--;
diff --git a/src/PLASMA/ConstraintEngine/base/Constraint.hh b/src/PLASMA/ConstraintEngine/base/Constraint.hh
index 6aa0794..14e133c 100644
--- a/src/PLASMA/ConstraintEngine/base/Constraint.hh
+++ b/src/PLASMA/ConstraintEngine/base/Constraint.hh
@@ -308,6 +308,7 @@ namespace EUROPA {
     const std::string m_createdBy; /**< Populated on construction. Indicates the user that created the constraint. */
     unsigned int m_deactivationRefCount; /*!< Tracks number of outstanding deactivation calls */
     bool m_isRedundant; /*!< True of the constraint is redundant */
+    bool m_isRetired; /*!< True once it has been executed and deactivated on account of being redundant */
   };
 
   std::vector<ConstrainedVariableId> makeScope(const ConstrainedVariableId arg1);
diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 90830f3..0facd97 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -1030,6 +1030,10 @@ const PropagatorId ConstraintEngine::getPropagatorByName(const std::string& name
       ConstraintId constraint = *it;
       checkError(constraint.isValid(), constraint);
       checkError(constraint->isRedundant(), "Must be redundant. Buffering error.");
+      // One that was inactive has not been executed yet, so it must be when it is activated again
+      if(!constraint->isActive())
+        continue;
+      constraint->m_isRetired = true;
       constraint->deactivate();
       debugMsg("ConstraintEngine:processRedundantConstraints", constraint->toString());
     }
-- 
2.43.0


From 7803a33dce6e9f176677fe7638c77d897e3caaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:21 +0000
Subject: [PATCH 15/77] fix: dividing an integer by an unsigned long multiplied

---
 src/PLASMA/Utils/Number.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/Utils/Number.hh b/src/PLASMA/Utils/Number.hh
index 3de61e7..e80f344 100644
--- a/src/PLASMA/Utils/Number.hh
+++ b/src/PLASMA/Utils/Number.hh
@@ -454,7 +454,7 @@ namespace EUROPA {
     inline eint operator*(const basis_type o) const {handle_inf_mul(eint, m_v, o); op(eint, m_v, *, o);}
     inline eint operator*(const eint o) const {return operator*(o.m_v);}
     inline eint operator/(const int o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
-    inline eint operator/(const unsigned long o) const {handle_inf_mul(eint, m_v, o); op(eint, m_v, *, o);}
+    inline eint operator/(const unsigned long o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
     inline eint operator/(const basis_type o) const {handle_inf_div(eint, m_v, o); op(eint, m_v, /, o);}
     inline eint operator/(const eint o) const {return operator/(o.m_v);}
 
-- 
2.43.0


From 43f0963f151da2cd890109c33861a57951502e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:21 +0000
Subject: [PATCH 16/77] fix: pow handles infinite bases, large exponents and
 overflow

---
 src/PLASMA/Utils/Number.hh | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/Utils/Number.hh b/src/PLASMA/Utils/Number.hh
index e80f344..4e5ac1c 100644
--- a/src/PLASMA/Utils/Number.hh
+++ b/src/PLASMA/Utils/Number.hh
@@ -783,7 +783,20 @@ inline EUROPA::eint numeric_limits<EUROPA::eint>::max() throw() {return cast_bas
 
 inline EUROPA::edouble abs(const EUROPA::edouble d) { return EUROPA::edouble(abs(d.m_v), true);}
 inline EUROPA::edouble sqrt(const EUROPA::edouble d) { handle_inf_unary(EUROPA::edouble, d); return EUROPA::edouble(sqrt(d.m_v), true);}
-inline EUROPA::edouble pow(const EUROPA::edouble d, const EUROPA::eint i) {return EUROPA::edouble(std::pow(d.m_v, static_cast<int>(i.m_v)));}
+inline EUROPA::edouble pow(const EUROPA::edouble d, const EUROPA::eint i) {
+  if(d >= numeric_limits<EUROPA::edouble>::infinity() || d <= numeric_limits<EUROPA::edouble>::minus_infinity()) {
+    if(i.m_v < 0)
+      return EUROPA::edouble(0.0, true);
+    if(i.m_v > 0)
+      return (d.m_v > 0 || i.m_v % 2 == 0) ? numeric_limits<EUROPA::edouble>::infinity() : numeric_limits<EUROPA::edouble>::minus_infinity();
+  }
+  double temp = std::pow(d.m_v, static_cast<double>(i.m_v));
+  if(temp > numeric_limits<EUROPA::edouble>::infinity())
+    throw std::overflow_error("greater-than-infinity error");
+  if(temp < numeric_limits<EUROPA::edouble>::minus_infinity())
+    throw std::underflow_error("less-than-minus-infinity error");
+  return EUROPA::edouble(temp, true);
+}
 inline EUROPA::edouble sin(const EUROPA::edouble d) {return EUROPA::edouble(std::sin(d.m_v), true);}
 inline EUROPA::edouble ceil(const EUROPA::edouble d) {return EUROPA::edouble(std::ceil(d.m_v), true);}
 inline EUROPA::edouble floor(const EUROPA::edouble d) {return EUROPA::edouble(std::floor(d.m_v), true);}
-- 
2.43.0


From 0c4a3a71719f5d84a1155685559f7c10041516a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:31 +0000
Subject: [PATCH 17/77] fix: a temporal queue entry superseded by a reinsertion
 with a larger key is skipped

---
 src/PLASMA/TemporalNetwork/base/queues.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/TemporalNetwork/base/queues.cc b/src/PLASMA/TemporalNetwork/base/queues.cc
index 9a41e6d..54f1916 100644
--- a/src/PLASMA/TemporalNetwork/base/queues.cc
+++ b/src/PLASMA/TemporalNetwork/base/queues.cc
@@ -93,9 +93,11 @@ Dnode* BucketQueue::popMinFromQueue()
   while (!buckets.empty()){
     const Bucket& b = buckets.top();
     node = const_cast<Dnode*>(b.node);
+    Time key = b.key;
     buckets.pop();
 
-    if (node->isMarked()){
+    // skip entries superseded by a later insertion of the same node
+    if (node->isMarked() && node->getKey() == key){
       node->unmark();
       return node;
     }
-- 
2.43.0


From b3f985140b171d4550a364949467d59a0cdc0fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:07 +0000
Subject: [PATCH 18/77] fix: report a temporal inconsistency on an active
 variable

---
 .../component/TemporalPropagator.cc           | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 03c106a..e44c5dc 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -303,11 +303,22 @@ ConstraintId getConstraint(ConstrainedVariableId fromvar,
   {
       const std::set<Timepoint*>& updatedTimepoints = m_tnet->getUpdatedTimepoints();
       checkError(!updatedTimepoints.empty(), "updated timepoints are expected if tnet is not consistent");
-      std::map<Timepoint*, ConstrainedVariableId>::const_iterator it =
-          m_timepointToVar.find(*(updatedTimepoints.begin()));
-      check_error(it != m_timepointToVar.end());
-      ConstrainedVariableId var = it->second;
-      
+      // Report it on an active variable: emptying one that is inactive (e.g. of a merged token) goes unnoticed.
+      ConstrainedVariableId var;
+      for(std::set<Timepoint*>::const_iterator tit = updatedTimepoints.begin();
+          var.isNoId() && tit != updatedTimepoints.end(); ++tit) {
+        std::map<Timepoint*, ConstrainedVariableId>::const_iterator it = m_timepointToVar.find(*tit);
+        check_error(it != m_timepointToVar.end());
+        if(it->second->isActive())
+          var = it->second;
+      }
+      for(std::map<Timepoint*, ConstrainedVariableId>::const_iterator it = m_timepointToVar.begin();
+          var.isNoId() && it != m_timepointToVar.end(); ++it) {
+        if(it->second->isActive())
+          var = it->second;
+      }
+      checkError(var.isId(), "an inconsistent tnet must involve some active variable");
+
       if (getConstraintEngine()->getAllowViolations())
           collectViolations(var);
       else
-- 
2.43.0


From dc4e4d523c8f8dacda8d16f0396dac71d3e045ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:07 +0000
Subject: [PATCH 19/77] fix: delete the constraints among sub-goals before the
 sub-goals when a rule is undone

---
 src/PLASMA/RulesEngine/base/RuleInstance.cc | 29 ++++++++++++++++++---
 src/PLASMA/RulesEngine/base/RuleInstance.hh |  5 ++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.cc b/src/PLASMA/RulesEngine/base/RuleInstance.cc
index 95400d4..ebbad55 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.cc
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.cc
@@ -11,6 +11,7 @@
 #include "Debug.hh"
 #include "ProxyVariableRelation.hh"
 #include "Domains.hh"
+#include <algorithm>
 #include <sstream>
 
 #include <boost/algorithm/string.hpp>
@@ -305,12 +306,14 @@ void RuleInstance::undo() {
 
       // Only discard constraints that are connected to the master since the master may persist after the rule has cleaned up
       // but the constraints should not. If it is not connected to the master then it applies to local variables or slave variables.
-      // if a full roll-back of the rule occurs, slaves and local variables will be deleted, causing a delete of the attendant constraints.
-      // In the event that a slave persists, as cann occur when the master is removed through termination, then the constraints among
+      // In a full roll-back slaves and local variables will be deleted, and the constraints on them have to go first.
+      // In the event that a slave persists, as can occur when the master is removed through termination, then the constraints among
       // remaining slaves should also be retained
-      if(connectedToToken(constr, m_token)){
+      if(connectedToToken(constr, m_token) || !connectsPersistingSlaves(constr)){
         debugMsg("RuleInstance:undo",
                  "Removing connected constraint " << constr->toLongString());
+        if(m_token->isTerminated() && constr->isActive()) // Termination must not cause a relaxation
+          constr->deactivate();
 	delete static_cast<Constraint*>(constr);
       }
     }
@@ -761,6 +764,26 @@ bool RuleInstance::connectedToToken(const ConstraintId constr,
   return false;
 }
 
+bool RuleInstance::connectsPersistingSlaves(const ConstraintId constr) const {
+  // A slave persists only if its master is terminated while other tokens are merged onto it.
+  if(!m_token->isTerminated())
+    return false;
+
+  for(std::vector<ConstrainedVariableId>::const_iterator it = constr->getScope().begin();
+      it != constr->getScope().end(); ++it){
+    EntityId parent = (*it)->parent();
+    if(parent.isNoId())
+      continue;
+    if(!TokenId::convertable(parent))
+      return false;
+    const TokenId slave(parent);
+    if(slave->refCount() == 1 || std::find(m_slaves.begin(), m_slaves.end(), slave) == m_slaves.end())
+      return false;
+  }
+
+  return true;
+}
+
 std::string RuleInstance::ruleExecutionContext() const {
   static const std::string TAB_DELIMITER("    ");
   std::stringstream ss;
diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.hh b/src/PLASMA/RulesEngine/base/RuleInstance.hh
index 1ca1d98..a9c32e8 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.hh
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.hh
@@ -284,6 +284,11 @@ namespace EUROPA{
      */
     bool connectedToToken(const ConstraintId constraint, const TokenId token) const;
 
+    /**
+     * @brief Tests if a constraint is only among slaves that will outlive the rule and their master.
+     */
+    bool connectsPersistingSlaves(const ConstraintId constraint) const;
+
     /** ANALYSIS ROUTINES FOR DEBUGGING **/
     std::string ruleExecutionContext() const;
 
-- 
2.43.0


From daf58669133393f125fb407c9bf11d87925514cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:07 +0000
Subject: [PATCH 20/77] fix: delete an active token whose master is gone when
 the last token merged onto it is split

---
 src/PLASMA/PlanDatabase/base/Token.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/Token.cc b/src/PLASMA/PlanDatabase/base/Token.cc
index 3bae4b2..040e28f 100644
--- a/src/PLASMA/PlanDatabase/base/Token.cc
+++ b/src/PLASMA/PlanDatabase/base/Token.cc
@@ -350,8 +350,13 @@ const ConstrainedVariableId Token::getVariable(const std::string& name,
 
     if(state == ACTIVE)
       deactivate();
-    else if(state == MERGED)
+    else if(state == MERGED) {
+      TokenId activeToken = m_activeToken;
       split();
+      // An active token that has lost its master was kept only for the tokens merged onto it.
+      if(activeToken->refCount() == 0 && activeToken->noExternalConstraints())
+        delete static_cast<Token*>(activeToken);
+    }
     else if(state == REJECTED)
       reinstate();
     else
-- 
2.43.0


From 866e3868b5d64f8f11e8f97994d69c1105f659ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:40 +0000
Subject: [PATCH 21/77] fix: relaxing a variable keeps the base domains of the
 tokens merged onto its token

---
 src/PLASMA/PlanDatabase/base/TokenVariable.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/TokenVariable.hh b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
index 477bcc5..7a9d5c6 100644
--- a/src/PLASMA/PlanDatabase/base/TokenVariable.hh
+++ b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
@@ -284,10 +284,11 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
 
   template<class DomainType>
   void TokenVariable<DomainType>::relax() {
-    Variable<DomainType>::relax();
-
-    if(!(this->isSpecified()))
-    	this->m_derivedDomain->relax(*m_integratedBaseDomain);
+    // Not to the base domain first: that is wider than the one integrated over the merged tokens
+    if(this->isSpecified())
+      Variable<DomainType>::relax();
+    else
+      this->m_derivedDomain->relax(*m_integratedBaseDomain);
   }
 
 }
-- 
2.43.0


From 2a766959e0fa77e7edbadd713ad7479e566c480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:29 +0000
Subject: [PATCH 22/77] fix: constraints copied by a merge are not executed
 before their source is set

---
 src/PLASMA/PlanDatabase/base/MergeMemento.cc | 7 +++++--
 src/PLASMA/PlanDatabase/base/Token.cc        | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/MergeMemento.cc b/src/PLASMA/PlanDatabase/base/MergeMemento.cc
index 43c3596..df2e4fe 100644
--- a/src/PLASMA/PlanDatabase/base/MergeMemento.cc
+++ b/src/PLASMA/PlanDatabase/base/MergeMemento.cc
@@ -1,6 +1,7 @@
 #include "MergeMemento.hh"
 #include "Token.hh"
 #include "PlanDatabase.hh"
+#include "CESchema.hh"
 #include "ConstraintType.hh"
 #include "TokenVariable.hh"
 #include "Utils.hh"
@@ -171,8 +172,10 @@ namespace EUROPA{
 
 
       debugMsg("europa:merging:migrateConstraint", "Creating replacement for " << constraint->toString());
-      ConstraintId newConstraint;
-      newConstraint = m_activeToken->getPlanDatabase()->getConstraintEngine()->createConstraint(constraint->getName(),newScope);
+      // Allocate it without propagating: it is not to be executed before its source has been set, nor
+      // while the merge is only partly done.
+      const ConstraintEngineId ce = m_activeToken->getPlanDatabase()->getConstraintEngine();
+      ConstraintId newConstraint = ce->getCESchema()->getConstraintType(constraint->getName())->createConstraint(ce, newScope, "");
 
       // Now set the source on the new constraint to give opportunity to pass data
       newConstraint->setSource(constraint);
diff --git a/src/PLASMA/PlanDatabase/base/Token.cc b/src/PLASMA/PlanDatabase/base/Token.cc
index 040e28f..409d2bb 100644
--- a/src/PLASMA/PlanDatabase/base/Token.cc
+++ b/src/PLASMA/PlanDatabase/base/Token.cc
@@ -390,6 +390,9 @@ void Token::doMerge(const TokenId activeToken){
   }
   
   m_planDatabase->notifyMerged(m_id);
+
+  if(m_planDatabase->getConstraintEngine()->shouldAutoPropagate())
+    m_planDatabase->getConstraintEngine()->propagate();
 }
 
   void Token::split(){
-- 
2.43.0


From 67ec9a9a3c6f7f6e69972fb48f10e084e4c653ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:29 +0000
Subject: [PATCH 23/77] fix: an orphan's own sub-goals do not keep it from
 being deleted

---
 src/PLASMA/PlanDatabase/base/Token.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/Token.cc b/src/PLASMA/PlanDatabase/base/Token.cc
index 409d2bb..5f0f158 100644
--- a/src/PLASMA/PlanDatabase/base/Token.cc
+++ b/src/PLASMA/PlanDatabase/base/Token.cc
@@ -941,8 +941,9 @@ bool Token::canBeTerminated(eint) const{
 	const std::vector<ConstrainedVariableId>& scope = constraint->getScope();
 	for(unsigned int j=0;j<scope.size();j++){
 	  EntityId parent = scope[j]->parent();
-	  // It must not be related to a variable of another token in the plan
-	  if(!parent.isNoId() && parent != m_id && TokenId::convertable(parent)){
+	  // It must not be related to a variable of another token in the plan, except for sub-goals of this token,
+	  // which go when it does
+	  if(!parent.isNoId() && parent != m_id && TokenId::convertable(parent) && TokenId(parent)->master() != m_id){
 	    debugMsg("Token:noExternalConstraints", "Found external constraint " << constraint->toString());
 	    return false;
 	  }
-- 
2.43.0


From 20ef0ff95b3ba063bfe0f7d770da03f07bca3e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:29 +0000
Subject: [PATCH 24/77] fix: an inconsistency found after post-propagation
 callbacks relaxed the network is not an error

---
 src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 0facd97..3702b42 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -686,6 +686,8 @@ void ConstraintEngine::add(const PropagatorId propagator){
     bool continueProp = true;
 
     while(continueProp) {
+      // The callbacks of the round before may have relaxed the network
+      m_relaxed.clear();
       incrementCycle();
       debugMsg("ConstraintEngine:propagate", "Starting cycle " << m_cycleCount);
       m_propInProgress = true;
-- 
2.43.0


From ff59de063019b2cb088f013c237281275816f83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:29 +0000
Subject: [PATCH 25/77] fix: rules firing in an inconsistent plan use the last
 domains of the values they copy

---
 src/PLASMA/NDDL/component/Interpreter.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index c0be9b0..8f1ef3c 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -1713,7 +1713,8 @@ void InterpretedRuleInstance::executeLoop(EvalContext& evalContext,
   // Create a local domain based on the objects included in the valueSet
   ConstrainedVariableId setVar = evalContext.getVar(valueSet.c_str());
   check_error(!setVar.isNoId(),"Loop var can't be NULL");
-  const Domain& setVarDomain = setVar->derivedDomain();
+  // A rule may fire while the plan is inconsistent, when every derived domain is empty
+  const Domain& setVarDomain = setVar->derivedDomain().isEmpty() ? setVar->lastDomain() : setVar->derivedDomain();
   debugMsg("Interpreter:InterpretedRule","set var for loop :" << setVar->toString());
   debugMsg("Interpreter:InterpretedRule","set var domain for loop:" << setVarDomain.toString());
   const ObjectDomain& loopObjectSet = dynamic_cast<const ObjectDomain&>(setVarDomain);
@@ -2045,8 +2046,13 @@ ConstrainedVariableId ExprVarDeclaration::makeRuleVar(RuleInstanceEvalContext& c
                                                            );
   }
 
-  if (m_initValue != NULL)
-    localVar->restrictBaseDomain(m_initValue->eval(context).getValue()->derivedDomain());
+  if (m_initValue != NULL) {
+    // Rules may fire while the plan is inconsistent, when every derived domain is empty
+    const ConstrainedVariableId value = m_initValue->eval(context).getValue();
+    const Domain& derived = value->derivedDomain();
+    const Domain& last = value->lastDomain();
+    localVar->restrictBaseDomain(!derived.isEmpty() ? derived : !last.isEmpty() ? last : value->baseDomain());
+  }
 
   context.addVar(m_name.c_str(),localVar);
   debugMsg("Interpreter:InterpretedRule","Added RuleInstance local var:" << localVar->toLongString());
-- 
2.43.0


From 6dde7d0cba1702e0691349be21aace38222b8a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:29 +0000
Subject: [PATCH 26/77] fix: a rule instance that is deleted is no longer
 scheduled

---
 src/PLASMA/RulesEngine/base/RuleInstance.cc |  3 +++
 src/PLASMA/RulesEngine/base/RulesEngine.cc  | 12 +++++++++---
 src/PLASMA/RulesEngine/base/RulesEngine.hh  |  1 +
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/RulesEngine/base/RuleInstance.cc b/src/PLASMA/RulesEngine/base/RuleInstance.cc
index ebbad55..b3103d6 100644
--- a/src/PLASMA/RulesEngine/base/RuleInstance.cc
+++ b/src/PLASMA/RulesEngine/base/RuleInstance.cc
@@ -142,6 +142,9 @@ RuleInstance::RuleInstance(const RuleInstanceId parent,
   void RuleInstance::handleDiscard(){
     checkError(m_token.isValid(), m_token);
 
+    if(m_rulesEngine.isId())
+      m_rulesEngine->unschedule(m_id);
+
     if(isExecuted())
       undo();
 
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.cc b/src/PLASMA/RulesEngine/base/RulesEngine.cc
index 06d38b6..427b039 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.cc
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.cc
@@ -243,6 +243,12 @@ RulesEngine::~RulesEngine(){
     m_ruleInstancesToUndo.push_back(r);
   }
 
+  void RulesEngine::unschedule(const RuleInstanceId r) {
+    // Keep the positions: the lists may be under way in doRules
+    std::replace(m_ruleInstancesToExecute.begin(), m_ruleInstancesToExecute.end(), r, RuleInstanceId::noId());
+    std::replace(m_ruleInstancesToUndo.begin(), m_ruleInstancesToUndo.end(), r, RuleInstanceId::noId());
+  }
+
   bool RulesEngine::doRules() {
     check_error(!m_executing);
     m_executing = true;
@@ -266,20 +272,20 @@ RulesEngine::~RulesEngine(){
 	     std::distance(m_ruleInstancesToExecute.begin(), execEnd));
     
     for(std::vector<RuleInstanceId>::const_iterator it = m_ruleInstancesToExecute.begin(); it != execEnd; ++it) {
-      debugMsg("RulesEngine:doRules", 
+      condDebugMsg(it->isId(), "RulesEngine:doRules", 
 	       "In vector: " << (*it)->toString() << " : " <<
 	       ((*it)->isExecuted() ? "E" : "*") <<
 	       ((*it)->test() ? "T" : "*") <<
 	       ((*it)->hasEmptyGuard() ? "G" : "*"));
     }
     for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToExecute.begin(); it != execEnd; ++it)
-      if(!(*it)->isExecuted() && (*it)->test()) {
+      if(it->isId() && !(*it)->isExecuted() && (*it)->test()) {
         debugMsg("RulesEngine:doRules", "Executing rule " << (*it)->toString());
         (*it)->execute();
         retval = true;
       }
     for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToUndo.begin(); it != undoEnd; ++it)
-      if((*it)->isExecuted() && !(*it)->test() && !(*it)->hasEmptyGuard()) {
+      if(it->isId() && (*it)->isExecuted() && !(*it)->test() && !(*it)->hasEmptyGuard()) {
         debugMsg("RulesEngine:doRules", "Undoing rule " << (*it)->toString());
         (*it)->undo();
         retval = true;
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.hh b/src/PLASMA/RulesEngine/base/RulesEngine.hh
index 2b2cf61..6710082 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.hh
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.hh
@@ -59,6 +59,7 @@ namespace EUROPA {
     bool isPending(const RuleInstanceId r) const;
     void scheduleForExecution(const RuleInstanceId r);
     void scheduleForUndoing(const RuleInstanceId r);
+    void unschedule(const RuleInstanceId r); /*!< A rule instance that is going away has no work left */
     bool doRules();
     bool hasWork() const;
     
-- 
2.43.0


From 2292c97c96614374a6596e76bfce3ea1f1835e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:54 +0000
Subject: [PATCH 27/77] fix: cancelling a sequenced token removes it from its
 object once

---
 src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
index 1787531..e245b2c 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
@@ -146,8 +146,9 @@ namespace EUROPA {
 
       if(!active || !m_currentDomain.isMember(object)){
         debugMsg("ObjectTokenRelation:notifyRemovals", "Removing " << m_token->toString() << " from " << object->toString());
-	object->remove(m_token);
+	// Removal may relax the object variable and so bring us back here
 	m_notifiedObjects.erase(object);
+	object->remove(m_token);
       } else {
 	startIndex++;
       }
-- 
2.43.0


From a74096c24bbd1b36fa241f3dc024e4fd324fc832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:54 +0000
Subject: [PATCH 28/77] fix: a sequenced token is not removed from its timeline
 in the middle of propagation

---
 src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
index e245b2c..96f9197 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc
@@ -144,7 +144,9 @@ namespace EUROPA {
 
       ObjectId object = *it;
 
-      if(!active || !m_currentDomain.isMember(object)){
+      // A token constrained to an object stays with it until freed. If its object variable excludes
+      // it meanwhile then that is an inconsistency the constraint will detect.
+      if(!active || (!m_currentDomain.isMember(object) && !object->isConstrainedToThisObject(m_token))){
         debugMsg("ObjectTokenRelation:notifyRemovals", "Removing " << m_token->toString() << " from " << object->toString());
 	// Removal may relax the object variable and so bring us back here
 	m_notifiedObjects.erase(object);
-- 
2.43.0


From f5cd6d5b72f515ec1e08309379b155342bebf422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:54 +0000
Subject: [PATCH 29/77] fix: no propagation while a token being deleted leaves
 its timeline

---
 src/PLASMA/PlanDatabase/base/Object.cc        | 13 ++++++++-----
 src/PLASMA/PlanDatabase/base/Object.hh        |  4 +++-
 src/PLASMA/PlanDatabase/component/Timeline.cc |  3 ++-
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/Object.cc b/src/PLASMA/PlanDatabase/base/Object.cc
index d85737b..400b5fe 100644
--- a/src/PLASMA/PlanDatabase/base/Object.cc
+++ b/src/PLASMA/PlanDatabase/base/Object.cc
@@ -287,7 +287,8 @@ void Object::getTokensToOrder(std::vector<TokenId>&) {}
     constrain(predecessor, successor, true);
   }
 
-void Object::constrain(const TokenId predecessor, const TokenId successor, bool isExplicit) {
+void Object::constrain(const TokenId predecessor, const TokenId successor, bool isExplicit,
+                       bool canPropagate) {
   check_error(predecessor.isValid());
   checkError(predecessor->isActive(), predecessor->toString() << ": " << predecessor->getState()->toString());
   check_error(successor.isValid());
@@ -315,9 +316,11 @@ void Object::constrain(const TokenId predecessor, const TokenId successor, bool
     std::vector<ConstrainedVariableId> vars;
     vars.push_back(predecessor->end());
     vars.push_back(successor->start());
-    constraint =  getPlanDatabase()->getConstraintEngine()->createConstraint(
-        "precedes",
-        vars);
+    const ConstraintEngineId ce = getPlanDatabase()->getConstraintEngine();
+    if (canPropagate)
+      constraint = ce->createConstraint("precedes", vars);
+    else
+      constraint = ce->getCESchema()->getConstraintType("precedes")->createConstraint(ce, vars, "");
 
     // Store for bi-directional access by encoded key pair and constraint
     m_constraintsByKeyPair.insert(std::make_pair(encodedKey, constraint));
@@ -334,7 +337,7 @@ void Object::constrain(const TokenId predecessor, const TokenId successor, bool
   m_planDatabase->notifyConstrained(m_id, predecessor, successor);
   check_error(isValid());
 
-  if (getPlanDatabase()->getConstraintEngine()->getAutoPropagation())
+  if (canPropagate && getPlanDatabase()->getConstraintEngine()->getAutoPropagation())
     getPlanDatabase()->getConstraintEngine()->propagate();
 
 }
diff --git a/src/PLASMA/PlanDatabase/base/Object.hh b/src/PLASMA/PlanDatabase/base/Object.hh
index 8f8f46c..198ad30 100644
--- a/src/PLASMA/PlanDatabase/base/Object.hh
+++ b/src/PLASMA/PlanDatabase/base/Object.hh
@@ -305,8 +305,10 @@ namespace EUROPA {
      * @param predecessor The token to be ordered first
      * @param successor The token to be ordered second
      * @param isExplicit true if the source is outside the elements of the plan database, false.
+     * @param canPropagate false if automatic propagation has to wait
      */
-    void constrain(const TokenId predecessor, const TokenId successor, bool isExplicit);
+    void constrain(const TokenId predecessor, const TokenId successor, bool isExplicit,
+                   bool canPropagate = true);
 
     /**
      * @brief Provides the meat of the free behaviour. Allows for useage internally
diff --git a/src/PLASMA/PlanDatabase/component/Timeline.cc b/src/PLASMA/PlanDatabase/component/Timeline.cc
index e601b9f..53e0bad 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.cc
+++ b/src/PLASMA/PlanDatabase/component/Timeline.cc
@@ -320,7 +320,8 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
     // where the token is surrounded
     if (!earlier.isNoId() && !later.isNoId() &&
 	getPrecedenceConstraint(earlier, later).isNoId())
-      constrain(earlier, later);
+      // The token may be in the midst of its destruction, so propagation has to wait
+      Object::constrain(earlier, later, true, false);
 
     Object::remove(token);
 
-- 
2.43.0


From 38a30754cc40a856a8168f07543b0bd5f8755bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:54 +0000
Subject: [PATCH 30/77] fix: freeing a token in the middle of a sequence ties
 its neighbours

---
 src/PLASMA/PlanDatabase/component/Timeline.cc | 75 +++----------------
 src/PLASMA/PlanDatabase/component/Timeline.hh |  3 -
 2 files changed, 10 insertions(+), 68 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/Timeline.cc b/src/PLASMA/PlanDatabase/component/Timeline.cc
index 53e0bad..95321bb 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.cc
+++ b/src/PLASMA/PlanDatabase/component/Timeline.cc
@@ -360,30 +360,22 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
     if (predecessorRequired && successorRequired)
       return;
 
-    // We free the constraint now, and adjust as necessary. Already taken care of markers
-    // for the explicit constraint
-    Object::free(predecessor, successor, false);
+    // Tokens that are not required leave the sequence before the constraint goes, since propagation
+    // may then find them elsewhere
+    if (!successorRequired)
+      unlink(successor);
 
-    // In the event we are freeing based on a single token, unlink it and get out
-    if (predecessor == successor) {
+    if (!predecessorRequired && predecessor != successor)
       unlink(predecessor);
-      return;
-    }
 
-    TokenId startTok(predecessor);
-    TokenId endTok(successor);
+    // We free the constraint now. Already taken care of markers for the explicit constraint
+    Object::free(predecessor, successor, false);
 
-    // If successor is not required, remove it. Update the end token.
     if (!successorRequired)
-      endTok = removeSuccessor(successor);
-
-    // If predecessor is not required, remove it and update the start token
-    if (!predecessorRequired)
-      startTok = removePredecessor(predecessor);
+      freeImplicitConstraints(successor);
 
-    // If valid start and end tokens, currently unconstrained, and adjacemt
-    if (adjacent(startTok, endTok) && !isConstrainedToPrecede(startTok, endTok))
-      Object::constrain(startTok, endTok, false); // Add an implied constraint
+    if (!predecessorRequired && predecessor != successor)
+      freeImplicitConstraints(predecessor);
 
     check_error(isValid());
   }
@@ -436,54 +428,7 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
     return(!m_tokenSequence.empty() && token == m_tokenSequence.back());
   }
 
-  TokenId Timeline::removeSuccessor(const TokenId token) {
-    freeImplicitConstraints(token);
-    std::list<TokenId>::iterator pos = m_tokenIndex.find(token->getKey())->second;
-    removeFromIndex(token);
-
-    if (m_tokenIndex.empty()) {
-      m_tokenSequence.clear();
-      return TokenId::noId();
-    }
-
-    if (atEnd(token)) {
-      m_tokenSequence.pop_back();
-      return m_tokenSequence.back();
-    }
-
-    m_tokenSequence.erase(pos++);
-    return *pos;
-  }
-
-  TokenId Timeline::removePredecessor(const TokenId token) {
-    freeImplicitConstraints(token);
-    std::list<TokenId>::iterator pos = m_tokenIndex.find(token->getKey())->second;
-    removeFromIndex(token);
-
-    if (m_tokenIndex.empty()) {
-      m_tokenSequence.clear();
-      return TokenId::noId();
-    }
-
-    if (atStart(token)) {
-      m_tokenSequence.pop_front();
-      return m_tokenSequence.front();
-    }
-
-    m_tokenSequence.erase(pos--);
-    return(*pos);
-  }
-
-  bool Timeline::adjacent(const TokenId x, const TokenId y) const {
-    if (x.isNoId() || y.isNoId())
-      return(false);
-    std::list<TokenId>::const_iterator pos = m_tokenIndex.find(x->getKey())->second;
-    ++pos;
-    return(pos != m_tokenSequence.end() && y == *pos);
-  }
-
   void Timeline::unlink(const TokenId token) {
-    freeImplicitConstraints(token);
     std::list<TokenId>::iterator pos = m_tokenIndex.find(token->getKey())->second;
     removeFromIndex(token);
     if (atStart(token))
diff --git a/src/PLASMA/PlanDatabase/component/Timeline.hh b/src/PLASMA/PlanDatabase/component/Timeline.hh
index 15c58c9..b4cac93 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.hh
+++ b/src/PLASMA/PlanDatabase/component/Timeline.hh
@@ -89,9 +89,6 @@ namespace EUROPA {
 
     /** Helper methods for the 'free' algorithm */
     void unlink(const TokenId token);
-    TokenId removeSuccessor(const TokenId token);
-    TokenId removePredecessor(const TokenId token);
-    bool adjacent(const TokenId x, const TokenId y) const;
 
 
     /**
-- 
2.43.0


From 3adecb48593c53a077a1d0c02da3da2fa9e6dbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:54 +0000
Subject: [PATCH 31/77] fix: a token left alone in a sequence stays bound to
 its timeline

---
 src/PLASMA/PlanDatabase/base/Object.hh        | 3 ++-
 src/PLASMA/PlanDatabase/component/Timeline.cc | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/Object.hh b/src/PLASMA/PlanDatabase/base/Object.hh
index 198ad30..951a5c2 100644
--- a/src/PLASMA/PlanDatabase/base/Object.hh
+++ b/src/PLASMA/PlanDatabase/base/Object.hh
@@ -321,6 +321,8 @@ namespace EUROPA {
 
     void removePrecedenceConstraint(const ConstraintId constraint);
 
+    void constrainToThisObjectAsNeeded(const TokenId token);
+
     ObjectId m_id;
     ObjectId m_parent;
     std::string m_type;
@@ -346,7 +348,6 @@ namespace EUROPA {
 
     void clean(const TokenId token);
     void clean(const ConstraintId constraint, eint tokenKey);
-    void constrainToThisObjectAsNeeded(const TokenId token);
 
     Object(const Object&); /**< NO IMPL - Prevent use of copy constructor. */
   };
diff --git a/src/PLASMA/PlanDatabase/component/Timeline.cc b/src/PLASMA/PlanDatabase/component/Timeline.cc
index 95321bb..641ae17 100644
--- a/src/PLASMA/PlanDatabase/component/Timeline.cc
+++ b/src/PLASMA/PlanDatabase/component/Timeline.cc
@@ -377,6 +377,10 @@ Timeline::Timeline(const PlanDatabaseId planDatabase, const std::string& type,
     if (!predecessorRequired && predecessor != successor)
       freeImplicitConstraints(predecessor);
 
+    // A token that remains alone has lost its last ordering, but it is still sequenced here
+    if (m_tokenSequence.size() == 1)
+      constrainToThisObjectAsNeeded(m_tokenSequence.front());
+
     check_error(isValid());
   }
 
-- 
2.43.0


From 9bb6838d4b180d892d7d9d1032aa99b477da2ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:59 +0000
Subject: [PATCH 32/77] fix: a temporal constraint between a time and itself,
 as merging may bring about, is not an error

---
 .../TemporalNetwork/component/TemporalPropagator.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index e44c5dc..157e05b 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -845,6 +845,19 @@ void TemporalPropagator::updateTimepoint(const ConstrainedVariableId var) {
   void TemporalPropagator::updateTemporalConstraint(const ConstraintId constraint)
   {
     debugMsg("TemporalPropagator:updateTemporalConstraint", "In updateTemporalConstraint for constraint " << constraint->getKey());
+    // A time is at no distance from itself. A merge may bring such a constraint about, and the tnet has no edge for it.
+    const std::vector<ConstrainedVariableId>& scope = constraint->getScope();
+    if(scope.front() == scope.back()) {
+      if(scope.size() == 3) {
+        scope[1]->setCurrentPropagatingConstraint(constraint);
+        static_cast<IntervalIntDomain&>(Propagator::getCurrentDomain(scope[1])).intersect(0, 0);
+      }
+      else if(constraint->getName() == "strictlyPrecedes") {
+        scope[0]->setCurrentPropagatingConstraint(constraint);
+        Propagator::getCurrentDomain(scope[0]).empty();
+      }
+      return;
+    }
     // If the constraint has no corresponding constraint in the tnet, then add it.
     if(m_constrToTempConstr.find(constraint) == m_constrToTempConstr.end()) {
       addTemporalConstraint(constraint);
-- 
2.43.0


From 9d618fe26fd42cd6ec2909189aa7f11af34b649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:59 +0000
Subject: [PATCH 33/77] fix: undoing a merge does not unspecify a token
 variable that has only one value

---
 src/PLASMA/PlanDatabase/base/TokenVariable.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/base/TokenVariable.hh b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
index 7a9d5c6..63b5750 100644
--- a/src/PLASMA/PlanDatabase/base/TokenVariable.hh
+++ b/src/PLASMA/PlanDatabase/base/TokenVariable.hh
@@ -122,6 +122,12 @@ TokenVariable<DomainType>::TokenVariable(const TokenId _parent,
   void TokenVariable<DomainType>::close(){
     Variable<DomainType>::close();
     this->m_integratedBaseDomain->close();
+
+    // A variable left with one value by closing it is specified of its own, like one constructed so
+    if(this->isSpecified() && !m_isLocallySpecified){
+      m_isLocallySpecified = true;
+      m_localSpecifiedValue = this->getSpecifiedValue();
+    }
   }
 
   template <class DomainType>
-- 
2.43.0


From 157f006d66cd66d299344fadd2392c1cba94bbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:59 +0000
Subject: [PATCH 34/77] fix: a new object is found by all earlier asked-for
 predicates and offered to variables of its ancestor types

---
 src/PLASMA/PlanDatabase/base/PlanDatabase.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/PlanDatabase.cc b/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
index 56c1c39..997b9fc 100644
--- a/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
+++ b/src/PLASMA/PlanDatabase/base/PlanDatabase.cc
@@ -171,6 +171,9 @@ namespace EUROPA{
     // Cache by name
     m_objectsByName.insert(std::make_pair(object->getName(), object));
 
+    // What was cached by predicate lacks the new object
+    m_objectsByPredicate.clear();
+
     // Now cache by type
     std::string type = object->getType();
     m_objectsByType.insert(std::make_pair(type, object));
@@ -180,13 +183,14 @@ namespace EUROPA{
     }
 
     // Now we must push the insertion to any connected variables.
-    ObjVarsByObjType_CI it = m_objectVariablesByObjectType.find(object->getType());
-    while (it != m_objectVariablesByObjectType.end() && it->first == object->getType()){
+    // An object of a type is an object of every type that extends.
+    for(ObjVarsByObjType_CI it = m_objectVariablesByObjectType.begin(); it != m_objectVariablesByObjectType.end(); ++it){
+      if(!m_schema->isA(object->getType(), it->first))
+        continue;
       ConstrainedVariableId connectedObjectVariable = it->second.first;
       check_error(connectedObjectVariable.isValid());
       if(!connectedObjectVariable->isClosed())
         connectedObjectVariable->insert(object->getKey());
-      ++it;
     }
 
     publish(notifyAdded(object));
@@ -219,12 +223,12 @@ namespace EUROPA{
     }
 
     // Now we must push the removal to any connected variables.
-    ObjVarsByObjType_CI it = m_objectVariablesByObjectType.find(object->getType());
-    while (it != m_objectVariablesByObjectType.end() && it->first == object->getType()){
+    for(ObjVarsByObjType_CI it = m_objectVariablesByObjectType.begin(); it != m_objectVariablesByObjectType.end(); ++it){
+      if(!m_schema->isA(object->getType(), it->first))
+        continue;
       ConstrainedVariableId connectedObjectVariable = it->second.first;
       check_error(connectedObjectVariable.isValid());
       connectedObjectVariable->remove(object->getKey());
-      ++it;
     }
 
     publish(notifyRemoved(object));
-- 
2.43.0


From d0b2b4f1dbc3a393b68394c3ecdb036da0c0417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:32 +0000
Subject: [PATCH 35/77] fix: schema answers no longer stale after later
 declarations or a reset

---
 src/PLASMA/PlanDatabase/base/Schema.cc | 15 ++++++++++++++-
 src/PLASMA/PlanDatabase/base/Schema.hh |  2 ++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/Schema.cc b/src/PLASMA/PlanDatabase/base/Schema.cc
index ec1cba1..39b84d5 100644
--- a/src/PLASMA/PlanDatabase/base/Schema.cc
+++ b/src/PLASMA/PlanDatabase/base/Schema.cc
@@ -97,7 +97,8 @@ Schema::Schema(const std::string& name, const CESchemaId ces)
     membershipRelation.clear();
     childOfRelation.clear();
     objectPredicates.clear();
-    typesWithNoPredicates.clear();
+    enumValuesToEnums.clear();
+    clearCaches();
 
     // Add System entities
 	addPrimitive("int");
@@ -106,6 +107,16 @@ Schema::Schema(const std::string& name, const CESchemaId ces)
 	addPrimitive("string");
   }
 
+  // The caches record what has been derived from the declarations so far, so a new type or
+  // predicate may turn any of them stale.
+  void Schema::clearCaches(){
+    typesWithNoPredicates.clear();
+    allObjectTypes.clear();
+    m_predTrueCache.clear();
+    m_predFalseCache.clear();
+    m_hasParentCache.clear();
+  }
+
   bool Schema::isType(const std::string& type) const{
     return(isPrimitive(type) || isObjectType(type) || isEnum(type) || isPredicate(type));
   }
@@ -567,6 +578,7 @@ int Schema::getIndexFromName(const std::string& parentType, const std::string& m
 
     objectTypes.insert(objectType);
     membershipRelation.insert(std::pair<std::string, NameValueVector>(objectType, NameValueVector()));
+    clearCaches();
 
     // Add type for constrained variables to be able to hold references to objects of the new type
     if (!getCESchema()->isDataType(objectType.c_str()))
@@ -591,6 +603,7 @@ void Schema::addPredicate(const std::string& predicate) {
            "[" << m_name << "] " << "Added predicate " << predicate);
   predicates.insert(predicate);
   membershipRelation.insert(std::pair<std::string, NameValueVector>(predicate, NameValueVector()));
+  clearCaches();
 }
 
   /**
diff --git a/src/PLASMA/PlanDatabase/base/Schema.hh b/src/PLASMA/PlanDatabase/base/Schema.hh
index 5849ecb..623bb12 100644
--- a/src/PLASMA/PlanDatabase/base/Schema.hh
+++ b/src/PLASMA/PlanDatabase/base/Schema.hh
@@ -388,6 +388,8 @@ class LabelStr;
     std::map<std::string, NameValueVector> membershipRelation; /*! All type compositions */
     std::map<std::string, std::string> childOfRelation; /*! Required to answer the getParent query */
     std::map<std::string, std::set<std::string> > objectPredicates; /*! All predicates by object type */
+    void clearCaches(); /**< Drop everything derived from the declarations so far. */
+
     std::set<std::string> typesWithNoPredicates; /*! Cache for lookup efficiently */
     std::map<std::string, std::vector<std::string> > allObjectTypes; /*! Cache to retrieve allObjectTypes by sub-class */
 
-- 
2.43.0


From ad123c60015ad34e898cb6a6273dbcc0fbab0327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:12 +0000
Subject: [PATCH 36/77] fix: constructor arguments of derived types match as
 documented

---
 src/PLASMA/PlanDatabase/base/ObjectType.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PLASMA/PlanDatabase/base/ObjectType.cc b/src/PLASMA/PlanDatabase/base/ObjectType.cc
index e734851..afef1e0 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectType.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectType.cc
@@ -371,7 +371,7 @@ ObjectFactoryId ObjectTypeMgr::getFactory(const SchemaId schema,
     if(!schema->isA(objectType, signatureTypes[0]))
       continue;
 
-    if (signatureTypes[0].c_str() != objectType.c_str())
+    if (signatureTypes[0] != objectType)
       continue;
 
     // If the argument length does not match the signature, which includes the extra for the class
-- 
2.43.0


From 2fe3e5aa7d6d6bd688009c183edce845438b6da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:12 +0000
Subject: [PATCH 37/77] fix: parameters of inherited predicates

---
 src/PLASMA/PlanDatabase/base/Schema.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/Schema.cc b/src/PLASMA/PlanDatabase/base/Schema.cc
index 39b84d5..ca12499 100644
--- a/src/PLASMA/PlanDatabase/base/Schema.cc
+++ b/src/PLASMA/PlanDatabase/base/Schema.cc
@@ -517,7 +517,10 @@ int Schema::getIndexFromName(const std::string& parentType, const std::string& m
     std::map<std::string, NameValueVector>::const_iterator membershipRelation_it =
       membershipRelation.find(predicate);
 
-    check_error(membershipRelation_it != membershipRelation.end(), predicate + " not found in the membership relation");
+    // If no hit, it is an inherited predicate, so try for the parent
+    if(membershipRelation_it == membershipRelation.end())
+      return getParameterCount(getParent(predicate));
+
     const NameValueVector& members = membershipRelation_it->second;
 
     return(members.size());
@@ -537,7 +540,10 @@ int Schema::getIndexFromName(const std::string& parentType, const std::string& m
     std::map<std::string, NameValueVector>::const_iterator membershipRelation_it =
       membershipRelation.find(predicate);
 
-    check_error(membershipRelation_it != membershipRelation.end());
+    // If no hit, it is an inherited predicate, so try for the parent
+    if(membershipRelation_it == membershipRelation.end())
+      return getParameterType(getParent(predicate), paramIndex);
+
     const NameValueVector& members = membershipRelation_it->second;
 
     return(members[paramIndex].first);
-- 
2.43.0


From d5eb198824ce2732d220946ec9ce5ae18494472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:35 +0000
Subject: [PATCH 38/77] fix: the solver's step and depth limits hold also after
 it backtracks or resets below where it started

---
 src/PLASMA/Solvers/base/Solver.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index c41fe21..64306d6 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -324,8 +324,9 @@ const std::string& Solver::getName() const { return m_name;}
         return;
       }
 
+      // The stack may have become smaller than it was when the limits were set
       if(m_maxSteps <= getStepCount() - m_stepCountFloor || 
-         m_maxDepth < getDepth() - m_depthFloor){
+         (getDepth() >= m_depthFloor && m_maxDepth < getDepth() - m_depthFloor)){
         debugMsg("Solver:step", 
                  "Timeout!  Max steps: " << m_maxSteps << " step (above floor) " << 
                  getStepCount() - m_stepCountFloor <<
@@ -463,6 +464,7 @@ const std::string& Solver::getName() const { return m_name;}
       }
 
       m_stepCount = 0;
+      m_stepCountFloor = 0;
       m_noFlawsFound = false;
       m_exhausted = false;
       m_timedOut = false;
@@ -491,6 +493,7 @@ const std::string& Solver::getName() const { return m_name;}
       // Now backtrack the last choice
       m_exhausted = backtrack();
       m_stepCount = 0;
+      m_stepCountFloor = 0;
       m_noFlawsFound = false;
       m_timedOut = false;
 
-- 
2.43.0


From c7fca417f39e0173805171b7a7a633522680e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:35 +0000
Subject: [PATCH 39/77] fix: the solver backtracks when the plan is found
 inconsistent before a step

---
 src/PLASMA/Solvers/base/Solver.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index 64306d6..635a34f 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -297,11 +297,19 @@ const std::string& Solver::getName() const { return m_name;}
       m_db->getClient()->propagate();
       debugMsg("Solver:step", "Conflict level after propagation: " << m_db->getConstraintEngine()->getViolation());
 
-      // If inconsistent, before doing anything, there is no solution.
-      if(!conflictLevelOk()){
-        m_exhausted = true;
+      // If inconsistent before doing anything, then what has been decided so far cannot be extended. Any decision not
+      // yet executed is of no use, and without executed decisions there is no solution.
+      if(!conflictLevelOk() || !m_db->getConstraintEngine()->constraintConsistent()){
         debugMsg("Solver:step", "No solution prior to stepping. Conflict before propagation: " << m_baseConflictLevel << ", after propagation:" << m_db->getConstraintEngine()->getViolation());
-        publish(notifyExhausted);
+        if(m_activeDecision.isId()) {
+          publish(notifyDeleted,m_activeDecision);
+          delete static_cast<DecisionPoint*>(m_activeDecision);
+          m_activeDecision = DecisionPointId::noId();
+        }
+
+        m_exhausted = backtrack();
+        if(m_exhausted)
+          publish(notifyExhausted);
         return;
       }
 
-- 
2.43.0


From c77b59661998a0b9cfd8f86263b140c7a78098f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:55 +0000
Subject: [PATCH 40/77] fix: a variable whose reset leaves its values as they
 are still tells listeners

---
 src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
index 6cab23a..19d77f2 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc
@@ -388,8 +388,14 @@ const std::string& ConstrainedVariable::getName() const {
     checkError(domain.isSubsetOf(internal_baseDomain()),
 				 domain.toString() << " not in " << internal_baseDomain().toString());
 
+    const bool wasSpecified = m_specifiedFlag;
     m_specifiedFlag = false;
-    getCurrentDomain().reset(domain);
+
+    // Listeners must hear that it is no longer specified even where the values stay the same
+    if(wasSpecified && getCurrentDomain() == domain)
+      m_listener->notifyChange(DomainListener::RESET);
+    else
+      getCurrentDomain().reset(domain);
   }
 
   void ConstrainedVariable::close() {
-- 
2.43.0


From 46e99f409ed1ab3bc77d538732fb699c726989e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:55 +0000
Subject: [PATCH 41/77] fix: the solver's flaw iterator no longer loses the
 first flaw of each further manager

---
 src/PLASMA/Solvers/base/Solver.cc | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/PLASMA/Solvers/base/Solver.cc b/src/PLASMA/Solvers/base/Solver.cc
index 635a34f..5aec618 100644
--- a/src/PLASMA/Solvers/base/Solver.cc
+++ b/src/PLASMA/Solvers/base/Solver.cc
@@ -571,22 +571,12 @@ Solver::FlawIterator::FlawIterator(const FlawManagers& flawManagers)
         return EntityId::noId();
 
       IteratorId it = (*m_it);
-      //if current iterator is done, move to the next one
-      //and return that iterator's next
-      if(it->done()) {
-        ++m_it;
-        return next();
-      }
-
-      EntityId retval = EntityId::noId();
       //get the next entity
-      retval = it->next();
+      EntityId retval = it->next();
 
-      //it's possible that it's returning a noId because
-      //it's nearly done, so the previous call should bump it
-      //into doneness.  call next to bump the meta-iterator forward.
-      if(it->done())
-        next();
+      //if that was its last one, move on to the next iterator that has any
+      while(m_it != m_iterators.end() && (*m_it)->done())
+        ++m_it;
 
       return retval;
     }
-- 
2.43.0


From 3143bfedfffb22cfda41541aa708bc28880eb733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:55 +0000
Subject: [PATCH 42/77] fix: hasFlaws no longer counts flaws that the
 configured conditions exclude

---
 src/PLASMA/Solvers/component/OpenConditionManager.cc   | 8 ++++----
 src/PLASMA/Solvers/component/UnboundVariableManager.cc | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/PLASMA/Solvers/component/OpenConditionManager.cc b/src/PLASMA/Solvers/component/OpenConditionManager.cc
index 669f19a..688638c 100644
--- a/src/PLASMA/Solvers/component/OpenConditionManager.cc
+++ b/src/PLASMA/Solvers/component/OpenConditionManager.cc
@@ -26,10 +26,6 @@ OpenConditionManager::OpenConditionManager(const TiXmlElement& configData)
       }
     }
   
-  bool OpenConditionManager::noMoreFlaws() {
-    return m_flawCandidates.empty();
-  }
-
 
     /**
      * Filter out if not a token
@@ -117,6 +113,10 @@ OpenConditionManager::OpenConditionManager(const TiXmlElement& configData)
       TokenSet::const_iterator m_end;
     };
 
+    bool OpenConditionManager::noMoreFlaws() {
+      return OpenConditionIterator(*this).done();
+    }
+
     IteratorId OpenConditionManager::createIterator() {
       return (new OpenConditionIterator(*this))->getId();
     }
diff --git a/src/PLASMA/Solvers/component/UnboundVariableManager.cc b/src/PLASMA/Solvers/component/UnboundVariableManager.cc
index aae4cf3..2f853f9 100644
--- a/src/PLASMA/Solvers/component/UnboundVariableManager.cc
+++ b/src/PLASMA/Solvers/component/UnboundVariableManager.cc
@@ -198,10 +198,6 @@ UnboundVariableManager::UnboundVariableManager(const TiXmlElement& configData)
       return os.str();
     }
 
-  bool UnboundVariableManager::noMoreFlaws() {
-    return m_flawCandidates.empty();
-  }
-
     class UnboundVariableIterator : public FlawIterator {
     public:
       UnboundVariableIterator(UnboundVariableManager& manager)
@@ -224,6 +220,10 @@ UnboundVariableManager::UnboundVariableManager(const TiXmlElement& configData)
     };
 
 
+    bool UnboundVariableManager::noMoreFlaws() {
+      return UnboundVariableIterator(*this).done();
+    }
+
     IteratorId UnboundVariableManager::createIterator() {
       return (new UnboundVariableIterator(*this))->getId();
     }
-- 
2.43.0


From 892f85f73a1c95eb8cc927c09a165ca850fdff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:05 +0000
Subject: [PATCH 43/77] fix: effects of actions are subject to the configured
 conditions and cuts like other tokens

---
 src/PLASMA/Solvers/component/OpenConditionManager.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/Solvers/component/OpenConditionManager.cc b/src/PLASMA/Solvers/component/OpenConditionManager.cc
index 688638c..1e2be06 100644
--- a/src/PLASMA/Solvers/component/OpenConditionManager.cc
+++ b/src/PLASMA/Solvers/component/OpenConditionManager.cc
@@ -73,11 +73,8 @@ OpenConditionManager::OpenConditionManager(const TiXmlElement& configData)
     	for(TokenSet::const_iterator it=m_flawCandidates.begin();it != m_flawCandidates.end();++it) {
     		TokenId token = *it;
     		// Deal with action effects right away
-    		if (token->hasAttributes(PSTokenType::EFFECT)) {
-    		      FlawHandlerId flawHandler = getFlawHandler(token);
-    		      checkError(flawHandler.isValid(), "No flawHandler for " << token->toString());
-    		      DecisionPointId dp =  flawHandler->create(m_db->getClient(), token, explanation);
-    		      return dp;
+    		if (token->hasAttributes(PSTokenType::EFFECT) && !dynamicMatch(token)) {
+    		      return allocateDecisionPoint(token, explanation);
     		}
     	}
 
-- 
2.43.0


From 666dc53158fc81ffb0827dcc6c1aa52e67fd98d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:05 +0000
Subject: [PATCH 44/77] fix: a flaw handler whose guards held from the start is
 withdrawn when they no longer hold

---
 src/PLASMA/Solvers/base/FlawHandler.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/Solvers/base/FlawHandler.cc b/src/PLASMA/Solvers/base/FlawHandler.cc
index 2cc56a8..8ed7fb6 100644
--- a/src/PLASMA/Solvers/base/FlawHandler.cc
+++ b/src/PLASMA/Solvers/base/FlawHandler.cc
@@ -327,7 +327,9 @@ FlawHandler::VariableListener::VariableListener(const ConstraintEngineId ce,
                                                 const FlawHandlerId flawHandler,
                                                 const std::vector<ConstrainedVariableId>& scope)
   : ConstraintEngineListener(ce),
-    m_target(target), m_flawManager(flawManager), m_flawHandler(flawHandler), m_isApplied(false), m_scope(scope) {}
+    m_target(target), m_flawManager(flawManager), m_flawHandler(flawHandler),
+    // One whose guards already hold is in force from the start
+    m_isApplied(flawHandler->test(scope)), m_scope(scope) {}
   
 void FlawHandler::VariableListener::notifyChanged(const ConstrainedVariableId variable,
 						  const DomainListener::ChangeType&) {
-- 
2.43.0


From 8f958cb9e97639af54c98d3ba3eedb71333f74f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:08 +0000
Subject: [PATCH 45/77] fix: statements of the model are not logged as
 transactions of the client

---
 src/PLASMA/NDDL/component/Interpreter.cc | 56 +++++++++++++++++-------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index 8f1ef3c..b0d8ddc 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -72,14 +72,34 @@ const SchemaId getSchema(EvalContext& context)
   return getPDB(context)->getSchema();
 }
 
+/**
+ * The statements of a constructor, of the body of a predicate or of a rule are part of the model: they take effect
+ * again whenever the object, token or rule instance is made. Only other statements are transactions of the client.
+ */
+bool isPartOfModel(EvalContext& context)
+{
+  return context.getElement("RuleInstance") != NULL ||
+    context.getElement("Token") != NULL ||
+    context.getVar("this").isId();
+}
+
+PlanDatabase* getPlanDatabase(EvalContext& context)
+{
+  PlanDatabase* pdb = reinterpret_cast<PlanDatabase*>(context.getElement("PlanDatabase"));
+  check_error(pdb != NULL,"Could not find Plan Database in eval context");
+  return pdb;
+}
+
 // TODO: move this to the eval contexts to make it cleaner
 void makeConstraint(EvalContext& context,
                     const std::string& name,
                     const std::vector<ConstrainedVariableId>& vars,
                     const std::string& violationExpl)
 {
-  PlanDatabase* pdb = reinterpret_cast<PlanDatabase*>(context.getElement("PlanDatabase"));
-  ConstraintId c = pdb->getClient()->createConstraint(name.c_str(), vars, violationExpl);
+  PlanDatabase* pdb = getPlanDatabase(context);
+  ConstraintId c = (isPartOfModel(context) ?
+                    pdb->getConstraintEngine()->createConstraint(name.c_str(), vars, violationExpl) :
+                    pdb->getClient()->createConstraint(name.c_str(), vars, violationExpl));
   debugMsg("Interpreter","Added Constraint : " << c->toString());
 
   InterpretedRuleInstance* rule =
@@ -143,6 +163,15 @@ std::string getAutoName(const std::string& prefix) {
     if (riec != NULL) {
         var = riec->getRuleInstance()->addLocalVariable(*m_domain,canBeSpecified,name);
     }
+    else if (isPartOfModel(context)) {
+        var = getPlanDatabase(context)->getConstraintEngine()->createVariable(
+                m_type.c_str(),
+                *m_domain,
+                true, // isTmp
+                canBeSpecified,
+                name.c_str()
+        );
+    }
     else {
         DbClientId pdb = getPDB(context);
         // TODO: Who destroys this variable?
@@ -324,12 +353,9 @@ DataRef ExprVarRef::eval(EvalContext& context) const {
     std::string prefix = (thisObject.isId() ? thisObject->getName() + "." : "");
 
     std::string name(prefix+m_objectName);
-    DbClientId pdb = getPDB(context);
-    ObjectId newObject = pdb->createObject(
-						  m_objectType.c_str(),
-						  name.c_str(),
-						  arguments
-						  );
+    ObjectId newObject = (isPartOfModel(context) ?
+                          getPlanDatabase(context)->createObject(m_objectType.c_str(), name.c_str(), arguments) :
+                          getPDB(context)->createObject(m_objectType.c_str(), name.c_str(), arguments));
 
     if (thisObject.isId())
         newObject->setParent(thisObject);
@@ -2103,16 +2129,12 @@ ConstrainedVariableId ExprVarDeclaration::makeRuleVar(RuleInstanceEvalContext& c
 
           if (m_rhs != NULL) {
               DataRef rhs = m_rhs->eval(context);
-              const DbClientId pdb = getPDB(context);
 
-              if (rhs.getValue()->lastDomain().isSingleton()) {
-                  pdb->restrict(lhs.getValue(),rhs.getValue()->lastDomain());
-              }
-              else {
-                  pdb->restrict(lhs.getValue(),rhs.getValue()->lastDomain());
-                  // TODO: this behavior seems more reasonable, specially to support violation reporting
-                  // lhs.getValue()->getCurrentDomain().equate(rhs.getValue()->getCurrentDomain());
-              }
+              // TODO: equating the current domains seems more reasonable, specially to support violation reporting
+              if (isPartOfModel(context))
+                  lhs.getValue()->restrictBaseDomain(rhs.getValue()->lastDomain());
+              else
+                  getPDB(context)->restrict(lhs.getValue(),rhs.getValue()->lastDomain());
               debugMsg("Interpreter:InterpretedToken","Restricted base domain for token/rule variable:" << varName << " to " << rhs.getValue()->lastDomain().toString());
           }
       }
-- 
2.43.0


From 505705a366372921106279a6173ee8231cfb9bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:08 +0000
Subject: [PATCH 46/77] fix: integers beyond 32 bits are read back from text

---
 src/PLASMA/ConstraintEngine/component/DataTypes.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/ConstraintEngine/component/DataTypes.cc b/src/PLASMA/ConstraintEngine/component/DataTypes.cc
index 8ce007d..65f32f7 100644
--- a/src/PLASMA/ConstraintEngine/component/DataTypes.cc
+++ b/src/PLASMA/ConstraintEngine/component/DataTypes.cc
@@ -7,6 +7,7 @@
 
 #include "Number.hh"
 #include "DataTypes.hh"
+#include <cstdlib>
 
 #include "Domains.hh"
 #include "Variable.hh"
@@ -108,7 +109,7 @@ edouble IntDT::createValue(const std::string& value) const
   if (value == "+inf" || value == "inf") {
     return PLUS_INFINITY;
   }
-  return atoi(value.c_str());
+  return strtol(value.c_str(), NULL, 10);
 }
 
 BoolDT::BoolDT()
-- 
2.43.0


From d8ca681134e096373e16eb7ff9cda3e939ee675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:08 +0000
Subject: [PATCH 47/77] fix: closing a variable is part of the transaction log

---
 .../PlanDatabase/component/DbClientTransactionLog.cc | 10 ++++++++++
 .../PlanDatabase/component/DbClientTransactionLog.hh |  1 +
 .../component/DbClientTransactionPlayer.cc           | 12 ++++++++++++
 .../component/DbClientTransactionPlayer.hh           |  1 +
 4 files changed, 24 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
index ab7998e..ce25148 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
@@ -115,10 +115,20 @@ void DbClientTransactionLog::notifyObjectCreated(const ObjectId object,
     pushTransaction(element);
   }
 
+  void DbClientTransactionLog::notifyVariableClosed(const ConstrainedVariableId variable){
+    if(!variable->isInternal()) {
+      TiXmlElement * element = allocateXmlElement("closevar");
+      element->LinkEndChild(variableAsXml(variable));
+      pushTransaction(element);
+    }
+  }
+
   void DbClientTransactionLog::notifyTokenCreated(const TokenId token){
     TiXmlElement * element = (token->isFact() ? allocateXmlElement("fact") :
                               allocateXmlElement("goal"));
     TiXmlElement * instance = allocateXmlElement("predicateinstance");
+    if (!token->isFact() && !token->getState()->baseDomain().isMember(Token::REJECTED))
+      element->SetAttribute("mandatory", "true");
     instance->SetAttribute("name", m_tokensCreated++);
     instance->SetAttribute("type", token->getPredicateName());
     instance->SetAttribute("path", m_client->getPathAsString(token));
diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.hh b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.hh
index 7e32554..1e58035 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.hh
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.hh
@@ -44,6 +44,7 @@ namespace EUROPA {
     void notifyVariableDeleted(const ConstrainedVariableId variable);
     void notifyVariableSpecified(const ConstrainedVariableId variable);
     void notifyVariableRestricted(const ConstrainedVariableId variable);
+    void notifyVariableClosed(const ConstrainedVariableId variable);
     void notifyVariableReset(const ConstrainedVariableId variable);
 
     void insertBreakpoint();
diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
index f854afe..0444651 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
@@ -55,6 +55,7 @@ namespace EUROPA {
       sl_retval.insert("assign");
       sl_retval.insert("restrict");
       sl_retval.insert("reset");
+      sl_retval.insert("closevar");
       sl_retval.insert("invoke");
       called = true;
     }
@@ -243,6 +244,8 @@ CESchemaId DbClientTransactionPlayer::getCESchema() const {
 	playVariableRestricted(element);
       else if (transactionMatch(element, "reset"))
 	playVariableReset(element);
+      else if (transactionMatch(element, "closevar"))
+	playVariableClosed(element);
       else if (transactionMatch(element, "invoke"))
 	playInvokeConstraint(element);
       else if(transactionMatch(element, "deleteconstraint"))
@@ -311,6 +314,7 @@ CESchemaId DbClientTransactionPlayer::getCESchema() const {
       //restrictions of base domains, so we can't use type factories
       else if (transactionMatch(element, "assign")) {}
       else if (transactionMatch(element, "restrict")) {}
+      else if (transactionMatch(element, "closevar")) {}
 
       else if (transactionMatch(element, "reset"))
 	playVariableUnreset(element, start, end);
@@ -1121,6 +1125,14 @@ void DbClientTransactionPlayer::playTokenCreated(const TiXmlElement & element) {
           "Played " << element);
   }
 
+  void DbClientTransactionPlayer::playVariableClosed(const TiXmlElement & element) {
+    TiXmlElement * var_el = element.FirstChildElement();
+    check_error(var_el != NULL);
+    ConstrainedVariableId var = xmlAsVariable(*var_el);
+    check_error(var.isValid());
+    m_client->close(var);
+  }
+
   template<typename Iterator>
   void DbClientTransactionPlayer::playVariableUnreset(const TiXmlElement& element,
 						      Iterator start, Iterator end) {
diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.hh b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.hh
index 7cb5a31..a031533 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.hh
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.hh
@@ -105,6 +105,7 @@ namespace EUROPA {
     void playVariableAssigned(const TiXmlElement & element);
     void playVariableRestricted(const TiXmlElement & element);
     void playVariableReset(const TiXmlElement & element);
+    void playVariableClosed(const TiXmlElement & element);
     template <typename Iterator>
     void playVariableUnreset(const TiXmlElement& element, Iterator start, Iterator end);
     void playInvokeConstraint(const TiXmlElement & element);
-- 
2.43.0


From 09aaa99eaca5b34b110e01b55c1e0a6102718c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:08 +0000
Subject: [PATCH 48/77] fix: sets of objects can be played back from a
 transaction log

---
 .../component/DbClientTransactionPlayer.cc    | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
index 0444651..dd1bf84 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
@@ -1524,14 +1524,16 @@ DbClientTransactionPlayer::xmlAsEnumeratedDomain(const TiXmlElement & element,
       }
       debugMsg("DbClientTransactionPlayer:xmlAsEnumeratedDomain:symbol", " thisType= " << thisType << " typeName = " <<typeName);
     }
-    //      if (strcmp(thisType.c_str(), "object") == 0) {
-    //        if (type == ANY) {
-    //          type = OBJECT;
-    //        }
-    //        if (type == OBJECT)
-    //          //!!This needs a similar type check to SYMBOL, just above (but more complex due to inheritance?)
-    //          continue;
-    //      }
+    if (strcmp(thisType.c_str(), "object") == 0) {
+      if (type == ANY) {
+        // The objects may be of different types, so their common type is given by the set
+        check_error(element.Attribute("type") != NULL, "no type for set of objects in XML");
+        type = OBJECT;
+        typeName = element.Attribute("type");
+      }
+      if (type == OBJECT)
+        continue;
+    }
     check_error(ALWAYS_FAILS, "unknown or inappropriately mixed type(s) for value(s) in an enumerated set");
   }
   check_error(type != ANY);
@@ -1548,8 +1550,12 @@ DbClientTransactionPlayer::xmlAsEnumeratedDomain(const TiXmlElement & element,
         values.push_back(m_client->createValue(typeName.c_str(), value_st));
         break;
       case OBJECT:
-        values.push_back(m_client->getObject(value_st)->getKey());
+      {
+        const ObjectId object = m_client->getObject(value_st);
+        check_error(object.isValid(), "unknown object in a set of objects");
+        values.push_back(object->getKey());
         break;
+      }
       case ANY:
         check_error(ALWAYS_FAILS);
     }
@@ -1567,7 +1573,7 @@ DbClientTransactionPlayer::xmlAsEnumeratedDomain(const TiXmlElement & element,
     case SYMBOL:
       return(new SymbolDomain(values,getCESchema()->getDataType(typeName.c_str())));
     case OBJECT:
-      return(new EnumeratedDomain(getCESchema()->getDataType(typeName.c_str()),values));
+      return(new ObjectDomain(getCESchema()->getDataType(typeName.c_str()),ObjectDomain::makeObjectList(values)));
     case ANY:
       check_error(ALWAYS_FAILS);
       return(0);
-- 
2.43.0


From b84cfc61430d4e395b2098c9c45c322f7d33a43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:08 +0000
Subject: [PATCH 49/77] fix: deletions of tokens can be played from a
 transaction log

---
 .../component/DbClientTransactionPlayer.cc    | 43 ++++++++++---------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
index dd1bf84..1023521 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc
@@ -566,33 +566,34 @@ void DbClientTransactionPlayer::playTokenCreated(const TiXmlElement & element) {
 
     TokenId tok = TokenId::noId();
 
-    TiXmlElement* child = element.FirstChildElement("predicateinstance");
-    check_error(child != NULL);
+    // The inverse of a creation holds the token in a child, a deletion has it in its own attributes
+    const TiXmlElement* child = element.FirstChildElement("predicateinstance");
+    const bool isCreation = (child != NULL);
+    if(!isCreation)
+      child = &element;
 
     const char* name = child->Attribute("name");
-    check_error(name != NULL);
-    std::map<std::string, TokenId>::iterator tokIt = m_tokens.find(name);
-    if(tokIt != m_tokens.end()) {
+    const char* pathStr = child->Attribute("path");
+    check_error(name != NULL || pathStr != NULL);
+
+    // Creations are logged with a generated name, but deletions with the one the client gave the token, so for
+    // these the path is decisive.
+    std::map<std::string, TokenId>::iterator tokIt = m_tokens.end();
+    if(name != NULL && (isCreation || pathStr == NULL))
+      tokIt = m_tokens.find(name);
+
+    if(tokIt != m_tokens.end())
       tok = tokIt->second;
-      m_tokens.erase(tokIt);
-    }
     else {
-      const char* pathStr = child->Attribute("path");
       check_error(pathStr != NULL);
+      tok = m_client->getTokenByPath(pathAsVector(pathStr));
+    }
 
-
-      std::vector<std::string> tokens;
-      tokenize(pathStr, tokens, ".");
-
-      std::vector<unsigned int> path;
-      for(std::vector<std::string>::iterator it = tokens.begin(); it != tokens.end(); ++it) {
-	std::stringstream str;
-	str << *it;
-        unsigned int pathElement = 0;
-	str >> pathElement;
-	path.push_back(pathElement);
-      }
-      tok = m_client->getTokenByPath(path);
+    for(tokIt = m_tokens.begin(); tokIt != m_tokens.end();) {
+      if(tokIt->second == tok)
+	m_tokens.erase(tokIt++);
+      else
+	++tokIt;
     }
 
     check_error(tok.isValid());
-- 
2.43.0


From fdcbc5a2e12abaa8b6ecedcf6f43b5f9ddec3507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:08 +0000
Subject: [PATCH 50/77] fix: log which goals are mandatory

---
 src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
index ce25148..952974b 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
@@ -5,6 +5,7 @@
 #include "Object.hh"
 #include "UnifyMemento.hh"
 #include "Token.hh"
+#include "TokenVariable.hh"
 #include "DbClientTransactionLog.hh"
 
 namespace EUROPA {
-- 
2.43.0


From 31ab316217212cf8eed22c7f24b6d9c6145921d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:08 +0000
Subject: [PATCH 51/77] fix: log numbers with the precision needed to read them
 back

---
 src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
index 952974b..1f29bc2 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
@@ -1,4 +1,5 @@
 #include "Debug.hh"
+#include <limits>
 #include "Utils.hh"
 #include "Domains.hh"
 #include "tinyxml.h"
@@ -290,6 +291,7 @@ void DbClientTransactionLog::notifyConstraintDeleted(const ConstraintId constrai
       if (domain->isNumeric()) {
         // CMG: Do not use snprintf. Not supported on DEC
         std::stringstream ss;
+        ss.precision(std::numeric_limits<double>::digits10 + 2); // so that it is read back as the same value
         if (isInt(domain->getTypeName())) {
           ss << cast_int(value);
         } else {
-- 
2.43.0


From 4b623d0f52f01da99a25da1061b2fc2259982551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:08 +0000
Subject: [PATCH 52/77] fix: log object variables by their own type and leave
 them open

---
 .../PlanDatabase/component/DbClientTransactionLog.cc      | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
index 1f29bc2..6c28208 100644
--- a/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
+++ b/src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc
@@ -52,18 +52,14 @@ void DbClientTransactionLog::notifyVariableCreated(const ConstrainedVariableId v
     TiXmlElement * element = allocateXmlElement("var");
     const Domain& baseDomain = variable->baseDomain();
     std::string type = baseDomain.getTypeName();
-    if (m_client->getSchema()->isObjectType(type)) {
-      ObjectId object = Entity::getTypedEntity<Object>(baseDomain.getLowerBound());
-      check_error(object.isValid());
-      type = object->getType();
-    }
     element->SetAttribute( "type", type );
     element->SetAttribute( "name", variable->getName() );
     debugMsg("notifyVariableCreated"," variable name = " << variable->getName().c_str() << " typeName = " << type << " type = " << baseDomain.getTypeName().c_str());
       
     element->SetAttribute("index", static_cast<int>(m_client->getIndexByVariable(variable)));
       
-    if (!baseDomain.isEmpty()) {
+    // A variable open to further values is created from its type alone
+    if (!baseDomain.isEmpty() && !baseDomain.isOpen()) {
       TiXmlElement * value = abstractDomainAsXml(&baseDomain);
       element->LinkEndChild(value);
     }
-- 
2.43.0


From 64fdb772ec84cf49f95821251aaa1468f55a4109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:29 +0000
Subject: [PATCH 53/77] fix: the temporal network hears of every change to the
 times of a precedence

---
 .../TemporalNetwork/ModuleTemporalNetwork.cc  | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/ModuleTemporalNetwork.cc b/src/PLASMA/TemporalNetwork/ModuleTemporalNetwork.cc
index 3a78663..794cf14 100644
--- a/src/PLASMA/TemporalNetwork/ModuleTemporalNetwork.cc
+++ b/src/PLASMA/TemporalNetwork/ModuleTemporalNetwork.cc
@@ -12,6 +12,28 @@
 
 namespace EUROPA {
 
+namespace {
+  // The temporal network keeps both bounds of every time, so it has to hear about all changes to them and not
+  // only about those that can narrow the other time.
+  class PrecedesConstraint : public LessThanEqualConstraint {
+   public:
+    PrecedesConstraint(const std::string& name, const std::string& propagatorName,
+                       const ConstraintEngineId constraintEngine,
+                       const std::vector<ConstrainedVariableId>& variables)
+        : LessThanEqualConstraint(name, propagatorName, constraintEngine, variables) {}
+    bool canIgnore(const ConstrainedVariableId, unsigned int, const DomainListener::ChangeType&) {return false;}
+  };
+
+  class StrictlyPrecedesConstraint : public LessThanConstraint {
+   public:
+    StrictlyPrecedesConstraint(const std::string& name, const std::string& propagatorName,
+                               const ConstraintEngineId constraintEngine,
+                               const std::vector<ConstrainedVariableId>& variables)
+        : LessThanConstraint(name, propagatorName, constraintEngine, variables) {}
+    bool canIgnore(const ConstrainedVariableId, unsigned int, const DomainListener::ChangeType&) {return false;}
+  };
+}
+
   ModuleTemporalNetwork::ModuleTemporalNetwork()
       : Module("TemporalNetwork")
   {
@@ -35,8 +57,8 @@ void ModuleTemporalNetwork::initialize(EngineId engine) {
   CESchema* ces = ce->getCESchema();
 
   REGISTER_SYSTEM_CONSTRAINT(ces,EqualConstraint, "concurrent", "Temporal");
-  REGISTER_SYSTEM_CONSTRAINT(ces,LessThanEqualConstraint, "precedes", "Temporal");
-  REGISTER_SYSTEM_CONSTRAINT(ces, LessThanConstraint, "strictlyPrecedes", "Temporal");
+  REGISTER_SYSTEM_CONSTRAINT(ces, PrecedesConstraint, "precedes", "Temporal");
+  REGISTER_SYSTEM_CONSTRAINT(ces, StrictlyPrecedesConstraint, "strictlyPrecedes", "Temporal");
   REGISTER_SYSTEM_CONSTRAINT(ces,AddEqualConstraint, "temporalDistance", "Temporal");
 
   PlanDatabase* pdb =
-- 
2.43.0


From 88a01d0401974aaa60d67a94478fe22a42ebb61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:29 +0000
Subject: [PATCH 54/77] fix: a relaxed time is narrowed again to what the
 temporal network still implies

---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 157e05b..965ebba 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -837,6 +837,10 @@ void TemporalPropagator::updateTimepoint(const ConstrainedVariableId var) {
     tp->setBaseDomainConstraint(newConstraint);
   }
 
+  // The variable may have been relaxed past bounds the tnet still implies, with nothing changing in the tnet.
+  if(lb < tp->getLowerBound() || ub > tp->getUpperBound())
+    m_tnet->handleNodeUpdate(*tp);
+
   checkError(!var->lastDomain().areBoundsFinite() || m_tnet->hasEdgeToOrigin(*tp),
              "Counter:" << sl_counter << ". It should have an edge to the origin, but it doesn't!" <<
              var->toString() << " and timepoint " <<  tp);
-- 
2.43.0


From 0059d6fb802da4272027e6be6a6ef66aec9c4a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:29 +0000
Subject: [PATCH 55/77] fix: an unbounded temporal distance is given as
 infinite

---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index 965ebba..d01fe9d 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -1134,7 +1134,7 @@ bool TemporalPropagator::isValidForPropagation() const {
     }
     Time lb, ub;
     m_tnet->calcDistanceBounds(*tstart, *tend, lb, ub, exact);
-    return(IntervalIntDomain(lb,ub));
+    return(IntervalIntDomain(mapToExternalInfinity(lb),mapToExternalInfinity(ub)));
   }
 
   void TemporalPropagator::getTemporalDistanceDomains(const ConstrainedVariableId first,
@@ -1154,7 +1154,7 @@ bool TemporalPropagator::isValidForPropagation() const {
     checkError((lbs.size() == seconds.size()) && (lbs.size() == ubs.size()),
                "size mismatch in TemporalPropagator getTemporalDistanceDomains");
     for (unsigned i=0; i<seconds.size(); i++) {
-      domains.push_back(IntervalIntDomain(lbs[i],ubs[i]));
+      domains.push_back(IntervalIntDomain(mapToExternalInfinity(lbs[i]),mapToExternalInfinity(ubs[i])));
     }
     return;
   }
-- 
2.43.0


From 6a3770b1048068545f0f75fc9f3b8133178355f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:51 +0000
Subject: [PATCH 56/77] fix: start each recomputation of flow levels from empty
 graphs

---
 src/PLASMA/Resource/component/BoostFlowProfileGraph.cc | 3 ++-
 src/PLASMA/Resource/component/FlowProfile.cc           | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/Resource/component/BoostFlowProfileGraph.cc b/src/PLASMA/Resource/component/BoostFlowProfileGraph.cc
index 64443ff..95c6b64 100644
--- a/src/PLASMA/Resource/component/BoostFlowProfileGraph.cc
+++ b/src/PLASMA/Resource/component/BoostFlowProfileGraph.cc
@@ -167,7 +167,7 @@ void BoostFlowProfileGraph::enableTransaction(const TransactionId t,
 edouble BoostFlowProfileGraph::getResidualFromSource(const TransactionIdTransactionIdPair2Order& at,
                                                      const TransactionIdTransactionIdPair2Order& other) {
   using namespace boost;
-  reset();
+  initializeGraph(getTransaction(m_source), getTransaction(m_sink));
   for(std::vector<TransactionId>::const_iterator it = m_activeTransactions.begin();
       it != m_activeTransactions.end(); ++it) {
     addTransactionToGraph(*it);
@@ -249,6 +249,7 @@ void BoostFlowProfileGraph::removeTransaction(const TransactionId id) {
 }
 
 void BoostFlowProfileGraph::reset() {
+  m_activeTransactions.clear();
   initializeGraph(getTransaction(m_source), getTransaction(m_sink));
 }
 
diff --git a/src/PLASMA/Resource/component/FlowProfile.cc b/src/PLASMA/Resource/component/FlowProfile.cc
index 29f4bd4..e448bbd 100644
--- a/src/PLASMA/Resource/component/FlowProfile.cc
+++ b/src/PLASMA/Resource/component/FlowProfile.cc
@@ -158,6 +158,9 @@ void FlowProfile::initRecompute(InstantId inst) {
   
   debugMsg("FlowProfile:initRecompute","Instant (" << inst->getId() << ") at time "
            << inst->getTime() );
+  m_lowerLevelGraph->reset();
+  m_upperLevelGraph->reset();
+
   m_lowerClosedLevel = getInitCapacityLb();
   m_upperClosedLevel = getInitCapacityUb();
   
-- 
2.43.0


From 3e143720766222f1cb0d5f06d3a6730d48cb09b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:51 +0000
Subject: [PATCH 57/77] fix: usage of a retracted or deleted uses constraint
 leaves the profile

---
 src/PLASMA/Resource/component/Reusable.cc | 4 ++++
 src/PLASMA/Resource/component/Reusable.hh | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PLASMA/Resource/component/Reusable.cc b/src/PLASMA/Resource/component/Reusable.cc
index cfa25ef..3d2c25a 100644
--- a/src/PLASMA/Resource/component/Reusable.cc
+++ b/src/PLASMA/Resource/component/Reusable.cc
@@ -359,6 +359,10 @@ Uses::Uses(const std::string& name,
   }
 }
 
+Uses::~Uses() {
+  handleDiscard();
+}
+
   const TransactionId Uses::getTransaction(int var) const
   {
     if (var == Uses::START_VAR)
diff --git a/src/PLASMA/Resource/component/Reusable.hh b/src/PLASMA/Resource/component/Reusable.hh
index 6a4c401..40f53ee 100644
--- a/src/PLASMA/Resource/component/Reusable.hh
+++ b/src/PLASMA/Resource/component/Reusable.hh
@@ -91,6 +91,7 @@ namespace EUROPA {
            const std::string& propagatorName,
            const ConstraintEngineId constraintEngine,
            const std::vector<ConstrainedVariableId>& scope);
+      virtual ~Uses();
 
       static const std::string& CONSTRAINT_NAME();
       static const std::string& PROPAGATOR_NAME();
@@ -109,7 +110,7 @@ namespace EUROPA {
       const std::map<InstantId,Resource::ProblemType>& getViolationProblems() const;
 
     protected:
-      virtual void handleDiscard();
+      void handleDiscard();
 
       virtual void notifyViolated();
       virtual void notifyNoLongerViolated();
-- 
2.43.0


From 34edb3315cf23aff4d69b13bf528c68c556951dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:51 +0000
Subject: [PATCH 58/77] fix: a deleted resource constraint leaves the agenda of
 its propagator

---
 src/PLASMA/Resource/base/ProfilePropagator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/Resource/base/ProfilePropagator.cc b/src/PLASMA/Resource/base/ProfilePropagator.cc
index ba9eb22..b40b79b 100644
--- a/src/PLASMA/Resource/base/ProfilePropagator.cc
+++ b/src/PLASMA/Resource/base/ProfilePropagator.cc
@@ -41,11 +41,12 @@ void ProfilePropagator::handleConstraintAdded(const ConstraintId) {
   // DefaultPropagator::handleConstraintAdded(constraint);
 }
 
-void ProfilePropagator::handleConstraintRemoved(const ConstraintId) {
+void ProfilePropagator::handleConstraintRemoved(const ConstraintId constraint) {
+  // it must not stay on the agenda once it is gone
+  DefaultPropagator::handleConstraintRemoved(constraint);
   // check_error(constraint.isValid());
   // if(m_newConstraints.erase(constraint) > 0)
   //   m_updateRequired = true;
-  // DefaultPropagator::handleConstraintRemoved(constraint);
 }
 
 void ProfilePropagator::execute() {
-- 
2.43.0


From 396dac8af2a9e82b6160dff6a35fedae2edc3c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:51 +0000
Subject: [PATCH 59/77] fix: instants of a transaction whose time was emptied
 in between

---
 src/PLASMA/Resource/base/Profile.cc | 92 ++++++++---------------------
 1 file changed, 23 insertions(+), 69 deletions(-)

diff --git a/src/PLASMA/Resource/base/Profile.cc b/src/PLASMA/Resource/base/Profile.cc
index cca2d16..8d78661 100644
--- a/src/PLASMA/Resource/base/Profile.cc
+++ b/src/PLASMA/Resource/base/Profile.cc
@@ -118,14 +118,8 @@ void Profile::removeTransaction(const TransactionId t) {
   debugMsg("Profile:removeTransaction",
            "Removing transaction " << t << " for time " << t->time()->toString() <<
            " with quantity " << t->quantity()->toString());
-  eint startTime =
-      static_cast<eint>((t->time()->lastDomain().isEmpty() ?
-                         t->time()->baseDomain() : t->time()->lastDomain()).getLowerBound());
-  eint endTime =
-      static_cast<eint>((t->time()->lastDomain().isEmpty() ?
-                         t->time()->baseDomain() : t->time()->lastDomain()).getUpperBound());
-  checkError(startTime <= endTime, startTime << " > " << endTime);
-  ProfileIterator profIt(m_id, startTime, endTime);
+  //the time may have been emptied since it was last recorded, so look at all instants
+  ProfileIterator profIt(m_id);
   std::vector<eint> emptyInstants;
   //remove the transaction from its instants
   while(!profIt.done()) {
@@ -206,48 +200,41 @@ void Profile::transactionTimeChanged(const TransactionId e,
   checkError(e.isValid(), "Invalid transaction.");
   checkError(m_transactions.find(e) != m_transactions.end(), "Unknown transaction " << e->time()->toString() << " " << e->quantity()->toString());
 
-  eint startTime = static_cast<eint>(e->time()->lastDomain().getLowerBound());
-  eint endTime = static_cast<eint>(e->time()->lastDomain().getUpperBound());
   switch(change) {
     case DomainListener::UPPER_BOUND_DECREASED:
     case DomainListener::LOWER_BOUND_INCREASED:
     case DomainListener::BOUNDS_RESTRICTED:
     case DomainListener::RESTRICT_TO_SINGLETON:
-    case DomainListener::SET_TO_SINGLETON: {
-      debugMsg("Profile:handleTimeChanged", "Handling restriction of transaction " << e << " at time " << e->time()->toString() << " with quantity " << e->quantity()->toString());
-      eint first, last;
-      std::map<eint, InstantId>::iterator it;
-      for(it = m_instants.begin(); it != m_instants.end(); ++it)
-        if(it->second->getTransactions().find(e) != it->second->getTransactions().end())
-          break;
-      checkError(it != m_instants.end(), "No instant containing this transaction.");
-      first = it->second->getTime();
-      it = m_instants.upper_bound(first);
-      if(it != m_instants.end())
-        for(; it != m_instants.end(); ++it)
-          if(it->second->getTransactions().find(e) == it->second->getTransactions().end())
-            break;
-      --it;
-      last = it->second->getTime();
-      debugMsg("Profile:handleTimeChanged", "Possibly removing transaction " << e << " from Instants in range [" << first << " " << last << "]");
-      ProfileIterator profIt(m_id, first, last);
+    case DomainListener::SET_TO_SINGLETON:
+    case DomainListener::RESET:
+    case DomainListener::RELAXED: {
+      debugMsg("Profile:handleTimeChanged", "Handling change of transaction " << e << " at time " << e->time()->toString() << " with quantity " << e->quantity()->toString());
+      if(e->time()->lastDomain().isEmpty())
+        break;
+
+      //add instants for start and end and add overlapping transactions to them
+      addInstantsForBounds(e);
+
+      //a time that has been emptied in between need not be wider than before when it is relaxed,
+      //so transactions can come and go at any instant
       std::vector<eint> emptyInstants;
-      while(!profIt.done()) {
-        InstantId inst = profIt.getInstant();
+      for(std::map<eint, InstantId>::iterator it = m_instants.begin(); it != m_instants.end(); ++it) {
+        InstantId inst = it->second;
+        bool present = inst->getTransactions().find(e) != inst->getTransactions().end();
         if(!e->time()->lastDomain().isMember(inst->getTime())) {
+          if(!present)
+            continue;
           debugMsg("Profile:handleTimeChanged", "Removing transaction " << e << " from Instant at time " << inst->getTime());
           inst->removeTransaction(e);
-          if(inst->getTransactions().empty() || !containsChange(inst))
-            emptyInstants.push_back(inst->getTime());
         }
+        else if(!present)
+          inst->addTransaction(e);
         else
           inst->updateTransaction(e);
-        profIt.next();
+        if(inst->getTransactions().empty() || !containsChange(inst))
+          emptyInstants.push_back(inst->getTime());
       }
 
-      //add instants for start and end and add overlapping transactions to them
-      addInstantsForBounds(e);
-
       for(std::vector<eint>::iterator emptyIt = emptyInstants.begin();
           emptyIt != emptyInstants.end(); ++emptyIt) {
         std::map<eint, InstantId>::iterator instIt = m_instants.find(*emptyIt);
@@ -265,39 +252,6 @@ void Profile::transactionTimeChanged(const TransactionId e,
       }
     }
       break;
-    case DomainListener::RESET:
-    case DomainListener::RELAXED: {
-      debugMsg("Profile:handleTimeChanged",
-               "Handling relaxation of transaction " << e << " at time " <<
-               e->time()->toString() << " with quantity " << e->quantity()->toString());
-      ProfileIterator it(m_id, startTime, endTime);
-      addInstantsForBounds(e);
-      std::vector<eint> emptyInstants;
-      while(!it.done()) {
-        InstantId inst = it.getInstant();
-        if(!containsChange(inst))
-          emptyInstants.push_back(inst->getTime());
-        else if(inst->getTransactions().find(e) == inst->getTransactions().end())
-          inst->addTransaction(e);
-        else
-          inst->updateTransaction(e);
-        it.next();
-      }
-      for(std::vector<eint>::iterator emptyIt = emptyInstants.begin();
-          emptyIt != emptyInstants.end(); ++emptyIt) {
-        std::map<eint, InstantId>::iterator instIt = m_instants.find(*emptyIt);
-        checkError(instIt != m_instants.end(),
-                   "Computed empty instant at time " << *emptyIt << " but no such instant exists.");
-        InstantId inst = instIt->second;
-        debugMsg("Profile:handleTimeChanged", "Removing instant at time " << inst->getTime());
-        condDebugMsg(inst->getTransactions().empty(), "Profile:handleTimeChanged", "because it has no transactions.");
-        condDebugMsg(!containsChange(inst), "Profile:handleTimeChanged", "because it does not mark a change.");
-        m_instants.erase(*emptyIt);
-        m_detector->notifyDeleted(inst);
-        delete static_cast<Instant*>(inst);
-      }
-    }
-      break;
     case DomainListener::REFTIME_CHANGED:
     case DomainListener::VALUE_REMOVED:
     case DomainListener::CLOSED:
-- 
2.43.0


From 6a2f33e4cc47dca85e617ed1c07ccfffb93c7d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:51 +0000
Subject: [PATCH 60/77] fix: flow levels follow every change of times,
 quantities and the temporal network

---
 src/PLASMA/Resource/base/Profile.cc          |  33 +++
 src/PLASMA/Resource/base/Profile.hh          |  15 +
 src/PLASMA/Resource/component/FlowProfile.cc | 290 ++++---------------
 src/PLASMA/Resource/component/FlowProfile.hh |   5 +
 4 files changed, 102 insertions(+), 241 deletions(-)

diff --git a/src/PLASMA/Resource/base/Profile.cc b/src/PLASMA/Resource/base/Profile.cc
index 8d78661..4851d75 100644
--- a/src/PLASMA/Resource/base/Profile.cc
+++ b/src/PLASMA/Resource/base/Profile.cc
@@ -817,7 +817,40 @@ void Profile::ConstraintAdditionListener::notifyConstraintRemoved(const Constrai
     Profile::ConstraintRemovalListener::ConstraintRemovalListener(const ConstraintEngineId ce, ProfileId profile)
     : ConstraintEngineListener(ce), m_profile(profile) {}
 
+void Profile::ConstraintRemovalListener::checkTemporal(const ConstraintId constr, bool recompute) {
+  static const std::string temporal("Temporal");
+  if(m_profile->hasTransactions() && constr->getPropagator().isValid() &&
+     constr->getPropagator()->getName() == temporal)
+    m_profile->handleTemporalNetworkChanged(recompute);
+}
+
+void Profile::ConstraintRemovalListener::notifyAdded(const ConstraintId constr) {
+  checkTemporal(constr);
+}
+
+void Profile::ConstraintRemovalListener::notifyActivated(const ConstraintId constr) {
+  checkTemporal(constr);
+}
+
+void Profile::ConstraintRemovalListener::notifyDeactivated(const ConstraintId constr) {
+  // what it says is said by the bounds (it is redundant) or by another constraint (it was migrated), so the levels stand
+  checkTemporal(constr, false);
+}
+
+void Profile::ConstraintRemovalListener::notifyChanged(const ConstrainedVariableId variable,
+                                                       const DomainListener::ChangeType&) {
+  if(!m_profile->hasTransactions())
+    return;
+  // the distance of a temporal constraint decides the order of its timepoints
+  ConstraintSet constraints;
+  variable->constraints(constraints);
+  for(ConstraintSet::const_iterator it = constraints.begin(); it != constraints.end(); ++it)
+    if((*it)->getScope().size() == 3 && (*it)->getScope()[1] == variable)
+      checkTemporal(*it);
+}
+
 void Profile::ConstraintRemovalListener::notifyRemoved(const ConstraintId constr) {
+  checkTemporal(constr);
   if(m_profile->hasConstraint(constr)) {
     unsigned int index = 0;
     for(std::vector<ConstrainedVariableId>::const_iterator it = constr->getScope().begin();
diff --git a/src/PLASMA/Resource/base/Profile.hh b/src/PLASMA/Resource/base/Profile.hh
index 50cb5a9..3ab2e54 100644
--- a/src/PLASMA/Resource/base/Profile.hh
+++ b/src/PLASMA/Resource/base/Profile.hh
@@ -171,7 +171,15 @@ class Profile : public FactoryObj {
     ConstraintRemovalListener(const ConstraintEngineId ce, ProfileId profile);
     void notifyRemoved(const ConstraintId constr);
     void notifyRemoved(const ConstrainedVariableId v) {ConstraintEngineListener::notifyRemoved(v);}
+    void notifyAdded(const ConstraintId constr);
+    void notifyAdded(const ConstrainedVariableId v) {ConstraintEngineListener::notifyAdded(v);}
+    void notifyActivated(const ConstraintId constr);
+    void notifyActivated(const ConstrainedVariableId v) {ConstraintEngineListener::notifyActivated(v);}
+    void notifyDeactivated(const ConstraintId constr);
+    void notifyDeactivated(const ConstrainedVariableId v) {ConstraintEngineListener::notifyDeactivated(v);}
+    void notifyChanged(const ConstrainedVariableId variable, const DomainListener::ChangeType& changeType);
    private:
+    void checkTemporal(const ConstraintId constr, bool recompute = true);
     ProfileId m_profile;
   };
 
@@ -258,6 +266,13 @@ class Profile : public FactoryObj {
    */
   virtual void handleTransactionQuantityChanged(const TransactionId e, const DomainListener::ChangeType& change);
 
+  /**
+   * @brief Helper method for subclasses that depend on the distances between transactions to respond to any change
+   * of the temporal network, including those that are not between two transactions of this profile.
+   * @param recompute Whether the levels may differ because of it.
+   */
+  virtual void handleTemporalNetworkChanged(bool) {}
+
   //NOTE: DON'T FORGET TO IMPLEMENT THE DEFAULT  BEHAVIOR!!!
   /**
    * @brief Helper method for subclasses to respond to a temporal constraint being added between two transactions.
diff --git a/src/PLASMA/Resource/component/FlowProfile.cc b/src/PLASMA/Resource/component/FlowProfile.cc
index e448bbd..5553dd0 100644
--- a/src/PLASMA/Resource/component/FlowProfile.cc
+++ b/src/PLASMA/Resource/component/FlowProfile.cc
@@ -463,35 +463,12 @@ void FlowProfile::handleTransactionAdded(const TransactionId t) {
            << t->quantity()->lastDomain() << " consumer: "
            << std::boolalpha << t->isConsumer() );
 
-  m_recalculateLowerLevel = true;
-  m_recalculateUpperLevel = true;
-
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval )
-  {
-    startRecalculation = std::min( m_recomputeInterval->getStartTime(),
-                                   static_cast<eint>(t->time()->lastDomain().getLowerBound()));
-  }
-  else
-  {
-    startRecalculation = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-  }
-
-  // startRecalculation = MINUS_INFINITY;
-  endRecalculation = PLUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval )
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-  m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  recomputeFrom(t->time()->lastDomain().getLowerBound());
 
   m_previousTimeBounds[ t ] =
       std::make_pair(static_cast<eint>(t->time()->lastDomain().getLowerBound()),
                      static_cast<eint>(t->time()->lastDomain().getUpperBound()));
 
-  debugMsg("FlowProfile:handleTransactionAdded","Set interval to [" << startRecalculation << "," << endRecalculation << "]");
 }
 
 void FlowProfile::enableTransaction( const TransactionId t, const InstantId inst )
@@ -507,103 +484,52 @@ void FlowProfile::handleTransactionRemoved( const TransactionId t ) {
 
   debugMsg("FlowProfile:handleTransactionRemoved","TransactionId (" << t->getId() << ")");
 
-  m_recalculateLowerLevel = true;
-  m_recalculateUpperLevel = true;
-
   m_lowerLevelGraph->removeTransaction( t );
   m_upperLevelGraph->removeTransaction( t );
 
   m_lowerLevelContribution.erase( t );
   m_upperLevelContribution.erase( t );
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval )
-  {
-    startRecalculation = std::min( m_recomputeInterval->getStartTime(),
-                                   static_cast<eint>(t->time()->lastDomain().getLowerBound()));
-  }
-  else
-  {
-    startRecalculation = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-  }
-
-  endRecalculation = PLUS_INFINITY;
-
-  if(m_recomputeInterval.isValid())
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-  m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  // the bounds as of the last change, in case the time has since been emptied
+  TransactionId2IntIntPair::const_iterator previous = m_previousTimeBounds.find( t );
+  eint start = t->time()->lastDomain().isEmpty() ? PLUS_INFINITY :
+      static_cast<eint>(t->time()->lastDomain().getLowerBound());
+  if(previous != m_previousTimeBounds.end())
+    start = std::min(start, previous->second.first);
+  recomputeFrom(start);
 
   m_previousTimeBounds.erase( t );
+
+  // what is known of its order may no longer hold when it comes back, or be taken for that of another
+  m_orderings.clear();
+  m_orderedAt.clear();
 }
 
 void FlowProfile::handleTransactionTimeChanged(const TransactionId t,
                                                const DomainListener::ChangeType& type) {
   check_error(t.isValid());
 
-  m_recalculateLowerLevel = true;
-  m_recalculateUpperLevel = true;
-
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
+  TransactionId2IntIntPair::iterator ite = m_previousTimeBounds.find( t );
 
-  switch( type) {
-    case DomainListener::UPPER_BOUND_DECREASED:
-    case DomainListener::RESTRICT_TO_SINGLETON:
-    case DomainListener::SET_TO_SINGLETON:
-    case DomainListener::LOWER_BOUND_INCREASED:
-    case DomainListener::BOUNDS_RESTRICTED:
-      {
-        TransactionId2IntIntPair::const_iterator ite = m_previousTimeBounds.find( t );
+  // we should have the previous value!
+  check_error( ite != m_previousTimeBounds.end() );
 
-        // we should have the previous value!
-        check_error( ite != m_previousTimeBounds.end() );
+  eint startRecalculation = ite->second.first;
 
-        eint previousStart =  (*ite).second.first;
-        eint previousEnd =  (*ite).second.second;
+  if(!t->time()->lastDomain().isEmpty()) {
+    startRecalculation = std::min(startRecalculation,
+                                  static_cast<eint>(t->time()->lastDomain().getLowerBound()));
+    ite->second = std::make_pair(static_cast<eint>(t->time()->lastDomain().getLowerBound()),
+                                 static_cast<eint>(t->time()->lastDomain().getUpperBound()));
+  }
 
-        if( ProfileIteratorId::noId() != m_recomputeInterval )
-        {
-          startRecalculation = std::min( m_recomputeInterval->getStartTime(), previousStart );
-          endRecalculation = std::max( m_recomputeInterval->getEndTime(), previousEnd );
-        }
-        else
-        {
-          startRecalculation = previousStart;
-          endRecalculation = previousEnd;
-        }
-      }
-      break;
-    case DomainListener::RESET:
-    case DomainListener::RELAXED:
-      {
-        if( ProfileIteratorId::noId() != m_recomputeInterval ) {
-          startRecalculation = std::min(m_recomputeInterval->getStartTime(),
-                                        static_cast<eint>(t->time()->lastDomain().getLowerBound()));
-          endRecalculation = std::max(m_recomputeInterval->getEndTime(),
-                                      static_cast<eint>(t->time()->lastDomain().getUpperBound()));
-        }
-        else {
-          startRecalculation = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-          endRecalculation = static_cast<eint>(t->time()->lastDomain().getUpperBound());
-        }
-      }
-      break;
-    case DomainListener::REFTIME_CHANGED:
-    case DomainListener::VALUE_REMOVED:
-    case DomainListener::CLOSED:
-    case DomainListener::OPENED:
-    case DomainListener::EMPTIED:
-    default:
-      break;
-  };
-
-  if(m_recomputeInterval.isValid())
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
+  // orderings that followed from the bounds may no longer hold
+  if(type == DomainListener::RESET || type == DomainListener::RELAXED) {
+    m_orderings.clear();
+    m_orderedAt.clear();
+  }
 
-  m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  recomputeFrom(startRecalculation);
 
   debugMsg("FlowProfile:handleTransactionTimeChanged","TransactionId (" << t->getId() << ") change " << type );
 }
@@ -612,78 +538,7 @@ void FlowProfile::handleTransactionQuantityChanged(const TransactionId t,
                                                    const DomainListener::ChangeType& type) {
   check_error(t.isValid());
 
-  switch( type) {
-    case DomainListener::UPPER_BOUND_DECREASED:
-      {
-        if( t->isConsumer() )
-        {
-          m_recalculateLowerLevel = true;
-        }
-        else
-        {
-          m_recalculateUpperLevel = true;
-        }
-
-      }
-      break;
-    case DomainListener::RESET:
-    case DomainListener::RELAXED:
-    case DomainListener::RESTRICT_TO_SINGLETON:
-    case DomainListener::SET_TO_SINGLETON:
-      {
-        m_recalculateLowerLevel = true;
-        m_recalculateUpperLevel = true;
-      }
-      break;
-    case DomainListener::LOWER_BOUND_INCREASED:
-      {
-        if( t->isConsumer() )
-        {
-          m_recalculateUpperLevel = true;
-        }
-        else
-        {
-          m_recalculateLowerLevel = true;
-        }
-
-      }
-      break;
-    case DomainListener::BOUNDS_RESTRICTED:
-      {
-        m_recalculateLowerLevel = true;
-        m_recalculateUpperLevel = true;
-
-      }
-      break;
-    case DomainListener::VALUE_REMOVED:
-    case DomainListener::CLOSED:
-    case DomainListener::REFTIME_CHANGED:
-    case DomainListener::OPENED:
-    case DomainListener::EMPTIED:
-    default:
-      break;
-  };
-
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval )
-  {
-    startRecalculation = std::min(m_recomputeInterval->getStartTime(),
-                                  static_cast<eint>(t->time()->lastDomain().getLowerBound()));
-    endRecalculation = std::max(m_recomputeInterval->getEndTime(),
-                                static_cast<eint>(t->time()->lastDomain().getUpperBound()));
-  }
-  else
-  {
-    startRecalculation = static_cast<eint>(t->time()->lastDomain().getLowerBound());
-    endRecalculation = static_cast<eint>(t->time()->lastDomain().getUpperBound());
-  }
-
-  if(m_recomputeInterval.isValid())
-    delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-  m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
+  recomputeFrom(m_previousTimeBounds[t].first);
 
   debugMsg("FlowProfile:handleTransactionQuantityChanged","TransactionId (" << t->getId() << ") change " << type << " to " << t->quantity()->toString() );
 }
@@ -692,44 +547,13 @@ void FlowProfile::handleTemporalConstraintAdded(const TransactionId predecessor,
                                                 const unsigned int ,
                                                 const TransactionId successor,
                                                 const unsigned int ) {
-      debugMsg("FlowProfile:handleTemporalConstraintAdded","TransactionId1 (" << predecessor->getId() << ") before TransactionId2 (" << successor->getId() << ")");
+  debugMsg("FlowProfile:handleTemporalConstraintAdded","TransactionId1 (" << predecessor->getId() << ") before TransactionId2 (" << successor->getId() << ")");
 
-      check_error(predecessor.isValid());
-      check_error(successor.isValid());
-
-      m_orderings.clear();
-
-      eint startRecalculation = PLUS_INFINITY;
-      eint endRecalculation = MINUS_INFINITY;
-
-      if( ProfileIteratorId::noId() != m_recomputeInterval ) {
-        startRecalculation =
-            std::min( m_recomputeInterval->getStartTime(),
-                      std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
-                               static_cast<eint>(successor->time()->lastDomain().getLowerBound())));
-        endRecalculation =
-            std::max(m_recomputeInterval->getEndTime(),
-                     std::max(static_cast<eint>(predecessor->time()->lastDomain().getUpperBound()),
-                              static_cast<eint>(successor->time()->lastDomain().getUpperBound())));
-      }
-      else {
-        startRecalculation =
-            std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
-                     static_cast<eint>(successor->time()->lastDomain().getLowerBound()));
-        endRecalculation =
-            std::max(static_cast<eint>(predecessor->time()->lastDomain().getUpperBound()),
-                     static_cast<eint>(successor->time()->lastDomain().getUpperBound()));
-      }
-
-      if(m_recomputeInterval.isValid())
-        delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-      m_recomputeInterval = (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
-
-      m_recalculateLowerLevel = true;
-      m_recalculateUpperLevel = true;
+  check_error(predecessor.isValid());
+  check_error(successor.isValid());
 
-    }
+  handleTemporalNetworkChanged(true);
+}
 
 void FlowProfile::handleTemporalConstraintRemoved(const TransactionId predecessor, 
                                                   const unsigned int ,
@@ -742,41 +566,25 @@ void FlowProfile::handleTemporalConstraintRemoved(const TransactionId predecesso
   check_error(predecessor.isValid());
   check_error(successor.isValid());
 
+  handleTemporalNetworkChanged(true);
+}
+
+void FlowProfile::handleTemporalNetworkChanged(bool recompute) {
+  debugMsg("FlowProfile:handleTemporalNetworkChanged", "Orderings have to be determined again");
   m_orderings.clear();
   m_orderedAt.clear();
+  if(recompute)
+    m_needsRecompute = true;
+  recomputeFrom(MINUS_INFINITY);
+}
 
-  eint startRecalculation = PLUS_INFINITY;
-  eint endRecalculation = MINUS_INFINITY;
-
-  if( ProfileIteratorId::noId() != m_recomputeInterval ) {
-    eint start = m_recomputeInterval->getStartTime();
-    eint end = m_recomputeInterval->getEndTime();
-
-    startRecalculation = 
-        std::min(start, 
-                 std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
-                          static_cast<eint>(successor->time()->lastDomain().getLowerBound())));
-    endRecalculation = 
-        std::max(end,
-                 std::max(static_cast<eint>(predecessor->time()->lastDomain().getUpperBound()),
-                          static_cast<eint>(successor->time()->lastDomain().getUpperBound())));
-  }
-  else {
-    startRecalculation = 
-        std::min(static_cast<eint>(predecessor->time()->lastDomain().getLowerBound()),
-                 static_cast<eint>(successor->time()->lastDomain().getLowerBound()));
-    endRecalculation = 
-        std::max(static_cast<eint>(predecessor->time()->lastDomain().getUpperBound()),
-                 static_cast<eint>(successor->time()->lastDomain().getUpperBound()));
-  }
-
-
-  if(m_recomputeInterval.isValid())
+void FlowProfile::recomputeFrom(const eint& start) {
+  eint first = start;
+  if(m_recomputeInterval.isValid()) {
+    first = std::min(first, m_recomputeInterval->getStartTime());
     delete static_cast<ProfileIterator*>(m_recomputeInterval);
-
-  m_recomputeInterval = 
-      (new ProfileIterator( getId(), startRecalculation, endRecalculation ))->getId();
-
+  }
+  m_recomputeInterval = (new ProfileIterator(getId(), first, PLUS_INFINITY))->getId();
   m_recalculateLowerLevel = true;
   m_recalculateUpperLevel = true;
 }
diff --git a/src/PLASMA/Resource/component/FlowProfile.hh b/src/PLASMA/Resource/component/FlowProfile.hh
index d5eef4b..f202fee 100644
--- a/src/PLASMA/Resource/component/FlowProfile.hh
+++ b/src/PLASMA/Resource/component/FlowProfile.hh
@@ -109,6 +109,11 @@ private:
 
 
  protected:
+  virtual void handleTemporalNetworkChanged(bool recompute);
+  /**
+   * @brief Both levels have to be computed again for the given time and all that follow it.
+   */
+  void recomputeFrom(const eint& start);
   virtual void postHandleRecompute(const eint& endTime, const std::pair<edouble,edouble>& endDiff);
   /**
    * @brief Enables a transaction t. A transaction is enabled a time T to calculate the
-- 
2.43.0


From cb527c0727a1f223588a79b427ca490c4ffe88b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:46 +0000
Subject: [PATCH 61/77] fix: levels computed in part leave earlier violations
 in place

---
 src/PLASMA/Resource/base/Profile.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/Resource/base/Profile.cc b/src/PLASMA/Resource/base/Profile.cc
index 4851d75..0ab6b11 100644
--- a/src/PLASMA/Resource/base/Profile.cc
+++ b/src/PLASMA/Resource/base/Profile.cc
@@ -521,6 +521,10 @@ void Profile::handleRecompute() {
       initRecompute(inst);
       m_detector->initialize(inst);
 
+      // that forgets all violations, so those that come before have to be found again
+      for(std::map<eint, InstantId>::iterator it = m_instants.begin(); it->first < inst->getTime(); ++it)
+        m_detector->detect(it->second);
+
       if (inst->getTime() == endTime) {
         endDiff.first = inst->getLowerLevel() - endDiff.first;
         endDiff.second = inst->getUpperLevel() - endDiff.second;
-- 
2.43.0


From a05361561c7e9ec477374956116a968ae1727b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:46 +0000
Subject: [PATCH 62/77] fix: an instant no longer violated or flawed keeps no
 such mark or token

---
 src/PLASMA/Resource/base/Resource.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/PLASMA/Resource/base/Resource.cc b/src/PLASMA/Resource/base/Resource.cc
index 3f8b8ba..18a06d6 100644
--- a/src/PLASMA/Resource/base/Resource.cc
+++ b/src/PLASMA/Resource/base/Resource.cc
@@ -370,6 +370,7 @@ void Resource::resetViolations(InstantId ) {
       ProfileIterator it(m_profile);
       while(!it.done()) {
         notifyNoLongerViolated(it.getInstant());
+        it.getInstant()->setViolated(false);
         it.next();
       }
     }
@@ -436,6 +437,20 @@ void Resource::resetViolations(InstantId ) {
     std::vector<TransactionId> transactions;
     m_profile->getTransactionsToOrder(inst, transactions);
 
+    //transactions may have left the instant since a flaw was recorded for it
+    std::set<TokenId> tokens;
+    for(std::vector<TransactionId>::const_iterator it = transactions.begin(); it != transactions.end(); ++it)
+      tokens.insert(getTokenForTransaction(*it));
+    for(ResourceFlaws::iterator it = m_flawedTokens.begin(); it != m_flawedTokens.end();) {
+      TokenId tok = it->first;
+      if(tokens.find(tok) == tokens.end() && it->second.erase(inst) > 0 && it->second.empty()) {
+        m_flawedTokens.erase(it++);
+        notifyOrderingNoLongerRequired(tok);
+      }
+      else
+        ++it;
+    }
+
     //even if we've already recorded a flaw for this instant, there may be new transactions
     for(std::vector<TransactionId>::const_iterator it = transactions.begin();
         it != transactions.end(); ++it) {
-- 
2.43.0


From ad2cce8a6a1a6d62c2867ebe2966fd8a5afda4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:46 +0000
Subject: [PATCH 63/77] fix: a temporal conflict is blamed on temporal
 constraints only

---
 src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
index d01fe9d..e3b0c82 100644
--- a/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
+++ b/src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc
@@ -249,10 +249,10 @@ ConstraintId getConstraint(ConstrainedVariableId fromvar,
   ConstraintSet::const_iterator it = fromConstraints.begin();
   for (;it != fromConstraints.end();++it) {
     ConstraintId c = (*it);
-    if (c->isVariableOf(tovar)) {
+    // only temporal constraints have edges in the temporal network
+    if (c->isVariableOf(tovar) && c->getPropagator()->getName() == "Temporal") {
       // TODO: fromvar and tovar could be together in more than one constraint
-      // need to make sure it is a temporal constraint and use length to make
-      // sure it is the right instance
+      // need to use length to make sure it is the right instance
       return c;
     }
   }
-- 
2.43.0


From de8e01754bb7462458363a0b046f1fe48390800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:47 +0000
Subject: [PATCH 64/77] fix: flow profiles tell instantaneous and total
 amounts, so that rate and total limits hold

---
 src/PLASMA/Resource/component/FlowProfile.cc | 38 ++++++++++++++++++--
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/Resource/component/FlowProfile.cc b/src/PLASMA/Resource/component/FlowProfile.cc
index 5553dd0..f20d95b 100644
--- a/src/PLASMA/Resource/component/FlowProfile.cc
+++ b/src/PLASMA/Resource/component/FlowProfile.cc
@@ -321,10 +321,42 @@ void FlowProfile::recomputeLevels(InstantId prev, InstantId inst) {
            << lowerLevel << ","
            << upperLevel << "]");
 
+  // amounts at this instant, and by it, for consumption (0) and production (1)
+  edouble minInstant[2] = {0, 0}, maxInstant[2] = {0, 0};
+  edouble minPrev[2] = {0, 0}, maxPrev[2] = {0, 0};
+  edouble minCumulative[2] = {0, 0};
+
+  for( iter = m_transactions.begin(); iter != m_transactions.end(); ++iter )
+  {
+    const TransactionId transaction = (*iter);
+    const int kind = transaction->isConsumer() ? 0 : 1;
+    edouble lb, ub;
+    transaction->quantity()->lastDomain().getBounds( lb, ub );
+    const eint earliest = transaction->time()->lastDomain().getLowerBound();
+    const eint latest = transaction->time()->lastDomain().getUpperBound();
+
+    if( latest < inst->getTime() )
+    {
+      minPrev[kind] += lb;
+      maxPrev[kind] += ub;
+    }
+    else if( earliest <= inst->getTime() )
+    {
+      maxInstant[kind] += ub;
+
+      if( earliest == latest )
+        minInstant[kind] += lb;
+
+      if( latest == inst->getTime() )
+        minCumulative[kind] += lb;
+    }
+  }
+
   inst->update( lowerLevel, lowerLevel, upperLevel, upperLevel,
-                0, 0, 0, 0,
-                0, 0, 0, 0,
-                0, 0, 0, 0 );
+                minInstant[0], maxInstant[0], minInstant[1], maxInstant[1],
+                minPrev[0] + minCumulative[0], maxPrev[0] + maxInstant[0],
+                minPrev[1] + minCumulative[1], maxPrev[1] + maxInstant[1],
+                minPrev[0], maxPrev[0], minPrev[1], maxPrev[1] );
 }
 
 Order FlowProfile::getOrdering( const TransactionId t1, const TransactionId t2 )
-- 
2.43.0


From 3ad2d0dd675f0856dc827296e82e346749cd32a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:51 +0000
Subject: [PATCH 65/77] fix: a loop after another statement in a conditional of
 a rule aborted

---
 src/PLASMA/RulesEngine/base/RulesEngine.cc | 56 ++++++++++++++--------
 src/PLASMA/RulesEngine/base/RulesEngine.hh |  2 +
 2 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.cc b/src/PLASMA/RulesEngine/base/RulesEngine.cc
index 427b039..d271749 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.cc
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.cc
@@ -65,6 +65,8 @@ namespace EUROPA{
     , m_listeners()
     , m_ruleInstancesToExecute()
     , m_ruleInstancesToUndo()
+    , m_executingRuleInstances()
+    , m_undoingRuleInstances()
     , m_deleted(false)
     , m_executing(false)
   {
@@ -247,11 +249,17 @@ RulesEngine::~RulesEngine(){
     // Keep the positions: the lists may be under way in doRules
     std::replace(m_ruleInstancesToExecute.begin(), m_ruleInstancesToExecute.end(), r, RuleInstanceId::noId());
     std::replace(m_ruleInstancesToUndo.begin(), m_ruleInstancesToUndo.end(), r, RuleInstanceId::noId());
+    std::replace(m_executingRuleInstances.begin(), m_executingRuleInstances.end(), r, RuleInstanceId::noId());
+    std::replace(m_undoingRuleInstances.begin(), m_undoingRuleInstances.end(), r, RuleInstanceId::noId());
   }
 
   bool RulesEngine::doRules() {
-    check_error(!m_executing);
+    // A rule may ask for a derived domain and so propagate. What that schedules is up to the next round.
+    if (m_executing)
+      return false;
     m_executing = true;
+    m_executingRuleInstances.swap(m_ruleInstancesToExecute);
+    m_undoingRuleInstances.swap(m_ruleInstancesToUndo);
     debugMsg("RulesEngine:doRules", "Executing rules.");
     
     // std::sort(m_ruleInstancesToExecute.begin(), m_ruleInstancesToExecute.end(), EntityComparator<RuleInstanceId>());
@@ -262,36 +270,44 @@ RulesEngine::~RulesEngine(){
     // std::vector<RuleInstanceId>::iterator undoEnd = std::unique(m_ruleInstancesToUndo.begin(),
     //                                                             m_ruleInstancesToUndo.end(),
     //                                                             EntityComparator<RuleInstanceId>());
-    std::vector<RuleInstanceId>::iterator execEnd = m_ruleInstancesToExecute.end();
-    std::vector<RuleInstanceId>::iterator undoEnd = m_ruleInstancesToUndo.end();
+    std::vector<RuleInstanceId>::iterator execEnd = m_executingRuleInstances.end();
+    std::vector<RuleInstanceId>::iterator undoEnd = m_undoingRuleInstances.end();
     
     bool retval = false;
 
-    debugMsg("RulesEngine:doRules", "Have " << m_ruleInstancesToExecute.size() << 
+    debugMsg("RulesEngine:doRules", "Have " << m_executingRuleInstances.size() << 
 	     " total rules in execution list, executing " << 
-	     std::distance(m_ruleInstancesToExecute.begin(), execEnd));
+	     std::distance(m_executingRuleInstances.begin(), execEnd));
     
-    for(std::vector<RuleInstanceId>::const_iterator it = m_ruleInstancesToExecute.begin(); it != execEnd; ++it) {
+    for(std::vector<RuleInstanceId>::const_iterator it = m_executingRuleInstances.begin(); it != execEnd; ++it) {
       condDebugMsg(it->isId(), "RulesEngine:doRules", 
 	       "In vector: " << (*it)->toString() << " : " <<
 	       ((*it)->isExecuted() ? "E" : "*") <<
 	       ((*it)->test() ? "T" : "*") <<
 	       ((*it)->hasEmptyGuard() ? "G" : "*"));
     }
-    for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToExecute.begin(); it != execEnd; ++it)
-      if(it->isId() && !(*it)->isExecuted() && (*it)->test()) {
-        debugMsg("RulesEngine:doRules", "Executing rule " << (*it)->toString());
-        (*it)->execute();
-        retval = true;
-      }
-    for(std::vector<RuleInstanceId>::iterator it = m_ruleInstancesToUndo.begin(); it != undoEnd; ++it)
-      if(it->isId() && (*it)->isExecuted() && !(*it)->test() && !(*it)->hasEmptyGuard()) {
-        debugMsg("RulesEngine:doRules", "Undoing rule " << (*it)->toString());
-        (*it)->undo();
-        retval = true;
-      }
-    m_ruleInstancesToExecute.clear();
-    m_ruleInstancesToUndo.clear();
+    try {
+      for(std::vector<RuleInstanceId>::iterator it = m_executingRuleInstances.begin(); it != execEnd; ++it)
+        if(it->isId() && !(*it)->isExecuted() && (*it)->test()) {
+          debugMsg("RulesEngine:doRules", "Executing rule " << (*it)->toString());
+          (*it)->execute();
+          retval = true;
+        }
+      for(std::vector<RuleInstanceId>::iterator it = m_undoingRuleInstances.begin(); it != undoEnd; ++it)
+        if(it->isId() && (*it)->isExecuted() && !(*it)->test() && !(*it)->hasEmptyGuard()) {
+          debugMsg("RulesEngine:doRules", "Undoing rule " << (*it)->toString());
+          (*it)->undo();
+          retval = true;
+        }
+    }
+    catch(...) {
+      m_executingRuleInstances.clear();
+      m_undoingRuleInstances.clear();
+      m_executing = false;
+      throw;
+    }
+    m_executingRuleInstances.clear();
+    m_undoingRuleInstances.clear();
     debugMsg("RulesEngine:doRules", "Done executing rules " << m_executing << " returning " << (retval ? " true" : " false"));
     m_executing = false;
     return retval;
diff --git a/src/PLASMA/RulesEngine/base/RulesEngine.hh b/src/PLASMA/RulesEngine/base/RulesEngine.hh
index 6710082..4d87aae 100644
--- a/src/PLASMA/RulesEngine/base/RulesEngine.hh
+++ b/src/PLASMA/RulesEngine/base/RulesEngine.hh
@@ -72,6 +72,8 @@ namespace EUROPA {
     std::set<RulesEngineListenerId> m_listeners;
     std::vector<RuleInstanceId> m_ruleInstancesToExecute;
     std::vector<RuleInstanceId> m_ruleInstancesToUndo;
+    std::vector<RuleInstanceId> m_executingRuleInstances; /*!< Those under way in doRules */
+    std::vector<RuleInstanceId> m_undoingRuleInstances; /*!< Those under way in doRules */
     bool m_deleted;
     bool m_executing;
   };
-- 
2.43.0


From 64e8f313f572460d8bcb29f0df76590369de86ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:51 +0000
Subject: [PATCH 66/77] fix: contains_end relates the ends the other way round;
 equal is equals

---
 src/PLASMA/NDDL/component/Interpreter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index b0d8ddc..d20b498 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -1110,7 +1110,7 @@ void createRelation(EvalContext& context,
   }
   else if (relationName == "contains_end") {
     makeStrictPrecedenceRelation(origin, start, target, end);
-    makeRelation(precedes, origin, end, target, end);
+    makeRelation(precedes, target, end, origin, end);
   }
   else if (relationName == "starts_after") {
     makeStrictPrecedenceRelation(target, start, origin, start);
@@ -1118,7 +1118,7 @@ void createRelation(EvalContext& context,
   else if (relationName == "starts_before") {
     makeStrictPrecedenceRelation(origin, start, target, start);
   }
-  else if (relationName == "equals") {
+  else if (relationName == "equals" || relationName == "equal") {
     makeRelation(concurrent, origin, start, target, start);
     makeRelation(concurrent, target, end, origin, end);
     makeRelation(eq, origin, duration, target, duration);
-- 
2.43.0


From 3520c8106852b0296e7fe43859503ae4f8f62154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:51 +0000
Subject: [PATCH 67/77] fix: this.member = value in a constructor

---
 src/PLASMA/NDDL/component/Interpreter.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index d20b498..67562fc 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -2116,6 +2116,8 @@ ConstrainedVariableId ExprVarDeclaration::makeRuleVar(RuleInstanceEvalContext& c
       ConstrainedVariableId thisVar = context.getVar("this");
       // TODO: modify interpreted object constructor to add vars upfront so that this if stmt isn't necessary
       if (thisVar.isId()) {
+          if (varName.compare(0, 5, "this.") == 0)
+              varName = varName.substr(5);
           ObjectId object = Entity::getTypedEntity<Object>(thisVar->derivedDomain().getSingletonValue());
           check_error(object->getVariable(varName) == ConstrainedVariableId::noId());
           ConstrainedVariableId rhsValue = m_rhs->eval(context).getValue();
-- 
2.43.0


From 077fb784be761d38c9184c9c456a08bcc1d9e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:52 +0000
Subject: [PATCH 68/77] fix: 'in' assignments and parenthesised initial values
 are understood

---
 src/PLASMA/NDDL/base/antlr/NDDL3.g     |  2 +-
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3.g b/src/PLASMA/NDDL/base/antlr/NDDL3.g
index 26a8bb6..110de58 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3.g
@@ -174,7 +174,7 @@ qualified
     ;
 
 assignment
-    :   qualified ('in' | '=') initializer ';' -> ^('=' qualified initializer)
+    :   qualified (op='in' | op='=') initializer ';' -> ^($op qualified initializer)
     ;
     
 initializer
diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index 860fb3f..2420897 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -216,12 +216,17 @@ variableInitialization[const DataTypeId& dataType] returns [Expr* result]
    const char* varName; 
 }
     :   (   name=IDENT { varName = c_str($name.text->chars); }
-        |   ^('=' name=IDENT  { varName = c_str($name.text->chars); } initExpr=initializer[varName])
+        |   ^(('=' | '(') name=IDENT  { varName = c_str($name.text->chars); } initExpr=initializer[varName])
         )
         {
+            if(initExpr != NULL && dynamic_cast<ExprNewObject*>(initExpr) == NULL &&
+               !(dynamic_cast<ExprConstant*>(initExpr) != NULL ?
+                 dataType->isAssignableFrom(initExpr->getDataType()) :
+                 dataType->canBeCompared(initExpr->getDataType())))
+              reportSemanticError(CTX,"Can't initialize "+std::string(varName)+" of type "+dataType->getName()+
+                                  " with "+initExpr->toString());
             if(initExpr != NULL)
               CTX->SymbolTable->popFromCleanupStack();
-            // TODO: type check initExpr;
             result = new ExprVarDeclaration(
                  varName,
                  dataType,
@@ -590,7 +595,7 @@ constructorSuper[ObjectType* objType] returns [ExprConstructorSuperCall* result]
 	;
   
 assignment returns [ExprAssignment* result]
-	:	^('='
+	:	^(('=' | 'in')
 			lhs=qualified
 			rhs=initializer[lhs->toString().c_str()]
 		)
-- 
2.43.0


From eb546f4d0594704bd297766ff12dee4e677e0fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:52 +0000
Subject: [PATCH 69/77] fix: an exception during propagation leaves the engine
 blocked

---
 .../ConstraintEngine/base/ConstraintEngine.cc | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
index 3702b42..70b0f36 100644
--- a/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
+++ b/src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc
@@ -757,8 +757,18 @@ void ConstraintEngine::add(const PropagatorId propagator){
     bool result = true;
 
     bool done = false;
+    const bool autoPropagate = m_autoPropagate;
+    const bool propInProgress = m_propInProgress;
     while (!done) {
-      result = doPropagate();
+      try {
+        result = doPropagate();
+      }
+      catch (...) {
+        // Whatever a constraint or callback throws, propagation has ended
+        m_propInProgress = propInProgress;
+        m_autoPropagate = autoPropagate;
+        throw;
+      }
       if (!result && canContinuePropagation()) {
 	m_relaxingViolation = true;
 	getViolationMgr().relaxEmptyVariables();
@@ -1180,8 +1190,16 @@ ConstraintId ConstraintEngine::createConstraint(const std::string& name,
   check_error(factory.isValid());
   ConstraintId constraint = factory->createConstraint(getId(), scope, violationExpl);
 
-  if (shouldAutoPropagate())
-    propagate();
+  if (shouldAutoPropagate()) {
+    try {
+      propagate();
+    }
+    catch (...) {
+      // The caller gets no constraint and so could never remove it
+      delete static_cast<Constraint*>(constraint);
+      throw;
+    }
+  }
 
   debugMsg("ConstraintEngine:createConstraint","Created Constraint:" << constraint->toLongString());
   return(constraint);
-- 
2.43.0


From 03836dad07465f897e2db2f146dd0e835944d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:52 +0000
Subject: [PATCH 70/77] fix: methods check their arguments

---
 src/PLASMA/PlanDatabase/component/Methods.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/PLASMA/PlanDatabase/component/Methods.cc b/src/PLASMA/PlanDatabase/component/Methods.cc
index e1d47bd..7319cd0 100644
--- a/src/PLASMA/PlanDatabase/component/Methods.cc
+++ b/src/PLASMA/PlanDatabase/component/Methods.cc
@@ -29,12 +29,23 @@ const DbClientId getCtxPDB(EvalContext& context) {
 
 TokenId varToToken(const ConstrainedVariableId v)
 {
+    check_runtime_error(StateVarId::convertable(v),v->toString()+" is not a token");
     StateVarId stateVar = v;
     return stateVar->getParentToken();
 }
 
+// args[0] is the target of the method
+void checkArgCount(const std::string& method, const std::vector<ConstrainedVariableId>& args,
+                   unsigned int min, unsigned int max)
+{
+  check_runtime_error(args.size() > min && args.size() <= max + 1,
+                      "Wrong number of arguments for method "+method);
+}
+
 ObjectId varToObject(const ConstrainedVariableId v)
 {
+  check_runtime_error(v->lastDomain().isEntity() && v->derivedDomain().isSingleton(),
+                      v->toString()+" is not a single object");
   return Entity::getTypedEntity<Object>(v->derivedDomain().getSingletonValue());
 }
 }
@@ -76,6 +87,7 @@ const DataTypeId VariableMethod::getReturnType()
 
 DataRef SpecifyVariable::eval(EvalContext& context, ConstrainedVariableId var, const std::vector<ConstrainedVariableId>& args) const
 {
+    checkArgCount(getName(),args,1,1);
     const Domain& ad = args[1]->lastDomain();
     if (ad.isSingleton())
         getCtxPDB(context)->specify(var,ad.getSingletonValue());
@@ -117,6 +129,7 @@ const DataTypeId ObjectMethod::getReturnType()
 
 DataRef ConstrainToken::eval(EvalContext& context, ObjectId obj, const std::vector<ConstrainedVariableId>& args) const
 {
+    checkArgCount(getName(),args,1,2);
     TokenId pred = varToToken(args[1]);
     TokenId succ = (args.size()==3 ? varToToken(args[2]) : pred);
     getCtxPDB(context)->constrain(obj,pred,succ);
@@ -126,6 +139,7 @@ DataRef ConstrainToken::eval(EvalContext& context, ObjectId obj, const std::vect
 
 DataRef FreeToken::eval(EvalContext& context, ObjectId obj, const std::vector<ConstrainedVariableId>& args) const
 {
+    checkArgCount(getName(),args,1,2);
     TokenId pred = varToToken(args[1]);
     TokenId succ = (args.size()==3 ? varToToken(args[2]) : pred);
     getCtxPDB(context)->free(obj,pred,succ);
@@ -161,6 +175,7 @@ DataRef ActivateToken::eval(EvalContext& context, TokenId tok, const std::vector
 
 DataRef MergeToken::eval(EvalContext& context, TokenId tok, const std::vector<ConstrainedVariableId>& args) const
 {
+    checkArgCount(getName(),args,1,1);
     TokenId activeToken = varToToken(args[1]);
     getCtxPDB(context)->merge(tok,activeToken);
     return DataRef::null;
-- 
2.43.0


From c44815c8c8cd22dc6aa60b1d1de4678ef0698a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:52 +0000
Subject: [PATCH 71/77] fix: an object reference is not comparable with the
 value of an enumeration

---
 src/PLASMA/ConstraintEngine/base/DataType.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PLASMA/ConstraintEngine/base/DataType.cc b/src/PLASMA/ConstraintEngine/base/DataType.cc
index d5ae341..67598a6 100644
--- a/src/PLASMA/ConstraintEngine/base/DataType.cc
+++ b/src/PLASMA/ConstraintEngine/base/DataType.cc
@@ -52,6 +52,10 @@ bool DataType::canBeCompared(const DataTypeId rhs) const
     if (isString() || rhs->isString())
       return (isString() && rhs->isString());
 
+    // An object reference isn't the value of an enumeration
+    if (isEntity() != rhs->isEntity())
+      return false;
+
     if (isSymbolic() || rhs->isSymbolic())
       return (isSymbolic() && rhs->isSymbolic()); // TODO?: && baseDomain().intersects(rhs->baseDomain()));
 
-- 
2.43.0


From e97a6cb0a45935fd60519ac6925d5eb61e7093aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:52 +0000
Subject: [PATCH 72/77] fix: a token whose predicate's body fails can be
 discarded

---
 src/PLASMA/NDDL/component/Interpreter.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index 67562fc..f67321f 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -1346,8 +1346,16 @@ InterpretedToken::InterpretedToken(
     // TODO: Pass in EvalContext to give access to class or global context
     TokenEvalContext context(NULL,getId());
 
-    for (unsigned int i=0; i < body.size(); i++)
-        body[i]->eval(context);
+    try {
+        for (unsigned int i=0; i < body.size(); i++)
+            body[i]->eval(context);
+    }
+    catch (...) {
+        // The token is discarded, which only a complete one can be
+        if (isIncomplete())
+            close();
+        throw;
+    }
 
     if (autoClose)
       close();
-- 
2.43.0


From f1477789f3c9cab602a10afe7f80c2ee87f85fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:52 +0000
Subject: [PATCH 73/77] fix: ill-typed expressions and initial values are
 reported before they are posted

---
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g       | 31 +++++++++++++++-----
 src/PLASMA/NDDL/component/Interpreter.cc     | 15 ++++++----
 src/PLASMA/NDDL/component/NddlInterpreter.cc |  2 +-
 3 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index 2420897..e6b5945 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -278,6 +278,8 @@ valueSet returns [Expr* result]
                 CTX->SymbolTable->popFromCleanupStack();
                 delete element;
                 const Domain& ev = elemValue.getValue()->lastDomain();
+                if (!ev.isSingleton())
+                    reportSemanticError(CTX,ev.toString()+" is not a single value");
                 edouble v = ev.getSingletonValue();
                               
                 if (elementType.isNoId())
@@ -362,6 +364,9 @@ numericInterval returns [Expr* result]
             edouble ub = upper->getSingletonValue();
             Domain* baseDomain;
                     
+            if (lb > ub)
+                reportSemanticError(CTX,"The bounds of an interval must be ordered");
+
             if (lower->getTypeName()=="float" || 
                 upper->getTypeName()=="float") 
                 baseDomain = new IntervalDomain(lb,ub);
@@ -1111,16 +1116,18 @@ enforceExpression returns [Expr* result]
 }
 	: ^(EXPRESSION_ENFORCE value=cexpression violationMsg[vmsg]?) 
 	  { 
-            value->setEnforceContext();
-            value->setViolationMsg(vmsg);
-            
-            /*try {
+            try {
                 value->checkType();
-            } catch(std::string msg) {
+            } catch(const std::string& msg) {
                 reportSemanticError(CTX, msg);
-            }*/
+            }
+            value->setEnforceContext();
+            value->setViolationMsg(vmsg);
+
             
             if (value->hasReturnValue()) {
+                if (!value->getDataType()->isNumeric())
+                    reportSemanticError(CTX, value->toString()+" is not a boolean");
                 dom = new BoolDomain(true); 
                 con = new ExprConstant(dom->getTypeName().c_str(), dom); 
                 args.push_back(value);
@@ -1138,5 +1145,15 @@ enforceExpression returns [Expr* result]
 
 // TODO: this needs more behavior??
 expressionCleanReturn returns [Expr* result]
-	: e = cexpression { result = e; }
+	: e = cexpression
+	  {
+            try {
+                e->checkType();
+            } catch(const std::string& msg) {
+                reportSemanticError(CTX, msg);
+            }
+            if (!e->getDataType()->isNumeric())
+                reportSemanticError(CTX, e->toString()+" is not a boolean");
+            result = e;
+	  }
 	;
diff --git a/src/PLASMA/NDDL/component/Interpreter.cc b/src/PLASMA/NDDL/component/Interpreter.cc
index f67321f..fe1c521 100644
--- a/src/PLASMA/NDDL/component/Interpreter.cc
+++ b/src/PLASMA/NDDL/component/Interpreter.cc
@@ -520,12 +520,15 @@ DataRef CExprFunction::eval(EvalContext& context) const {
               throw std::string("In a " + m_operator + " expression, both arguments must be of type boolean. In this case, "
                       + m_rhs->getDataType()->getName().c_str() + " from \"" + m_rhs->toString() + "\" is not a boolean.");
           }
-      } else if (m_operator == "+" || m_operator == "-" || m_operator == "*" || m_operator == "=="
-          || m_operator == "<=" || m_operator == ">=" || m_operator == "!=" || m_operator == ">" || m_operator == "<") {
-          if (!m_rhs->getDataType()->isAssignableFrom(m_lhs->getDataType()) || !m_lhs->getDataType()->isAssignableFrom(m_rhs->getDataType())) {
-              throw std::string("Cannot use types " + std::string(m_lhs->getDataType()->getName().c_str()) + " and "
-                      + std::string(m_rhs->getDataType()->getName().c_str()) + "in expression: " + toString());
-          }
+      } else if (m_operator == "==" || m_operator == "!=") {
+          if (!m_rhs->getDataType()->canBeCompared(m_lhs->getDataType()))
+              throw std::string("Cannot compare types " + m_lhs->getDataType()->getName() + " and "
+                      + m_rhs->getDataType()->getName() + " in expression: " + toString());
+      } else if (m_operator == "+" || m_operator == "-" || m_operator == "*"
+          || m_operator == "<=" || m_operator == ">=" || m_operator == ">" || m_operator == "<") {
+          if (!m_rhs->getDataType()->isNumeric() || !m_lhs->getDataType()->isNumeric())
+              throw std::string("Cannot use types " + m_lhs->getDataType()->getName() + " and "
+                      + m_rhs->getDataType()->getName() + " in expression: " + toString());
       } else {
           check_runtime_error(ALWAYS_FAIL, "Warning no type check for expression: " + toString() + "\n");
       }
diff --git a/src/PLASMA/NDDL/component/NddlInterpreter.cc b/src/PLASMA/NDDL/component/NddlInterpreter.cc
index a2ec9b1..6b2f7f7 100644
--- a/src/PLASMA/NDDL/component/NddlInterpreter.cc
+++ b/src/PLASMA/NDDL/component/NddlInterpreter.cc
@@ -416,7 +416,7 @@ DataTypeId NddlSymbolTable::getTypeForVar(const std::string& qualifiedName,std::
             TokenTypeId tt = getTypeForToken(qualifiedName);
 
             if (tt.isId())
-                dt =  FloatDT::instance(); // TODO : return data type for state var?
+                dt = tt->getArgType("state"); // such a name evaluates to the state variable
             else
                 errorMsg = fullName + " is not defined";
         }
-- 
2.43.0


From d9007fd8eddaecf96f661a8a9262e18d2673a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:52 +0000
Subject: [PATCH 74/77] fix: constructs the tree grammar doesn't know are
 reported, not crashed on

---
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g       | 29 ++++++++++----------
 src/PLASMA/NDDL/component/NddlInterpreter.cc |  5 ++--
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index e6b5945..29f354a 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -25,6 +25,8 @@ options {
 #include <boost/cast.hpp>
 using namespace EUROPA;
 
+// Forward declaration so that we can use this function in apifuncs
+static void reportTreeError(pANTLR3_BASE_RECOGNIZER recognizer);
 }
 
 @members {
@@ -35,7 +37,6 @@ static const char* c_str(pANTLR3_UINT8 chars)
     return (const char*)chars;
 }
 
-// TODO: make sure we also get ANTLR errors, see apifuncs below
 static void reportSemanticError(pNDDL3Tree treeWalker, const std::string& msg)
 {
     treeWalker->SymbolTable->reportError(treeWalker,msg);
@@ -43,6 +44,14 @@ static void reportSemanticError(pNDDL3Tree treeWalker, const std::string& msg)
     throw msg;
 }
 
+// A construct that the parser accepts but this grammar doesn't support. The actions after the
+// subrule that failed can't go on without its result, so the error is thrown like any other.
+static void reportTreeError(pANTLR3_BASE_RECOGNIZER recognizer)
+{
+    pANTLR3_TREE_PARSER treeParser = (pANTLR3_TREE_PARSER)(recognizer->super);
+    reportSemanticError((pNDDL3Tree)(treeParser->super),"this construct is not supported here");
+}
+
 static std::string getAutoLabel(const char* prefix)
 {
     static int idx = 0;
@@ -74,12 +83,9 @@ static void popContext(pNDDL3Tree treeWalker)
 
 @apifuncs
 {
-    // TODO: Install custom error message display that gathers them in CTX->SymbolTable
-    //RECOGNIZER->displayRecognitionError = reportAntlrError;
-
-    // Add a function with the following signature:
-    // void reportAntlrError(pANTLR3_BASE_RECOGNIZER recognizer, pANTLR3_UINT8 *tokenNames);    
-    // use the meat from displayRecognitionError() in antlr3baserecognizer.c
+    RECOGNIZER->reportError = reportTreeError;
+    // This is needed so that we can get to the CTX from reportTreeError
+    PARSER->super = (void *)ctx;
 }
 
 nddl      
@@ -102,11 +108,11 @@ nddl
 		  ) 
 		  {
 		      if (child != NULL) { 
+                  CTX->SymbolTable->popFromCleanupStack();
                   boost::scoped_ptr<Expr> c(child);
 		          debugMsg("NddlInterpreter:nddl","Evaluating:" << child->toString());
                   evalExpr(CTX,child);
 		          debugMsg("NddlInterpreter:nddl","Done evaluating:" << child->toString());
-                  CTX->SymbolTable->popFromCleanupStack();
                   checkError(CTX->SymbolTable->cleanupStackSize() == 0,
                              CTX->SymbolTable->cleanupStackSize());
 		          // TODO!!: systematically deal with memory mgmt for all Exprs.
@@ -1019,9 +1025,6 @@ methodInvocation returns [Expr* result]
             
         MethodId method = CTX->SymbolTable->getMethod(mName.c_str(),v,args);
         if (method.isNoId()) {
-            delete v;
-            cleanup(args.begin(), args.end());
-            args.clear();
             reportSemanticError(CTX,"Method "+mName+" is not defined");
         }   
         result = new ExprMethodCall(method,v,args);
@@ -1074,16 +1077,12 @@ cexpression returns [CExpr* result]
             CFunctionId func = CTX->SymbolTable->getCFunction(fName.c_str(),args);
             
             if (func.isNoId())  {
-                cleanup(args.begin(), args.end());
-                args.clear();
                 reportSemanticError(CTX, "CFunction does not exist: " + fName);
             }
             try {
                 CTX->SymbolTable->checkCFunction(fName, args);
             }
             catch(const std::string& errorMsg) {
-                cleanup(args.begin(), args.end());
-                args.clear();
                 reportSemanticError(CTX, errorMsg);
             }
             result = new CExprFunction(func, args);
diff --git a/src/PLASMA/NDDL/component/NddlInterpreter.cc b/src/PLASMA/NDDL/component/NddlInterpreter.cc
index 6b2f7f7..4771512 100644
--- a/src/PLASMA/NDDL/component/NddlInterpreter.cc
+++ b/src/PLASMA/NDDL/component/NddlInterpreter.cc
@@ -236,9 +236,10 @@ std::string NddlInterpreter::interpret(std::istream& ins, const std::string& sou
   CleanUpInputStreams cleanInputStreams(m_inputstreams);
   try {
     treeParser->nddl(treeParser);
-    // TODO: report treeParser antlr errors the same way we do it for tree builder lexer and parser
   }
-  catch (const std::string&) {
+  catch (const std::string& msg) {
+    if (symbolTable.getErrors().empty())
+      symbolTable.reportError(treeParser,msg);
     debugMsg("NddlInterpreter:error",
              "nddl parser halted on error:" << symbolTable.getErrors());
     return symbolTable.getErrors();
-- 
2.43.0


From 7a494c426b68351491c8e07124deafd788f58982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:06 +0000
Subject: [PATCH 75/77] fix: an object whose constructor fails is not left
 behind

---
 src/PLASMA/PlanDatabase/base/Object.cc     |  4 +++-
 src/PLASMA/PlanDatabase/base/ObjectType.cc | 11 +++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/Object.cc b/src/PLASMA/PlanDatabase/base/Object.cc
index 400b5fe..3f40ed4 100644
--- a/src/PLASMA/PlanDatabase/base/Object.cc
+++ b/src/PLASMA/PlanDatabase/base/Object.cc
@@ -119,7 +119,9 @@ void Object::constructor(const std::vector<const Domain*>&) {}
       if (!m_parent.isNoId())
 	m_parent->remove(m_id);
 
-      m_planDatabase->notifyRemoved(m_id);
+      // An object whose construction failed was never announced
+      if (m_planDatabase->getObjects().find(m_id) != m_planDatabase->getObjects().end())
+        m_planDatabase->notifyRemoved(m_id);
     }
   }
 
diff --git a/src/PLASMA/PlanDatabase/base/ObjectType.cc b/src/PLASMA/PlanDatabase/base/ObjectType.cc
index afef1e0..b709e42 100644
--- a/src/PLASMA/PlanDatabase/base/ObjectType.cc
+++ b/src/PLASMA/PlanDatabase/base/ObjectType.cc
@@ -581,8 +581,15 @@ void* ObjectFactoryEvalContext::getElement(const std::string& name) const {
     debugMsg("InterpretedObjectFactory:createInstance", "Creating instance for type " << objectType << " with name " << objectName);
 
     ObjectId instance = makeNewObject(planDb, objectType, objectName,arguments);
-    evalConstructorBody(instance,arguments);
-    instance->close();
+    try {
+      evalConstructorBody(instance,arguments);
+      instance->close();
+    }
+    catch (...) {
+      // What was made so far is not part of the plan, nobody else will delete it
+      delete static_cast<Object*>(instance);
+      throw;
+    }
 
     debugMsg("InterpretedObjectFactory:createInstance", "Created instance " << instance->toString() << " for type " << objectType << " with name " << objectName);
 
-- 
2.43.0


From b90faea502f4c491d12ee515886a4f3f7fee5a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:06 +0000
Subject: [PATCH 76/77] fix: an inherited member has the type it was declared
 with

---
 src/PLASMA/PlanDatabase/base/Object.cc | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/PLASMA/PlanDatabase/base/Object.cc b/src/PLASMA/PlanDatabase/base/Object.cc
index 3f40ed4..d6bc5a3 100644
--- a/src/PLASMA/PlanDatabase/base/Object.cc
+++ b/src/PLASMA/PlanDatabase/base/Object.cc
@@ -632,14 +632,11 @@ void Object::constrain(const TokenId predecessor, const TokenId successor, bool
   }
 
 ConstrainedVariableId Object::addVariable(const Domain& baseDomain, const std::string& name){
+  // The member may be declared by an ancestor
+  const SchemaId schema = m_planDatabase->getSchema();
   std::string varTypeName = "";
-  Schema::NameValueVector members = m_planDatabase->getSchema()->getMembers(m_type);
-  for (unsigned int i = 0; i < members.size(); i++) {
-    debugMsg("Object:typeForNewMember", "member [" << members[i].first.c_str() << ", " << members[i].second.c_str() << "]");
-    if (members[i].second.c_str() ==  name) {
-      varTypeName = members[i].first.c_str();
-    }
-  }
+  if (schema->hasMember(m_type, name))
+    varTypeName = schema->getMemberType(m_type, name);
 
   if (varTypeName == "") {
     varTypeName = baseDomain.getTypeName().c_str();
-- 
2.43.0


From 57759aabc20eb7aa4d7b1612f2536dae00f7eac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:20 +0000
Subject: [PATCH 77/77] fix: types of a class that is refused are not left
 behind

---
 src/PLASMA/NDDL/base/antlr/NDDL3Tree.g       |  9 +++++++--
 src/PLASMA/NDDL/component/NddlInterpreter.cc | 12 ++++++++++--
 src/PLASMA/NDDL/component/NddlInterpreter.hh |  6 +++++-
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
index 29f354a..932ef71 100644
--- a/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
+++ b/src/PLASMA/NDDL/base/antlr/NDDL3Tree.g
@@ -627,13 +627,14 @@ tokenType[ObjectType* objType]
 			ttName=IDENT 
 			{ 
 			    tokenTypeName = objType->getName() + "." + c_str($ttName.text->chars);
-			    tokenType = new InterpretedTokenType(objType->getId(),tokenTypeName,c_str($kind.text->chars)); //NOTE: This can leak if one of the tokenStatements throws
-			    pushContext(CTX,new NddlTokenSymbolTable(CTX->SymbolTable,tokenType->getId(),objType->getId())); 
+			    tokenType = new InterpretedTokenType(objType->getId(),tokenTypeName,c_str($kind.text->chars));
+			    pushContext(CTX,new NddlTokenSymbolTable(CTX->SymbolTable,tokenType->getId(),objType->getId(),false)); 
 			}
 			tokenStatements[tokenType]
 		)
 		{
             objType->addTokenType(tokenType->getId());
+            dynamic_cast<NddlTokenSymbolTable*>(CTX->SymbolTable)->saveTokenType();
             checkError(CTX->SymbolTable->cleanupStackSize() == 0,
                        CTX->SymbolTable->cleanupStackSize());
             popContext(CTX);
@@ -951,6 +952,10 @@ qualified returns [Expr* result]
   				// TODO: should check for classes last, since this won't be common
 		        ObjectTypeId ot = CTX->SymbolTable->getObjectType(varName.c_str()); // Hack!
         		if (ot.isId())  { // is a class reference
+            		if (isEnum) { // the class hides the value, whose reference nobody will use
+            		    CTX->SymbolTable->popFromCleanupStack();
+            		    delete result;
+            		}
             		LabelStr value(varName);
             		result = new ExprConstant("string",new StringDomain((edouble)value,StringDT::instance()));
                     CTX->SymbolTable->pushToCleanupStack(result);
diff --git a/src/PLASMA/NDDL/component/NddlInterpreter.cc b/src/PLASMA/NDDL/component/NddlInterpreter.cc
index 4771512..262f3df 100644
--- a/src/PLASMA/NDDL/component/NddlInterpreter.cc
+++ b/src/PLASMA/NDDL/component/NddlInterpreter.cc
@@ -708,8 +708,10 @@ NddlClassSymbolTable::NddlClassSymbolTable(NddlSymbolTable* parent, ObjectType*
 
 NddlClassSymbolTable::~NddlClassSymbolTable()
 {
-  if(!m_saveObjectType)
+  if(!m_saveObjectType) {
+    m_objectType->purgeAll();
     delete m_objectType;
+  }
 }
 
 void NddlClassSymbolTable::saveObjectType() {m_saveObjectType = true;}
@@ -741,17 +743,23 @@ DataTypeId NddlClassSymbolTable::getTypeForVar(const std::string& varName)
 
 NddlTokenSymbolTable::NddlTokenSymbolTable(NddlSymbolTable* parent,
                                            const TokenTypeId tt,
-                                           const ObjectTypeId ot)
+                                           const ObjectTypeId ot,
+                                           bool saveTokenType)
     : NddlSymbolTable(parent)
     , m_tokenType(tt)
     , m_objectType(ot)
+    , m_saveTokenType(saveTokenType)
 {
 }
 
 NddlTokenSymbolTable::~NddlTokenSymbolTable()
 {
+  if(!m_saveTokenType)
+    delete static_cast<TokenType*>(m_tokenType);
 }
 
+void NddlTokenSymbolTable::saveTokenType() {m_saveTokenType = true;}
+
 DataTypeId NddlTokenSymbolTable::getTypeForVar(const std::string& varName)
 {
     if (std::string(varName)=="object")
diff --git a/src/PLASMA/NDDL/component/NddlInterpreter.hh b/src/PLASMA/NDDL/component/NddlInterpreter.hh
index 75aa119..34c6ec5 100644
--- a/src/PLASMA/NDDL/component/NddlInterpreter.hh
+++ b/src/PLASMA/NDDL/component/NddlInterpreter.hh
@@ -125,7 +125,9 @@ class NddlClassSymbolTable : public NddlSymbolTable {
 class NddlTokenSymbolTable : public NddlSymbolTable
 {
 public:
-    NddlTokenSymbolTable(NddlSymbolTable* parent, const TokenTypeId tt, const ObjectTypeId ot);
+    // A token type that is still being declared is deleted with its symbol table unless it is saved
+    NddlTokenSymbolTable(NddlSymbolTable* parent, const TokenTypeId tt, const ObjectTypeId ot,
+                         bool saveTokenType = true);
     virtual ~NddlTokenSymbolTable();
 
     virtual DataTypeId getTypeForVar(const std::string& varName);
@@ -140,9 +142,11 @@ public:
                                      std::string& errorMsg) {
     return NddlSymbolTable::getTypeForToken(tokenName, errorMsg);
   }
+    void saveTokenType();
 protected:
     TokenTypeId m_tokenType;
     ObjectTypeId m_objectType;
+    bool m_saveTokenType;
 };
 
 class NddlInterpreter : public LanguageInterpreter
-- 
2.43.0

