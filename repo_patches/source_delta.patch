From 6888a560d1536d1b0b553fd75c41274bc975fd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 01/32] fix: get_op_usage: keep StppOp and StvpOp during
 optimization

Storing a parameter in a VecAD vector during a recording
(StppOp and StvpOp) was not handled by get_op_usage.
The optimizer removed these stores so the optimized function
had different values (or an assert if NDEBUG is not defined).
---
 include/cppad/local/optimize/get_op_usage.hpp | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/cppad/local/optimize/get_op_usage.hpp b/include/cppad/local/optimize/get_op_usage.hpp
index 99806a9..0652eca 100644
--- a/include/cppad/local/optimize/get_op_usage.hpp
+++ b/include/cppad/local/optimize/get_op_usage.hpp
@@ -654,6 +654,26 @@ void get_op_usage(
             }
             break; // --------------------------------------------
 
+            // Store a parameter using a parameter index
+            case StppOp:
+            CPPAD_ASSERT_UNKNOWN( NumRes(op) == 0 );
+            if( vecad_used[ arg2vecad[ arg[0] ] ] )
+                op_usage[i_op] = usage_t(yes_usage);
+            break; // --------------------------------------------
+
+            // Store a parameter using a variable index
+            case StvpOp:
+            CPPAD_ASSERT_UNKNOWN( NumRes(op) == 0 );
+            if( vecad_used[ arg2vecad[ arg[0] ] ] )
+            {   op_usage[i_op] = usage_t(yes_usage);
+                //
+                size_t j_op = random_itr.var2op(size_t(arg[1]));
+                op_inc_arg_usage(
+                    play, check_csum, i_op, j_op, op_usage, cexp_set
+                );
+            }
+            break; // --------------------------------------------
+
             // Store a variable using a parameter index
             case StpvOp:
             CPPAD_ASSERT_UNKNOWN( NumRes(op) == 0 );
-- 
2.43.0


From c08693bdad1b578f73dd338c60fb71c432afd5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 02/32] fix: get_op_usage: VecAD arguments and conditional skip

A variable that is used as a VecAD index, or is stored in a VecAD vector,
is needed no matter which case of a conditional expression is used.
Its conditional expression set was not modified, hence it could be
skipped (nan was used for its value).
---
 include/cppad/local/optimize/get_op_usage.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/cppad/local/optimize/get_op_usage.hpp b/include/cppad/local/optimize/get_op_usage.hpp
index 0652eca..656b410 100644
--- a/include/cppad/local/optimize/get_op_usage.hpp
+++ b/include/cppad/local/optimize/get_op_usage.hpp
@@ -650,7 +650,9 @@ void get_op_usage(
                 vecad_used[i_vec] = true;
                 //
                 size_t j_op = random_itr.var2op(size_t(arg[1]));
-                op_usage[j_op] = usage_t(yes_usage);
+                op_inc_arg_usage(
+                    play, check_csum, i_op, j_op, op_usage, cexp_set
+                );
             }
             break; // --------------------------------------------
 
@@ -681,7 +683,9 @@ void get_op_usage(
             {   op_usage[i_op] = usage_t(yes_usage);
                 //
                 size_t j_op = random_itr.var2op(size_t(arg[2]));
-                op_usage[j_op] = usage_t(yes_usage);
+                op_inc_arg_usage(
+                    play, check_csum, i_op, j_op, op_usage, cexp_set
+                );
             }
             break; // --------------------------------------------
 
@@ -692,9 +696,13 @@ void get_op_usage(
             {   op_usage[i_op] = usage_t(yes_usage);
                 //
                 size_t j_op = random_itr.var2op(size_t(arg[1]));
-                op_usage[j_op] = usage_t(yes_usage);
+                op_inc_arg_usage(
+                    play, check_csum, i_op, j_op, op_usage, cexp_set
+                );
                 size_t k_op = random_itr.var2op(size_t(arg[2]));
-                op_usage[k_op] = usage_t(yes_usage);
+                op_inc_arg_usage(
+                    play, check_csum, i_op, k_op, op_usage, cexp_set
+                );
             }
             break; // -----------------------------------------------------
 
-- 
2.43.0


From 7ec701aa525d7a097d1d4700aa91299a7bdbbcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 03/32] fix: optimize: resize load_op2var_

The optimizer can remove VecAD load operations. If it did, the next forward
or reverse had load_op2var_.size() != play_.num_var_load() and this is an
assert when NDEBUG is not defined.
---
 include/cppad/core/optimize.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cppad/core/optimize.hpp b/include/cppad/core/optimize.hpp
index 011a97a..5c58e8b 100644
--- a/include/cppad/core/optimize.hpp
+++ b/include/cppad/core/optimize.hpp
@@ -383,6 +383,10 @@ void ADFun<Base,RecBase>::optimize(const std::string& options)
     // (must use player size because it now has the recoreder information)
     cskip_op_.resize( play_.num_var_op() );
 
+    // resize mapping from VecAD load operation index to variable index
+    // (optimization may have removed some of the load operations)
+    load_op2var_.resize( play_.num_var_load() );
+
     // resize subgraph_info_
     subgraph_info_.resize(
         ind_taddr_.size(),    // n_ind
-- 
2.43.0


From c3d763d1765459ff350840ed1dcf2cf78c993274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 04/32] fix: for_hes: Jacobian sparsity for conditional
 expressions

---
 include/cppad/local/sweep/for_hes.hpp  |  7 +++-
 include/cppad/local/var_op/cexp_op.hpp | 56 ++++++++++++++++++++++++++
 2 files changed, 62 insertions(+), 1 deletion(-)

diff --git a/include/cppad/local/sweep/for_hes.hpp b/include/cppad/local/sweep/for_hes.hpp
index 60d0f95..844e16f 100644
--- a/include/cppad/local/sweep/for_hes.hpp
+++ b/include/cppad/local/sweep/for_hes.hpp
@@ -280,7 +280,6 @@ void for_hes(
 
             // operators that do not affect Jacobian or Hessian
             // and where with a fixed number of arguments and results
-            case CExpOp:
             case DisOp:
             case ParOp:
             case PriOp:
@@ -288,6 +287,12 @@ void for_hes(
             break;
             // -------------------------------------------------
 
+            case CExpOp:
+            CPPAD_ASSERT_NARG_NRES(op, 6, 1);
+            var_op::cexp_for_hes(np1, i_var, arg, for_hes_sparse);
+            break;
+            // -------------------------------------------------
+
             // independent variable operator: set J(i_var) = { i_var }
             case InvOp:
             CPPAD_ASSERT_UNKNOWN( for_hes_sparse.number_elements(i_var) == 0 );
diff --git a/include/cppad/local/var_op/cexp_op.hpp b/include/cppad/local/var_op/cexp_op.hpp
index b9326bd..60f0a13 100644
--- a/include/cppad/local/var_op/cexp_op.hpp
+++ b/include/cppad/local/var_op/cexp_op.hpp
@@ -1180,5 +1180,61 @@ inline void cexp_rev_hes(
     return;
 }
 
+/*!
+Compute forward Hessian sparsity patterns for op = CExpOp.
+
+The C++ source code corresponding to this operation is
+\verbatim
+    z = CondExpRel(y_0, y_1, y_2, y_3)
+\endverbatim
+where Rel is one of the following: Lt, Le, Eq, Ge, Gt.
+This is linear with respect to y_2 and y_3
+and has zero derivative with respect to y_0 and y_1.
+Hence it does not add any terms to the Hessian.
+
+\tparam Vector_set
+is the type used for vectors of sets. It can be either
+sparse::pack_setvec or sparse::list_setvec.
+
+\param np1
+This is the number of independent variables plus one.
+
+\param i_z
+is the AD variable index corresponding to the variable z.
+
+\param arg
+see cexp_for_jac.
+
+\param for_hes_sparse
+\b Input:
+if y_2 (y_3) is a variable, the set with index np1 + arg[4] (np1 + arg[5])
+is the Jacobian sparsity pattern corresponding to y_2 (y_3).
+\n
+\b Output:
+the set with index np1 + i_z is the Jacobian sparsity for z.
+*/
+template <class Vector_set>
+inline void cexp_for_hes(
+    size_t             np1            ,
+    size_t             i_z            ,
+    const addr_t*      arg            ,
+    Vector_set&        for_hes_sparse )
+{   //
+    CPPAD_ASSERT_UNKNOWN( size_t(arg[0]) < static_cast<size_t> (CompareNe) );
+    CPPAD_ASSERT_UNKNOWN( NumArg(CExpOp) == 6 );
+    CPPAD_ASSERT_UNKNOWN( NumRes(CExpOp) == 1 );
+    CPPAD_ASSERT_UNKNOWN( arg[1] != 0 );
+    //
+    size_t i_res = np1 + i_z;
+    for_hes_sparse.clear(i_res);
+    if( arg[1] & 4 ) for_hes_sparse.binary_union(
+        i_res, i_res, np1 + size_t(arg[4]), for_hes_sparse
+    );
+    if( arg[1] & 8 ) for_hes_sparse.binary_union(
+        i_res, i_res, np1 + size_t(arg[5]), for_hes_sparse
+    );
+    return;
+}
+
 } } } // END namespace
 # endif
-- 
2.43.0


From 418053d3e435d5dab6019db755e06e51a6b33235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 05/32] fix: for_hes: handle ZmulpvOp

---
 include/cppad/local/sweep/for_hes.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cppad/local/sweep/for_hes.hpp b/include/cppad/local/sweep/for_hes.hpp
index 844e16f..9f50774 100644
--- a/include/cppad/local/sweep/for_hes.hpp
+++ b/include/cppad/local/sweep/for_hes.hpp
@@ -321,6 +321,7 @@ void for_hes(
             case AddpvOp:
             case MulpvOp:
             case SubpvOp:
+            case ZmulpvOp:
             linear[0] = true;
             var_op::one_var_for_hes(
                 np1, num_var, i_var, size_t(arg[1]), linear, for_hes_sparse
-- 
2.43.0


From 3ebdbbc5cb6ee4e6596f4bf88d4f345748befddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 06/32] fix: log1p_forward_dir: construct Base from double, not
 size_t

---
 include/cppad/local/var_op/log1p_op.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/local/var_op/log1p_op.hpp b/include/cppad/local/var_op/log1p_op.hpp
index ef493e8..bf238b0 100644
--- a/include/cppad/local/var_op/log1p_op.hpp
+++ b/include/cppad/local/var_op/log1p_op.hpp
@@ -88,7 +88,7 @@ inline void log1p_forward_dir(
     {   z[m+ell] = Base(double(q)) * x[m+ell];
         for(size_t k = 1; k < q; k++)
             z[m+ell] -= Base(double(k)) * z[(k-1)*r+1+ell] * x[(q-k-1)*r+1+ell];
-        z[m+ell] /= (Base(double(q)) + Base(q) * x[0]);
+        z[m+ell] /= (Base(double(q)) + Base(double(q)) * x[0]);
     }
 }
 
-- 
2.43.0


From 328620206eb54f9dac57e6d6e9bde49674760fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 07/32] fix: CondExp with a constant comparison keeps the
 branch that is selected

When left and right are constants, the result was the value of the selected
branch: a branch that is a variable or dynamic parameter became a constant.
---
 include/cppad/core/cond_exp.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/cppad/core/cond_exp.hpp b/include/cppad/core/cond_exp.hpp
index 2e354f9..ff250ac 100644
--- a/include/cppad/core/cond_exp.hpp
+++ b/include/cppad/core/cond_exp.hpp
@@ -173,10 +173,15 @@ AD<Base> CondExpOp(
 
     // check first case where do not need to tape
     if( IdenticalCon(left) && IdenticalCon(right) )
-    {   result = CondExpOp(
-            cop, left.value_, right.value_, if_true.value_, if_false.value_
+    {   // the branches may be variables or dynamic parameters, so select one
+        // of them (not its value)
+        Base flag = CondExpOp(
+            cop, left.value_, right.value_, Base(1.0), Base(0.0)
         );
-        return result;
+        if( IdenticalOne(flag) )
+            return if_true;
+        if( IdenticalZero(flag) )
+            return if_false;
     }
 
     // must use CondExp in case Base is an AD type and recording
-- 
2.43.0


From a96917baad594847e42c663b73a9d3cc7dd0f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 08/32] fix: x *= 0 and 0 /= x are zero when the other operand
 is nan or infinite

The result of these is a constant; its value was computed from the operands
(x * 0 and 0 / x already use zero).
---
 include/cppad/core/div_eq.hpp | 4 +++-
 include/cppad/core/mul_eq.hpp | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cppad/core/div_eq.hpp b/include/cppad/core/div_eq.hpp
index 47a9914..99bdf69 100644
--- a/include/cppad/core/div_eq.hpp
+++ b/include/cppad/core/div_eq.hpp
@@ -77,6 +77,7 @@ AD<Base>& AD<Base>::operator /= (const AD<Base> &right)
     else if( var_right  )
     {   if( (! dyn_left) && IdenticalZero(left) )
         {   // this = 0 / variable
+            value_ = Base(0.0); // incase right.value_ is zero or nan
         }
         else
         {   // this = parameter / variable
@@ -101,7 +102,8 @@ AD<Base>& AD<Base>::operator /= (const AD<Base> &right)
     {   if( (!dyn_right) && IdenticalOne(right.value_))
         {   // dynamic /= 1, so do nothing
         } else if( (!dyn_left) && IdenticalZero(left))
-        {   // 0 /= dynamic, so do nothing
+        {   // 0 /= dynamic
+            value_ = Base(0.0);
         } else
         {
             addr_t arg0 = taddr_;
diff --git a/include/cppad/core/mul_eq.hpp b/include/cppad/core/mul_eq.hpp
index 1dd2e01..5451901 100644
--- a/include/cppad/core/mul_eq.hpp
+++ b/include/cppad/core/mul_eq.hpp
@@ -60,6 +60,7 @@ AD<Base>& AD<Base>::operator *= (const AD<Base> &right)
         else if( (! dyn_right) && IdenticalZero(right.value_) )
         {   // this = variable * 0
             tape_id_ = 0; // not in current tape
+            value_   = Base(0.0); // incase left is nan
         }
         else
         {   // this = variable  * parameter
@@ -82,6 +83,7 @@ AD<Base>& AD<Base>::operator *= (const AD<Base> &right)
     else if( var_right  )
     {   if( (! dyn_left) && IdenticalZero(left) )
         {   // this = 0 * right
+            value_ = Base(0.0); // incase right.value_ is nan
         }
         else if( (! dyn_left) && IdenticalOne(left) )
         {   // this = 1 * right
@@ -112,11 +114,13 @@ AD<Base>& AD<Base>::operator *= (const AD<Base> &right)
         } else if( (!dyn_right) && IdenticalZero(right.value_))
         {   // dynamic *= 0, so remove from tape
             tape_id_ = 0;
+            value_   = Base(0.0);
         } else if( (!dyn_left) && IdenticalOne(left))
         {   // 1 *= dynamic
             make_dynamic(right.tape_id_, right.taddr_);
         } else if( (!dyn_left) && IdenticalZero(left))
-        {   // 0 *= dynamic, so do nothing
+        {   // 0 *= dynamic
+            value_ = Base(0.0);
         } else
         {
             addr_t arg0 = taddr_;
-- 
2.43.0


From b668edb37987f63da8833bf2babae2587febf974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 09/32] fix: powvp_reverse keeps the partials from other
 operators when x is zero

The partials of x were set to zero, instead of not being changed, which
removed the contributions of the operators that come after pow.
---
 include/cppad/local/var_op/pow_op.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/local/var_op/pow_op.hpp b/include/cppad/local/var_op/pow_op.hpp
index 67e4756..b970285 100644
--- a/include/cppad/local/var_op/pow_op.hpp
+++ b/include/cppad/local/var_op/pow_op.hpp
@@ -729,7 +729,7 @@ inline void powvp_reverse(
     work[0] += azmul(pz[0], y * z[0] / x[0]);
     //
     for(j = 0; j < n_order; ++j)
-        px[j] = CondExpEq(x[0], b0, b0, work[j]);
+        px[j] = CondExpEq(x[0], b0, px[j], work[j]);
 }
 
 } } } // END namespace
-- 
2.43.0


From 5ddfe2f0d37de06f8013edcaac6207b4b021d7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 10/32] fix: conditional skip when left and right are the same
 infinity

left - right is nan when both are the same infinity, so Le, Ge, Eq, Ne
chose the wrong case and skipped operations that are needed.
---
 include/cppad/local/var_op/cskip_op.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cppad/local/var_op/cskip_op.hpp b/include/cppad/local/var_op/cskip_op.hpp
index bcbc8ed..7ca6d5d 100644
--- a/include/cppad/local/var_op/cskip_op.hpp
+++ b/include/cppad/local/var_op/cskip_op.hpp
@@ -192,15 +192,15 @@ inline void cskip_forward_0(
         break;
 
         case CompareLe:
-        true_case = LessThanOrZero(diff);
+        true_case = LessThanOrZero(diff) || IdenticalEqualCon(left, right);
         break;
 
         case CompareEq:
-        true_case = IdenticalZero(diff);
+        true_case = IdenticalEqualCon(left, right);
         break;
 
         case CompareGe:
-        true_case = GreaterThanOrZero(diff);
+        true_case = GreaterThanOrZero(diff) || IdenticalEqualCon(left, right);
         break;
 
         case CompareGt:
@@ -208,7 +208,7 @@ inline void cskip_forward_0(
         break;
 
         case CompareNe:
-        true_case = ! IdenticalZero(diff);
+        true_case = ! IdenticalEqualCon(left, right);
         break;
 
         default:
-- 
2.43.0


From b4ff09f287da9deee7e132e960c753b9b52b7867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 11/32] fix: count x < y as changed when x and y become the
 same infinity

---
 include/cppad/local/var_op/compare_op.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cppad/local/var_op/compare_op.hpp b/include/cppad/local/var_op/compare_op.hpp
index edffe8d..3ee5188 100644
--- a/include/cppad/local/var_op/compare_op.hpp
+++ b/include/cppad/local/var_op/compare_op.hpp
@@ -246,7 +246,8 @@ template <class Base> void compare_forward_any(
         case LtpvOp:
         case LtvpOp:
         case LtvvOp:
-        change = GreaterThanOrZero(x - y);
+        // x - y is nan when x and y are the same infinity
+        change = ! LessThanZero(x - y);
         break;
 
         case NeppOp:
-- 
2.43.0


From 45db0c508993aaee876f0ab70f254a16e3bb41aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 12/32] fix: forward_any counts comparison changes only when it
 computes order zero

Forward(q, xq) with q > 0 added the changes of the previous zero order
sweep a second time to compare_change_number.
---
 include/cppad/local/sweep/forward_any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/local/sweep/forward_any.hpp b/include/cppad/local/sweep/forward_any.hpp
index 0a8eea5..3be79b2 100644
--- a/include/cppad/local/sweep/forward_any.hpp
+++ b/include/cppad/local/sweep/forward_any.hpp
@@ -200,7 +200,7 @@ void forward_any(
             case NeppOp:
             case NepvOp:
             case NevvOp:
-            var_op::compare_forward_any(op,
+            if( order_low == 0 ) var_op::compare_forward_any(op,
                 arg, parameter, cap_order, taylor, itr.op_index(),
                 change_count, change_number, change_op_index
             );
-- 
2.43.0


From 11ed883ed8d64b9c1d7cdbea9b08f6b554a38c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:01 +0000
Subject: [PATCH 13/32] fix: get_par_usage: mark the dynamic parameters of a
 cumulative summation as used

---
 include/cppad/local/optimize/get_par_usage.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cppad/local/optimize/get_par_usage.hpp b/include/cppad/local/optimize/get_par_usage.hpp
index 4360fc1..be7282a 100644
--- a/include/cppad/local/optimize/get_par_usage.hpp
+++ b/include/cppad/local/optimize/get_par_usage.hpp
@@ -250,8 +250,14 @@ void get_par_usage(
             break;
 
 
-            // cases where only first argument is a parameter
+            // cumulative summation: initial value and dynamic parameters
             case CSumOp:
+            par_usage[arg[0]] = true;
+            for(size_t i = size_t(arg[2]); i < size_t(arg[4]); ++i)
+                par_usage[arg[i]] = true;
+            break;
+
+            // cases where only first argument is a parameter
             case EqpvOp:
             case DivpvOp:
             case LepvOp:
@@ -261,7 +267,7 @@ void get_par_usage(
             case ParOp:
             case PowpvOp:
             case ZmulpvOp:
-            CPPAD_ASSERT_UNKNOWN( 1 <= NumArg(op) || op == CSumOp )
+            CPPAD_ASSERT_UNKNOWN( 1 <= NumArg(op) )
             par_usage[arg[0]] = true;
             break;
 
-- 
2.43.0


From 3b460e5b5a868c7f36dd709b576bedc3dc2f3754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:28 +0000
Subject: [PATCH 14/32] fix: rev_hes_sparsity, rev_sparse_hes: a variable
 selected by one dependent stays selected

---
 include/cppad/core/rev_hes_sparsity.hpp | 4 +++-
 include/cppad/core/rev_sparse_hes.hpp   | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/cppad/core/rev_hes_sparsity.hpp b/include/cppad/core/rev_hes_sparsity.hpp
index bea0f94..35bb07e 100644
--- a/include/cppad/core/rev_hes_sparsity.hpp
+++ b/include/cppad/core/rev_hes_sparsity.hpp
@@ -185,8 +185,10 @@ void ADFun<Base,RecBase>::rev_hes_sparsity(
         rev_jac_pattern[i] = false;
     //
     // initialize rev_jac_pattern for dependent variables
+    // (more than one dependent variable may have the same address)
     for(size_t i = 0; i < m; i++)
-        rev_jac_pattern[ dep_taddr_[i] ] = select_range[i];
+        if( select_range[i] )
+            rev_jac_pattern[ dep_taddr_[i] ] = true;
     //
     //
     if( internal_bool )
diff --git a/include/cppad/core/rev_sparse_hes.hpp b/include/cppad/core/rev_sparse_hes.hpp
index 6d857d6..893e506 100644
--- a/include/cppad/core/rev_sparse_hes.hpp
+++ b/include/cppad/core/rev_sparse_hes.hpp
@@ -266,7 +266,9 @@ void ADFun<Base,RecBase>::RevSparseHesCase(
         RevJac[i] = false;
     for(i = 0; i < m; i++)
     {   CPPAD_ASSERT_UNKNOWN( dep_taddr_[i] < num_var_tape_ );
-        RevJac[ dep_taddr_[i] ] = s[i];
+        // more than one dependent variable may have the same address
+        if( s[i] )
+            RevJac[ dep_taddr_[i] ] = true;
     }
 
     // vector of sets that will hold reverse Hessain values
@@ -584,7 +586,9 @@ void ADFun<Base,RecBase>::RevSparseHesCheckpoint(
         RevJac[i] = false;
     for(size_t i = 0; i < m; i++)
     {   CPPAD_ASSERT_UNKNOWN( dep_taddr_[i] < num_var_tape_ )
-        RevJac[ dep_taddr_[i] ] = s[i];
+        // more than one dependent variable may have the same address
+        if( s[i] )
+            RevJac[ dep_taddr_[i] ] = true;
     }
 
     // holds reverse Hessian sparsity pattern for all variables
-- 
2.43.0


From 04f69e29991a00f0f23ef90b073d2a0abbff9f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:28 +0000
Subject: [PATCH 15/32] fix: CppAD::vector: self assignment keeps the elements

---
 include/cppad/utility/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cppad/utility/vector.hpp b/include/cppad/utility/vector.hpp
index e49ceac..97fdbf7 100644
--- a/include/cppad/utility/vector.hpp
+++ b/include/cppad/utility/vector.hpp
@@ -382,7 +382,10 @@ public:
 // BEGIN_ASSIGN
     vector& operator=(const vector& other)
 // END_ASSIGN
-    {  // avoid copying old elements
+    {  // special case where vec and other are the same vector
+        if( this == &other )
+            return *this;
+        // avoid copying old elements
         resize(0);
         // new size for this vector
         resize( other.length_ );
-- 
2.43.0


From a81cfb51a380df4bce4d88b066e229740b4ef765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:38 +0000
Subject: [PATCH 16/32] fix: sparse_rc: operator== only uses an ordering that
 both patterns have

---
 include/cppad/utility/sparse_rc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cppad/utility/sparse_rc.hpp b/include/cppad/utility/sparse_rc.hpp
index 85d322e..cc0173c 100644
--- a/include/cppad/utility/sparse_rc.hpp
+++ b/include/cppad/utility/sparse_rc.hpp
@@ -448,11 +448,11 @@ public:
         bool this_col_ok  = col_major_.size() > 0;
         bool other_row_ok = other.row_major_.size() > 0;
         bool other_col_ok = other.col_major_.size() > 0;
-        if( this_row_ok && this_row_ok )
+        if( this_row_ok && other_row_ok )
         {   this_order_ptr  = &row_major_;
             other_order_ptr = &(other.row_major_);
         }
-        else if( this_col_ok && this_col_ok )
+        else if( this_col_ok && other_col_ok )
         {   this_order_ptr  = &col_major_;
             other_order_ptr = &(other.col_major_);
         }
-- 
2.43.0


From f1dff73a9ac484f25d977995ce6823abd0417a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:38 +0000
Subject: [PATCH 17/32] fix: sparse_rc: self assignment keeps the pattern

---
 include/cppad/utility/sparse_rc.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cppad/utility/sparse_rc.hpp b/include/cppad/utility/sparse_rc.hpp
index cc0173c..fad8e01 100644
--- a/include/cppad/utility/sparse_rc.hpp
+++ b/include/cppad/utility/sparse_rc.hpp
@@ -358,7 +358,10 @@ private:
     static void simple_vector_assign(
         SizeVector& destination, const SizeVector& source
     )
-    {   // resize to zero first so do not copy any values
+    {   // self assignment
+        if( &destination == &source )
+            return;
+        // resize to zero first so do not copy any values
         destination.resize(0);
         // size agreement required for simple vector
         destination.resize( source.size() );
-- 
2.43.0


From d81a2b15d1496f9d9274df45f2e4393fcd30ff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:38 +0000
Subject: [PATCH 18/32] fix: sparse_rcv: set checks its index against the
 number of entries

---
 include/cppad/utility/sparse_rcv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/utility/sparse_rcv.hpp b/include/cppad/utility/sparse_rcv.hpp
index 4eb672e..1a71fcf 100644
--- a/include/cppad/utility/sparse_rcv.hpp
+++ b/include/cppad/utility/sparse_rcv.hpp
@@ -278,7 +278,7 @@ public:
     // ------------------------------------------------------------------------
     void set(size_t k, const value_type& v)
     {   CPPAD_ASSERT_KNOWN(
-            pattern_.nnz(),
+            k < pattern_.nnz(),
             "The index k is not less than nnz in sparse_rcv::set"
         );
         val_[k] = v;
-- 
2.43.0


From 3deaa0ced3c6545ed8aac1ec7cec7fbdf3719217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:44 +0000
Subject: [PATCH 19/32] fix: abs_normal_fun: number of independent dynamic
 parameters was the number of all dynamic parameters

---
 include/cppad/core/abs_normal_fun.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/core/abs_normal_fun.hpp b/include/cppad/core/abs_normal_fun.hpp
index 5feb7a5..b81b1cf 100644
--- a/include/cppad/core/abs_normal_fun.hpp
+++ b/include/cppad/core/abs_normal_fun.hpp
@@ -387,7 +387,7 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
     size_t num_par = play_.num_par_all();
     //
     // number of independent dynamic parameters
-    size_t n_dyn_independent = play_.num_dynamic_par();
+    size_t n_dyn_independent = play_.n_dyn_independent();
     rec.set_n_dyn_independent(n_dyn_independent);
     //
     // set all parameter to be exactly the same in rec as in play
-- 
2.43.0


From c5da3d270f62469ce99e157601f5e57da4ca0a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:44 +0000
Subject: [PATCH 20/32] fix: abs_normal_fun: erf and erfc lost their variable
 argument

---
 include/cppad/core/abs_normal_fun.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cppad/core/abs_normal_fun.hpp b/include/cppad/core/abs_normal_fun.hpp
index b81b1cf..663b0b2 100644
--- a/include/cppad/core/abs_normal_fun.hpp
+++ b/include/cppad/core/abs_normal_fun.hpp
@@ -573,6 +573,8 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
             // Error function is a special case
             // second argument is always the parameter 0
             // third argument is always the parameter 2 / sqrt(pi)
+            new_arg[0] = f2g_var[ arg[0] ];
+            rec.PutArg( new_arg[0] );
             rec.PutArg( arg[1] ); // parameter
             rec.PutArg( arg[2] ); // parameter
             f2g_var[i_var] = rec.PutOp(op);
-- 
2.43.0


From 9867282da759c49b8c1b14c9af1755ac9fb74664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:44 +0000
Subject: [PATCH 21/32] fix: abs_normal_fun: VecAD operations (vectors not
 copied, store operator not recorded, load operators not dimensioned)

---
 include/cppad/core/abs_normal_fun.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cppad/core/abs_normal_fun.hpp b/include/cppad/core/abs_normal_fun.hpp
index 663b0b2..7803117 100644
--- a/include/cppad/core/abs_normal_fun.hpp
+++ b/include/cppad/core/abs_normal_fun.hpp
@@ -451,6 +451,10 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
         CPPAD_ASSERT_UNKNOWN( j_par == i_par );
     }
     //
+    // VecAD information (parameter indices are the same in rec and play)
+    for(size_t i = 0; i < play_.num_var_vec_ind(); ++i)
+        rec.put_var_vecad_ind( addr_t( play_.GetVecInd(i) ) );
+    //
     // number of variables in both operation sequences
     // (the AbsOp operators are replace by InvOp operators)
     const size_t num_var = play_.num_var();
@@ -845,6 +849,7 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
                 new_arg[1],
                 new_arg[2]
             );
+            rec.PutOp(op);
             break;
 
             // -----------------------------------------------------------
@@ -907,6 +912,9 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
     // dimension cskip_op vector to number of operators
     g.cskip_op_.resize( rec.num_var_op() );
 
+    // dimension load_op2var_ vector to number of VecAD load operators
+    g.load_op2var_.resize( rec.num_var_load() );
+
     // independent variables in g: (x, u)
     size_t s = f_abs_res.size();
     size_t n = Domain();
-- 
2.43.0


From e5674a90396438f5ab3fce4739533e01ce08972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:44 +0000
Subject: [PATCH 22/32] fix: abs_normal_fun: dimensions of dep_parameter_ and
 subgraph_info_ in the absolute value function

---
 include/cppad/core/abs_normal_fun.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/cppad/core/abs_normal_fun.hpp b/include/cppad/core/abs_normal_fun.hpp
index 7803117..c696c45 100644
--- a/include/cppad/core/abs_normal_fun.hpp
+++ b/include/cppad/core/abs_normal_fun.hpp
@@ -986,6 +986,19 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
         CPPAD_ASSERT_UNKNOWN( a.dep_taddr_[i] < num_var );
     }
 
+    // none of the dependent variables in a(x) are parameters
+    a.dep_parameter_.resize(s);
+    for(size_t i = 0; i < s; i++)
+        a.dep_parameter_[i] = false;
+
+    // resize subgraph_info_
+    a.subgraph_info_.resize(
+        a.ind_taddr_.size(),   // n_ind
+        a.dep_taddr_.size(),   // n_dep
+        a.play_.num_var_op(),  // n_op
+        a.play_.num_var()      // n_var
+    );
+
     // free memory allocated for sparse Jacobian calculation
     // (the results are no longer valid)
     a.for_jac_sparse_pack_.resize(0, 0);
-- 
2.43.0


From 47e96fd210562f9e57e17892ea1d94a5ff4e26a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:44 +0000
Subject: [PATCH 23/32] fix: abs_normal_fun: cumulative summations and
 comparisons of parameters were not recorded

---
 include/cppad/core/abs_normal_fun.hpp | 44 +++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/include/cppad/core/abs_normal_fun.hpp b/include/cppad/core/abs_normal_fun.hpp
index c696c45..e910ee2 100644
--- a/include/cppad/core/abs_normal_fun.hpp
+++ b/include/cppad/core/abs_normal_fun.hpp
@@ -368,6 +368,12 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
             f_abs_res.push_back( i_var );
             break;
 
+            // operators with a variable number of arguments
+            case CSkipOp:
+            case CSumOp:
+            itr.correct_before_increment();
+            break;
+
             default:
             break;
         }
@@ -497,8 +503,8 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
         if( more_operators )
             (++itr).op_info(op, arg, i_var);
     }
-    // add one for the phantom variable
-    CPPAD_ASSERT_UNKNOWN( 1 + Domain() == i_var );
+    // i_var is the index of the last result of the next operator (if any)
+    CPPAD_ASSERT_UNKNOWN( NumRes(op) == 0 || Domain() + NumRes(op) == i_var );
     //
     // record the independent variables corresponding AbsOp results
     size_t index_abs;
@@ -686,8 +692,40 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
             more_operators = false;
             break;
 
+            // --------------------------------------------------
+            // Operators with a variable number of arguments
+
+            // conditional skips do not affect the function values
+            case CSkipOp:
+            itr.correct_before_increment();
+            break;
+
+            // cumulative summation
+            case CSumOp:
+            for(addr_t i = 0; i < 5; ++i)
+                rec.PutArg( arg[i] );
+            for(addr_t i = 5; i < arg[2]; ++i)
+            {   CPPAD_ASSERT_UNKNOWN( size_t( f2g_var[ arg[i] ] ) < num_var );
+                rec.PutArg( f2g_var[ arg[i] ] );
+            }
+            for(addr_t i = arg[2]; i < arg[4]; ++i)
+                rec.PutArg( arg[i] ); // parameter
+            rec.PutArg( arg[ arg[4] ] );
+            f2g_var[i_var] = rec.PutOp(op);
+            itr.correct_before_increment();
+            break;
+
             // ---------------------------------------------------
             // Operations with two arguments and no results
+            case LeppOp:
+            case LtppOp:
+            case EqppOp:
+            case NeppOp:
+            CPPAD_ASSERT_NARG_NRES(op, 2, 0);
+            rec.PutArg(arg[0], arg[1]); // parameters
+            rec.PutOp(op);
+            break;
+            //
             case LepvOp:
             case LtpvOp:
             case EqpvOp:
@@ -898,7 +936,7 @@ void ADFun<Base,RecBase>::abs_normal_fun(ADFun& g, ADFun& a) const
             (++itr).op_info(op, arg, i_var);
     }
     // Check a few expected results
-    CPPAD_ASSERT_UNKNOWN( rec.num_var_op() == play_.num_var_op() );
+    CPPAD_ASSERT_UNKNOWN( rec.num_var_op() <= play_.num_var_op() );
     CPPAD_ASSERT_UNKNOWN( rec.num_var() == play_.num_var() );
     CPPAD_ASSERT_UNKNOWN( rec.num_var_load() == play_.num_var_load() );
 
-- 
2.43.0


From 585af7a2f51fb10e2684429f27aaccf49753ebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:44 +0000
Subject: [PATCH 24/32] fix: optimize with val_graph lost the dynamic parameter
 values, nan check, name and compare count

---
 include/cppad/local/val_graph/val_optimize.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/cppad/local/val_graph/val_optimize.hpp b/include/cppad/local/val_graph/val_optimize.hpp
index 56da2b1..de10760 100644
--- a/include/cppad/local/val_graph/val_optimize.hpp
+++ b/include/cppad/local/val_graph/val_optimize.hpp
@@ -67,6 +67,15 @@ void ADFun<Base, RecBase>::val_optimize(const std::string& options)
     fun2val(val_tape);
     //
     //
+    // ind_dynamic, check_nan, fun_name, change_count
+    // information in this function that does not depend on its recording
+    CppAD::vector<Base> ind_dynamic(n_dyn_ind);
+    for(size_t j = 0; j < n_dyn_ind; ++j)
+        ind_dynamic[j] = play_.par_all()[ play_.dyn2par_index()[j] ];
+    bool        check_nan    = check_for_nan_;
+    std::string fun_name     = function_name_;
+    size_t      change_count = compare_change_count_;
+    //
     // this
     // free all the memory associated with this function
     {   ADFun<Base> g;
@@ -106,6 +115,13 @@ void ADFun<Base, RecBase>::val_optimize(const std::string& options)
     // convert optimized value graph to fun
     val2fun(val_tape, dyn_ind, var_ind, use_val);
     //
+    // this
+    // restore information that does not depend on the recording
+    check_for_nan_        = check_nan;
+    function_name_        = fun_name;
+    compare_change_count_ = change_count;
+    new_dynamic(ind_dynamic);
+    //
     // no collision limit in value graph representation.
     return;
 }
-- 
2.43.0


From c4a68d64a09b6fb6e7a7dd24ebc03a1463bab26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 25/32] fix: to_graph: type of the value argument of a print
 operator

---
 include/cppad/core/graph/to_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/core/graph/to_graph.hpp b/include/cppad/core/graph/to_graph.hpp
index f69a126..f3c28b2 100644
--- a/include/cppad/core/graph/to_graph.hpp
+++ b/include/cppad/core/graph/to_graph.hpp
@@ -1053,7 +1053,7 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
                     notpos_node = par2node[ arg[1] ];
                 // value
                 size_t value_node;
-                if( arg[0] & 1 )
+                if( arg[0] & 2 )
                     value_node = var2node[ arg[3] ];
                 else
                     value_node = par2node[ arg[3] ];
-- 
2.43.0


From 058e0f64f189380bb236c38c36ca68609e8d46aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 26/32] fix: to_graph: arguments and results of atomic calls on
 dynamic parameters

---
 include/cppad/core/graph/to_graph.hpp | 52 ++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/include/cppad/core/graph/to_graph.hpp b/include/cppad/core/graph/to_graph.hpp
index f3c28b2..4cca1f6 100644
--- a/include/cppad/core/graph/to_graph.hpp
+++ b/include/cppad/core/graph/to_graph.hpp
@@ -144,6 +144,31 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
         }
     }
     CPPAD_ASSERT_UNKNOWN( n_constant == graph_obj.constant_vec_size() );
+    //
+    // A variable that is an argument to an atomic function call is represented
+    // by the phantom parameter (index zero) in the corresponding atom_dyn
+    // operator. The dynamic parameter results of the call do not depend on it.
+    // If this happens, use a constant node for the phantom parameter. Its value
+    // does not matter and zero is used because there is no nan in json.
+    {   size_t i_dyn_arg   = 0;
+        bool   use_phantom = false;
+        for(size_t i_dyn = n_dynamic_ind; i_dyn < n_dynamic; ++i_dyn)
+        {   local::op_code_dyn dyn_op = local::op_code_dyn( dyn_par_op[i_dyn] );
+            if( dyn_op == local::atom_dyn )
+            {   size_t n_x = size_t( dyn_par_arg[i_dyn_arg + 2] );
+                size_t n_y = size_t( dyn_par_arg[i_dyn_arg + 3] );
+                for(size_t j = 0; j < n_x; ++j)
+                    use_phantom |= dyn_par_arg[i_dyn_arg + 5 + j] == 0;
+                i_dyn_arg += 6 + n_x + n_y;
+            }
+            else
+                i_dyn_arg += num_arg_dyn(dyn_op);
+        }
+        if( use_phantom )
+        {   graph_obj.constant_vec_push_back( 0.0 );
+            par2node[0] = ++previous_node;
+        }
+    }
     // ----------------------------------------------------------------------
     //  output: initialize atomic_name_vec, operator_vec, operator_arg
     // temporary used for elements of operator_vec
@@ -164,8 +189,10 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
         //
         // parameter index for this dynamic parameter
         size_t i_par = size_t( dyn2par_index[i_dyn] );
-        CPPAD_ASSERT_UNKNOWN( par2node[i_par] == 0 );
-        par2node[i_par] = ++previous_node;
+        if( dyn_op != local::atom_dyn && dyn_op != local::result_dyn )
+        {   CPPAD_ASSERT_UNKNOWN( par2node[i_par] == 0 );
+            par2node[i_par] = ++previous_node;
+        }
         //
         // number of arguments for operators with exception of atom_dyn
         size_t n_arg = num_arg_dyn(dyn_op);
@@ -321,8 +348,9 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
         switch( dyn_op )
         {   // --------------------------------------------------------------
             case local::result_dyn:
-            // setting par2node[i_dyn] above is all that is necessary
+            // par2node[i_par] was set by the corresponding atom_dyn
             CPPAD_ASSERT_UNKNOWN( n_arg == 0 );
+            CPPAD_ASSERT_UNKNOWN( par2node[i_par] != 0 );
             break;
 
             // --------------------------------------------------------------
@@ -396,9 +424,25 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
                 for(size_t j  = 0; j < n_arg; ++j)
                 {   // arg[5 + j] is j-th argument to the function
                     size_t node_j = par2node[ dyn_par_arg[i_arg + 5 + j] ];
-                    CPPAD_ASSERT_UNKNOWN( node_j < i_par );
+                    CPPAD_ASSERT_UNKNOWN( 0 < node_j );
+                    CPPAD_ASSERT_UNKNOWN( node_j <= previous_node );
                     graph_obj.operator_arg_push_back( node_j );
                 }
+                //
+                // there is a node for every result of the function,
+                // arg[5 + n_arg + i] is zero if i-th result is not dynamic
+                for(size_t i = 0; i < n_result; ++i)
+                {   size_t j_par = size_t( dyn_par_arg[i_arg + 5 + n_arg + i] );
+                    ++previous_node;
+                    if( 0 < j_par )
+                        par2node[j_par] = previous_node;
+                }
+                //
+                // number of arguments for this atom_dyn operator
+                n_arg = 6 + n_arg + n_result;
+                CPPAD_ASSERT_UNKNOWN(
+                    n_arg == size_t( dyn_par_arg[i_arg + n_arg - 1] )
+                );
             }
             break;
 
-- 
2.43.0


From edb06f3d6cc707a29f3f4f2346805dae0cc6c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 27/32] fix: to_graph: conditional skip operators (optimized
 functions)

---
 include/cppad/core/graph/to_graph.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cppad/core/graph/to_graph.hpp b/include/cppad/core/graph/to_graph.hpp
index 4cca1f6..0241ccb 100644
--- a/include/cppad/core/graph/to_graph.hpp
+++ b/include/cppad/core/graph/to_graph.hpp
@@ -1242,6 +1242,12 @@ void CppAD::ADFun<Base,RecBase>::to_graph(
             }
             break;
 
+            // --------------------------------------------------------------
+            // CSkipOp: skipping operations does not affect the function value
+            case local::CSkipOp:
+            itr.correct_before_increment();
+            break;
+
             // --------------------------------------------------------------
             // EndOp:
             case local::EndOp:
-- 
2.43.0


From 2ab309360184e89324cbf721c8744aa1fd2c9f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 28/32] fix: from_graph: constant arguments of comparison
 operators

---
 include/cppad/core/graph/from_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cppad/core/graph/from_graph.hpp b/include/cppad/core/graph/from_graph.hpp
index 853477a..260302e 100644
--- a/include/cppad/core/graph/from_graph.hpp
+++ b/include/cppad/core/graph/from_graph.hpp
@@ -455,12 +455,12 @@ void CppAD::ADFun<Base,RecBase>::from_graph(
             if( var_left | dyn_left )
                 ax[0].taddr_ = arg[0];
             else
-                ax[0].value_ = parameter_x[0];
+                ax[0].value_ = parameter[ arg[0] ];
             // ax[1]
             if( var_right | dyn_right )
                 ax[1].taddr_ = arg[1];
             else
-                ax[1].value_ = parameter_x[1];
+                ax[1].value_ = parameter[ arg[1] ];
             //
             bool result;
             switch( op_enum )
-- 
2.43.0


From bbd8f0998de8ae67af6620b6b7646cecf4427362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 29/32] fix: from_json: order of call_id and name_index for
 atomic_four calls

---
 cppad_lib/json_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppad_lib/json_parser.cpp b/cppad_lib/json_parser.cpp
index 3092eb2..59399d1 100644
--- a/cppad_lib/json_parser.cpp
+++ b/cppad_lib/json_parser.cpp
@@ -254,9 +254,9 @@ void CppAD::local::graph::json_parser(
             CPPAD_ASSERT_UNKNOWN(
                 name_index < graph_obj.atomic_name_vec_size()
             );
+            graph_obj.operator_arg_push_back( name_index );
             if( op_enum == atom4_graph_op )
                 graph_obj.operator_arg_push_back( call_id );
-            graph_obj.operator_arg_push_back( name_index );
             graph_obj.operator_arg_push_back( n_result );
             graph_obj.operator_arg_push_back( n_arg );
         }
-- 
2.43.0


From b3585fc565c8495e751a472cdc088a897ccbcf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 30/32] fix: cpp_graph: printing an atomic_four call

---
 include/cppad/core/graph/cpp_graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cppad/core/graph/cpp_graph.hpp b/include/cppad/core/graph/cpp_graph.hpp
index 55cf47f..a375727 100644
--- a/include/cppad/core/graph/cpp_graph.hpp
+++ b/include/cppad/core/graph/cpp_graph.hpp
@@ -518,6 +518,7 @@ The file :ref:`print_graph.cpp-name` contains an example and test of this operat
                 break;
 
                 case graph::atom_graph_op:
+                case graph::atom4_graph_op:
                 CPPAD_ASSERT_UNKNOWN( str_index.size() == 1 );
                 os << atomic_name_vec_get( str_index[0] );
                 break;
-- 
2.43.0


From 876408a8e917dd23c83bb15319dfc90b20325baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 31/32] fix: to_csrc: a summation with one term was replaced by
 zero

---
 cppad_lib/csrc_writer.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cppad_lib/csrc_writer.cpp b/cppad_lib/csrc_writer.cpp
index db7bd05..b9ad7e7 100644
--- a/cppad_lib/csrc_writer.cpp
+++ b/cppad_lib/csrc_writer.cpp
@@ -110,9 +110,8 @@ namespace {
         const CppAD::vector<size_t>& arg_node            )
     {   std::string rhs = "\t" + element("v", result_node) + " = ";
         os << rhs;
-        if( arg_node.size() == 1 )
-        {   // can have subtraction terms with no addition terms
-            os << "(float_point_t) 0;\n";
+        if( arg_node.size() == 0 )
+        {   os << "(float_point_t) 0;\n";
             return;
         }
         for(size_t i = 0; i < arg_node.size(); ++i)
-- 
2.43.0


From c1cec8b99528efd4c9708cb0ba94cd6fbe705d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 32/32] fix: to_csrc: unary minus and conditional expressions

---
 cppad_lib/csrc_writer.cpp | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/cppad_lib/csrc_writer.cpp b/cppad_lib/csrc_writer.cpp
index b9ad7e7..5d70e97 100644
--- a/cppad_lib/csrc_writer.cpp
+++ b/cppad_lib/csrc_writer.cpp
@@ -103,6 +103,19 @@ namespace {
         os << "( " + element("v", arg_node) + " );\n";
     }
     //
+    // conditional_expression
+    void conditional_expression(
+        std::ostream&                os                  ,
+        const char*                  op_csrc             ,
+        size_t                       result_node         ,
+        const CppAD::vector<size_t>& arg_node            )
+    {   os << "\t" + element("v", result_node) + " = ";
+        os << "( " + element("v", arg_node[0]) + " " + op_csrc + " ";
+        os << element("v", arg_node[1]) + " ) ? ";
+        os << element("v", arg_node[2]) + " : ";
+        os << element("v", arg_node[3]) + ";\n";
+    }
+    //
     // sum_operator
     void sum_operator(
         std::ostream&                os                  ,
@@ -409,6 +422,18 @@ void CppAD::local::graph::csrc_writer(
             op_csrc = "-";
             break;
             // -------------------------------------------------------------
+            // conditional expressions
+            // -------------------------------------------------------------
+            case cexp_eq_graph_op:
+            op_csrc = "==";
+            break;
+            case cexp_le_graph_op:
+            op_csrc = "<=";
+            break;
+            case cexp_lt_graph_op:
+            op_csrc = "<";
+            break;
+            // -------------------------------------------------------------
             // comparison operators
             // -------------------------------------------------------------
             case comp_eq_graph_op:
@@ -430,6 +455,10 @@ void CppAD::local::graph::csrc_writer(
             op_csrc = "fabs";
             break;
             //
+            case neg_graph_op:
+            op_csrc = "-";
+            break;
+            //
             case acos_graph_op:
             case acosh_graph_op:
             case asin_graph_op:
@@ -495,6 +524,15 @@ void CppAD::local::graph::csrc_writer(
             );
             break;
             //
+            // conditional expressions
+            case cexp_eq_graph_op:
+            case cexp_le_graph_op:
+            case cexp_lt_graph_op:
+            CPPAD_ASSERT_UNKNOWN( arg_node.size() == 4 );
+            CPPAD_ASSERT_UNKNOWN( n_result == 1 );
+            conditional_expression(os, op_csrc, result_node, arg_node);
+            break;
+            //
             // comparison operators
             case comp_eq_graph_op:
             case comp_le_graph_op:
@@ -523,6 +561,7 @@ void CppAD::local::graph::csrc_writer(
             case expm1_graph_op:
             case log1p_graph_op:
             case log_graph_op:
+            case neg_graph_op:
             case sign_graph_op:
             case sin_graph_op:
             case sinh_graph_op:
-- 
2.43.0

