From 56744f5f651bbd8f8ddfb6c44cbf6eec457f921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 01/96] fix: keep the constraint of a unified variable when its
 alias is deleted

remove_deleted_items checked whether the aliased declaration (which has no right
hand side of its own) could go, and then removed the surviving declaration together
with the constraint it carries, losing the constraint.
---
 lib/optimize.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/optimize.cpp b/lib/optimize.cpp
index c6a9e42..bff163c 100644
--- a/lib/optimize.cpp
+++ b/lib/optimize.cpp
@@ -438,7 +438,9 @@ void remove_deleted_items(EnvI& envi, std::vector<VarDecl*>& deletedVarDecls) {
   auto& m = *envi.flat();
   while (!deletedVarDecls.empty()) {
     envi.checkCancel();
-    VarDecl* cur = deletedVarDecls.back();
+    // A declaration that has been unified with another one stands for the surviving
+    // declaration, whose right hand side decides whether it can be removed.
+    VarDecl* cur = deletedVarDecls.back()->id()->decl();
     deletedVarDecls.pop_back();
     if (can_remove_fzn_vardecl(envi, cur)) {
       auto cur_idx = envi.varOccurrences.idx.find(cur->id());
-- 
2.43.0


From f7db26a1e6368a8905f264574e3a04f69fd086e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 02/96] fix: reified iffall over variables

iffall over var bools in a non-root context failed with "'array_bool_xor' is used in a
reified context but no reified version is available"; define iffall_reif as is done for xorall.
---
 share/minizinc/std/stdlib/stdlib_internal.mzn | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/share/minizinc/std/stdlib/stdlib_internal.mzn b/share/minizinc/std/stdlib/stdlib_internal.mzn
index 4a971f1..2489a93 100644
--- a/share/minizinc/std/stdlib/stdlib_internal.mzn
+++ b/share/minizinc/std/stdlib/stdlib_internal.mzn
@@ -172,6 +172,9 @@ predicate xorall_reif(array [$T] of var bool: x, var bool: c) =
     constraint xorall([nc] ++ array1d(x)) :: defines_var(nc);
   } in c = not nc;
 
+predicate iffall_reif(array [$T] of var bool: x, var bool: c) =
+  xorall([c] ++ array1d(x));
+
 function var int: lin_exp(array [int] of int, array [int] of var int, int)
   :: mzn_internal_representation;
 function var float: lin_exp(array [int] of float, array [int] of var float, float)
-- 
2.43.0


From a73f113720c5f7fc13cf471f0ad02d9f595b4a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 03/96] fix: internal Gecode: set_in of an int variable in a
 fixed set

The test for a Boolean first argument accepted every variable, so set_in on an int
variable constrained an unrelated Boolean variable.
---
 solvers/gecode/gecode_constraints.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solvers/gecode/gecode_constraints.cpp b/solvers/gecode/gecode_constraints.cpp
index 304fad8..86ee290 100644
--- a/solvers/gecode/gecode_constraints.cpp
+++ b/solvers/gecode/gecode_constraints.cpp
@@ -1822,7 +1822,7 @@ void p_set_in(SolverInstanceBase& s, const Call* ce) {
   auto& gi = static_cast<GecodeSolverInstance&>(s);
   if (!Expression::type(ce->arg(1)).isvar()) {
     IntSet d = gi.arg2intset(s.env().envi(), ce->arg(1));
-    if (Expression::type(ce->arg(0)).isvar()) {
+    if (Expression::type(ce->arg(0)).isbool()) {
       Gecode::IntSetRanges dr(d);
       Iter::Ranges::Singleton sr(0, 1);
       Iter::Ranges::Inter<Gecode::IntSetRanges, Iter::Ranges::Singleton> i(dr, sr);
-- 
2.43.0


From 572e2e99fe193b6b5387f2de06d7d5af432568f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 04/96] fix: product of variables in a non-positive context

product over two or more variables under a reified or negated context failed with
"free variable in non-positive context"; the recursive helper defines its result for
every argument, so it is total.
---
 share/minizinc/std/stdlib/stdlib_internal.mzn | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/stdlib/stdlib_internal.mzn b/share/minizinc/std/stdlib/stdlib_internal.mzn
index 2489a93..1df8fcb 100644
--- a/share/minizinc/std/stdlib/stdlib_internal.mzn
+++ b/share/minizinc/std/stdlib/stdlib_internal.mzn
@@ -2801,7 +2801,7 @@ function var float: sqrt_mt(var float: x) :: promise_total =
     constraint float_sqrt(xx, r);
   } in r;
 
-function var int: product_rec(array [int] of var int: x) =
+function var int: product_rec(array [int] of var int: x) :: promise_total =
   if length(x) = 0 then
     1
   elseif length(x) = 1 then
@@ -2815,7 +2815,7 @@ function var int: product_rec(array [int] of var int: x) =
     } in y[length(y)]
   endif;
 
-function var float: product_rec(array [int] of var float: x) =
+function var float: product_rec(array [int] of var float: x) :: promise_total =
   if length(x) = 0 then
     1.0
   elseif length(x) = 1 then
-- 
2.43.0


From 0f587796fa1fee465ed9dc42c6a5103d5e4b859b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 05/96] fix: remove commutative calls and lifted right hand
 sides from the CSE map

The CSE map stores calls to promise_commutative functions under a normalised key, but
removal used the original call, so re-flattening the right hand side of a Boolean known
to be true found itself in the map and the constraint disappeared.  The same happened
when the right hand side of an unused true Boolean became a constraint of its own.
---
 lib/flatten.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index c226993..b519197 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -1029,7 +1029,17 @@ EnvI::CSEMap::iterator EnvI::cseMapFind(Expression* e) {
   }
   return lookup(e);
 }
-void EnvI::cseMapRemove(Expression* e) { _cseMap.remove(e); }
+void EnvI::cseMapRemove(Expression* e) {
+  // Calls to commutative functions are stored under their normalised form (see cseMapInsert)
+  Call* c = Expression::dynamicCast<Call>(e);
+  if ((c != nullptr) && c->decl() != nullptr &&
+      c->decl()->ann().contains(constants.ann.promise_commutative)) {
+    GCLock lock;
+    _cseMap.remove(Call::commutativeNormalized(*this, c));
+    return;
+  }
+  _cseMap.remove(e);
+}
 EnvI::CSEMap::iterator EnvI::cseMapEnd() { return _cseMap.end(); }
 void EnvI::dump() {
   struct EED {
@@ -4578,6 +4588,9 @@ void flatten(Env& e, FlatteningOptions opt) {
                     Expression::equal(vdi->e()->ti()->domain(), env.constants.literalTrue)) {
                   GCLock lock;
                   auto* ci = new ConstraintI(vdi->loc(), vdi->e()->e());
+                  // Remove right hand side from CSE map, otherwise flattening of the new
+                  // constraint could assume it has already been flattened to vdi
+                  env.cseMapRemove(vdi->e()->e());
                   if (vdi->e()->introduced()) {
                     env.flatAddItem(ci);
                     env.flatRemoveItem(vdi);
-- 
2.43.0


From e7a12b9eeea0951665237515539fbd0da716cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 06/96] fix: partiality result of a negated reification known
 to be false

In a negated context the total result of a call whose reification is fixed to false by
an earlier compilation pass was bound with the negated context, making the model
inconsistent.
---
 lib/flatten/flatten_call.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index e654c10..745fd0a 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -1180,7 +1180,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
                 flat_exp(env, Ctx(), reif_call, env.constants.varTrue, env.constants.varTrue);
                 args_ee.emplace_back(nullptr, env.constants.literalFalse);
                 ret.r = conj(env, r, ctx, args_ee);
-                ret.b = bind(env, ctx, b, env.constants.literalTrue);
+                ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
                 return ret;
               }
             }
-- 
2.43.0


From b20c07c9ddbebc14338b4bfe132a9b171fb94964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 07/96] fix: keep the definition of a Boolean unified in an
 earlier pass when reifying a call

new_vardecl may return a variable that already has a right hand side, because its path
was unified with another one in a previous compilation pass.  Assigning the reified call
as its definition dropped the existing one.
---
 lib/flatten/flatten_call.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index 745fd0a..d08e749 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -1189,13 +1189,30 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
           }
           // Annotate cr() with get_path()
           add_path_annotation(env, cr());
-          reif_b->e(cr());
+          bool hasDefinition = reif_b->e() != nullptr;
+          if (hasDefinition) {
+            // The variable was unified with another one in a previous pass and already has a
+            // definition that must be kept: add the reification as a separate constraint
+            std::vector<Expression*> args_e(args.size() + 1);
+            for (unsigned int i = 0; i < args.size(); i++) {
+              args_e[i] = args[i]();
+            }
+            args_e[args.size()] = reif_b->id();
+            Call* reif_call = Call::a(Location().introduce(), reif_decl->id(), args_e);
+            reif_call->type(Type::varbool());
+            reif_call->decl(reif_decl);
+            flat_exp(env, Ctx(), reif_call, env.constants.varTrue, env.constants.varTrue);
+          } else {
+            reif_b->e(cr());
+          }
           if (r != nullptr && r != reif_b) {
             Ctx reif_ctx;
             reif_ctx.neg = ctx.neg;
             bind(env, reif_ctx, r, reif_b->id());
           }
-          env.voAddExp(reif_b);
+          if (!hasDefinition) {
+            env.voAddExp(reif_b);
+          }
           ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
           args_ee.emplace_back(nullptr, reif_b->id());
           ret.r = conj(env, nullptr, ctx, args_ee);
-- 
2.43.0


From 162432216b3322f4a5ab499349fe5721052aaf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 08/96] fix: keep partial terms that cancel out of a linear
 expression

Building a linear expression merges equal terms before they are flattened and dropped
the ones with a coefficient of zero, so that (1 div x) - (1 div x) or 0 * (1 div x) + y
was accepted for x = 0.
---
 lib/flatten/flatten_binop.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index 8e0593c..568ba0c 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -309,7 +309,29 @@ KeepAlive mklinexp(EnvI& env, typename LinearTraits<Lit>::Val c0,
   Val constval = 0;
   collect_linexps<Lit>(env, c0, e0, coeffs, vars, constval);
   collect_linexps<Lit>(env, c1, e1, coeffs, vars, constval);
+  const std::vector<KeepAlive> all_vars(vars);
   simplify_lin<Lit>(coeffs, vars, constval);
+  if (vars.size() != all_vars.size()) {
+    // Simplification drops terms whose coefficients cancel out. The terms have not been flattened
+    // yet and can be partial, so they have to be kept in order to still be checked.
+    for (const auto& v : all_vars) {
+      Expression* e = follow_id_to_decl(v());
+      if (Expression::isa<VarDecl>(e) || Expression::isa<Lit>(e)) {
+        continue;
+      }
+      bool found = false;
+      for (const auto& kept : vars) {
+        if (Expression::equal(kept(), e)) {
+          found = true;
+          break;
+        }
+      }
+      if (!found) {
+        coeffs.push_back(0);
+        vars.emplace_back(e);
+      }
+    }
+  }
   KeepAlive ka;
   if (coeffs.empty()) {
     ka = LinearTraits<Lit>::newLit(constval);
-- 
2.43.0


From 18a9cfb1fc5874eb173703c94ff2c1eaff2a623d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 09/96] fix: keep partiality of a set membership that is known
 to hold

---
 lib/flatten/flatten_binop.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index 568ba0c..75d5658 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1031,7 +1031,7 @@ EE flatten_nonbool_op(EnvI& env, const Ctx& ctx, const Ctx& ctx0, const Ctx& ctx
 
 template <class Lit>
 bool flatten_dom_constraint(EnvI& env, Ctx& ctx, VarDecl* vd, Expression* dom, VarDecl* r,
-                            EE& ret) {
+                            const std::vector<EE>& ees, EE& ret) {
   Id* ident = vd->id();
   if (ctx.b == C_ROOT && r == env.constants.varTrue) {
     if (vd->ti()->domain() == nullptr) {
@@ -1064,7 +1064,7 @@ bool flatten_dom_constraint(EnvI& env, Ctx& ctx, VarDecl* vd, Expression* dom, V
         ident = Expression::dynamicCast<Id>(ident->decl()->e());
       }
     }
-    ret.r = bind(env, ctx, r, env.constants.literalTrue);
+    ret.r = conj(env, r, ctx, ees);
     return true;
   }
   if (vd->ti()->domain() != nullptr) {
@@ -1074,8 +1074,8 @@ bool flatten_dom_constraint(EnvI& env, Ctx& ctx, VarDecl* vd, Expression* dom, V
     auto* domain = LinearTraits<Lit>::evalDomain(env, ident->decl()->ti()->domain());
 
     if (LinearTraits<Lit>::domainSubset(domain, check_dom)) {
-      // the constraint is subsumed
-      ret.r = bind(env, ctx, r, env.constants.literalTrue);
+      // the constraint is subsumed, but still false where one of its arguments is undefined
+      ret.r = conj(env, r, ctx, ees);
       return true;
     }
     if (vd->type().st() == Type::ST_PLAIN && LinearTraits<Lit>::domainDisjoint(check_dom, domain)) {
@@ -1541,14 +1541,15 @@ EE flatten_bool_op(EnvI& env, Ctx& ctx, const Ctx& ctx0, const Ctx& ctx1, Expres
 
   if (isBuiltin && Expression::type(e1.r()).isPar() && Expression::isa<Id>(e0.r()) &&
       (bot == BOT_IN || bot == BOT_SUBSET)) {
+    const std::vector<EE> partiality(ees.begin(), ees.begin() + 2);
     if (Expression::type(e0.r()).bt() == Type::BT_INT &&
         flatten_dom_constraint<IntLit>(env, ctx, Expression::cast<Id>(e0.r())->decl(), e1.r(), r,
-                                       ret)) {
+                                       partiality, ret)) {
       return ret;
     }
     if (Expression::type(e0.r()).bt() == Type::BT_FLOAT &&
         flatten_dom_constraint<FloatLit>(env, ctx, Expression::cast<Id>(e0.r())->decl(), e1.r(), r,
-                                         ret)) {
+                                         partiality, ret)) {
       return ret;
     }
   }
-- 
2.43.0


From 775e1ee7a1607d716d7798ccddc8c048c925faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 10/96] fix: keep the domain of a variable unified in an
 earlier pass

---
 lib/flatten.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index b519197..644f0cd 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -692,6 +692,10 @@ VarDecl* new_vardecl(EnvI& env, const Ctx& ctx, TypeInst* ti, Id* origId, VarDec
               pathMap[path] = vd_tup;
               pathMap[path2] = vd_tup;
               reversePathMap.insert(vd, path);
+              if (vd != ovd) {
+                // vd also stands for the decl that ovd was unified with
+                update_bounds(env, ovd->id()->decl(), vd);
+              }
             }
           }
         }
-- 
2.43.0


From 70aae5012299a1103e3f9a5e4913b22cf186f174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 11/96] fix: reified sliding_sum constrained its prefix sums
 only when true

---
 share/minizinc/std/fzn_sliding_sum_reif.mzn | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/fzn_sliding_sum_reif.mzn b/share/minizinc/std/fzn_sliding_sum_reif.mzn
index 4fb4e9e..ed5eb26 100644
--- a/share/minizinc/std/fzn_sliding_sum_reif.mzn
+++ b/share/minizinc/std/fzn_sliding_sum_reif.mzn
@@ -11,5 +11,10 @@ predicate fzn_sliding_sum_reif(
     int: lx = min(index_set(xs));
     int: ux = max(index_set(xs));
     array [lx - 1..ux] of var int: S;
-  } in S[lx - 1] = 0 /\ forall (i in lx..ux) (S[i] = xs[i] + S[i - 1]) /\ b <->
-    forall (i in lx - 1..ux - window_size) (S[i] <= S[i + window_size] - low /\ S[i + window_size] <= S[i] + up);
+  } in S[lx - 1] = 0 /\ forall (i in lx..ux) (S[i] = xs[i] + S[i - 1]) /\
+    (
+      b <->
+        forall (i in lx - 1..ux - window_size) (
+          S[i] <= S[i + window_size] - low /\ S[i + window_size] <= S[i] + up
+        )
+    );
-- 
2.43.0


From fb8c0aad83a399df3f8d993bf1cf6d7de07f866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 12/96] fix: reified symmetric_all_different accepted values
 outside the index set

---
 share/minizinc/std/fzn_symmetric_all_different_reif.mzn | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/share/minizinc/std/fzn_symmetric_all_different_reif.mzn b/share/minizinc/std/fzn_symmetric_all_different_reif.mzn
index 4a85c58..d96d6b3 100644
--- a/share/minizinc/std/fzn_symmetric_all_different_reif.mzn
+++ b/share/minizinc/std/fzn_symmetric_all_different_reif.mzn
@@ -1,4 +1,5 @@
 include "all_different.mzn";
+include "inverse.mzn";
 
 predicate fzn_symmetric_all_different_reif(array [int] of var int: xs, var bool: b) =
-  b <-> (all_different(xs) /\ forall (i, j in index_set(xs) where i != j) (xs[i] = j -> xs[j] = i));
+  b <-> (all_different(xs) /\ inverse(xs, xs));
-- 
2.43.0


From adba5025db8cae1667584d6cd70e83801eb0ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 13/96] fix: arg_sort of a single element left the permutation
 unconstrained

---
 share/minizinc/std/fzn_arg_sort_float.mzn      | 1 +
 share/minizinc/std/fzn_arg_sort_float_reif.mzn | 1 +
 share/minizinc/std/fzn_arg_sort_int.mzn        | 1 +
 share/minizinc/std/fzn_arg_sort_int_reif.mzn   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/share/minizinc/std/fzn_arg_sort_float.mzn b/share/minizinc/std/fzn_arg_sort_float.mzn
index d225159..ccb1342 100644
--- a/share/minizinc/std/fzn_arg_sort_float.mzn
+++ b/share/minizinc/std/fzn_arg_sort_float.mzn
@@ -2,6 +2,7 @@ include "all_different.mzn";
 
 predicate fzn_arg_sort_float(array [int] of var float: xs, array [int] of var int: permutation) =
   all_different(permutation) /\
+    forall (p in permutation) (p in index_set(xs)) /\
     forall (j in 1..length(xs) - 1) (
       xs[permutation[j]] <= xs[permutation[j + 1]] /\ (xs[permutation[j]] == xs[permutation[j + 1]] -> permutation[j] < permutation[j + 1])
     );
diff --git a/share/minizinc/std/fzn_arg_sort_float_reif.mzn b/share/minizinc/std/fzn_arg_sort_float_reif.mzn
index 9b03f95..d3becb5 100644
--- a/share/minizinc/std/fzn_arg_sort_float_reif.mzn
+++ b/share/minizinc/std/fzn_arg_sort_float_reif.mzn
@@ -8,6 +8,7 @@ predicate fzn_arg_sort_float_reif(
   b <->
     (
       all_different(permutation) /\
+        forall (p in permutation) (p in index_set(xs)) /\
         forall (j in 1..length(xs) - 1) (
           xs[permutation[j]] <= xs[permutation[j + 1]] /\ (xs[permutation[j]] == xs[permutation[j + 1]] -> permutation[j] < permutation[j + 1])
         )
diff --git a/share/minizinc/std/fzn_arg_sort_int.mzn b/share/minizinc/std/fzn_arg_sort_int.mzn
index 70c0586..deb0686 100644
--- a/share/minizinc/std/fzn_arg_sort_int.mzn
+++ b/share/minizinc/std/fzn_arg_sort_int.mzn
@@ -2,6 +2,7 @@ include "all_different.mzn";
 
 predicate fzn_arg_sort_int(array [int] of var int: xs, array [int] of var int: permutation) =
   all_different(permutation) /\
+    forall (p in permutation) (p in index_set(xs)) /\
     forall (j in 1..length(xs) - 1) (
       xs[permutation[j]] <= xs[permutation[j + 1]] /\ (xs[permutation[j]] == xs[permutation[j + 1]] -> permutation[j] < permutation[j + 1])
     );
diff --git a/share/minizinc/std/fzn_arg_sort_int_reif.mzn b/share/minizinc/std/fzn_arg_sort_int_reif.mzn
index b77b2fa..2765eaf 100644
--- a/share/minizinc/std/fzn_arg_sort_int_reif.mzn
+++ b/share/minizinc/std/fzn_arg_sort_int_reif.mzn
@@ -4,6 +4,7 @@ predicate fzn_arg_sort_int_reif(array [int] of var int: xs, array [int] of var i
   b <->
     (
       all_different(permutation) /\
+        forall (p in permutation) (p in index_set(xs)) /\
         forall (j in 1..length(xs) - 1) (
           xs[permutation[j]] <= xs[permutation[j + 1]] /\ (xs[permutation[j]] == xs[permutation[j + 1]] -> permutation[j] < permutation[j + 1])
         )
-- 
2.43.0


From 3d417e8b25c83858072f255ede36be9f8149c9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 14/96] fix: reified sort of arrays with different index sets

---
 share/minizinc/std/fzn_sort_reif.mzn | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/minizinc/std/fzn_sort_reif.mzn b/share/minizinc/std/fzn_sort_reif.mzn
index d0b75f1..a10d829 100644
--- a/share/minizinc/std/fzn_sort_reif.mzn
+++ b/share/minizinc/std/fzn_sort_reif.mzn
@@ -1,4 +1,4 @@
 include "sort_fn.mzn";
 
 predicate fzn_sort_reif(array [int] of var int: xs, array [int] of var int: ys, var bool: b) =
-  let { array [int] of var int: s = sort(xs) } in b <-> s = ys;
+  let { array [int] of var int: s = sort(xs) } in b <-> array1d(s) = array1d(ys);
-- 
2.43.0


From b88383121ce33e3a7b7ce72a154e1183117efe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 15/96] fix: seq_precede_chain over variables that are all
 negative

---
 share/minizinc/std/fzn_seq_precede_chain_int.mzn | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/minizinc/std/fzn_seq_precede_chain_int.mzn b/share/minizinc/std/fzn_seq_precede_chain_int.mzn
index 2884b97..033094c 100644
--- a/share/minizinc/std/fzn_seq_precede_chain_int.mzn
+++ b/share/minizinc/std/fzn_seq_precede_chain_int.mzn
@@ -4,7 +4,7 @@ predicate fzn_seq_precede_chain_int(array [int] of var int: xs) =
   else
     let {
       int: l = lb_array(xs); % least possible value
-      int: u = ub_array(xs); % greatest possible value
+      int: u = max(0, ub_array(xs)); % greatest possible value
       int: f = min(index_set(xs));
       array [index_set(xs)] of var l..u: H;
     } in H[f] <= 1 /\
-- 
2.43.0


From dc6903faf143673fae444991ad96a768aaadffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:46 +0000
Subject: [PATCH 16/96] fix: internal Gecode: cumulative with empty tasks or
 with several low tasks

---
 solvers/gecode/gecode_constraints.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/solvers/gecode/gecode_constraints.cpp b/solvers/gecode/gecode_constraints.cpp
index 86ee290..bff038f 100644
--- a/solvers/gecode/gecode_constraints.cpp
+++ b/solvers/gecode/gecode_constraints.cpp
@@ -1314,13 +1314,24 @@ void p_cumulatives(SolverInstanceBase& s, const Call* call) {
   int minHeight2 = INT_MAX;
   for (int i = n; (i--) != 0;) {
     if (height[i].min() < minHeight) {
+      minHeight2 = minHeight;
       minHeight = height[i].min();
     } else if (height[i].min() < minHeight2) {
       minHeight2 = height[i].min();
     }
   }
-  bool disjunctive = (minHeight > bound.max() / 2) ||
-                     (minHeight2 > bound.max() / 2 && minHeight + minHeight2 > bound.max());
+  // A task with an empty duration does not use the resource, but the propagators require the
+  // height of every task to be at most the bound
+  bool decompose = false;
+  for (int i = n; (i--) != 0;) {
+    decompose = decompose || (duration[i].min() <= 0 && height[i].max() > bound.min());
+  }
+  if (decompose) {
+    rel(*gi.currentSpace, bound >= 0);
+  }
+  bool disjunctive =
+      !decompose && ((minHeight > bound.max() / 2) ||
+                     (minHeight2 > bound.max() / 2 && minHeight + minHeight2 > bound.max()));
   if (disjunctive) {
     rel(*gi.currentSpace, bound >= max(height));
     // Unary
@@ -1339,7 +1350,7 @@ void p_cumulatives(SolverInstanceBase& s, const Call* call) {
       unshare(*gi.currentSpace, start);
       unary(*gi.currentSpace, start, duration, end);
     }
-  } else if (height.assigned()) {
+  } else if (!decompose && height.assigned()) {
     IntArgs heightI(n);
     for (int i = n; (i--) != 0;) {
       heightI[i] = height[i].val();
@@ -1357,7 +1368,7 @@ void p_cumulatives(SolverInstanceBase& s, const Call* call) {
       }
       cumulative(*gi.currentSpace, bound, start, duration, end, heightI);
     }
-  } else if (bound.assigned()) {
+  } else if (!decompose && bound.assigned()) {
     IntArgs machine = IntArgs::create(n, 0, 0);
     IntArgs limit({bound.val()});
     IntVarArgs end(n);
-- 
2.43.0


From 08b824d0b3c7466f77449908c0e8168407db6daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:46 +0000
Subject: [PATCH 17/96] fix: bin_packing of optional items with another index
 set or outside the bins

---
 share/minizinc/std/fzn_bin_packing_capa_opt.mzn | 3 ++-
 share/minizinc/std/fzn_bin_packing_load_opt.mzn | 3 ++-
 share/minizinc/std/fzn_bin_packing_opt.mzn      | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/share/minizinc/std/fzn_bin_packing_capa_opt.mzn b/share/minizinc/std/fzn_bin_packing_capa_opt.mzn
index 0e90403..d5091fd 100644
--- a/share/minizinc/std/fzn_bin_packing_capa_opt.mzn
+++ b/share/minizinc/std/fzn_bin_packing_capa_opt.mzn
@@ -11,7 +11,8 @@ predicate fzn_bin_packing_capa_opt(
     any: new_bins = min(index_set(capacity)) .. dummy_bin;
     any: dummy_capa = sum(weight);
   } in
-    bin_packing_capa([b: if b < dummy_bin then capacity[b] else dummy_capa endif | b in new_bins], [b default dummy_bin | b in bin], weight)
+    forall (b in bin) (occurs(b) -> deopt(b) in index_set(capacity)) /\
+    bin_packing_capa([b: if b < dummy_bin then capacity[b] else dummy_capa endif | b in new_bins], arrayXd(bin, [b default dummy_bin | b in bin]), weight)
   endif;
 
 %-----------------------------------------------------------------------------%
diff --git a/share/minizinc/std/fzn_bin_packing_load_opt.mzn b/share/minizinc/std/fzn_bin_packing_load_opt.mzn
index a2aab39..dedb1f4 100644
--- a/share/minizinc/std/fzn_bin_packing_load_opt.mzn
+++ b/share/minizinc/std/fzn_bin_packing_load_opt.mzn
@@ -10,7 +10,8 @@ predicate fzn_bin_packing_load_opt(
     any: new_bins = min(index_set(load)) .. dummy_bin;
     var 0..sum(weight): dummy_load;
   } in
-    bin_packing_load([b: if b < dummy_bin then load[b] else dummy_load endif | b in new_bins], [b default dummy_bin | b in bin], weight)
+    forall (b in bin) (occurs(b) -> deopt(b) in index_set(load)) /\
+    bin_packing_load([b: if b < dummy_bin then load[b] else dummy_load endif | b in new_bins], arrayXd(bin, [b default dummy_bin | b in bin]), weight)
   ;
 
 %-----------------------------------------------------------------------------%
diff --git a/share/minizinc/std/fzn_bin_packing_opt.mzn b/share/minizinc/std/fzn_bin_packing_opt.mzn
index 12d254d..48f329b 100644
--- a/share/minizinc/std/fzn_bin_packing_opt.mzn
+++ b/share/minizinc/std/fzn_bin_packing_opt.mzn
@@ -13,7 +13,7 @@ predicate fzn_bin_packing_opt(
   } in
     bin_packing_capa(
       [b: if b < dummy_bin then capacity else dummy_capa endif | b in new_bins],
-      [b default dummy_bin | b in bin],
+      arrayXd(bin, [b default dummy_bin | b in bin]),
       weight,
     )
   endif;
-- 
2.43.0


From c499a909f4898ff4b3467d6c18b2a2b106f90913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:46 +0000
Subject: [PATCH 18/96] fix: reified span without any occurring task

---
 share/minizinc/std/fzn_span_reif.mzn | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/fzn_span_reif.mzn b/share/minizinc/std/fzn_span_reif.mzn
index 5814111..89fe1b2 100644
--- a/share/minizinc/std/fzn_span_reif.mzn
+++ b/share/minizinc/std/fzn_span_reif.mzn
@@ -8,7 +8,7 @@ predicate fzn_span_reif(
   b <->
     (
       (occurs(span_start) <-> exists (i in index_set(start)) (occurs(start[i]))) /\
-        span_start = min(start) /\
+        span_start = min_weak(start) /\
         (absent(span_start) -> span_duration = 0) /\
-        span_start ~+ span_duration = max([start[i] ~+ duration[i] | i in index_set(start)])
+        span_start ~+ span_duration = max_weak([start[i] ~+ duration[i] | i in index_set(start)])
     );
-- 
2.43.0


From b315ae04b5804908423a8d5536878774333446d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:46 +0000
Subject: [PATCH 19/96] fix: cumulatives over optional tasks with another index
 set

---
 share/minizinc/std/fzn_cumulatives_opt.mzn | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/fzn_cumulatives_opt.mzn b/share/minizinc/std/fzn_cumulatives_opt.mzn
index d08b3fb..c08d4e3 100644
--- a/share/minizinc/std/fzn_cumulatives_opt.mzn
+++ b/share/minizinc/std/fzn_cumulatives_opt.mzn
@@ -9,6 +9,6 @@ predicate fzn_cumulatives_opt(
   bool: is_upper_bound,
   int: min_machine,
 ) = cumulatives_helper(
-    [si default 0 | si in start],
-    [if occurs(start[i]) then duration[i] else 0 endif | i in index_set(start)],
+    arrayXd(start, [si default 0 | si in start]),
+    arrayXd(start, [if occurs(start[i]) then duration[i] else 0 endif | i in index_set(start)]),
     resource, machine, bound, is_upper_bound);
-- 
2.43.0


From 56953da173204c2d769f9a2c88d2514110d93579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 20/96] fix: circular right hand side of an output variable

---
 lib/output.cpp | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/lib/output.cpp b/lib/output.cpp
index e899639..d180a4a 100644
--- a/lib/output.cpp
+++ b/lib/output.cpp
@@ -241,6 +241,41 @@ bool cannot_use_rhs_for_output(EnvI& env, Expression* e) {
   return cannot_use_rhs_for_output(env, e, seen_functions);
 }
 
+/// Check whether the right hand side of \a vd depends on \a vd itself.
+/// Such a definition (which can result from unifying variables) constrains \a vd,
+/// but cannot be used to compute its value.
+bool rhs_is_circular(VarDecl* vd) {
+  class V : public EVisitor {
+  public:
+    VarDecl* vd;
+    std::unordered_set<VarDecl*> seen;
+    std::vector<Expression*> todo;
+    bool circular = false;
+    V(VarDecl* vd0) : vd(vd0) {}
+    void vId(Id* ident) {
+      VarDecl* d = ident->decl();
+      while (d != nullptr && d->flat() != nullptr && d != d->flat()) {
+        d = d->flat();
+      }
+      if (d == vd) {
+        circular = true;
+      } else if (d != nullptr && d->e() != nullptr && !d->type().isPar() && seen.insert(d).second) {
+        todo.push_back(d->e());
+      }
+    }
+    bool enter(Expression* /*e*/) const { return !circular; }
+  } _v(vd);
+  if (vd->e() != nullptr) {
+    _v.todo.push_back(vd->e());
+  }
+  while (!_v.todo.empty() && !_v.circular) {
+    Expression* e = _v.todo.back();
+    _v.todo.pop_back();
+    top_down(_v, e);
+  }
+  return _v.circular;
+}
+
 bool rhs_contains_var_comp(EnvI& env, Expression* e) {
   if (e == nullptr) {
     return true;
@@ -889,7 +924,8 @@ void output_vardecls(EnvI& env, Item* ci, Expression* e) {
           }
           output_vardecls(env, nvi, it->second());
           nvi->e()->e(rhs);
-        } else if ((reallyFlat != nullptr) && cannot_use_rhs_for_output(env, nvi->e()->e())) {
+        } else if ((reallyFlat != nullptr) && (cannot_use_rhs_for_output(env, nvi->e()->e()) ||
+                                               rhs_is_circular(reallyFlat))) {
           assert(nvi->e()->flat());
           nvi->e()->e(nullptr);
           const auto dims =
-- 
2.43.0


From cbfb23f0fa588e5824c889d93901bc7fb11d8ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 21/96] fix: tasks with zero duration do not use the resource
 in the task decompositions of cumulative

---
 share/minizinc/std/fzn_cumulative_opt_decomp.mzn | 2 +-
 share/minizinc/std/fzn_cumulative_opt_reif.mzn   | 2 +-
 share/minizinc/std/fzn_cumulative_reif.mzn       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/share/minizinc/std/fzn_cumulative_opt_decomp.mzn b/share/minizinc/std/fzn_cumulative_opt_decomp.mzn
index faeb759..96bc193 100644
--- a/share/minizinc/std/fzn_cumulative_opt_decomp.mzn
+++ b/share/minizinc/std/fzn_cumulative_opt_decomp.mzn
@@ -40,7 +40,7 @@ predicate fzn_cumulative_opt_task(
     forall (j in Tasks) (
       occurs(s[j]) ->
         b >=
-          r[j] +
+          (d[j] > 0) * r[j] +
             sum (i in Tasks where i != j) (
               (occurs(s[i]) /\ deopt(s[i]) <= deopt(s[j]) /\ deopt(s[j]) < deopt(s[i]) + d[i]) *
                 r[i]
diff --git a/share/minizinc/std/fzn_cumulative_opt_reif.mzn b/share/minizinc/std/fzn_cumulative_opt_reif.mzn
index ba8c1d4..796b8f6 100644
--- a/share/minizinc/std/fzn_cumulative_opt_reif.mzn
+++ b/share/minizinc/std/fzn_cumulative_opt_reif.mzn
@@ -63,7 +63,7 @@ predicate fzn_cumulative_opt_task_reif(
       forall (j in Tasks) (
         occurs(s[j]) ->
           b >=
-            r[j] +
+            (d[j] > 0) * r[j] +
               sum (i in Tasks where i != j) (
                 (occurs(s[i]) /\ deopt(s[i]) <= deopt(s[j]) /\ deopt(s[j]) < deopt(s[i]) + d[i]) *
                   r[i]
diff --git a/share/minizinc/std/fzn_cumulative_reif.mzn b/share/minizinc/std/fzn_cumulative_reif.mzn
index 15b5a3b..8a4b76d 100644
--- a/share/minizinc/std/fzn_cumulative_reif.mzn
+++ b/share/minizinc/std/fzn_cumulative_reif.mzn
@@ -51,6 +51,6 @@ predicate fzn_cumulative_task_reif(
   } in (
     bb <->
       forall (j in Tasks) (
-        b >= r[j] + sum (i in Tasks where i != j) ((s[i] <= s[j] /\ s[j] < s[i] + d[i]) * r[i])
+        b >= sum (i in Tasks) ((s[i] <= s[j] /\ s[j] < s[i] + d[i]) * r[i])
       )
   );
-- 
2.43.0


From 45d99f0bf6c65b0f040cdf22f9489aec2668f857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 22/96] fix: transition table of regular with states not
 starting at one

---
 share/minizinc/std/regular.mzn     | 2 +-
 share/minizinc/std/regular_nfa.mzn | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/regular.mzn b/share/minizinc/std/regular.mzn
index 856de8d..9f47f4b 100644
--- a/share/minizinc/std/regular.mzn
+++ b/share/minizinc/std/regular.mzn
@@ -49,7 +49,7 @@ predicate regular(
     any: q_off = enum2int(min(State)) - 1;
     any: dd =
       array2d(
-        State,
+        1..card(State),
         Val,
         [if occurs(d_sv) then enum2int(deopt(d_sv)) - q_off else 0 endif | d_sv in d],
       );
diff --git a/share/minizinc/std/regular_nfa.mzn b/share/minizinc/std/regular_nfa.mzn
index eb81c73..e31978e 100644
--- a/share/minizinc/std/regular_nfa.mzn
+++ b/share/minizinc/std/regular_nfa.mzn
@@ -29,7 +29,7 @@ predicate regular_nfa(
     any: State = enum2int(index_set_1of2(d));
     any: Val = enum2int(index_set_2of2(d));
     any: q_off = min(State) - 1;
-    any: dd = array2d(State, Val, [{enum2int(i) - q_off | i in d_sv} | d_sv in d]);
+    any: dd = array2d(1..card(State), Val, [{enum2int(i) - q_off | i in d_sv} | d_sv in d]);
     any: qq0 = enum2int(q0) - q_off;
     any: FF = {enum2int(i) - q_off | i in F};
   } in fzn_regular_nfa(index2int(enum2int(xs)), card(State), Val, dd, qq0, FF);
-- 
2.43.0


From 0fb6fdaa2cb86543abb9e385637aa091929a47a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 23/96] fix: decision diagram constraints over arrays whose
 index set does not start at one

---
 share/minizinc/std/cost_mdd.mzn   | 2 +-
 share/minizinc/std/mdd.mzn        | 2 +-
 share/minizinc/std/mdd_nondet.mzn | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/share/minizinc/std/cost_mdd.mzn b/share/minizinc/std/cost_mdd.mzn
index 2a3e8bc..5da4315 100644
--- a/share/minizinc/std/cost_mdd.mzn
+++ b/share/minizinc/std/cost_mdd.mzn
@@ -66,7 +66,7 @@ predicate cost_mdd(
         "cost_mdd: Two edges \(e1) and \(e2) leaving node \(from[e1]) with overlapping labels",
       )
     ) /\
-    fzn_cost_mdd(xs, N, level, E, from, label, cost, to, total_cost);
+    fzn_cost_mdd(array1d(xs), N, level, E, from, label, cost, to, total_cost);
 
 % Example consider an MDD over 3 variables
 % 5 nodes and 8 edges
diff --git a/share/minizinc/std/mdd.mzn b/share/minizinc/std/mdd.mzn
index dd298e3..2d34e69 100644
--- a/share/minizinc/std/mdd.mzn
+++ b/share/minizinc/std/mdd.mzn
@@ -57,7 +57,7 @@ predicate mdd(
         "mdd: Two edges \(e1) and \(e2) leaving node \(from[e1]) with overlapping labels",
       )
     ) /\
-    fzn_mdd(xs, N, level, E, from, label, to);
+    fzn_mdd(array1d(xs), N, level, E, from, label, to);
 
 % Example consider an MDD over 3 variables
 % 5 nodes and 12 edges
diff --git a/share/minizinc/std/mdd_nondet.mzn b/share/minizinc/std/mdd_nondet.mzn
index b5e9bf3..ddfd843 100644
--- a/share/minizinc/std/mdd_nondet.mzn
+++ b/share/minizinc/std/mdd_nondet.mzn
@@ -51,7 +51,7 @@ predicate mdd_nondet(
           "must be 1 less than level of to[\(e)] = \(levele[to[e]])",
       )
     ) /\
-    fzn_mdd_nondet(xs, N, level, E, from, label, to);
+    fzn_mdd_nondet(array1d(xs), N, level, E, from, label, to);
 
 % Example consider an MDD over 3 variables
 % 5 nodes and 12 edges
-- 
2.43.0


From 7e47e7bad512c385a39970d6c154c691f2b16842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 24/96] fix: reified regular for values outside the alphabet

---
 share/minizinc/std/fzn_regular_reif.mzn     | 13 ++++++++-----
 share/minizinc/std/fzn_regular_set_reif.mzn | 10 ++++++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/share/minizinc/std/fzn_regular_reif.mzn b/share/minizinc/std/fzn_regular_reif.mzn
index a231f38..a960127 100644
--- a/share/minizinc/std/fzn_regular_reif.mzn
+++ b/share/minizinc/std/fzn_regular_reif.mzn
@@ -35,26 +35,29 @@ predicate fzn_regular_reif(
     %   States 1..Q: original; ACC = Q+1 (only accepting state); DEAD = Q+2 (a live,
     %   non-accepting sink that original dead transitions are redirected to, so that
     %   strings rejected by a missing transition can still reach ACC with b = false).
-    %   Symbols 1..S: original; S+1 marks b = false, S+2 marks b = true.
+    %   Symbols 1..S: original; S+1 marks b = false, S+2 marks b = true; S+3 stands for
+    %   any value outside 1..S, which is always rejected.
     let {
       int: ACC = Q + 1;
       int: DEAD = Q + 2;
       int: QQ = Q + 2;
-      int: SS = S + 2;
+      int: SS = S + 3;
       array [1..QQ, 1..SS] of int: dd =
         array2d(1..QQ, 1..SS, [
           if r <= Q then
             if c <= S then (if d[r, c] = 0 then DEAD else d[r, c] endif)
             elseif c = S + 1 then (if r in F then 0 else ACC endif)
-            else (if r in F then ACC else 0 endif)
+            elseif c = S + 2 then (if r in F then ACC else 0 endif)
+            else DEAD
             endif
           elseif r = DEAD then
-            (if c <= S then DEAD elseif c = S + 1 then ACC else 0 endif)
+            (if c <= S \/ c = S + 3 then DEAD elseif c = S + 1 then ACC else 0 endif)
           else
             0
           endif
         | r in 1..QQ, c in 1..SS]);
-      array [int] of var int: y = xs ++ [S + 1 + bool2int(b)];
+      array [int] of var int: y =
+        [if x in 1..S then x else S + 3 endif | x in xs] ++ [S + 1 + bool2int(b)];
     } in
       fzn_regular(y, QQ, SS, dd, q0, {ACC})
   endif;
diff --git a/share/minizinc/std/fzn_regular_set_reif.mzn b/share/minizinc/std/fzn_regular_set_reif.mzn
index b3f9273..55da5ca 100644
--- a/share/minizinc/std/fzn_regular_set_reif.mzn
+++ b/share/minizinc/std/fzn_regular_set_reif.mzn
@@ -41,21 +41,23 @@ predicate fzn_regular_set_reif(
       int: DEAD = Q + 2;
       int: QQ = Q + 2;
       int: mx = max(S);
-      set of int: SS = min(S)..mx + 2;
+      set of int: SS = min(S)..mx + 3;
       array [1..QQ, SS] of int: dd =
         array2d(1..QQ, SS, [
           if r <= Q then
             if c <= mx then (if d[r, c] = 0 then DEAD else d[r, c] endif)
             elseif c = mx + 1 then (if r in F then 0 else ACC endif)
-            else (if r in F then ACC else 0 endif)
+            elseif c = mx + 2 then (if r in F then ACC else 0 endif)
+            else DEAD
             endif
           elseif r = DEAD then
-            (if c <= mx then DEAD elseif c = mx + 1 then ACC else 0 endif)
+            (if c <= mx \/ c = mx + 3 then DEAD elseif c = mx + 1 then ACC else 0 endif)
           else
             0
           endif
         | r in 1..QQ, c in SS]);
-      array [int] of var int: y = xs ++ [mx + 1 + bool2int(b)];
+      array [int] of var int: y =
+        [if x in S then x else mx + 3 endif | x in xs] ++ [mx + 1 + bool2int(b)];
     } in
       fzn_regular_set(y, QQ, SS, dd, q0, {ACC})
   endif;
-- 
2.43.0


From c96b3082de9491a2c0e5c231fd386a003a28e0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 25/96] fix: reified nondeterministic decision diagram can be
 false

---
 share/minizinc/std/fzn_mdd_nondet_reif.mzn | 25 ++++++----------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/share/minizinc/std/fzn_mdd_nondet_reif.mzn b/share/minizinc/std/fzn_mdd_nondet_reif.mzn
index cfbcd4f..063433e 100644
--- a/share/minizinc/std/fzn_mdd_nondet_reif.mzn
+++ b/share/minizinc/std/fzn_mdd_nondet_reif.mzn
@@ -11,22 +11,9 @@ predicate fzn_mdd_nondet_reif(
   let {
     set of int: NODE = 1..N;
     set of int: EDGE = 1..E;
-    int: L = length(xs);
-    array [0..N] of var bool: bn;
-    array [EDGE] of var bool: be;
-    set of int: D = dom_array(xs);
-  } in bn[0] /\ % true node is true
-    (b <-> bn[1]) /\ % root gives truth value
-    % T1 each node except the root enforces an outgoing edge
-    forall (n in NODE) (bn[n] -> exists (e in EDGE where from[e] = n) (be[e])) /\
-    % T23 each edge enforces its endpoints
-    forall (e in EDGE) ((be[e] -> bn[from[e]]) /\ (be[e] -> bn[to[e]])) /\
-    % T4 each edge enforces its label
-    forall (e in EDGE) (be[e] -> xs[level[from[e]]] in label[e]) /\
-    % P2 each node except the root enforces an incoming edge
-    exists (e in EDGE where to[e] = 0) (be[e]) /\
-    forall (n in 2..N) (bn[n] -> exists (e in EDGE where to[e] = n) (be[e])) /\
-    % P3 each label has a support
-    forall (i in 1..L, d in D) (
-      xs[i] = d -> exists (e in EDGE where level[from[e]] = i /\ d in label[e]) (be[e])
-    );
+    array [0..N] of var bool: bn; % nodes reachable from the root
+    array [EDGE] of var bool: be; % edges that can be taken from a reachable node
+  } in bn[1] /\ % root is always reachable
+    forall (e in EDGE) (be[e] <-> (bn[from[e]] /\ xs[level[from[e]]] in label[e])) /\
+    forall (n in 0..N where n != 1) (bn[n] <-> exists (e in EDGE where to[e] = n) (be[e])) /\
+    (b <-> bn[0]); % true node is result
-- 
2.43.0


From c012e6c7328dbc4a08d5f5446e33f75e070c2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 26/96] fix: reified table over arrays whose index set does not
 start at one

---
 share/minizinc/std/fzn_table_int_reif.mzn | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/fzn_table_int_reif.mzn b/share/minizinc/std/fzn_table_int_reif.mzn
index 90394c7..83edf8c 100644
--- a/share/minizinc/std/fzn_table_int_reif.mzn
+++ b/share/minizinc/std/fzn_table_int_reif.mzn
@@ -34,11 +34,13 @@
 %
 
 predicate fzn_table_int_reif(
-  array [int] of var int: xs,
-  array [int, int] of int: tuples,
+  array [int] of var int: xs0,
+  array [int, int] of int: tuples0,
   var bool: b,
 ) =
   let {
+    array [int] of var int: xs = array1d(xs0);
+    array [int, int] of int: tuples = array2d(1..card(index_set_1of2(tuples0)), 1..length(xs0), tuples0);
     int: n_vars = length(xs);
   } in assert(
     n_vars in 1..5,
-- 
2.43.0


From bd1353c93a833897637eeb8479a65ad1e67ad7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 27/96] fix: cost_mdd with dead-end nodes and with negative
 costs

---
 share/minizinc/std/fzn_cost_mdd.mzn | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/share/minizinc/std/fzn_cost_mdd.mzn b/share/minizinc/std/fzn_cost_mdd.mzn
index b204238..1d3626b 100644
--- a/share/minizinc/std/fzn_cost_mdd.mzn
+++ b/share/minizinc/std/fzn_cost_mdd.mzn
@@ -14,7 +14,7 @@ predicate fzn_cost_mdd(
     set of int: EDGE = 1..E;
     int: L = length(xs);
     array [1..L] of int: maxlevelcost = [
-      max (e in EDGE where level[from[e]] = l) (cost[e]) |
+      max([0] ++ [cost[e] | e in EDGE where level[from[e]] = l /\ cost[e] > 0]) |
         l in 1..L,
     ];
     array [1..L] of int: minlevelcost = [
@@ -22,7 +22,8 @@ predicate fzn_cost_mdd(
         l in 1..L,
     ];
     int: maxcost = sum(maxlevelcost);
-    set of int: COST = sum(minlevelcost)..L * (maxcost + 1);
+    int: mincost = sum(minlevelcost);
+    set of int: COST = mincost..maxcost + 1;
     array [0..N] of var bool: bn;
     array [EDGE] of var bool: be;
     array [0..N] of var COST: ln; % distance from T
@@ -50,15 +51,17 @@ predicate fzn_cost_mdd(
     un[1] = 0 /\
     forall (n in NODE) (
       ln[n] =
-        min (e in EDGE where from[e] = n) (
-          ln[to[e]] + cost[e] + (not be[e]) * (maxcost + 1 - cost[e])
-        )
+        min([maxcost + 1] ++ [
+          ln[to[e]] + cost[e] + (not be[e]) * (maxcost + 1 - mincost - cost[e]) |
+            e in EDGE where from[e] = n,
+        ])
     ) /\
     forall (n in 2..N) (
       un[n] =
-        min (e in EDGE where to[e] = n) (
-          un[from[e]] + cost[e] + (not be[e]) * (maxcost + 1 - cost[e])
-        )
+        min([maxcost + 1] ++ [
+          un[from[e]] + cost[e] + (not be[e]) * (maxcost + 1 - mincost - cost[e]) |
+            e in EDGE where to[e] = n,
+        ])
     ) /\
     forall (e in EDGE) (be[e] -> un[from[e]] + cost[e] + ln[to[e]] <= maxcost) /\
     total_cost = ln[1];
-- 
2.43.0


From 95bc5f992e7d6d7a625592d06354100080ab718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 28/96] fix: array slice with a set index keeps the enumerated
 type of its index set

---
 lib/typecheck.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/typecheck.cpp b/lib/typecheck.cpp
index 1472694..2d867e7 100644
--- a/lib/typecheck.cpp
+++ b/lib/typecheck.cpp
@@ -1572,7 +1572,9 @@ KeepAlive add_coercion(EnvI& env, Model* m, Expression* e0, const Location& loc_
           if (needInter) {
             auto* inter =
                 new BinOp(Expression::loc(aa->idx()[i]), aa->idx()[i], BOT_INTERSECT, origIdxset);
-            inter->type(Type::parsetint());
+            Type interType = Type::parsetint();
+            interType.typeId(Expression::type(origIdxset).typeId());
+            inter->type(interType);
             args.push_back(inter);
           } else if (openIntervalCall != nullptr) {
             auto* newOpenIntervalCall =
-- 
2.43.0


From 10f14c7b94a888c3e73c49d01b6c1e38e02a3841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 29/96] fix: array slice as a field of a tuple or record
 literal

---
 lib/typecheck.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/typecheck.cpp b/lib/typecheck.cpp
index 2d867e7..5f6ce8f 100644
--- a/lib/typecheck.cpp
+++ b/lib/typecheck.cpp
@@ -2003,6 +2003,10 @@ public:
              << " literals are not currently supported";
           throw TypeError(_env, Expression::loc(vi), ss.str());
         }
+        if (Expression::isa<ArrayAccess>((*al)[i]) && Expression::type((*al)[i]).dim() > 0) {
+          // Turn a slice into a call
+          al->set(i, add_coercion(_env, _model, (*al)[i], al, Expression::type((*al)[i]))());
+        }
       }
       return;
     }
-- 
2.43.0


From b6a1dc27eac2838ae620b66f12c19b052501b4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 30/96] fix: comparison of sets of float and operators with an
 empty set in par evaluation

---
 lib/eval_par.cpp | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/lib/eval_par.cpp b/lib/eval_par.cpp
index 054ce00..8761f68 100644
--- a/lib/eval_par.cpp
+++ b/lib/eval_par.cpp
@@ -1271,7 +1271,7 @@ FloatSetVal* eval_floatset(EnvI& env, Expression* e) {
       }
       Expression* lhs = eval_par(env, bo->lhs());
       Expression* rhs = eval_par(env, bo->rhs());
-      if (Expression::type(lhs).isFloatSet() && Expression::type(rhs).isFloatSet()) {
+      if (Expression::type(lhs).isSet() && Expression::type(rhs).isSet()) {
         FloatSetVal* v0 = eval_floatset(env, lhs);
         FloatSetVal* v1 = eval_floatset(env, rhs);
         FloatSetRanges fr0(v0);
@@ -1537,6 +1537,38 @@ bool eval_bool(EnvI& env, Expression* e) {
           } catch (ResultUndefinedError&) {
             return false;
           }
+        } else if ((Expression::type(lhs).isFloatSet() && Expression::type(rhs).isSet()) ||
+                   (Expression::type(lhs).isSet() && Expression::type(rhs).isFloatSet())) {
+          try {
+            GCLock lock;
+            FloatSetVal* v0 = eval_floatset(env, lhs);
+            FloatSetVal* v1 = eval_floatset(env, rhs);
+            FloatSetRanges fr0(v0);
+            FloatSetRanges fr1(v1);
+            switch (bo->op()) {
+              case BOT_LE:
+                return Ranges::less(fr0, fr1);
+              case BOT_LQ:
+                return Ranges::less_eq(fr0, fr1);
+              case BOT_GR:
+                return Ranges::less(fr1, fr0);
+              case BOT_GQ:
+                return Ranges::less_eq(fr1, fr0);
+              case BOT_EQ:
+                return Ranges::equal(fr0, fr1);
+              case BOT_NQ:
+                return !Ranges::equal(fr0, fr1);
+              case BOT_SUBSET:
+                return Ranges::subset(fr0, fr1);
+              case BOT_SUPERSET:
+                return Ranges::subset(fr1, fr0);
+              default:
+                assert(false);
+                throw EvalError(env, Expression::loc(e), "not a bool expression", bo->opToString());
+            }
+          } catch (ResultUndefinedError&) {
+            return false;
+          }
         } else if (Expression::type(lhs).isSet() && Expression::type(rhs).isSet()) {
           try {
             GCLock lock;
-- 
2.43.0


From 0a834d7568dece6ad68d5caeb164abf117e5fb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 31/96] fix: set operators on sets of bool in par evaluation

---
 lib/eval_par.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/eval_par.cpp b/lib/eval_par.cpp
index 8761f68..14e553e 100644
--- a/lib/eval_par.cpp
+++ b/lib/eval_par.cpp
@@ -1873,7 +1873,7 @@ IntSetVal* eval_boolset(EnvI& env, Expression* e) {
       }
       Expression* lhs = eval_par(env, bo->lhs());
       Expression* rhs = eval_par(env, bo->rhs());
-      if (Expression::type(lhs).isIntSet() && Expression::type(rhs).isIntSet()) {
+      if (Expression::type(lhs).isSet() && Expression::type(rhs).isSet()) {
         IntSetVal* v0 = eval_boolset(env, lhs);
         IntSetVal* v1 = eval_boolset(env, rhs);
         IntSetRanges ir0(v0);
-- 
2.43.0


From 167c572663d7f497ad3b1ea6f7ff82fe94932fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 32/96] fix: min and max of an empty float array are undefined
 rather than an error

---
 lib/builtins.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index 6c26c53..87b41de 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -724,7 +724,7 @@ FloatVal b_float_min(EnvI& env, Call* call) {
         GCLock lock;
         ArrayLit* al = eval_array_lit(env, call->arg(0));
         if (al->empty()) {
-          throw EvalError(env, Expression::loc(al), "min on empty array undefined");
+          throw ResultUndefinedError(env, Expression::loc(al), "min on empty array undefined");
         }
         FloatVal m = eval_float(env, (*al)[0]);
         for (unsigned int i = 1; i < al->size(); i++) {
@@ -749,7 +749,7 @@ FloatVal b_float_max(EnvI& env, Call* call) {
         GCLock lock;
         ArrayLit* al = eval_array_lit(env, call->arg(0));
         if (al->empty()) {
-          throw EvalError(env, Expression::loc(al), "max on empty array undefined");
+          throw ResultUndefinedError(env, Expression::loc(al), "max on empty array undefined");
         }
         FloatVal m = eval_float(env, (*al)[0]);
         for (unsigned int i = 1; i < al->size(); i++) {
-- 
2.43.0


From 5a5de07982661518b9cd9e331a5cae3ba07648a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 33/96] fix: format with a width shows values of enumerated
 types by name

---
 lib/builtins.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index 87b41de..4eae986 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -2754,23 +2754,21 @@ std::string b_format(EnvI& env, Call* call) {
   int width = 0;
   int prec = -1;
   GCLock lock;
-  Expression* e;
+  Expression* arg = call->arg(call->argCount() - 1);
   if (call->argCount() > 1) {
     width = static_cast<int>(eval_int(env, call->arg(0)).toInt());
-    if (call->argCount() == 2) {
-      e = eval_par(env, call->arg(1));
-    } else {
-      assert(call->argCount() == 3);
+    assert(call->argCount() <= 3);
+    if (call->argCount() == 3) {
       prec = static_cast<int>(eval_int(env, call->arg(1)).toInt());
       if (prec < 0) {
         throw EvalError(env, Expression::loc(call->arg(1)), "output precision cannot be negative");
       }
-      e = eval_par(env, call->arg(2));
     }
-  } else {
-    e = eval_par(env, call->arg(0));
   }
-  if (Expression::type(e) == Type::parint()) {
+  // The value of an enumerated type does not carry the type, but has to be shown by name
+  const Type type = Expression::type(arg);
+  Expression* e = eval_par(env, arg);
+  if (Expression::type(e) == Type::parint() && type.typeId() == 0) {
     IntVal i = eval_int(env, e);
     if (i.isFinite()) {
       std::ostringstream formatted;
@@ -2806,7 +2804,7 @@ std::string b_format(EnvI& env, Call* call) {
       return formatted.str();
     }
   }
-  std::string s = show(env, e);
+  std::string s = show_with_type(env, e, type, false);
   if (prec >= 0 && prec < s.size()) {
     s = s.substr(0, prec);
   }
-- 
2.43.0


From 58f84160e649b5e0b859727234d0c87f161deded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 34/96] fix: array_intersect loops forever on some sets with
 gaps

---
 lib/builtins.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index 4eae986..8c795be 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -3008,7 +3008,14 @@ IntSetVal* b_array_intersect(EnvI& env, Call* call) {
     if (!i0->empty()) {
       IntSetRanges i0r(i0);
       IntVal min = i0r.min();
-      while (i0r()) {
+      while (true) {
+        // Skip intervals of the first set that are too small
+        while (i0r() && (i0r.max() < min)) {
+          ++i0r;
+        }
+        if (!i0r()) {
+          goto done;
+        }
         // Initialize with last interval
         IntVal max = i0r.max();
         // Intersect with all other intervals
-- 
2.43.0


From a01029f180766ea8cb0bcc849d63937c24390932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 35/96] fix: sort and sort_by keep the index set of the array

---
 lib/builtins.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index 8c795be..0cb523d 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -3077,7 +3077,7 @@ Expression* b_sort_by_int(EnvI& env, Call* call) {
   for (auto i = static_cast<unsigned int>(sorted.size()); (i--) != 0U;) {
     sorted[i] = (*al)[static_cast<unsigned int>(a[i])];
   }
-  auto* al_sorted = new ArrayLit(Expression::loc(al), sorted);
+  auto* al_sorted = new ArrayLit(Expression::loc(al), sorted, {{al->min(0), al->max(0)}});
   al_sorted->type(al->type());
   return al_sorted;
 }
@@ -3102,7 +3102,7 @@ Expression* b_sort_by_float(EnvI& env, Call* call) {
   for (auto i = static_cast<unsigned int>(sorted.size()); (i--) != 0U;) {
     sorted[i] = (*al)[static_cast<unsigned int>(a[i])];
   }
-  auto* al_sorted = new ArrayLit(Expression::loc(al), sorted);
+  auto* al_sorted = new ArrayLit(Expression::loc(al), sorted, {{al->min(0), al->max(0)}});
   al_sorted->type(al->type());
   return al_sorted;
 }
@@ -3131,7 +3131,7 @@ Expression* b_sort(EnvI& env, Call* call) {
     }
   } _ord(env);
   std::sort(sorted.begin(), sorted.end(), _ord);
-  auto* al_sorted = new ArrayLit(Expression::loc(al), sorted);
+  auto* al_sorted = new ArrayLit(Expression::loc(al), sorted, {{al->min(0), al->max(0)}});
   al_sorted->type(al->type());
   return al_sorted;
 }
-- 
2.43.0


From 8203eaf603d3efc7b8a455e3112be21081bea7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 36/96] fix: membership of a variable in an empty fixed set
 read its bounds

---
 lib/flatten/flatten_binop.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index 75d5658..e238c02 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1567,7 +1567,8 @@ EE flatten_bool_op(EnvI& env, Ctx& ctx, const Ctx& ctx0, const Ctx& ctx1, Expres
       {
         GCLock lock;
         IntSetVal* dom = eval_intset(env, e1.r());
-        has_infinity = dom->min(0).isMinusInfinity() || dom->max(dom->size() - 1).isPlusInfinity();
+        has_infinity = !dom->empty() && (dom->min(0).isMinusInfinity() ||
+                                         dom->max(dom->size() - 1).isPlusInfinity());
       }
       if (has_infinity) {
         KeepAlive ka;
-- 
2.43.0


From 1a9b31b95c51ffbf13cbe402d4f46d52ff1acb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 37/96] fix: conflicting bounds found in the second pass of
 two-pass compilation lost a domain

---
 lib/flatten.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index 644f0cd..784586c 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -418,6 +418,10 @@ bool update_bounds(EnvI& envi, VarDecl* ovd, VarDecl* vd) {
           if (fixed) {
             tighter = true;
             intval = oldbounds.u == oldbounds.l ? oldbounds.u : bounds.l;
+            if (intval < oldbounds.l || intval > oldbounds.u || intval < bounds.l ||
+                intval > bounds.u) {
+              envi.fail("", Expression::loc(vd));
+            }
             ovd->ti()->domain(new SetLit(Expression::loc(ovd), IntSetVal::a(intval, intval)));
           } else {
             IntSetVal* olddom =
-- 
2.43.0


From 98b74a692bbf995bfae361f10a35f21ed0fd843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 38/96] fix: reified set order with an empty left operand in
 the no-sets library

---
 share/minizinc/std/nosets.mzn | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/minizinc/std/nosets.mzn b/share/minizinc/std/nosets.mzn
index 7795db4..c28ceea 100644
--- a/share/minizinc/std/nosets.mzn
+++ b/share/minizinc/std/nosets.mzn
@@ -183,7 +183,7 @@ predicate set_le(var set of int: s, var set of int: t) =
 
 predicate set_le_reif(var set of int: s, var set of int: t, var bool: b) =
   if ub(s) = {} then
-    true
+    b
   elseif ub(t) = {} then
     set_eq_reif(s, {}, b)
   else
-- 
2.43.0


From a960f6d0f039ff48bdba2b78ab94d9427fce78c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 39/96] fix: reified sum_set tests the values, not their
 positions

---
 share/minizinc/std/fzn_sum_set_reif.mzn | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/minizinc/std/fzn_sum_set_reif.mzn b/share/minizinc/std/fzn_sum_set_reif.mzn
index 2190346..f9d8338 100644
--- a/share/minizinc/std/fzn_sum_set_reif.mzn
+++ b/share/minizinc/std/fzn_sum_set_reif.mzn
@@ -4,4 +4,4 @@ predicate fzn_sum_set_reif(
   var set of int: selected,
   var int: total,
   var bool: b,
-) = b <-> total == sum (j in index_set(values)) ((j in selected) * weights[j]);
+) = b <-> total == sum (j in index_set(values)) ((values[j] in selected) * weights[j]);
-- 
2.43.0


From f45f3018c2d7b89288b82623d41cccf51dd2d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 40/96] fix: cardinality of an empty set literal

---
 lib/builtins.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index 0cb523d..2f6d754 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -1657,6 +1657,8 @@ IntVal b_card(EnvI& env, Call* call) {
       FloatSetRanges fsr(fsv);
       return Ranges::cardinality(fsr);
     }
+    case Type::BT_BOT:
+      return 0;  // empty set literal
     default:
       throw EvalError(env, Location(), "not implemented yet");
   }
-- 
2.43.0


From d9aed882af1675b502e11b7ee1c826663aa213f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 41/96] fix: context of the operands of a negated equivalence
 or xor

---
 lib/flatten/flatten_binop.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index e238c02..ba5f296 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1869,6 +1869,10 @@ EE flatten_binop(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, Var
       ctx.b = -ctx.b;
       bot = BOT_EQUIV;
     }
+    if (!ctx.neg) {
+      // The negation has been absorbed by the operator
+      ctx0.b = ctx1.b = ctx.b;
+    }
   }
 
   switch (bot) {
-- 
2.43.0


From 89275be320469359a8bca07a0298b0e8bf2bbbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 42/96] fix: flatten arguments and let bindings of unknown
 monotonicity in mixed context

---
 lib/flatten/flatten_call.cpp | 8 +++++---
 lib/flatten/flatten_let.cpp  | 9 +++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index d08e749..e79fa81 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -597,7 +597,8 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
                          cid != env.constants.ids.sum &&
                          cid != env.constants.ids.assert&& cid != env.constants.varRedef->id() &&
                          cid != env.constants.ids.mzn_reverse_map_var &&
-                         cid != env.constants.ids.arrayXd && cid != env.constants.ids.array2d &&
+                         cid != env.constants.ids.arrayXd && cid != env.constants.ids.array1d &&
+                         cid != env.constants.ids.array2d &&
                          cid != env.constants.ids.array3d && cid != env.constants.ids.array4d &&
                          cid != env.constants.ids.array5d && cid != env.constants.ids.array6d);
       if (cid == env.constants.ids.mzn_reverse_map_var) {
@@ -758,7 +759,8 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
                          Expression::ann(c->decl()->param(i))
                              .contains(env.constants.ctx.promise_antitone)) {
                 argctx.b = -transfer_ctx;
-              } else if (Expression::type(c->arg(i)).isbool()) {
+              } else if (Expression::type(c->arg(i)).isbool() || argctx.b != C_ROOT) {
+                // Elements of arrays in root context are flattened in a mixed context
                 argctx.b = C_MIX;
               }
             } else if (Expression::type(c->arg(i)).bt() == Type::BT_INT) {
@@ -769,7 +771,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
                          Expression::ann(c->decl()->param(i))
                              .contains(env.constants.ctx.promise_antitone)) {
                 argctx.i = -transfer_ctx;
-              } else if (Expression::type(c->arg(i)).isbool()) {
+              } else {
                 argctx.i = C_MIX;
               }
             }
diff --git a/lib/flatten/flatten_let.cpp b/lib/flatten/flatten_let.cpp
index 68bf4d7..c3f2d42 100644
--- a/lib/flatten/flatten_let.cpp
+++ b/lib/flatten/flatten_let.cpp
@@ -41,8 +41,13 @@ EE flatten_let(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b)
             } else {
               nctx.i = -transfer_ctx;
             }
-          } else if (Expression::type(vd->e()).isbool()) {
-            nctx.b = C_MIX;
+          } else if (Expression::type(vd->e()).bt() == Type::BT_BOOL) {
+            if (Expression::type(vd->e()).isbool() || nctx.b != C_ROOT) {
+              nctx.b = C_MIX;
+            }
+          } else {
+            // The value may be used in any context (and is checked against the declared domain)
+            nctx.i = C_MIX;
           }
 
           CallStackItem csi_vd(env, vd);
-- 
2.43.0


From d8699f13fb4730879d2870343b5eecd4a186406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:10 +0000
Subject: [PATCH 43/96] fix: keep the domain of a set variable unified in an
 earlier pass

---
 lib/flatten.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index 784586c..9cf1162 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -484,6 +484,24 @@ bool update_bounds(EnvI& envi, VarDecl* ovd, VarDecl* vd) {
           }
         }
       }
+    } else if (vd->type().isIntSet()) {
+      IntSetVal* olddom =
+          ovd->ti()->domain() != nullptr ? eval_intset(envi, ovd->ti()->domain()) : nullptr;
+      if (olddom != nullptr) {
+        if (vd->ti()->domain() == nullptr) {
+          tighter = true;
+        } else {
+          IntSetVal* newdom = eval_intset(envi, vd->ti()->domain());
+          IntSetRanges oisr(olddom);
+          IntSetRanges nisr(newdom);
+          Ranges::Inter<IntVal, IntSetRanges, IntSetRanges> inter(oisr, nisr);
+          IntSetVal* interdom = IntSetVal::ai(inter);
+          if (!interdom->equal(newdom)) {
+            tighter = true;
+            ovd->ti()->domain(new SetLit(Expression::loc(ovd), interdom));
+          }
+        }
+      }
     } else if (vd->type().isbool()) {
       if (ovd->ti()->domain() != nullptr) {
         fixed = tighter = true;
-- 
2.43.0


From a6fdbb520bfa3a84accb7f03e803407df7f3fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:10 +0000
Subject: [PATCH 44/96] fix: unbounded set variables for absent elements in
 array2set

---
 share/minizinc/std/fzn_array_opt_int_union.mzn | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/minizinc/std/fzn_array_opt_int_union.mzn b/share/minizinc/std/fzn_array_opt_int_union.mzn
index 9478444..282ef48 100644
--- a/share/minizinc/std/fzn_array_opt_int_union.mzn
+++ b/share/minizinc/std/fzn_array_opt_int_union.mzn
@@ -9,7 +9,7 @@ predicate fzn_array_opt_int_union(array [int] of var opt int: x, var set of int:
     y =
       array_union([
         let {
-          var set of dom(x[i]): s;
+          var set of dom(x[i]) intersect ub(y): s;
           constraint if occurs(x[i]) then deopt(x[i]) in s /\ card(s) = 1 else card(s) = 0 endif;
         } in s |
           i in index_set(x),
-- 
2.43.0


From fb2ba0d6e2b4200f7d6ce2ea141d46f7693141e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:07 +0000
Subject: [PATCH 45/96] fix: reify a builtin whose arguments became fixed
 without needing an overload with a body

---
 lib/flatten.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index 9cf1162..fb46f45 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -5419,6 +5419,21 @@ std::vector<Expression*> cleanup_vardecl(EnvI& env, VarDeclI* vdi, VarDecl* vd,
             if (decl == nullptr) {
               decl = env.model->matchReification(env, c->id(), args, canHalfReify, false);
             }
+            if (decl != nullptr && decl->e() != nullptr && c->decl() != nullptr &&
+                c->decl()->e() == nullptr && c->decl()->paramCount() == c->argCount()) {
+              // Arguments that became fixed select an overload that would need to be
+              // flattened, use the builtin for the declared parameter types instead
+              std::vector<Type> paramTypes(c->argCount());
+              for (unsigned int i = 0; i < c->argCount(); i++) {
+                paramTypes[i] = c->decl()->param(i)->type();
+              }
+              paramTypes.push_back(Type::varbool());
+              FunctionI* builtin =
+                  env.model->matchReification(env, c->id(), paramTypes, canHalfReify, false);
+              if (builtin != nullptr && builtin->e() == nullptr) {
+                decl = builtin;
+              }
+            }
             cid = (decl != nullptr) ? decl->id() : env.reifyId(c->id());
           }
           Call* nc = Call::a(Expression::loc(c).introduce(), cid, args);
-- 
2.43.0


From 31285355dec7f5b7b38b28d143778a8c86ba9a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:07 +0000
Subject: [PATCH 46/96] fix: conditional with set branches that are all empty

---
 lib/flatten/flatten_ite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_ite.cpp b/lib/flatten/flatten_ite.cpp
index 0870ceb..e655f56 100644
--- a/lib/flatten/flatten_ite.cpp
+++ b/lib/flatten/flatten_ite.cpp
@@ -471,7 +471,8 @@ EE flatten_ite(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b)
         Ranges::Union<IntVal, IntSetRanges, IntSetRanges> u(i0, i1);
         isv_branches = IntSetVal::ai(u);
       }
-      if (isv_branches->min().isFinite() || isv_branches->max().isFinite()) {
+      if (isv_branches->empty() || isv_branches->min().isFinite() ||
+          isv_branches->max().isFinite()) {
         auto* nr_in = new BinOp(Location().introduce(), nr->id(), BOT_SUBSET,
                                 new SetLit(Location().introduce(), isv_branches));
         nr_in->type(Type::varbool());
-- 
2.43.0


From f42ede8f4d88b2109c37947bdf93c702be2dde75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:07 +0000
Subject: [PATCH 47/96] fix: do not fix an optional variable whose domain
 becomes a single value

---
 lib/flatten/flatten_binop.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index ba5f296..11197c7 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1051,13 +1051,13 @@ bool flatten_dom_constraint(EnvI& env, Ctx& ctx, VarDecl* vd, Expression* dom, V
         } else {
           changeDom = true;
         }
-        if (ident->type().st() == Type::ST_PLAIN && newdom->empty()) {
+        if (ident->type().st() == Type::ST_PLAIN && !ident->type().isOpt() && newdom->empty()) {
           env.fail();
         } else if (changeDom) {
           set_computed_domain(env, ident->decl(), new SetLit(Location().introduce(), newdom),
                               false);
           if (ident->decl()->e() == nullptr && !newdom->empty() && newdom->min() == newdom->max() &&
-              !vd->type().isSet()) {
+              !vd->type().isSet() && !ident->type().isOpt()) {
             ident->decl()->e(LinearTraits<Lit>::newLit(newdom->min()));
           }
         }
-- 
2.43.0


From 7577634f6e8c843f63847a0f4b70124da4746b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:07 +0000
Subject: [PATCH 48/96] fix: range of variable bounds constrains every value
 after its domain was tightened

---
 share/minizinc/std/stdlib/stdlib_set.mzn | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/minizinc/std/stdlib/stdlib_set.mzn b/share/minizinc/std/stdlib/stdlib_set.mzn
index 1dd5a30..e097e61 100644
--- a/share/minizinc/std/stdlib/stdlib_set.mzn
+++ b/share/minizinc/std/stdlib/stdlib_set.mzn
@@ -113,7 +113,7 @@ function set of $$E: '<..'(set of $$E: s) = enum_next(min(s))..max(s);
 function var set of $$E: '..'(var $$E: a, var $$E: b) :: promise_total =
   let {
     var set of lb(a)..ub(b): s;
-    constraint forall (i in ub(s)) (i in s <-> (a <= i /\ i <= b));
+    constraint forall (i in lb(a)..ub(b)) (i in s <-> (a <= i /\ i <= b));
   } in s;
 
 /** @group stdlib.builtins.set Return the cardinality of the set \a x */
-- 
2.43.0


From 9140bd40470c6958f7371ae6ca80ade8d31b2f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:18 +0000
Subject: [PATCH 49/96] fix: Boolean operators on optional operands follow
 their definition when negated

---
 lib/flatten/flatten_binop.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index 11197c7..ad7dd2a 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1796,6 +1796,21 @@ EE flatten_binop(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, Var
     }
     return ret;
   }
+  if (bo->decl() != nullptr && bo->decl()->e() != nullptr && Expression::type(bo->lhs()).isbool() &&
+      Expression::type(bo->rhs()).isbool() &&
+      (Expression::type(bo->lhs()).isOpt() || Expression::type(bo->rhs()).isOpt())) {
+    // The meaning of absent operands is given by the definition of the operator, the laws that
+    // relate the Boolean operators to each other do not hold for them
+    KeepAlive ka;
+    {
+      GCLock lock;
+      Call* c = Call::a(Expression::loc(bo).introduce(), bo->opToString(), {bo->lhs(), bo->rhs()});
+      c->decl(bo->decl());
+      c->type(bo->type());
+      ka = c;
+    }
+    return flat_exp(env, ctx, ka(), r, b);
+  }
   if ((bo->op() == BOT_EQ || bo->op() == BOT_EQUIV) &&
       (bo->lhs() == env.constants.absent || bo->rhs() == env.constants.absent)) {
     GCLock lock;
-- 
2.43.0


From 7da0b43a259bc1e2bb9eee0f9ab01ea1ca91f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 50/96] fix: optional variable defined by an expression that
 turns out to be present

---
 lib/flatten/flatten_vardecl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/flatten/flatten_vardecl.cpp b/lib/flatten/flatten_vardecl.cpp
index be6f64c..d87eede 100644
--- a/lib/flatten/flatten_vardecl.cpp
+++ b/lib/flatten/flatten_vardecl.cpp
@@ -88,6 +88,14 @@ EE flatten_vardecl(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl
         vd->ti()->type(t);
         vd->type(t);
       }
+      if (vd->e() != nullptr && vd->type().dim() == 0 && vd->type().isOpt() &&
+          !Expression::type(vd->e()).isOpt()) {
+        // The RHS turned out to always be present
+        Type t(vd->type());
+        t.ot(Type::OT_PRESENT);
+        vd->ti()->type(t);
+        vd->type(t);
+      }
     }
 
     // Flatten the annotations now that the RHS has been bound. This is deferred
-- 
2.43.0


From 9c527967b69a7bbca74e651f44cdd323b9b04f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:51 +0000
Subject: [PATCH 51/96] fix: negated forall and exists over optional Booleans

---
 lib/flatten/flatten_call.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index e79fa81..ca567d2 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -431,6 +431,10 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
     } else {
       nctx.b = ctx.i;
     }
+  } else if ((cid == env.constants.ids.forall || cid == env.constants.ids.exists) &&
+             Expression::type(c->arg(0)).isOpt()) {
+    // Defined in terms of the present elements, the negation applies to that definition
+    nctx.b = C_MIX;
   } else if (cid == env.constants.ids.forall) {
     nctx.b = +nctx.b;
     if (ctx.neg) {
-- 
2.43.0


From 0837a3c19b71a319197bfb1a9d6b3f713d9cfd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:14 +0000
Subject: [PATCH 52/96] fix: disequality of optional Booleans

---
 share/minizinc/std/stdlib/stdlib_internal.mzn | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/share/minizinc/std/stdlib/stdlib_internal.mzn b/share/minizinc/std/stdlib/stdlib_internal.mzn
index 1df8fcb..6ad700f 100644
--- a/share/minizinc/std/stdlib/stdlib_internal.mzn
+++ b/share/minizinc/std/stdlib/stdlib_internal.mzn
@@ -111,8 +111,10 @@ predicate bool_eq(var bool: x, var opt bool: y) = occurs(y) /\ deopt(y) = x;
 
 predicate bool_xor_reif(var bool: x, var bool: y, var bool: c) = bool_xor(x, y, c);
 
+/* True iff exactly one of \a x and \a y is absent or both are present and have different values.
+   This is the disequality of optional Booleans, the operator xor has its own definition. */
 predicate bool_xor(var opt bool: x, var opt bool: y) =
-  absent(x) \/ absent(y) \/ (deopt(x) xor deopt(y));
+  (absent(x) xor absent(y)) \/ (occurs(x) /\ occurs(y) /\ (deopt(x) xor deopt(y)));
 
 predicate bool_xor(var bool: x, var bool: y) :: promise_commutative;
 
-- 
2.43.0


From f22f10d4adee8e7497b7d30abec77fa49e753b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:35 +0000
Subject: [PATCH 53/96] fix: bounds of expressions with absent operands

---
 lib/eval_par.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/eval_par.cpp b/lib/eval_par.cpp
index 14e553e..566939f 100644
--- a/lib/eval_par.cpp
+++ b/lib/eval_par.cpp
@@ -2663,6 +2663,9 @@ public:
         bounds.emplace_back(v, v);
       } else {
         valid = false;
+        if (exp == env.constants.absent) {
+          bounds.emplace_back(0, 0);
+        }
       }
       return false;
     }
-- 
2.43.0


From 38572263194777c47292a0ad8858b67b8728a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:35 +0000
Subject: [PATCH 54/96] fix: negated comparisons and conjunctions of optional
 operands

---
 lib/flatten/flatten_binop.cpp | 51 +++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index ad7dd2a..df01db8 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1796,20 +1796,49 @@ EE flatten_binop(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, Var
     }
     return ret;
   }
-  if (bo->decl() != nullptr && bo->decl()->e() != nullptr && Expression::type(bo->lhs()).isbool() &&
-      Expression::type(bo->rhs()).isbool() &&
+  if (bo->decl() != nullptr && bo->decl()->e() != nullptr &&
       (Expression::type(bo->lhs()).isOpt() || Expression::type(bo->rhs()).isOpt())) {
     // The meaning of absent operands is given by the definition of the operator, the laws that
-    // relate the Boolean operators to each other do not hold for them
-    KeepAlive ka;
-    {
-      GCLock lock;
-      Call* c = Call::a(Expression::loc(bo).introduce(), bo->opToString(), {bo->lhs(), bo->rhs()});
-      c->decl(bo->decl());
-      c->type(bo->type());
-      ka = c;
+    // relate the operators to each other do not hold for them
+    if (bo->op() == BOT_AND || bo->op() == BOT_OR) {
+      // An absent operand is the neutral element
+      KeepAlive ka;
+      {
+        GCLock lock;
+        Expression* neutral = env.constants.boollit(bo->op() == BOT_AND);
+        std::vector<Expression*> args({bo->lhs(), bo->rhs()});
+        for (auto*& arg : args) {
+          if (Expression::type(arg).isOpt()) {
+            std::vector<Expression*> dargs({arg, neutral});
+            Call* c = Call::a(Expression::loc(arg).introduce(), env.constants.ids.mzn_default,
+                              dargs);
+            c->decl(env.model->matchFn(env, c, false));
+            c->type(c->decl()->rtype(env, dargs, c, false));
+            arg = c;
+          }
+        }
+        auto* nbo = new BinOp(Expression::loc(bo).introduce(), args[0], bo->op(), args[1]);
+        nbo->type(bo->type());
+        nbo->decl(env.model->matchFn(env, nbo->opToString(), args, false));
+        ka = nbo;
+      }
+      return flat_exp(env, ctx, ka(), r, b);
+    }
+    bool isBool = Expression::type(bo->lhs()).isbool() && Expression::type(bo->rhs()).isbool();
+    bool isComparison = bo->op() == BOT_LE || bo->op() == BOT_LQ || bo->op() == BOT_GR ||
+                        bo->op() == BOT_GQ;
+    if (isBool || (isComparison && ctx.neg)) {
+      KeepAlive ka;
+      {
+        GCLock lock;
+        Call* c =
+            Call::a(Expression::loc(bo).introduce(), bo->opToString(), {bo->lhs(), bo->rhs()});
+        c->decl(bo->decl());
+        c->type(bo->type());
+        ka = c;
+      }
+      return flat_exp(env, ctx, ka(), r, b);
     }
-    return flat_exp(env, ctx, ka(), r, b);
   }
   if ((bo->op() == BOT_EQ || bo->op() == BOT_EQUIV) &&
       (bo->lhs() == env.constants.absent || bo->rhs() == env.constants.absent)) {
-- 
2.43.0


From f69abfc4ce628f3eb3223e0fde75ab9e25c1b4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:35 +0000
Subject: [PATCH 55/96] fix: keep the definition of an operator applied to
 optional operands

---
 lib/flatten/flatten_call.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index ca567d2..38ec362 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -1056,7 +1056,9 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
           auto* cr_d = env.model->matchFn(env, cr_c, false);
           if (cr_d != nullptr &&
               !cr_d->ann().contains(env.constants.ann.mzn_internal_representation) &&
-              cr_d->rtype(env, e_args, cr_c, false).isSubtypeOf(env, c->type(), false)) {
+              cr_d->rtype(env, e_args, cr_c, false).isSubtypeOf(env, c->type(), false) &&
+              // An operator without a definition is not a FlatZinc predicate
+              (!hadImplementation || cr_d->e() != nullptr || !cid.beginsWith("'"))) {
             decl = cr_d;
           }
         } catch (TypeError&) { /* NOLINT(bugprone-empty-catch) */
-- 
2.43.0


From 666e59e9fcbf33fe1858d53f08e7c74d1453d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:35 +0000
Subject: [PATCH 56/96] fix: aggregation of optional elements in comprehensions
 with variable conditions

---
 lib/flatten/flatten_comp.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/flatten/flatten_comp.cpp b/lib/flatten/flatten_comp.cpp
index eed00da..41400c5 100644
--- a/lib/flatten/flatten_comp.cpp
+++ b/lib/flatten/flatten_comp.cpp
@@ -212,8 +212,6 @@ EE flatten_comp(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b
 
       Expression* new_e;
 
-      Call* surround = env.surroundingCall();
-
       Type ntype = c->type();
 
       auto* indexes = Expression::dynamicCast<ArrayLit>(c->e());
@@ -225,6 +223,10 @@ EE flatten_comp(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b
         indexes = nullptr;
       }
 
+      // The aggregations of elements that are themselves optional need to know which are absent
+      Call* surround =
+          Expression::type(generatedExp).isOpt() ? nullptr : env.surroundingCall();
+
       if ((surround != nullptr) && surround->id() == env.constants.ids.forall) {
         new_e = new BinOp(Location().introduce(), cond, BOT_IMPL, generatedExp);
         Expression::type(new_e, Type::varbool());
-- 
2.43.0


From 31eec1819f65101b8d4d022832f7d18370b3b8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:35 +0000
Subject: [PATCH 57/96] fix: conjunctions of optional Booleans in conditionals

---
 lib/flatten/flatten_ite.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/flatten/flatten_ite.cpp b/lib/flatten/flatten_ite.cpp
index e655f56..4ffe3d5 100644
--- a/lib/flatten/flatten_ite.cpp
+++ b/lib/flatten/flatten_ite.cpp
@@ -23,8 +23,13 @@ namespace MiniZinc {
 // if-then-else branch) do not each allocate a fresh vector.
 void get_conjuncts(Expression* start, std::vector<Expression*>& conjuncts) {
   conjuncts.clear();
+  // Conjunctions with optional operands are not the conjunction of their operands
+  auto isConjunction = [](BinOp* bo) {
+    return bo->op() == BOT_AND && !Expression::type(bo->lhs()).isOpt() &&
+           !Expression::type(bo->rhs()).isOpt();
+  };
   auto* startBo = Expression::dynamicCast<BinOp>(start);
-  if (startBo == nullptr || startBo->op() != BOT_AND) {
+  if (startBo == nullptr || !isConjunction(startBo)) {
     // Common case: not a conjunction, so `start` is the single conjunct.
     // Avoids allocating the traversal stack entirely.
     conjuncts.push_back(start);
@@ -36,7 +41,7 @@ void get_conjuncts(Expression* start, std::vector<Expression*>& conjuncts) {
     Expression* e = conj_stack.back();
     conj_stack.pop_back();
     if (auto* bo = Expression::dynamicCast<BinOp>(e)) {
-      if (bo->op() == BOT_AND) {
+      if (isConjunction(bo)) {
         conj_stack.push_back(bo->rhs());
         conj_stack.push_back(bo->lhs());
       } else {
-- 
2.43.0


From a44b2ac9023f9f2ebaa3a22f7f9f6cf6ecd94344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:35 +0000
Subject: [PATCH 58/96] fix: crash when the output would need the par version
 of a function that has none

---
 lib/output.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/output.cpp b/lib/output.cpp
index d180a4a..3459a99 100644
--- a/lib/output.cpp
+++ b/lib/output.cpp
@@ -167,10 +167,9 @@ bool cannot_use_rhs_for_output(EnvI& env, Expression* e,
           origdecl = env.model->matchFn(env, name, tv, false);
         }
         if (origdecl == nullptr) {
-          std::ostringstream ss;
-          ss << "function " << demonomorphise_identifier(name)
-             << " is used in output, par version needed";
-          throw FlatteningError(env, loc, ss.str());
+          // There is no par version that could compute the value
+          success = false;
+          return nullptr;
         }
         bool seen = (seenFunctions.find(origdecl) != seenFunctions.end());
         if (seen) {
@@ -675,10 +674,12 @@ void make_par(EnvI& env, Expression* e) {
         }
       }
       auto* fi = env.output->matchFn(env, c, false);
+      if (fi == nullptr) {
+        fi = env.model->matchFn(env, c, false);
+      }
       if (fi != nullptr) {
+        // Otherwise this call has no par version, and its result cannot be computed for the output
         c->decl(fi);
-      } else {
-        c->decl(env.model->matchFn(env, c, false));
       }
     }
     void vBinOp(BinOp* bo) {
-- 
2.43.0


From 419d5d1304bbf7a1a0ed0df23c75ef8c62e6a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:35 +0000
Subject: [PATCH 59/96] fix: precedence in exclusive disjunction of optional
 Booleans

---
 share/minizinc/std/stdlib/stdlib_logic.mzn | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/stdlib/stdlib_logic.mzn b/share/minizinc/std/stdlib/stdlib_logic.mzn
index 9514d5d..825951e 100644
--- a/share/minizinc/std/stdlib/stdlib_logic.mzn
+++ b/share/minizinc/std/stdlib/stdlib_logic.mzn
@@ -62,12 +62,12 @@ function var bool: '<->'(var opt bool: x, var opt bool: y) :: promise_commutativ
 function bool: 'xor'(bool: x, bool: y) :: mzn_internal_representation :: promise_commutative;
 /** @group stdlib.builtins.logic Return truth value of \a x xor \a y */
 function bool: 'xor'(opt bool: x, opt bool: y) :: promise_commutative =
-  absent(x) \/ absent(y) \/ deopt(x) xor deopt(y);
+  absent(x) \/ absent(y) \/ (deopt(x) xor deopt(y));
 /** @group stdlib.builtins.logic Return truth value of \a x xor \a y */
 function var bool: 'xor'(var bool: x, var bool: y) :: promise_commutative;
 /** @group stdlib.builtins.logic Return truth value of \a x xor \a y */
 function var bool: 'xor'(var opt bool: x, var opt bool: y) :: promise_commutative =
-  absent(x) \/ absent(y) \/ deopt(x) xor deopt(y);
+  absent(x) \/ absent(y) \/ (deopt(x) xor deopt(y));
 /** @group stdlib.builtins.logic Return truth value of the negation of \a x */
 function bool: 'not'(bool: x) :: mzn_internal_representation;
 /** @group stdlib.builtins.logic Negation of \a x if it occurs, otherwise absent */
-- 
2.43.0


From 97b4d8b402c622076cbefcf86e2d9c4a9a3f7842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:29 +0000
Subject: [PATCH 60/96] fix: integers beyond 32 bits in JSON data

---
 include/minizinc/json_parser.hh |  2 +-
 lib/json_parser.cpp             | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/minizinc/json_parser.hh b/include/minizinc/json_parser.hh
index 6684499..2639e30 100644
--- a/include/minizinc/json_parser.hh
+++ b/include/minizinc/json_parser.hh
@@ -61,7 +61,7 @@ protected:
   Token readTokenInternal(std::istream& is);
   void expectToken(std::istream& is, TokenT t);
   std::string expectString(std::istream& is);
-  int expectInt(std::istream& is);
+  long long int expectInt(std::istream& is);
   void expectEof(std::istream& is);
   Expression* parseEnumDef(std::istream& is);
   Expression* parseEnumConstructorDef(std::istream& is, const std::string& seen);
diff --git a/lib/json_parser.cpp b/lib/json_parser.cpp
index cc5f1e8..245e8d2 100644
--- a/lib/json_parser.cpp
+++ b/lib/json_parser.cpp
@@ -36,13 +36,13 @@ protected:
 public:
   Token() : t(T_EOF) {}
   std::string s;
-  int i;
+  long long int i;
   double d;
   bool b;
   Token(std::string s0) : t(T_STRING), s(std::move(s0)) {}
-  Token(int i0) : t(T_INT), i(i0), d(i0) {}
+  Token(long long int i0) : t(T_INT), i(i0), d(static_cast<double>(i0)) {}
   Token(double d0) : t(T_FLOAT), d(d0) {}
-  Token(bool b0) : t(T_BOOL), i(static_cast<int>(b0)), d(static_cast<double>(b0)), b(b0) {}
+  Token(bool b0) : t(T_BOOL), i(static_cast<long long int>(b0)), d(static_cast<double>(b0)), b(b0) {}
   static Token listOpen() { return Token(T_LIST_OPEN); }
   static Token listClose() { return Token(T_LIST_CLOSE); }
   static Token objOpen() { return Token(T_OBJ_OPEN); }
@@ -351,8 +351,11 @@ JSONParser::Token JSONParser::readToken(istream& is) {
         } else {
           is.unget();
           std::istringstream iss(result);
-          int v;
+          long long int v;
           iss >> v;
+          if (iss.fail()) {
+            throw JSONError(_env, errLocation(), "integer out of range `" + result + "'");
+          }
           state = S_NOTHING;
           return Token(v);
         }
@@ -409,7 +412,7 @@ string JSONParser::expectString(istream& is) {
   return rt.s;
 }
 
-int JSONParser::expectInt(istream& is) {
+long long int JSONParser::expectInt(istream& is) {
   Token rt = readToken(is);
   if (rt.t != T_INT) {
     throw JSONError(_env, errLocation(), "unexpected token, expected int");
@@ -540,7 +543,7 @@ Expression* JSONParser::parseEnumObject(std::istream& is, const std::string& see
   auto key = seen;
   Expression* e;
   std::string c;
-  int i = -1;
+  long long int i = -1;
 
   for (;;) {
     if (key == "e") {
-- 
2.43.0


From 17a8918d5ea4eca9709cb8512d081b6778099bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:17 +0000
Subject: [PATCH 61/96] fix: arrays and tuples nested in tuples and empty
 arrays in JSON data

---
 lib/json_parser.cpp | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/lib/json_parser.cpp b/lib/json_parser.cpp
index 245e8d2..a590466 100644
--- a/lib/json_parser.cpp
+++ b/lib/json_parser.cpp
@@ -774,11 +774,24 @@ Expression* JSONParser::parseArray(std::istream& is, TypeInst* ti, size_t range_
   vector<Expression*> exps;
   Token next = readToken(is);
 
+  // If parsing a tuple, then the type of a field is retrieved from its domain
+  bool isTuple = ti != nullptr && range_index >= ti->ranges().size() &&
+                 ti->type().bt() == Type::BT_TUPLE && !ti->type().isSet();
+  auto fieldTI = [&]() -> TypeInst* {
+    auto* dom = Expression::cast<ArrayLit>(ti->domain());
+    return exps.size() < dom->size()
+               ? Expression::cast<TypeInst>((*dom)[static_cast<unsigned int>(exps.size())])
+               : nullptr;
+  };
+
   while (next.t != T_LIST_CLOSE) {
     switch (next.t) {
       case T_LIST_OPEN: {
-        // Create element TI once
-        exps.push_back(parseArray(is, ti, ti == nullptr ? 0 : range_index + 1));
+        if (isTuple) {
+          exps.push_back(parseArray(is, fieldTI()));
+        } else {
+          exps.push_back(parseArray(is, ti, ti == nullptr ? 0 : range_index + 1));
+        }
         break;
       }
       case T_COMMA:
@@ -804,15 +817,7 @@ Expression* JSONParser::parseArray(std::istream& is, TypeInst* ti, size_t range_
         exps.push_back(_env.constants.absent);
         break;
       case T_OBJ_OPEN: {
-        TypeInst* elTI = ti;
-        if (ti != nullptr && ti->type().bt() == Type::BT_TUPLE) {
-          // If parsing a tuple, then retrieve field TI from domain
-          auto* dom = Expression::cast<ArrayLit>(ti->domain());
-          if (exps.size() < dom->size()) {
-            elTI = Expression::cast<TypeInst>((*dom)[static_cast<unsigned int>(exps.size())]);
-          }
-        }
-        exps.push_back(parseObject(is, elTI));
+        exps.push_back(parseObject(is, isTuple ? fieldTI() : ti));
         break;
       }
       default:
@@ -884,6 +889,11 @@ Expression* JSONParser::coerceArray(TypeInst* ti, ArrayLit* al) {
   const Location& loc = Expression::loc(al);
 
   if (al->empty()) {
+    if (ti->type().dim() > 1) {
+      // Only the number of dimensions matters
+      return new ArrayLit(loc, std::vector<Expression*>(),
+                          std::vector<std::pair<int, int>>(ti->type().dim(), {1, 0}));
+    }
     return al;  // Nothing to coerce
   }
 
-- 
2.43.0


From 4b79e84b4f614ec2694df73d4e49d4db2c5deed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:17 +0000
Subject: [PATCH 62/96] fix: sets of Booleans in JSON output

---
 lib/builtins.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index 2f6d754..2605b03 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -2556,7 +2556,12 @@ std::string b_show_json_basic(EnvI& env, Expression* e, Type t) {
         } else {
           oss << ",";
         }
-        if (isr.min() == isr.max()) {
+        if (t.bt() == Type::BT_BOOL) {
+          oss << (isr.min() == 0 ? "false" : "true");
+          if (isr.min() != isr.max()) {
+            oss << ",true";
+          }
+        } else if (isr.min() == isr.max()) {
           oss << isr.min();
         } else {
           oss << "[" << isr.min() << "," << isr.max() << "]";
-- 
2.43.0


From e2168e4859abd087df4442a9d9b932106b37258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:17 +0000
Subject: [PATCH 63/96] fix: array_index_shift of empty arrays

---
 share/minizinc/std/stdlib/stdlib_array.mzn | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/share/minizinc/std/stdlib/stdlib_array.mzn b/share/minizinc/std/stdlib/stdlib_array.mzn
index c1cbb16..6c5e9b7 100644
--- a/share/minizinc/std/stdlib/stdlib_array.mzn
+++ b/share/minizinc/std/stdlib/stdlib_array.mzn
@@ -533,7 +533,9 @@ function array [$T] of any $V: arrayXd(array [$T] of any $X: x, array [$U] of an
   starting at the minimum value of \a idx.
 */
 function set of $$E: shift_index_set(set of $$E: idx, set of $$F: s) =
-  min(idx)..to_enum(enum_of(idx), enum2int(min(idx))+card(s)-1);
+  if card(idx) = 0 then idx
+  else min(idx)..to_enum(enum_of(idx), enum2int(min(idx))+card(s)-1)
+  endif;
 
 /** @group stdlib.builtins.array Return array \a y with its index set shifted to start at \a idx. */
 function array[$$E] of any $V: array_index_shift(set of $$E: idx, array[$$F] of any $V: y) =
-- 
2.43.0


From ebba874231e9b4a696a0fbb49a13a32d4e8efea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:18 +0000
Subject: [PATCH 64/96] fix: index sets of arrays inside tuples and records in
 DZN output

---
 lib/prettyprinter.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index fcbb27e..6a634a7 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -18,6 +18,7 @@
 #include <minizinc/hash.hh>
 #include <minizinc/iter.hh>
 #include <minizinc/model.hh>
+#include <minizinc/output.hh>
 #include <minizinc/prettyprinter.hh>
 #include <minizinc/type.hh>
 #include <minizinc/typecheck.hh>
@@ -2674,13 +2675,35 @@ std::string show_with_type(EnvI& env, Expression* exp, Type t, bool showDzn) {
       al = eval_array_lit(env, (*al)[0]);
       al_t = env.getTransparentType(t);
     }
+    // Arrays inside tuples and records need their index sets unless they start at one
+    auto showField = [&](Expression* field, Type field_t) {
+      std::string s = show_with_type(env, field, field_t, showDzn);
+      if (!showDzn || field_t.dim() == 0) {
+        return s;
+      }
+      ArrayLit* fal = eval_array_lit(env, field);
+      auto enumId = [&](unsigned int j) {
+        return field_t.typeId() == 0 ? 0U : env.getArrayEnum(field_t.typeId())[j];
+      };
+      if (fal->dims() == 1 && (fal->min(0) == 1 || enumId(0) != 0)) {
+        return s;
+      }
+      std::ostringstream foss;
+      foss << "array" << fal->dims() << "d(";
+      for (unsigned int j = 0; j < fal->dims(); j++) {
+        display_enum_range(foss, env, fal->min(j), fal->max(j), enumId(j));
+        foss << ", ";
+      }
+      foss << s << ")";
+      return foss.str();
+    };
     oss << (al->isTuple() ? "(" : "[");
     if (al->type().isrecord()) {
       RecordType* rt = env.getRecordType(al->type());
       assert(al->size() == rt->size());
       for (unsigned int i = 0; i < al->size(); i++) {
         oss << Printer::quoteId(rt->fieldName(i)) << ": "
-            << show_with_type(env, (*al)[i], (*rt)[i], showDzn);
+            << showField((*al)[i], (*rt)[i]);
         if (i < al->size() - 1) {
           oss << ", ";
         }
@@ -2688,7 +2711,7 @@ std::string show_with_type(EnvI& env, Expression* exp, Type t, bool showDzn) {
     } else if (al->type().istuple()) {
       TupleType* tt = env.getTupleType(al->type());
       for (unsigned int i = 0; i < al->size(); i++) {
-        oss << show_with_type(env, (*al)[i], (*tt)[i], showDzn);
+        oss << showField((*al)[i], (*tt)[i]);
         if (i < al->size() - 1) {
           oss << ", ";
         }
-- 
2.43.0


From 64d5c5a1bd02d3b1b31302ddf45eda7f49c3c7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:11 +0000
Subject: [PATCH 65/96] fix: sets of integers used as sets of floats become
 arrays

---
 share/minizinc/std/stdlib/stdlib_coercion.mzn | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/share/minizinc/std/stdlib/stdlib_coercion.mzn b/share/minizinc/std/stdlib/stdlib_coercion.mzn
index dea8b11..893adea 100644
--- a/share/minizinc/std/stdlib/stdlib_coercion.mzn
+++ b/share/minizinc/std/stdlib/stdlib_coercion.mzn
@@ -82,6 +82,8 @@ function array [$T] of var int: bool2int(array [$T] of var bool: x);
 function var float: bool2float(var bool: x) = int2float(bool2int(x));
 /** @group stdlib.builtins.coercion Return integer \a x coerced to a float  */
 function float: int2float(int: x);
+/** @group stdlib.builtins.coercion Convert set \a x of integers to a set of floats */
+function set of float: int2float(set of int: x) = { int2float(i) | i in x };
 /** @group stdlib.builtins.coercion Return integer \a x coerced to a float  */
 function opt float: int2float(opt int: x) = if occurs(x) then int2float(deopt(x)) else <> endif;
 /** @group stdlib.builtins.coercion Return integer \a x coerced to a float  */
@@ -166,6 +168,12 @@ function array [$T] of float: int2float(array [$T] of int: x) :: promise_total =
     array [int] of int: xx = array1d(x);
   } in arrayXd(x, [int2float(xx[i]) | i in index_set(xx)]);
 
+/** @group stdlib.builtins.coercion Return array of sets of integers \a x coerced to an array of sets of floats  */
+function array [$T] of set of float: int2float(array [$T] of set of int: x) :: promise_total =
+  let {
+    array [int] of set of int: xx = array1d(x);
+  } in arrayXd(x, [int2float(xx[i]) | i in index_set(xx)]);
+
 /** @group stdlib.builtins.coercion Return array of integers \a x coerced to an array of floats  */
 function array [$T] of opt float: int2float(array [$T] of opt int: x) :: promise_total =
   let {
-- 
2.43.0


From 926ef9856a5c5752472ceb0e516a16e3465bc837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:11 +0000
Subject: [PATCH 66/96] fix: empty inner dimensions of arrays in JSON data

---
 lib/json_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/json_parser.cpp b/lib/json_parser.cpp
index a590466..25c2f78 100644
--- a/lib/json_parser.cpp
+++ b/lib/json_parser.cpp
@@ -937,6 +937,9 @@ Expression* JSONParser::coerceArray(TypeInst* ti, ArrayLit* al) {
         }
       }
     }
+    while (dims.size() < ti->type().dim()) {
+      dims.emplace_back(1, 0);
+    }
     al = new ArrayLit(Expression::loc(al), elements, dims);
   }
 
-- 
2.43.0


From 1a1bac10a44515ade24c0feebbb48f4e556c8830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:09 +0000
Subject: [PATCH 67/96] fix: array_index_shift of empty arrays over enumerated
 types

---
 share/minizinc/std/stdlib/stdlib_array.mzn | 1 +
 1 file changed, 1 insertion(+)

diff --git a/share/minizinc/std/stdlib/stdlib_array.mzn b/share/minizinc/std/stdlib/stdlib_array.mzn
index 6c5e9b7..3e02859 100644
--- a/share/minizinc/std/stdlib/stdlib_array.mzn
+++ b/share/minizinc/std/stdlib/stdlib_array.mzn
@@ -534,6 +534,7 @@ function array [$T] of any $V: arrayXd(array [$T] of any $X: x, array [$U] of an
 */
 function set of $$E: shift_index_set(set of $$E: idx, set of $$F: s) =
   if card(idx) = 0 then idx
+  elseif card(s) = 0 then idx diff idx
   else min(idx)..to_enum(enum_of(idx), enum2int(min(idx))+card(s)-1)
   endif;
 
-- 
2.43.0


From 8fa806e0996b327cdecdf04c8dbdd7fb71bdea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:59 +0000
Subject: [PATCH 68/96] fix: options given after --ozn-file had no effect

---
 include/minizinc/solns2out.hh |  4 ++++
 lib/solns2out.cpp             | 10 +++++++++-
 lib/solver.cpp                |  1 +
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/minizinc/solns2out.hh b/include/minizinc/solns2out.hh
index 27b64cc..1d579ef 100644
--- a/include/minizinc/solns2out.hh
+++ b/include/minizinc/solns2out.hh
@@ -108,6 +108,9 @@ public:
   /// The output model (~.ozn) can be passed in 1 way in this base class:
   /// passing Env* containing output()
   bool initFromEnv(Env* pE);
+  /// Or read from the file given by the --ozn-file option, to be called after
+  /// all options have been processed
+  void initFromOznFile();
 
   /// Then, variable assignments can be passed either as text
   /// or put directly into envi()->output() ( latter done externally
@@ -161,6 +164,7 @@ private:
   std::unique_ptr<std::ostream> _outStreamRaw;
   std::set<std::string> _sSolsCanon;
   std::string _linePart;  // non-finished line from last chunk
+  std::string _oznFile;   // output specification to load once all options are processed
 
   /// Initialise from ozn file
   void initFromOzn(const std::string& filename);
diff --git a/lib/solns2out.cpp b/lib/solns2out.cpp
index a59a48b..16507a4 100644
--- a/lib/solns2out.cpp
+++ b/lib/solns2out.cpp
@@ -66,7 +66,8 @@ bool Solns2Out::processOption(int& i, std::vector<std::string>& argv,
   CLOParser cop(i, argv);
   std::string buffer;
   if (cop.getOption("--ozn-file", &buffer)) {
-    initFromOzn(FileUtils::file_path(buffer, workingDir));
+    // Loaded once all options have been processed
+    _oznFile = FileUtils::file_path(buffer, workingDir);
   } else if (cop.getOption("-o --output-to-file", &buffer)) {
     opt.flagOutputFile = buffer;
   } else if (cop.getOption("--no-flush-output")) {
@@ -133,6 +134,13 @@ bool Solns2Out::processOption(int& i, std::vector<std::string>& argv,
   return true;
 }
 
+void Solns2Out::initFromOznFile() {
+  if (!_oznFile.empty()) {
+    initFromOzn(_oznFile);
+    _oznFile.clear();
+  }
+}
+
 bool Solns2Out::initFromEnv(Env* pE) {
   assert(pE);
   _env = pE;
diff --git a/lib/solver.cpp b/lib/solver.cpp
index ab25ec0..fc36d29 100644
--- a/lib/solver.cpp
+++ b/lib/solver.cpp
@@ -1061,6 +1061,7 @@ SolverInstance::Status MznSolver::run(const std::vector<std::string>& args0,
       case OPTION_FINISH:
         return SolverInstance::NONE;
       case OPTION_OK:
+        s2out.initFromOznFile();
         break;
     }
   } catch (BadOption& e) {
-- 
2.43.0


From aea71a1fe860507e2eaa6c2d67b4449f5e3dc963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:08 +0000
Subject: [PATCH 69/96] fix: functions shared by array dimensions copied twice
 into the output model

---
 lib/output.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/output.cpp b/lib/output.cpp
index 3459a99..729a551 100644
--- a/lib/output.cpp
+++ b/lib/output.cpp
@@ -1758,6 +1758,8 @@ void create_output(EnvI& e, FlatteningOptions::OutputMode outputMode, bool outpu
   class CollectFunctions : public EVisitor {
   public:
     EnvI& env;
+    /// Copies in the output model of functions of the model
+    std::unordered_map<FunctionI*, FunctionI*> copies;
     CollectFunctions(EnvI& env0) : env(env0) {}
     bool enter(Expression* e) {
       if (Expression::type(e).isvar()) {
@@ -1818,8 +1820,14 @@ void create_output(EnvI& e, FlatteningOptions::OutputMode outputMode, bool outpu
           throw FlatteningError(env, Expression::loc(c), ss.str());
         }
         if (!origdecl->fromStdLib()) {
-          auto* decl_copy = copy(env, env.cmap, origdecl)->cast<FunctionI>();
-          if (decl_copy != decl) {
+          auto prev = copies.find(origdecl);
+          auto* decl_copy = prev != copies.end()
+                                ? prev->second
+                                : copy(env, env.cmap, origdecl)->cast<FunctionI>();
+          if (prev != copies.end()) {
+            decl = decl_copy;
+          } else if (decl_copy != decl) {
+            copies.emplace(origdecl, decl_copy);
             decl = decl_copy;
             (void)env.output->registerFn(env, decl, true);
             env.output->addItem(decl);
-- 
2.43.0


From f545532592da55e2cd2eeb8b3508529f9a1daebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:17 +0000
Subject: [PATCH 70/96] fix: empty output sections written with a type that
 cannot be read

---
 lib/output.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/output.cpp b/lib/output.cpp
index 729a551..7fd19d8 100644
--- a/lib/output.cpp
+++ b/lib/output.cpp
@@ -1683,7 +1683,12 @@ void create_output(EnvI& e, FlatteningOptions::OutputMode outputMode, bool outpu
       continue;
     }
     ASTExprVec<TypeInst> r({new TypeInst(Location().introduce(), Type::parint())});
-    auto* ti = new TypeInst(Location().introduce(), Expression::type(it.e), r);
+    // An empty array literal does not have a type that can be written in the output model
+    Type sectionType = Expression::type(it.e);
+    if (sectionType.bt() == Type::BT_BOT) {
+      sectionType.bt(Type::BT_STRING);
+    }
+    auto* ti = new TypeInst(Location().introduce(), sectionType, r);
     auto* vd = new VarDecl(Location().introduce(), ti, e.genId(), it.e);
     vd->toplevel(false);
     it.e = vd->id();
-- 
2.43.0


From d718a7d7a757b6ca32b7ba4fdc1d95dccb1c872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:02 +0000
Subject: [PATCH 71/96] fix: conditionals over tuples and records nested in
 tuples and records

---
 lib/flatten/flatten_ite.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_ite.cpp b/lib/flatten/flatten_ite.cpp
index 4ffe3d5..1e355af 100644
--- a/lib/flatten/flatten_ite.cpp
+++ b/lib/flatten/flatten_ite.cpp
@@ -109,7 +109,7 @@ Expression* ite_struct_split(EnvI& env, Type ty, const std::vector<Expression*>&
       std::vector<Expression*> f_then_in(then_decl.size());
       for (int j = 0; j < then_decl.size(); ++j) {
         f_then_in[j] =
-            new FieldAccess(Location().introduce(), then_decl[i]->id(), IntLit::a(i + 1));
+            new FieldAccess(Location().introduce(), then_decl[j]->id(), IntLit::a(i + 1));
         Expression::type(f_then_in[j], field);
       }
       Expression* f_else_in =
-- 
2.43.0


From e8c9b2e0f31d32f22c9d6747bbce7f6254ab1eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:02 +0000
Subject: [PATCH 72/96] fix: fields of conditional tuples and records unified
 with multi-pass compilation

---
 lib/flatten/flatten_ite.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/flatten/flatten_ite.cpp b/lib/flatten/flatten_ite.cpp
index 1e355af..c38b8ef 100644
--- a/lib/flatten/flatten_ite.cpp
+++ b/lib/flatten/flatten_ite.cpp
@@ -105,6 +105,8 @@ Expression* ite_struct_split(EnvI& env, Type ty, const std::vector<Expression*>&
 
   for (unsigned int i = 0; i < st->size(); ++i) {
     Type field = (*st)[i];
+    // The fields are different variables, so they need different paths
+    CallStackItem csi(env, IntLit::a(i + 1));
     if (field.structBT()) {
       std::vector<Expression*> f_then_in(then_decl.size());
       for (int j = 0; j < then_decl.size(); ++j) {
-- 
2.43.0


From 797c22d2c203d8f8300fbb1b0669f2f84c51c1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:02 +0000
Subject: [PATCH 73/96] fix: fixed comparison of tuples and records that
 contain arrays

---
 lib/eval_par.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/eval_par.cpp b/lib/eval_par.cpp
index 566939f..bf5f4ef 100644
--- a/lib/eval_par.cpp
+++ b/lib/eval_par.cpp
@@ -1651,6 +1651,10 @@ bool eval_bool(EnvI& env, Expression* e) {
                     GCLock lock;
                     binop = new BinOp(Location().introduce(), parA, BOT_LE, parB);
                     Expression::type(binop(), Type::parbool());
+                    // Arrays are compared by library functions
+                    auto* lt = Expression::cast<BinOp>(binop());
+                    lt->decl(env.model->matchFn(env, lt->opToString(),
+                                                std::vector<Expression*>({parA, parB}), false));
                   }
                   return eval_bool(env, binop());
                 }
-- 
2.43.0


From e4f6d1d142fe961d5b03417eec6838ef92d51fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:02 +0000
Subject: [PATCH 74/96] fix: fixed membership of tuples and records in arrays

---
 lib/eval_par.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/eval_par.cpp b/lib/eval_par.cpp
index bf5f4ef..130712f 100644
--- a/lib/eval_par.cpp
+++ b/lib/eval_par.cpp
@@ -1679,7 +1679,7 @@ bool eval_bool(EnvI& env, Expression* e) {
               case BOT_IN: {
                 // Note: tup1 is an array of tuples
                 for (unsigned int i = 0; i < struct1->size(); ++i) {
-                  if (struct_equal(struct0, eval_array_lit(env, (*struct1)[0]))) {
+                  if (struct_equal(struct0, eval_array_lit(env, (*struct1)[i]))) {
                     return true;
                   }
                 }
-- 
2.43.0


From 11acf6085c5beb12b941235a2a41fb6ffb9002ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:23 +0000
Subject: [PATCH 75/96] fix: negated comparisons of tuples and records, and
 undefined operands of them

---
 lib/flatten/flatten_binop.cpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index df01db8..8210fd5 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1346,7 +1346,7 @@ ArrayLit* struct_as_table(EnvI& env, ArrayLit* table, ArrayLit* obj) {
 }
 
 EE rewrite_struct_op(EnvI& env, Ctx& ctx, Expression* lhs, BinOpType bot, Expression* rhs,
-                     bool doubleNeg, VarDecl* r, VarDecl* b) {
+                     VarDecl* r, VarDecl* b) {
   KeepAlive rewrite = nullptr;
   ArrayLit* tupLHS = eval_array_lit(env, lhs);
   ArrayLit* tupRHS = eval_array_lit(env, rhs);
@@ -1631,7 +1631,35 @@ EE flatten_bool_op(EnvI& env, Ctx& ctx, const Ctx& ctx0, const Ctx& ctx1, Expres
     if ((Expression::type(e0.r()).istuple() || Expression::type(e0.r()).isrecord()) &&
         (isBuiltin || (bot == BOT_IN && check_struct_table(env, Expression::type(e0.r()),
                                                            Expression::type(e1.r()))))) {
-      return rewrite_struct_op(env, ctx, e0.r(), bot, e1.r(), doubleNeg, r, b);
+      Ctx structCtx = ctx;
+      if (doubleNeg) {
+        structCtx.b = -ctx.b;
+        structCtx.neg = !ctx.neg;
+      }
+      if (istrue(env, e0.b()) && istrue(env, e1.b())) {
+        ret.r =
+            rewrite_struct_op(env, structCtx, e0.r(), bot, e1.r(), r, ctx.partialityVar(env)).r;
+        return ret;
+      }
+      // conj() negates all of its operands if ctx.neg is set
+      if (structCtx.neg) {
+        structCtx.b = -structCtx.b;
+        structCtx.neg = false;
+      }
+      ees[2].b = rewrite_struct_op(env, structCtx, e0.r(), bot, e1.r(), nullptr,
+                                   env.constants.varTrue)
+                     .r;
+      if (doubleNeg) {
+        GCLock lock;
+        Type t = Expression::type(ees[2].b());
+        ees[2].b = new UnOp(Location().introduce(), UOT_NOT, ees[2].b());
+        Expression::type(ees[2].b(), t);
+      }
+      if (Id* id = Expression::dynamicCast<Id>(ees[2].b())) {
+        env.addCtxAnn(id->decl(), ctx.b);
+      }
+      ret.r = conj(env, r, ctx, ees);
+      return ret;
     }
     args.push_back(e0.r);
     args.push_back(e1.r);
-- 
2.43.0


From 8d2e4ee6c88c975e304c4d3c1345fde588871ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:29 +0000
Subject: [PATCH 76/96] fix: crash when the type of an array element that is a
 tuple or record has no domain

---
 lib/flatten.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index fb46f45..7101d39 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -2870,7 +2870,7 @@ KeepAlive compute_combined_domain(EnvI& env, TypeInst* ti, Expression* cur) {
   if (Expression::type(cur).structBT()) {
     auto* tl = Expression::dynamicCast<ArrayLit>(
         Expression::isa<Id>(cur) ? Expression::cast<Id>(cur)->decl()->e() : cur);
-    if (tl != nullptr) {
+    if (tl != nullptr && ti->domain() != nullptr) {
       auto* tis = Expression::cast<ArrayLit>(ti->domain());
       assert(tis->size() == tl->size() || (tis->size() == 2 && tl->size() == 1));
       unsigned int tis_size = tis->size() == tl->size() ? tis->size() : 1;
-- 
2.43.0


From 378c5618bf26259b48b9df58356c956bcbdbb925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:53 +0000
Subject: [PATCH 77/96] fix: variables of structured types in local
 declarations of fixed expressions

---
 lib/eval_par.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/eval_par.cpp b/lib/eval_par.cpp
index 130712f..0498e9f 100644
--- a/lib/eval_par.cpp
+++ b/lib/eval_par.cpp
@@ -207,6 +207,10 @@ void check_par_domain(EnvI& env, VarDecl* vd, Expression* rhs, int argNumber,
 }
 
 void check_par_declaration(EnvI& env, VarDecl* vd) {
+  if (!vd->type().isPar()) {
+    // A variable of a let expression whose value does not depend on it
+    return;
+  }
   check_index_sets(env, vd, vd->e());
   check_par_domain(env, vd, vd->e());
 }
-- 
2.43.0


From 343b9d78d653d1fa0c8479851e9ca6dd22197351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:53 +0000
Subject: [PATCH 78/96] fix: membership of tuples and records in arrays with
 variable fields

---
 lib/flatten/flatten_binop.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index 8210fd5..9edd185 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1093,7 +1093,7 @@ bool flatten_dom_constraint(EnvI& env, Ctx& ctx, VarDecl* vd, Expression* dom, V
 /// converted to an table constraint as an optimization.
 bool check_struct_table(EnvI& env, Type elem_t, Type arr_t) {
   assert(elem_t.structBT() && arr_t.structBT());  // No need to check otherwise
-  if (arr_t.isvar()) {
+  if (arr_t.isvar() || arr_t.cv()) {
     // Cannot be made into a table
     return false;
   }
-- 
2.43.0


From 859a32fd9b66356e2ff1684c8c5418112773d017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:14 +0000
Subject: [PATCH 79/96] fix: Boolean variables defined by expressions that turn
 out to be fixed during compilation

---
 lib/flatten.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index 7101d39..87ab09f 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -3313,7 +3313,7 @@ KeepAlive bind(EnvI& env, Ctx ctx, VarDecl* vd, Expression* e) {
         c->decl(env.model->matchFn(env, c, false));
         c->type(c->decl()->rtype(env, args, nullptr, false));
         bool didRewrite = false;
-        if (c->decl()->e() != nullptr) {
+        if (vd->type().isvar() && c->decl()->e() != nullptr) {
           flat_exp(env, Ctx(), c, env.constants.varTrue, env.constants.varTrue);
           didRewrite = true;
         }
-- 
2.43.0


From e2e92bc85625eaf3bee672dd0d07171b9737ce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:00 +0000
Subject: [PATCH 80/96] fix: type of arrays and conditionals that mix fixed and
 variable tuples or records

---
 lib/flatten.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index 87ab09f..7164f9e 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -1473,6 +1473,9 @@ Type EnvI::commonTuple(Type tuple1, Type tuple2, bool ignoreTuple1Dim, bool stri
   }
   tuple1.typeId(typeId);
   tuple1.cv(tuple1.cv() || tuple2.cv());
+  if (tuple2.isvar()) {
+    tuple1.ti(Type::TI_VAR);
+  }
   if (tuple1.isOpt() || tuple2.isOpt()) {
     if (tuple1.isvar() || tuple2.isvar()) {
       // `var opt' tuples are not supported, so there is no common type
@@ -1543,6 +1546,9 @@ Type EnvI::commonRecord(Type record1, Type record2, bool ignoreRecord1Dim, bool
   }
   record1.typeId(typeId);
   record1.cv(record1.cv() || record2.cv());
+  if (record2.isvar()) {
+    record1.ti(Type::TI_VAR);
+  }
   if (record1.isOpt() || record2.isOpt()) {
     if (record1.isvar() || record2.isvar()) {
       // `var opt' records are not supported, so there is no common type
-- 
2.43.0


From 98886b7b4bde5c316a240c574fb980faf1f67192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:48 +0000
Subject: [PATCH 81/96] fix: variables of different values unified with
 multi-pass compilation

Paths that contain the names of introduced variables do not identify the same
value in every pass, and introduced elements of a literal shared one path.
---
 include/minizinc/flat_exp.hh     |  4 ++++
 lib/flatten.cpp                  | 31 +++++++++++++++++++++++++++++--
 lib/flatten/flat_exp.cpp         |  8 ++++++++
 lib/flatten/flatten_arraylit.cpp |  4 ++--
 lib/flatten/flatten_call.cpp     | 11 +++++++----
 5 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/include/minizinc/flat_exp.hh b/include/minizinc/flat_exp.hh
index 9ba671e..93efec4 100644
--- a/include/minizinc/flat_exp.hh
+++ b/include/minizinc/flat_exp.hh
@@ -30,6 +30,10 @@ VarDecl* new_vardecl(EnvI& env, const Ctx& ctx, TypeInst* ti, Id* origId, VarDec
 
 KeepAlive flat_cv_exp(EnvI& env, Ctx ctx, Expression* e);
 
+/// Flatten element \a i of a sequence of expressions. Introduced expressions have no location of
+/// their own, so the position is made part of the path that identifies the resulting variables.
+EE flat_element(EnvI& env, const Ctx& ctx, Expression* e, unsigned int i, VarDecl* r, VarDecl* b);
+
 void make_defined_var(EnvI& env, VarDecl* vd, Call* c);
 void check_index_sets(EnvI& env, VarDecl* vd, Expression* e, bool isArg = false);
 /// Create a domain constraint that enforces that `expr` falls within `dom`
diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index 7164f9e..0020fa1 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -670,6 +670,31 @@ void flatten_vardecl_annotations(EnvI& env, VarDecl* origVd, VarDeclI* vdi, VarD
   }
 }
 
+/// Check whether the path of the current call stack denotes the same computation in every pass.
+/// The values of comprehension iterators and the names of variables are part of the path, but the
+/// names of introduced variables can stand for something else in the next pass.
+bool is_stable_path(const EnvI& env) {
+  if (env.multiPassInfo.finalPassNumber <= 1) {
+    return true;
+  }
+  class UsesIntroduced : public EVisitor {
+  public:
+    bool found = false;
+    bool enter(Expression* e) { return !found; }
+    void vId(Id* id) { found = found || id->idn() != -1; }
+  } uses;
+  for (const auto& item : env.callStack) {
+    if (Expression::isa<Id>(item.e)) {
+      top_down(uses,
+               item.tag ? Expression::cast<Id>(item.e)->decl()->e() : static_cast<Expression*>(item.e));
+      if (uses.found) {
+        return false;
+      }
+    }
+  }
+  return true;
+}
+
 VarDecl* new_vardecl(EnvI& env, const Ctx& ctx, TypeInst* ti, Id* origId, VarDecl* origVd,
                      Expression* rhs, bool flattenAnnotations) {
   VarDecl* vd = nullptr;
@@ -677,8 +702,10 @@ VarDecl* new_vardecl(EnvI& env, const Ctx& ctx, TypeInst* ti, Id* origId, VarDec
   // Is this vardecl already in the FlatZinc (for unification)
   bool hasBeenAdded = false;
 
-  // Don't use paths for arrays, structs, or annotations
-  if (ti->type().dim() == 0 && !ti->type().structBT() && !ti->type().isAnn()) {
+  // Don't use paths for arrays, structs, or annotations, or paths that can denote different values
+  // in different passes
+  if (ti->type().dim() == 0 && !ti->type().structBT() && !ti->type().isAnn() &&
+      is_stable_path(env)) {
     std::string path = get_path(env);
     if (!path.empty()) {
       VarPathStore::ReversePathMap& reversePathMap = env.varPathStore.getReversePathMap();
diff --git a/lib/flatten/flat_exp.cpp b/lib/flatten/flat_exp.cpp
index f917b42..e19995e 100644
--- a/lib/flatten/flat_exp.cpp
+++ b/lib/flatten/flat_exp.cpp
@@ -89,6 +89,14 @@ EE flatten_vardecl(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl
 EE flatten_let(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b);
 EE flatten_par(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b);
 
+EE flat_element(EnvI& env, const Ctx& ctx, Expression* e, unsigned int i, VarDecl* r, VarDecl* b) {
+  if (e != nullptr && Expression::loc(e).isIntroduced()) {
+    CallStackItem csi(env, IntLit::a(static_cast<long long int>(i)));
+    return flat_exp(env, ctx, e, r, b);
+  }
+  return flat_exp(env, ctx, e, r, b);
+}
+
 EE flat_exp(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b) {
   assert(ctx.b != C_ROOT || b == env.constants.varTrue);
 
diff --git a/lib/flatten/flatten_arraylit.cpp b/lib/flatten/flatten_arraylit.cpp
index 33d41ff..9f8945c 100644
--- a/lib/flatten/flatten_arraylit.cpp
+++ b/lib/flatten/flatten_arraylit.cpp
@@ -33,7 +33,7 @@ EE flatten_arraylit(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDec
         if (c_root && Expression::type((*al)[i]).isbool()) {
           eval_ctx.b = C_MIX;
         }
-        elems_ee[i] = flat_exp(env, eval_ctx, (*al)[i], rr, ctx.partialityVar(env));
+        elems_ee[i] = flat_element(env, eval_ctx, (*al)[i], i, rr, ctx.partialityVar(env));
       }
     } else {
       if (c_root && Expression::type(e).bt() == Type::BT_BOOL &&
@@ -41,7 +41,7 @@ EE flatten_arraylit(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDec
         eval_ctx.b = C_MIX;
       }
       for (unsigned int i = al->size(); (i--) != 0U;) {
-        elems_ee[i] = flat_exp(env, eval_ctx, (*al)[i], rr, ctx.partialityVar(env));
+        elems_ee[i] = flat_element(env, eval_ctx, (*al)[i], i, rr, ctx.partialityVar(env));
       }
     }
     std::vector<Expression*> elems(elems_ee.size());
diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index 38ec362..8045b23 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -516,7 +516,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
     }
     nctx.b = C_ROOT;
     for (unsigned int i = 0; i < al->size(); i++) {
-      (void)flat_exp(env, nctx, (*al)[i], r, b);
+      (void)flat_element(env, nctx, (*al)[i], i, r, b);
     }
     ret.r = bind(env, ctx, r, env.constants.literalTrue);
   } else {
@@ -646,6 +646,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
         std::vector<KeepAlive> pos_args;
         {
           CallArgItem cai(env);
+          unsigned int negative_idx = 0;
           for (auto& negative : negatives) {
             auto* bo = Expression::dynamicCast<BinOp>(negative());
             Call* co = Expression::dynamicCast<Call>(negative());
@@ -657,7 +658,8 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
               notBoe0->type(Type::varbool());
               positives.emplace_back(notBoe0);
             } else {
-              EE res = flat_exp(env, argctx, negative(), nullptr, env.constants.varTrue);
+              EE res =
+                  flat_element(env, argctx, negative(), negative_idx++, nullptr, env.constants.varTrue);
               if (Expression::type(res.r()).isPar() && !Expression::type(res.r()).isOpt()) {
                 if (eval_bool(env, res.r())) {
                   // this element is irrelevant
@@ -681,8 +683,9 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
         }
         {
           CallArgItem cai(env);
+          unsigned int positive_idx = 0;
           for (auto& positive : positives) {
-            EE res = flat_exp(env, argctx, positive(), nullptr, env.constants.varTrue);
+            EE res = flat_element(env, argctx, positive(), positive_idx++, nullptr, env.constants.varTrue);
             if (Expression::type(res.r()).isPar()) {
               if (!eval_bool(env, res.r())) {
                 // this element is irrelevant
@@ -723,7 +726,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
           std::vector<KeepAlive> flat_args;
           CallArgItem cai(env);
           for (unsigned int i = 0; i < al->size(); i++) {
-            EE res = flat_exp(env, argctx, (*al)[i], nullptr, env.constants.varTrue);
+            EE res = flat_element(env, argctx, (*al)[i], i, nullptr, env.constants.varTrue);
             if (Expression::type(res.r()).isPar()) {
               if ((Expression::type(res.r()).isOpt() &&
                    eval_par(env, res.r()) == env.constants.absent) ||
-- 
2.43.0


From 73670f08be3003f3a433d05eb3f1218befb071b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:20 +0000
Subject: [PATCH 82/96] fix: crash when the index of an array access is itself
 an access to a local array

---
 lib/flatten/flatten_arrayaccess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_arrayaccess.cpp b/lib/flatten/flatten_arrayaccess.cpp
index f61778f..12d7813 100644
--- a/lib/flatten/flatten_arrayaccess.cpp
+++ b/lib/flatten/flatten_arrayaccess.cpp
@@ -191,7 +191,7 @@ start_flatten_arrayaccess:
     }
     if (Expression::type(aa_inner->v()).isPar()) {
       KeepAlive ka_al_inner = flat_cv_exp(env, ctx, aa_inner->v());
-      auto* al_inner = Expression::cast<ArrayLit>(ka_al_inner());
+      auto* al_inner = Expression::cast<ArrayLit>(follow_id(ka_al_inner()));
       std::vector<Expression*> composed_e(al_inner->size());
       for (unsigned int i = 0; i < al_inner->size(); i++) {
         GCLock lock;
-- 
2.43.0


From 45c95b5e221b3f27214b5efd383e4be6eb94c301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:20 +0000
Subject: [PATCH 83/96] fix: order of type updates for mixed tuples and records

---
 lib/flatten.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index 0020fa1..47aab7e 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -1498,11 +1498,12 @@ Type EnvI::commonTuple(Type tuple1, Type tuple2, bool ignoreTuple1Dim, bool stri
     typeIds[tuple1.dim()] = typeId;
     typeId = registerArrayEnum(typeIds);
   }
-  tuple1.typeId(typeId);
-  tuple1.cv(tuple1.cv() || tuple2.cv());
   if (tuple2.isvar()) {
+    tuple1.typeId(0);
     tuple1.ti(Type::TI_VAR);
   }
+  tuple1.typeId(typeId);
+  tuple1.cv(tuple1.cv() || tuple2.cv());
   if (tuple1.isOpt() || tuple2.isOpt()) {
     if (tuple1.isvar() || tuple2.isvar()) {
       // `var opt' tuples are not supported, so there is no common type
@@ -1571,11 +1572,12 @@ Type EnvI::commonRecord(Type record1, Type record2, bool ignoreRecord1Dim, bool
     typeIds[record1.dim()] = typeId;
     typeId = registerArrayEnum(typeIds);
   }
-  record1.typeId(typeId);
-  record1.cv(record1.cv() || record2.cv());
   if (record2.isvar()) {
+    record1.typeId(0);
     record1.ti(Type::TI_VAR);
   }
+  record1.typeId(typeId);
+  record1.cv(record1.cv() || record2.cv());
   if (record1.isOpt() || record2.isOpt()) {
     if (record1.isvar() || record2.isvar()) {
       // `var opt' records are not supported, so there is no common type
-- 
2.43.0


From 296067738f6dfca96d6365da5c9c003d24102cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:46 +0000
Subject: [PATCH 84/96] fix: array access with an index that is fixed but
 computed from variables

---
 lib/flatten/flatten_arrayaccess.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_arrayaccess.cpp b/lib/flatten/flatten_arrayaccess.cpp
index 12d7813..d7be665 100644
--- a/lib/flatten/flatten_arrayaccess.cpp
+++ b/lib/flatten/flatten_arrayaccess.cpp
@@ -73,7 +73,10 @@ start_flatten_arrayaccess:
         }
         if (Expression::type(tmp).isPar()) {
           GCLock lock;
-          auto* v = eval_par(env, tmp);
+          // The value may be known even though its computation involves variables
+          KeepAlive flat_idx =
+              Expression::type(tmp).cv() ? flat_cv_exp(env, nctx, tmp) : KeepAlive(tmp);
+          auto* v = eval_par(env, flat_idx());
           if (v == env.constants.absent) {
             anyAbsent = true;
             idx[j] = al->min(j);
-- 
2.43.0


From 4dd542ab20a10952aa958460d4ff7d363e29a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:46 +0000
Subject: [PATCH 85/96] fix: fixed fields of tuples and records computed from
 variables

---
 lib/flatten.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index 47aab7e..1b135a6 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -3971,7 +3971,8 @@ KeepAlive flat_cv_exp(EnvI& env, Ctx ctx, Expression* e) {
         assert(Expression::isa<IntLit>(fa->field()));
         IntVal i = IntLit::v(Expression::cast<IntLit>(fa->field()));
 
-        auto* al = Expression::cast<ArrayLit>(eval_array_lit(env, fa->v()));
+        KeepAlive fa_v = flat_cv_exp(env, ctx, fa->v());
+        ArrayLit* al = eval_array_lit(env, fa_v());
 
         return flat_cv_exp(env, ctx, (*al)[static_cast<unsigned int>(i.toInt()) - 1]);
       }
-- 
2.43.0


From 08bd5c0bd202fe270d0556c8ae20232fb01d47d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:21 +0000
Subject: [PATCH 86/96] fix: fixed comparison of nested tuples and records of
 different types

---
 lib/eval_par.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/lib/eval_par.cpp b/lib/eval_par.cpp
index 0498e9f..86fbc45 100644
--- a/lib/eval_par.cpp
+++ b/lib/eval_par.cpp
@@ -9,6 +9,7 @@
  * License, v. 2.0. If a copy of the MPL was not distributed with this
  * file, You can obtain one at http://mozilla.org/MPL/2.0/. */
 
+#include <functional>
 #include <minizinc/ast.hh>
 #include <minizinc/astexception.hh>
 #include <minizinc/astiterator.hh>
@@ -1636,10 +1637,27 @@ bool eval_bool(EnvI& env, Expression* e) {
         } else if (Expression::type(lhs).structBT()) {
           assert(Expression::type(rhs).bt() == Expression::type(lhs).bt());
           try {
+            // The values may be identifiers or have different (par or var) types
+            std::function<bool(Expression*, Expression*)> elem_equal = [&](Expression* a,
+                                                                           Expression* b) {
+              Type a_t = Expression::type(a);
+              Type b_t = Expression::type(b);
+              if (a_t.structBT() && b_t.structBT() && a_t.dim() == 0 && b_t.dim() == 0 &&
+                  !a_t.isOpt() && !b_t.isOpt()) {
+                ArrayLit* structA = eval_array_lit(env, a);
+                ArrayLit* structB = eval_array_lit(env, b);
+                for (unsigned int i = 0; i < structA->size(); ++i) {
+                  if (!elem_equal((*structA)[i], (*structB)[i])) {
+                    return false;
+                  }
+                }
+                return true;
+              }
+              return Expression::equal(eval_par(env, a), eval_par(env, b));
+            };
             auto struct_equal = [&](ArrayLit* structA, ArrayLit* structB) {
               for (unsigned int i = 0; i < structA->size(); ++i) {
-                if (!Expression::equal(eval_par(env, (*structA)[i]),
-                                       eval_par(env, (*structB)[i]))) {
+                if (!elem_equal((*structA)[i], (*structB)[i])) {
                   return false;
                 }
               }
@@ -1649,7 +1667,7 @@ bool eval_bool(EnvI& env, Expression* e) {
               for (unsigned int i = 0; i < structA->size(); ++i) {
                 Expression* parA = eval_par(env, (*structA)[i]);
                 Expression* parB = eval_par(env, (*structB)[i]);
-                if (!Expression::equal(parA, parB)) {
+                if (!elem_equal(parA, parB)) {
                   KeepAlive binop;
                   {
                     GCLock lock;
-- 
2.43.0


From 14f03325836c50d91d8d8907d0bfe22ff9d1203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:15 +0000
Subject: [PATCH 87/96] fix: fixed comparison of tuples and records with array
 fields

---
 lib/eval_par.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/eval_par.cpp b/lib/eval_par.cpp
index 86fbc45..5f268fc 100644
--- a/lib/eval_par.cpp
+++ b/lib/eval_par.cpp
@@ -1642,12 +1642,24 @@ bool eval_bool(EnvI& env, Expression* e) {
                                                                            Expression* b) {
               Type a_t = Expression::type(a);
               Type b_t = Expression::type(b);
-              if (a_t.structBT() && b_t.structBT() && a_t.dim() == 0 && b_t.dim() == 0 &&
-                  !a_t.isOpt() && !b_t.isOpt()) {
-                ArrayLit* structA = eval_array_lit(env, a);
-                ArrayLit* structB = eval_array_lit(env, b);
-                for (unsigned int i = 0; i < structA->size(); ++i) {
-                  if (!elem_equal((*structA)[i], (*structB)[i])) {
+              if ((a_t.dim() > 0 && b_t.dim() > 0) ||
+                  (a_t.structBT() && b_t.structBT() && a_t.dim() == 0 && b_t.dim() == 0 &&
+                   !a_t.isOpt() && !b_t.isOpt())) {
+                ArrayLit* arrayA = eval_array_lit(env, a);
+                ArrayLit* arrayB = eval_array_lit(env, b);
+                if (arrayA->dims() != arrayB->dims()) {
+                  return false;
+                }
+                for (unsigned int i = 0; i < arrayA->dims(); ++i) {
+                  bool emptyA = arrayA->max(i) < arrayA->min(i);
+                  bool emptyB = arrayB->max(i) < arrayB->min(i);
+                  if (emptyA != emptyB || (!emptyA && (arrayA->min(i) != arrayB->min(i) ||
+                                                       arrayA->max(i) != arrayB->max(i)))) {
+                    return false;
+                  }
+                }
+                for (unsigned int i = 0; i < arrayA->size(); ++i) {
+                  if (!elem_equal((*arrayA)[i], (*arrayB)[i])) {
                     return false;
                   }
                 }
-- 
2.43.0


From 779f99c229d6430596e591b67b5e5a686caaf8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:20 +0000
Subject: [PATCH 88/96] fix: inverse of an array with negative indices

---
 lib/builtins.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index 2605b03..62a4c29 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -3170,7 +3170,7 @@ Expression* b_inverse(EnvI& env, Call* call) {
   std::vector<bool> used(al->size());
   for (unsigned int i = 0; i < ivs.size(); i++) {
     used[(ivs[i] - minVal).toInt()] = true;
-    inv[(ivs[i] - minVal).toInt()] = IntLit::a(i + min_idx);
+    inv[(ivs[i] - minVal).toInt()] = IntLit::a(IntVal(i) + min_idx);
   }
   for (bool b : used) {
     if (!b) {
-- 
2.43.0


From b2fa094f0fb05fc3ad3676d23ca4097d6f108afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:28 +0000
Subject: [PATCH 89/96] fix: minimum and maximum of a variable set that can
 only be empty

---
 share/minizinc/std/redefinitions-2.1.1.mzn | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/redefinitions-2.1.1.mzn b/share/minizinc/std/redefinitions-2.1.1.mzn
index 8a76810..6aca8b4 100644
--- a/share/minizinc/std/redefinitions-2.1.1.mzn
+++ b/share/minizinc/std/redefinitions-2.1.1.mzn
@@ -6,7 +6,8 @@ function var $$E: min(
 ) =
   let {
     var set of int: si = enum2int(s);
-    var min(ub(si))..max(ub(si)): m =
+    set of int: u = ub(si);
+    var if card(u) > 0 then min(u)..max(u) else {0} endif: m =
       min([e + (max(ub(si)) + 1 - e) * (1 - (e in si)) | e in ub(si)]);
   } in to_enum_internal(enum_of(s), m);
 
@@ -39,7 +40,8 @@ function var $$E: max(
 ) =
   let {
     var set of int: si = enum2int(s);
-    var min(ub(si))..max(ub(si)): m =
+    set of int: u = ub(si);
+    var if card(u) > 0 then min(u)..max(u) else {0} endif: m =
       max([e + (min(ub(si)) - 1 - e) * (1 - (e in si)) | e in ub(si)]);
   } in to_enum_internal(enum_of(s), m);
 
-- 
2.43.0


From b7845c048bfa8fd79e72a681ee2e514a3f6ab2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:35 +0000
Subject: [PATCH 90/96] fix: operators in the body of a function computed in
 the output model

---
 lib/output.cpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/lib/output.cpp b/lib/output.cpp
index 7fd19d8..72fa555 100644
--- a/lib/output.cpp
+++ b/lib/output.cpp
@@ -77,6 +77,8 @@ void check_output_par_fn(EnvI& env, Call* rhs) {
   rhs->decl(decl);
 }
 
+void make_par(EnvI& env, Expression* e);
+
 bool cannot_use_rhs_for_output(EnvI& env, Expression* e,
                                std::unordered_set<FunctionI*>& seen_functions) {
   if (e == nullptr) {
@@ -191,19 +193,7 @@ bool cannot_use_rhs_for_output(EnvI& env, Expression* e,
                 ti->mkPar(env);
               }
 
-              class MakeBodyPar : public EVisitor {
-              public:
-                EnvI& env;
-                MakeBodyPar(EnvI& env0) : env(env0) {}
-                bool enter(Expression* e) {
-                  Type t(Expression::type(e));
-                  t.mkPar(env);
-                  t.cv(false);
-                  Expression::type(e, t);
-                  return true;
-                }
-              } _mbp(env);
-              top_down(_mbp, decl->e());
+              make_par(env, decl->e());
 
               CollectOccurrencesE ce(env, env.outputVarOccurrences, decl);
               top_down(ce, decl->e());
-- 
2.43.0


From 9ae5f8edd4929a6cac7ce096428546cce7dfb873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:37 +0000
Subject: [PATCH 91/96] fix: Boolean increasing and decreasing over repeated
 variables in Gecode

---
 solvers/gecode/gecode_constraints.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solvers/gecode/gecode_constraints.cpp b/solvers/gecode/gecode_constraints.cpp
index bff038f..022991b 100644
--- a/solvers/gecode/gecode_constraints.cpp
+++ b/solvers/gecode/gecode_constraints.cpp
@@ -1162,6 +1162,7 @@ void p_increasing_bool(SolverInstanceBase& s, const Call* call) {
   const Annotation& ann = Expression::ann(call);
   auto& gi = static_cast<GecodeSolverInstance&>(s);
   BoolVarArgs x = gi.arg2boolvarargs(call->arg(0));
+  unshare(*gi.currentSpace, x);
   rel(*gi.currentSpace, x, IRT_LQ, GecodeSolverInstance::ann2icl(ann));
 }
 
@@ -1176,6 +1177,7 @@ void p_decreasing_bool(SolverInstanceBase& s, const Call* call) {
   const Annotation& ann = Expression::ann(call);
   auto& gi = static_cast<GecodeSolverInstance&>(s);
   BoolVarArgs x = gi.arg2boolvarargs(call->arg(0));
+  unshare(*gi.currentSpace, x);
   rel(*gi.currentSpace, x, IRT_GQ, GecodeSolverInstance::ann2icl(ann));
 }
 
-- 
2.43.0


From 5ab13cbbdaf8e65ad23efa1cf159465041556a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:37 +0000
Subject: [PATCH 92/96] fix: arg_max and arg_min over repeated variables in
 Gecode

---
 solvers/gecode/gecode_constraints.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/solvers/gecode/gecode_constraints.cpp b/solvers/gecode/gecode_constraints.cpp
index 022991b..e7b9520 100644
--- a/solvers/gecode/gecode_constraints.cpp
+++ b/solvers/gecode/gecode_constraints.cpp
@@ -1055,7 +1055,10 @@ void p_maximum_arg(SolverInstanceBase& s, const Call* call) {
   const Annotation& ann = Expression::ann(call);
   auto& gi = static_cast<GecodeSolverInstance&>(s);
   IntVarArgs iv = gi.arg2intvarargs(call->arg(0));
-  argmax(*gi.currentSpace, iv, gi.arg2intvar(call->arg(1)), true,
+  iv << gi.arg2intvar(call->arg(1));
+  unshare(*gi.currentSpace, iv);
+  const int n = iv.size() - 1;
+  argmax(*gi.currentSpace, iv.slice(0, 1, n), iv[n], true,
          GecodeSolverInstance::ann2icl(ann));
 }
 
@@ -1063,7 +1066,10 @@ void p_minimum_arg(SolverInstanceBase& s, const Call* call) {
   const Annotation& ann = Expression::ann(call);
   auto& gi = static_cast<GecodeSolverInstance&>(s);
   IntVarArgs iv = gi.arg2intvarargs(call->arg(0));
-  argmin(*gi.currentSpace, iv, gi.arg2intvar(call->arg(1)), true,
+  iv << gi.arg2intvar(call->arg(1));
+  unshare(*gi.currentSpace, iv);
+  const int n = iv.size() - 1;
+  argmin(*gi.currentSpace, iv.slice(0, 1, n), iv[n], true,
          GecodeSolverInstance::ann2icl(ann));
 }
 
-- 
2.43.0


From 82bda24b3cd3735fa257b6a5bbbdae1b6dc11ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:38 +0000
Subject: [PATCH 93/96] fix: paths of deferred constraints without a path of
 their own

---
 lib/flatten.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index 1b135a6..030da50 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -2205,6 +2205,9 @@ bool EnvI::dumpPath(std::ostream& os, bool force) {
           break;
       }
       os << major_sep;
+    } else if (Expression::cast<StringLit>(e)->v().empty()) {
+      // The path of this deferred item is not known
+      return false;
     } else {
       os << Expression::cast<StringLit>(e)->v() << major_sep;
     }
@@ -5098,6 +5101,8 @@ void flatten(Env& e, FlatteningOptions opt) {
                 }
                 if (csl != nullptr) {
                   csi = new CallStackItem(env, csl);
+                } else if (vsl == nullptr) {
+                  csi = new CallStackItem(env, new StringLit(Location(), ""));
                 }
                 Location orig_loc = Expression::loc(nc);
                 if (csl != nullptr) {
@@ -5216,10 +5221,10 @@ void flatten(Env& e, FlatteningOptions opt) {
                 }
               }
               StringLit* sl = get_longest_mzn_path_annotation(env, c);
-              CallStackItem* csi = nullptr;
-              if (sl != nullptr) {
-                csi = new CallStackItem(env, sl);
+              if (sl == nullptr) {
+                sl = new StringLit(Location(), "");
               }
+              auto* csi = new CallStackItem(env, sl);
               ItemTimer item_timer(Expression::loc(nc), timingMap);
               (void)flat_exp(env, Ctx(), nc, env.constants.varTrue, env.constants.varTrue);
               env.flatRemoveItem(ci);
-- 
2.43.0


From 01d16db1cb4801198d9aa5fb4167b15664660c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:28 +0000
Subject: [PATCH 94/96] fix: linear equality whose bounds fall into a gap of
 the variable's domain

---
 lib/flatten/flatten_binop.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index 9edd185..d3b6432 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -850,7 +850,10 @@ void flatten_linexp_binop(EnvI& env, const Ctx& ctx, VarDecl* r, VarDecl* b, EE&
           if (LinearTraits<Lit>::domainIntersects(domain, bounds.l, bounds.u)) {
             typename LinearTraits<Lit>::Domain new_domain =
                 LinearTraits<Lit>::intersectDomain(domain, bounds.l, bounds.u);
-            if (!LinearTraits<Lit>::domainEquals(domain, new_domain)) {
+            if (LinearTraits<Lit>::domainEmpty(new_domain)) {
+              // The bounds fall into a gap of the domain
+              ret.r = bind(env, ctx, r, env.constants.literalFalse);
+            } else if (!LinearTraits<Lit>::domainEquals(domain, new_domain)) {
               set_computed_domain(env, vd, LinearTraits<Lit>::newDomain(new_domain), false);
             }
           } else {
-- 
2.43.0


From 06c66d0db8033166309c53498ed93d6d531ece22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:44 +0000
Subject: [PATCH 95/96] fix: negated conjunction of flat Boolean variables

---
 lib/flatten/flatten_call.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index 8045b23..1c906dd 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -720,7 +720,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
         }
         auto* al = Expression::cast<ArrayLit>(c->arg(0));
         KeepAlive al_new;
-        if (al->flat()) {
+        if (al->flat() && !nctx.neg) {
           al_new = al;
         } else {
           std::vector<KeepAlive> flat_args;
-- 
2.43.0


From e3d436a0104a26b9e04e4b1dbe4dcc397f72adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:05 +0000
Subject: [PATCH 96/96] fix: membership of a float in the empty set

---
 lib/eval_par.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/eval_par.cpp b/lib/eval_par.cpp
index 5f268fc..45e43dd 100644
--- a/lib/eval_par.cpp
+++ b/lib/eval_par.cpp
@@ -1527,7 +1527,7 @@ bool eval_bool(EnvI& env, Expression* e) {
           } catch (ResultUndefinedError&) {
             return false;
           }
-        } else if (Expression::type(lhs).isfloat() && Expression::type(rhs).isFloatSet()) {
+        } else if (Expression::type(lhs).isfloat() && Expression::type(rhs).isSet()) {
           try {
             FloatVal v0 = eval_float(env, lhs);
             GCLock lock;
-- 
2.43.0

