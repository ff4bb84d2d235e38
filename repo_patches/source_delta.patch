From 29688bfa0ece96c1e80b6f0bcd43b588be1c9f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 01/53] fix: ignore tuples with negative weights in #sum+ head
 aggregates

---
 libgringo/src/output/literals.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/libgringo/src/output/literals.cc b/libgringo/src/output/literals.cc
index 5b56086..000f21e 100644
--- a/libgringo/src/output/literals.cc
+++ b/libgringo/src/output/literals.cc
@@ -1440,15 +1440,19 @@ LiteralId HeadAggregateLiteral::translate(Translator &x) {
                     choice.addHead(head);
                 }
                 // e :- h, c.
-                auto bdElem = bdElems.try_emplace(it->second.first);
-                LitVec cond;
-                if (condLit) {
-                    cond.emplace_back(condLit);
-                }
-                if (head) {
-                    cond.emplace_back(head);
+                // NOTE: tuples with negative weights do not contribute to sum+ aggregates
+                if (atm.fun() != AggregateFunction::SUMP ||
+                    getWeight(atm.fun(), data_.tuple(it->second.first)) >= Symbol::createNum(0)) {
+                    auto bdElem = bdElems.try_emplace(it->second.first);
+                    LitVec cond;
+                    if (condLit) {
+                        cond.emplace_back(condLit);
+                    }
+                    if (head) {
+                        cond.emplace_back(head);
+                    }
+                    bdElem.first.value().emplace_back(data_.clause(cond));
                 }
-                bdElem.first.value().emplace_back(data_.clause(cond));
                 ++it;
             } while (it != ie && it->first == condId);
             if (choice.numHeads() > 0) {
-- 
2.43.0


From 6e96d8fcf20f3f8cd3941c16bcac1b645c13f697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 02/53] fix: do not discard head aggregates whose recursive
 elements are not yet accumulated

---
 libgringo/src/ground/statements.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libgringo/src/ground/statements.cc b/libgringo/src/ground/statements.cc
index 4823526..42ffe39 100644
--- a/libgringo/src/ground/statements.cc
+++ b/libgringo/src/ground/statements.cc
@@ -2120,7 +2120,9 @@ void HeadAggregateComplete::report(Output::OutputBase &out, Logger &log) {
     static_cast<void>(log);
     for (auto &x : todo_) {
         auto &atm = dom()[x];
-        if (atm.satisfiable()) {
+        // Note: if conditions of elements depend on heads of the aggregate,
+        //       elements accumulated later can still make it satisfiable
+        if (occType_ == OccurrenceType::UNSTRATIFIED || atm.satisfiable()) {
             // Note: this is not as lazy at is could be
             //       in the recursive case this would define atoms more that once ...
             for (auto const &elem : atm.elems()) {
-- 
2.43.0


From 0d2da205affe26e9682f6659a808713d534d2068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 03/53] fix: do not shift conditions of singleton head
 aggregates that share local variables with the body

---
 libgringo/gringo/input/aggregates.hh |  1 +
 libgringo/src/input/aggregates.cc    | 20 +++++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/libgringo/gringo/input/aggregates.hh b/libgringo/gringo/input/aggregates.hh
index a891440..5b5f2ed 100644
--- a/libgringo/gringo/input/aggregates.hh
+++ b/libgringo/gringo/input/aggregates.hh
@@ -252,6 +252,7 @@ class HeadAggrElem : public IEContext {
     void unpoolComparison(HeadAggrElemVec &elems) const;
     void collect(VarTermBoundVec &vars, bool tupleOnly = false) const;
     void shiftLit();
+    bool sharesLocalVars(UBodyAggrVec const &aggr) const;
     void shiftCondition(UBodyAggrVec &aggr, bool weight);
     bool simplify(Projections &project, SimplifyState &state, Logger &log);
     void rewriteArithmetics(Term::ArithmeticsMap &arith, Literal::RelationVec &assign, AuxGen &auxGen);
diff --git a/libgringo/src/input/aggregates.cc b/libgringo/src/input/aggregates.cc
index 39b40f3..dac7d27 100644
--- a/libgringo/src/input/aggregates.cc
+++ b/libgringo/src/input/aggregates.cc
@@ -1271,6 +1271,24 @@ template <class T> void HeadAggrElem::zeroLevel_(VarTermBoundVec &bound, T const
     }
 }
 
+bool HeadAggrElem::sharesLocalVars(UBodyAggrVec const &aggr) const {
+    VarTermBoundVec vars;
+    collect(vars, false);
+    std::vector<String> local;
+    for (auto const &var : vars) {
+        if (var.first->level > 0) {
+            local.emplace_back(var.first->name);
+        }
+    }
+    vars.clear();
+    for (auto const &lit : aggr) {
+        lit->collect(vars);
+    }
+    return std::any_of(vars.begin(), vars.end(), [&local](auto const &var) {
+        return var.first->level > 0 && std::find(local.begin(), local.end(), var.first->name) != local.end();
+    });
+}
+
 void HeadAggrElem::shiftCondition(UBodyAggrVec &aggr, bool weight) {
     VarTermBoundVec bound;
     // Note: to handle undefinedness in tuples
@@ -1467,7 +1485,7 @@ void TupleHeadAggregate::collect(VarTermBoundVec &vars) const {
 UHeadAggr TupleHeadAggregate::rewriteAggregates(UBodyAggrVec &aggr) {
     // NOTE: if it were possible to add further rules here,
     // then also aggregates with more than one element could be supported
-    if (elems_.size() == 1 && bounds_.empty()) {
+    if (elems_.size() == 1 && bounds_.empty() && !elems_.front().sharesLocalVars(aggr)) {
         elems_.front().shiftCondition(aggr, fun_ == AggregateFunction::SUM || fun_ == AggregateFunction::SUMP);
     }
     return nullptr;
-- 
2.43.0


From f32f9bbd7abf2c8f53fb8903eb0e6f7d069f6ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 04/53] fix: do not lose old head atoms when instantiating
 recursive disjunctions

---
 libgringo/src/ground/statements.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libgringo/src/ground/statements.cc b/libgringo/src/ground/statements.cc
index 42ffe39..eaad5a9 100644
--- a/libgringo/src/ground/statements.cc
+++ b/libgringo/src/ground/statements.cc
@@ -2323,6 +2323,11 @@ void DisjunctionComplete::linearize(Context &context, bool positive, Logger &log
 void DisjunctionComplete::enqueue(Queue &q) {
     for (DisjunctionAccumulate &x : accu_) {
         x.predDef().init();
+        // Note: even though this statement is instantiated later, previously
+        //       defined atoms have to become old after the first iteration
+        if (x.predDef()) {
+            q.enqueue(x.predDef().dom());
+        }
     }
     q.enqueue(inst_);
 }
-- 
2.43.0


From 3ab010da69ef91b0ad70a547cff4ffcd70a252ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 05/53] fix: limit rounds of bound propagation for
 contradictory inequalities

---
 libgringo/src/term.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libgringo/src/term.cc b/libgringo/src/term.cc
index 156391e..f72d652 100644
--- a/libgringo/src/term.cc
+++ b/libgringo/src/term.cc
@@ -378,8 +378,12 @@ void IESolver::compute() {
     }
 
     // compute bounds
+    // Note: Bounds of contradictory inequalities might increase one by one
+    //       without ever reaching a fixpoint in reasonable time. Since all
+    //       intermediate bounds are valid, we stop after a number of rounds
+    //       large enough for bounds to be propagated between all inequalities.
     bool changed = true;
-    while (changed) {
+    for (size_t rounds = 1000 + ies_.size(); changed && rounds > 0; --rounds) {
         changed = false;
         for (auto const &ie : ies_) {
             slack_t slack = ie.bound;
-- 
2.43.0


From cb59e76ec558058150336fbe6d3705d43b679b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:01 +0000
Subject: [PATCH 06/53] fix: re-raise the original exception object in Python
 bindings

---
 libpyclingo/clingo/_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/_internal.py b/libpyclingo/clingo/_internal.py
index 40ddfd8..244fe03 100644
--- a/libpyclingo/clingo/_internal.py
+++ b/libpyclingo/clingo/_internal.py
@@ -74,7 +74,7 @@ def _handle_error(ret: bool, handler=None):
             and handler is not None
             and handler.error is not None
         ):
-            raise handler.error[0](handler.error[1]).with_traceback(handler.error[2])
+            raise handler.error[1].with_traceback(handler.error[2])
         msg = _ffi.string(_lib.clingo_error_message()).decode()
         if code == _lib.clingo_error_bad_alloc:
             raise MemoryError(msg)
-- 
2.43.0


From 3e12bece77646a02545db8c8386d109bc483bce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:09 +0000
Subject: [PATCH 07/53] fix: pass user exceptions of observers through backend
 and external functions in Python

---
 libpyclingo/clingo/backend.py | 38 +++++++++++++++++++++++++++--------
 libpyclingo/clingo/control.py | 21 ++++++++++++++-----
 2 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/libpyclingo/clingo/backend.py b/libpyclingo/clingo/backend.py
index db78e2d..499e8b8 100644
--- a/libpyclingo/clingo/backend.py
+++ b/libpyclingo/clingo/backend.py
@@ -606,10 +606,12 @@ class Backend(ContextManager["Backend"]):
         condition
             List of program literals.
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_acyc_edge(
                 self._rep, node_u, node_v, condition, len(condition)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_assume(self, literals: Sequence[int]) -> None:
@@ -621,7 +623,11 @@ class Backend(ContextManager["Backend"]):
         literals
             The list of literals to assume true.
         """
-        _handle_error(_lib.clingo_backend_assume(self._rep, literals, len(literals)))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_backend_assume(self._rep, literals, len(literals)),
+            handler=self._error,
+        )
 
     def add_atom(self, symbol: Optional[Symbol] = None) -> int:
         """
@@ -668,7 +674,11 @@ class Backend(ContextManager["Backend"]):
         -----
         Can also be used to release an external atom using `TruthValue.Release`.
         """
-        _handle_error(_lib.clingo_backend_external(self._rep, atom, value.value))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_backend_external(self._rep, atom, value.value),
+            handler=self._error,
+        )
 
     def add_heuristic(
         self,
@@ -694,10 +704,12 @@ class Backend(ContextManager["Backend"]):
         condition
             List of program literals.
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_heuristic(
                 self._rep, atom, type_.value, bias, priority, condition, len(condition)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_minimize(self, priority: int, literals: Sequence[Tuple[int, int]]) -> None:
@@ -711,8 +723,10 @@ class Backend(ContextManager["Backend"]):
         literals
             List of pairs of program literals and weights.
         """
+        self._error.clear()
         _handle_error(
-            _lib.clingo_backend_minimize(self._rep, priority, literals, len(literals))
+            _lib.clingo_backend_minimize(self._rep, priority, literals, len(literals)),
+            handler=self._error,
         )
 
     def add_project(self, atoms: Sequence[int]) -> None:
@@ -724,7 +738,11 @@ class Backend(ContextManager["Backend"]):
         atoms
             List of program atoms to project on.
         """
-        _handle_error(_lib.clingo_backend_project(self._rep, atoms, len(atoms)))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_backend_project(self._rep, atoms, len(atoms)),
+            handler=self._error,
+        )
 
     def add_rule(
         self, head: Sequence[int], body: Sequence[int] = [], choice: bool = False
@@ -747,10 +765,12 @@ class Backend(ContextManager["Backend"]):
         singleton head list, respectively.
         """
         # pylint: disable=dangerous-default-value
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_rule(
                 self._rep, choice, head, len(head), body, len(body)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_weight_rule(
@@ -776,10 +796,12 @@ class Backend(ContextManager["Backend"]):
         choice
             Whether to add a disjunctive or choice rule.
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_weight_rule(
                 self._rep, choice, head, len(head), lower, body, len(body)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_theory_term_number(self, number: int) -> int:
diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 4cc7ef7..fc23fa9 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -355,8 +355,10 @@ class Control:
         for i, lit in enumerate(atoms):
             p_proj[i] = self._program_atom(lit)
 
+        self._error.clear()
         _handle_error(
-            _lib.clingo_control_update_project(self._rep, p_proj, len(atoms), append)
+            _lib.clingo_control_update_project(self._rep, p_proj, len(atoms), append),
+            handler=self._error,
         )
 
     def add_project(self, atoms: Sequence[Union[Symbol, int]]) -> None:
@@ -446,10 +448,12 @@ class Control:
             val = _lib.clingo_external_type_true
         else:
             val = _lib.clingo_external_type_false
+        self._error.clear()
         _handle_error(
             _lib.clingo_control_assign_external(
                 self._rep, self._program_atom(external), val
-            )
+            ),
+            handler=self._error,
         )
 
     def backend(self) -> Backend:
@@ -493,7 +497,8 @@ class Control:
         Typically, it is not necessary to call this function manually because
         automatic cleanups are enabled by default.
         """
-        _handle_error(_lib.clingo_control_cleanup(self._rep))
+        self._error.clear()
+        _handle_error(_lib.clingo_control_cleanup(self._rep), handler=self._error)
 
     def get_const(self, name: str) -> Optional[Symbol]:
         """
@@ -609,7 +614,11 @@ class Control:
         for i, path in enumerate(files):
             c_mem.append(_ffi.new("char[]", path.encode()))
             c_files[i] = c_mem[-1]
-        _handle_error(_lib.clingo_control_load_aspif(self._rep, c_files, len(files)))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_control_load_aspif(self._rep, c_files, len(files)),
+            handler=self._error,
+        )
 
     def register_observer(self, observer: Observer, replace: bool = False) -> None:
         """
@@ -869,10 +878,12 @@ class Control:
             a
             SAT
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_control_release_external(
                 self._rep, self._program_atom(external)
-            )
+            ),
+            handler=self._error,
         )
 
     # this assumes that overloads are matched in the order they appear
-- 
2.43.0


From 226e38698a52ae4d730af97ed2bbfc5638df6971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:37 +0000
Subject: [PATCH 08/53] fix: assigning elements of string sequences in Python
 ASTs

---
 libpyclingo/clingo/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index bd02538..9e4d0c0 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -851,7 +851,7 @@ class StrSequence(abc.MutableSequence):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
         _handle_error(
-            _lib.clingo_str_attribute_set_string_at(
+            _lib.clingo_ast_attribute_set_string_at(
                 self._rep, self._attribute, index, value.encode()
             )
         )
-- 
2.43.0


From c479334821a09b93887eb68586364dd203f4d1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:37 +0000
Subject: [PATCH 09/53] fix: index handling when assigning to and inserting
 into AST sequences in Python

---
 libpyclingo/clingo/ast.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index 9e4d0c0..5223024 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -757,6 +757,11 @@ class ASTSequence(abc.MutableSequence):
     def __setitem__(self, index, ast):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
+        size = len(self)
+        if index < 0:
+            index += size
+        if index < 0 or index >= size:
+            raise IndexError("invalid index")
         _handle_error(
             _lib.clingo_ast_attribute_set_ast_at(
                 self._rep, self._attribute, index, ast._rep
@@ -776,6 +781,10 @@ class ASTSequence(abc.MutableSequence):
         )
 
     def insert(self, index, value):
+        size = len(self)
+        if index < 0:
+            index = max(index + size, 0)
+        index = min(index, size)
         _handle_error(
             _lib.clingo_ast_attribute_insert_ast_at(
                 self._rep, self._attribute, index, value._rep
@@ -850,6 +859,11 @@ class StrSequence(abc.MutableSequence):
     def __setitem__(self, index, value):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
+        size = len(self)
+        if index < 0:
+            index += size
+        if index < 0 or index >= size:
+            raise IndexError("invalid index")
         _handle_error(
             _lib.clingo_ast_attribute_set_string_at(
                 self._rep, self._attribute, index, value.encode()
@@ -871,6 +885,10 @@ class StrSequence(abc.MutableSequence):
         )
 
     def insert(self, index, value):
+        size = len(self)
+        if index < 0:
+            index = max(index + size, 0)
+        index = min(index, size)
         _handle_error(
             _lib.clingo_ast_attribute_insert_string_at(
                 self._rep, self._attribute, index, value.encode()
-- 
2.43.0


From 45a9b2e70966f7c5383abbf072905a0ecfc8cd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:59 +0000
Subject: [PATCH 10/53] fix: insertion into slices of AST sequences in Python

---
 libpyclingo/clingo/util.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/util.py b/libpyclingo/clingo/util.py
index 54054e8..bc70398 100644
--- a/libpyclingo/clingo/util.py
+++ b/libpyclingo/clingo/util.py
@@ -92,4 +92,16 @@ class SlicedMutableSequence(SlicedSequence, abc.MutableSequence):
         del self._mut_seq[self._rng[index]]
 
     def insert(self, index, value):
-        self._mut_seq[self._rng[index]] = value
+        rng = self._rng
+        size = len(rng)
+        if index < 0:
+            index = max(index + size, 0)
+        if index < size:
+            # an element of the underlying sequence's reversed view is
+            # preceded by its right neighbor
+            pos = rng[index] + (1 if rng.step < 0 else 0)
+        elif size > 0:
+            pos = rng[-1] + (1 if rng.step > 0 else 0)
+        else:
+            pos = rng.start + (1 if rng.step < 0 else 0)
+        self._mut_seq.insert(pos, value)
-- 
2.43.0


From 229b1fd2b413eb4491c3b7f438bcf23835ab7000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:59 +0000
Subject: [PATCH 11/53] fix: comparison operators of AST sequences in Python

---
 libpyclingo/clingo/ast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index 5223024..e75d369 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -690,6 +690,7 @@ class UnaryOperator(IntEnum):
     """
 
 
+@total_ordering
 class ASTSequence(abc.MutableSequence):
     """
     A sequence holding `AST` nodes.
@@ -705,9 +706,13 @@ class ASTSequence(abc.MutableSequence):
         _lib.clingo_ast_acquire(self._rep)
 
     def __eq__(self, other):
+        if not isinstance(other, abc.Sequence):
+            return NotImplemented
         return tuple(self) == tuple(other)
 
     def __lt__(self, other):
+        if not isinstance(other, abc.Sequence):
+            return NotImplemented
         return tuple(self) < tuple(other)
 
     def __hash__(self):
-- 
2.43.0


From d38fa86715c5f3f27c9a6377463a4748cdcabcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:40 +0000
Subject: [PATCH 12/53] fix: comparison of theory terms, elements, and atoms
 with other types in Python

---
 libpyclingo/clingo/theory_atoms.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libpyclingo/clingo/theory_atoms.py b/libpyclingo/clingo/theory_atoms.py
index f919c77..7c575b3 100644
--- a/libpyclingo/clingo/theory_atoms.py
+++ b/libpyclingo/clingo/theory_atoms.py
@@ -80,9 +80,13 @@ class TheoryTerm:
         return self._idx
 
     def __eq__(self, other):
+        if not isinstance(other, TheoryTerm):
+            return NotImplemented
         return self._idx == other._idx
 
     def __lt__(self, other):
+        if not isinstance(other, TheoryTerm):
+            return NotImplemented
         return self._idx < other._idx
 
     def __str__(self):
@@ -159,9 +163,13 @@ class TheoryElement:
         return self._idx
 
     def __eq__(self, other):
+        if not isinstance(other, TheoryElement):
+            return NotImplemented
         return self._idx == other._idx
 
     def __lt__(self, other):
+        if not isinstance(other, TheoryElement):
+            return NotImplemented
         return self._idx < other._idx
 
     def __str__(self):
@@ -235,9 +243,13 @@ class TheoryAtom:
         return self._idx
 
     def __eq__(self, other):
+        if not isinstance(other, TheoryAtom):
+            return NotImplemented
         return self._idx == other._idx
 
     def __lt__(self, other):
+        if not isinstance(other, TheoryAtom):
+            return NotImplemented
         return self._idx < other._idx
 
     def __str__(self):
-- 
2.43.0


From 1faf10aa882ad499f66f4bbb5ca56a4e991bc7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:53 +0000
Subject: [PATCH 13/53] fix: copy optional attributes in deep copies of syntax
 trees

---
 libclingo/src/astv2.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libclingo/src/astv2.cc b/libclingo/src/astv2.cc
index e7e1759..f596260 100644
--- a/libclingo/src/astv2.cc
+++ b/libclingo/src/astv2.cc
@@ -32,6 +32,9 @@ namespace {
 struct Deepcopy {
     template <typename T> AST::Value operator()(T const &val) { return val; }
     AST::Value operator()(SAST &ast) { return ast->deepcopy(); }
+    AST::Value operator()(OAST &ast) {
+        return OAST{ast.ast.get() != nullptr ? ast.ast->deepcopy() : SAST{nullptr}};
+    }
     AST::Value operator()(AST::ASTVec &asts) {
         AST::ASTVec ret;
         ret.reserve(asts.size());
-- 
2.43.0


From ae87ea1017c7859922b98bd4d9d81d419228ddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 14/53] fix: handle unknown atoms in assumptions and clauses in
 the Python API

An unknown atom was represented by program literal -1, which is a regular
literal of the program. Thus, assumptions and clauses over unknown atoms
constrained an unrelated atom. The C++ interface already handles this.
---
 libpyclingo/clingo/control.py | 27 +++++++++++++++------------
 libpyclingo/clingo/solving.py | 22 +++++++++++-----------
 2 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index fc23fa9..0d6eefb 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -47,6 +47,7 @@ from typing import (
     Any,
     Callable,
     Iterator,
+    List,
     Optional,
     Sequence,
     Tuple,
@@ -1052,19 +1053,21 @@ class Control:
         data = _CBData(handler, self._error)
         self._handler = _ffi.new_handle(data)
 
-        p_ass = _ffi.NULL
+        lits: List[int] = []
         if assumptions:
-            atoms = None
-            p_ass = _ffi.new("clingo_literal_t[]", len(assumptions))
-            for i, lit in enumerate(assumptions):
+            atoms = self.symbolic_atoms
+            for lit in assumptions:
                 if isinstance(lit, int):
-                    p_ass[i] = lit
-                else:
-                    if atoms is None:
-                        atoms = self.symbolic_atoms
-                    atom = self.symbolic_atoms[lit[0]]
-                    slit = -1 if atom is None else atom.literal
-                    p_ass[i] = slit if lit[1] else -slit
+                    lits.append(lit)
+                    continue
+                atom = atoms[lit[0]]
+                if atom is not None:
+                    lits.append(atom.literal if lit[1] else -atom.literal)
+                elif lit[1]:
+                    # unknown atoms are false; contradictory assumptions are
+                    # used because there might not be a false literal
+                    lits.extend((1, -1))
+        p_ass = _ffi.new("clingo_literal_t[]", lits)
 
         mode = 0
         if yield_:
@@ -1079,7 +1082,7 @@ class Control:
                 self._rep,
                 mode,
                 p_ass,
-                len(assumptions),
+                len(lits),
                 _lib.pyclingo_solve_event_callback,
                 self._handler,
                 handler=data,
diff --git a/libpyclingo/clingo/solving.py b/libpyclingo/clingo/solving.py
index 963f118..71a8e1f 100644
--- a/libpyclingo/clingo/solving.py
+++ b/libpyclingo/clingo/solving.py
@@ -172,20 +172,20 @@ class SolveControl:
         when using a `SolveHandle`.
         """
         atoms = self.symbolic_atoms
-        p_lits = _ffi.new("clingo_literal_t[]", len(literals))
-        for i, lit in enumerate(literals):
+        lits: List[int] = []
+        for lit in literals:
             if isinstance(lit, int):
-                p_lits[i] = lit
-            else:
-                atom = atoms[lit[0]]
-                if atom is not None:
-                    slit = atom.literal
-                else:
-                    slit = -1
-                p_lits[i] = slit if lit[1] else -slit
+                lits.append(lit)
+                continue
+            atom = atoms[lit[0]]
+            if atom is not None:
+                lits.append(atom.literal if lit[1] else -atom.literal)
+            elif not lit[1]:
+                # unknown atoms are false and, thus, the clause is satisfied
+                return
 
         _handle_error(
-            _lib.clingo_solve_control_add_clause(self._rep, p_lits, len(literals))
+            _lib.clingo_solve_control_add_clause(self._rep, lits, len(lits))
         )
 
     def _invert(
-- 
2.43.0


From ce85c668f712e1e8b4cafb5f1ed13554cac57875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 15/53] fix: handle unknown atoms in assumptions in the Lua API

Assumptions that contain an unknown atom with positive sign cannot be
satisfied. So far all assumptions were silently dropped in this case.
---
 libluaclingo/luaclingo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 6d2269b..1aa981b 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3441,6 +3441,9 @@ struct ControlWrap : Object<ControlWrap> {
                 if (auto *lits = luaToLits(L, -1, atoms, false, false)) { // +1/+0
                     handle->ass->swap(*lits);
                     lua_pop(L, 1); // -1
+                } else {
+                    // assume a contradiction because there might not be a false literal
+                    protect(L, [handle]() { *handle->ass = {1, -1}; });
                 }
             }
             lua_pop(L, 1); // -1
-- 
2.43.0


From c284433608a622c3b45ae6af1bb1da08a103d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 16/53] fix: do not lose exceptions whose message cannot be
 encoded

Exceptions with lone surrogates in their message (for example from file
names) raised in callbacks were replaced by an unrelated RuntimeError.
---
 libpyclingo/clingo/_internal.py | 5 ++++-
 libpyclingo/clingo/script.py    | 4 +++-
 libpyclingo/clingo/theory.py    | 5 ++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/libpyclingo/clingo/_internal.py b/libpyclingo/clingo/_internal.py
index 244fe03..2e2f86d 100644
--- a/libpyclingo/clingo/_internal.py
+++ b/libpyclingo/clingo/_internal.py
@@ -86,7 +86,10 @@ def _cb_error_handler(param: str):
         if traceback is not None:
             handler = _ffi.from_handle(traceback.tb_frame.f_locals[param])
             handler.error = (exception, exc_value, traceback)
-            _lib.clingo_set_error(_lib.clingo_error_unknown, str(exc_value).encode())
+            _lib.clingo_set_error(
+                _lib.clingo_error_unknown,
+                str(exc_value).encode(errors="backslashreplace"),
+            )
         else:
             _lib.clingo_set_error(
                 _lib.clingo_error_runtime, "error in callback".encode()
diff --git a/libpyclingo/clingo/script.py b/libpyclingo/clingo/script.py
index 7f8b225..916df01 100644
--- a/libpyclingo/clingo/script.py
+++ b/libpyclingo/clingo/script.py
@@ -64,7 +64,9 @@ __all__ = ["Script", "enable_python", "register_script"]
 
 def _cb_error_top_level(exception, exc_value, traceback):
     msg = "".join(format_exception(exception, exc_value, traceback))
-    _lib.clingo_set_error(_lib.clingo_error_runtime, msg.encode())
+    _lib.clingo_set_error(
+        _lib.clingo_error_runtime, msg.encode(errors="backslashreplace")
+    )
     return False
 
 
diff --git a/libpyclingo/clingo/theory.py b/libpyclingo/clingo/theory.py
index c78325c..9f73620 100644
--- a/libpyclingo/clingo/theory.py
+++ b/libpyclingo/clingo/theory.py
@@ -140,7 +140,10 @@ class Theory:
         if traceback is not None:
             cb_data = self._ffi.from_handle(traceback.tb_frame.f_locals["data"])
             cb_data.error = (exception, exc_value, traceback)
-            _lib.clingo_set_error(_lib.clingo_error_unknown, str(exc_value).encode())
+            _lib.clingo_set_error(
+                _lib.clingo_error_unknown,
+                str(exc_value).encode(errors="backslashreplace"),
+            )
         else:
             _lib.clingo_set_error(
                 _lib.clingo_error_runtime, "error in callback".encode()
-- 
2.43.0


From 59568615ba730bae7fa51369c32f0e525872f2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 17/53] fix: raise exceptions of rewriting callbacks in the
 theory wrapper unchanged

---
 libpyclingo/clingo/theory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libpyclingo/clingo/theory.py b/libpyclingo/clingo/theory.py
index 9f73620..0b01a9e 100644
--- a/libpyclingo/clingo/theory.py
+++ b/libpyclingo/clingo/theory.py
@@ -169,11 +169,11 @@ class Theory:
         """
         return self.__get(c_fun)(*args)
 
-    def __call0(self, c_fun, *args):
+    def __call0(self, c_fun, *args, handler=None):
         """
         Helper to simplify calling C functions without a return value.
         """
-        _handle_error(self.__call(c_fun, *args))
+        _handle_error(self.__call(c_fun, *args), handler)
 
     def __call1(self, c_type, c_fun, *args):
         """
@@ -272,6 +272,7 @@ class Theory:
             self._ffi.cast("clingo_ast_t*", stm._rep),
             self.__get("rewrite", "py"),
             handle,
+            handler=cb_data,
         )
 
     def register_options(self, options: ApplicationOptions) -> None:
-- 
2.43.0


From 1dd0d94a4510611ef8e0bf05841896e96633594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 18/53] fix: return up-to-date statistics in Python

Statistics that were read between grounding and solving were still returned
after solving because the cache was only reset if the call counter changed.
---
 libpyclingo/clingo/control.py | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 0d6eefb..77b62fd 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -245,8 +245,6 @@ class Control:
             self._rep = arguments
 
         self._handler = None
-        self._statistics = None
-        self._statistics_call = -1.0
         self._error = _Error()
 
     def __del__(self):
@@ -1192,24 +1190,11 @@ class Control:
             "clingo_statistics_t*", _lib.clingo_control_statistics, self._rep
         )
 
-        p_key = _ffi.new("uint64_t*")
-        key_root = _c_call(p_key, _lib.clingo_statistics_root, stats)
+        # Note: the result is not cached because its values change when solving
+        # and when a new step is started
+        key_root = _c_call("uint64_t", _lib.clingo_statistics_root, stats)
 
-        key_summary = _c_call(
-            p_key, _lib.clingo_statistics_map_at, stats, key_root, "summary".encode()
-        )
-        key_call = _c_call(
-            p_key, _lib.clingo_statistics_map_at, stats, key_summary, "call".encode()
-        )
-        call = _c_call("double", _lib.clingo_statistics_value_get, stats, key_call)
-        if self._statistics is not None and call != self._statistics_call:
-            self._statistics = None
-
-        if self._statistics is None:
-            self._statistics_call = call
-            self._statistics = _statistics(stats, key_root)
-
-        return cast(dict, self._statistics)
+        return cast(dict, _statistics(stats, key_root))
 
     @property
     def symbolic_atoms(self) -> SymbolicAtoms:
-- 
2.43.0


From 94c6ed73d0594928f3ced1b8f18ab9e2837faa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 19/53] fix: do not ignore context objects whose truth value is
 false

---
 libpyclingo/clingo/control.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 77b62fd..625656e 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -552,8 +552,10 @@ class Control:
         # pylint: disable=protected-access,dangerous-default-value
         self._error.clear()
         data = _CBData(context, self._error)
-        c_data = _ffi.new_handle(data) if context else _ffi.NULL
-        c_cb = _lib.pyclingo_ground_callback if context else _ffi.NULL
+        c_data = _ffi.new_handle(data) if context is not None else _ffi.NULL
+        c_cb = (
+            _lib.pyclingo_ground_callback if context is not None else _ffi.NULL
+        )
 
         c_mem = []
         c_parts = _ffi.new("clingo_part_t[]", len(parts))
-- 
2.43.0


From 7fc9797290081deb22a1b4565739c05dc4f7a46b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 20/53] fix: do not interpret error messages as format strings
 in Lua

---
 libluaclingo/luaclingo.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 1aa981b..fed0a34 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -43,7 +43,7 @@ template <typename T> auto protect(lua_State *L, T f) -> decltype(f()) {
     try {
         return f();
     } catch (std::exception const &e) {
-        luaL_error(L, e.what());
+        luaL_error(L, "%s", e.what());
     } catch (...) {
         luaL_error(L, "unknown error");
     }
@@ -58,7 +58,7 @@ void handle_c_error(lua_State *L, bool ret) {
         if (!msg) {
             msg = "no message";
         }
-        luaL_error(L, msg);
+        luaL_error(L, "%s", msg);
     }
 }
 
-- 
2.43.0


From e90613906be6640e5fcebe0148409e5a106991ae Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 21/53] fix: call the on_finish callback in Lua

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index fed0a34..103f95a 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1820,7 +1820,7 @@ struct SolveHandle : Object<SolveHandle> {
         return 1;
     }
     static int on_finish_(lua_State *L) {
-        lua_pushstring(L, "on_model");
+        lua_pushstring(L, "on_finish");
         lua_rawget(L, 1);
         auto x = static_cast<clingo_solve_mode_bitset_t *>(lua_touserdata(L, 2));
         SolveResult::new_(L, *x);
-- 
2.43.0


From df7d747c7c81be5dd2eda797cd3ed35fc382337f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 22/53] fix: respect freeze parameter of
 PropagateInit.add_literal in Lua

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 103f95a..8c48acf 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -2538,7 +2538,7 @@ struct PropagateInit : Object<PropagateInit> {
 
     static int addLiteral(lua_State *L) {
         auto &self = get_self(L);
-        bool freeze = lua_isnoneornil(L, 1) || lua_toboolean(L, 1);
+        bool freeze = lua_isnoneornil(L, 2) || lua_toboolean(L, 2);
         lua_pushinteger(L, call_c(L, clingo_propagate_init_add_literal, self.init, freeze));
         return 1;
     }
-- 
2.43.0


From 0183e0c51148b876edd18d5fa6c1bed0c4c956f0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 23/53] fix: preserve order of elements of Lua tables

---
 libluaclingo/luaclingo.cc | 48 ++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 8c48acf..fd0f87d 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -335,6 +335,15 @@ int lua_absindex(lua_State *L, int idx) { return (idx < 0) ? lua_gettop(L) + idx
 
 #endif
 
+// get the number of elements in the sequence part of a table
+static size_t luaTableSize(lua_State *L, int idx) {
+#if LUA_VERSION_NUM < 502
+    return lua_objlen(L, idx);
+#else
+    return lua_rawlen(L, idx);
+#endif
+}
+
 static int luaPushKwArg(lua_State *L, int index, int pos, char const *name, bool optional) {
     index = lua_absindex(L, index);
     lua_pushinteger(L, pos);
@@ -398,8 +407,8 @@ template <class T> void luaToCpp(lua_State *L, int index, std::vector<T> &x) {
     if (lua_type(L, index) != LUA_TTABLE) {
         luaL_error(L, "table expected");
     }
-    lua_pushnil(L);
-    while (lua_next(L, index) != 0) {
+    for (size_t i = 1, n = luaTableSize(L, index); i <= n; ++i) {
+        lua_rawgeti(L, index, numeric_cast<int>(i)); // +1
         auto &y = protect(L, [&x]() -> T & {
             x.emplace_back();
             return x.back();
@@ -414,22 +423,15 @@ template <class T, class U> void luaToCpp(lua_State *L, int index, std::pair<T,
     if (lua_type(L, index) != LUA_TTABLE) {
         luaL_error(L, "table expected");
     }
-    lua_pushnil(L);
-    if (lua_next(L, index) != 0) {
-        luaToCpp(L, -1, x.first);
-        lua_pop(L, 1);
-    } else {
-        luaL_error(L, "tuple expected");
-    }
-    if (lua_next(L, index) != 0) {
-        luaToCpp(L, -1, x.second);
-        lua_pop(L, 1);
-    } else {
-        luaL_error(L, "tuple expected");
-    }
-    if (lua_next(L, index) != 0) {
+    if (luaTableSize(L, index) != 2) {
         luaL_error(L, "tuple expected");
     }
+    lua_rawgeti(L, index, 1); // +1
+    luaToCpp(L, -1, x.first);
+    lua_pop(L, 1);            // -1
+    lua_rawgeti(L, index, 2); // +1
+    luaToCpp(L, -1, x.second);
+    lua_pop(L, 1); // -1
 }
 
 void luaToCpp(lua_State *L, int index, symbolic_literal_t &x) {
@@ -460,11 +462,11 @@ std::vector<clingo_symbol_t> *luaToVals(lua_State *L, int idx) {
     idx = lua_absindex(L, idx);
     luaL_checktype(L, idx, LUA_TTABLE);
     std::vector<clingo_symbol_t> *vals = AnyWrap::new_<std::vector<clingo_symbol_t>>(L);
-    lua_pushnil(L);
-    while (lua_next(L, idx) != 0) {
+    for (size_t i = 1, n = luaTableSize(L, idx); i <= n; ++i) {
+        lua_rawgeti(L, idx, numeric_cast<int>(i)); // +1
         clingo_symbol_t sym = luaToVal(L, -1);
         protect(L, [sym, &vals]() { vals->push_back(sym); });
-        lua_pop(L, 1);
+        lua_pop(L, 1); // -1
     }
     lua_replace(L, idx);
     return vals;
@@ -1141,8 +1143,8 @@ int luacall_(lua_State *L) {
     }
     lua_call(L, numeric_cast<int>(args.size + context), 1);
     if (lua_type(L, -1) == LUA_TTABLE) {
-        lua_pushnil(L);
-        while (lua_next(L, -2)) {
+        for (size_t i = 1, n = luaTableSize(L, -1); i <= n; ++i) {
+            lua_rawgeti(L, -1, numeric_cast<int>(i));
             clingo_symbol_t val = luaToVal(L, -1);
             handle_c_error(L, args.symbol_callback(&val, 1, args.data));
             lua_pop(L, 1);
@@ -3383,8 +3385,8 @@ struct ControlWrap : Object<ControlWrap> {
         luaL_checktype(L, 3, LUA_TTABLE);
         char const *prg = luaL_checkstring(L, 4);
         auto vals = AnyWrap::new_<std::vector<std::string>>(L); // +1
-        lua_pushnil(L);                                         // +1
-        while (lua_next(L, 3) != 0) {                           // +1/-1
+        for (size_t i = 1, n = luaTableSize(L, 3); i <= n; ++i) {
+            lua_rawgeti(L, 3, numeric_cast<int>(i)); // +1
             char const *val = luaL_checkstring(L, -1);
             protect(L, [val, &vals]() { vals->push_back(val); });
             lua_pop(L, 1); // -1
-- 
2.43.0


From c19d9571d80407fb16677179f8b058ce5123b74d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 24/53] fix: check lower bound when accessing trails in Lua

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index fd0f87d..2fc1bef 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -2268,7 +2268,7 @@ struct Trail : Object<Trail> {
     static int at(lua_State *L) {
         auto &self = get_self(L);
         auto index = numeric_cast<int32_t>(luaL_checkinteger(L, 2)) - 1;
-        if (index < self.size_(L)) {
+        if (0 <= index && index < self.size_(L)) {
             lua_pushnumber(L, self.at_(L, index));
             return 1;
         }
-- 
2.43.0


From 51d15e4cef3d8c9ae96dcca994d6c69b82a3ffbd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 25/53] fix: raise an error if closed solve handles are used in
 Lua

---
 libluaclingo/luaclingo.cc | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 2fc1bef..d4f0eb6 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1740,6 +1740,13 @@ struct SolveHandle : Object<SolveHandle> {
         }
         return *static_cast<SolveHandle *>(p);
     }
+    static clingo_solve_handle_t *get_handle(lua_State *L, int offset = 1) {
+        auto &self = get_self(L, offset);
+        if (self.handle == nullptr) {
+            luaL_error(L, "solve handle is closed");
+        }
+        return self.handle;
+    }
     static SolveHandle *new_(lua_State *L) {
         lua_newtable(L);                                                     // +1
         auto *self = (SolveHandle *)lua_newuserdata(L, sizeof(SolveHandle)); // +1
@@ -1771,9 +1778,9 @@ struct SolveHandle : Object<SolveHandle> {
         return 0;
     }
     static int next(lua_State *L) {
-        auto &handle = get_self(L, lua_upvalueindex(1));
-        call_c(L, clingo_solve_handle_resume, handle.handle);
-        clingo_model_t const *model = call_c(L, clingo_solve_handle_model, handle.handle);
+        auto *handle = get_handle(L, lua_upvalueindex(1));
+        call_c(L, clingo_solve_handle_resume, handle);
+        clingo_model_t const *model = call_c(L, clingo_solve_handle_model, handle);
         if (model) {
             Model::new_(L, model);
         } else {
@@ -1788,18 +1795,15 @@ struct SolveHandle : Object<SolveHandle> {
         return 1;
     }
     static int get(lua_State *L) {
-        auto &self = get_self(L);
-        SolveResult::new_(L, call_c(L, clingo_solve_handle_get, self.handle));
+        SolveResult::new_(L, call_c(L, clingo_solve_handle_get, get_handle(L)));
         return 1;
     }
     static int resume(lua_State *L) {
-        auto &self = get_self(L);
-        call_c(L, clingo_solve_handle_resume, self.handle);
+        call_c(L, clingo_solve_handle_resume, get_handle(L));
         return 0;
     }
     static int cancel(lua_State *L) {
-        auto &self = get_self(L);
-        handle_c_error(L, clingo_solve_handle_cancel(self.handle));
+        handle_c_error(L, clingo_solve_handle_cancel(get_handle(L)));
         return 0;
     }
     static int on_model_(lua_State *L) {
@@ -1813,7 +1817,7 @@ struct SolveHandle : Object<SolveHandle> {
         return 0;
     }
     static int core(lua_State *L) {
-        auto core = call_c(L, clingo_solve_handle_core, get_self(L).handle);
+        auto core = call_c(L, clingo_solve_handle_core, get_handle(L));
         if (core.first == nullptr) {
             lua_pushnil(L); // +1
         } else {
-- 
2.43.0


From e37851815e2aebe9d6ac2478e3471656762d3411 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 26/53] fix: return nil for keys of configurations that are not
 maps in Lua

---
 libluaclingo/luaclingo.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index d4f0eb6..2ccc71a 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1920,6 +1920,8 @@ struct Configuration : Object<Configuration> {
                 lua_pushstring(L, call_c(L, clingo_configuration_map_subkey_name, self.conf, self.key, i));
                 lua_rawseti(L, -2, numeric_cast<int>(i + 1));
             }
+        } else {
+            lua_pushnil(L);
         }
         return 1;
     }
-- 
2.43.0


From 2052580177154fce337e24addd7dbc8003ecc157 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 27/53] fix: raise errors for values that cannot be converted
 to strings in Lua

---
 libluaclingo/luaclingo.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 2ccc71a..ec4a8ae 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -378,6 +378,9 @@ void luaToCpp(lua_State *L, int index, bool &x) { x = lua_toboolean(L, index) !=
 
 void luaToCpp(lua_State *L, int index, std::string &x) {
     char const *str = lua_tostring(L, index);
+    if (str == nullptr) {
+        luaL_error(L, "string expected");
+    }
     PROTECT(x = str);
 }
 
@@ -1994,7 +1997,7 @@ struct Configuration : Object<Configuration> {
         auto &self = get_self(L);
         auto *name = luaL_checkstring(L, 2);
         auto subkey = call_c(L, clingo_configuration_map_at, self.conf, self.key, name);
-        auto value = lua_tostring(L, 3);
+        auto value = luaL_checkstring(L, 3);
         handle_c_error(L, clingo_configuration_value_set(self.conf, subkey, value));
         return 0;
     }
-- 
2.43.0


From e6366d075eec81fe7acf10ec8c934baa0bcd0ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 28/53] fix: do not truncate numbers in Lua

---
 libluaclingo/luaclingo.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index ec4a8ae..e3c329a 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -319,6 +319,20 @@ template <class T, class S> inline T numeric_cast(S s) {
     return static_cast<T>(s);
 }
 
+// get an integer making sure that the conversion does not change the number
+template <class T> T luaToInt(lua_State *L, int idx) {
+    lua_Number num = lua_tonumber(L, idx);
+    if (!(num >= static_cast<lua_Number>(std::numeric_limits<T>::min()) &&
+          num <= static_cast<lua_Number>(std::numeric_limits<T>::max()))) {
+        luaL_error(L, "number out of range");
+    }
+    auto ret = static_cast<T>(num);
+    if (static_cast<lua_Number>(ret) != num) {
+        luaL_error(L, "integer expected");
+    }
+    return ret;
+}
+
 clingo_symbol_t luaToVal(lua_State *L, int idx);
 
 #if LUA_VERSION_NUM < 502
@@ -389,7 +403,7 @@ void luaToCpp(lua_State *L, int index, T &x, typename std::enable_if<std::is_int
     if (lua_type(L, index) != LUA_TNUMBER) {
         luaL_error(L, "number expected");
     }
-    x = numeric_cast<T>(lua_tointeger(L, index));
+    x = luaToInt<T>(L, index);
 }
 
 struct symbol_wrapper {
@@ -980,7 +994,8 @@ struct Term : Object<Term> {
     }
     static int newNumber(lua_State *L) {
         clingo_symbol_t sym;
-        clingo_symbol_create_number(numeric_cast<int>(luaL_checkinteger(L, 1)), &sym);
+        luaL_checkinteger(L, 1);
+        clingo_symbol_create_number(luaToInt<int>(L, 1), &sym);
         return Term::new_(L, sym);
     }
     static int newString(lua_State *L) {
@@ -1102,7 +1117,7 @@ clingo_symbol_t luaToVal(lua_State *L, int idx) {
         }
         case LUA_TNUMBER: {
             clingo_symbol_t ret;
-            clingo_symbol_create_number(numeric_cast<int>(lua_tointeger(L, idx)), &ret);
+            clingo_symbol_create_number(luaToInt<int>(L, idx), &ret);
             return ret;
         }
         case LUA_TUSERDATA: {
-- 
2.43.0


From 54f8f6fc11984a1cf696b4d912481b2890734b84 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 29/53] fix: do not lose context of errors that are not strings
 in Lua

---
 libluaclingo/luaclingo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index e3c329a..aa38619 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -70,6 +70,9 @@ bool handle_lua_error(lua_State *L, char const *loc, char const *desc, int code)
             case LUA_ERRERR:
             case LUA_ERRSYNTAX: {
                 char const *s = lua_tostring(L, -1);
+                if (s == nullptr) {
+                    s = "(error object is not a string)";
+                }
                 std::ostringstream msg;
                 msg << loc << ": " << "error: " << desc << ":\n"
                     << (code == LUA_ERRSYNTAX ? "  SyntaxError: " : "  RuntimeError: ") << s << "\n";
-- 
2.43.0


From ac1cf22d65e213dbd3807b681d063edb3078d319 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 30/53] fix: return up-to-date statistics in Lua

---
 libluaclingo/luaclingo.cc | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index aa38619..48d407a 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3452,10 +3452,6 @@ struct ControlWrap : Object<ControlWrap> {
     }
     static int solve(lua_State *L) {
         auto &self = get_self(L);
-        lua_pushstring(L, "statistics"); // +1
-        lua_pushnil(L);                  // +1
-        lua_rawset(L, 1);                // -2
-
         auto handle = SolveHandle::new_(L); // +1
         int handleIdx = lua_gettop(L);
         handle->ass = AnyWrap::new_<std::vector<clingo_literal_t>>(L); // +1
@@ -3577,17 +3573,9 @@ struct ControlWrap : Object<ControlWrap> {
         auto &self = get_self(L);
         char const *name = luaL_checkstring(L, 2);
         if (strcmp(name, "statistics") == 0) {
-            lua_pushstring(L, "statistics"); // +1
-            lua_rawget(L, 1);                // +0
-            if (lua_isnil(L, -1)) {
-                auto stats = call_c(L, clingo_control_statistics, self.ctl);
-                auto root = call_c(L, clingo_statistics_root, stats);
-                lua_pop(L, 1);                   // -1
-                newStatistics(L, stats, root);   // +1
-                lua_pushstring(L, "statistics"); // +1
-                lua_pushvalue(L, -2);            // +1
-                lua_rawset(L, 1);                // -2
-            }
+            auto stats = call_c(L, clingo_control_statistics, self.ctl);
+            auto root = call_c(L, clingo_statistics_root, stats);
+            newStatistics(L, stats, root); // +1
             return 1;
         } else if (strcmp(name, "configuration") == 0) {
             auto conf = call_c(L, clingo_control_configuration, self.ctl);
-- 
2.43.0


From 985c6a7f57eac2a548ec42bb56eb7d5c72923baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:11 +0000
Subject: [PATCH 31/53] fix: do not crash if Lua propagators have no init
 function

---
 libluaclingo/luaclingo.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 48d407a..db7d150 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3683,7 +3683,8 @@ struct ControlWrap : Object<ControlWrap> {
         lua_newtable(T);
 
         clingo_propagator_t propagator = {
-            hasField(L, "init", 2) ? Propagator::init : nullptr,
+            // Note: this callback also creates the threads to execute the others in
+            Propagator::init,
             hasField(L, "propagate", 2) ? Propagator::propagate : nullptr,
             hasField(L, "undo", 2) ? Propagator::undo : nullptr,
             hasField(L, "check", 2) ? Propagator::check : nullptr,
-- 
2.43.0


From 8e04b4de81eefb51238f09e669babb31d67dc3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 32/53] fix: do not collect uninitialized controls in Lua

---
 libluaclingo/luaclingo.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index db7d150..25285df 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3618,7 +3618,7 @@ struct ControlWrap : Object<ControlWrap> {
         for (auto &arg : *args) {
             protect(L, [&arg, &cargs]() { cargs->push_back(arg.c_str()); });
         }
-        return new_(L, [&](void *mem) {
+        return new_(L, [&](ControlWrap *self) {
             lua_State *T = nullptr;
             if (has_logger) {
                 lua_pushstring(L, "logger");
@@ -3627,14 +3627,16 @@ struct ControlWrap : Object<ControlWrap> {
                 lua_xmove(L, T, 1);
                 lua_rawset(L, -3);
             }
-            new (mem) ControlWrap(call_c(L, clingo_control_new, cargs->data(), cargs->size(),
-                                         has_logger ? logger_callback : nullptr, T, message_limit),
-                                  true);
+            self->ctl = call_c(L, clingo_control_new, cargs->data(), cargs->size(),
+                               has_logger ? logger_callback : nullptr, T, message_limit);
+            self->free = true;
         });
     }
     template <class F> static int new_(lua_State *L, F f) {
         lua_newtable(L);                                                    // +1
         auto self = (ControlWrap *)lua_newuserdata(L, sizeof(ControlWrap)); // +1
+        // Note: the object is garbage collected even if initializing it fails
+        new (self) ControlWrap(nullptr, false);
         // see: https://stackoverflow.com/questions/27426704/lua-5-1-workaround-for-gc-metamethod-for-tables
         luaL_getmetatable(L, typeNameI); // +1
         lua_setmetatable(L, -2);         // -1
@@ -3772,7 +3774,7 @@ luaL_Reg ControlWrap::metaI[] = {{"__gc", gc}, {nullptr, nullptr}};
 int luaMain(lua_State *L) {
     auto ctl = (clingo_control_t *)lua_touserdata(L, 1);
     lua_getglobal(L, "main");
-    ControlWrap::new_(L, [ctl](void *mem) { new (mem) ControlWrap(ctl, false); });
+    ControlWrap::new_(L, [ctl](ControlWrap *self) { self->ctl = ctl; });
     lua_call(L, 1, 0);
     return 0;
 }
-- 
2.43.0


From e4ca1996e755450348b612ca417a95ab1d22dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 33/53] fix: ensure stack space for arguments of external
 functions in Lua

---
 libluaclingo/luaclingo.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 25285df..1a5798d 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1152,6 +1152,7 @@ struct LuaCallArgs_ {
 int luacall_(lua_State *L) {
     auto &args = *static_cast<LuaCallArgs_ *>(lua_touserdata(L, 1));
     int context = 0;
+    luaL_checkstack(L, numeric_cast<int>(args.size) + LUA_MINSTACK, "too many arguments");
     if (!lua_isnil(L, 2)) {
         context = 1;
         lua_getfield(L, 2, args.name);
-- 
2.43.0


From 8f1f478fa6a2235b811e1484ae3ed4ae37c33ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 34/53] fix: make Optional::emplace of the C++ interface
 compile

---
 libclingo/clingo.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 1dd6e70..c6c1d6c 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -205,7 +205,7 @@ template <class T> class Optional {
     T const &&operator*() const && { return std::move(*get()); }
     template <class... Args> void emplace(Args &&...x) {
         clear();
-        data_(new T{std::forward<Args>(x)...});
+        data_.reset(new T{std::forward<Args>(x)...});
     }
     void clear() { data_.reset(nullptr); }
     explicit operator bool() const { return data_ != nullptr; }
-- 
2.43.0


From e1da34b7a4716fbcc95135f126334c6af77814ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 35/53] fix: define StringVector::set in the C++ interface

---
 libclingo/clingo.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index c6c1d6c..1d00ef5 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4050,6 +4050,10 @@ inline StringVector::iterator StringVector::insert(iterator it, char const *str)
     return it;
 }
 
+inline void StringVector::set(iterator it, char const *str) {
+    Detail::handle_error(clingo_ast_attribute_set_string_at(ast_.to_c(), attr_, it - begin(), str));
+}
+
 inline StringVector::iterator StringVector::erase(iterator it) {
     Detail::handle_error(clingo_ast_attribute_delete_string_at(ast_.to_c(), attr_, it - begin()));
     return it;
-- 
2.43.0


From 87f348a1ffdd1d3d2120870f7025dd61381d2773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 36/53] fix: define move assignment of program builders in the
 C++ interface

---
 libclingo/clingo.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 1d00ef5..d31663b 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4100,6 +4100,11 @@ inline ProgramBuilder::ProgramBuilder(ProgramBuilder &&builder) noexcept : build
     std::swap(builder_, builder.builder_);
 }
 
+inline ProgramBuilder &ProgramBuilder::operator=(ProgramBuilder &&builder) noexcept {
+    std::swap(builder_, builder.builder_);
+    return *this;
+}
+
 inline void ProgramBuilder::close() {
     if (builder_ != nullptr) {
         Detail::handle_error(clingo_program_builder_end(builder_));
-- 
2.43.0


From d3a9bc8ee3785505810874663fb30cbeebbf3fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 37/53] fix: compute negative distances between theory atom
 iterators

---
 libclingo/clingo.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index d31663b..01a7fca 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -896,7 +896,9 @@ class TheoryAtomIterator : private TheoryAtom {
     friend TheoryAtomIterator operator-(TheoryAtomIterator it, difference_type n) {
         return TheoryAtomIterator{it.atoms(), clingo_id_t(it.id() - n)};
     }
-    friend difference_type operator-(TheoryAtomIterator a, TheoryAtomIterator b) { return a.id() - b.id(); }
+    friend difference_type operator-(TheoryAtomIterator a, TheoryAtomIterator b) {
+        return static_cast<difference_type>(a.id()) - static_cast<difference_type>(b.id());
+    }
     TheoryAtom operator*() { return *this; }
     TheoryAtom *operator->() { return this; }
     friend void swap(TheoryAtomIterator &lhs, TheoryAtomIterator &rhs) noexcept {
-- 
2.43.0


From 5797a86b217d71259e8863eaf9c88158a985d168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 38/53] fix: keep the value when an optional of the C++
 interface is assigned from itself

---
 libclingo/clingo.hh | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 01a7fca..32714a3 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -172,17 +172,14 @@ template <class T> class Optional {
     Optional(Optional &opt) : data_(opt ? new T(*opt) : nullptr) {}
     Optional(Optional const &opt) : data_(opt ? new T(*opt) : nullptr) {}
     Optional &operator=(T const &x) {
-        clear();
         data_.reset(new T(x));
         return *this;
     }
     Optional &operator=(T &x) {
-        clear();
         data_.reset(new T(x));
         return *this;
     }
     Optional &operator=(T &&x) {
-        clear();
         data_.reset(new T(std::move(x)));
         return *this;
     }
@@ -191,7 +188,6 @@ template <class T> class Optional {
         return *this;
     }
     Optional &operator=(Optional const &opt) {
-        clear();
         data_.reset(opt ? new T(*opt) : nullptr);
         return *this;
     }
@@ -204,7 +200,6 @@ template <class T> class Optional {
     T &&operator*() && { return std::move(*get()); }
     T const &&operator*() const && { return std::move(*get()); }
     template <class... Args> void emplace(Args &&...x) {
-        clear();
         data_.reset(new T{std::forward<Args>(x)...});
     }
     void clear() { data_.reset(nullptr); }
-- 
2.43.0


From cd262c27d282e4667e5e073239176cb2fd708511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 39/53] fix: pass optional trees correctly when building trees
 in the C++ interface

---
 libclingo/clingo.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 32714a3..d4a6c6f 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3569,7 +3569,8 @@ template <size_t j> struct construct_ast {
         if (cons.size <= i || cons.arguments[i].type != clingo_ast_attribute_type_optional_ast) { // NOLINT
             throw std::runtime_error("invalid argument");
         }
-        return construct_ast<j - 1>::template construct<i + 1>(type, cons, std::forward<Args>(args)..., arg.get());
+        return construct_ast<j - 1>::template construct<i + 1>(type, cons, std::forward<Args>(args)...,
+                                                               arg ? arg.get()->to_c() : static_cast<clingo_ast_t *>(nullptr));
     }
     template <size_t i, class... Args>
     static clingo_ast_t *construct(clingo_ast_type_t type, clingo_ast_constructor_t const &cons,
-- 
2.43.0


From a92f2861571a8fb0b427d68cea30123fd5c57c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 40/53] fix: report errors when building trees in the C++
 interface

---
 libclingo/clingo.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index d4a6c6f..6b49a91 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3599,7 +3599,7 @@ template <> struct construct_ast<0> {
             throw std::runtime_error("invalid argument");
         }
         clingo_ast_t *ret = nullptr;
-        clingo_ast_build(type, &ret, std::forward<Args>(args)...);
+        Detail::handle_error(clingo_ast_build(type, &ret, std::forward<Args>(args)...));
         return ret;
     }
 };
-- 
2.43.0


From da016110e15229db39632801ac46736bf35b2f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 41/53] fix: pass the control object on when parsing into trees
 in the C++ interface

---
 libclingo/clingo.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 6b49a91..fa2da13 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4133,7 +4133,7 @@ inline void parse_string(char const *program, Callback &&cb, clingo_control_t *c
                                  CLINGO_CALLBACK_TRY { d.first(Node{ast}); }
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
-                             &data, nullptr,
+                             &data, control,
                              [](clingo_warning_t code, char const *msg, void *data) {
                                  try {
                                      (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
@@ -4157,7 +4157,7 @@ inline void parse_files(StringSpan files, Callback &&cb, clingo_control_t *contr
                                  CLINGO_CALLBACK_TRY { d.first(Node{ast}); }
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
-                             &data, nullptr,
+                             &data, control,
                              [](clingo_warning_t code, char const *msg, void *data) {
                                  try {
                                      (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
-- 
2.43.0


From 320d3cf4abe4eb5ca2eadbcedcf7e2029db6b604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 42/53] fix: assign elements of tree and string vectors to each
 other in the C++ interface

---
 libclingo/clingo.hh | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index fa2da13..76db912 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -2163,6 +2163,8 @@ class Node {
 class NodeRef {
   public:
     NodeRef(NodeVector *vec, size_t index);
+    NodeRef(NodeRef const &ref) = default;
+    NodeRef &operator=(NodeRef const &ref);
     NodeRef &operator=(Node const &ast);
     Node get() const;
     operator Node() const;
@@ -2208,6 +2210,8 @@ class StringVector;
 class StringRef {
   public:
     StringRef(StringVector *vec, size_t index);
+    StringRef(StringRef const &ref) = default;
+    StringRef &operator=(StringRef const &ref);
     StringRef &operator=(char const *str);
     char const *get() const;
     operator char const *() const;
@@ -3943,6 +3947,10 @@ inline size_t Node::hash() const { return clingo_ast_hash(ast_); }
 
 inline NodeRef::NodeRef(NodeVector *vec, size_t index) : vec_{vec}, index_{index} {}
 
+inline NodeRef &NodeRef::operator=(NodeRef const &ref) { // NOLINT
+    return *this = ref.get();
+}
+
 inline NodeRef &NodeRef::operator=(Node const &ast) {
     vec_->set(vec_->begin() + static_cast<NodeVector::iterator::difference_type>(index_), ast);
     return *this;
@@ -4014,6 +4022,10 @@ inline Node const &NodeVector::ast() const { return ast_; }
 
 inline StringRef::StringRef(StringVector *vec, size_t index) : vec_{vec}, index_{index} {}
 
+inline StringRef &StringRef::operator=(StringRef const &ref) { // NOLINT
+    return *this = ref.get();
+}
+
 inline StringRef &StringRef::operator=(char const *str) {
     vec_->set(vec_->begin() + static_cast<StringVector::iterator::difference_type>(index_), str);
     return *this;
-- 
2.43.0


From 91204dd3345cb7f591dbfa179f36d6438c40e778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 43/53] fix: assign vectors of other attributes of the same
 tree in the C++ interface

---
 libclingo/clingo.hh | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 76db912..f962d6e 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3783,24 +3783,22 @@ inline void Node::set(Attribute attribute, NodeValue value) {
         case clingo_ast_attribute_type_string_array: {
             auto val = get(attribute);
             auto &a = val.get<StringVector>();
-            auto &b = value.get<StringVector>();
-            if (a.ast().to_c() != b.ast().to_c()) {
-                a.clear();
-                for (auto x : b) {
-                    a.push_back(x);
-                }
+            auto const &b = value.get<StringVector>();
+            std::vector<char const *> elements(b.begin(), b.end());
+            a.clear();
+            for (auto const &x : elements) {
+                a.push_back(x);
             }
             return;
         }
         case clingo_ast_attribute_type_ast_array: {
             auto val = get(attribute);
             auto &a = val.get<NodeVector>();
-            auto &b = value.get<NodeVector>();
-            if (a.ast().to_c() != b.ast().to_c()) {
-                a.clear();
-                for (auto x : b) {
-                    a.push_back(x);
-                }
+            auto const &b = value.get<NodeVector>();
+            std::vector<Node> elements(b.begin(), b.end());
+            a.clear();
+            for (auto const &x : elements) {
+                a.push_back(x);
             }
             return;
         }
-- 
2.43.0


From 1ab9a27dbd63fa42ad4ecaab80b628a880061721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 44/53] fix: keep exceptions that follow a rethrown one in the
 C++ interface

---
 libclingo/clingo.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index f962d6e..14708a7 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -2430,8 +2430,8 @@ class AssignOnce {
         return state_ == AssignState::Assigned ? val_ : null;
     }
     void reset() {
-        state_ = AssignState::Unassigned;
         val_ = nullptr;
+        state_ = AssignState::Unassigned;
     }
 
   private:
@@ -2441,7 +2441,10 @@ class AssignOnce {
 
 inline void handle_error(bool ret, AssignOnce &exc) {
     if (!ret) {
-        handle_error(ret, *exc);
+        // NOTE: exceptions that follow must not get lost
+        std::exception_ptr ptr = *exc;
+        exc.reset();
+        handle_error(ret, ptr);
     }
 }
 
-- 
2.43.0


From 43e05f8fe04047f17e26d6f1e07ddc4ce829fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 45/53] fix: do not close handles and backends twice if closing
 fails in the C++ interface

---
 libclingo/clingo.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 14708a7..7404665 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3213,8 +3213,9 @@ inline SolveHandle::~SolveHandle() noexcept(false) { close(); }
 
 inline void SolveHandle::close() {
     if (iter_ != nullptr) {
-        Detail::handle_error(clingo_solve_handle_close(iter_), *exception_);
+        auto *iter = iter_;
         iter_ = nullptr;
+        Detail::handle_error(clingo_solve_handle_close(iter), *exception_);
     }
 }
 
@@ -3235,8 +3236,9 @@ inline Backend::~Backend() noexcept(false) { close(); }
 
 inline void Backend::close() {
     if (backend_ != nullptr) {
-        Detail::handle_error(clingo_backend_end(backend_));
+        auto *backend = backend_;
         backend_ = nullptr;
+        Detail::handle_error(clingo_backend_end(backend));
     }
 }
 
-- 
2.43.0


From 7717f29d58d6ed95ee3a1ece10db14182acc7918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 46/53] fix: do not close program builders twice if closing
 fails in the C++ interface

---
 libclingo/clingo.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 7404665..6a3187c 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4120,8 +4120,9 @@ inline ProgramBuilder &ProgramBuilder::operator=(ProgramBuilder &&builder) noexc
 
 inline void ProgramBuilder::close() {
     if (builder_ != nullptr) {
-        Detail::handle_error(clingo_program_builder_end(builder_));
+        auto *builder = builder_;
         builder_ = nullptr;
+        Detail::handle_error(clingo_program_builder_end(builder));
     }
 }
 
-- 
2.43.0


From 5b084299030b9c1a2d8f76b48c2f1145a44dffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 47/53] fix: pass exceptions of observers on through backends
 and external assignments in the C++ interface

---
 libclingo/clingo.hh | 79 ++++++++++++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 29 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 6a3187c..7da907d 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -1559,6 +1559,12 @@ inline std::ostream &operator<<(std::ostream &out, Location loc) {
 
 // {{{1 backend
 
+namespace Detail {
+
+class AssignOnce;
+
+} // namespace Detail
+
 enum class TheorySequenceType {
     Tuple = clingo_theory_sequence_type_tuple,
     List = clingo_theory_sequence_type_list,
@@ -1568,6 +1574,7 @@ enum class TheorySequenceType {
 class Backend {
   public:
     explicit Backend(clingo_backend_t *backend);
+    explicit Backend(clingo_backend_t *backend, Detail::AssignOnce &ptr);
     Backend(Backend const &backend) = delete;
     Backend(Backend &&backend) noexcept;
     Backend &operator=(Backend const &backend) = delete;
@@ -1599,7 +1606,10 @@ class Backend {
     clingo_backend_t *to_c() const { return backend_; }
 
   private:
+    void handle_error(bool ret);
+
     clingo_backend_t *backend_ = nullptr;
+    Detail::AssignOnce *exception_ = nullptr;
 };
 
 // {{{1 statistics
@@ -1738,12 +1748,6 @@ inline void SolveEventHandler::on_statistics(UserStatistics step, UserStatistics
 
 inline void SolveEventHandler::on_finish(SolveResult result) { static_cast<void>(result); }
 
-namespace Detail {
-
-class AssignOnce;
-
-} // namespace Detail
-
 class SolveHandle {
   public:
     SolveHandle() = default;
@@ -3225,11 +3229,24 @@ inline Backend::Backend(Backend &&backend) noexcept { *this = std::move(backend)
 
 inline Backend &Backend::operator=(Backend &&backend) noexcept {
     std::swap(backend_, backend.backend_);
+    std::swap(exception_, backend.exception_);
     return *this;
 }
 
 inline Backend::Backend(clingo_backend_t *backend) : backend_{backend} {
-    Detail::handle_error(clingo_backend_begin(backend_));
+    handle_error(clingo_backend_begin(backend_));
+}
+
+inline Backend::Backend(clingo_backend_t *backend, Detail::AssignOnce &ptr) : backend_{backend}, exception_{&ptr} {
+    handle_error(clingo_backend_begin(backend_));
+}
+
+inline void Backend::handle_error(bool ret) {
+    if (exception_ != nullptr) {
+        Detail::handle_error(ret, *exception_);
+    } else {
+        Detail::handle_error(ret);
+    }
 }
 
 inline Backend::~Backend() noexcept(false) { close(); }
@@ -3238,87 +3255,87 @@ inline void Backend::close() {
     if (backend_ != nullptr) {
         auto *backend = backend_;
         backend_ = nullptr;
-        Detail::handle_error(clingo_backend_end(backend));
+        handle_error(clingo_backend_end(backend));
     }
 }
 
 inline void Backend::rule(bool choice, AtomSpan head, LiteralSpan body) {
-    Detail::handle_error(clingo_backend_rule(backend_, choice, head.begin(), head.size(), body.begin(), body.size()));
+    handle_error(clingo_backend_rule(backend_, choice, head.begin(), head.size(), body.begin(), body.size()));
 }
 
 inline void Backend::weight_rule(bool choice, AtomSpan head, weight_t lower, WeightedLiteralSpan body) {
-    Detail::handle_error(clingo_backend_weight_rule(backend_, choice, head.begin(), head.size(), lower,
+    handle_error(clingo_backend_weight_rule(backend_, choice, head.begin(), head.size(), lower,
                                                     Detail::cast<clingo_weighted_literal_t const *>(body.begin()),
                                                     body.size()));
 }
 
 inline void Backend::minimize(weight_t prio, WeightedLiteralSpan body) {
-    Detail::handle_error(clingo_backend_minimize(
+    handle_error(clingo_backend_minimize(
         backend_, prio, Detail::cast<clingo_weighted_literal_t const *>(body.begin()), body.size()));
 }
 
 inline void Backend::project(AtomSpan atoms) {
-    Detail::handle_error(clingo_backend_project(backend_, atoms.begin(), atoms.size()));
+    handle_error(clingo_backend_project(backend_, atoms.begin(), atoms.size()));
 }
 
 inline void Backend::external(atom_t atom, ExternalType type) {
-    Detail::handle_error(clingo_backend_external(backend_, atom, static_cast<clingo_external_type_t>(type)));
+    handle_error(clingo_backend_external(backend_, atom, static_cast<clingo_external_type_t>(type)));
 }
 
 inline void Backend::assume(LiteralSpan lits) {
-    Detail::handle_error(clingo_backend_assume(backend_, lits.begin(), lits.size()));
+    handle_error(clingo_backend_assume(backend_, lits.begin(), lits.size()));
 }
 
 inline void Backend::heuristic(atom_t atom, HeuristicType type, int bias, unsigned priority, LiteralSpan condition) {
-    Detail::handle_error(clingo_backend_heuristic(backend_, atom, static_cast<clingo_heuristic_type_t>(type), bias,
+    handle_error(clingo_backend_heuristic(backend_, atom, static_cast<clingo_heuristic_type_t>(type), bias,
                                                   priority, condition.begin(), condition.size()));
 }
 
 inline void Backend::acyc_edge(int node_u, int node_v, LiteralSpan condition) {
-    Detail::handle_error(clingo_backend_acyc_edge(backend_, node_u, node_v, condition.begin(), condition.size()));
+    handle_error(clingo_backend_acyc_edge(backend_, node_u, node_v, condition.begin(), condition.size()));
 }
 
 inline atom_t Backend::add_atom() {
     clingo_atom_t ret = 0;
-    Detail::handle_error(clingo_backend_add_atom(backend_, nullptr, &ret));
+    handle_error(clingo_backend_add_atom(backend_, nullptr, &ret));
     return ret;
 }
 
 inline atom_t Backend::add_atom(Symbol symbol) {
     clingo_atom_t ret = 0;
     clingo_symbol_t sym = symbol.to_c();
-    Detail::handle_error(clingo_backend_add_atom(backend_, &sym, &ret));
+    handle_error(clingo_backend_add_atom(backend_, &sym, &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_term_number(int number) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_number(backend_, number, &ret));
+    handle_error(clingo_backend_theory_term_number(backend_, number, &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_term_string(char const *string) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_string(backend_, string, &ret));
+    handle_error(clingo_backend_theory_term_string(backend_, string, &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_term_sequence(TheorySequenceType type, IdSpan elements) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_sequence(backend_, static_cast<clingo_theory_sequence_type_e>(type),
+    handle_error(clingo_backend_theory_term_sequence(backend_, static_cast<clingo_theory_sequence_type_e>(type),
                                                              elements.data(), elements.size(), &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_term_function(char const *name, IdSpan elements) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_function(backend_, name, elements.data(), elements.size(), &ret));
+    handle_error(clingo_backend_theory_term_function(backend_, name, elements.data(), elements.size(), &ret));
     return ret;
 }
 
 inline id_t Backend::add_theory_term_symbol(Symbol symbol) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_symbol(backend_, symbol.to_c(), &ret));
+    handle_error(clingo_backend_theory_term_symbol(backend_, symbol.to_c(), &ret));
     return ret;
 }
 
@@ -3331,14 +3348,14 @@ inline id_t Backend::add_theory_element(IdSpan tuple, LiteralSpan condition) {
 
 inline atom_t Backend::theory_atom(id_t term_id, IdSpan elements) {
     atom_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_atom(backend_, std::numeric_limits<atom_t>::max(), term_id,
+    handle_error(clingo_backend_theory_atom(backend_, std::numeric_limits<atom_t>::max(), term_id,
                                                     elements.begin(), elements.size(), &ret));
     return ret;
 }
 
 inline atom_t Backend::theory_atom(id_t term_id, IdSpan elements, char const *operator_name, id_t right_hand_side_id) {
     atom_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_atom_with_guard(backend_, std::numeric_limits<atom_t>::max(), term_id,
+    handle_error(clingo_backend_theory_atom_with_guard(backend_, std::numeric_limits<atom_t>::max(), term_id,
                                                                elements.begin(), elements.size(), operator_name,
                                                                right_hand_side_id, &ret));
     return ret;
@@ -3354,7 +3371,7 @@ inline atom_t Backend::theory_atom(id_t atom_id_or_zero, id_t term_id, IdSpan el
 inline atom_t Backend::theory_atom(id_t atom_id_or_zero, id_t term_id, IdSpan elements, char const *operator_name,
                                    id_t right_hand_side_id) {
     atom_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_atom_with_guard(backend_, atom_id_or_zero, term_id, elements.begin(),
+    handle_error(clingo_backend_theory_atom_with_guard(backend_, atom_id_or_zero, term_id, elements.begin(),
                                                                elements.size(), operator_name, right_hand_side_id,
                                                                &ret));
     return ret;
@@ -4369,7 +4386,9 @@ inline SolveHandle Control::solve(LiteralSpan assumptions, SolveEventHandler *ha
 }
 
 inline void Control::assign_external(literal_t literal, TruthValue value) {
-    Detail::handle_error(clingo_control_assign_external(*impl_, literal, static_cast<clingo_truth_value_t>(value)));
+    impl_->ptr.reset();
+    Detail::handle_error(clingo_control_assign_external(*impl_, literal, static_cast<clingo_truth_value_t>(value)),
+                         impl_->ptr);
 }
 
 inline void Control::assign_external(Symbol atom, TruthValue value) {
@@ -4381,7 +4400,8 @@ inline void Control::assign_external(Symbol atom, TruthValue value) {
 }
 
 inline void Control::release_external(literal_t literal) {
-    Detail::handle_error(clingo_control_release_external(*impl_, literal));
+    impl_->ptr.reset();
+    Detail::handle_error(clingo_control_release_external(*impl_, literal), impl_->ptr);
 }
 
 inline void Control::release_external(Symbol atom) {
@@ -4678,7 +4698,8 @@ inline bool Control::enable_cleanup() const { return clingo_control_get_enable_c
 inline Backend Control::backend() {
     clingo_backend_t *ret = nullptr;
     Detail::handle_error(clingo_control_backend(*impl_, &ret));
-    return Backend{ret};
+    impl_->ptr.reset();
+    return Backend{ret, impl_->ptr};
 }
 
 inline Configuration Control::configuration() {
-- 
2.43.0


From 2dba4e336c40cf8c8e1f903e35783f08c2a49d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:27 +0000
Subject: [PATCH 48/53] fix: let ground arithmetic wrap around instead of
 overflowing

---
 libgringo/src/symbol.cc |  2 +-
 libgringo/src/term.cc   | 80 +++++++++++++++++++++--------------------
 2 files changed, 43 insertions(+), 39 deletions(-)

diff --git a/libgringo/src/symbol.cc b/libgringo/src/symbol.cc
index 0da667d..05e7b05 100644
--- a/libgringo/src/symbol.cc
+++ b/libgringo/src/symbol.cc
@@ -521,7 +521,7 @@ Symbol Symbol::flipSign() const {
     assert(type() == SymbolType::Fun || type() == SymbolType::Num);
     switch (symbolType_(rep_)) {
         case SymbolType_::Num: {
-            return Symbol::createNum(-num());
+            return Symbol::createNum(static_cast<int>(0U - static_cast<unsigned>(num())));
         }
         case SymbolType_::IdP: {
             return Symbol(setUpper(static_cast<uint16_t>(SymbolType_::IdN), rep_));
diff --git a/libgringo/src/term.cc b/libgringo/src/term.cc
index f72d652..7cd65de 100644
--- a/libgringo/src/term.cc
+++ b/libgringo/src/term.cc
@@ -36,6 +36,24 @@
 
 namespace Gringo {
 
+namespace {
+
+// NOTE: signed overflow is undefined; unsigned arithmetic wraps around
+
+inline int wrap_neg(int x) { return static_cast<int>(0U - static_cast<unsigned>(x)); }
+
+inline int wrap_add(int x, int y) { return static_cast<int>(static_cast<unsigned>(x) + static_cast<unsigned>(y)); }
+
+inline int wrap_sub(int x, int y) { return static_cast<int>(static_cast<unsigned>(x) - static_cast<unsigned>(y)); }
+
+inline int wrap_mul(int x, int y) { return static_cast<int>(static_cast<unsigned>(x) * static_cast<unsigned>(y)); }
+
+inline int wrap_div(int x, int y) { return y == -1 ? wrap_neg(x) : x / y; }
+
+inline int wrap_mod(int x, int y) { return y == -1 ? 0 : x % y; }
+
+} // namespace
+
 using slack_t = math::wide_integer::int128_t;
 
 // {{{ definition of Defines
@@ -641,12 +659,11 @@ bool GLinearTerm::match(Symbol const &x) {
     if (x.type() != SymbolType::Num) {
         return false;
     }
-    int y = x.num();
-    y -= n_;
-    if (y % m_ != 0) {
+    int y = wrap_sub(x.num(), n_);
+    if (wrap_mod(y, m_) != 0) {
         return false;
     }
-    y /= m_;
+    y = wrap_div(y, m_);
     if (*ref_) {
         return ref_->match(Symbol::createNum(y));
     }
@@ -744,10 +761,10 @@ bool GVarTerm::unify(GVarTerm &x) {
 int eval(UnOp op, int x) {
     switch (op) {
         case UnOp::NEG: {
-            return -x;
+            return wrap_neg(x);
         }
         case UnOp::ABS: {
-            return std::abs(x);
+            return x < 0 ? wrap_neg(x) : x;
         }
         case UnOp::NOT: {
             return ~x;
@@ -784,10 +801,10 @@ inline int ipow(int a, int b) {
     int r = 1;
     while (b > 0) {
         if ((b & 1) != 0) {
-            r *= a;
+            r = wrap_mul(r, a);
         }
         b >>= 1;
-        a *= a;
+        a = wrap_mul(a, a);
     }
     return r;
 }
@@ -830,24 +847,24 @@ int eval(BinOp op, int x, int y) {
             return x & y;
         }
         case BinOp::ADD: {
-            return x + y;
+            return wrap_add(x, y);
         }
         case BinOp::SUB: {
-            return x - y;
+            return wrap_sub(x, y);
         }
         case BinOp::MUL: {
-            return x * y;
+            return wrap_mul(x, y);
         }
         case BinOp::MOD: {
             assert(y != 0 && "must be checked before call");
-            return x % y;
+            return wrap_mod(x, y);
         }
         case BinOp::POW: {
             return ipow(x, y);
         }
         case BinOp::DIV: {
             assert(y != 0 && "must be checked before call");
-            return x / y;
+            return wrap_div(x, y);
         }
     }
     assert(false);
@@ -1595,15 +1612,15 @@ bool LinearTerm::isVar() const { return m_ == 1 && n_ == 0; }
 LinearTerm::UVarTerm LinearTerm::toVar() { return std::move(var_); }
 
 void LinearTerm::invert() {
-    m_ *= -1;
-    n_ *= -1;
+    m_ = wrap_neg(m_);
+    n_ = wrap_neg(n_);
 }
 
-void LinearTerm::add(int c) { n_ += c; }
+void LinearTerm::add(int c) { n_ = wrap_add(n_, c); }
 
 void LinearTerm::mul(int c) {
-    m_ *= c;
-    n_ *= c;
+    m_ = wrap_mul(m_, c);
+    n_ = wrap_mul(n_, c);
 }
 
 unsigned LinearTerm::projectScore() const { return 0; }
@@ -1660,7 +1677,7 @@ Symbol LinearTerm::eval(bool &undefined, Logger &log) const {
     Symbol value = var_->eval(undefined_arg, log);
     if (value.type() == SymbolType::Num) {
         undefined = undefined || undefined_arg;
-        return Symbol::createNum(m_ * value.num() + n_);
+        return Symbol::createNum(wrap_add(wrap_mul(m_, value.num()), n_));
     }
     if (!undefined_arg) {
         GRINGO_REPORT(log, Warnings::OperationUndefined) << loc() << ": info: operation undefined:\n"
@@ -1673,9 +1690,9 @@ Symbol LinearTerm::eval(bool &undefined, Logger &log) const {
 bool LinearTerm::match(Symbol const &val) const {
     if (val.type() == SymbolType::Num) {
         assert(m_ != 0);
-        int c(val.num() - n_);
-        if (c % m_ == 0) {
-            return var_->match(Symbol::createNum(c / m_));
+        int c(wrap_sub(val.num(), n_));
+        if (wrap_mod(c, m_) == 0) {
+            return var_->match(Symbol::createNum(wrap_div(c, m_)));
         }
     }
     return false;
@@ -1823,20 +1840,7 @@ Symbol UnOpTerm::eval(bool &undefined, Logger &log) const {
     Symbol value = arg_->eval(undefined_arg, log);
     if (value.type() == SymbolType::Num) {
         undefined = undefined || undefined_arg;
-        int num = value.num();
-        switch (op_) {
-            case UnOp::NEG: {
-                return Symbol::createNum(-num);
-            }
-            case UnOp::ABS: {
-                return Symbol::createNum(std::abs(num));
-            }
-            case UnOp::NOT: {
-                return Symbol::createNum(~num);
-            }
-        }
-        assert(false);
-        return Symbol::createNum(0);
+        return Symbol::createNum(Gringo::eval(op_, value.num()));
     }
     if (op_ == UnOp::NEG && value.type() == SymbolType::Fun) {
         undefined = undefined || undefined_arg;
@@ -1855,7 +1859,7 @@ bool UnOpTerm::match(Symbol const &val) const {
         throw std::logic_error("Term::rewriteArithmetics must be called before Term::match");
     }
     if (val.type() == SymbolType::Num) {
-        return arg_->match(Symbol::createNum(-val.num()));
+        return arg_->match(Symbol::createNum(wrap_neg(val.num())));
     }
     if (val.type() == SymbolType::Fun) {
         return arg_->match(val.flipSign());
@@ -2046,7 +2050,7 @@ Term::SimplifyRet BinOpTerm::simplify(SimplifyState &state, bool positional, boo
             return retLeft;
         }
         if (op_ == BinOp::SUB) {
-            retLeft.lin().add(-retRight.value().num());
+            retLeft.lin().add(wrap_neg(retRight.value().num()));
             return retLeft;
         }
         if (op_ == BinOp::MUL) {
-- 
2.43.0


From 6cdcb66f9aa3baa3b45682381dd5331432a2d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:27 +0000
Subject: [PATCH 49/53] fix: treat modulo by zero and negative powers of zero
 as undefined in the ground term parser

---
 libgringo/src/input/groundtermparser.cc | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/libgringo/src/input/groundtermparser.cc b/libgringo/src/input/groundtermparser.cc
index ae6667a..1f266e7 100644
--- a/libgringo/src/input/groundtermparser.cc
+++ b/libgringo/src/input/groundtermparser.cc
@@ -42,7 +42,9 @@ Symbol GroundTermParser::parse(std::string const &str, Logger &log) {
 }
 
 Symbol GroundTermParser::term(BinOp op, Symbol a, Symbol b) {
-    if (a.type() == SymbolType::Num && b.type() == SymbolType::Num && (op != BinOp::DIV || b.num() != 0)) {
+    if (a.type() == SymbolType::Num && b.type() == SymbolType::Num &&
+        ((op != BinOp::DIV && op != BinOp::MOD) || b.num() != 0) &&
+        (op != BinOp::POW || a.num() != 0 || b.num() >= 0)) {
         return Symbol::createNum(Gringo::eval(op, a.num(), b.num()));
     }
     undefined_ = true;
@@ -51,20 +53,9 @@ Symbol GroundTermParser::term(BinOp op, Symbol a, Symbol b) {
 
 Symbol GroundTermParser::term(UnOp op, Symbol a) {
     if (a.type() == SymbolType::Num) {
-        int num = a.num();
-        switch (op) {
-            case UnOp::NEG: {
-                return Symbol::createNum(-num);
-            }
-            case UnOp::ABS: {
-                return Symbol::createNum(std::abs(num));
-            }
-            case UnOp::NOT: {
-                return Symbol::createNum(~num);
-            }
-        }
-        assert(false);
-    } else if (op == UnOp::NEG && a.type() == SymbolType::Fun) {
+        return Symbol::createNum(Gringo::eval(op, a.num()));
+    }
+    if (op == UnOp::NEG && a.type() == SymbolType::Fun) {
         return a.flipSign();
     }
     undefined_ = true;
-- 
2.43.0


From b83687cf3a7751a7140576d2b9fbc35011244910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 50/53] fix: let intervals end at the largest number

---
 libgringo/src/ground/literals.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libgringo/src/ground/literals.cc b/libgringo/src/ground/literals.cc
index 3c376df..5fd8620 100644
--- a/libgringo/src/ground/literals.cc
+++ b/libgringo/src/ground/literals.cc
@@ -63,7 +63,7 @@ class RangeBinder : public Binder {
     bool next() override {
         // Note: if assign does not match it is not a variable and will not match at all
         //       if assign is just a number, then this is handled in the corresponding Binder
-        return current_ <= end_ && assign_->match(Symbol::createNum(current_++));
+        return current_ <= end_ && assign_->match(Symbol::createNum(static_cast<int>(current_++)));
     }
 
     void print(std::ostream &out) const override { out << *assign_ << "=" << *range_.first << ".." << *range_.second; }
@@ -71,7 +71,7 @@ class RangeBinder : public Binder {
   private:
     UTerm assign_;
     RangeLiteralShared &range_;
-    int current_ = 0;
+    int64_t current_ = 0; // NOTE: has to exceed end_
     int end_ = 0;
 };
 
-- 
2.43.0


From 0dbf1659160a93e7d889425e82e3604c44aab3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:46 +0000
Subject: [PATCH 51/53] fix: keep signatures with large arities at a stable
 address

---
 libgringo/src/symbol.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libgringo/src/symbol.cc b/libgringo/src/symbol.cc
index 05e7b05..b73a558 100644
--- a/libgringo/src/symbol.cc
+++ b/libgringo/src/symbol.cc
@@ -122,20 +122,21 @@ class MSig {
         }
     };
 
-    explicit MSig(Cons const &cons, size_t hash) : sig_{cons.first, cons.second}, hash_{hash} {}
+    explicit MSig(Cons const &cons, size_t hash) : sig_{gringo_make_unique<Cons>(cons)}, hash_{hash} {}
 
-    Cons const &as_sig() const { return sig_; }
+    Cons const &as_sig() const { return *sig_; }
 
   private:
-    static String name(MSig const &a) { return a.sig_.first; }
+    static String name(MSig const &a) { return a.sig_->first; }
 
     static String name(Cons const &a) { return a.first; }
 
-    static uint32_t arity(MSig const &a) { return a.sig_.second; }
+    static uint32_t arity(MSig const &a) { return a.sig_->second; }
 
     static uint32_t arity(Cons const &a) { return a.second; }
 
-    std::pair<String, uint32_t> sig_;
+    // NOTE: signatures refer to the pair, which must not move if the set grows
+    std::unique_ptr<Cons> sig_;
     size_t hash_;
 };
 
-- 
2.43.0


From 8f8b2f432ea844c3b8e05a9d487b08ea679ab952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:57 +0000
Subject: [PATCH 52/53] fix: print bounds of aggregates correctly if intervals
 are out of range

---
 libgringo/src/output/literals.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libgringo/src/output/literals.cc b/libgringo/src/output/literals.cc
index 000f21e..4c7590e 100644
--- a/libgringo/src/output/literals.cc
+++ b/libgringo/src/output/literals.cc
@@ -251,7 +251,12 @@ PlainBounds AggregateAtomRange::plainBounds() {
     // Case (c) can furthermore correspond to one or two != occurrences.
     PlainBounds cBounds;
     auto rng = range();
+    auto sat = satisfiable();
     for (auto part : bounds) {
+        // Note: intervals out of range do not contribute
+        if (sat && (part < rng || rng < part)) {
+            continue;
+        }
         if (rng.left < part.left) {
             // (a)
             if (cBounds.empty()) {
@@ -272,7 +277,7 @@ PlainBounds AggregateAtomRange::plainBounds() {
                 }
                 cBounds.back() = {Relation::NEQ, left};
                 if (left != right) {
-                    cBounds.back() = {Relation::NEQ, right};
+                    cBounds.emplace_back(Relation::NEQ, right);
                 }
             }
         }
-- 
2.43.0


From f3eed47a9453806c4aa1dda9acc3075c0dad51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:45 +0000
Subject: [PATCH 53/53] fix: print aggregates with unsatisfiable bounds as such

---
 libgringo/src/output/literals.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libgringo/src/output/literals.cc b/libgringo/src/output/literals.cc
index 4c7590e..280a518 100644
--- a/libgringo/src/output/literals.cc
+++ b/libgringo/src/output/literals.cc
@@ -250,6 +250,11 @@ PlainBounds AggregateAtomRange::plainBounds() {
     // (c) < and > follow each other: !=
     // Case (c) can furthermore correspond to one or two != occurrences.
     PlainBounds cBounds;
+    if (bounds.empty()) {
+        // Note: no value satisfies the bounds
+        cBounds.emplace_back(Relation::LT, Symbol::createInf());
+        return cBounds;
+    }
     auto rng = range();
     auto sat = satisfiable();
     for (auto part : bounds) {
-- 
2.43.0

