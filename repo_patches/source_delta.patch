From 5cc2ba121967e1eecd2b03d86c73036f05ba13d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 01/44] fix: publish Rosette solutions atomically, also when
 there is no solution

The reader could take a partly written solution file for a complete one.
---
 metalift/rosette_translator.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index 8d41724..bc8c363 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -146,6 +146,8 @@ def generate_synth(
     fns_to_guess: List[FnDeclRecursive] = [],
     fn_defs_to_exclude: List[FnDeclRecursive] = [],
 ) -> str:
+    # A solution is renamed once it is completely written, so that the reader never
+    # sees a part of it.
     listvars = f"(list {' '.join(vars)})"
     if len(fn_defs_to_exclude) > 0:
         constraints = [
@@ -163,15 +165,20 @@ def generate_synth(
         )
         (sat? sol)
         (with-output-to-file
-            "synthesisLogs/{basename}_sol"
+            "synthesisLogs/{basename}_sol0.tmp"
             (lambda ()
                 (begin
                     (printf (~a (sat? sol)))
                     (printf "\\n")
-                    (print-forms sol)
+                    (when (sat? sol) (print-forms sol))
                 )
             )
         )
+        (rename-file-or-directory
+            "synthesisLogs/{basename}_sol0.tmp"
+            "synthesisLogs/{basename}_sol0"
+            #t
+        )
         (print-forms sol)
         """
     all_synth_funs: List[str] = []
@@ -184,15 +191,20 @@ def generate_synth(
     )
     (sat? sol0)
     (with-output-to-file
-        "synthesisLogs/{basename}_sol0"
+        "synthesisLogs/{basename}_sol0.tmp"
         (lambda ()
             (begin
                 (printf (~a (sat? sol0)))
                 (printf "\\n")
-                (print-forms sol0)
+                (when (sat? sol0) (print-forms sol0))
             )
         )
     )
+    (rename-file-or-directory
+        "synthesisLogs/{basename}_sol0.tmp"
+        "synthesisLogs/{basename}_sol0"
+        #t
+    )
     (print-forms sol0)
     """
     all_synth_funs.append(synth_fun)
@@ -221,15 +233,20 @@ def generate_synth(
         )
         (sat? sol{i})
         (with-output-to-file
-            "synthesisLogs/{basename}_sol{i}"
+            "synthesisLogs/{basename}_sol{i}.tmp"
             (lambda ()
                 (begin
                     (printf (~a (sat? sol{i})))
                     (printf "\\n")
-                    (print-forms sol{i})
+                    (when (sat? sol{i}) (print-forms sol{i}))
                 )
             )
         )
+        (rename-file-or-directory
+            "synthesisLogs/{basename}_sol{i}.tmp"
+            "synthesisLogs/{basename}_sol{i}"
+            #t
+        )
         (print-forms sol{i})
         """
         all_synth_funs.append(synth_fun)
-- 
2.43.0


From bb6986886132b8914cb7af11fa19c6a23a40d442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 02/44] fix: end Rosette synthesis when Racket stops, and leave
 no process or foreign file behind

synthesize polled for ever when Racket exited without publishing the awaited
solution, returned None or hit an unbound variable on the other paths, left
Racket running on every error, let it block on undrained pipes, and deleted
solution files of problems whose name merely starts with the same text.
---
 metalift/process_tracker.py    | 35 +++++++++++++++++++++++-
 metalift/synthesize_rosette.py | 50 +++++++++++++++++++---------------
 2 files changed, 62 insertions(+), 23 deletions(-)

diff --git a/metalift/process_tracker.py b/metalift/process_tracker.py
index 9815c1c..f51bb42 100644
--- a/metalift/process_tracker.py
+++ b/metalift/process_tracker.py
@@ -1,7 +1,40 @@
 from __future__ import annotations
 
+import functools
+import threading
+
 # necessary because Python threads are shut down without any cleanup
 from subprocess import Popen
-from typing import List
+from typing import Any, Callable, List, TypeVar
 
 all_processes: List[Popen[bytes]] = []
+
+_current_call = threading.local()
+T = TypeVar("T")
+
+
+def start(*args: Any, **kwargs: Any) -> Popen[bytes]:
+    """Starts and records a process; see stops_processes."""
+    proc = Popen(*args, **kwargs)
+    all_processes.append(proc)
+    _current_call.processes.append(proc)
+    return proc
+
+
+def stops_processes(fn: Callable[..., T]) -> Callable[..., T]:
+    """However the decorated function ends, the processes it started are stopped."""
+
+    @functools.wraps(fn)
+    def wrapper(*args: Any, **kwargs: Any) -> T:
+        caller_processes = getattr(_current_call, "processes", None)
+        processes: List[Popen[bytes]] = []
+        _current_call.processes = processes
+        try:
+            return fn(*args, **kwargs)
+        finally:
+            _current_call.processes = caller_processes
+            for proc in processes:
+                proc.terminate()
+                proc.wait()
+
+    return wrapper
diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 475f9cb..526d2f9 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -1,4 +1,5 @@
 import os
+import re
 import subprocess
 import time
 import typing
@@ -170,7 +171,7 @@ def to_expr(
             return Call(
                 "list_append",
                 mlList[elem.type],  # type: ignore
-                toExpr(ast[1], fnsType, varType, choices),
+                to_expr(ast[1], fnsType, varType, choices),
                 elem,
             )
         elif ast[0] == "matrix-append":
@@ -541,6 +542,7 @@ def to_synthesize(
     return synthNames
 
 
+@process_tracker.stops_processes
 def synthesize(
     basename: str,
     target_lang: typing.Sequence[Union[FnDeclRecursive, FnDecl, Axiom]],
@@ -562,15 +564,17 @@ def synthesize(
     fn_defs_to_exclude: List[FnDeclRecursive] = [],
 ) -> typing.List[FnDeclRecursive]:
     synth_dir = "./synthesisLogs/"
-    if not os.path.exists(synth_dir):
-        os.mkdir(synth_dir)
+    os.makedirs(synth_dir, exist_ok=True)
     # synthFile = synthDir + basename + f"_{uid}" + ".rkt"
     synth_file = synth_dir + basename + ".rkt"
 
-    with open(synth_dir + "utils.rkt", "w") as out:
-        out.write(resources.read_text(utils, "utils.rkt"))
-    with open(synth_dir + "bounded.rkt", "w") as out:
-        out.write(resources.read_text(utils, "bounded.rkt"))
+    for support_file in ["utils.rkt", "bounded.rkt"]:
+        # Another synthesis may be loading the file, so it is never truncated in place.
+        with open(f"{synth_dir}{basename}.{support_file}.tmp", "w") as out:
+            out.write(resources.read_text(utils, support_file))
+        os.replace(
+            f"{synth_dir}{basename}.{support_file}.tmp", synth_dir + support_file
+        )
 
     if optimize_vc_equality:
         prev_vc = vc.toSMT()
@@ -619,14 +623,18 @@ def synthesize(
     last_processed_sol_idx = -1
 
     # before we start synthesis, we need to delete all previous solutions.
-    for sol_file in Path(synth_dir).glob(f"{basename}_sol*"):
-        sol_file.unlink()
-    proc_synthesis = subprocess.Popen(
-        ["racket", synth_file],
-        stdout=subprocess.PIPE,
-        stderr=subprocess.PIPE,
-    )
-    process_tracker.all_processes.append(proc_synthesis)
+    for sol_file in Path(synth_dir).iterdir():
+        if re.fullmatch(re.escape(basename) + r"_sol\d*(\.tmp)?", sol_file.name):
+            sol_file.unlink()
+    # Racket's output goes to a file: nobody reads it while Racket runs, and it
+    # would block once a pipe is full.
+    log_file = f"{synth_dir}{basename}.log"
+    with open(log_file, "w") as out:
+        proc_synthesis = process_tracker.start(
+            ["racket", synth_file],
+            stdout=out,
+            stderr=subprocess.STDOUT,
+        )
     # both last_processed_sol_idx and rounds_to_guess are 0-indexed
     while (
         exit_code := proc_synthesis.poll()
@@ -637,6 +645,9 @@ def synthesize(
         curr_sol_file = Path(f"{synth_dir}/{basename}_sol{curr_sol_idx}")
         curr_sol_exists = curr_sol_file.is_file()
         if not curr_sol_exists:
+            if exit_code is not None:
+                # Racket had already stopped, so this solution will never appear.
+                break
             continue
 
         with open(curr_sol_file, "r") as f:
@@ -796,10 +807,5 @@ def synthesize(
         # exit_code = proc_synthesis.poll()
 
     # Now we have exited out of the while loop
-    if exit_code != 0:
-        if len(result_synth) > 0 and result_synth[0] == "#f":
-            raise SynthesisFailed(f"Synthesis failed: exit code {exit_code}")
-        else:
-            raise Exception(
-                f"Rosette failed: exit code {exit_code}\n" + "\n".join(err_synth)
-            )
+    with open(log_file, "r", errors="replace") as f:
+        raise SynthesisFailed(f"Rosette failed: exit code {exit_code}\n" + f.read())
-- 
2.43.0


From b32433f68ec50eaf9a7838595a053c2c78f93401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 03/44] fix: end SyGuS synthesis with the right outcome for
 every solver stream

synthesize read for ever from a solver that stopped without an answer and exit
status > 0, dropped an answer still in the pipe when the status was > 0, took
any line containing 'fail' for a failure, could block the solver on its unread
stderr, used an unbound candidate, and misread let with several bindings.
---
 metalift/synthesize_cvc5.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 7aaeb2a..64a0ed7 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -153,9 +153,8 @@ def toExpr(
             )
         elif ast[0] == "let":
             newLetVars = dict(letVars)
-            newLetVars[ast[1][0][0]] = toExpr(
-                ast[1][0][1], funName, returnType, varType, letVars
-            )
+            for name, value in ast[1]:
+                newLetVars[name] = toExpr(value, funName, returnType, varType, letVars)
             return toExpr(ast[2], funName, returnType, varType, newLetVars)
         elif ast[0] == "ite":
             return Ite(
@@ -246,8 +245,7 @@ def synthesize(
     uninterp_fns: List[str] = [],  # currently ignored
 ) -> typing.List[FnDeclRecursive]:
     synthDir = "./synthesisLogs/"
-    if not os.path.exists(synthDir):
-        os.mkdir(synthDir)
+    os.makedirs(synthDir, exist_ok=True)
     sygusFile = synthDir + basename + f"_{uid}" + ".sl"
 
     if optimize_vc_equality:
@@ -288,24 +286,27 @@ def synthesize(
     proc = subprocess.Popen(
         [cvcPath, "--lang=sygus2", "--output=sygus", "--no-sygus-pbe", sygusFile],
         stdout=subprocess.PIPE,
-        stderr=subprocess.PIPE,
+        stderr=subprocess.DEVNULL,
     )
 
     process_tracker.all_processes.append(proc)
 
+    candidatesSMT: typing.Optional[List[FnDeclRecursive]] = None
     try:
         funName, returnType = extractFuns(targetLang)
         logfileVerif = typing.cast(IO[bytes], proc.stdout)
         while True:
             line = logfileVerif.readline().decode("utf-8")
-            if "fail" in line:
+            if not line.endswith("\n"):  # the solver stopped
+                break
+            elif line.strip() in ["fail", "(fail)", "infeasible"]:
                 break
             elif "sygus-candidate" in line:
                 print("Current PS and INV Guess:", line.strip())
                 candidatesSMT, candidateDict = generateCandidates(
                     invAndPs, line, funName, returnType
                 )
-            elif line.strip() == "(":
+            elif line.strip() == "(" and candidatesSMT is not None:
                 fnsType = generate_types(targetLang)
 
                 resultVerify, verifyLogs = verify_synth_result(
@@ -337,10 +338,6 @@ def synthesize(
                     )
                     print("\n".join(verifyLogs))
                     raise VerificationFailed("Verification failed")
-            else:
-                code = proc.poll()
-                if code is not None and code > 0:
-                    break
 
         raise SynthesisFailed("SyGuS failed")
     finally:
-- 
2.43.0


From 09665ab1e34fa8ceb403c4c9d5f68b42bd211a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:16 +0000
Subject: [PATCH 04/44] fix: write SyGuS problems with grammars and helpers,
 and read n-ary candidates

---
 metalift/ir.py              | 8 ++++++--
 metalift/synthesize_cvc5.py | 7 +++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 5d91056..14596d4 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -180,6 +180,12 @@ class Expr:
             )
         elif isinstance(self, Axiom):
             return Axiom(f(self.e()), *[f(var) for var in self.vars()])
+        elif isinstance(self, Synth):
+            return Synth(
+                self.name(),
+                f(self.body()),
+                *[f(a) for a in self.arguments()],
+            )
         else:
             raise Exception("NYI: %s" % self)
 
@@ -3229,8 +3235,6 @@ class FnDecl(Expr):
                 else:
                     declarations.append((a.args[0], a.type))
 
-            args = " ".join("(%s %s)" % (d[0], d[1].toSMT()) for d in declarations)  # type: ignore
-
             args = " ".join(
                 "(%s %s)" % (d[0], d[1].toSMTType(get_args(d[1]))) for d in declarations  # type: ignore
             )
diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 64a0ed7..4d03d24 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -135,6 +135,13 @@ def toExpr(
                     IntLit(0),
                     toExpr(ast[1], funName, returnType, varType, letVars),
                 )
+            elif len(ast) > 3 and ast[0] in ["+", "-", "*", "and", "or"]:
+                return expr_bi[ast[0]](
+                    *[
+                        toExpr(arg, funName, returnType, varType, letVars)
+                        for arg in ast[1:]
+                    ]
+                )
             else:
                 raise ValueError("Unexpected number of arguments", ast)
         elif ast[0] in expr_uni.keys():
-- 
2.43.0


From dc496740d3fdcad420930d2575669947a7a6b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:51 +0000
Subject: [PATCH 05/44] fix: make the list axioms consistent

matrix_transpose did not terminate for a matrix of empty rows: its defining
equation then says x = cons(y, x), which is false, so that CVC5 could answer
unsat for every verification query.
---
 metalift/utils/list-axioms.smt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/utils/list-axioms.smt b/metalift/utils/list-axioms.smt
index dccd1be..4c35d4e 100644
--- a/metalift/utils/list-axioms.smt
+++ b/metalift/utils/list-axioms.smt
@@ -199,4 +199,4 @@
 (ite (< (matrix_length matrix) 1) matrix_empty (matrix_col_slice matrix 1 (list_length (matrix_get matrix 0)))))
 
 (define-fun-rec matrix_transpose ((matrix (MLList (MLList Int)))) (MLList (MLList Int))
-(ite (< (matrix_length matrix) 1) matrix_empty (matrix_prepend (firsts matrix) (matrix_transpose (rests matrix)))))
+(ite (or (< (matrix_length matrix) 1) (< (list_length (matrix_get matrix 0)) 1)) matrix_empty (matrix_prepend (firsts matrix) (matrix_transpose (rests matrix)))))
-- 
2.43.0


From 52e10ca37a447c4e63926eabf587fff53c5ab282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 06/44] fix: give every analysis state its own containers

---
 metalift/frontend/python.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 3f75076..cb7b089 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -1,6 +1,18 @@
 import copy
 import re
-from typing import Any, Callable, Dict, List, Optional, Set, Tuple, TypeVar, Union, cast
+from typing import (
+    Any,
+    Callable,
+    Dict,
+    Iterable,
+    List,
+    Optional,
+    Set,
+    Tuple,
+    TypeVar,
+    Union,
+    cast,
+)
 
 from mypy import build
 from mypy.build import BuildResult
@@ -106,15 +118,16 @@ class State:
 
     def __init__(
         self,
-        precond: List[Bool] = list(),
-        vars: Dict[str, Object] = dict(),
-        asserts: List[Bool] = list(),
+        precond: Iterable[Bool] = (),
+        vars: Optional[Dict[str, Object]] = None,
+        asserts: Iterable[Bool] = (),
         has_returned: bool = False,
     ) -> None:
-        self.precond = precond
-        self.vars = vars
-        self.asserts = asserts
-        self.has_returned = has_returned if not has_returned else has_returned
+        # every state owns its containers: they are modified during the analysis
+        self.precond = list(precond)
+        self.vars = dict(vars or {})
+        self.asserts = list(asserts)
+        self.has_returned = has_returned
 
     def read(self, var: str) -> Object:
         if var in self.vars:
-- 
2.43.0


From 9ff9e67092f8df27c29d6ed7a0920b7b6fd68f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 07/44] fix: keep the obligations and path conditions of
 returns in branches

---
 metalift/frontend/python.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index cb7b089..9776b44 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -448,6 +448,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
 
     def visit_block(self, o: Block) -> None:
         for s in o.body:
+            if self.state.has_returned:
+                break  # the rest of the block is unreachable
             s.accept(self)
 
     def visit_expression_stmt(self, o: ExpressionStmt) -> None:
@@ -639,17 +641,27 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         c_state = consequent.state
         a_state = alternate.state
 
-        for e in c_state.asserts + a_state.asserts:
-            if e not in self.state.asserts:
-                self.state.asserts.append(e)
+        # keep the obligations that the branches added to those they started with
+        num_asserts = len(self.state.asserts)
+        self.state.asserts.extend(c_state.asserts[num_asserts:])
+        self.state.asserts.extend(a_state.asserts[num_asserts:])
 
         if c_state.has_returned and a_state.has_returned:
-            return
+            self.state.has_returned = True
         elif c_state.has_returned and not a_state.has_returned:
+            # only the alternate gets past this point
             self.state.vars = a_state.vars
+            self.state.precond = a_state.precond
         elif not c_state.has_returned and a_state.has_returned:
             self.state.vars = c_state.vars
+            self.state.precond = c_state.precond
         else:  # both have not returned, need to merge
+            # what a branch learned (e.g., from a loop) holds if it was taken
+            branch_start = len(self.state.precond) + 1
+            for branch_cond, branch_state in ((cond, c_state), (cond.Not(), a_state)):
+                for e in branch_state.precond[branch_start:]:
+                    self.state.precond.append(implies(branch_cond, e))
+
             for v in set().union(c_state.vars, a_state.vars):
                 if v not in self.state.vars and (
                     (v not in c_state.vars and v in a_state.vars)
-- 
2.43.0


From 64cbb5ee5ddb7ce6d15e0fabde77acbfb7566165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 08/44] fix: merge list variables of both branches and use all
 parts of chained comparisons

---
 metalift/frontend/python.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 9776b44..d808b5f 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -672,7 +672,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             # at this point we know that all vars exist in both c_state and a_state
             for v, c_e in c_state.vars.items():
                 a_e = a_state.vars[v]
-                if c_e != a_e:
+                # != on objects builds an expression rather than comparing them
+                if not Object.__eq__(c_e, a_e):
                     self.state.vars[v] = ite(cond, c_e, a_e)
                 else:
                     self.state.vars[v] = c_e
@@ -711,8 +712,11 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         operands = [e.accept(self) for e in o.operands]
         e = self.process_comparison(o.operators[0], operands[0], operands[1])
         for i in range(1, len(o.operators)):
-            e = e and self.process_comparison(
-                o.operators[i], operands[i], operands[i + 1]
+            e = and_objects(
+                e,
+                self.process_comparison(
+                    o.operators[i], operands[i], operands[i + 1]
+                ),
             )
         return e
 
-- 
2.43.0


From 6b90af0c697320849c4074dd1450edd082da0838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:57 +0000
Subject: [PATCH 09/44] fix: check returns inside loops and use what the loop
 body knows

---
 metalift/frontend/python.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index d808b5f..43cbfea 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -522,6 +522,11 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.driver.add_var_object(new_value)
             self.state.write(var[0], new_value)
 
+        # the body is executed when both the condition and inv hold
+        cond = o.expr.accept(self)
+        body_state = copy.deepcopy(self.state)
+        body_state.precond.append(cast(Bool, cond))
+        body_state.precond.append(inv.call(self.state))
         body_visitor = VCVisitor(  # type: ignore  # ignore the abstract expr visit methods that aren't implemented for now in VCVisitor
             self.driver,
             self.fn_name,
@@ -529,7 +534,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.ast,
             self.args,
             self.ret_val,
-            copy.deepcopy(self.state),
+            body_state,
             self.invariants,
             self.var_tracker,
             self.pred_tracker,
@@ -540,19 +545,16 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         )
         o.body.accept(body_visitor)
 
+        # keep the obligations of the body, e.g., those of returns inside the loop
+        body_state = body_visitor.state
+        self.state.asserts.extend(body_state.asserts[len(self.state.asserts) :])
+
         # inv is preserved
-        cond = o.expr.accept(self)
-        # if not isinstance(cond, Bool):
-        #     raise Exception(
-        #         "The condition of a while loop must evaluate to a boolean object!"
-        #     )
-        c = (
-            and_objects(*self.state.precond, cast(Bool, cond), inv.call(self.state))
-            if self.state.precond
-            else and_objects(cast(Bool, cond), inv.call(self.state))
-        )
-        self.state.asserts.append(implies(c, inv.call(body_visitor.state)))
-        print(f"inv is preserved: {self.state.asserts[-1]}")
+        if not body_state.has_returned:
+            self.state.asserts.append(
+                implies(and_objects(*body_state.precond), inv.call(body_state))
+            )
+            print(f"inv is preserved: {self.state.asserts[-1]}")
 
         # the invariant is true from this point on
         self.state.precond.append(
-- 
2.43.0


From a9ecc8a4e08001c26e950796cce3e77b355066d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:57 +0000
Subject: [PATCH 10/44] fix: havoc loop variables with fresh values

---
 metalift/frontend/python.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 43cbfea..5a00af7 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -516,11 +516,10 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         )
         print(f"inv is init true: {self.state.asserts[-1]}")
 
-        # havoc the modified vars
-        for var in v.writes:
-            new_value = create_object(to_object_type(var[1]), var[0])
-            self.driver.add_var_object(new_value)
-            self.state.write(var[0], new_value)
+        # havoc the modified vars, their values before the loop remain as they were
+        for name, type in writes:
+            new_value = self.driver.fresh_object(to_object_type(type), name)
+            self.state.write(name, new_value)
 
         # the body is executed when both the condition and inv hold
         cond = o.expr.accept(self)
@@ -799,6 +798,13 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             return 0 - cast(Int, expr)
         raise Exception(f"Unsupported unary operator '{o.op}'")
 
+    # the name of the variable that a method call modifies
+    def modified_var(self, o: CallExpr) -> str:
+        callee_expr = o.callee.expr  # type: ignore
+        if not isinstance(callee_expr, NameExpr):
+            raise Exception("Only variables can be modified!")
+        return callee_expr.name
+
     def visit_call_expr(self, o: CallExpr) -> Object:
         if is_func_call_with_name(o, "len"):
             assert len(o.args) == 1
@@ -813,9 +819,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
                 raise Exception(".append only supported on lists!")
             assert len(o.args) == 1
             elem_to_append = o.args[0].accept(self)
-            var_name = callee_expr.var_name()
             list_after_append = callee_expr.append(elem_to_append)
-            self.state.write(var_name, list_after_append)
+            self.state.write(self.modified_var(o), list_after_append)
             return list_after_append
         elif is_method_call_with_name(o, "add") or is_method_call_with_name(
             o, "remove"
@@ -835,7 +840,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             set_after_modification = call(
                 func_call_name, callee_expr.type, callee_expr, singleton_set
             )
-            self.state.write(callee_expr.var_name(), set_after_modification)
+            self.state.write(self.modified_var(o), set_after_modification)
             return set_after_modification
         elif is_func_call(o) and get_fn_name(o) in self.uninterp_fns:
             # Uninterpreted functions
@@ -873,6 +878,17 @@ class Driver:
             raise Exception("source is not variable!")
         self.var_tracker.variable(var_object.var_name(), var_object.src.type)
 
+    # adds a variable that is different from all existing ones
+    def fresh_object(self, type: ObjectT, name: str) -> Object:
+        existing = {var.name() for var in self.var_tracker.all()}
+        fresh_name, num = name, 0
+        while fresh_name in existing:
+            num += 1
+            fresh_name = f"{name}_{num}"
+        var_object = create_object(type, fresh_name)
+        self.add_var_object(var_object)
+        return var_object
+
     def add_var_objects(self, var_objects: List[Object]) -> None:
         for var_object in var_objects:
             self.add_var_object(var_object)
-- 
2.43.0


From 529355ee958c9c50fc0eaa8b42af21f50f40bfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 11/44] fix: assume the postcondition of an earlier call for
 its own arguments and result

---
 metalift/frontend/python.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 5a00af7..ec99284 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -1026,10 +1026,11 @@ class MetaliftFunc:
         self.driver.asserts += v.state.asserts
 
         object_type = to_object_type(cast(CallableType, self.ast.type).ret_type)
-        ret_val = create_object(object_type, f"{self.name}_rv")
-        self.driver.add_var_object(ret_val)
+        # each call has its own result
+        ret_val = self.driver.fresh_object(object_type, f"{self.name}_rv")
 
-        ps = call(f"{self.name}_ps", Bool, ret_val, *args)
+        # same order of arguments as in the postcondition
+        ps = call(f"{self.name}_ps", Bool, *args, ret_val)
 
         self.driver.postconditions.append(cast(Bool, ps))
 
-- 
2.43.0


From ad83b5b6d57353442f8b13eb72fa238a73cc7397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 12/44] fix: define predicates over the parameters of a
 function

---
 metalift/frontend/python.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index ec99284..a90058d 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -363,6 +363,14 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         self.types = types
         self.uninterp_fns = uninterp_fns
 
+    # The parameters of the function. Predicates are defined over these rather than the arguments
+    # of a call, which have other names and need not be variables.
+    def formal_objects(self) -> List[Object]:
+        return [
+            create_object(to_object_type(type), cast(str, name))
+            for name, type in zip(self.fn_type.arg_names, self.fn_type.arg_types)
+        ]
+
     # Definitions
 
     def visit_assignment_stmt(self, o: AssignmentStmt) -> None:
@@ -412,7 +420,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.pred_tracker.postcondition(
                 o,
                 [return_arg],
-                self.args,
+                self.formal_objects(),
                 self.ps_grammar,
             )
 
@@ -483,11 +491,6 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
 
         print(f"loop writes: {writes}, reads: {reads}, scope: {in_scope}")
 
-        assert None not in self.fn_type.arg_names
-        formals = list(
-            zip(cast(List[str], self.fn_type.arg_names), self.fn_type.arg_types)
-        )
-
         write_objects = [
             create_object(to_object_type(type), name) for name, type in writes
         ]
@@ -500,7 +503,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         inv = self.pred_tracker.invariant(
             fn_name=self.fn_name,
             o=o,
-            args=self.args,
+            args=self.formal_objects(),
             writes=write_objects,
             reads=read_objects,
             in_scope=in_scope_objects,
-- 
2.43.0


From b110139c579f02898ee9832b4e3d1fb87883974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 13/44] fix: take the types of variables in scope from their
 own function

---
 metalift/frontend/python.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index a90058d..c96501c 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -214,6 +214,17 @@ class RWVarsVisitor(TraverserVisitor):
             a.accept(self)
 
 
+# all uses of names
+class NamesVisitor(TraverserVisitor):
+    names: List[NameExpr]
+
+    def __init__(self) -> None:
+        self.names = []
+
+    def visit_name_expr(self, o: NameExpr) -> None:
+        self.names.append(o)
+
+
 class Predicate:
     args: List[Object]
     writes: List[Object]
@@ -466,15 +477,13 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
     def visit_operator_assignment_stmt(self, o: OperatorAssignmentStmt) -> None:
         raise NotImplementedError()
 
+    # only looks at this function, others can use the same names for variables of other types
     def in_scope_vars(
         self, vars: Dict[str, Object], types: Dict[MypyExpr, MypyType]
     ) -> Set[MypyVar]:
-        r = set()
-        for v in vars.keys():
-            for k, t in types.items():
-                if isinstance(k, NameExpr) and k.name == v:
-                    r.add((v, t))
-        return r
+        v = NamesVisitor()
+        self.ast.accept(v)
+        return {(o.name, types[o]) for o in v.names if o.name in vars and o in types}
 
     def visit_while_stmt(self, o: WhileStmt) -> None:
         v = RWVarsVisitor(self.types)
-- 
2.43.0


From d1b2145b601574ca888c84a71994087d9a8d57e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 14/44] fix: attach summaries to their own functions and only
 when all are usable

---
 metalift/frontend/python.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index c96501c..77a5f52 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -948,17 +948,21 @@ class Driver:
             uninterp_fns=self.uninterp_fns,
         )
 
+        summaries: Dict[str, Expr] = dict()
         for f in synthesized:
-            m = re.match("(\w+)_ps", f.name())  # ignore the invariants
+            m = re.fullmatch(r"(\w+)_ps", f.name())  # ignore the invariants
             if m:
                 name = m.groups()[0]
-                if isinstance(f.body(), Eq):
-                    self.fns[name].synthesized = cast(Eq, f.body()).e2()
-                    print(f"{name} synthesized: {self.fns[name].synthesized}")
-                else:
+                if not isinstance(f.body(), Eq):
                     raise Exception(
                         f"synthesized fn body doesn't have form val = ...: {f.body()}"
                     )
+                summaries[name] = cast(Eq, f.body()).e2()
+
+        # only change the functions once all results are known to be usable
+        for name, summary in summaries.items():
+            self.fns[name].synthesized = summary
+            print(f"{name} synthesized: {summary}")
 
     def add_precondition(self, e: Bool) -> None:
         # this gets propagated to the State when it is created
-- 
2.43.0


From a19a583a6e52114dc1a80efd14b2bbaa69f8d721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:13 +0000
Subject: [PATCH 15/44] fix: only take a summary from an equation for the
 result

---
 metalift/frontend/python.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 77a5f52..b455f53 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -953,17 +953,32 @@ class Driver:
             m = re.fullmatch(r"(\w+)_ps", f.name())  # ignore the invariants
             if m:
                 name = m.groups()[0]
-                if not isinstance(f.body(), Eq):
-                    raise Exception(
-                        f"synthesized fn body doesn't have form val = ...: {f.body()}"
-                    )
-                summaries[name] = cast(Eq, f.body()).e2()
+                summaries[name] = self.summary(f)
 
         # only change the functions once all results are known to be usable
         for name, summary in summaries.items():
             self.fns[name].synthesized = summary
             print(f"{name} synthesized: {summary}")
 
+    # the value of a synthesized fn of the form val = ... or ... = val
+    def summary(self, f: FnDeclRecursive) -> Expr:
+        ret_name = cast(Var, f.arguments()[-1]).name()
+
+        def is_ret(e: Any) -> bool:
+            return isinstance(e, Var) and e.name() == ret_name
+
+        def mentions_ret(e: Any) -> bool:
+            return is_ret(e) or (
+                isinstance(e, Expr) and any(mentions_ret(a) for a in e.args)
+            )
+
+        body = f.body()
+        if isinstance(body, Eq):
+            for val, other in ((body.e1(), body.e2()), (body.e2(), body.e1())):
+                if is_ret(val) and not mentions_ret(other):
+                    return other
+        raise Exception(f"synthesized fn body doesn't have form val = ...: {body}")
+
     def add_precondition(self, e: Bool) -> None:
         # this gets propagated to the State when it is created
         self.postconditions.append(e)
-- 
2.43.0


From 186a39bc0008515ee71227ef7dfdbef846dcf258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:13 +0000
Subject: [PATCH 16/44] fix: leave nothing behind when an analysis fails

---
 metalift/frontend/python.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index b455f53..db7ca5c 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -1053,7 +1053,17 @@ class MetaliftFunc:
             self.uninterp_fns,
         )
 
-        self.ast.accept(v)
+        # a failed analysis must not leave parts of its predicates and variables behind
+        predicates = dict(self.driver.inv_tracker.predicates)
+        num = self.driver.inv_tracker.num
+        var_to_type = dict(self.driver.var_tracker.var_to_type)
+        try:
+            self.ast.accept(v)
+        except BaseException:
+            self.driver.inv_tracker.predicates = predicates
+            self.driver.inv_tracker.num = num
+            self.driver.var_tracker.var_to_type = var_to_type
+            raise
         self.driver.asserts += v.state.asserts
 
         object_type = to_object_type(cast(CallableType, self.ast.type).ret_type)
-- 
2.43.0


From b857cb6dfef1e5eceb8acbb5391d0a6b10bab570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 17/44] fix: declare no variable for the function itself and
 shared definitions once

---
 metalift/frontend/python.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index db7ca5c..b072cde 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -405,7 +405,6 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             # print(f"analyze fn {o.name} type: {o.type}")
             self.fn_type = fn_type
             self.ret_val = create_object(to_object_type(fn_type.ret_type), self.fn_name)
-            self.driver.add_var_object(self.ret_val)
             self.ast = o
 
             arg_names = cast(List[str], fn_type.arg_names)
@@ -932,9 +931,12 @@ class Driver:
         print("asserts: %s" % self.asserts)
         vc = and_objects(*self.asserts).src
 
-        target = []
+        # functions can share definitions, which must not be repeated
+        target: List[Union[FnDecl, FnDeclRecursive]] = []
         for fn in self.fns.values():
-            target += fn.target_lang_fn()
+            for decl in fn.target_lang_fn():
+                if decl not in target:
+                    target.append(decl)
 
         synthesized: List[FnDeclRecursive] = run_synthesis(
             basename="test",
-- 
2.43.0


From 2bf1907f134c9c36108328cf9daf484bd2e963f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 18/44] fix: reject functions that modify a list or set with
 two names

---
 metalift/frontend/python.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index b072cde..f4f009d 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -225,6 +225,22 @@ class NamesVisitor(TraverserVisitor):
         self.names.append(o)
 
 
+# names of the variables that are modified by method calls
+class ModifiedVarsVisitor(TraverserVisitor):
+    names: Set[str]
+
+    def __init__(self) -> None:
+        self.names = set()
+
+    def visit_call_expr(self, o: CallExpr) -> None:
+        super().visit_call_expr(o)
+        for method in ("append", "add", "remove"):
+            if is_method_call_with_name(o, method):
+                callee_expr = o.callee.expr  # type: ignore
+                if isinstance(callee_expr, NameExpr):
+                    self.names.add(callee_expr.name)
+
+
 class Predicate:
     args: List[Object]
     writes: List[Object]
@@ -388,7 +404,16 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         if len(o.lvalues) > 1:
             raise RuntimeError(f"multi assignments not supported: {o}")
         target = cast(NameExpr, o.lvalues[0]).name
-        self.state.write(target, o.rvalue.accept(self))
+        value = o.rvalue.accept(self)
+        if isinstance(value, (mlList, mlSet)) and isinstance(o.rvalue, NameExpr):
+            # both names refer to the same list or set from here on
+            v = ModifiedVarsVisitor()
+            self.ast.accept(v)
+            if target in v.names or o.rvalue.name in v.names:
+                raise RuntimeError(
+                    f"{target} and {o.rvalue.name} are the same object and one of them is modified"
+                )
+        self.state.write(target, value)
 
     def visit_for_stmt(self, o: ForStmt) -> None:
         raise NotImplementedError()
-- 
2.43.0


From 9b0c13d046bdab6a9c6c4a6d5943fb84879e5e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:01 +0000
Subject: [PATCH 19/44] fix: keep the arguments of functions that append to a
 parameter

---
 metalift/frontend/python.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index f4f009d..b2aba4a 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -445,7 +445,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
                     raise RuntimeError(
                         f"expect {actual} to have type {to_object_type(formal[1])} rather than {actual.type}"
                     )
-                self.state.write(formal[0], actual)
+                # the function can modify its list or set, the postcondition is about the argument
+                self.state.write(formal[0], copy.deepcopy(actual))
 
             if fn_type.ret_type is None:
                 raise RuntimeError(f"fn must return a value: {fn_type}")
-- 
2.43.0


From 3d4d8ef6460d4934db90e6c9a105c85b553b06f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:44 +0000
Subject: [PATCH 20/44] fix: accept two names for a list or set in functions
 without branches

---
 metalift/frontend/python.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index b2aba4a..5077bc7 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -228,9 +228,19 @@ class NamesVisitor(TraverserVisitor):
 # names of the variables that are modified by method calls
 class ModifiedVarsVisitor(TraverserVisitor):
     names: Set[str]
+    branches: bool
 
     def __init__(self) -> None:
         self.names = set()
+        self.branches = False
+
+    def visit_if_stmt(self, o: IfStmt) -> None:
+        super().visit_if_stmt(o)
+        self.branches = True
+
+    def visit_while_stmt(self, o: WhileStmt) -> None:
+        super().visit_while_stmt(o)
+        self.branches = True
 
     def visit_call_expr(self, o: CallExpr) -> None:
         super().visit_call_expr(o)
@@ -406,10 +416,11 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         target = cast(NameExpr, o.lvalues[0]).name
         value = o.rvalue.accept(self)
         if isinstance(value, (mlList, mlSet)) and isinstance(o.rvalue, NameExpr):
-            # both names refer to the same list or set from here on
+            # both names refer to the same list or set from here on, which is
+            # lost when branches are merged
             v = ModifiedVarsVisitor()
             self.ast.accept(v)
-            if target in v.names or o.rvalue.name in v.names:
+            if v.branches and (target in v.names or o.rvalue.name in v.names):
                 raise RuntimeError(
                     f"{target} and {o.rvalue.name} are the same object and one of them is modified"
                 )
-- 
2.43.0


From c9de6540aa6f4f9103aa1fe42556c400cd7f7fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 21/44] fix: llmlift accepts a solution only when the verifier
 says so

---
 llmlift_scripts/synthesis.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index a08cf27..1091ddb 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -274,9 +274,13 @@ def verify_benchmark_rosette(
     # Run the verification
     print(f"Running verification for benchmark {benchmark_name}")
     verification_output = subprocess.run(
-        ["racket", verify_file_name], check=True, capture_output=True
+        ["racket", verify_file_name], capture_output=True
     )
-    if verification_output.stdout.decode("utf-8").split("\n")[0] == "(unsat)":
+    # Only a verifier that ran to completion has verified anything.
+    if (
+        verification_output.returncode == 0
+        and verification_output.stdout.decode("utf-8").split("\n")[0] == "(unsat)"
+    ):
         print("Verification successful")
         print("\n\n")
         return True
@@ -296,7 +300,7 @@ def verify_benchmark_smt(
     dsl_fns: list[FnDecl | FnDeclRecursive],
     vc: Expr,
     dsl_fn_name_to_axioms: dict[str, list[Axiom]],
-) -> None:
+) -> bool:
     """Verify the benchmark using SMT."""
     SYNTHESIS_LOGS_DIR.mkdir(exist_ok=True)
     verify_file = SYNTHESIS_LOGS_DIR / f"verify_{benchmark_name}.smt"
@@ -341,7 +345,7 @@ def verify_benchmark_smt(
         proc_output = verify_proc.stdout
         result_verify = proc_output.decode("utf-8").split("\n")[0]
         print(result_verify)
-        return True
+        return result_verify == "unsat"
 
 
 def run_llm_synthesis_algorithm(
-- 
2.43.0


From d10f9cf064d9eb97d72bf30ae527d4bc96d33ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 22/44] fix: the answer of every model is one string, empty
 when it has no code

---
 llmlift_scripts/synthesis.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 1091ddb..21f2712 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -3,7 +3,7 @@ import os
 import subprocess
 from enum import Enum
 from pathlib import Path
-from typing import Any, Union
+from typing import Any, Optional, Union
 
 import google.generativeai as genai
 
@@ -574,6 +574,11 @@ def run_llm_synthesis_algorithm(
     print(ps_sol)
 
 
+def extract_solution(text: Optional[str]) -> str:
+    """Extract the functions in the answer of a model, which may have none."""
+    return replace_ite("\n\n".join(extract_all_python_functions(text or "")))
+
+
 def get_solution_from_claude(messages: list[dict[str, Any]]) -> str:
     print("running with claude")
     message = CLAUDE_CLIENT.messages.create(
@@ -583,8 +588,7 @@ def get_solution_from_claude(messages: list[dict[str, Any]]) -> str:
         system=TEMPLATE_SYS,
         messages=messages,
     )
-    raw_solutions = extract_all_python_functions(message.content[0].text)
-    return [replace_ite(raw_solution) for raw_solution in raw_solutions]
+    return extract_solution(message.content[0].text if message.content else None)
 
 
 def get_solution_from_gpt(messages: list[dict[str, Any]]) -> str:
@@ -596,10 +600,9 @@ def get_solution_from_gpt(messages: list[dict[str, Any]]) -> str:
         n=1,
         temperature=0.7,
     )
-    outputs = [choice.message.content for choice in outputs.choices]
-    raw_output = "\n\n".join(extract_all_python_functions(outputs[0]))
-    extracted_output = replace_ite(raw_output)
-    return extracted_output
+    return extract_solution(
+        outputs.choices[0].message.content if outputs.choices else None
+    )
 
 
 def get_solution_from_gemini(messages: list[dict[str, Any]]) -> str:
@@ -626,9 +629,12 @@ def get_solution_from_gemini(messages: list[dict[str, Any]]) -> str:
 
     chat_session = model.start_chat(history=messages_copy[:-1])
     response = chat_session.send_message(messages_copy[-1]["parts"])
-    raw_solution = extract_all_python_functions(response.text)[0]
-    extracted_solution = replace_ite(raw_solution)
-    return extracted_solution
+    try:
+        text = response.text
+    except ValueError:
+        # The response has no text, for example because it was blocked.
+        text = None
+    return extract_solution(text)
 
 
 def get_solution_from_llm(llm_model: LLMModel, messages: list[dict[str, Any]]) -> str:
-- 
2.43.0


From 2a8d975cb14abaa6f8b9eb88eeb879315b8135fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 23/44] fix: llmlift without verification accepts the first
 solution

---
 llmlift_scripts/synthesis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 21f2712..d235653 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -553,6 +553,7 @@ def run_llm_synthesis_algorithm(
                 )
             elif verification_method == VerificationMethod.NONE:
                 print("Skpping verification...")
+                verified = True
             else:
                 raise Exception(
                     f"Unsupported verification method {verification_method}"
-- 
2.43.0


From 403edee1c089aa5f3fce34cf5ed6fe0175464b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 24/44] fix: a proposal that cannot be used consumes one
 attempt of llmlift

---
 llmlift_scripts/synthesis.py | 125 ++++++++++++++++++++---------------
 1 file changed, 72 insertions(+), 53 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index d235653..3625fd4 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -226,7 +226,7 @@ def verify_benchmark_rosette(
     """Verify the benchmark using Rosette."""
     bitwuzla_path = os.getenv("BITWUZLA_PATH")
     if bitwuzla_path is None:
-        raise Exception("Please set BITWUZLA_PATH")
+        raise EnvironmentError("Please set BITWUZLA_PATH")
     print(f"Generating verification file for benchmark {benchmark_name}")
 
     SYNTHESIS_LOGS_DIR.mkdir(exist_ok=True)
@@ -407,26 +407,37 @@ def run_llm_synthesis_algorithm(
                 lambda_exprs=lambda_exprs,
                 arg_name_to_count=arg_name_to_count,
             )
+            process_synthesized_fn_decls(
+                output_var=output_var,
+                benchmark_name=benchmark_name,
+                synthesized_fn_decls=ps_fn_decls,
+            )
+
+            # Generate the invariant
+            ps_fn_decl = next(
+                (
+                    fn_decl
+                    for fn_decl in ps_fn_decls
+                    if fn_decl.name() == f"{benchmark_name}_ps"
+                ),
+                None,
+            )
+            if ps_fn_decl is None:
+                raise Exception(f"No function is named {benchmark_name}")
+            inv_prompt = get_inv_prompt(
+                source_code=source_code,
+                ps_fn_decl=ps_fn_decl,
+                loop_info=loop_info,
+                dsl_code=dsl_code,
+            )
             print("Passed the parser, continuing to invariant generation")
+        except OSError:
+            raise
         except Exception as e:
             print("Failed to pass the parser", e)
             print("Skipping invariant generation")
             continue
 
-        process_synthesized_fn_decls(
-            output_var=output_var,
-            benchmark_name=benchmark_name,
-            synthesized_fn_decls=ps_fn_decls,
-        )
-
-        # Generate the invariant
-        ps_fn_decl = next(fn_decl for fn_decl in ps_fn_decls if "ps" in fn_decl.name())
-        inv_prompt = get_inv_prompt(
-            source_code=source_code,
-            ps_fn_decl=ps_fn_decl,
-            loop_info=loop_info,
-            dsl_code=dsl_code,
-        )
         inv_sols: list[str] = []
         for inv_sol_index in range(max_num_inv_sols):
             print(f"----- Generating {inv_sol_index} invariant -----")
@@ -454,17 +465,18 @@ def run_llm_synthesis_algorithm(
                     lambda_exprs=lambda_exprs,
                     arg_name_to_count=arg_name_to_count,
                 )
+                process_synthesized_fn_decls(
+                    output_var=output_var,
+                    benchmark_name=benchmark_name,
+                    synthesized_fn_decls=inv_fn_decls,
+                )
                 print("Passed the parser, continuing to verification")
+            except OSError:
+                raise
             except Exception as e:
                 print("Failed to pass the parser", e)
                 continue
 
-            process_synthesized_fn_decls(
-                output_var=output_var,
-                benchmark_name=benchmark_name,
-                synthesized_fn_decls=inv_fn_decls,
-            )
-
             synthesized_fn_decls = list(set([*ps_fn_decls, *inv_fn_decls]))
             in_calls = [*ps_inv_calls, *inv_in_calls]
 
@@ -526,38 +538,45 @@ def run_llm_synthesis_algorithm(
                     elif fn_decl.name() == SELECTION_TWO_ARGS:
                         dsl_fns[idx] = dissolve_selection_two_args_fn_decl
 
-            # Generate VC.
-            # Write assertions
-            vc = and_objects(*driver.asserts).src.simplify()
-            vc = replace_in_calls(vc, in_calls)
-
-            # Verify the solution
-            if verification_method == VerificationMethod.SMT:
-                verified = verify_benchmark_smt(
-                    driver=driver,
-                    benchmark_name=benchmark_name,
-                    synthesized_fn_decls=synthesized_fn_decls,
-                    in_calls=in_calls,
-                    dsl_fns=dsl_fns,
-                    vc=vc,
-                    dsl_fn_name_to_axioms=dsl_fn_name_to_axioms,
-                )
-            elif verification_method == VerificationMethod.ROSETTE:
-                verified = verify_benchmark_rosette(
-                    driver=driver,
-                    benchmark_name=benchmark_name,
-                    synthesized_fn_decls=synthesized_fn_decls,
-                    in_calls=in_calls,
-                    dsl_fns=dsl_fns,
-                    vc=vc,
-                )
-            elif verification_method == VerificationMethod.NONE:
-                print("Skpping verification...")
-                verified = True
-            else:
-                raise Exception(
-                    f"Unsupported verification method {verification_method}"
-                )
+            try:
+                # Generate VC.
+                # Write assertions
+                vc = and_objects(*driver.asserts).src.simplify()
+                vc = replace_in_calls(vc, in_calls)
+
+                # Verify the solution. A solution that cannot be posed to the
+                # verifier is not correct.
+                if verification_method == VerificationMethod.SMT:
+                    verified = verify_benchmark_smt(
+                        driver=driver,
+                        benchmark_name=benchmark_name,
+                        synthesized_fn_decls=synthesized_fn_decls,
+                        in_calls=in_calls,
+                        dsl_fns=dsl_fns,
+                        vc=vc,
+                        dsl_fn_name_to_axioms=dsl_fn_name_to_axioms,
+                    )
+                elif verification_method == VerificationMethod.ROSETTE:
+                    verified = verify_benchmark_rosette(
+                        driver=driver,
+                        benchmark_name=benchmark_name,
+                        synthesized_fn_decls=synthesized_fn_decls,
+                        in_calls=in_calls,
+                        dsl_fns=dsl_fns,
+                        vc=vc,
+                    )
+                elif verification_method == VerificationMethod.NONE:
+                    print("Skpping verification...")
+                    verified = True
+                else:
+                    raise Exception(
+                        f"Unsupported verification method {verification_method}"
+                    )
+            except OSError:
+                raise
+            except Exception as e:
+                print("Failed to verify the solution", e)
+                continue
 
             if verified:
                 print("Solution verified")
-- 
2.43.0


From fc84e936a390c468959fcc52278bb698f31cc442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 25/44] fix: a summary proposed to llmlift names its parameters
 as the source does

---
 llmlift_scripts/synthesis.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 3625fd4..30d2035 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -424,6 +424,15 @@ def run_llm_synthesis_algorithm(
             )
             if ps_fn_decl is None:
                 raise Exception(f"No function is named {benchmark_name}")
+            # Parameters are passed in the order of their names, so the function has to
+            # name them as the source does.
+            expected_args = driver.pred_tracker.predicates[benchmark_name].args[:-1]
+            expected_names = {arg.var_name() for arg in expected_args}
+            actual_names = {arg.name() for arg in ps_fn_decl.arguments()[:-1]}
+            if actual_names != expected_names:
+                raise Exception(
+                    f"{benchmark_name} must have the parameters {sorted(expected_names)}"
+                )
             inv_prompt = get_inv_prompt(
                 source_code=source_code,
                 ps_fn_decl=ps_fn_decl,
-- 
2.43.0


From bbd964562398b0eb6aa4919f62d5dab08f791960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 26/44] fix: an attempt of llmlift leaves the summary, the
 target functions and names of others as they were

---
 llmlift_scripts/synthesis.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 30d2035..3f010ce 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -371,6 +371,9 @@ def run_llm_synthesis_algorithm(
     we return a list with maximum length of `max_num_tries` and each element containing the following information:
     - solutions: A list of solutions that we tried to pass to parser. Each solution is in the form of (solution, feedback, time_taken) tuple.
     """
+    # Verifying a solution may rewrite the functions it is given.
+    dsl_fns = copy.deepcopy(list(dsl_fns))
+
     # First we need to get DSL code
     dsl_code = "\n\n".join(fn.to_python() for fn in dsl_fns)
 
@@ -464,6 +467,9 @@ def run_llm_synthesis_algorithm(
             print("Generated new INV solution", inv_sol)
             inv_sols.append(inv_sol)
 
+            # Every invariant starts from the summary as the model gave it.
+            inv_lambda_exprs = dict(lambda_exprs)
+            inv_arg_name_to_count = dict(arg_name_to_count)
             try:
                 _, inv_fn_decls, inv_in_calls = check_solution(
                     solution=inv_sol,
@@ -471,8 +477,8 @@ def run_llm_synthesis_algorithm(
                     if isinstance(loop_info, SingleLoopInfo)
                     else 2,
                     dsl_code=dsl_code,
-                    lambda_exprs=lambda_exprs,
-                    arg_name_to_count=arg_name_to_count,
+                    lambda_exprs=inv_lambda_exprs,
+                    arg_name_to_count=inv_arg_name_to_count,
                 )
                 process_synthesized_fn_decls(
                     output_var=output_var,
@@ -486,7 +492,9 @@ def run_llm_synthesis_algorithm(
                 print("Failed to pass the parser", e)
                 continue
 
-            synthesized_fn_decls = list(set([*ps_fn_decls, *inv_fn_decls]))
+            synthesized_fn_decls = list(
+                dict.fromkeys([*copy.deepcopy(ps_fn_decls), *inv_fn_decls])
+            )
             in_calls = [*ps_inv_calls, *inv_in_calls]
 
             # This is a hack for dissolve_blend_8
-- 
2.43.0


From 6b1e30fa4586976d969758d0c76da6022539fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 27/44] fix: a target language is parsed with its own functions

---
 llmlift_scripts/parser.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 05ee5c5..0f58571 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -117,10 +117,10 @@ def _get_func_def_arg_names(func_def: FuncDef) -> list[str]:
 
 
 @lru_cache(maxsize=None)
-def get_dsl_func_defs() -> List[FuncDef]:
+def get_dsl_func_defs(dsl_code: str) -> List[FuncDef]:
     """
-    Get the function definitions of the python dsl module.
-    This is cached because the dsl file never changes.
+    Get the function definitions of the python dsl module, which contains dsl_code.
+    This is cached because the dsl file changes only with the code.
     """
     options = Options()
     options.incremental = False  # turn off caching of previously typed results
@@ -144,7 +144,7 @@ def get_dsl_func_defs() -> List[FuncDef]:
 
 
 def mypy_parse(
-    code: str, expected_num_funcs: int = 1
+    code: str, dsl_code: str, expected_num_funcs: int = 1
 ) -> tuple[list[FuncDef], dict[str, list[ObjectT]], dict[Node, MypyType]]:
     options = Options()
     # Incremental mode so we don't build the dsl code every time
@@ -173,7 +173,7 @@ def mypy_parse(
 
     # We reject functions that don't have type information in the signature
     func_sign: dict[str, tuple[Type | None, ObjectT | None, list[str]]] = {}
-    for func_def in [*target_func_defs, *get_dsl_func_defs()]:
+    for func_def in [*target_func_defs, *get_dsl_func_defs(dsl_code)]:
         func_ir_type = mypy_type_to_ir_type(func_def.type)
         if func_ir_type is None:
             raise Exception(f"Function {func_def.name} has no type information")
@@ -533,7 +533,9 @@ def check_solution(
     full_prog = dedent(
         remove_comments(universal_imports + dsl_imports + dedent(solution))
     )
-    target_func_defs, func_sigs, types = mypy_parse(full_prog, expected_num_funcs)
+    target_func_defs, func_sigs, types = mypy_parse(
+        full_prog, dsl_code_with_imports, expected_num_funcs
+    )
     fn_decls: list[FnDeclRecursive] = []
     in_calls: list[tuple[str, str]] = []
 
-- 
2.43.0


From b297e5f996e726ac35e1e03d247a5020fc6cabb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 28/44] fix: ite with calls, nested or in an expression keeps
 its meaning

---
 llmlift_scripts/utils.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/llmlift_scripts/utils.py b/llmlift_scripts/utils.py
index ec4fd2b..83c5cbb 100644
--- a/llmlift_scripts/utils.py
+++ b/llmlift_scripts/utils.py
@@ -35,15 +35,31 @@ def extract_all_python_functions(s: str) -> list[str]:
 
 def replace_ite(ps_sol: str) -> str:
     """Replace ite() with the Python ternary operator."""
+    match = re.search(r"\bite\(", ps_sol)
+    if match is None:
+        return ps_sol
 
-    def repl_func(match):
-        cond = match.group(1).strip()
-        a = match.group(2).strip()
-        b = match.group(3).strip()
-        return f"{a} if {cond} else {b}"
-
-    ite_pattern = r"ite\(([^,]+),\s*([^,]+),\s*([^)]+)\)"
-    return re.sub(ite_pattern, repl_func, ps_sol)
+    # Find the arguments of this ite, which can have parentheses and commas themselves.
+    args: list[str] = []
+    depth = 0
+    arg_start = match.end()
+    for idx in range(match.end(), len(ps_sol)):
+        char = ps_sol[idx]
+        if depth == 0 and char in ",)":
+            args.append(ps_sol[arg_start:idx].strip())
+            arg_start = idx + 1
+            if char == ")":
+                break
+        elif char in "([{":
+            depth += 1
+        elif char in ")]}":
+            depth -= 1
+    prefix = ps_sol[: match.start()]
+    if arg_start == match.end() or ps_sol[arg_start - 1] != ")" or len(args) != 3:
+        # This is not a complete ite.
+        return prefix + match.group(0) + replace_ite(ps_sol[match.end() :])
+    cond, a, b = (replace_ite(arg) for arg in args)
+    return f"{prefix}(({a}) if ({cond}) else ({b})){replace_ite(ps_sol[arg_start:])}"
 
 
 def get_inv_args(
-- 
2.43.0


From cd44dbdcf28ccbd11b85936fa7fd74a4ee4a9c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 29/44] fix: literals and keyword arguments in proposals are
 not misread

---
 llmlift_scripts/parser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 0f58571..c5193a2 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -9,6 +9,7 @@ from mypy import build
 from mypy.defaults import PYTHON3_VERSION
 from mypy.modulefinder import BuildSource
 from mypy.nodes import (
+    ARG_POS,
     AssignmentStmt,
     Block,
     CallExpr,
@@ -324,6 +325,11 @@ def mypy_node_to_ir(
                 ret_ir_type = func_ir_type.return_type(get_args(func_ir_type))
                 arguments_ir_types = func_ir_type.argument_types(get_args(func_ir_type))
 
+                if any(kind != ARG_POS for kind in node.arg_kinds):
+                    raise Exception(
+                        f"Only positional arguments are supported, but {func_name} has others"
+                    )
+
                 # Check number of arguments
                 actual_num_args = len(node.args)
                 expected_num_args = len(func_type.arg_names)
@@ -377,6 +383,8 @@ def mypy_node_to_ir(
                     )
                 return call(func_name, ret_ir_type, *arg_exprs).src
         elif isinstance(node, NameExpr):
+            if node.name in {"True", "False"}:
+                return create_object(Bool, node.name == "True").src
             # Nothing can go wrong with a name expression (which are basically variables)
             ir_type = mypy_type_to_ir_type(types[node])
             return create_object(ir_type, node.name).src
@@ -434,6 +442,8 @@ def mypy_node_to_ir(
         elif isinstance(node, IntExpr):
             return create_object(Int, node.value).src
         elif isinstance(node, ListExpr):
+            if len(node.items) > 0:
+                raise Exception("Only empty list literals are supported")
             node_type = mypy_type_to_ir_type(types[node])
             return node_type.empty(get_args(node_type)[0]).src
         elif isinstance(node, ConditionalExpr):
-- 
2.43.0


From cae3ef6c93364f3df35a0d3949adea06c498cb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 30/44] fix: havoc loop variables of the LLVM front end with
 fresh values

---
 metalift/frontend/llvm.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 6cdb40b..e57f3b1 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1181,12 +1181,14 @@ class VCVisitor:
         header_loops = self.find_header_loops(block.name)
         for loop in header_loops:
             primitive_havocs, pointer_havocs = self.get_havocs(block.name, loop)
+            # the values must be independent of those in other loops and functions
             for havoc in primitive_havocs:
-                self.write_var_to_block(block.name, havoc.var_name(), havoc)
+                fresh = self.driver.fresh_object(havoc.type, havoc.var_name())
+                self.write_var_to_block(block.name, havoc.var_name(), fresh)
             for havoc in pointer_havocs:
-                self.store_var_to_block(block.name, havoc.var_name(), havoc)
+                fresh = self.driver.fresh_object(havoc.type, havoc.var_name())
+                self.store_var_to_block(block.name, havoc.var_name(), fresh)
             havocs = primitive_havocs + pointer_havocs
-            self.driver.add_var_objects(havocs)
             inv_name = f"{self.fn_name}_inv{self.loops.index(loop)}"
 
             # TODO: extract this logic to be better
@@ -1534,6 +1536,17 @@ class Driver:
             raise Exception("source is not variable!")
         self.var_tracker.variable(var_object.var_name(), var_object.type)
 
+    # adds a variable that is different from all existing ones
+    def fresh_object(self, type: ObjectT, name: str) -> Object:
+        existing = {var.name() for var in self.var_tracker.all()}
+        fresh_name, num = name, 0
+        while fresh_name in existing:
+            num += 1
+            fresh_name = f"{name}_{num}"
+        var_object = create_object(type, fresh_name)
+        self.add_var_object(var_object)
+        return var_object
+
     def add_var_objects(self, var_objects: List[Object]) -> None:
         for var_object in var_objects:
             self.add_var_object(var_object)
-- 
2.43.0


From f4a6850c590450c596e2ff410cc29a3cd9c9f435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:18 +0000
Subject: [PATCH 31/44] fix: return the final value of a returned vector, and
 do not assume its summary elsewhere

---
 metalift/frontend/llvm.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index e57f3b1..3063e43 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1406,14 +1406,10 @@ class VCVisitor:
         ret_void = len(ops) == 0
         ret_val: Optional[Object] = None
         if ret_void and self.fn_sret_arg is not None:
-            # We have to fetch the current type because the return type might have changed from the
-            # beginning.
+            # The type of the current value might have changed from the beginning.
             # This is because for list type, at first we assume it's an int list. We only infer the
             # corret type later on after we parse the functions.
-            ret_val_type = self.load_var_from_block(
-                block_name, self.fn_sret_arg.var_name()
-            ).type
-            ret_val = create_object(ret_val_type, self.fn_sret_arg.var_name())
+            ret_val = self.load_var_from_block(block_name, self.fn_sret_arg.var_name())
         elif not ret_void:
             if not ops[0].type.is_pointer:
                 ret_val = self.read_operand_from_block(block_name, ops[0])
@@ -1446,7 +1442,6 @@ class VCVisitor:
             blk_state.asserts.append(implies(and_objects(*blk_state.precond), ps))
         else:
             blk_state.asserts.append(ps)
-        self.driver.postconditions.append(ps)
         print(f"ps: {blk_state.asserts[-1]}")
         blk_state.has_returned = True
 
-- 
2.43.0


From 8a349a678ab641404320e049e3f039e28557eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 32/44] fix: attach LLVM summaries only from an equation for
 the result of their own function

---
 metalift/frontend/llvm.py | 64 +++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 3063e43..88127e1 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1573,16 +1573,10 @@ class Driver:
         We want to rewrite it in a way suitable for code generation, which includes extracting the actual return type and the body.
         """
         for fname, f in self.synthesized_fns.items():
-            m = re.match("(\w+)_ps", fname)  # ignore the invariants
+            m = re.fullmatch(r"(\w+)_ps", fname)  # ignore the invariants
             if m:
-                if isinstance(f.body(), Eq):
-                    body = cast(Eq, f.body()).e2()
-                elif (
-                    isinstance(f.body(), Call)
-                    and cast(Call, f.body()).name() == "list_eq"
-                ):
-                    body = cast(Call, f.body()).arguments()[1]
-                else:
+                body = self.summary(f)
+                if body is None:
                     raise Exception(
                         f"synthesized fn body doesn't have form val = ...: {f.body()}"
                     )
@@ -1616,24 +1610,50 @@ class Driver:
             **synthesize_kwargs,
         )
 
+        synthesized_fns: Dict[str, Any] = {}
+        summaries: Dict[str, Expr] = {}
         for f in synthesized:
             name = f.name()
             if name not in [ip.name() for ip in inv_and_ps]:
                 continue
-            self.synthesized_fns[name] = f
+            synthesized_fns[name] = f
 
             # TODO: added back for codegen
-            m = re.match("(\w+)_ps", f.name())  # ignore the invariants
-            if m:
-                name = m.groups()[0]
-                if isinstance(f.body(), Eq):
-                    self.fns[name].synthesized = cast(Eq, f.body()).e2()  # type: ignore
-                    print(f"{name} synthesized: {self.fns[name].synthesized}")
-                elif (
-                    isinstance(f.body(), Call)
-                    and cast(Call, f.body()).name() == "list_eq"
-                ):
-                    self.fns[name].synthesized = cast(Call, f.body()).arguments()[1]  # type: ignore
+            m = re.fullmatch(r"(\w+)_ps", name)  # ignore the invariants
+            if m and m.groups()[0] in self.fns:
+                summary = self.summary(f)
+                if summary is not None:
+                    summaries[m.groups()[0]] = summary
+
+        # only change the functions once all results are known
+        self.synthesized_fns.update(synthesized_fns)
+        for name, summary in summaries.items():
+            self.fns[name].synthesized = summary  # type: ignore
+            print(f"{name} synthesized: {summary}")
+
+    # the value of a synthesized fn of the form val = ... or ... = val, if it has this form
+    def summary(self, f: Union[FnDecl, FnDeclRecursive]) -> Optional[Expr]:
+        ret_name = cast(Var, f.arguments()[-1]).name()
+
+        def is_ret(e: Any) -> bool:
+            return isinstance(e, Var) and e.name() == ret_name
+
+        def mentions_ret(e: Any) -> bool:
+            return is_ret(e) or (
+                isinstance(e, Expr) and any(mentions_ret(a) for a in e.args)
+            )
+
+        body = f.body()
+        sides: Tuple[Any, ...] = ()
+        if isinstance(body, Eq):
+            sides = (body.e1(), body.e2())
+        elif isinstance(body, Call) and body.name() == "list_eq":
+            sides = tuple(body.arguments())
+        if len(sides) == 2:
+            for val, other in (sides, sides[::-1]):
+                if is_ret(val) and not mentions_ret(other):
+                    return cast(Expr, other)
+        return None
 
     def add_precondition(self, e: Object) -> None:
         # this gets propagated to the State when it is created
@@ -1702,7 +1722,7 @@ class MetaliftFunc:
         self.target_lang_fn = target_lang_fn
         self.inv_grammars = inv_grammars
         self.ps_grammar = ps_grammar
-        self.synthesized = []
+        self.synthesized = None
 
         # Parse and process loops
         raw_loops: List[RawLoopInfo] = parse_loops(loops_filepath, fn_ref.name)
-- 
2.43.0


From 7572d5ef0df705aaef7a627a03822861cc4199a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 33/44] fix: call the default factory of the invariant grammars
 of the LLVM front end

---
 metalift/frontend/llvm.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 88127e1..f014785 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -997,6 +997,13 @@ class VCVisitor:
                 relevant_loops.append(loop)
         return relevant_loops
 
+    def find_inv_grammar(self, inv_name: str) -> Optional[InvGrammar]:
+        # unlike get, this also creates the grammars of a defaultdict
+        try:
+            return self.inv_grammars[inv_name]
+        except KeyError:
+            return None
+
     def get_havocs(
         self, block_name: str, loop_info: LoopInfo
     ) -> Tuple[List[Object], List[Object]]:
@@ -1197,7 +1204,7 @@ class VCVisitor:
                 in_scope_objs.append(create_object(var_obj.type, var_name))
             for var_name, var_obj in blk_state.pointer_vars.items():
                 in_scope_objs.append(create_object(var_obj.type, var_name))
-            inv_grammar = self.inv_grammars.get(inv_name)
+            inv_grammar = self.find_inv_grammar(inv_name)
             if inv_grammar is not None:
                 in_scope_objs = [
                     obj
@@ -1234,7 +1241,7 @@ class VCVisitor:
                 in_scope_objs.append(create_object(var_obj.type, var_name))
             for var_name, var_obj in blk_state.pointer_vars.items():
                 in_scope_objs.append(create_object(var_obj.type, var_name))
-            inv_grammar = self.inv_grammars.get(inv_name)
+            inv_grammar = self.find_inv_grammar(inv_name)
             if inv_grammar is not None:
                 in_scope_objs = [
                     obj
-- 
2.43.0


From a304e0ae26972b74265b2126c99142220a513377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 34/44] fix: leave nothing behind when an analysis of the LLVM
 front end fails

---
 metalift/frontend/llvm.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index f014785..4b3d5dd 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1759,17 +1759,25 @@ class MetaliftFunc:
             uninterp_fns=kwds.get("uninterp_fns", []),
         )
 
-        # Visit blocks in a DAG order
-        done = False
-        while not done:
-            done = True
-            for b in self.fn_blocks.values():
-                if not v.fn_blocks_states[b.name].processed and (
-                    not b.preds
-                    or all([v.fn_blocks_states[p.name].processed for p in b.preds])
-                ):
-                    v.visit_llvm_block(b)
-                    done = False
+        # a failed analysis must not leave parts of its predicates and variables behind
+        predicates = dict(self.driver.pred_tracker.predicates)
+        var_to_type = dict(self.driver.var_tracker.var_to_type)
+        try:
+            # Visit blocks in a DAG order
+            done = False
+            while not done:
+                done = True
+                for b in self.fn_blocks.values():
+                    if not v.fn_blocks_states[b.name].processed and (
+                        not b.preds
+                        or all([v.fn_blocks_states[p.name].processed for p in b.preds])
+                    ):
+                        v.visit_llvm_block(b)
+                        done = False
+        except BaseException:
+            self.driver.pred_tracker.predicates = predicates
+            self.driver.var_tracker.var_to_type = var_to_type
+            raise
 
         # TODO: now we should update the return type
         # if sret_obj is not None:
-- 
2.43.0


From a2a5f302d38c5319f0366b9aba93381e250b91d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:21 +0000
Subject: [PATCH 35/44] fix: reject unknown calls and stores through references
 in the LLVM front end

---
 metalift/frontend/llvm.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 4b3d5dd..2b1fb6c 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1304,8 +1304,14 @@ class VCVisitor:
             value_to_store = self.read_operand_from_block(block_name, ops[0])
         else:
             value_to_store = self.load_operand_from_block(block_name, ops[0])
+        self.check_own_location(ops[1])
         self.store_operand_to_block(block_name, ops[1], value_to_store)
 
+    # Changes are only known to the variables themselves, not to what a pointer or reference refers to
+    def check_own_location(self, op: ValueRef) -> None:
+        if op.is_instruction and op.opcode != "alloca":
+            raise Exception(f"Writing through a pointer is not supported: {op}")
+
     def visit_add_instruction(self, block_name: str, o: ValueRef) -> None:
         ops = list(o.operands)
         left = self.read_operand_from_block(block_name, ops[0])
@@ -1463,6 +1469,8 @@ class VCVisitor:
             # process the mangled name -> name, type
             raw_fn_name = get_raw_fn_name_from_call_instruction(o)
             full_demangled_name = get_full_demangled_name(raw_fn_name)
+            if fn_name == "push_back":
+                self.check_own_location(ops[0])
 
             rv = fn_models[fn_name](blk_state, {}, full_demangled_name, *ops[:-1])
 
@@ -1492,6 +1500,12 @@ class VCVisitor:
             ret_type = parse_type_ref_to_obj(o.type)
             ret_val = call(fn_name, ret_type, *ops_objs)
             self.write_or_store_operand_to_block(block_name, o, ret_val)
+        elif not fn_name.startswith("~") and any(
+            op.type.is_pointer and (op.is_instruction or op.is_argument)
+            for op in ops[:-1]
+        ):
+            # everything but a destructor can change what it is given a pointer to
+            raise Exception(f"Unsupported function {fn_name}")
 
     def visit_trunc_instruction(self, block_name: str, o: ValueRef) -> None:
         ops = list(o.operands)
-- 
2.43.0


From fc23bffefcb84b654a70c4ac3d6507f58a2cab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:21 +0000
Subject: [PATCH 36/44] fix: declare shared definitions of functions of the
 LLVM front end once

---
 metalift/frontend/llvm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 2b1fb6c..f8035e0 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1540,7 +1540,9 @@ class Driver:
     def target_lang_fns(self) -> List[FnDecl | FnDeclRecursive]:
         fns: List[FnDecl | FnDeclRecursive] = []
         for fn in self.fns.values():
-            fns.extend(fn.target_lang_fn())
+            for decl in fn.target_lang_fn():
+                if decl not in fns:
+                    fns.append(decl)
         return fns
 
     def variable(self, name: str, type: ObjectT) -> Var:
-- 
2.43.0


From dd8f50d0352a369a8361d4b911c3f68d76752eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 37/44] fix: keep the type of vectors that are appended to

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index f8035e0..38e0314 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -226,7 +226,7 @@ def vector_append(
 
     assign_val = call(
         fn_name,
-        parse_type_ref_to_obj(args[0].type),
+        lst.type,
         lst,
         value,
     )
-- 
2.43.0


From 86f989f3f803e503140379376210825523538f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 38/44] fix: reject second names for variables in the LLVM
 front end

The earlier check for writes through pointers did not see the instructions that
define the pointers.
---
 metalift/frontend/llvm.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 38e0314..4c5ae64 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -492,6 +492,12 @@ def get_fn_name_from_call_instruction(o: ValueRef) -> str:
     return fn_name
 
 
+def get_defining_opcode(op: ValueRef) -> Optional[str]:
+    # None if the operand is not the result of an instruction
+    match = re.match(r'\s*%("[^"]*"|\S+) = (tail )?(\w+) ', str(op))
+    return None if match is None else match.group(3)
+
+
 def parse_loops(loops_filepath: str, raw_fn_name: str) -> List[RawLoopInfo]:
     # raw_fn_name may be mangled
     with open(loops_filepath, mode="r") as f:
@@ -1304,12 +1310,17 @@ class VCVisitor:
             value_to_store = self.read_operand_from_block(block_name, ops[0])
         else:
             value_to_store = self.load_operand_from_block(block_name, ops[0])
+            # changes of a variable are not seen through pointers to it, only the copy of an argument is one of its own
+            if get_defining_opcode(ops[0]) in {None, "alloca"} and ops[1].name != (
+                f"{ops[0].name}.addr"
+            ):
+                raise Exception(f"Taking the address of a variable is not supported: {o}")
         self.check_own_location(ops[1])
         self.store_operand_to_block(block_name, ops[1], value_to_store)
 
     # Changes are only known to the variables themselves, not to what a pointer or reference refers to
     def check_own_location(self, op: ValueRef) -> None:
-        if op.is_instruction and op.opcode != "alloca":
+        if get_defining_opcode(op) not in {None, "alloca"}:
             raise Exception(f"Writing through a pointer is not supported: {op}")
 
     def visit_add_instruction(self, block_name: str, o: ValueRef) -> None:
@@ -1501,10 +1512,9 @@ class VCVisitor:
             ret_val = call(fn_name, ret_type, *ops_objs)
             self.write_or_store_operand_to_block(block_name, o, ret_val)
         elif not fn_name.startswith("~") and any(
-            op.type.is_pointer and (op.is_instruction or op.is_argument)
-            for op in ops[:-1]
+            op.name in blk_state.pointer_vars.keys() for op in ops[:-1]
         ):
-            # everything but a destructor can change what it is given a pointer to
+            # everything but a destructor can change the variables it is given pointers to
             raise Exception(f"Unsupported function {fn_name}")
 
     def visit_trunc_instruction(self, block_name: str, o: ValueRef) -> None:
-- 
2.43.0


From f2cacc476a22f89aa04fc17c4512939224eb4e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 39/44] fix: state the axioms of the tenspiler functions so
 that they are true

---
 metalift/utils/tenspiler/axioms.py | 109 +++++++++++++++--------------
 1 file changed, 58 insertions(+), 51 deletions(-)

diff --git a/metalift/utils/tenspiler/axioms.py b/metalift/utils/tenspiler/axioms.py
index aa2324e..b705e9d 100644
--- a/metalift/utils/tenspiler/axioms.py
+++ b/metalift/utils/tenspiler/axioms.py
@@ -41,78 +41,78 @@ rand = Int("rand")
 def vec_elemwise_add_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < a.len(), a.len() == b.len()),
-        call_vec_elemwise_add(a[:index], b[:index])
-        == call_vec_elemwise_add(a[1:index], b[1:index]).prepend(a[0] + b[0]),
+        call_vec_elemwise_add(a[: index + 1], b[: index + 1])
+        == call_vec_elemwise_add(a[:index], b[:index]).append(a[index] + b[index]),
     )
 
 
 def vec_elemwise_mul_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < a.len(), a.len() == b.len()),
-        call_vec_elemwise_mul(a[:index], b[:index])
-        == call_vec_elemwise_mul(a[1:index], b[1:index]).prepend(a[0] * b[0]),
+        call_vec_elemwise_mul(a[: index + 1], b[: index + 1])
+        == call_vec_elemwise_mul(a[:index], b[:index]).append(a[index] * b[index]),
     )
 
 
 def scalar_vec_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < a.len()),
-        call_scalar_vec_sub(i, a[:index])
-        == call_scalar_vec_sub(i, a[1:index]).prepend(i - a[0]),
+        call_scalar_vec_sub(i, a[: index + 1])
+        == call_scalar_vec_sub(i, a[:index]).append(i - a[index]),
     )
 
 
 def vec_scalar_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < a.len()),
-        call_vec_scalar_sub(i, a[:index])
-        == call_vec_scalar_sub(i, a[1:index]).prepend(a[0] - i),
+        call_vec_scalar_sub(i, a[: index + 1])
+        == call_vec_scalar_sub(i, a[:index]).append(a[index] - i),
     )
 
 
 def vec_scalar_add_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < a.len()),
-        call_vec_scalar_add(i, a[:index])
-        == call_vec_scalar_add(i, a[1:index]).prepend(i + a[0]),
+        call_vec_scalar_add(i, a[: index + 1])
+        == call_vec_scalar_add(i, a[:index]).append(i + a[index]),
     )
 
 
 def scalar_vec_div_axiom(i: int, a: mlList[int], index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < a.len()),
-        call_scalar_vec_div(i, a[:index])
-        == call_scalar_vec_div(i, a[1:index]).prepend(i // a[0]),
+        call_scalar_vec_div(i, a[: index + 1])
+        == call_scalar_vec_div(i, a[:index]).append(i // a[index]),
     )
 
 
 def vec_scalar_mul_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < a.len()),
-        call_vec_scalar_mul(i, a[:index])
-        == call_vec_scalar_mul(i, a[1:index]).prepend(i * a[0]),
+        call_vec_scalar_mul(i, a[: index + 1])
+        == call_vec_scalar_mul(i, a[:index]).append(i * a[index]),
     )
 
 
 def vec_elemwise_sub_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < a.len(), a.len() == b.len()),
-        call_vec_elemwise_sub(a[:index], b[:index])
-        == call_vec_elemwise_sub(a[1:index], b[1:index]).prepend(a[0] - b[0]),
+        call_vec_elemwise_sub(a[: index + 1], b[: index + 1])
+        == call_vec_elemwise_sub(a[:index], b[:index]).append(a[index] - b[index]),
     )
 
 
-def reduce_sum_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
+def reduce_sum_axiom(data: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index <= max_pos, max_pos >= 0),
+        and_objects(index >= 0, index < data.len()),
         call_reduce_sum(data[: index + 1])
         == call_reduce_sum(data[:index]) + data[index],
     )
 
 
-def reduce_max_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
+def reduce_max_axiom(data: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index <= max_pos, max_pos >= 0),
+        and_objects(index >= 1, index < data.len()),
         call_reduce_max(data[: index + 1])
         == ite(
             data[index] > (call_reduce_max(data[:index])),
@@ -125,25 +125,25 @@ def reduce_max_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
 def vec_scalar_div_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < a.len()),
-        call_vec_scalar_div(i, a[:index])
-        == call_vec_scalar_div(i, a[1:index]).prepend(a[0] // i),
+        call_vec_scalar_div(i, a[: index + 1])
+        == call_vec_scalar_div(i, a[:index]).append(a[index] // i),
     )
 
 
 def vec_elemwise_div_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < a.len(), a.len() == b.len()),
-        call_vec_elemwise_div(a[:index], b[:index])
-        == call_vec_elemwise_div(a[1:index], b[1:index]).prepend(a[0] // b[0]),
+        call_vec_elemwise_div(a[: index + 1], b[: index + 1])
+        == call_vec_elemwise_div(a[:index], b[:index]).append(a[index] // b[index]),
     )
 
 
 def matrix_elemwise_add_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < x.len(), x.len() == y.len()),
-        call_matrix_elemwise_add(x[:index], y[:index])
-        == call_matrix_elemwise_add(x[1:index], y[1:index]).prepend(
-            call_vec_elemwise_add(x[0], y[0])
+        call_matrix_elemwise_add(x[: index + 1], y[: index + 1])
+        == call_matrix_elemwise_add(x[:index], y[:index]).append(
+            call_vec_elemwise_add(x[index], y[index])
         ),
     )
 
@@ -151,9 +151,9 @@ def matrix_elemwise_add_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 def matrix_elemwise_sub_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < x.len(), x.len() == y.len()),
-        call_matrix_elemwise_sub(x[:index], y[:index])
-        == call_matrix_elemwise_sub(x[1:index], y[1:index]).prepend(
-            call_vec_elemwise_sub(x[0], y[0])
+        call_matrix_elemwise_sub(x[: index + 1], y[: index + 1])
+        == call_matrix_elemwise_sub(x[:index], y[:index]).append(
+            call_vec_elemwise_sub(x[index], y[index])
         ),
     )
 
@@ -161,17 +161,24 @@ def matrix_elemwise_sub_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < x.len()),
-        call_matrix_scalar_mul(i, x[:index])
-        == call_matrix_scalar_mul(i, x[1:index]).prepend(call_vec_scalar_mul(i, x[0])),
+        call_matrix_scalar_mul(i, x[: index + 1])
+        == call_matrix_scalar_mul(i, x[:index]).append(call_vec_scalar_mul(i, x[index])),
     )
 
 
 def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
+    # matrix_vec_mul stops at the first row that does not fit the vector
     return implies(
-        and_objects(index >= 0, index < x.len()),
-        call_matrix_vec_mul(x[:index], b)
-        == call_matrix_vec_mul(x[1:index], b).prepend(
-            call_reduce_sum(call_vec_elemwise_mul(x[0], b))
+        and_objects(
+            index >= 0,
+            index < x.len(),
+            call_matrix_vec_mul(x[:index], b).len() == index,
+            x[index].len() >= 1,
+            x[index].len() == b.len(),
+        ),
+        call_matrix_vec_mul(x[: index + 1], b)
+        == call_matrix_vec_mul(x[:index], b).append(
+            call_reduce_sum(call_vec_elemwise_mul(x[index], b))
         ),
     )
 
@@ -179,9 +186,9 @@ def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
 def matrix_elemwise_mul_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < x.len(), x.len() == y.len()),
-        call_matrix_elemwise_mul(x[:index], y[:index])
-        == call_matrix_elemwise_mul(x[1:index], y[1:index]).prepend(
-            call_vec_elemwise_mul(x[0], y[0])
+        call_matrix_elemwise_mul(x[: index + 1], y[: index + 1])
+        == call_matrix_elemwise_mul(x[:index], y[:index]).append(
+            call_vec_elemwise_mul(x[index], y[index])
         ),
     )
 
@@ -189,25 +196,25 @@ def matrix_elemwise_mul_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 def matrix_scalar_div_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < x.len()),
-        call_matrix_scalar_div(i, x[:index])
-        == call_matrix_scalar_div(i, x[1:index]).prepend(call_vec_scalar_div(i, x[0])),
+        call_matrix_scalar_div(i, x[: index + 1])
+        == call_matrix_scalar_div(i, x[:index]).append(call_vec_scalar_div(i, x[index])),
     )
 
 
 def matrix_scalar_sub_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < x.len()),
-        call_matrix_scalar_sub(i, x[:index])
-        == call_matrix_scalar_sub(i, x[1:index]).prepend(call_vec_scalar_sub(i, x[0])),
+        call_matrix_scalar_sub(i, x[: index + 1])
+        == call_matrix_scalar_sub(i, x[:index]).append(call_vec_scalar_sub(i, x[index])),
     )
 
 
 def matrix_selection_two_args_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
         and_objects(index >= 0, index < x.len(), x.len() == y.len()),
-        call_matrix_selection(x[:index], y[:index])
-        == call_matrix_selection(x[1:index], y[1:index]).prepend(
-            call_selection(x[0], y[0])
+        call_matrix_selection(x[: index + 1], y[: index + 1])
+        == call_matrix_selection(x[:index], y[:index]).append(
+            call_selection(x[index], y[index])
         ),
     )
 
@@ -217,10 +224,10 @@ def dissolve_matrix_selection_two_args_axiom(
 ) -> Bool:
     return implies(
         and_objects(index >= 0, index < x.len(), x.len() == y.len()),
-        call_dissolve_matrix_selection(x[:index], y[:index], opacity, rand)
+        call_dissolve_matrix_selection(x[: index + 1], y[: index + 1], opacity, rand)
         == call_dissolve_matrix_selection(
-            x[1:index], y[1:index], opacity, rand
-        ).prepend(call_dissolve_selection(x[0], y[0], opacity, rand)),
+            x[:index], y[:index], opacity, rand
+        ).append(call_dissolve_selection(x[index], y[index], opacity, rand)),
     )
 
 
@@ -256,9 +263,9 @@ vec_elemwise_sub_axiom = Axiom(
     vec_elemwise_sub_axiom(a, b, index).src, a.src, b.src, index.src
 )
 
-reduce_sum_axiom = Axiom(reduce_sum_axiom(a, index, i).src, a.src, index.src, i.src)
+reduce_sum_axiom = Axiom(reduce_sum_axiom(a, index).src, a.src, index.src)
 
-reduce_max_axiom = Axiom(reduce_max_axiom(a, index, i).src, a.src, index.src, i.src)
+reduce_max_axiom = Axiom(reduce_max_axiom(a, index).src, a.src, index.src)
 
 vec_scalar_div_axiom = Axiom(
     vec_scalar_div_axiom(a, i, index).src, a.src, i.src, index.src
-- 
2.43.0


From a2f8c0ab8725cb1eac2c13afdcc45d3d8e7683be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 40/44] fix: analyze the else blocks of loops

---
 metalift/frontend/python.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 5077bc7..953f0cf 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -523,7 +523,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
 
     def visit_while_stmt(self, o: WhileStmt) -> None:
         v = RWVarsVisitor(self.types)
-        o.accept(v)
+        o.expr.accept(v)
+        o.body.accept(v)
 
         writes = list(v.writes)
         writes.sort()
@@ -608,6 +609,10 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             and_objects(cast(Bool, cond).Not(), inv.call(self.state))
         )
 
+        # without breaks, the else block always follows the loop
+        if o.else_body:
+            o.else_body.accept(self)
+
     def visit_return_stmt(self, o: ReturnStmt) -> None:
         assert o.expr is not None
         # precond -> ps(...)
-- 
2.43.0


From 9114ab8b57f08c584a61801532074e8310cb2c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:55 +0000
Subject: [PATCH 41/44] fix: write negative integers for SMT solvers as they
 read them

---
 metalift/ir.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 14596d4..3d8965d 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1916,6 +1916,9 @@ class Lit(Expr):
     def toSMT(self) -> str:
         if self.type == Bool:
             return "true" if self.args[0] else "false"
+        elif isinstance(self.args[0], int) and self.args[0] < 0:
+            # numerals have no sign in SMT-LIB
+            return f"(- {-self.args[0]})"
         else:
             return str(self.args[0])
 
-- 
2.43.0


From a96adcc18ce3dca6d0f391bf80ac85be41bfdf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:55 +0000
Subject: [PATCH 42/44] fix: listAppend leaves the list it appends to as it is

---
 metalift/frontend/llvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 4c5ae64..a4e5dde 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -153,8 +153,9 @@ def list_append(
     assert len(args) == 2
     lst = state.read_or_load_operand(args[0])
     value = state.read_or_load_operand(args[1])
+    # the list that is appended to stays as it is
     return ReturnValue(
-        lst.append(value),  # type: ignore
+        copy.copy(lst).append(value),  # type: ignore
         None,
     )
 
-- 
2.43.0


From 32d9b61ee1eb06d0152361e1e990e4ff6325a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:55 +0000
Subject: [PATCH 43/44] fix: set_contains asks whether the item is in the set

---
 metalift/frontend/llvm.py | 5 ++++-
 metalift/ir.py            | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index a4e5dde..a7c9701 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -35,6 +35,7 @@ from metalift.ir import (
     get_object_exprs,
     implies,
     is_pointer_type,
+    ite,
     make_tuple_type,
     parse_type_ref_to_obj,
 )
@@ -101,7 +102,9 @@ def set_contains(
     assert len(args) == 2
     s = state.read_or_load_operand(args[0])
     item = state.read_or_load_operand(args[1])
-    return ReturnValue(item in s, None)  # type: ignore
+    # the result of set_contains is an int
+    is_member = call("set-member", Bool, item, s)
+    return ReturnValue(ite(is_member, Int(1), Int(0)), None)  # type: ignore
 
 
 def new_list(
diff --git a/metalift/ir.py b/metalift/ir.py
index 3d8965d..e875967 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1669,7 +1669,7 @@ class Set(Generic[T], Object):
     def __contains__(self, value: Object) -> Bool:
         if value.type != self.containedT:
             return Bool(False)
-        return cast(Bool, call("set-pointer_varsber", Bool, self, value))
+        return cast(Bool, call("set-member", Bool, value, self))
 
     def __eq__(self, s: "Set") -> Bool:  # type: ignore
         return Bool(Eq(self.src, s.src))
-- 
2.43.0


From 8ae3978507fc3be00b0f2321bf72598995bc1f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 44/44] fix: find lists and sets of the LLVM front end when
 their names carry a suffix

---
 metalift/ir.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index e875967..c10a361 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -634,7 +634,9 @@ def parse_type_ref_to_obj(t: TypeRef) -> ObjectT:
         return Int
     elif ty_str in {"i1", "i8", "i8*"}:
         return Bool
-    elif ty_str in {"%struct.list*", "%struct.list**"}:
+    elif ty_str in {"%struct.list*", "%struct.list**"} or re.fullmatch(
+        r"%struct\.list\.\d+\*{1,2}", ty_str
+    ):
         # TODO: add generic type support
         # TODO: retire struct.list and use STL?
         return List[Int]
@@ -645,7 +647,7 @@ def parse_type_ref_to_obj(t: TypeRef) -> ObjectT:
     elif re.match('%"class.std::__1::vector"*', ty_str):
         return List[List[Int]]
 
-    elif ty_str in {"%struct.set*"}:
+    elif re.fullmatch(r"%struct\.set(\.\d+)?\*{1,2}", ty_str):
         # TODO : how to support different contained types
         return Set[Int]
     elif ty_str in {"%struct.tup*"}:
@@ -1630,7 +1632,7 @@ class Set(Generic[T], Object):
 
     @staticmethod
     def default_value() -> "Set[Int]":
-        return Set(Int)
+        return Set.empty(Int)
 
     def add(self, value: Object) -> "Set":  # type: ignore
         if value.type != self.containedT:
-- 
2.43.0

