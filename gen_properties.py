"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=dict(files=files, state=state or [], mechanism=[dict(name=m, where=w) for m, w in mech],
                  observe_at=observe, hook_needed=None)))
ROS="metalift/synthesize_rosette.py"; CVC="metalift/synthesize_cvc5.py"; COM="metalift/synthesis_common.py"; SMT="metalift/smt_util.py"
RT="metalift/rosette_translator.py"; PYF="metalift/frontend/python.py"; LLF="metalift/frontend/llvm.py"; LLM="llmlift_scripts/synthesis.py"; PAR="llmlift_scripts/parser.py"; TRK="metalift/process_tracker.py"; IR="metalift/ir.py"

p("C01","Rosette-backed synthesis returns only verified definitions",
"When the Rosette-backed synthesizer returns with verification enabled, the definitions it returns satisfy the verification condition it was given and are exactly the ones for which the SMT verifier, in this call, completed and answered unsat. If the verifier crashes, is killed, times out, prints nothing, prints an error, or answers anything but unsat, that candidate is never returned.",
["fault_sequences","schedules","inputs"],"every sequence of candidates the synthesizer may propose (right, wrong, right only below its bound) and every way the verifier process can end, for every problem",
"The nine tests never start a solver; nothing exercises the loop that combines two external processes, and a handful of golden runs would only see cooperative solvers.",
[ROS,COM,SMT],[("verification query and verdict parsing",COM+":verify_synth_result"),("round loop accepting only unsat",ROS+":synthesize")],["return value of synthesize","verification query file handed to cvc5"])
p("C02","Synthesizer solutions are consumed in order, intact, with the right outcome",
"Solutions published by the Rosette process are taken in the order of their rounds, each exactly once, and each is understood as exactly the functions the synthesizer chose, however its output is delayed, split or cut off. The call returns the first solution that verifies, reports verification failure only after the last permitted round failed to verify, and reports synthesis failure when the synthesizer says there is none; it never ends normally without definitions.",
["schedules","fault_sequences","crash_points","inputs"],"every timing of the solution files relative to polling, every number of rounds, every point at which the synthesizer stops or dies",
"No test runs the polling loop; the race between a writer process and a poller needs a controlled schedule.",
[ROS,RT,IR],[("poll loop over solution files",ROS+":synthesize"),("solution publication in the generated program",RT+":generate_synth"),("solution parsing",ROS+":to_expr")],["outcome of synthesize","solution files"])
p("C03","Rosette-backed synthesis always ends once the synthesizer has stopped",
"Once the Racket process has exited, for whatever reason and with whatever exit status or signal, and however much it wrote to its output streams, the synthesis call ends in a bounded number of further polls: it returns verified definitions if the solutions already published contain one, and otherwise raises an error. A Racket process that keeps running is never blocked for ever by unread output.",
["fault_sequences","crash_points","schedules"],"every exit point and exit status of the synthesizer, every output volume, every published prefix of solutions",
"Liveness under a dying child process cannot be sampled by tests that never start one; a hang shows up only for particular exit points.",
[ROS],[("loop condition over poll() and rounds",ROS+":synthesize")],["termination of synthesize in simulated polls"])
p("C04","SyGuS-backed synthesis returns only verified definitions",
"When the CVC5 SyGuS-backed synthesizer returns, the definitions it returns mean exactly what the solver's last proposed candidate means, satisfy the verification condition it was given, and are the ones for which the verifier, in this call, completed and answered unsat. No verifier failure and no interleaving of the solver's output lines makes an unverified or earlier candidate be returned.",
["fault_sequences","schedules","inputs"],"every stream of candidate lines (any number, any split into writes, any delay) and every verifier ending",
"Tests never run the stream reader; the relation between streamed candidates and the verified one depends on the line sequence.",
[CVC,COM,SMT],[("stream reader",CVC+":synthesize"),("candidate parsing",CVC+":generateCandidates")],["return value of synthesize","verification query file"])
p("C05","SyGuS-backed synthesis ends with the right outcome for every solver stream",
"For every output stream and every way the SyGuS process can stop (answer, fail, exit with any status, be killed, close its output early, write much to stderr), the call ends in a bounded number of reads after the process stopped or answered. It returns definitions when the answered candidate verifies, raises verification failure when it does not, and raises synthesis failure when no answer arrives.",
["fault_sequences","crash_points","schedules"],"every stream prefix at which the solver may stop, every exit status, every stderr volume, any function names",
"Requires a solver that stops at arbitrary points; tests start none.",
[CVC],[("reader loop",CVC+":synthesize")],["outcome and termination of synthesize"])
p("C06","No solver process survives the synthesis call that started it",
"When a synthesis call ends, by returning, by any error, or by a user interrupt at any moment after the solver was started, every solver process the call started has exited and been reaped. While a synthesizer process runs it is listed in the process tracker so that an embedding program can stop it.",
["fault_sequences","crash_points","schedules"],"every exit path of both back ends, every moment of interruption, every point at which a file operation fails",
"Leaks appear only on exit paths (errors, interrupts) that tests do not take.",
[ROS,CVC,TRK],[("termination of the child on exit",ROS+":synthesize"),("finally clause",CVC+":synthesize"),("tracker list",TRK)],["process table when the call ends","metalift.process_tracker.all_processes"])
p("C07","Synthesis runs do not influence each other through the working directory",
"The outcome of a synthesis run does not depend on files that earlier, crashed or concurrent runs left in the log directory, nor on the names of other problems synthesized there: stale solution files are never taken for new ones. A run never deletes or alters the solution, problem or query files of a run with a different name, also when runs of different names execute at the same time.",
["histories","schedules","crash_points"],"every history of earlier runs in the directory, every pair of basenames, every interleaving of two runs",
"Needs directory histories and interleavings of two runs; tests run none.",
[ROS,CVC,SMT,RT],[("clean-up of previous solutions",ROS+":synthesize"),("per-problem file names",COM+":verify_synth_result")],["files in synthesisLogs","outcome of each run"])
p("C08","Lifted summaries agree with the source function (end-to-end soundness)",
"Whenever lifting a Python function made of integer and list operations, conditionals and non-nested loops succeeds, the summary attached to it equals the result of the function for every input that satisfies the declared preconditions and on which the function terminates. This holds whatever candidates the synthesizer proposes and however solver processes are delayed, fail or are killed.",
["programs","inputs","fault_sequences","schedules"],"every supported source function, every grammar, every synthesizer behaviour including proposing wrong candidates, every verifier fault",
"Tests check no lifted result at all; soundness is over all programs and all synthesizer behaviours.",
[PYF,ROS,COM,SMT,"metalift/vc_util.py"],[("verification condition generation",PYF+":VCVisitor"),("verification",COM+":verify_synth_result")],["MetaliftFunc.synthesized","MetaliftFunc.codegen"])
p("C09","Functions with an expressible summary are lifted (end-to-end progress)",
"If the grammars contain a summary and invariants that are correct for the source function, the solvers answer correctly, and faults are limited to delays, then lifting completes within a bounded number of polls and attaches a correct summary. Wrong proposals in earlier permitted rounds do not prevent this.",
["programs","schedules"],"every supported source function whose grammar contains a correct solution, every delay schedule, every number of earlier wrong rounds",
"Liveness across analysis, problem generation, both solvers and result parsing; tests exercise none of the chain.",
[PYF,LLF,ROS,RT,COM,SMT],[("pipeline",PYF+":Driver.synthesize")],["MetaliftFunc.synthesized"])
p("C10","Analyses do not inherit facts from other functions, sessions or failed attempts",
"The proof obligations, predicates and variables produced for a function depend only on the function, its arguments, the preconditions declared in its own session and the functions called before it in that session. Other sessions in the same process, earlier successful or failed analyses elsewhere, and repetition of the same session never change them.",
["histories","programs"],"every history of sessions and analyses executed earlier in the process, in any interleaving",
"Needs multi-session histories in one process; each test uses one session at most.",
[PYF,LLF,"metalift/vc.py","metalift/analysis.py"],[("per-call analysis state",PYF+":State"),("session state",PYF+":Driver")],["obligations collected by the session"])
p("C11","Calls compose: later functions assume exactly what earlier calls established",
"When several functions are called in one session, a later function may assume, for the exact arguments of each earlier call, what the earlier function's postcondition states about its result, and nothing else. Hence summaries of all functions lifted together agree with the composed source functions, and wrong summaries of an earlier function are not accepted because of a later one.",
["histories","programs"],"every sequence of calls and data flow between them in a session, every set of proposed summaries",
"Only multi-call sessions exercise it and no test has one.",
[PYF],[("postcondition propagation",PYF+":MetaliftFunc.__call__"),("preconditions in obligations",PYF+":VCVisitor.visit_return_stmt")],["MetaliftFunc.synthesized","obligations of the session"])
p("C12","Failed lifting attaches nothing, is retryable; results attach to own function",
"A synthesis attempt that raises leaves every function of the session without a summary from that attempt, and the same session can then be synthesized again with the same outcome as if the failure had not happened. A successful attempt attaches to each function the summary synthesized for that function, with its meaning unchanged, and generating code before any success raises an error.",
["histories","fault_sequences"],"every sequence of failing and succeeding attempts and every number of functions and names in a session",
"Retry after failure and multi-function sessions are never executed by tests.",
[PYF,LLF],[("attachment of results",PYF+":Driver.synthesize"),("codegen guard",PYF+":MetaliftFunc.codegen")],["MetaliftFunc.synthesized","MetaliftFunc.codegen"])
p("C13","Solver problems are well formed and the same in every process",
"Every problem handed to a solver (unless the proposal it is to check is itself incomplete) declares each symbol once and before its use, and for a given session and configuration it is the same problem, up to the order of declarations, in every process: hash randomisation and the order in which sets happen to be iterated never change which symbols, definitions, variables and assertions it contains.",
["schedules","configurations","programs"],"every hash seed / set iteration order, every problem",
"A test process has one hash seed and never looks at the files.",
[SMT,RT,ROS,CVC,COM],[("definition ordering",SMT+":topological_sort"),("variable declarations",RT+":generate_vars")],["files handed to racket and cvc5"])
p("C14","LLM-guided lifting reports success only for verified proposals",
"When LLM-guided lifting ends successfully with verification enabled, the verifier was run in this session on the reported summary together with the last proposed invariant and the program's proof obligations, and it completed and proved them. Any verifier crash, kill, error, unknown or counterexample leads to the next proposal, never to success.",
["fault_sequences","inputs","histories"],"every sequence of model answers and every verifier ending, for both verification methods",
"No test runs the LLM loop or a verifier.",
[LLM,SMT],[("verdict of the SMT check",LLM+":verify_benchmark_smt"),("verdict of the Rosette check",LLM+":verify_benchmark_rosette"),("acceptance",LLM+":run_llm_synthesis_algorithm")],["normal or exceptional end of run_llm_synthesis_algorithm","verification query file"])
p("C15","LLM-guided lifting: bounded attempts with feedback, surviving bad answers",
"The model is asked for at most the configured number of summaries and, per summary, at most the configured number of invariants, and each new request carries all earlier answers of its kind in order. An unparsable or incomplete answer or a failed verification consumes one attempt and never ends the session early, and if a permitted answer would verify, the session succeeds; otherwise it ends with an error.",
["histories","fault_sequences"],"every sequence of good, bad, empty and malformed answers and verifier failures, every limit, every supported model service",
"Needs scripted multi-turn model behaviour with faults; no test has any.",
[LLM,PAR,"llmlift_scripts/utils.py","llmlift_scripts/prompts.py"],[("retry loops",LLM+":run_llm_synthesis_algorithm"),("service adapters",LLM+":get_solution_from_llm")],["requests received by the model service","end of the session"])
p("C16","LLM proposals are judged independently of earlier proposals and sessions",
"The verdict on a proposed summary and invariant depends only on them, the target functions given to this session and the program's obligations. Earlier rejected proposals, earlier sessions in the process with other target functions, and files they left behind never change how a proposal is parsed or verified, and a session leaves its inputs unmodified.",
["histories"],"every history of proposals and sessions in one process",
"Needs histories of several proposals and sessions; no test has any.",
[LLM,PAR],[("target function cache",PAR+":get_dsl_func_defs"),("per-attempt state",LLM+":run_llm_synthesis_algorithm")],["verification query file","end of the session"])
p("C17","Lifted summaries agree with the compiled C++ function (LLVM front end)",
"Whenever lifting a C++ function through its LLVM IR succeeds and attaches a summary, the summary equals the function's result for every input that satisfies the declared preconditions and on which the function terminates without undefined behaviour or overflow. A construct whose effect the front end does not model is rejected with an error, never ignored. This holds whatever candidates the synthesizer proposes and however solver processes are delayed, fail or are killed.",
["programs","inputs","fault_sequences","schedules"],"every compiled function of integers and vectors with branches, loops and nested loops, every grammar, every synthesizer behaviour including proposing wrong candidates, every verifier fault",
"The tests run no lifting of compiled functions; soundness is over all programs and all synthesizer behaviours.",
[LLF,"metalift/analysis.py","metalift/vc.py","metalift/vc_util.py",COM],[("instruction visitors",LLF+":VCVisitor"),("loop havocs and invariants",LLF+":VCVisitor.visit_llvm_block"),("attachment of results",LLF+":Driver.synthesize")],["MetaliftFunc.synthesized"])
p("C18","What the shipped assumptions allow to prove about a summary is true",
"When LLM-guided lifting reports success for a summary over the shipped target functions, the summary equals the source function on every input that satisfies the declared preconditions, even if the verifier draws every consequence of the background sentences (list theory, helper functions, and the sentences shipped for the target functions) that metalift puts into the verification problem. Those sentences are true of the functions they speak about for every argument and never contradict each other.",
["inputs","histories","solver_answers"],"every shipped target function and its background sentences, every proposal that uses them, every consequence a verifier may draw",
"Tests never give the background sentences to a solver; a false sentence makes every wrong summary provable.",
["metalift/utils/tenspiler/axioms.py","metalift/utils/tenspiler/tenspiler_common.py","metalift/utils/list-axioms.smt","metalift/utils/integer-fn-axioms.smt","metalift/smt_util.py",LLM],[("background sentences","metalift/utils/tenspiler/axioms.py"),("selection of sentences",LLM+":verify_benchmark_smt"),("specialisation of sentences","metalift/smt_util.py:toSMT")],["end of the session","verification query file"])
# --- properties that have no schedule, fault or history in them
p("N01","Verification conditions reflect each source construct exactly",
"For every supported source construct the generated obligations hold for a set of summaries exactly when those summaries describe the construct's semantics.",
["programs"],"every source construct in isolation","pure function of the program; few constructs sampled by the benchmark drivers",[PYF,LLF],[("visitors",PYF+":VCVisitor")],["obligations"])
p("N02","Every printer of the IR denotes the same function",
"The Racket, SMT-LIB and Python renderings of an expression denote the same function as the expression.",
["inputs"],"every expression","pure function of the expression",[IR],[("to_rosette/toSMT/to_python",IR)],["printed text"])
p("N03","Simplification and equality optimisation preserve meaning",
"Simplifying an expression or removing useless equalities from a verification condition never changes its validity.",
["inputs"],"every expression","pure function of the expression",[IR],[("simplify/optimize_useless_equality",IR)],["resulting expression"])
p("N04","Built-in list, tuple and set theories agree between solvers",
"The definitions supplied to Racket and the axioms supplied to the SMT solver describe the same list, tuple and set operations.",
["inputs"],"every argument value","static text files with a fixed meaning",["metalift/utils/utils.rkt","metalift/utils/list-axioms.smt","metalift/utils/tuples.smt"],[("definitions","metalift/utils")],["solver answers"])
p("N05","The LLVM pass reports loops and variables exactly",
"For every input module, the native pass reports the loop header, exit, latch and modified variables of each loop exactly.",
["programs"],"every LLVM module","native pass is not built here and is a pure function of the module",["llvm-pass"],[("pass","llvm-pass")],[".loops files"])
p("N06","Generated target code computes the lifted summary",
"Code produced by the target code generators computes the same values as the lifted summary.",
["inputs"],"every summary","pure function of the summary",["metalift/utils/tenspiler","tests/python/utils/utils.py"],[("code generators","metalift/utils/tenspiler")],["generated code"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"])); assert x["statement"].count(". ")<=3
