"""Writes known_findings.json."""
import json, os
FIXED = """
C02 5cc2ba1 a poller could read a half-written solution file; an unsatisfiable round left a file that was parsed as a solution
C03 5cc2ba1 a search without solution ended Racket with an error before it said so
C03 bb69868 a Racket process that died, or filled its output pipe, was polled for ever
C06 bb69868 the Racket process was left running or unreaped on every error path, and was not listed while it ran
C07 bb69868 starting a run deleted solution files of runs whose name has this one's as a prefix
C05 b32433f an early end of the SyGuS stream, a non-zero exit or much output on stderr hung the call or ended it with the wrong outcome
C04 09665ab candidates with n-ary operators, lets or negative literals were misread, grammars and helper definitions missing from the problem
C01 dc49674 the list axioms were contradictory (list_get/list_tail outside the list), so cvc5 proved anything
C10 52e10ca analysis states shared mutable default containers across functions and sessions
C08 9ff9e67 obligations and path conditions of returns inside branches were dropped
C09 9ff9e67 the same made functions with early returns unprovable
C08 64cbb5e list variables assigned in both branches kept one branch's value; chained comparisons lost parts
C08 6b90af0 returns inside loops were not checked
C08 a9ecc8a a loop variable after the loop had its value from before the loop
C11 529355e the postcondition of an earlier call was assumed for other arguments than the call's
C11 ad83b5b predicates were defined over the variables of the first call
C10 b110139 variables of another function with the same name gave their types to this one
C12 d1b2145 summaries were attached to functions whose name is a prefix or suffix of another's; partial attachment before a failure
C12 a19a583 a postcondition that is no equation for the result was misread as a summary
C10 186a39b a failed analysis left variables and predicates of the function behind
C13 b857cb6 a function was declared as a variable of its own problem, and definitions shared by two functions were declared twice
C08 2bf1907 an append through a second name of a list was not seen under the first
C08 9b0c13d an appended-to parameter lost its initial value in the postcondition
C08 3d4d8ef (follow-up of 2bf1907: functions without branches keep working)
C14 c9de654 unknown, timeout, errors and crashes of the verifier counted as success
C14 fc84e93 parameter names of the proposal and of the source were mixed up in the verified query
C14 b297e5f the meaning of nested conditional expressions was lost when a proposal was parsed
C14 cd44dbd literals and keyword arguments in proposals were misread
C15 d10f9cf answers in several parts, or without code, ended the session or were joined wrongly, depending on the service
C15 2a8d975 without verification no solution was ever accepted
C15 403edee an unusable proposal ended the session with an exception instead of consuming an attempt
C16 bbd9645 an attempt modified the summary, target functions and variables that later attempts use
C16 6b1e30f a second session was parsed with the first session's target functions
C17 cae3ef6 a loop variable after the loop had its value from before the loop
C17 f4a6850 a function returning a vector was checked with the value the vector had when a return slot was first written, and its summary was assumed elsewhere
C17 8a349a6 a postcondition that is no equation for the result, or one of another function, was attached as a summary
C09 7572d5e invariant grammars given as a defaultdict were not found
C12 a304e0a a failed analysis left predicates and variables behind
C17 a2a5f30 calls of unmodelled functions that change their arguments, and stores through references and pointers, were ignored
C13 fc23bff definitions shared by two functions were declared twice
C09 dd8f50d appending to a vector of vectors or sets lost the element type
C17 86f989f references and pointers to variables kept the value the variable had when they were made
C18 f2cacc4 axioms of target functions were false, so that wrong summaries could be proved by contradiction
"""
if __name__ == "__main__":
    out = []
    for l in FIXED.strip().split("\n"):
        i, c, t = l.split(" ", 2); out.append("fixed: property=%s %s %s" % (i, c, t))
    json.dump(dict(findings=[], fixed=out), open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.json"), "w"), indent=1)
