"""Which scenario decides which property, with how many runs."""
R = "sc_rosette"
S = "sc_sygus"
L = "sc_lift"
M = "sc_llm"
V = "sc_llvm"
O = "sc_order"
# pid -> parts [(scenario module, focus, share)], quick runs (all workers together)
CHECKS = {
 "C01": dict(parts=[(R, "C01", 1)], quick=4000),
 "C02": dict(parts=[(R, "C02", 1)], quick=4000),
 "C03": dict(parts=[(R, "C03", 1)], quick=8000, stuck=True),
 "C04": dict(parts=[(S, "C04", 1)], quick=4000),
 "C05": dict(parts=[(S, "C05", 1)], quick=4000, stuck=True),
 "C06": dict(parts=[(R, "C06", 3), (S, "C06", 2)], quick=4000),
 "C07": dict(parts=[(R, "C07", 3), (S, "C07", 2)], quick=3000),
 "C08": dict(parts=[(L, "C08", 1)], quick=3000),
 "C09": dict(parts=[(L, "C09", 2), (V, "C09", 1)], quick=1600),
 "C10": dict(parts=[(L, "C10", 3), (V, "C10", 1)], quick=1600),
 "C11": dict(parts=[(L, "C11", 1)], quick=1600),
 "C12": dict(parts=[(L, "C12", 2), (V, "C12", 1)], quick=1200),
 "C13": dict(groups=[[(O, g, 1)] for g in "LMVLMVLR"], quick=800),
 "C14": dict(parts=[(M, "C14", 1)], quick=1800),
 "C15": dict(parts=[(M, "C15", 1)], quick=1800, stuck=True),
 "C16": dict(parts=[(M, "C16", 1)], quick=1200),
 "C17": dict(parts=[(V, "C17", 1)], quick=2400),
 "C18": dict(parts=[(M, "C18", 1)], quick=1200),
}
RULES = {}
RULE = ("One evaluation is one seeded simulated run: the seed decides the problem or program, every solver proposal, every delay, the point and kind of each fault and every scheduling decision. "
        "A run is non-trivial when a solver was consulted or the call failed; two runs are distinct when their scenario description (problem shape, proposals per round, fault point and kind, verifier answers, outcome) differs.")
REAL = ["metalift.ir", "metalift.rosette_translator", "metalift.synthesize_rosette", "metalift.synthesize_cvc5", "metalift.synthesis_common", "metalift.smt_util", "metalift.process_tracker", "metalift.frontend.python", "metalift.vc", "metalift.analysis", "metalift.frontend.llvm", "metalift.vc_util", "metalift.utils.tenspiler", "llmlift_scripts (synthesis, parser, prompts, utils)", "mypy", "llvmlite"]
STUB = ["racket/Rosette (emulated: reads the generated program, checks it, searches its grammars against its assertions, publishes as its own output statements say)",
        "cvc5 (emulated: parses the generated query and decides it by evaluation over many values)", "c++filt (a table of the names it gives)", "the model services behind anthropic, openai and google.generativeai (scripted answers, errors and delays; the client libraries are replaced, they are not installed)", "subprocess, pipes, clock, sleep", "file operations are real files under a scratch directory with injected errors and interleavings"]
ASSUME = ["the emulated solvers implement the documented command-line behaviour of Racket/Rosette and cvc5", "an emulated unsat is evidence over the values tried, a sat is exact"]
TECH = "deterministic simulation with fault injection (seeded schedules, emulated solvers, virtual time)"
TECHNIQUE = {}
NOTES = {}
NOTE = ("Seeded search over simulated executions, not exhaustive: a clean batch is evidence. Trusts the emulated solvers and the reference semantics in sim/; the repository code itself runs unmodified.")
