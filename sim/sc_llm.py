"""C14-C16: sessions of LLM-guided lifting with a scripted model service, faulty
verifiers and files, limits, and several sessions per process."""
import contextlib, copy, errno, io, os, random, re, sys
from . import kernel, osim, smt, rkt, irsem, rig, cprogs, llmrig, boot, sexp
from .kernel import World, SimHang, SimAbort, HarnessError
from .values import EvalError, SortError
from .llmrig import Answer, NS

def warm(scratch, focuses):
    if "C18" in focuses:
        names = sorted(cprogs.AX)
        k = int(os.environ.get("PYTHONHASHSEED") or 0) % len(names)
        llmrig.warm(scratch, progs=[cprogs.AX[names[k]]])
        smt.preload(assumed=True)
    else: llmrig.warm(scratch)

# ------------------------------------------------------------- model service
class Server:
    """The scripted model: decides every answer, checks what each request carries."""
    def __init__(self, w, ch, out):
        self.w, self.ch, self.out = w, ch, out
        self.sess = None
        self.n = 0
    def respond(self, client, msgs):
        w = self.w
        w.op("llm", client)
        w.now += self.ch.pick([800, 3000, 60000], "think")
        kernel.set_current(None)
        try: return self.sess.request(client, msgs)
        except llmrig.ApiError: raise
        except Exception as e:      # a fault of the harness must not pass for one of the session
            self.sess.rg.harness = e; raise
        finally: kernel.set_current(w)

class Req:
    def __init__(self, kind, n, ans): self.kind, self.n, self.ans = kind, n, ans
class Run:
    """One verifier run."""
    def __init__(self, kind): self.kind, self.text, self.verdict, self.model, self.fault, self.done, self.err = kind, None, None, None, None, False, None
    @property
    def proved(self): return self.done and self.fault is None and self.verdict == "unsat"

RKT_FAULTS = [(3, "kill-silent"), (3, "kill-after-answer"), (3, "exit-after-answer"), (2, "kill-mid-answer"), (2, "empty"), (3, "error"), (2, "unknown")]

class Session:
    def __init__(self, rg, idx):
        ch = rg.ch
        self.rg, self.ch, self.idx, self.focus = rg, ch, idx, rg.focus
        names = sorted(llmrig.POOL)
        self.prog = llmrig.POOL[names[ch.draw(len(names), "prog")]]
        p = self.prog
        self.variant = ch.weighted([(70, 0), (12, 1), (18, 2)] if idx == 0 else [(40, 0), (25, 1), (35, 2)], "dsl-variant")
        if self.variant == 2 and llmrig.CHANGED[p.name] is None: self.variant = 0
        if self.focus == "C18": self.variant = 0    # the assumed sentences speak about the shipped functions
        self.model = ch.pick(["gpt", "claude", "gemini"], "service")
        self.method = "rosette" if p.mat else ch.weighted([(55, "smt"), (45, "rosette")], "method")
        if self.focus == "C15" and ch.flip(8, "nover"): self.method = "none"
        if self.focus == "C18": self.method = "smt"
        self.P = ch.weighted([(3, 2), (3, 1), (3, 3), (2, 4), (1, 6)], "P")
        self.I = ch.weighted([(3, 2), (3, 1), (3, 3), (2, 4), (2, 6)], "I")
        self.api_pct = 2 if self.focus == "C15" and ch.flip(15, "api?") else 0
        self.vpct = {"C14": 35, "C15": 18, "C16": 0, "C18": 8}[self.focus] if ch.flip(75, "vf?") else 0
        self.rng = random.Random(ch.draw(1 << 20, "points"))
        self.decls = llmrig.dsl(p, self.variant)
        self.ps_prompt = None
        self.events = []            # Req and Run objects in order
        self.api_error = False; self.enoent = False
        self.early = False          # a reason for which the session may end early
        self.result = None
        self.text = io.StringIO()
    # -- the program under analysis -----------------------------------------
    def setup(self):
        m = llmrig.ir(); p = self.prog
        from metalift.frontend.llvm import Driver, InvGrammar
        u = sys.modules["llmlift_scripts.utils"]
        def mk(t, n): return m.Int(n) if t == "int" else m.List(m.Int, n) if t == "list" else m.Matrix(m.Int, n)
        o = lambda v: mk(p.type(v), v)
        if p.double:
            (ov, ord_, om), (iv, ird, im) = p.heads
            self.info = u.DoubleLoopInfo(outer_loop_var=o(ov), inner_loop_var=o(iv), outer_loop_read_vars=[o(v) for v in ord_], inner_loop_read_vars=[o(v) for v in ird],
                outer_loop_modified_vars=[o(v) for v in om], inner_loop_modified_vars=[o(v) for v in im])
            ia = list(u.get_inv_args(self.info))
        else:
            lv, rd, md = p.heads[0]
            self.info = u.SingleLoopInfo(loop_var=o(lv), read_vars=[o(v) for v in rd], modified_vars=[o(v) for v in md])
            ia = [u.get_inv_args(self.info)]
        if p.ret != "int": ia = [u.replace_args(args=a, replace_args={p.out: "agg.result"}) for a in ia]
        self.outvar = o(p.out)
        d = self.driver = Driver()
        f = d.analyze(llvm_filepath=p.ll(), loops_filepath=p.loops(), fn_name=p.name, target_lang_fn=[], inv_grammars={"%s_inv%d" % (p.name, k): InvGrammar(None, [], a) for k, a in enumerate(ia)}, ps_grammar=None)
        args = [mk(t, n) for n, t in p.params]
        d.add_var_objects(args)
        for mkp, _, _ in p.pre: d.add_precondition(mkp({n: a for (n, _), a in zip(p.params, args)}))
        f(*args)
        self.allvars = [(v.name(), v.type) for v in d.var_tracker.all()]
        self.ps_args = [a.var_name() for a in d.pred_tracker.predicates[p.name].args][:-1]
        self.points = self.states()
        with osim.real_open(os.path.join(cprogs.FIX, p.file + ".cc")) as fh: text = fh.read()
        self.source = re.search(r"^\S[^\n]*\b%s\(.*?^}" % p.name, text, re.M | re.S).group(0)
    def env_of(self, args, st):
        p = self.prog
        e = {}
        for n, t in self.allvars:
            e[n] = 0 if t is llmrig.ir().Int else ()
        e.update(dict(zip([n for n, _ in p.params], args)))
        for k, v in st.items():
            k = "agg.result" if k == p.out and p.ret != "int" else k
            for n in e:      # n_1, n_2, ...: the value in an inner loop
                if n == k or n.startswith(k + "_") and n[len(k) + 1:].isdigit(): e[n] = v
        return e
    def states(self):
        """States reached by executions, and states near them."""
        p, rng = self.prog, self.rng
        small = self.method == "rosette"
        out = []
        self.traced = []            # inputs whose executions are covered
        for args in p.sizes(rng, 14 if p.mat else 10):
            if small and any(isinstance(a, tuple) and (len(a) > 2 or any(isinstance(r, tuple) and len(r) != 2 for r in a)) for a in args): continue
            for k, st in p.trace(*args):
                if k is None: self.traced.append(args); break
                e = self.env_of(args, st)
                out.append(e)
                for _ in range(2):
                    n, t = self.allvars[rng.randrange(len(self.allvars))]
                    v = e[n]
                    if type(v) is int: v += rng.choice([1, -1, 2, -2, 7])
                    elif v and isinstance(v[0], int):
                        j = rng.randrange(len(v)); v = v[:j] + (v[j] + rng.choice([1, -1]),) + v[j + 1:] if rng.random() < .6 else v[:-1]
                    elif v:
                        j = rng.randrange(len(v)); r = v[j]
                        v = v[:j] + (r[:-1] + (r[-1] + 1,),) + v[j + 1:] if r and rng.random() < .6 else v[:-1]
                    else: v = ((1, 2),) if p.type(n) == "mat" or (n == "agg.result" and p.ret == "mat") else (1,)
                    out.append({**e, n: v})
                    if len(out) > (90 if p.mat else 140): return out
        return out
    # -- the model's side ----------------------------------------------------
    def usable(self, a):
        """Must the answer pass the parser with this session's functions? True/False/None (open)."""
        if a.cls == "bad": return False
        if a.cls == "odd" or a.code is None: return None
        used = set(re.findall(r"\b(\w+)\(", a.code)) - {"len", self.prog.name, "invariant", "invariant1", "invariant2", "ite"}
        if used - {f.name() for f in self.decls}: return False
        if self.variant == 2 and llmrig.CHANGED[self.prog.name] in used and llmrig.CHANGED[self.prog.name] == "vec_scalar_mul": return None
        return True
    def choose(self, kind):
        ch, p = self.ch, self.prog
        A = [a for a in p.answers if a.kind == kind]
        cls = {}
        for a in A: cls.setdefault(a.cls, []).append(a)
        if kind == "ps":
            ok = [a for a in cls["good"] if a.theory and a.theory.right]; no = [a for a in cls["good"] if not (a.theory and a.theory.right)]
            w = {"C14": [(30, ok), (25, no), (20, cls["odd"]), (15, cls["bad"])], "C15": [(35, ok), (15, no), (12, cls["odd"]), (38, cls["bad"])],
                 "C16": [(34, ok), (22, no), (24, cls["odd"]), (20, cls["bad"])],
                 "C18": [(12, ok), (70, no), (8, cls["odd"]), (10, cls["bad"])]}[self.focus]
            l = ch.weighted([(x, y) for x, y in w if y], "ps-class")
            return l[ch.draw(len(l), "ps")]
        last = next((e.ans for e in reversed(self.events) if isinstance(e, Req) and e.kind == "ps"), None)
        th = last.theory if last else None
        mine = [a for a in cls["good"] if th is not None and a.theory is th]
        rest = [a for a in cls["good"] if a not in mine]
        w = [(25, mine[:1]), (15, mine), (14, rest), (20, cls["odd"]), (22, cls["bad"])]
        if self.focus == "C18": w = [(60, mine[:1]), (15, mine), (10, rest), (9, cls["odd"]), (6, cls["bad"])]
        if self.focus == "C15": w = [(32, mine[:1]), (12, mine), (8, rest), (10, cls["odd"]), (36, cls["bad"])]
        l = ch.weighted([(x, y) for x, y in w if y], "inv-class")
        return l[ch.draw(len(l), "inv")]
    def request(self, client, msgs):
        rg, out = self.rg, self.rg.out
        if client != self.model: out.bad("C15", "wrong-service", "asked %s, the session uses %s" % (client, self.model))
        first = msgs[0][1] if msgs else ""
        if self.ps_prompt is None: self.ps_prompt = first
        kind = "ps" if first == self.ps_prompt else "inv"
        reqs = [e for e in self.events if isinstance(e, Req)]
        nps = sum(r.kind == "ps" for r in reqs)
        since = reqs[max([i for i, r in enumerate(reqs) if r.kind == "ps"], default=-1) + 1:]
        if kind == "ps" and nps >= self.P: out.bad("C15", "too-many-summaries", "request %d for a summary with a limit of %d" % (nps + 1, self.P))
        if kind == "inv" and len(since) >= self.I: out.bad("C15", "too-many-invariants", "request %d for an invariant with a limit of %d" % (len(since) + 1, self.I))
        prior = [r for r in reqs if r.kind == "ps"] if kind == "ps" else since
        want = [r.n for r in prior if r.ans.text and llmrig.extracted(r.ans.text)]
        got = [int(x) for x in re.findall(r"attempt (\d+)\b", "\n".join(t for role, t in msgs[1:]))]
        it = iter(got)
        if not all(x in it for x in want):
            out.bad("C15", "feedback", "the request for another %s carries the answers %r, earlier answers are %r" % (kind, got, want))
        if kind == "inv" and not nps: out.bad("C15", "order", "an invariant was requested before any summary")
        self.check_last(kind)
        rg.server.n += 1
        n = rg.server.n
        a = self.choose(kind)
        self.events.append(Req(kind, n, a))
        rg.w.rec("llm", kind, n, a.label)
        rg.w.count("answer:%s:%s" % (kind, a.cls))
        if self.api_pct and self.ch.flip(self.api_pct * 5, "api"):
            self.api_error = True; rg.w.count("fault:service_error")
            self.events[-1].ans = Answer(kind, "bad", "api", None)
            raise llmrig.ApiError("529 overloaded")
        return a.render(n)
    # -- what must happen next -------------------------------------------------
    def where(self):
        ev = ["%s:%s" % (e.kind, e.ans.label) if isinstance(e, Req) else "run(%s,%s%s)" % (e.verdict, e.fault, "" if e.done else ",unfinished") for e in self.events]
        return "[session %d %s functions=%d %s %s P=%d I=%d; %s]" % (self.idx, self.prog.name, self.variant, self.model, self.method, self.P, self.I, " ".join(ev))
    def dev(self, pid, kind, msg):
        """A deviation; beyond the first proposal of the first session it also is one of C16."""
        said = [l for l in self.text.getvalue().split("\n") if l.startswith("Failed")]
        if said: msg += " (the session said: %s)" % said[-1][:200]
        self.rg.out.bad(pid, kind, "%s %s" % (msg, self.where()))
        reqs = [e for e in self.events if isinstance(e, Req)]
        if self.idx or sum(r.kind == "ps" for r in reqs) > 1 or sum(r.kind == "inv" for r in reqs) > 1:
            self.rg.out.bad("C16", "history-" + kind, "%s %s" % (msg, self.where()))
    def check_last(self, nxt):
        """nxt: what happens now: "ps"/"inv" request, "ok" or "fail"."""
        ev = self.events
        if not ev: return
        last = ev[-1]
        early = nxt == "fail" and (self.early or self.api_error)
        if isinstance(last, Req) and last.kind == "ps":
            u = self.usable(last.ans)
            if nxt == "ok": self.dev("C14", "no-verification", "success right after the summary %s" % last.ans.label); return
            if early: return
            if u is True and nxt != "inv": self.dev("C15", "good-summary-dropped", "the summary %s is well formed but %s follows" % (last.ans.label, nxt))
        elif isinstance(last, Req):
            u = self.usable(last.ans)
            if nxt == "ok":
                if self.method != "none": self.dev("C14", "no-verification", "success without a verifier run after the invariant %s" % last.ans.label)
                return
            if early: return
            if u is True and self.method == "none": self.dev("C15", "good-invariant-dropped", "without verification a well-formed proposal must be reported"); return
            if u is True: self.dev("C15", "good-invariant-dropped", "the invariant %s is well formed but was not verified" % last.ans.label)
        else:
            self.check_run(last)
            if nxt == "ok":
                if not last.proved: self.dev("C14", "unverified", "success although the verifier ended %s/%s" % (last.verdict, last.fault))
            elif last.proved and not early:
                self.dev("C15", "verified-dropped", "the verifier proved the proposal but %s follows" % nxt)
    def natives(self):
        """Native predicates of the current proposal, or None when an answer has no native reading."""
        p = self.prog
        reqs = [e for e in self.events if isinstance(e, Req)]
        ps = next((r.ans for r in reversed(reqs) if r.kind == "ps"), None)
        inv = reqs[-1].ans if reqs and reqs[-1].kind == "inv" else None
        if ps is None or inv is None or ps.code is None or inv.code is None: return None
        try:
            fp = llmrig.native_fns(ps.code, self.decls); fi = llmrig.native_fns(inv.code, self.decls)
        except Exception: return None
        names = ["invariant1", "invariant2"] if p.double else ["invariant"]
        if p.name not in fp or any(n not in fi for n in names): return None
        x = {}
        params, f = fp[p.name]
        order = self.ps_args
        # other names stand for the parameters in the order of the source
        src = params if sorted(params) == sorted(order) else [q for q, _ in p.params]
        self.value = lambda *a: f(*[dict(zip(order, a))[q] for q in src])
        x[p.name + "_ps"] = lambda *a: rig.same_value(a[-1], self.value(*a[:-1]))
        for k, n in enumerate(names):
            q, g = fi[n]
            s = sorted(q)
            x["%s_inv%d" % (p.name, k)] = lambda *a, q=q, g=g, s=s: g(*[dict(zip(s, a))[z] for z in q])
        return x
    def holds_at(self, x, env):
        """All obligations at one state: True / False / None (an undefined operation)."""
        it = irsem.Interp([], extra=x)
        res = True
        for o in self.driver.asserts:
            try: v = it.expr(o.src, env)
            except (EvalError, RecursionError): res = None; continue
            except SortError: return None
            if v is False: return False
        return res
    def check_run(self, r):
        """Was the right question asked and the right answer given?"""
        if getattr(r, "checked", False): return
        r.checked = True
        if r.text is None or r.verdict is None: return
        x = self.natives()
        if x is None: return
        bad = None
        for e in self.points:
            if self.holds_at(x, e) is False: bad = e; break
        reqs = [e for e in self.events if isinstance(e, Req)]
        label = "summary %s, invariant %s" % (next(q.ans.label for q in reversed(reqs) if q.kind == "ps"), reqs[-1].ans.label)
        strict = all(q.ans.cls == "good" for q in [next(q for q in reversed(reqs) if q.kind == "ps"), reqs[-1]]) and self.usable(reqs[-1].ans) and self.usable(next(q for q in reversed(reqs) if q.kind == "ps").ans)
        if r.verdict == "unsat" and bad is not None:
            self.dev("C14", "other-question", "the verifier was given a problem that holds although the proposal (%s) violates the obligations at %r" % (label, bad))
        elif r.verdict == "sat" and bad is None and strict:
            env = {k: v for k, v in (r.model or {}).items()}
            full = {**self.env_of((), {}), **env}
            if self.holds_at(x, full) is True: self.dev("C15", "good-refuted", "the verifier was given a problem that fails at %r where the proposal (%s) is right" % (env, label))
        elif r.verdict == "error" and bad is None and strict:
            self.dev("C15", "good-unverifiable", "the problem for %s is not accepted by the verifier: %s" % (label, r.err))
        if r.verdict in ("unsat", "sat"): self.check_defs(r, x, label)
    def check_defs(self, r, x, label):
        """The definitions in the query mean what the proposal and the session's functions mean."""
        p = self.prog
        try:
            if r.kind == "smt": _, fns = smt.functions(r.text)
            else:
                prog = rkt.Program(r.text); ev = rkt.Evaluator(prog)
                fns = {n: ev.ns[ev.id[n]] for n in prog.funs}
        except Exception as e: raise
        def cmp(name, f, g, pts, pid):
            for pt in pts:
                try: a = f(*pt)
                except (EvalError, RecursionError): continue
                except (SortError, TypeError): a = "ill-typed"
                try: b = g(*pt)
                except (EvalError, RecursionError): continue
                if not rig.same_value(a, b):
                    self.dev(pid, "other-definition", "%s%r is %r in the problem, %r in what was proposed or given (%s)" % (name, pt, a, b, label)); return
        inst = {}
        for e in self.points[::3]:
            args = tuple(e[q] for q in self.ps_args)
            inst.setdefault(p.name + "_ps", []).append(args + ((e["agg.result"] if p.ret != "int" else e.get(p.out, 0)),))
            try: inst[p.name + "_ps"].append(args + (self.value(*args),))
            except (EvalError, RecursionError): pass
            for k in range(len(p.heads)):
                inst.setdefault("%s_inv%d" % (p.name, k), []).append(tuple(e["agg.result" if v == p.out and p.ret != "int" else v] for v in p.inv_vars(k)))
        for n, g in x.items():
            if n not in fns: self.dev("C14", "missing-definition", "%s is not defined in the problem (%s)" % (n, label)); return
            cmp(n, fns[n], g, inst.get(n, []), "C14")
        ns = llmrig.native_dsl(self.decls)
        lists = [e[q] for e in self.points[::9] for q, t in p.params if t == "list"][:6] + [(1, 2), (3, -1), (0,)]
        rng = random.Random(4)
        for f in self.decls:
            n = f.name()
            if n not in fns or n not in ns: continue
            ts = [a.type for a in f.arguments()]
            m = llmrig.ir()
            pts = []
            for _ in range(5):
                v = []
                for t in ts:
                    if t is m.Int: v.append(rng.choice([0, 1, 2, 3, -1]))
                    elif t is m.Bool: v.append(rng.random() < .5)
                    elif t == m.List[m.Int]: v.append(rng.choice(lists))
                    else: v = None; break
                if v is None: break
                pts.append(tuple(v))
            def nat(*a, h=ns[n]):
                try: return llmrig.from_l(h(*[llmrig.to_l(z) for z in a]))
                except (IndexError, RecursionError, ZeroDivisionError, TypeError, ValueError) as ex: raise EvalError(str(ex))
            cmp(n, fns[n], nat, pts, "C16" if self.idx else "C14")
    # -- running ---------------------------------------------------------------
    def snapshot(self):
        show = lambda d: (id(d), d.name(), d.to_python() if d.body() is not None else None, repr(d))
        info = {k: [repr(getattr(o, "src", o)) for o in (v if isinstance(v, list) else [v])] for k, v in vars(self.info).items()}
        ax = llmrig.axioms()
        return dict(dsl=[show(d) for d in self.fns], axioms={k: [(id(a), repr(a)) for a in v] for k, v in ax.items()}, obligations=[repr(a.src) for a in self.driver.asserts],
                    loops=info, out=repr(self.outvar.src), vars=[(v.name(), v.type) for v in self.driver.var_tracker.all()])
    def go(self, syn):
        rg = self.rg; w = rg.w
        r = rg.guarded(self.setup)
        if r[0] == "exc":
            if isinstance(r[1], (SimHang, SimAbort)): raise r[1]
            rg.out.bad("C15", "analysis", "the analysis failed: %s: %s %s" % (type(r[1]).__name__, r[1], self.where()))
            if self.idx: rg.out.bad("C16", "history-analysis", "the analysis failed: %s %s" % (r[1], self.where()))
            return
        self.fns = list(self.decls)
        before = self.snapshot()
        if rg.ff: w.file_fault = rg.ff
        rg.server.sess = self; rg.sess = self
        text = self.text = io.StringIO()
        def body():
            with contextlib.redirect_stdout(text):
                return syn.run_llm_synthesis_algorithm(driver=self.driver, loop_info=self.info, output_var=self.outvar, source_code=self.source, benchmark_name=self.prog.name,
                    llm_model=syn.LLMModel(self.model), dsl_fns=self.fns, dsl_fn_name_to_axioms=llmrig.axioms(), max_num_ps_sols=self.P, max_num_inv_sols=self.I, verification_method=syn.VerificationMethod(self.method))
        r = rg.guarded(body)
        w.file_fault = None
        self.result = r
        if rg.harness: raise rg.harness
        if r[0] == "exc" and isinstance(r[1], SimHang): rg.out.bad("C15", "hang", "%s %s" % (r[1], self.where())); return
        if r[0] == "exc" and isinstance(r[1], SimAbort): raise r[1]
        if rg.ff and rg.ff.hit: self.early = True
        if self.enoent: self.early = True
        self.finish(text.getvalue())
        after = self.snapshot()
        for k in before:
            if before[k] != after[k]:
                a, b = before[k], after[k]
                rg.out.bad("C16", "inputs-modified", "the session modified its %s: %s %s" % (k, first_diff(a, b), self.where()))
    def finish(self, printed):
        out = self.rg.out
        kind, val = self.result
        ok = kind == "ok"
        self.check_last("ok" if ok else "fail")
        reqs = [e for e in self.events if isinstance(e, Req)]
        if ok:
            if not self.events: self.dev("C14", "no-verification", "success without any proposal")
            m = re.search(r"Found PS solution\n(.*)", printed, re.S)
            last = next((r.ans for r in reversed(reqs) if r.kind == "ps"), None)
            if m and last is not None and last.code is not None and last.cls == "good":
                try:
                    f = llmrig.native_fns(m.group(1), self.decls); g = llmrig.native_fns(last.code, self.decls)
                    n = self.prog.name
                    pts = [tuple(e[q] for q in f[n][0]) for e in self.points[::4]]
                    perm = [f[n][0].index(q) for q in g[n][0]]
                    if any(self.diff(f[n][1], g[n][1], pt, perm) for pt in pts): self.dev("C14", "other-summary-reported", "the reported summary is not the one that was verified: %s" % m.group(1).strip())
                except Exception: pass
        else:
            early = self.early or self.api_error
            nps = sum(r.kind == "ps" for r in reqs)
            if not early:
                if nps != self.P: self.dev("C15", "ended-early", "ended with %s: %s after %d of %d summaries" % (type(val).__name__, str(val)[:160], nps, self.P))
                else:
                    groups = []
                    for r in reqs:
                        if r.kind == "ps": groups.append([r.ans, 0])
                        else: groups[-1][1] += 1
                    for a, c in groups:
                        if c not in (0, self.I) or (c == 0 and self.usable(a) is True):
                            self.dev("C15", "attempts", "the summary %s got %d of %d invariants; the session ended with %s: %s" % (a.label, c, self.I, type(val).__name__, str(val)[:160])); break
        # an accepted summary is what the program computes
        if ok and self.method != "none":
            x = self.natives()
            if x is not None:
                p = self.prog
                for args in self.traced:    # the verifier's samples cover these executions
                    e = dict(zip([q for q, _ in p.params], args))
                    try: v = x[p.name + "_ps"](*[e[q] for q in self.ps_args], p.fn(*args))
                    except (EvalError, RecursionError): continue
                    if v is not True:
                        last = next((e for e in reversed(self.events) if isinstance(e, Run)), None)
                        why = getattr(last, "because", None)
                        why = "; the problem assumes %s, which is false for %r" % (sexp.show(why[0]), why[1]) if why else ""
                        out.bad("C18", "wrong-summary", "the accepted summary is not what the program computes at %r%s %s" % (args, why, self.where())); break
    @staticmethod
    def diff(f, g, pt, perm):
        try: a = f(*pt); b = g(*[pt[i] for i in perm])
        except (EvalError, RecursionError): return False
        return not rig.same_value(a, b)

def first_diff(a, b):
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if a.get(k) != b.get(k): return "%s: %s -> %s" % (k, str(a.get(k))[:150], str(b.get(k))[:150])
    for x, y in zip(a, b):
        if x != y: return "%s -> %s" % (str(x)[:150], str(y)[:150])
    return "%d -> %d items" % (len(a), len(b))

class LLMRig:
    def __init__(self, ch, root, focus, out):
        self.ch, self.root, self.focus, self.out = ch, root, focus, out
        self.w = World(ch, root)
        self.server = Server(self.w, ch, out)
        llmrig.SERVER = self.server
        self.w.spawn_handler = self.spawn
        self.sess = None; self.ff = None; self.harness = None
        self.rng = random.Random(ch.draw(1 << 20, "racket-rng"))
    def guarded(self, f):
        kernel.set_current(self.w)
        try:
            try: return ("ok", f())
            except HarnessError: raise
            except BaseException as e: return ("exc", e)
        finally: kernel.set_current(None)
    def spawn(self, argv):
        prog = os.path.basename(str(argv[0]))
        if prog == "c++filt": return lambda proc: self.filt(argv[1:])
        s = self.sess
        if prog not in ("cvc5", "racket"): raise HarnessError("spawn %r" % (argv,))
        if s.vpct and self.ch.flip(1, "enoent"):
            s.enoent = True; self.w.count("fault:verifier_missing")
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
        r = Run("smt" if prog == "cvc5" else "rosette")
        if prog != {"smt": "cvc5", "rosette": "racket"}.get(s.method): self.out.bad("C14", "wrong-verifier", "%s was run, the session asks for %s" % (prog, s.method))
        s.events.append(r)
        path = os.path.join(self.root, str(argv[-1]))
        if prog == "cvc5":
            v = rig.Verifier(self.w, hints=s.points, fault_pct=s.vpct, limit=1200)
            v.strong = self.focus == "C18"
            g = v.spawn(argv)
            return lambda proc: self.smt(proc, g(proc), r, v)
        fault = None
        if s.vpct and self.ch.flip(s.vpct, "rfault"):
            fault = self.ch.weighted(RKT_FAULTS, "rfault-kind"); self.w.count("fault:racket_" + fault)
        plan = rkt.Plan(); plan.hints = s.points
        plan.default = dict(plan.default, think=self.ch.pick([500, 40, 9000, 200000], "vdelay"))
        return lambda proc: self.racket(proc, path, plan, r, fault)
    def filt(self, names):
        yield ("out", "".join(llmrig.DEMANGLE.get(str(n), str(n)) + "\n" for n in names if not str(n).startswith("-")))
        yield ("exit", 0)
    def smt(self, proc, g, r, v):
        q = v.queries[-1]
        try:
            for a in g: yield a
        finally:
            r.text, r.fault, r.done = q.text, q.fault, q.completed
            if q.verdict is not None: r.verdict, r.model, r.err, r.because = q.verdict.answer, q.verdict.model, q.verdict.error, q.verdict.because
    def racket(self, proc, path, plan, r, fault):
        r.fault = fault
        try:
            with osim.real_open(path) as f: r.text = f.read()
        except OSError: pass
        def obs(ev, *a):
            if ev == "verified": r.verdict = "unsat" if a[0] is None else "sat"; r.model = dict(zip(a[1], a[0])) if a[0] is not None else None
            elif ev in ("error", "load-error"): r.verdict = "error"; r.err = a[0]
        for a in rkt.racket_process(self.w, proc, path, plan, self.rng, obs):
            if a[0] == "out" and fault:
                if fault in ("kill-silent", "empty", "error"): continue
                if fault == "kill-mid-answer": yield ("out", a[1][:3]); yield ("exit", -11); return
                if fault == "unknown": yield ("out", "(unknown)\n"); continue
            if a[0] == "exit" and fault:
                code = {"kill-silent": -9, "kill-after-answer": -6, "exit-after-answer": 1, "error": 1}.get(fault, 0)
                if fault == "error": yield ("err", "verify_x.rkt: bitwuzla: (unsat) not available\n")
                yield ("exit", code); return
            if a[0] == "exit" and a[1] == 0 and not fault: r.done = True
            self.w.count("op:racket")
            yield a

def run(ch, root, focus):
    out = rig.Outcome()
    os.environ["BITWUZLA_PATH"] = "/opt/bitwuzla"
    llmrig.place(root)
    os.chdir(root)
    syn = llmrig.fresh_scripts(root)
    from metalift import process_tracker
    process_tracker.all_processes.clear()
    rg = LLMRig(ch, root, focus, out)
    w = rg.w
    n = {"C14": ch.weighted([(6, 1), (2, 2)], "nsess"), "C15": ch.weighted([(8, 1), (1, 2)], "nsess"), "C16": ch.weighted([(5, 2), (2, 1), (3, 3)], "nsess"), "C18": 1}[focus]
    if focus != "C16" and ch.flip(8, "file?"):
        rg.ff = rig.FileFaults(w, ch.draw(40, "file-op") + 1, ch.pick(rig.FileFaults.KINDS, "errno"))
    if focus == "C16" and ch.flip(25, "stale?"):
        os.makedirs("synthesisLogs", exist_ok=True)
        for b in llmrig.POOL:
            for x in ("smt", "rkt"):
                with osim.real_open("synthesisLogs/verify_%s.%s" % (b, x), "w") as f: f.write("(check-sat)\n; left over " * 300)
        for lib in ("utils.rkt", "bounded.rkt"):     # of an older version, or written by a process that was killed
            with osim.real_open("metalift/utils/" + lib) as f: text = f.read()
            with osim.real_open("synthesisLogs/" + lib, "w") as f: f.write(ch.pick(["", text[:len(text) // 2], text.replace("(- n", "(+ n").replace("list-ref-noerr", "list-ref-old")], "old-lib"))
        with osim.real_open("llmlift_scripts/dsl.py", "w") as f: f.write("def vec_map(x: int) -> int:\n    return x\n")
    ss = []
    try:
        for i in range(n):
            s = Session(rg, i); ss.append(s)
            s.go(syn)
            if rg.ff and rg.ff.hit: break
    except SimAbort as e: out.inconclusive = str(e)
    out.take(w)
    if not out.inconclusive: rig.check_reaped(w, out)
    out.key = tuple((s.prog.name, s.variant, s.model, s.method, tuple((e.kind, e.ans.cls) if isinstance(e, Req) else (e.kind, e.verdict, e.fault) for e in s.events), s.result and s.result[0]) for s in ss)
    out.nontrivial = any(s.events for s in ss)
    out.note = "llm " + " | ".join("%s -> %s" % (s.where(), (s.result[0] if s.result[0] == "ok" else "%s: %s" % (type(s.result[1]).__name__, str(s.result[1])[:100])) if s.result else None) for s in ss)
    for s in ss:
        k = "outcome:" + ("ok" if s.result and s.result[0] == "ok" else "fail")
        out.stats[k] = out.stats.get(k, 0) + 1
        for e in s.events:
            if isinstance(e, Run): k = "verdict:%s:%s" % (e.kind, e.verdict); out.stats[k] = out.stats.get(k, 0) + 1
    out.stats["probe:live_builds"] = llmrig.MEMO.live; llmrig.MEMO.live = 0
    if rg.ff and rg.ff.hit: out.stats["fault:file_error"] = 1
    return out
