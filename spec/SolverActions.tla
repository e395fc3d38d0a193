----------------------------- MODULE SolverActions --------------------------
(* Trace events of the generic solver contract, shared by the trace specs. *)
EXTENDS Solver, TraceBase
Unch == UNCHANGED mvars
CopyPar(p) == [k \in DOMAIN p |-> p[k]]
\* a reported labeling with the value shown next to it
Shown(e) ==
  /\ Chk("valid", e.st = NORMAL => Valid(e.x))
  /\ Chk("value-of-arg", e.st = NORMAL => e.v = Value(e.x))
NewSolver(e) ==
  /\ Chk("start-reported", (e.st = NORMAL /\ e.start # <<>>) => e.x = e.start)
  /\ Chk("valid-default", e.st = NORMAL => Valid(e.x))
  /\ sol' = [NoSolver EXCEPT !.name = e.solver, !.acc = e.acc, !.par = CopyPar(e.par), !.ph = "idle", !.start = IF e.solver \in StartNames THEN e.x ELSE e.start, !.first = e.x, !.x = e.x]
Run(e) == sol.ph = "idle" /\ sol' = [sol EXCEPT !.ph = "ready", !.vis = (e.vis = 1), !.n = 0, !.asked = FALSE]
Begin(e) ==
  /\ Chk("protocol-begin", sol.ph = "ready")
  /\ Chk("start-kept", (Starts(sol) /\ sol.start # <<>> /\ e.st = NORMAL) => e.x = sol.start)
  /\ (Starts(sol) => Shown(e))
  /\ sol' = [sol EXCEPT !.ph = "running", !.v = e.v, !.x = e.x]
Step(e) ==
  /\ Chk("protocol-step", sol.ph = "running" /\ ~sol.asked)
  /\ (Starts(sol) => Shown(e))
  /\ Chk("monotone", Monotone(sol) => NotWorse(sol.acc, e.v, sol.v))
  /\ sol' = [sol EXCEPT !.v = e.v, !.x = e.x, !.n = @ + 1, !.asked = (e.ask # 0)]
End(e) ==
  /\ Chk("protocol-end", sol.ph = "running")
  /\ (Starts(sol) => Shown(e))
  /\ Chk("monotone", Monotone(sol) => NotWorse(sol.acc, e.v, sol.v))
  /\ sol' = [sol EXCEPT !.ph = "ended", !.v = e.v, !.x = e.x]
Ret(e) ==
  /\ Chk("protocol-return", sol.ph = IF sol.vis THEN "ended" ELSE "ready")
  /\ Chk("status", e.st \in {UNKNOWN, NORMAL, TIMEOUT, CONVERGENCE})
  /\ sol' = [sol EXCEPT !.ph = "returned", !.status = e.st]
Finished == ~sol.asked /\ sol.status \in {NORMAL, CONVERGENCE}
Res(e) ==
  /\ Chk("protocol-res", sol.ph = "returned")
  /\ Chk("arg-normal", Finished => e.st = NORMAL)
  /\ Shown(e)
  /\ Chk("not-worse-than-start", (Monotone(sol) /\ sol.start # <<>> /\ e.st = NORMAL) => NotWorse(sol.acc, e.v, Value(sol.start)))
  /\ Chk("exact", (Finished /\ Exact(sol)) => e.v = Opt(sol.acc))
  /\ Chk("bound-valid", BoundOn(sol.acc, e.b, Opt(sol.acc)))
  /\ Chk("bound-tight", (Finished /\ BoundTight(sol)) => Abs(e.b - Scaled(e.v)) <= 5)
  /\ Chk("locally-optimal", Finished => LocallyOptimal(sol, e.x))
  /\ sol' = [sol EXCEPT !.ph = "idle", !.x = e.x, !.v = e.v, !.runs = @ + 1, !.start = IF Starts(sol) THEN e.x ELSE @]
\* n-best lists: e.xs in order, e.vs their values
KBest(e) ==
  LET n == Len(e.xs) k == Min2(e.k, Len(tab)) a == sol.acc
      beats(v) == Cardinality({ r \in 1 .. Len(tab) : Better2(a, tab[r], v) })
  IN /\ Chk("kbest-count", n = k)
     /\ \A i \in 1 .. n : Chk("kbest-valid", Valid(e.xs[i]))
     /\ Chk("kbest-distinct", Cardinality(SeqSet(e.xs)) = n)
     \* in order, and nothing left out is better than anything listed
     /\ \A i \in 1 .. n : Chk("kbest-order", beats(Value(e.xs[i])) <= i - 1)
     /\ \A i \in 1 .. (n - 1) : Chk("kbest-sorted", NotWorse(a, Value(e.xs[i]), Value(e.xs[i + 1])))
     /\ Chk("kbest-args", e.all = e.xs)
\* requests beyond the available solutions are refused with a status
Beyond(e) == Chk("beyond", e.st # NORMAL)
\* a solver may refuse a model only if it says so: dynamic programming is for factors of at most two variables
Refuse(e) == Chk("refused", e.ok /\ sol.name = "dynprog" /\ ~AtMostPairwise)
\* optimal subtree values of a root and the labels of the other variables of its tree
NodeInfo(e) ==
  LET C == CHOOSE S \in ModelComponents : e.r \in S
      xs(k) == [v \in 1 .. NV |-> IF v - 1 = e.r THEN k ELSE IF v - 1 \in C THEN e.sub[k + 1][CHOOSE j \in 1 .. Len(e.nodes) : e.nodes[j] = v - 1] ELSE 0]
      part(k) == { r \in 1 .. Len(tab) : LET y == Unrank(sp, r - 1) IN y[e.r + 1] = k /\ \A q \in Range0(NV) \ C : y[q + 1] = 0 }
      opt(k) == Best(sol.acc, SetToSeq({ tab[r] : r \in part(k) }))
      inC == SelectSeq(fa, LAMBDA f : f.v # <<>> /\ SeqSet(f.v) \subseteq C)
  IN /\ Chk("nodes-of-tree", Len(e.nodes) = Cardinality(C) - 1 /\ SeqSet(e.nodes) = C \ {e.r} /\ Len(e.vals) = sp[e.r + 1] /\ Len(e.sub) = sp[e.r + 1])
     /\ \A k \in Range0(sp[e.r + 1]) :
          LET x == xs(k) IN
          /\ Chk("subtree-labels", Valid(x) /\ Value(x) = opt(k))
          /\ Chk("subtree-value", e.vals[k + 1] = ValAt(opr, inC, x))
Same(e) == Chk("model-untouched", e.sp = sp /\ e.nf = Len(fa) /\ e.tab = tab)
\* the same run again gives the same labeling and value
Again(e) == Chk("again", e.x = sol.x /\ e.v = sol.v)
Restart(e) == sol.ph = "idle" /\ Chk("start-reported", Starts(sol) => (e.st = NORMAL /\ e.x = e.start)) /\ sol' = [sol EXCEPT !.start = e.x, !.x = e.x]
\* refusal by an exception exactly of the models outside the solver's class
Construct(e) == Chk("refusal", e.ok = CASE e.solver = "graphcut" -> CutAccepts(e.acc) [] OTHER -> TRUE)
OptArg(e) == Chk("optarg", e.st = NORMAL /\ Valid(e.x) /\ (Exact(sol) => Value(e.x) = Opt(sol.acc)))
\* reset returns to the labeling reported after construction
Reset(e) == sol.ph = "idle" /\ Chk("reset-start", Starts(sol) => (e.st = NORMAL /\ e.x = sol.first)) /\ sol' = [sol EXCEPT !.start = IF Starts(sol) THEN e.x ELSE @, !.x = e.x]
SolverStep(e) ==
  CASE e.op = "model" -> LoadModel(e) /\ sol' = NoSolver
    [] e.op = "new" -> NewSolver(e) /\ Unch
    [] e.op = "run" -> Run(e) /\ Unch
    [] e.op = "begin" -> Begin(e) /\ Unch
    [] e.op = "step" -> Step(e) /\ Unch
    [] e.op = "end" -> End(e) /\ Unch
    [] e.op = "ret" -> Ret(e) /\ Unch
    [] e.op = "res" -> Res(e) /\ Unch
    [] e.op = "kbest" -> KBest(e) /\ UNCHANGED svars
    [] e.op = "beyond" -> Beyond(e) /\ UNCHANGED svars
    [] e.op = "refuse" -> Refuse(e) /\ UNCHANGED svars
    [] e.op = "nodeinfo" -> NodeInfo(e) /\ UNCHANGED svars
    [] e.op = "same" -> Same(e) /\ UNCHANGED svars
    [] e.op = "again" -> Again(e) /\ UNCHANGED svars
    [] e.op = "restart" -> Restart(e) /\ Unch
    [] e.op = "construct" -> Construct(e) /\ UNCHANGED svars
    [] e.op = "optarg" -> OptArg(e) /\ UNCHANGED svars
    [] e.op = "reset" -> Reset(e) /\ Unch
    [] OTHER -> FALSE
=============================================================================
