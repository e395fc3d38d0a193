----------------------------- MODULE TraceLinProg ----------------------------
EXTENDS LinearProgram, TraceBase
VARIABLES acc, par, ph, last, lastb, steps, asked, opt, rel, prob
tvars == <<opr, sp, fa, tab, fk, fhard, acc, par, ph, last, lastb, steps, asked, opt, rel, prob>>
\* prob: facts about the problem
\* rel: bounds of finished relaxations seen so far, by kind of program
NoProb == [free |-> 0, met |-> 0, feasible |-> FALSE, acyclic |-> FALSE, pairs |-> FALSE, half |-> 0, hard |-> FALSE, transfer |-> FALSE, known |-> FALSE]
Facts(a) == LET feas == TLCEval(FeasibleRanks) pairs == OrdinaryPairs /\ ParallelFree /\ ~ModelAcyclic IN
  [free |-> Opt(a), met |-> IF feas = {} THEN 0 ELSE Best(a, SetToSeq({ tab[r] : r \in feas })), feasible |-> feas # {}, acyclic |-> ModelAcyclic,
   pairs |-> pairs, half |-> IF pairs THEN RelaxOpt(a) ELSE 0, hard |-> AnyHard, transfer |-> AnyTransfer, known |-> TRUE]
NoPar == [node |-> 0, factor |-> 0, soft |-> 0, trans |-> 0, merge |-> 0, relax |-> 0, iters |-> 0, per |-> 0]
Soft == par.soft = 1
Integer == par.node = 1
LUnch == UNCHANGED lvars
Far(b) == b \in {NEGINF, POSINF, TooBig, -TooBig}
Within(a, b, v) == IF a = "min" THEN b <= Scaled(v) + 5 ELSE b >= Scaled(v) - 5
AtLeastApart(b) == IF acc = "min" THEN b >= Scaled(Apart(acc, Soft, par.trans = 1)) - 5 ELSE b <= Scaled(Apart(acc, Soft, par.trans = 1)) + 5
NotBack(b) == IF acc = "min" THEN b >= lastb - 5 ELSE b <= lastb + 5
Shown(e) == /\ Chk("valid", e.st = 1 /\ Valid(e.x)) /\ Chk("value-of-arg", e.v = Value(e.x))
            /\ Chk("bound", IsNum(e.b) /\ Within(acc, e.b, opt))
Exact == Integer \/ (par.factor = 1 /\ ~prob.hard /\ (par.trans = 0 \/ ~prob.transfer))
Done == ~asked /\ (par.iters = 0 \/ par.relax = 2 \/ steps < par.iters)
Kind == <<par.soft, par.trans, par.merge>>
\* what a finished run must show
Finished(e) ==
  /\ Chk("exact", Exact => e.v = opt)
  /\ Chk("exact-bound", Exact => Abs(e.b - Scaled(opt)) <= 5)
  /\ Chk("feasible", (Integer /\ ~Soft) => FeasibleX(e.x))
  /\ Chk("complete", (par.factor = 0 /\ ~Exact) => AtLeastApart(e.b))
  /\ Chk("acyclic", (~prob.hard /\ (par.trans = 0 \/ ~prob.transfer) /\ prob.acyclic) => (e.v = opt /\ Abs(e.b - Scaled(opt)) <= 5))
  /\ Chk("half-integral", (prob.pairs /\ ~Exact /\ par.factor = 0) => Abs(e.b - 500 * prob.half) <= 5)
  /\ Chk("same-relaxation", (~Exact /\ par.factor = 0) => \A q \in rel : q[1] = Kind => Abs(q[2] - e.b) <= 5)
LStep(e) ==
  CASE e.op = "model" -> LoadProgram(e) /\ acc' = e.acc /\ rel' = {} /\ prob' = NoProb /\ ph' = "none" /\ UNCHANGED <<par, last, lastb, steps, asked, opt>>
    [] e.op = "new" ->
         /\ par' = [k \in DOMAIN NoPar |-> e.par[k]]
         /\ LET q == IF prob.known THEN prob ELSE TLCEval(Facts(acc)) IN
            Chk("feasible-model", e.par.soft = 1 \/ q.feasible) /\ prob' = q /\ opt' = IF e.par.soft = 1 THEN q.free ELSE q.met
         /\ Chk("before", e.st = 0 /\ (\A i \in 1 .. NV : e.x[i] = 0) /\ e.v = Value(e.x) /\ e.b \in IF acc = "min" THEN {NEGINF, -TooBig} ELSE {POSINF, TooBig})
         /\ ph' = "idle" /\ UNCHANGED <<acc, last, lastb, steps, asked, rel>> /\ LUnch
    [] e.op = "run" -> Chk("idle", ph = "idle") /\ ph' = (IF e.vis = 1 THEN "ready" ELSE "blind") /\ asked' = FALSE /\ steps' = 0 /\ UNCHANGED <<acc, par, last, lastb, opt, rel, prob>> /\ LUnch
    [] e.op = "begin" -> Chk("begin", ph = "ready") /\ ph' = "running" /\ UNCHANGED <<acc, par, last, lastb, steps, asked, opt, rel, prob>> /\ LUnch
    [] e.op = "step" -> /\ Chk("step", ph = "running" /\ ~asked /\ (par.iters > 0 => steps < par.iters) /\ (par.relax = 2 => steps = 0)) /\ Shown(e)
                        /\ Chk("monotone", steps > 0 => NotBack(e.b))
                        /\ steps' = steps + 1 /\ asked' = (e.ask # 0) /\ last' = e.x /\ lastb' = e.b /\ UNCHANGED <<acc, par, ph, opt, rel, prob>> /\ LUnch
    [] e.op = "end" -> /\ Chk("end", ph = "running" /\ steps > 0 /\ e.x = last /\ e.b = lastb) /\ Shown(e) /\ ph' = "ended" /\ UNCHANGED <<acc, par, last, lastb, steps, asked, opt, rel, prob>> /\ LUnch
    [] e.op = "ret" -> Chk("return", ph \in {"ended", "blind"} /\ e.st = 1) /\ ph' = (IF ph = "blind" THEN "late" ELSE "returned") /\ UNCHANGED <<acc, par, last, lastb, steps, asked, opt, rel, prob>> /\ LUnch
    [] e.op = "res" -> /\ Chk("result", ph = "late" \/ (ph = "returned" /\ e.x = last /\ e.b = lastb)) /\ Shown(e)
                       /\ ((IF ph = "late" THEN par.iters = 0 ELSE Done) => Finished(e))
                       /\ rel' = IF (IF ph = "late" THEN par.iters = 0 ELSE Done) /\ ~Exact /\ par.factor = 0 THEN rel \cup {<<Kind, e.b>>} ELSE rel
                       /\ ph' = "idle" /\ UNCHANGED <<acc, par, last, lastb, steps, asked, opt, prob>> /\ LUnch
    \* a program without solution is reported, not answered
    [] e.op = "infeasible" -> Chk("infeasible", (FeasibleRanks = {} /\ e.st # 1)) /\ UNCHANGED tvars
    [] e.op = "refused" -> Chk("refused", e.ok) /\ UNCHANGED tvars
    [] e.op = "same" -> Chk("model-untouched", e.sp = sp /\ e.nf = Len(fa) /\ e.tab = tab) /\ UNCHANGED tvars
    [] OTHER -> FALSE
TraceInit == TInit /\ NoModel /\ fk = <<>> /\ fhard = <<>> /\ acc = "min" /\ par = NoPar /\ ph = "none" /\ last = <<>> /\ lastb = 0 /\ steps = 0 /\ asked = FALSE /\ opt = 0 /\ rel = {} /\ prob = NoProb
TraceNext == (TEvent /\ LStep(Ev)) \/ (TDone /\ UNCHANGED tvars)
=============================================================================
