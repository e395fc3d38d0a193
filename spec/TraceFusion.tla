------------------------------ MODULE TraceFusion ---------------------------
(* Recorded fusion moves, fusion-based inference and self fusion.           *)
(* fx: the proposal (or labeling of the inner solver) that is on offer, how *)
(* many there were, how many rounds in a row brought nothing, and every     *)
(* labeling the solver has been offered in this run.                        *)
EXTENDS SolverActions, Fusion
VARIABLES fx
fvars == <<opr, sp, fa, tab, sol, fx>>
GenNames == <<"alpha", "swap", "updown", "random", "random2", "randomlf", "nonuniform", "blur", "energyblur">>
GenName == GenNames[Par(sol.par, "gen", 0) + 1]
NoOffer == [on |-> FALSE, p |-> <<>>, n |-> 0, idle |-> 0, v |-> 0, inn |-> 0, seen |-> <<>>]
\* one fusion of two labelings by a back end
Fuse(e) ==
  /\ Chk("fuse-any", e.any = (e.a # e.b))
  /\ Chk("fuse-count", e.d = Cardinality(Diff(e.a, e.b)))
  /\ Chk("fuse-of-both", IsFusion(e.a, e.b, e.x))
  /\ (e.any => Chk("fuse-value", e.v = Value(e.x)))
  /\ (e.any => Chk("fuse-not-worse", NoWorse(e.acc, e.a, e.b, e.x)))
  /\ (~e.any => Chk("fuse-nothing", e.x = e.a))
  /\ CASE e.any /\ (e.kind = "exact" \/ (e.kind = "cut" /\ SubmodularMove(e.acc, e.a, e.b))) -> Chk("fuse-best", BestFusion(e.acc, e.a, e.b, e.x))
       [] e.any /\ e.kind = "flip" -> Chk("fuse-flip-optimal", FlipOptFusion(e.acc, e.a, e.b, e.x, e.k))
       \* not started at the better input: that input may replace what local search found
       [] e.any /\ e.kind = "coldflip" -> Chk("fuse-flip-optimal-or-input", (e.x \in {e.a, e.b} /\ NoWorse(e.acc, e.a, e.b, e.x)) \/ FlipOptFusion(e.acc, e.a, e.b, e.x, e.k))
       [] OTHER -> TRUE
\* fusion-based inference: a proposal made from the current labeling
Propose(e) ==
  /\ Chk("protocol-propose", sol.ph \in {"ready", "running"} /\ ~sol.asked)
  /\ Chk("propose-current", sol.vis => e.x = sol.x)
  /\ Chk("proposal", ProposalOK(GenName, fx.n, e.x, e.p))
  \* what was offered before has been used: the current labeling is not worse
  /\ Chk("propose-after-fusion", fx.on => MoveAllowed(sol.acc, fx.seen[Len(fx.seen)], fx.p, e.x))
  \* no round after the last one
  /\ Chk("propose-too-many", fx.n < Par(sol.par, "numIt", 1000))
  /\ LET idle == IF ~fx.on THEN 0 ELSE IF Better2(sol.acc, Value(e.x), fx.v) THEN 0 ELSE fx.idle + 1
         pat == IF Par(sol.par, "numStop", 0) = 0 THEN Patience(GenName) ELSE Par(sol.par, "numStop", 0)
     IN /\ Chk("propose-after-stop", pat = 0 \/ idle < pat)
        /\ fx' = [fx EXCEPT !.on = TRUE, !.p = e.p, !.n = @ + 1, !.idle = idle, !.v = Value(e.x), !.seen = Append(@, e.x)]
  /\ UNCHANGED <<opr, sp, fa, tab, sol>>
\* self fusion: the inner solver shows a labeling
Inner(e) ==
  LET nth == Par(sol.par, "nth", 1)
      used == e.st = NORMAL /\ Valid(e.x) /\ (e.w = "end" \/ (e.w = "step" /\ fx.inn % nth = 0 /\ ~sol.asked))
  IN /\ Chk("protocol-inner", sol.ph \in {"ready", "running"})
     /\ fx' = [fx EXCEPT !.on = used, !.p = e.x, !.inn = IF e.w = "step" THEN @ + 1 ELSE @, !.seen = IF used THEN Append(@, e.x) ELSE @]
     /\ UNCHANGED <<opr, sp, fa, tab, sol>>
\* a visit: the labeling shown is the fusion of the last shown and the one on offer
Used(e) ==
  IF sol.name \in {"fusion", "selffusion"} /\ fx.on THEN Chk("shown-fusion", MoveAllowed(sol.acc, sol.x, fx.p, e.x))
  ELSE Chk("shown-unchanged", sol.name \in {"fusion", "selffusion"} => e.x = sol.x)
FStep(e) ==
  /\ Used(e)
  /\ Step(e) /\ Unch
  /\ fx' = IF sol.name = "selffusion" THEN [fx EXCEPT !.on = FALSE] ELSE fx
\* at the end of self fusion the last labeling of the inner solver has been used;
\* in fusion-based inference the last proposal was seen by a visit or changed nothing
FEnd(e) ==
  /\ (IF sol.name = "selffusion" THEN Used(e) ELSE Chk("end-unchanged", sol.name = "fusion" => e.x = sol.x))
  /\ End(e) /\ Unch /\ UNCHANGED fx
FRes(e) ==
  /\ (sol.name = "fusion" /\ e.st = NORMAL /\ fx.on =>
        /\ Chk("res-fusion", MoveAllowed(sol.acc, fx.seen[Len(fx.seen)], fx.p, e.x))
        /\ (Finished => LET idle == IF Better2(sol.acc, Value(e.x), fx.v) THEN 0 ELSE fx.idle + 1
                            pat == IF Par(sol.par, "numStop", 0) = 0 THEN Patience(GenName) ELSE Par(sol.par, "numStop", 0)
                        IN Chk("stopped-early", fx.n = Par(sol.par, "numIt", 1000) \/ idle = pat)))
  /\ (sol.name = "selffusion" =>
        /\ \A k \in 1 .. Len(fx.seen) : Chk("res-not-worse-than-found", NotWorse(sol.acc, e.v, Value(fx.seen[k])))
        /\ \A i \in 1 .. NV : Chk("res-of-found", e.x[i] = sol.start[i] \/ \E k \in 1 .. Len(fx.seen) : e.x[i] = fx.seen[k][i]))
  \* expansion proposals with a back end that tries every fusion end in a labeling no expansion improves
  /\ (sol.name = "fusion" /\ Finished /\ fx.n < Par(sol.par, "numIt", 1000) /\ GenName = "alpha" /\ opr = "add" /\ Par(sol.par, "k", 0) >= NV /\ Par(sol.par, "numStop", 0) = 0
        => Chk("expansion-optimal", ExpansionOpt(sol.acc, e.x)))
  /\ Res(e) /\ Unch /\ UNCHANGED fx
FusionStep(e) ==
  CASE e.op = "fuse" -> Fuse(e) /\ UNCHANGED fvars
    [] e.op = "propose" -> Propose(e)
    [] e.op = "inner" -> Inner(e)
    [] e.op = "run" -> Run(e) /\ Unch /\ fx' = NoOffer
    [] e.op = "step" -> FStep(e)
    [] e.op = "end" -> FEnd(e)
    [] e.op = "res" -> FRes(e)
    [] e.op = "model" -> LoadModel(e) /\ sol' = NoSolver /\ fx' = NoOffer
    [] OTHER -> SolverStep(e) /\ UNCHANGED fx
TraceInit == TInit /\ NoModel /\ sol = NoSolver /\ fx = NoOffer
TraceNext == (TEvent /\ FusionStep(Ev)) \/ (TDone /\ UNCHANGED fvars)
=============================================================================
