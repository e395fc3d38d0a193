---------------------------- MODULE Manipulator -----------------------------
(* Fixing variables of a model, locking, building reduced models.           *)
(* fix[v+1] is the fixed label of variable v or -1.                         *)
EXTENDS ModelBase
VARIABLES fix, mode, phase      \* phase: "open", "locked", "tent" (tentacles eliminated)
nvars == <<fix, mode, phase>>

Create(md) == fix' = [v \in 1 .. NV |-> -1] /\ mode' = md /\ phase' = "open"
Fix(v, lab) == phase = "open" /\ lab \in Range0(sp[v + 1]) /\ fix' = [fix EXCEPT ![v + 1] = lab] /\ UNCHANGED <<mode, phase>>
Free(v) == phase = "open" /\ fix' = [fix EXCEPT ![v + 1] = -1] /\ UNCHANGED <<mode, phase>>
FreeAll == phase = "open" /\ fix' = [v \in 1 .. NV |-> -1] /\ UNCHANGED <<mode, phase>>
Lock == phase = "open" /\ phase' = "locked" /\ UNCHANGED <<fix, mode>>
LockTentacles == phase = "open" /\ mode = "fix" /\ phase' = "tent" /\ UNCHANGED <<fix, mode>>
Unlock == phase' = "open" /\ fix' = [v \in 1 .. NV |-> -1] /\ UNCHANGED mode

Fixed == { v \in Range0(NV) : fix[v + 1] # -1 }
FreeVars == Range0(NV) \ Fixed
FreeSeq == Sorted(FreeVars)
FreeShape == [i \in 1 .. Len(FreeSeq) |-> sp[FreeSeq[i] + 1]]
Pos(s, v) == CHOOSE i \in 1 .. Len(s) : s[i] = v
\* full labeling from a labeling of the free variables
Merge(y) == [i \in 1 .. NV |-> IF (i - 1) \in Fixed THEN fix[i] ELSE y[Pos(FreeSeq, i - 1)]]
\* the model the reduced model has to equal
KeptFacs == SelectSeq(fa, LAMBDA f : mode = "fix" \/ SeqSet(f.v) \cap Fixed = {})
ReducedValue(y) == ValAt(opr, KeptFacs, Merge(y))
ReducedTable == LET s == FreeShape IN [r \in 1 .. Size(s) |-> ReducedValue(Unrank(s, r - 1))]
\* free variables linked by remaining factors: a factor links its free variables
\* (in drop mode the implementation may keep dropped links: finer is not required)
RECURSIVE RestComp(_, _)
RestComp(P, i) ==
  IF i > Len(fa) THEN P
  ELSE LET S == SeqSet(fa[i].v) \ Fixed
           hit == { C \in P : C \cap S # {} }
       IN RestComp(IF hit = {} THEN P ELSE (P \ hit) \cup { UNION hit }, i + 1)
RestComponents == RestComp({ {v} : v \in FreeVars }, 1)
\* best original value subject to the fixed labels
ConstrainedRanks == { r \in 1 .. Len(tab) : LET x == Unrank(sp, r - 1) IN \A v \in Fixed : x[v + 1] = fix[v + 1] }
ConstrainedOpt(acc) == LET s == SetToSeq({ tab[r] : r \in ConstrainedRanks }) IN Best(acc, s)
AgreesWithFixed(x) == \A v \in Fixed : x[v + 1] = fix[v + 1]
=============================================================================
