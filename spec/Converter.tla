------------------------------ MODULE Converter ------------------------------
(* The text format of the UAI competitions and models stored in HDF5 files. *)
(*                                                                          *)
(* A text is a header line and a sequence of words.  A word is              *)
(* [i |-> natural number it denotes, or NoNat; e |-> -log of the number it  *)
(* denotes in units of 1/U, FORBID for zero, NoVal if it denotes no         *)
(* non-negative number].  A stored model is its label counts and factors,   *)
(* [v |-> ascending variables, t |-> table, first variable fastest].        *)
(* files maps names to texts and models; Parse is the grammar of the format *)
(* and gives the model that a text describes or Malformed.                  *)
EXTENDS OGBase
VARIABLE files
FORBID == 1900000000
NoVal == 2000000003
NoNat == -1
Bad == [ok |-> FALSE]
IsForbid(e) == e >= 1500000000

\* numbers at positions p .. p + n - 1 of a text
Nats(w, p, n) == TLCEval([j \in 1 .. n |-> w[p + j - 1].i])
AllNats(w, p, n) == p + n - 1 <= Len(w) /\ \A j \in p .. (p + n - 1) : w[j].i # NoNat
RECURSIVE Scopes(_, _, _, _, _)
\* n scopes from position p
Scopes(w, p, n, nv, acc) ==
  IF n = 0 THEN [ok |-> TRUE, p |-> p, sc |-> acc]
  ELSE IF ~AllNats(w, p, 1) THEN Bad
  ELSE LET k == w[p].i
       IN IF k > nv \/ ~AllNats(w, p + 1, k) THEN Bad
          ELSE LET v == Nats(w, p + 1, k)
               IN IF (\A i \in 1 .. k : v[i] < nv) /\ Cardinality(SeqSet(v)) = k
                  THEN Scopes(w, p + 1 + k, n - 1, nv, Append(acc, v)) ELSE Bad
\* in a text the last variable of a scope changes fastest
TextRank(shape, x) == Rank(Reverse(shape), Reverse(x))
SortedScope(v) == Sorted(SeqSet(v))
PosIn(v, a) == CHOOSE i \in 1 .. Len(v) : v[i] = a
FactorOf(lab, v, tt) ==
  LET s == TLCEval(SortedScope(v))
      sh == TLCEval([i \in 1 .. Len(s) |-> lab[s[i] + 1]])
      tsh == TLCEval([i \in 1 .. Len(v) |-> lab[v[i] + 1]])
      pos == TLCEval([i \in 1 .. Len(v) |-> PosIn(s, v[i])])
  IN [v |-> s, t |-> TLCEval([r \in 1 .. Size(sh) |->
        LET x == Unrank(sh, r - 1) IN tt[TextRank(tsh, [i \in 1 .. Len(v) |-> x[pos[i]]]) + 1]])]
\* number of labelings of a scope, or a number larger than any text is long
Huge == 1000000000
RECURSIVE Volume(_, _, _, _)
Volume(lab, v, i, acc) == IF i > Len(v) THEN acc ELSE IF lab[v[i] + 1] > 1000 \/ acc > 1000000 THEN Huge ELSE Volume(lab, v, i + 1, acc * lab[v[i] + 1])
RECURSIVE Tables(_, _, _, _, _)
Tables(w, p, lab, sc, acc) ==
  IF Len(acc) = Len(sc) THEN [ok |-> TRUE, p |-> p, fac |-> acc]
  ELSE LET v == sc[Len(acc) + 1]
           n == Volume(lab, v, 1, 1)
       IN IF ~AllNats(w, p, 1) THEN Bad
          ELSE IF w[p].i # n \/ p + n > Len(w) THEN Bad
          ELSE IF \E j \in (p + 1) .. (p + n) : w[j].e = NoVal THEN Bad
          ELSE Tables(w, p + 1 + n, lab, sc, Append(acc, FactorOf(lab, v, TLCEval([j \in 1 .. n |-> w[p + j].e]))))
Parse(txt) ==
  LET w == txt.w
  IN IF txt.head # "MARKOV" \/ ~AllNats(w, 1, 1) THEN Bad
     ELSE LET nv == w[1].i
          IN IF ~AllNats(w, 2, nv) \/ ~AllNats(w, nv + 2, 1) THEN Bad
             ELSE LET lab == Nats(w, 2, nv)
                      S == Scopes(w, nv + 3, w[nv + 2].i, nv, <<>>)
                  IN IF (\E i \in 1 .. nv : lab[i] = 0) \/ ~S.ok THEN Bad
                     ELSE LET T == Tables(w, S.p, lab, S.sc, <<>>)
                          IN IF ~T.ok THEN Bad ELSE [ok |-> TRUE, lab |-> lab, fac |-> T.fac, rest |-> Len(w) - T.p + 1]

\* the function a model describes: FORBID where some factor forbids
FVals(m, x) == TLCEval([i \in 1 .. Len(m.fac) |-> LET f == m.fac[i] IN f.t[Rank([j \in 1 .. Len(f.v) |-> m.lab[f.v[j] + 1]], Sub(x, f.v)) + 1]])
Energy(m, x) == LET q == FVals(m, x) IN IF \E i \in 1 .. Len(q) : IsForbid(q[i]) THEN FORBID ELSE SumSeq(q)
\* equal up to one unit per factor, the rounding of the recording
SameFunction(a, b) ==
  /\ a.lab = b.lab
  /\ LET tol == Len(a.fac) + Len(b.fac)
     IN \A r \in 1 .. Size(a.lab) : LET x == Unrank(a.lab, r - 1) IN Abs(Energy(a, x) - Energy(b, x)) <= tol

\* the text a model is written to, scopes ascending
Word(n) == [i |-> n, e |-> NoVal]
NatWords(s) == [j \in 1 .. Len(s) |-> Word(s[j])]
TextOf(m) ==
  LET scopeW == FlattenSeq([i \in 1 .. Len(m.fac) |-> <<Word(Len(m.fac[i].v))>> \o NatWords(m.fac[i].v)])
      tabW == FlattenSeq([i \in 1 .. Len(m.fac) |->
        LET f == m.fac[i] sh == [j \in 1 .. Len(f.v) |-> m.lab[f.v[j] + 1]]
        IN <<Word(Len(f.t))>> \o [k \in 1 .. Len(f.t) |-> [i |-> NoNat, e |-> f.t[Rank(sh, Reverse(Unrank(Reverse(sh), k - 1))) + 1]]]])
  IN [head |-> "MARKOV", w |-> <<Word(Len(m.lab))>> \o NatWords(m.lab) \o <<Word(Len(m.fac))>> \o scopeW \o tabW]

Put(n, c) == files' = [x \in (DOMAIN files) \cup {n} |-> IF x = n THEN c ELSE files[x]]
\* a file that somebody else wrote
WriteText(n, t) == Put(n, [k |-> "text", c |-> t])
WriteModel(n, m, known) == Put(n, [k |-> "model", c |-> m, known |-> known])
\* the converters, with what they were seen to leave in the output file
ToModel(n, out, done, m) ==
  LET p == IF n \in DOMAIN files /\ files[n].k = "text" THEN Parse(files[n].c) ELSE Bad
  IN IF done
     THEN /\ Chk("a malformed text was converted", p.ok)
          /\ Chk("label counts of the converted model", m.lab = p.lab)
          /\ Chk("function of the converted model", SameFunction(m, p))
          /\ WriteModel(out, m, TRUE)
     ELSE /\ Chk("a well-formed text was refused", ~p.ok \/ p.rest > 0)
          /\ UNCHANGED files
ToText(n, out, done, t) ==
  IF done
  THEN /\ Chk("a model with unknown functions or no model was converted", n \in DOMAIN files /\ files[n].k = "model" /\ files[n].known)
       /\ LET p == Parse(t) IN
          /\ Chk("written text is well-formed", p.ok)
          /\ Chk("nothing follows the tables", p.rest = 0)
          /\ Chk("label counts of the written text", p.lab = files[n].c.lab)
          /\ Chk("function of the written text", SameFunction(files[n].c, p))
       /\ WriteText(out, t)
  ELSE /\ Chk("a stored model was refused", ~(n \in DOMAIN files /\ files[n].k = "model" /\ files[n].known))
       /\ UNCHANGED files
=============================================================================
