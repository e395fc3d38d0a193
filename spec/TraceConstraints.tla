-------------------------- MODULE TraceConstraints --------------------------
EXTENDS Constraints, TraceBase
VARIABLES f, cons, ord      \* the function looked at, the constraints and indicators it reports

\* violated constraints as a set of <<number, amount>>
Missed(m) == { <<i - 1, m[i]>> : i \in { j \in 1 .. Len(m) : m[j] > 0 } }
Above(m, tol) == [i \in 1 .. Len(m) |-> IF m[i] > tol THEN m[i] ELSE 0]
Reported(e) == { <<e.ids[i], e.ws[i]>> : i \in 1 .. Len(e.ids) }

Step(e) ==
  CASE e.op = "iv" ->          \* an indicator variable built from pairs in some order
         /\ Chk("pairs in ascending order", Canon(e.iv).p = e.got.p)
         /\ Chk("operator", e.got.o = e.iv.o)
         /\ Chk("evaluation", e.t = [r \in 1 .. Size(e.s) |-> B01(Holds(e.iv, Unrank(e.s, r - 1)))])
         /\ UNCHANGED <<f, cons, ord>>
    [] e.op = "cmp" ->         \* all comparisons of two indicators
         LET a == Canon(e.a) b == Canon(e.b) IN
         /\ Chk("equality", e.eq = (a = b) /\ e.ne = (a # b))
         /\ Chk("less", e.lt = IvLt(a, b))
         /\ Chk("greater", e.gt = IvLt(b, a))
         /\ Chk("not greater", e.le = ~IvLt(b, a))
         /\ Chk("not less", e.ge = ~IvLt(a, b))
         /\ UNCHANGED <<f, cons, ord>>
    [] e.op = "con" ->         \* a linear constraint built by a history of calls
         LET c == [e.con EXCEPT !.iv = [i \in 1 .. Len(e.con.iv) |-> Canon(e.con.iv[i])]] IN
         /\ Chk("constraint", e.got = c)
         /\ Chk("violation", e.t = [r \in 1 .. Size(e.s) |-> Violation(c, Unrank(e.s, r - 1))])
         /\ UNCHANGED <<f, cons, ord>>
    [] e.op = "fn" ->          \* a function: everything it says about itself
         LET t == [r \in 1 .. Size(e.f.s) |-> Value(e.f, Unrank(e.f.s, r - 1))] IN
         /\ Chk("shape", e.s = e.f.s /\ e.dim = Len(e.f.s) /\ e.size = Size(e.f.s))
         /\ Chk("values", e.t = t)
         /\ Chk("extremes bound the values", (e.mn <= MinSeq(t) /\ e.mx >= MaxSeq(t) /\ e.mm = <<e.mn, e.mx>>))
         /\ Chk("extremes are returned values", IF IsConstraint(e.f) THEN {e.mn, e.mx} = {e.f.yes, e.f.no} ELSE {e.mn, e.mx} = {MinSeq(t), MaxSeq(t)})
         /\ Chk("is a linear constraint", e.lin = IsConstraint(e.f))
         /\ Chk("reported constraints", IsConstraint(e.f) => Describes(e.cons, e.f))
         /\ Chk("reported indicators", SeqSet(e.ord) = IndicatorsOf(e.cons) /\ Cardinality(SeqSet(e.ord)) = Len(e.ord))
         /\ f' = e.f /\ cons' = e.cons /\ ord' = e.ord
    [] e.op = "model" ->       \* the function as a factor of a model
         /\ Chk("values in a model", e.t = [r \in 1 .. Size(f.s) |-> Value(f, Unrank(f.s, r - 1))])
         /\ UNCHANGED <<f, cons, ord>>
    [] e.op = "challenge" ->
         /\ Chk("once each", Cardinality(SeqSet(e.ids)) = Len(e.ids))
         /\ Chk("violated constraints", Reported(e) = Missed(Above([i \in 1 .. Len(cons) |-> e.scale * Violation(cons[i], e.x)], e.tol)))
         /\ UNCHANGED <<f, cons, ord>>
    [] e.op = "relaxed" ->
         /\ Chk("once each", Cardinality(SeqSet(e.ids)) = Len(e.ids))
         /\ Chk("violated constraints (relaxed)", Reported(e) = Missed(Above([i \in 1 .. Len(cons) |-> ViolationRelaxed(cons[i], ord, e.y, e.scale)], e.tol)))
         /\ UNCHANGED <<f, cons, ord>>
    [] e.op = "serial" -> Chk("length of the serialised form", e.ok) /\ UNCHANGED <<f, cons, ord>>
    [] e.op = "lp" ->          \* linear-programming transfer of a function
         /\ Chk("transferable", e.can)
         /\ Chk("number of slack variables", e.n = Len(e.slack) /\ Len(e.co) = e.n)
         /\ Chk("slack variables are new", \A i \in 1 .. e.n : \A j \in 1 .. Len(e.slack[i].p) : e.slack[i].p[j][1] >= Len(e.f.s))
         /\ Chk("slack variables differ", Cardinality(SeqSet(e.slack)) = e.n)
         /\ Chk("indicator variables", IndicatorsOf(e.cons) = SeqSet(e.iv) /\ Cardinality(SeqSet(e.iv)) = Len(e.iv))
         /\ Chk("indicators name own variables and labels", \A v \in SeqSet(e.iv) \ SeqSet(e.slack) :
                \A j \in 1 .. Len(v.p) : v.p[j][1] < Len(e.f.s) /\ v.p[j][2] < e.f.s[v.p[j][1] + 1])
         /\ Chk("least cost is the value", \A r \in 1 .. Size(e.f.s) : LET x == Unrank(e.f.s, r - 1) IN Least(e.cons, e.slack, e.co, x, e.top) = Value(e.f, x))
         /\ UNCHANGED <<f, cons, ord>>
    [] e.op = "nolp" -> Chk("not transferable, refused", (~e.can /\ e.refused)) /\ UNCHANGED <<f, cons, ord>>
    [] OTHER -> FALSE
TraceInit == TInit /\ f = <<>> /\ cons = <<>> /\ ord = <<>>
TraceNext == (TEvent /\ Step(Ev)) \/ (TDone /\ UNCHANGED <<f, cons, ord>>)
=============================================================================
