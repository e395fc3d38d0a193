----------------------------- MODULE TraceReparam ----------------------------
(* Reparametrisation of models (LPReparametrizer, the reparametrizers of    *)
(* TRWSi and ADSal) and CombiLP, which relies on it.                        *)
EXTENDS Reparametrization, TraceBase
VARIABLES acc, T, bnd, ph, last, opt
tvars == <<opr, sp, fa, tab, dual, acc, T, bnd, ph, last, opt>>
MUnch == UNCHANGED <<opr, sp, fa, tab, acc, opt>>
AsFix(d) == [i \in 1 .. Len(d) |-> [k \in 1 .. Len(d[i]) |-> [lb \in 1 .. Len(d[i][k]) |-> d[i][k][lb]]]]
SameTables(A, B) == Len(A) = Len(B) /\ \A i \in 1 .. Len(A) : Len(A[i]) = Len(B[i]) /\ \A r \in 1 .. Len(A[i]) : Near(A[i][r], B[i][r])
SameSeq(A, B) == Len(A) = Len(B) /\ \A r \in 1 .. Len(A) : Near(A[r], B[r])
\* best and worst possible choices when labels x were found locally
OwnBest(i, y) == AtOwnBest(acc, T, i, y)
SomeBestHas(i, v, lb, has) == \E r \in 1 .. Size(fa[i].s) : LET y == Unrank(fa[i].s, r - 1) IN OwnBest(i, y) /\ ((y[PosIn(i, v)] = lb) <=> has)
ArcOK(e, v) == LET W == { i \in With(v) : Large(i) } lb == e.x[v + 1] IN
  IF e.mask[v + 1] = 1 THEN \A i \in W : OwnBest(i, Sub(e.x, fa[i].v)) \/ SomeBestHas(i, v, lb, TRUE)
  ELSE \E i \in W : SomeBestHas(i, v, lb, FALSE)
ImmOK(e) == \A i \in 1 .. Len(fa) : Large(i) =>
  /\ \A k \in 1 .. 2 : \A lb \in 1 .. fa[i].s[k] : e.imm[fa[i].v[k] + 1][lb] = 1 => dual'[i][k][lb] = 0
  /\ \A r \in 1 .. Size(fa[i].s) : LET y == Unrank(fa[i].s, r - 1) IN
       (e.imm[fa[i].v[1] + 1][y[1] + 1] = 0 \/ e.imm[fa[i].v[2] + 1][y[2] + 1] = 0) => IF acc = "min" THEN T'[i][r] >= -Tol ELSE T'[i][r] <= Tol
BoundKept(b, U) == IF acc = "min" THEN LocalBound(acc, U) >= b - 2 * Tol ELSE LocalBound(acc, U) <= b + 2 * Tol
BoundSound(U) == IF acc = "min" THEN LocalBound(acc, U) <= DS * opt + 2 * Tol ELSE LocalBound(acc, U) >= DS * opt - 2 * Tol
NowDual(d) == dual' = AsFix(d) /\ T' = TLCEval(Tables(dual'))
RStep(e) ==
  CASE e.op = "model" -> LoadModel(e) /\ Chk("one-unary-each", OneUnaryEach) /\ acc' = e.acc /\ opt' = Best(e.acc, tab') /\ dual' = NoDual(fa') /\ T' = <<>> /\ bnd' = 0 /\ ph' = "none" /\ last' = <<>>
    \* a new reparametrisation changes nothing
    [] e.op = "plain" -> ph' = "repa" /\ NowDual(NoDual(fa)) /\ UNCHANGED <<bnd, last>> /\ MUnch
    [] e.op = "solved" -> Chk("solver-bound", IF acc = "min" THEN e.b <= DS * opt + Tol ELSE e.b >= DS * opt - Tol) /\ bnd' = e.b /\ ph' = "repa" /\ NowDual(NoDual(fa)) /\ UNCHANGED last /\ MUnch
    \* the caller writes the numbers
    [] e.op = "write" -> Chk("open", ph = "repa") /\ NowDual(e.d) /\ UNCHANGED <<bnd, ph, last>> /\ MUnch
    [] e.op = "read" -> Chk("as-written", DualShape(e.d) /\ SameSeq(Flatten(AsFix(e.d)), Flatten(dual))) /\ UNCHANGED tvars
    \* the solver's trees decide them
    [] e.op = "trees" -> /\ Chk("open", ph = "repa" /\ DualShape(e.d)) /\ NowDual(e.d)
                         /\ Chk("bound-kept", e.keeps => BoundKept(bnd, T')) /\ Chk("bound-sound", BoundSound(T'))
                         /\ UNCHANGED <<bnd, ph, last>> /\ MUnch
    [] e.op = "immovable" -> /\ Chk("open", ph = "repa" /\ DualShape(e.d)) /\ NowDual(e.d) /\ Chk("immovable", ImmOK(e)) /\ UNCHANGED <<bnd, ph, last>> /\ MUnch
    [] e.op = "tables" -> /\ Chk("scopes", e.fv = [i \in 1 .. Len(fa) |-> fa[i].v] /\ e.sp = sp)
                          /\ Chk("factors", SameTables(e.fac, T)) /\ Chk("storage", SameTables(e.sto, T))
                          /\ Chk("variables", \A v \in Range0(NV) : SameSeq(e.vars[v + 1], [lb \in 1 .. sp[v + 1] |-> VarValue(dual, v, lb - 1)]))
                          /\ Chk("energies", Len(e.all) = Len(tab) /\ \A r \in 1 .. Len(tab) : Near(e.all[r], DS * tab[r]))
                          /\ Chk("preserved", Preserves(T)) /\ UNCHANGED tvars
    [] e.op = "serial" -> Chk("serial", SameSeq(e.s, Flatten(dual))) /\ UNCHANGED tvars
    [] e.op = "deserial" -> Chk("deserial", e.ok = (e.len = Len(Flatten(dual))) /\ (e.ok => SameSeq(Flatten(AsFix(e.d)), e.s))) /\ UNCHANGED tvars
    [] e.op = "file" -> Chk("file", SameSeq(e.s, Flatten(dual))) /\ UNCHANGED tvars
    [] e.op = "arc" -> /\ Chk("arc-shape", Len(e.mask) = NV /\ Valid(e.x))
                       /\ Chk("arc-local", \A i \in 1 .. Len(fa) : ~Large(i) => OwnBest(i, Sub(e.x, fa[i].v)))
                       /\ Chk("arc-mask", \A v \in Range0(NV) : ArcOK(e, v))
                       /\ Chk("arc-optimal", (\A v \in 1 .. NV : e.mask[v] = 1) => Value(e.x) = opt) /\ UNCHANGED tvars
    \* the numbers spread over the trees of a decomposition
    [] e.op = "decomp" -> Chk("decomposition", Len(e.all) = Len(tab) /\ \A r \in 1 .. Len(tab) : Near(e.all[r], DS * tab[r])) /\ UNCHANGED tvars
    \* CombiLP
    [] e.op = "combi" -> ph' = "combi" /\ UNCHANGED <<dual, T, bnd, last>> /\ MUnch
    [] e.op = "begin" -> Chk("begin", ph = "combi") /\ ph' = "running" /\ UNCHANGED <<dual, T, bnd, last>> /\ MUnch
    [] e.op = "step" -> /\ Chk("step", ph = "running" /\ Valid(e.x) /\ Near(e.v, DS * Value(e.x)) /\ BoundOK(acc, e.b, DS * opt + (IF acc = "min" THEN Tol ELSE -Tol)))
                        /\ ph' = (IF e.ask # 0 THEN "asked" ELSE "running") /\ UNCHANGED <<dual, T, bnd, last>> /\ MUnch
    [] e.op = "end" -> Chk("end", ph \in {"running", "asked"}) /\ ph' = (IF ph = "asked" THEN "stopped" ELSE "ended") /\ last' = e.x /\ UNCHANGED <<dual, T, bnd>> /\ MUnch
    [] e.op = "ret" -> /\ Chk("return", ph = (IF e.vis = 0 THEN "combi" ELSE IF e.stopped THEN "stopped" ELSE "ended") /\ (e.vis = 1 => e.x = last))
                       /\ Chk("combi-sound", Valid(e.x) /\ Near(e.v, DS * Value(e.x)) /\ BoundOK(acc, e.b, DS * opt + (IF acc = "min" THEN Tol ELSE -Tol)))
                       /\ Chk("combi-exact", e.finished => (Value(e.x) = opt /\ Near(e.b, DS * opt)))
                       /\ ph' = "combi" /\ UNCHANGED <<dual, T, bnd, last>> /\ MUnch
    [] e.op = "same" -> Chk("model-untouched", e.sp = sp /\ e.nf = Len(fa) /\ e.tab = tab) /\ UNCHANGED tvars
    [] OTHER -> FALSE
TraceInit == TInit /\ NoModel /\ dual = <<>> /\ acc = "min" /\ T = <<>> /\ bnd = 0 /\ ph = "none" /\ last = <<>> /\ opt = 0
TraceNext == (TEvent /\ RStep(Ev)) \/ (TDone /\ UNCHANGED tvars)
=============================================================================
