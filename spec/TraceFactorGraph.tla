-------------------------- MODULE TraceFactorGraph --------------------------
EXTENDS FactorGraph, TraceBase

Bits(S, dom) == [i \in 1 .. dom |-> IF (i - 1) \in S THEN 1 ELSE 0]
TopoOK(e) ==
  /\ e.n = n /\ e.m = Len(fs)
  /\ e.vof = fs /\ e.itv = fs
  /\ \A f \in F : /\ e.fv[f + 1] = Bits(Scope(f), n)
                  /\ e.ff[f + 1] = Bits(FNeigh(f), Len(fs))
                  /\ e.fl[f + 1] = Sorted(FNeigh(f)) /\ e.flr[f + 1] = Sorted(FNeigh(f))
                  /\ e.sec[f + 1] = IF Len(fs[f + 1]) = 2 THEN <<fs[f + 1][2], fs[f + 1][1]>> ELSE <<>>
  /\ Len(e.fl) = Len(fs) /\ Len(e.flr) = Len(fs) /\ Len(e.al) = n /\ Len(e.alr) = n
  /\ \A v \in V : /\ e.fov[v + 1] = Sorted(FacsOf(v)) /\ e.itf[v + 1] = Sorted(FacsOf(v))
                  /\ e.vf[v + 1] = Bits(FacsOf(v), Len(fs))
                  /\ e.vv[v + 1] = Bits(Neigh(v), n) /\ e.am[v + 1] = Bits(Neigh(v), n)
                  /\ e.al[v + 1] = Sorted(Neigh(v)) /\ e.alr[v + 1] = Sorted(Neigh(v))
                  /\ \A k \in 0 .. 4 : e.nth[v + 1][k + 1] = Cardinality(Nth(v, k))
                  /\ LET s == e.nthl[v + 1] IN Len(s) = 2 + Cardinality(Nth(v, s[1])) /\ s[2] = Cardinality(Nth(v, s[1])) /\ SeqSet(SubSeq(s, 3, Len(s))) = Nth(v, s[1])
  /\ e.maxo = MaxOrder /\ e.ford = MaxOrder
  /\ \A k \in 0 .. 5 : e.maxok[k + 1] = IF MaxOrder <= k THEN 1 ELSE 0
  /\ Chk("acyclic", e.acyc = Acyclic)
  /\ Chk("connected", e.conn = Connected)
  /\ (n > 0 => Len(e.reps) = Cardinality(Components) /\ \A c \in Components : \E i \in 1 .. Len(e.reps) : e.reps[i] \in c)
  /\ Chk("chain", e.chain = IsChain)
  /\ Chk("chainorder", e.chain => IsChainOrder(e.chids))
  /\ Chk("grid sound", e.grid => IsGridArrangement(e.gids))
  /\ Chk("grid complete small", IsSmallGrid => e.grid)
  /\ Chk("grid complete", e.wit # <<>> => IsGridArrangement(e.wit) /\ e.grid)

Step(e) ==
  CASE e.op = "new" -> New(e.n)
    [] e.op = "var" -> AddVar
    [] e.op = "fac" -> AddFac(e.v)
    [] e.op = "topo" -> TopoOK(e) /\ UNCHANGED gvars
    [] OTHER -> FALSE
TraceInit == TInit /\ n = 0 /\ fs = <<>>
TraceNext == (TEvent /\ Step(Ev)) \/ (TDone /\ UNCHANGED gvars)
=============================================================================
