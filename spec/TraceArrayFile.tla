---------------------------- MODULE TraceArrayFile ---------------------------
EXTENDS ArrayFile, TraceBase
Same(e, s) == /\ Chk("shape", e.sh = s.sh) /\ Chk("order", e.o = s.o) /\ Chk("values", e.t = s.t)
Look(c) == c /\ UNCHANGED disk
Step(e) ==
  CASE e.op = "newfile"   -> NewFile(e.p)
    [] e.op = "group"     -> MakeGroup(e.p, e.g)
    [] e.op = "nogroup"   -> Refused(~HasFile(e.p) \/ e.g \in disk[e.p].groups)
    [] e.op = "save"      -> SaveSet(e.p, e.g, e.d, [sh |-> e.sh, o |-> e.o, ty |-> e.ty, t |-> e.t])
    [] e.op = "nosave"    -> Refused(~HasGroup(e.p, e.g) \/ Taken(e.p, e.g, e.d))
    [] e.op = "create"    -> Create(e.p, e.g, e.d, e.sh, e.o, e.ty)
    [] e.op = "slab"      -> SaveSlab(e.p, e.g, e.d, e.base, e.sh, e.o, e.t)
    [] e.op = "noslab"    -> Refused(~SlabFits(e.p, e.g, e.d, e.base, e.sh, e.o))
    [] e.op = "load"      -> Look(Has(e.p, e.g, e.d) /\ e.ty = Set(e.p, e.g, e.d).ty /\ Same(e, Set(e.p, e.g, e.d)))
    [] e.op = "loadshape" -> Look(Has(e.p, e.g, e.d) /\ Chk("shape", e.sh = Set(e.p, e.g, e.d).sh))
    [] e.op = "loadvec"   -> Look(Has(e.p, e.g, e.d) /\ e.ty = Set(e.p, e.g, e.d).ty /\ Chk("vector", e.t = InOrder(Set(e.p, e.g, e.d))))
    [] e.op = "loadslab"  -> Look(Has(e.p, e.g, e.d) /\ e.ty = Set(e.p, e.g, e.d).ty /\ LET s == Set(e.p, e.g, e.d) IN
                               InBox(e.base, e.want, s.sh) /\ Same(e, [sh |-> e.want, o |-> s.o, t |-> Slab(s, e.base, e.want)]))
    [] e.op = "noload"    -> Refused(~Has(e.p, e.g, e.d) \/ e.ty # Set(e.p, e.g, e.d).ty)
    [] e.op = "noshape"   -> Refused(~Has(e.p, e.g, e.d))
    [] e.op = "noloadslab" -> Refused(~Has(e.p, e.g, e.d) \/ e.ty # Set(e.p, e.g, e.d).ty \/ ~InBox(e.base, e.want, Set(e.p, e.g, e.d).sh))
    [] OTHER -> FALSE
TraceInit == TInit /\ disk = [p \in {} |-> 0]
TraceNext == (TEvent /\ Step(Ev)) \/ (TDone /\ UNCHANGED disk)
=============================================================================
