----------------------------- MODULE Persistence -----------------------------
(* Models in HDF5 files (graphicalmodel_hdf5.hxx).                          *)
(*   cfg[h]   what the C++ type of handle h can represent:                  *)
(*     classes  function classes of its type list                           *)
(*     nl       0: any label counts; -1: all variables alike; n: exactly n   *)
(*   files[p] = [ds |-> name of the data set, m |-> the stored model]       *)
(* A file holds exactly one model: saving truncates the file.  What is       *)
(* stored is a snapshot: later changes of the saved model do not reach it.   *)
EXTENDS GraphModel

VARIABLES cfg, files

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

SpaceFits(c, sp) ==
  \/ c.nl = 0
  \/ c.nl = -1 /\ \A i \in 1 .. Len(sp) : sp[i] = sp[1]
  \/ c.nl > 0 /\ \A i \in 1 .. Len(sp) : sp[i] = c.nl
Representable(c, m) ==
  /\ SpaceFits(c, m.sp)
  /\ \A i \in 1 .. Len(m.fn) : m.fn[i].c \in c.classes
Loadable(h, p, ds) ==
  /\ p \in DOMAIN files
  /\ files[p].ds = ds
  /\ Representable(cfg[h], files[p].m)

\* what the handle holds after reading m: the same variables, functions and
\* factors, combined by the handle's own operator, with complete adjacency
Restored(h, m) == [m EXCEPT !.op = gms[h].op, !.adj = TrueAdj(m)]

Open(h, c, op, sp) ==
  /\ SpaceFits(c, sp)
  /\ NewModel(h, op, sp)
  /\ cfg' = With(cfg, h, c)
  /\ UNCHANGED files
Save(h, p, ds) ==
  /\ files' = With(files, p, [ds |-> ds, m |-> gms[h]])
  /\ UNCHANGED <<gms, cfg>>
Load(h, p, ds) ==
  /\ Chk("loadable", Loadable(h, p, ds))
  /\ gms' = With(gms, h, Restored(h, files[p].m))
  /\ UNCHANGED <<cfg, files>>
\* a missing file, data set or function class, or a space that does not fit,
\* is refused; the model is unspecified afterwards and the file as before
LoadRefused(h, p, ds) ==
  /\ Chk("not loadable", ~Loadable(h, p, ds))
  /\ gms' = Without(gms, h)
  /\ UNCHANGED <<cfg, files>>
\* an operation on a model does not reach any file
OnModel(a) == a /\ UNCHANGED <<cfg, files>>
----------------------------------------------------------------------------
\* what is written can be read back by the type that wrote it
FilesOK == \A p \in DOMAIN files : ModelOK([files[p].m EXCEPT !.adj = TrueAdj(files[p].m)])
=============================================================================
