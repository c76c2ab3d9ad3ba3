------------------------------ MODULE KZGTrace ------------------------------
(***************************************************************************)
(* Trace specification of trusted setups and of commitments to vectors.    *)
(* The state: the class of each setup (setups generated in the same way,   *)
(* and all restored from one of them, are one class and interchangeable),  *)
(* and for each class the commitments and proofs calculated so far.        *)
(* Scalars and points are numbers, 0 is the scalar 0 (or an absent one).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Doc == JsonDeserialize(IOEnv.VTRACE)
Traces == Doc.traces
CheckSet == {Doc.chk[i] : i \in 1..Len(Doc.chk)}

VARIABLES t, l,
          setups,   \* setup -> [cls, d, data]
          comms,    \* <<class, vector>> -> commitment
          proofs    \* <<class, vector, position>> -> proof
vars == <<t, l, setups, comms, proofs>>

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
E == Traces[t].ev[l]
More == l <= Len(Traces[t].ev)
Is(kind) == More /\ E.e = kind /\ l' = l + 1 /\ t' = t
Chk(name, cond) ==
  IF name \notin CheckSet THEN TRUE
  ELSE IF cond THEN TRUE
  ELSE PrintT("REJECT " \o ToString(t) \o " " \o ToString(l) \o " " \o name)

Init == t \in 1..Len(Traces) /\ l = 1 /\ setups = [x \in {} |-> 0] /\ comms = [x \in {} |-> 0] /\ proofs = [x \in {} |-> 0]

Cls == setups[E.s].cls

Gen == /\ Is("gen")
       /\ Chk("setup-gen", ~E.err /\ E.dd = E.d)
       /\ Chk("setup-equal", E.err \/ \A s \in DOMAIN setups : (setups[s].cls = E.cls) = (setups[s].data = E.data))
       /\ setups' = IF E.err THEN setups ELSE With(setups, E.s, [cls |-> E.cls, d |-> E.d, data |-> E.data])
       /\ UNCHANGED <<comms, proofs>>
Restored == /\ Is("restore")
            /\ Chk("setup-equal", ~E.err /\ E.data = setups[E.from].data /\ E.dd = setups[E.from].d)
            /\ setups' = IF E.err THEN setups ELSE With(setups, E.s, setups[E.from])
            /\ UNCHANGED <<comms, proofs>>
Broken == /\ Is("broken")
          /\ Chk("setup-broken", E.len # E.full => E.out = "error")
          /\ UNCHANGED <<setups, comms, proofs>>
Commit == /\ Is("commit")
          /\ LET k == <<Cls, E.vec>> IN
             /\ Chk("kzg-commit", \A o \in DOMAIN comms : o[1] = Cls => ((o[2] = E.vec) = (comms[o] = E.c)))
             /\ comms' = IF k \in DOMAIN comms THEN comms ELSE With(comms, k, E.c)
          /\ UNCHANGED <<setups, proofs>>
Prove == /\ Is("prove")
         /\ LET k == <<Cls, E.vec, E.i>> IN
            /\ Chk("kzg-prove", k \in DOMAIN proofs => proofs[k] = E.pi)
            /\ proofs' = IF k \in DOMAIN proofs THEN proofs ELSE With(proofs, k, E.pi)
         /\ UNCHANGED <<setups, comms>>
(* the only proof which verifies is the one for this vector and position, *)
(* and it verifies exactly with the value at this position                *)
Verify == /\ Is("verify")
          /\ LET vs == {o[2] : o \in {x \in DOMAIN comms : x[1] = Cls /\ comms[x] = E.c}} IN
             Chk("kzg-verify", \A v \in vs :
                /\ E.out => v[E.at] = E.x
                /\ LET k == <<Cls, v, E.at>> IN
                   k \in DOMAIN proofs => (E.out = (v[E.at] = E.x /\ proofs[k] = E.pi)))
          /\ UNCHANGED <<setups, comms, proofs>>
Panic == /\ Is("panic")
         /\ Chk("panic", FALSE)
         /\ UNCHANGED <<setups, comms, proofs>>

Next == Gen \/ Restored \/ Broken \/ Commit \/ Prove \/ Verify \/ Panic
Spec == Init /\ [][Next]_vars
=============================================================================
