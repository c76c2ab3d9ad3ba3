-------------------------------- MODULE KZG --------------------------------
(***************************************************************************)
(* KZG commitments to vectors, as the code calculates them, over a small   *)
(* prime field: a point [x]G is represented by x, a pairing by a product.  *)
(* The formulas of fun.go and trusted.go are transcribed: Lagrange basis,  *)
(* A', the tables ta and tk, the quotient polynomial in evaluation form,   *)
(* the additive update of commitments; and a trusted setup which is saved  *)
(* keeps only (d, omega, basis, diff) from which everything else is        *)
(* derived again.                                                          *)
(*                                                                         *)
(* That nobody who does not know the secret can open a commitment to       *)
(* another value is the assumption of the scheme and can not be seen in a  *)
(* small field; what is checked here is the algebra: honest openings are   *)
(* accepted, and rejected for every other value.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Emitting, P, D, Omega, Secret, Vals, Steps, Bug

F == 0..(P - 1)
Idx == 0..(D - 1)
Add(a, b) == (a + b) % P
Sub(a, b) == (a - b + P) % P
Neg(a) == (P - a) % P
Mul(a, b) == (a * b) % P
Inv(a) == CHOOSE x \in F : Mul(a, x) = 1
Div(a, b) == Mul(a, Inv(b))
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE Mul(x, Pow(x, n - 1))
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Add(f[x], SumOver(f, S \ {x}))
RECURSIVE ProdOver(_, _)
ProdOver(f, S) == IF S = {} THEN 1 ELSE LET x == CHOOSE x \in S : TRUE IN Mul(f[x], ProdOver(f, S \ {x}))

(* omega = 0 stands for the natural domain 0, 1, 2, ... *)
DomainOf(om) == [i \in Idx |-> IF om = 0 THEN i % P ELSE Pow(om, i)]
AprimeOf(dom) == [m \in Idx |-> ProdOver([i \in Idx |-> Sub(dom[m], dom[i])], Idx \ {m})]
InvSub(dom, m, j) == Inv(Sub(dom[m], dom[j]))
Ta(su, m, j) == Mul(Div(su.ap[m], su.ap[j]), InvSub(su.dom, m, j))
Tk(su, m) == SumOver([j \in Idx |-> IF j = m THEN 0 ELSE Ta(su, m, j)], Idx)

Lagrange(dom, i, x) == ProdOver([j \in Idx |-> IF j = i THEN 1 ELSE Div(Sub(x, dom[j]), Sub(dom[i], dom[j]))], Idx)

Derive(om) == LET dom == DomainOf(om) IN [dom |-> dom, ap |-> AprimeOf(dom)]
Generate(om, s) ==
  LET d == Derive(om) IN
  [omega |-> om, basis |-> [i \in Idx |-> Lagrange(d.dom, i, s)], diff |-> [i \in Idx |-> Sub(s, d.dom[i])],
   dom |-> d.dom, ap |-> d.ap]
Saved(su) == [omega |-> su.omega, basis |-> su.basis, diff |-> su.diff]
Restore(b) == LET d == Derive(IF Bug = "omega" THEN 0 ELSE b.omega)
              IN [omega |-> b.omega, basis |-> b.basis, diff |-> b.diff, dom |-> d.dom, ap |-> d.ap]

Commit(su, v) == SumOver([i \in Idx |-> Mul(v[i], su.basis[i])], Idx)
QPoly(su, v, i, m) ==
  IF i # m THEN Mul(Sub(v[m], v[i]), InvSub(su.dom, m, i))
  ELSE Sub(SumOver([j \in Idx |-> IF j = m THEN 0 ELSE Mul(v[j], Ta(su, m, j))], Idx),
           IF Bug = "tk" THEN 0 ELSE Mul(v[m], Tk(su, m)))
Prove(su, v, i) == SumOver([j \in Idx |-> Mul(QPoly(su, v, i, j), su.basis[j])], Idx)
Verify(su, c, pi, val, at) == Mul(pi, su.diff[at]) = Sub(c, val)

VARIABLES vec,     \* the vector
          comm,    \* its commitment, updated incrementally
          su,      \* the setup in use
          n,       \* number of updates
          saves    \* how often the setup was saved and restored
vars == <<vec, comm, su, n, saves>>

Init == /\ vec = [i \in Idx |-> 0] /\ su = Generate(Omega, Secret) /\ comm = 0 /\ n = 0 /\ saves = 0
Update == /\ n < Steps
          /\ \E i \in Idx, x \in Vals :
               /\ vec' = [vec EXCEPT ![i] = x]
               /\ comm' = Add(comm, Mul(Sub(x, vec[i]), su.basis[i]))
          /\ n' = n + 1 /\ UNCHANGED <<su, saves>>
SaveRestore == /\ saves < 1 /\ saves' = saves + 1
               /\ su' = Restore(Saved(su))
               /\ UNCHANGED <<vec, comm, n>>
Next == Update \/ SaveRestore
Spec == Init /\ [][Next]_vars
NoCount == <<vec, comm, su, saves>>

ASSUME Setup == Secret \notin {DomainOf(Omega)[i] : i \in Idx} /\ Cardinality({DomainOf(Omega)[i] : i \in Idx}) = D

Incremental == comm = Commit(su, vec)
Equal == su = Generate(Omega, Secret)
Complete == \A i \in Idx : Verify(su, comm, Prove(su, vec, i), vec[i], i)
OtherValue == \A i \in Idx, x \in F : x # vec[i] => ~Verify(su, comm, Prove(su, vec, i), x, i)

Beh == [omega |-> Omega # 0, d |-> D, saves |-> saves, vec |-> [i \in 1..D |-> vec[i - 1]],
        acc |-> [i \in 1..D |-> [x \in 0..(P - 1) |-> Verify(su, comm, Prove(su, vec, i - 1), x, i - 1)]]]
Emit == Emitting => PrintT("BEH " \o ToJson(Beh))
=============================================================================
