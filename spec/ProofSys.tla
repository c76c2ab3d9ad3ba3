------------------------------ MODULE ProofSys ------------------------------
(***************************************************************************)
(* Proofs of presence and absence: the verification as implemented (package *)
(* trie_blake2b_verify), and an adversary who composes proof objects from  *)
(* everything that is known: the nodes of this trie and of another one,    *)
(* with any key, any child index, children and terminals removed, replaced *)
(* or blanked, in any order and number.  Soundness: whatever validates is  *)
(* true.  Completeness: the proof which the library produces validates.    *)
(*                                                                         *)
(* The path is extended by everything as long as the elements so far can   *)
(* be inner ones.  Extending others does not change that they are          *)
(* rejected; these are extended by unmodified elements, for the code.      *)
(*                                                                         *)
(* Every proof object is replayed: what the real verification accepts has  *)
(* to be true, what the library produces has to be accepted.               *)
(***************************************************************************)
EXTENDS Radix, Keys, Json

CONSTANTS Emitting, Ar, MaxKey, MaxPath, Menu, Bug

T == Ar          \* index of the terminal
P == Ar + 1      \* index of the path fragment
Sym == {1, 2}
(* not a symbol of the arity, but the index of the terminal *)
KeySym == IF Ar = 16 THEN Sym \cup {T} ELSE Sym
RECURSIVE SeqsOf(_)
SeqsOf(n) == IF n = 0 THEN {<<>>} ELSE SeqsOf(n - 1) \cup {Append(s, x) : s \in {q \in SeqsOf(n - 1) : Len(q) = n - 1}, x \in KeySym}
KeysAll == SeqsOf(MaxKey)

Fn(ps) == [k \in {p[1] : p \in ps} |-> (CHOOSE p \in ps : p[1] = k)[2]]
(* contents: pairs of paths; for nibbles of even length *)
Universe ==
  CASE Menu = 1 -> << Fn({<< <<1, 1>>, <<7>> >>}),
                      Fn({<< <<>>, <<7>> >>, << <<1, 1>>, <<8>> >>, << <<1, 2>>, <<7>> >>}),
                      Fn({<< <<1, 1>>, <<7>> >>, << <<1, 1, 1, 1>>, <<8>> >>, << <<2, 2>>, <<8>> >>}) >>
    [] Menu = 2 -> << EmptyC,
                      Fn({<< <<>>, <<7>> >>}),
                      Fn({<< <<>>, <<7>> >>, << <<1, 2>>, <<8>> >>}),
                      Fn({<< <<1, 1>>, <<7>> >>, << <<1, 2>>, <<8>> >>, << <<2, 1>>, <<7>> >>, << <<2, 1, 2, 2>>, <<7>> >>}),
                      Fn({<< <<1, 1>>, <<7>> >>, << <<1, 1, 1, 1>>, <<8>> >>, << <<1, 1, 2, 1>>, <<8>> >>, << <<1, 2, 1, 1>>, <<7>> >>}) >>
(* constants with recursive definitions, which TLC would evaluate each time, *)
(* are kept in registers                                                     *)
ASSUME TLCSet(41, TLCEval([j \in 1..Len(Universe) |-> TLCEval(Canon(Universe[j]))]))
Trie == TLCGet(41)
ASSUME TLCSet(42, TLCEval([j \in 1..Len(Universe) |-> TLCEval([k \in {n.key : n \in Trie[j]} |-> TLCEval(TermAt(Trie[j], k))])]))
TermsOf == TLCGet(42)
Root(j) == IF Trie[j] = {} THEN <<>> ELSE TermsOf[j][<<>>]

NoTerm == <<>>
(* pseudo terms *)
Blank == <<<<99>>, <<>>, {}>>         \* bytes which leave no trace in the hashed vector
(* elements: where they are from, and what was done to them *)
KidMods == {"full", "drop", "blank", "other", "less"}
TermMods == {"same", "none", "other"}
Source(j) == {[from |-> i, key |-> n.key] : i \in {j, (j % Len(Universe)) + 1}, n \in UNION {Trie[i2] : i2 \in {j, (j % Len(Universe)) + 1}}}
Sources(j) == {s \in Source(j) : HasNode(Trie[s.from], s.key)}
Elements(j) == {[from |-> s.from, key |-> s.key, idx |-> x, kid |-> km, tm |-> tm] :
                  s \in Sources(j), x \in Sym \cup {T, P, P + 1}, km \in KidMods, tm \in TermMods}
ASSUME TLCSet(43, TLCEval([j \in 1..Len(Universe) |-> TLCEval({e \in Elements(j) : e.tm = "same" \/ e.kid \in {"full", "drop"}})]))
El == TLCGet(43)
ASSUME TLCSet(44, TLCEval([j \in 1..Len(Universe) |-> TLCEval({e \in El[j] : e.tm = "same" /\ e.kid \in {"full", "drop"} /\ e.idx # P + 1})]))
Plain == TLCGet(44)

NodeOfE(e) == NodeAt(Trie[e.from], e.key)
HonestKids(e) == LET n == NodeOfE(e) IN [c \in n.kids |-> TermsOf[e.from][FullPath(n) \o <<c>>]]
Without(f, x) == [c \in DOMAIN f \ {x} |-> f[c]]
KidsOf(e) == LET h == HonestKids(e) IN
  CASE e.kid = "full" -> h
    [] e.kid = "drop" -> Without(h, e.idx)
    [] e.kid = "blank" -> [c \in DOMAIN h \cup {e.idx} |-> IF c = e.idx THEN Blank ELSE h[c]]
    [] e.kid = "other" -> [c \in DOMAIN h \cup {e.idx} |-> IF c = e.idx THEN Root(e.from) ELSE h[c]]
    [] e.kid = "less" -> IF DOMAIN h = {} THEN h ELSE Without(h, CHOOSE c \in DOMAIN h : c # e.idx \/ DOMAIN h = {c})
TermOfE(e) == LET t == NodeOfE(e).term IN
  CASE e.tm = "same" -> t [] e.tm = "none" -> NoTerm [] e.tm = "other" -> <<9>>

(***************************************************************************)
(* The verification                                                        *)
(***************************************************************************)
IsChild(i) == i < Ar
FormatOK(path) == \A i \in 1..Len(path) : \A c \in DOMAIN KidsOf(path[i]) : IsChild(c)
(* the term of the vector: blank positions are empty ones *)
HashOf(e, missing) ==
  LET ks == KidsOf(e)
      base == {<<c, ks[c]>> : c \in {x \in DOMAIN ks : ks[x] # Blank /\ ~(IsChild(e.idx) /\ x = e.idx)}}
  IN <<NodeOfE(e).pf, TermOfE(e), IF IsChild(e.idx) /\ missing # <<>> THEN base \cup {<<e.idx, missing>>} ELSE base>>

Bad == <<<<98>>, <<>>, {}>>
RECURSIVE Ver(_, _, _, _)
(* the commitment of the path from element i, the key from position at *)
Ver(path, key, i, at) ==
  LET e == path[i]
      pf == NodeOfE(e).pf
      tail == Drop(key, at)
      isPrefix == IsPrefixOf(pf, tail)
      last == i = Len(path)
      ends == isPrefix /\ Len(tail) = Len(pf)
      has(c) == c \in DOMAIN KidsOf(e)
  IN IF ~last THEN
       IF \/ ~isPrefix \/ ~IsChild(e.idx) \/ has(e.idx)
          \/ Len(tail) < Len(pf) + 1
          \/ (tail[Len(pf) + 1] # e.idx /\ Bug # "index") THEN Bad
       ELSE LET c == Ver(path, key, i + 1, at + Len(pf) + 1) IN IF c = Bad THEN Bad ELSE HashOf(e, c)
     ELSE IF IsChild(e.idx) THEN
       IF ~isPrefix \/ ends \/ (IF ends \/ ~isPrefix THEN TRUE ELSE tail[Len(pf) + 1] # e.idx) \/ has(e.idx) THEN Bad ELSE HashOf(e, <<>>)
     ELSE IF e.idx \notin {T, P} THEN Bad
     ELSE IF e.idx = T THEN IF ends \/ Bug = "ends" THEN HashOf(e, <<>>) ELSE Bad
     ELSE IF ends /\ Bug # "absent-ends" THEN Bad
     ELSE IF isPrefix /\ ~ends /\ Bug # "extend" THEN IF has(tail[Len(pf) + 1]) THEN Bad ELSE HashOf(e, <<>>)
     ELSE HashOf(e, <<>>)

Validates(path, key, root) ==
  IF path = <<>> THEN root = <<>> ELSE FormatOK(path) /\ Ver(path, key, 1, 0) = root /\ root # <<>>
(* what it claims: the terminal, none for absence *)
Claim(path) == IF path = <<>> THEN NoTerm ELSE LET e == path[Len(path)] IN IF e.idx = T THEN TermOfE(e) ELSE NoTerm
True(j, key, claim) == LET C == Universe[j] IN IF key \in DOMAIN C THEN claim = C[key] ELSE claim = NoTerm

(* the proof which the library produces *)
RECURSIVE HonestFrom(_, _, _)
HonestFrom(j, key, pos) ==
  LET n == NodeAt(Trie[j], pos)
      full == FullPath(n)
      el(x, km) == [from |-> j, key |-> pos, idx |-> x, kid |-> km, tm |-> "same"]
  IN IF key = full THEN <<el(T, "full")>>
     ELSE IF ~IsPrefixOf(full, key) THEN <<el(P, "full")>>
     ELSE IF key[Len(full) + 1] \in n.kids THEN <<el(key[Len(full) + 1], "drop")>> \o HonestFrom(j, key, Prefix(key, Len(full) + 1))
     ELSE <<el(P, "full")>>
Honest(j, key) == IF Trie[j] = {} THEN <<>> ELSE HonestFrom(j, key, <<>>)

VARIABLES j, key, path
vars == <<j, key, path>>
Init == j \in 1..Len(Universe) /\ key \in KeysAll /\ path = <<>>
(* the elements so far can be followed by another one *)
RECURSIVE InnerOK(_, _)
InnerOK(i, at) ==
  IF i > Len(path) THEN TRUE
  ELSE LET e == path[i]
           pf == NodeOfE(e).pf
           tail == Drop(key, at)
       IN /\ IsPrefixOf(pf, tail) /\ Len(tail) > Len(pf)
          /\ IsChild(e.idx) /\ e.idx \notin DOMAIN KidsOf(e)
          /\ (tail[Len(pf) + 1] = e.idx \/ Bug = "index")
          /\ InnerOK(i + 1, at + Len(pf) + 1)
Next == /\ Len(path) < MaxPath
        /\ \E e \in IF InnerOK(1, 0) THEN El[j] ELSE IF \A i \in 1..Len(path) : path[i] \in Plain[j] THEN Plain[j] ELSE {} :
             path' = Append(path, e)
        /\ UNCHANGED <<j, key>>
Spec == Init /\ [][Next]_vars

Sound == Validates(path, key, Root(j)) => True(j, key, Claim(path))
Complete == path = <<>> => Validates(Honest(j, key), key, Root(j)) /\ True(j, key, Claim(Honest(j, key)))

Pairs(C) == {<<k, C[k]>> : k \in DOMAIN C}
Opaque(e) == LET ks == KidsOf(e) h == HonestKids(e) IN
  [from |-> e.from, key |-> e.key, idx |-> e.idx, tm |-> e.tm,
   kids |-> {<<c, IF ks[c] = Blank THEN "blank" ELSE IF c \in DOMAIN h /\ ks[c] = h[c] THEN "same" ELSE "root">> : c \in DOMAIN ks}]
Exts == IF Len(path) = MaxPath THEN {} ELSE IF InnerOK(1, 0) THEN El[j] ELSE Plain[j]
Beh == [ar |-> Ar, c |-> Pairs(Universe[j]), o |-> Pairs(Universe[(j % Len(Universe)) + 1]), own |-> j,
        key |-> key, path |-> [i \in 1..Len(path) |-> Opaque(path[i])],
        honest |-> IF path = <<>> THEN [i \in 1..Len(Honest(j, key)) |-> Opaque(Honest(j, key)[i])] ELSE <<>>,
        ext |-> {<<Opaque(e), Validates(Append(path, e), key, Root(j))>> : e \in Exts}]
(* a state is emitted together with all of its extensions *)
Emit == (Emitting /\ Exts # {}) => PrintT("BEH " \o ToJson(Beh))
=============================================================================
