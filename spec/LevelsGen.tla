------------------------------ MODULE LevelsGen ------------------------------
(* Prints, for every transition of the state graph, a shortest operation sequence that ends with it. *)
EXTENDS Levels, Json
VARIABLE ops
Init == LInit /\ ops = <<>>
Next == \E o \in Ops : Do(o) /\ ops' = Append(ops, o) /\ PrintT(ToJson(ops'))
View == tab
TypeOK == \A v \in Vals : tab[v].st \in 0..2 /\ (v = 700 => tab[v].st = 0) /\ (v \in DOMAIN DefaultTexts => tab[v].st # 0)
=============================================================================
