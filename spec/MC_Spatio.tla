------------------------------ MODULE MC_Spatio ------------------------------
(* All histories of assignments from small palettes of values, good and bad. *)
(* Emits every labelled step with the values before and after, for replay.   *)
EXTENDS Spatio, Json
CONSTANTS Side, Emit
VARIABLES s, last      \* last: field, value and whether it was accepted

V(q) == TLCEval([i \in 1..Len(q) |-> R(q[i])])
Zs(n) == TLCEval([i \in 1..n |-> R(i)])
Palette ==
    IF Side = "param" THEN
        [domain |-> {Ar(<<1, 2>>, V(<<0, 2>>)), Ar(<<2>>, V(<<0, 1>>)), Ar(<<2, 2>>, V(<<0, 2, 0, 3>>)),
                     Ar(<<2, 2>>, V(<<0, 1, 0, 3>>)), Ar(<<3>>, V(<<0, 1, 2>>))},
         lam |-> {Ar(<<2>>, V(<<0, 1>>)), Ar(<<2, 1>>, V(<<0, 2>>)), Ar(<<2, 2>>, V(<<1, 3, 2, 0>>)),
                  Ar(<<1, 2>>, V(<<0, 0>>)), Ar(<<2, 2>>, V(<<1, 4, 1, 0>>))},
         lam_ref |-> {Ar(<<1>>, V(<<2>>)), Ar(<<1>>, V(<<0>>)), Ar(<<2>>, V(<<1, 3>>)), Ar(<<1, 2>>, V(<<2, -1>>)),
                      Ar(<<>>, V(<<1>>))},
         sample_dist |-> {Str("u"), Str("n"), Str("x"), Str("un")}]
    ELSE
        [data |-> {Ar(<<2, 2>>, Zs(4)), Ar(<<2, 4>>, Zs(8)), Ar(<<2, 2, 2>>, Zs(8)), Ar(<<3>>, Zs(3)), Ar(<<1, 1, 2>>, Zs(2))},
         sensors |-> {Ar(<<2>>, Zs(2)), Ar(<<2, 2>>, Zs(4)), Ar(<<1>>, Zs(1))},
         times |-> {Ar(<<2>>, Zs(2)), Ar(<<1>>, Zs(1)), Ar(<<4>>, Zs(4))},
         measurements |-> {Ar(<<2>>, Zs(2)), Ar(<<2, 2>>, Zs(4)), Ar(<<4, 1>>, V(<<4, 3, 2, 1>>)), Ar(<<1>>, Zs(1))},
         true_vals |-> {Ar(<<2, 1>>, Zs(2)), Ar(<<4>>, Zs(4))}]
None0 == [f |-> "", v |-> NN, ok |-> TRUE]
Init == s = Empty /\ last = None0
Next == \E f \in DOMAIN Palette : \E a \in Palette[f] :
    /\ last' = [f |-> f, v |-> a, ok |-> Ok(s, f, a)]
    /\ s' = TLCEval(Assign(s, f, a))
    /\ IF Emit THEN PrintT("EDGE " \o ToJson([from |-> s, f |-> f, v |-> a, ok |-> Ok(s, f, a), to |-> s'])) ELSE TRUE
View == s

(* samples and domain agree; a domain exists as soon as there are samples *)
Agree == IsSet(s.lam) => IsSet(s.domain) /\ NR(s.domain) = NC(s.lam)
TypeOK == /\ IsSet(s.domain) => s.domain.shape[2] = 2
          /\ IsSet(s.lam) => Len(s.lam.shape) = 2
          /\ IsSet(s.data) => Len(s.data.shape) = 2 /\ IsSet(s.sensors) /\ IsSet(s.times)
          /\ IsSet(s.lam) => IsSet(s.sample_dist)
          /\ s.sample_dist \in {NN, Str("u"), Str("n")}
Cols1 == IsSet(s.measurements) => Len(s.measurements.shape) = 2 /\ NC(s.measurements) = 1
(* what an accepted assignment guarantees *)
AcceptedMeans == [][ LET o == last' IN o.ok =>
     CASE o.f = "domain" -> IsSet(s'.lam) => \A i \in 1..NR(s'.lam), j \in 1..NC(s'.lam) :
                                Inside(At(s'.lam, i, j), At(s'.domain, j, 1), At(s'.domain, j, 2))
       [] o.f = "lam_ref" -> \A j \in 1..Sz(s'.lam_ref) :
                                Inside(s'.lam_ref.v[j], At(s'.domain, j, 1), At(s'.domain, j, 2))
       [] o.f = "data" -> NC(s'.data) = Count(s')
       [] o.f \in {"measurements", "true_vals"} -> Sz(s'[o.f]) = Count(s')
       [] OTHER -> TRUE ]_<<s, last>>
(* a refusal changes nothing, an accepted value is read back, nothing else moves *)
Frame == [][ /\ (~last'.ok => s' = s)
             /\ (last'.ok => s'[last'.f].k = last'.v.k /\ (last'.v.k = "arr" => s'[last'.f].v = last'.v.v))
             /\ \A g \in Fields : g # last'.f /\ IsSet(s[g]) => s'[g] = s[g] ]_<<s, last>>
(* assignments on the parameter side that are accepted in both orders commute *)
Commute == Side = "param" => \A f, g \in DOMAIN Palette : f # g =>
    \A a \in Palette[f], b \in Palette[g] :
        LET s1 == Assign(s, f, a)  s2 == Assign(s, g, b)
        IN Ok(s, f, a) /\ Ok(s1, g, b) /\ Ok(s, g, b) /\ Ok(s2, f, a)
           => \/ Assign(s1, g, b) = Assign(s2, f, a)
              \/ ({f, g} = {"lam", "domain"} /\ ~IsSet(s.domain))
(* repeating an accepted assignment is accepted and changes nothing more *)
Repeatable == \A f \in DOMAIN Palette : \A a \in Palette[f] :
    Ok(s, f, a) => LET t == Assign(s, f, a) IN (Ok(t, f, a) /\ Assign(t, f, a) = t)
                                               \/ (f = "data" /\ Len(a.shape) = 0)
=============================================================================
