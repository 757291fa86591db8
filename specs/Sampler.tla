--------------------------------- MODULE Sampler -------------------------------
(* Experiment designs: sets of points in a space of parameters, given as indices of equally spaced points per dimension (1 is the
   lower bound of the interval, the largest index its upper bound), and named parameters. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES memo,      \* the results of earlier calls, by method, arguments and seed
          params     \* name -> [type |-> , value |-> ]
vars == <<memo, params>>
RECURSIVE Product(_)
Product(ds) == IF ds = <<>> THEN 1 ELSE ds[1] * Product(Tail(ds))
\* all combinations, each exactly once
Combinations(ds) == {p \in [1..Len(ds) -> 1..(IF ds = <<>> THEN 1 ELSE CHOOSE m \in {ds[i] : i \in 1..Len(ds)} : \A i \in 1..Len(ds) : ds[i] <= m)] :
                       \A i \in 1..Len(ds) : p[i] <= ds[i]}
IsGrid(ds, r) == Len(r) = Product(ds) /\ {r[i] : i \in 1..Len(r)} = Combinations(ds)
\* n points; in every dimension each of the n levels occurs exactly once
IsLatin(dims, n, r) == /\ Len(r) = n /\ \A i \in 1..n : Len(r[i]) = dims
                       /\ \A d \in 1..dims : {r[i][d] : i \in 1..n} = 1..n
\* n independent points, each within its interval
IsRandom(dims, n, r) == Len(r) = n /\ \A i \in 1..n : Len(r[i]) = dims /\ \A d \in 1..dims : r[i][d].within
IsDesign(k, r) == CASE k.method = "grid" -> IsGrid(k.args, r)
                    [] k.method = "latin" -> IsLatin(k.args[1], k.args[2], r)
                    [] k.method = "improved" -> IsLatin(k.args[1], k.args[2], r)
                    [] k.method = "random" -> IsRandom(k.args[1], k.args[2], r)
\* the same call gives the same result
Sample(k, r) == /\ IsDesign(k, r) /\ (k \in DOMAIN memo => memo[k] = r)
                /\ memo' = [x \in (DOMAIN memo) \cup {k} |-> IF x = k THEN r ELSE memo[x]] /\ UNCHANGED params
Set(n, t, v) == params' = [x \in (DOMAIN params) \cup {n} |-> IF x = n THEN [type |-> t, value |-> v] ELSE params[x]] /\ UNCHANGED memo
Readable(n, t) == n \in DOMAIN params /\ params[n].type = t
================================================================================
