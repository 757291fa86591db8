------------------------------- MODULE Sampler_MC ------------------------------
EXTENDS Sampler, TLC, Json, Functions
CONSTANTS DMax, NMax, Seeds, MaxOps, Emit
VARIABLES n, hist
mcvars == <<vars, n, hist>>
MCInit == memo = <<>> /\ params = <<>> /\ n = 0 /\ hist = <<>>
Perms(k) == {f \in [1..k -> 1..k] : \A i, j \in 1..k : i # j => f[i] # f[j]}
\* all results a sampler may return, up to the order of the points of a grid
RECURSIVE Enumerate(_)
Enumerate(ds) == IF ds = <<>> THEN <<<<>>>>
                 ELSE LET rest == Enumerate(Tail(ds)) k == Len(rest) IN [i \in 1..ds[1] * k |-> <<((i - 1) \div k) + 1>> \o rest[((i - 1) % k) + 1]]
Grids == {ds \in UNION {[1..m -> 0..NMax] : m \in 0..DMax} : TRUE}
Latins(dims, k) == IF dims = 0 THEN {[i \in 1..k |-> <<>>]} ELSE {[i \in 1..k |-> [d \in 1..dims |-> f[d][i]]] : f \in [1..dims -> Perms(k)]}
H(x) == n < MaxOps /\ n' = n + 1 /\ hist' = Append(hist, x)
Latin == \E m \in {"latin", "improved"}, dims \in 0..DMax, k \in 1..NMax : \E s \in Seeds : \E r \in Latins(dims, k) :
           Sample([method |-> m, args |-> <<dims, k>>, seed |-> s], r) /\ H([m |-> m, a |-> <<dims, k>>, s |-> s])
Grid == \E ds \in Grids : Sample([method |-> "grid", args |-> ds, seed |-> 0], Enumerate(ds)) /\ H([m |-> "grid", a |-> ds, s |-> 0])
MCNext == Grid \/ Latin
MCSpec == MCInit /\ [][MCNext]_mcvars
view == <<memo, n, hist>>
\* each level occurs equally often in a grid; no point twice; a Latin design is balanced
Distinct == \A k \in DOMAIN memo : LET r == memo[k] IN (k.method = "grid" \/ k.args[1] > 0) => \A i, j \in 1..Len(r) : i # j => r[i] # r[j]
Balanced == \A k \in DOMAIN memo : k.method = "grid" => \A d \in 1..Len(k.args) : \A v \in 1..k.args[d] :
              Cardinality({i \in 1..Len(memo[k]) : memo[k][i][d] = v}) * k.args[d] = Len(memo[k])
Bounds == \A k \in DOMAIN memo : \A i \in 1..Len(memo[k]) : \A d \in 1..Len(memo[k][i]) :
            memo[k][i][d] >= 1 /\ memo[k][i][d] <= (IF k.method = "grid" THEN k.args[d] ELSE k.args[2])
EmitTests == (Emit /\ n' = MaxOps) => PrintT(<<"TEST", ToJson(hist')>>)
================================================================================
