----------------------------- MODULE Behaviours -----------------------------
(***************************************************************************)
(* All behaviours up to a length of some objects of Metric: every sequence *)
(* of steps of an alphabet.  A step is a sequence of calls, as one call on *)
(* each of several objects.                                                *)
(*                                                                         *)
(* The invariants relate the state that Metric's transitions lead to with  *)
(* the history, by definitions that do not use those transitions, and the  *)
(* statistics of Stats with other textbook formulas.  The histories of the *)
(* full length are the behaviours that the real library executes.          *)
(***************************************************************************)
EXTENDS Metric, Json, IOUtils

Given == JsonDeserialize(IOEnv.SETUP)
Depth == Given.depth
Alphabet == Given.alphabet

VARIABLES st, hist
vars == <<st, hist>>

Init == st = FoldLeft(After, Start, Given.setup) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E i \in DOMAIN Alphabet :
              hist' = Append(hist, i) /\ st' = FoldLeft(After, st, Alphabet[i])
Spec == Init /\ [][Next]_vars

------------------------------------------------- \* the state from the history

RECURSIVE Calls(_)
Calls(h) == IF h = <<>> THEN <<>> ELSE Alphabet[h[1]] \o Calls(Tail(h))

\* Is id the object of a call on o, or a member of it?
Reaches(o, id) == o = id \/ (o \in DOMAIN st.m /\ st.m[o].kind \in AggKinds /\ id \in Members(st, o))
IsPush(e, ids) == e.op = "push" /\ \E id \in ids : Reaches(e.o, id) /\ ~Rejected(st, id, Vec(e.xs))
IsClear(e, ids) == e.op = "clear" /\ \E id \in ids : Reaches(e.o, id)
SinceClear(cs, ids) ==
    LET is == { i \in DOMAIN cs : IsClear(cs[i], ids) }
        from == IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i
    IN  SubSeq(cs, from + 1, Len(cs))
\* the observations that were pushed to some of ids since the last clear
Seen(ids) ==
    LET cs == SelectSeq(SinceClear(Calls(hist), ids), LAMBDA e : IsPush(e, ids))
    IN  [i \in DOMAIN cs |-> Vec(cs[i].xs)]
\* the metrics that share core c, and the core itself
Users(c) == {c} \cup { id \in DOMAIN st.m : st.m[id].kind \in CoreKinds /\ st.m[id].core = c }
Pairs(xs, lag) == [t \in 1..Max2(0, Len(xs) - lag) |-> <<xs[t + lag][1], xs[t][1]>>]

\* The abstract state is the window of what was pushed since the last clear.
Batch ==
    /\ \A id \in DOMAIN st.m : st.m[id].kind \in WindowKinds =>
          LET xs == Seen({id}) IN st.m[id].s.vals = LastW(xs, st.m[id].w) /\ st.m[id].s.n = Len(xs)
    /\ \A c \in DOMAIN st.c :
          LET xs == Seen(Users(c))
              lags == { id \in Users(c) \cap DOMAIN st.m : st.m[id].kind \in LagKinds }
              all == IF lags = {} THEN xs ELSE Pairs(xs, st.m[CHOOSE id \in lags : TRUE].lag)
          IN  st.c[c].s.vals = LastW(all, st.c[c].w) /\ st.c[c].s.n = Len(all)
Bounded ==
    /\ \A c \in DOMAIN st.c : st.c[c].w > 0 => Len(st.c[c].s.vals) <= st.c[c].w
    /\ \A id \in DOMAIN st.m : st.m[id].kind \in LagKinds => Len(st.m[id].lagq) <= st.m[id].lag

------------------------------------------------------- \* other formulas

RawSum(vals, a) == RSum([j \in 1..Len(vals) |-> DevProd(vals[j], [i \in 1..Len(a) |-> RZero], a, 1)])
\* exact, up to the truncation of square roots
Near(v, iv) == LET w == RPow2Neg(300) IN RLe(RSub(iv[1], w), v) /\ RLe(v, RAdd(iv[2], w))
\* all intervals contain what raw moments say: n E[x^2] - ..., and the same for more
Formulas ==
    \A c \in DOMAIN st.c :
        LET s == st.c[c].s
            n == RInt(N(s))
            uni == st.c[c].vars = 1
            S(k) == RawSum(s.vals, <<k>>)
            P(i, j) == RawSum(s.vals, <<i, j>>)
            m == RDiv(S(1), n)
            c2 == RSub(S(2), RMul(n, RPow(m, 2)))
            c3 == RAdd(RSub(S(3), RMul(RMul(RInt(3), m), S(2))), RMul(RMul(RInt(2), n), RPow(m, 3)))
            c4 == RAdd(RSub(RSub(S(4), RMul(RMul(RInt(4), m), S(3))),
                            RMul(RMul(RInt(3), n), RPow(m, 4))),
                       RMul(RMul(RInt(6), RPow(m, 2)), S(2)))
            cxy == RSub(P(1, 1), RDiv(RMul(P(1, 0), P(0, 1)), n))
            n1 == RSub(n, ROne)
        IN  s.vals # <<>> /\ st.c[c].d = <<>> =>
              IF uni
              THEN /\ In(m, MeanIv(s, 1, <<>>))
                   /\ CentralSum(s.vals, <<1>>, <<>>) = RZero
                   /\ CentralSum(s.vals, <<2>>, <<>>) = c2
                   /\ CentralSum(s.vals, <<3>>, <<>>) = c3
                   /\ CentralSum(s.vals, <<4>>, <<>>) = c4
                   /\ N(s) > 1 => /\ In(RDiv(c2, n1), MomentIv(s, 2))
                                  /\ Near(RSqrt(RDiv(c2, n1), 310), StdIv(s))
                   \* the standardised moments
                   /\ N(s) > 2 /\ SkewnessIv(s) # Unspec =>
                        LET g == RDiv(RMul(n, c3), RMul(n1, RSub(n, RInt(2))))
                            sd == RDiv(c2, n1)
                        IN  Near(RMul(RDiv(g, RMul(sd, sd)), RSqrt(sd, 310)), SkewnessIv(s))
                   /\ N(s) > 1 /\ KurtosisIv(s) # Unspec =>
                        Near(RSub(RDiv(RMul(n, c4), RMul(c2, c2)), RInt(3)), KurtosisIv(s))
              ELSE /\ CentralSum(s.vals, <<1, 1>>, <<>>) = cxy
                   /\ CentralSum(s.vals, <<2, 0>>, <<>>) = RSub(P(2, 0), RDiv(RPow(P(1, 0), 2), n))
                   /\ N(s) > 1 => In(RDiv(cxy, n1), CovIv(s))
                   /\ N(s) > 1 /\ CorrIv(s, <<>>) # Unspec =>
                        RLe(CorrIv(s, <<>>)[1], ROne) /\ RLe(RInt(-1), CorrIv(s, <<>>)[2])
\* exponentially weighted statistics by their recursions
RECURSIVE EWMean(_, _, _), EWVar(_, _, _)
EWMean(vals, n, d) ==
    IF n = 1 THEN vals[1][1]
    ELSE RAdd(RMul(d, vals[n][1]), RMul(RSub(ROne, d), EWMean(vals, n - 1, d)))
EWVar(vals, n, d) ==
    IF n = 1 THEN RZero
    ELSE LET diff == RSub(vals[n][1], EWMean(vals, n - 1, d))
         IN  RMul(RSub(ROne, d), RAdd(EWVar(vals, n - 1, d), RMul(d, RMul(diff, diff))))
Weighted ==
    \A c \in DOMAIN st.c :
        LET s == st.c[c].s
            d == st.c[c].d
        IN  s.vals # <<>> /\ d # <<>> =>
              /\ WMean(s.vals, 1, d) = EWMean(s.vals, N(s), d[1])
              /\ EWSum(Column(s.vals, 1), d[1]) = EWSumDef(Column(s.vals, 1), d[1])
              /\ CentralSum(s.vals, IF st.c[c].vars = 1 THEN <<2>> ELSE <<2, 0>>, d)
                   = EWVar(s.vals, N(s), d[1])

\* order statistics by counting
Ranked ==
    \A id \in DOMAIN st.m : st.m[id].kind \in WindowKinds /\ st.m[id].s.n > 0 =>
        LET v == Column(st.m[id].s.vals, 1)
            s == Sorted(v)
            n == Len(v)
            atMost(x) == Cardinality({ i \in DOMAIN v : RLe(v[i], x) })
            atLeast(x) == Cardinality({ i \in DOMAIN v : RLe(x, v[i]) })
            med == At(s, RMul(Half, RInt(n - 1)), "midpoint")
        IN  /\ \A i \in DOMAIN v : RLe(RMinOf(v), v[i]) /\ RLe(v[i], RMaxOf(v))
            /\ 2 * atMost(med) >= n /\ 2 * atLeast(med) >= n
            /\ s[1] = RMinOf(v) /\ s[n] = RMaxOf(v)
            \* quantiles grow with q, and are between the extremes
            /\ \A k \in Elems(Interps) : \A i \in 1..7 :
                  LET q(j) == At(s, RMul(RFrac(j, 8), RInt(n - 1)), k)
                  IN  RLe(s[1], q(i)) /\ RLe(q(i), s[n]) /\ (i > 1 => RLe(q(i - 1), q(i)))

Report == Len(hist) = Depth => PrintT("HIST|" \o ToString(hist))
=============================================================================
