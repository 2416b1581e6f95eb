------------------------------- MODULE Metric -------------------------------
(***************************************************************************)
(* The library as an abstract state machine.                               *)
(*                                                                         *)
(* A state st has the objects st.m (metrics, order structures, heaps,      *)
(* aggregates, reservoirs) and the cores st.c, both functions of names.    *)
(* The abstract state of anything that consumes a stream is the sequence   *)
(* of observations in its window since the last clear (a "series").        *)
(*                                                                         *)
(* An event e is a call with its arguments and its result e.r.             *)
(*   Legal(st, e)   the result is one that the call may have in st         *)
(*   After(st, e)   the state after the call                               *)
(***************************************************************************)
EXTENDS Stats, FiniteSets

Put(f, k, v) == (k :> v) @@ f
Elems(s) == { s[i] : i \in DOMAIN s }

Vec(t) == [i \in 1..Len(t) |-> RFloat(t[i])]

------------------------------------------------------------------ \* series

EmptySeries == [vals |-> <<>>, n |-> 0, lo |-> <<>>, hi |-> <<>>]

\* the last w observations; all if w = 0
LastW(s, w) == IF w = 0 \/ Len(s) <= w THEN s ELSE SubSeq(s, Len(s) - w + 1, Len(s))

SeriesPush(s, x, w) ==
    [ vals |-> LastW(Append(s.vals, x), w),
      n |-> s.n + 1,
      lo |-> IF s.n = 0 THEN x ELSE [i \in 1..Len(x) |-> RMin(s.lo[i], x[i])],
      hi |-> IF s.n = 0 THEN x ELSE [i \in 1..Len(x) |-> RMax(s.hi[i], x[i])] ]

\* several at once
SeriesPushAll(s, xs, w) ==
    LET low(a, x) == [i \in 1..Len(x) |-> RMin(a[i], x[i])]
        high(a, x) == [i \in 1..Len(x) |-> RMax(a[i], x[i])]
        first == IF s.n = 0 THEN xs[1] ELSE s.lo
        first2 == IF s.n = 0 THEN xs[1] ELSE s.hi
    IN  IF xs = <<>> THEN s
        ELSE [ vals |-> LastW(s.vals \o xs, w),
               n |-> s.n + Len(xs),
               lo |-> FoldLeft(low, first, xs),
               hi |-> FoldLeft(high, first2, xs) ]

------------------------------------------------------------------- \* cores

\* the optional fields of a configuration
Default(o, v) == IF o.set THEN o.v ELSE v

InUnit(r) == r.k = "num" /\ RLt(RZero, NumOf(r)) /\ RLt(NumOf(r), ROne)

CfgValid(cfg) ==
    /\ cfg.w.set /\ cfg.w.v >= 0
    /\ cfg.d.set => InUnit(cfg.d.v) /\ cfg.w.v = 0
    /\ IF cfg.dom = "moment"
       THEN \A t \in Elems(cfg.sums) : t[1] > 0
       ELSE /\ cfg.vars.set => cfg.vars.v >= 2
            /\ cfg.vars.set \/ cfg.sums # <<>>
            /\ \A t \in Elems(cfg.sums) :
                  /\ Len(t) = Len(cfg.sums[1]) /\ Len(t) >= 2
                  /\ cfg.vars.set => Len(t) = cfg.vars.v
                  /\ \A i \in DOMAIN t : t[i] >= 0
                  /\ \E i \in DOMAIN t : t[i] > 0

NewCore(cfg) ==
    [ dom |-> cfg.dom,
      w |-> cfg.w.v,
      d |-> IF cfg.d.set THEN <<NumOf(cfg.d.v)>> ELSE <<>>,
      vars |-> IF cfg.dom = "moment" THEN 1
               ELSE IF cfg.vars.set THEN cfg.vars.v ELSE Len(cfg.sums[1]),
      tuples |-> Elems(cfg.sums),
      s |-> EmptySeries ]

TupleLe(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : 0 <= a[i] /\ a[i] <= b[i]
\* the sums a core tracks: all that are componentwise at most a configured one
Tracks(core, a) == \E b \in core.tuples : TupleLe(a, b) /\ TupleAbs(a) > 0

CorePush(core, x) == [core EXCEPT !.s = SeriesPush(@, x, core.w)]
CoreClear(core) == [core EXCEPT !.s = EmptySeries]

----------------------------------------------------- \* merging of configurations

Agree(cfgs, f(_)) ==
    \A i, j \in DOMAIN cfgs : f(cfgs[i]).set /\ f(cfgs[j]).set => f(cfgs[i]).v = f(cfgs[j]).v
Joined(cfgs, f(_), out) ==
    IF \E i \in DOMAIN cfgs : f(cfgs[i]).set
    THEN f(out).set /\ \A i \in DOMAIN cfgs : f(cfgs[i]).set => f(out).v = f(cfgs[i]).v
    ELSE ~f(out).set
WindowOf(c) == c.w
VarsOf(c) == c.vars
DecayOf(c) == c.d
AskedSums(cfgs) == UNION { Elems(cfgs[i].sums) : i \in DOMAIN cfgs }
Lengths(cfgs) == { Len(a) : a \in AskedSums(cfgs) }

MergeLegal(cfgs, r) ==
    LET ok == /\ r.k = "cfg"
              /\ r.cfg.dom = cfgs[1].dom
              /\ Joined(cfgs, WindowOf, r.cfg) /\ Joined(cfgs, VarsOf, r.cfg)
              /\ Joined(cfgs, DecayOf, r.cfg)
              /\ \A a \in AskedSums(cfgs) : \E b \in Elems(r.cfg.sums) : TupleLe(a, b)
              /\ Elems(r.cfg.sums) \subseteq AskedSums(cfgs)
        agree == Agree(cfgs, WindowOf) /\ Agree(cfgs, VarsOf) /\ Agree(cfgs, DecayOf)
    IN  CASE Len(cfgs) = 0 -> r.k = "err"
          [] Len(cfgs) = 1 -> r.k = "cfg"     \* the configuration itself
          [] ~agree -> r.k = "err"
          \* tuples of differing lengths conflict; the core's construction may find out
          [] cfgs[1].dom = "joint" /\ Cardinality(Lengths(cfgs)) > 1 -> ok \/ r.k = "err"
          [] OTHER -> ok

---------------------------------------------------------- \* kinds of objects

MomentKinds == {"Mean", "Std", "Skewness", "Kurtosis", "Moment", "EWMA", "EWMMoment", "EWMStd"}
JointKinds == {"Cov", "Corr", "EWMCov", "EWMCorr"}
LagKinds == {"Autocov", "Autocorr"}
CoreKinds == MomentKinds \cup JointKinds \cup LagKinds
EWKinds == {"EWMA", "EWMMoment", "EWMStd", "EWMCov", "EWMCorr"}
MinMaxKinds == {"Min", "Max"}
QuantileKinds == {"Quantile", "Median", "IQR"}
WindowKinds == MinMaxKinds \cup QuantileKinds \cup {"HeapMedian"}
OrderKinds == {"AVL", "RB", "Skip"}
ProbeKinds == {"Probe", "JProbe"}
AggKinds == {"SAgg", "JAgg"}

Unset == [set |-> FALSE, v |-> 0]
Set(v) == [set |-> TRUE, v |-> v]

\* the sums a metric needs
Needs(kind, k) ==
    CASE kind \in {"Mean", "EWMA"} -> {}
      [] kind \in {"Std", "EWMStd"} -> {<<2>>}
      [] kind = "Skewness" -> {<<2>>, <<3>>}
      [] kind = "Kurtosis" -> {<<2>>, <<4>>}
      [] kind \in {"Moment", "EWMMoment"} -> {<<k>>}
      [] kind \in {"Cov", "EWMCov", "Autocov"} -> {<<1, 1>>}
      [] kind \in {"Corr", "EWMCorr", "Autocorr"} -> {<<1, 1>>, <<2, 0>>, <<0, 2>>}

MetricCfg(e) ==
    [ dom |-> IF e.kind \in MomentKinds THEN "moment" ELSE "joint",
      w |-> Set(IF e.kind \in EWKinds THEN 0 ELSE e.w),
      vars |-> IF e.kind \in MomentKinds THEN Unset ELSE Set(2),
      d |-> IF e.kind \in EWKinds THEN Set(e.d) ELSE Unset,
      sums |-> SetToSeq(Needs(e.kind, e.kk)) ]

Interps == <<"linear", "lower", "higher", "nearest", "midpoint">>

SkipOptValid(o) ==
    CASE o.t = "max" -> 1 <= o.v /\ o.v <= 64
      [] o.t = "p" -> InUnit(o.p)
      [] o.t \in {"rand", "script"} -> TRUE
QuantOptValid(o) ==
    CASE o.t = "impl" -> /\ 0 <= o.v /\ o.v <= 2
                         /\ o.v = 2 => \A i \in DOMAIN o.sopts : SkipOptValid(o.sopts[i])
      [] o.t = "interp" -> 0 <= o.v /\ o.v <= 4

\* the last value of an option, or a default
LastOpt(opts, t, default(_), deflt) ==
    LET is == { i \in DOMAIN opts : opts[i].t = t }
    IN  IF is = {} THEN deflt ELSE default(opts[CHOOSE i \in is : \A j \in is : j <= i])
OptV(o) == o.v
OptP(o) == NumOf(o.p)

InterpOf(e) ==
    IF e.kind = "Quantile" THEN Interps[LastOpt(e.opts, "interp", OptV, 0) + 1] ELSE "midpoint"

\* Does the constructor (and Init) accept the parameters?
NewValid(st, e) ==
    CASE e.kind \in LagKinds -> e.lag >= 0 /\ (e.init => CfgValid(MetricCfg(e)))
      [] e.kind \in CoreKinds \ LagKinds -> e.init => CfgValid(MetricCfg(e))
      [] e.kind \in MinMaxKinds \cup {"HeapMedian"} -> e.w >= 0
      [] e.kind \in QuantileKinds -> e.w >= 0 /\ \A i \in DOMAIN e.opts : QuantOptValid(e.opts[i])
      [] e.kind = "Skip" -> \A i \in DOMAIN e.opts : SkipOptValid(e.opts[i])
      [] OTHER -> TRUE

\* what distinguishes the statistics that metrics report
Sig(o) ==
    <<o.kind>> \o
    (CASE o.kind \in {"Mean", "Std", "Skewness", "Kurtosis", "Cov", "Corr",
                      "Min", "Max", "HeapMedian", "Median", "IQR"} -> <<o.w>>
       [] o.kind = "Moment" -> <<o.kk, o.w>>
       [] o.kind \in {"EWMA", "EWMStd", "EWMCov", "EWMCorr"} -> <<o.d>>
       [] o.kind = "EWMMoment" -> <<o.kk, o.d>>
       [] o.kind \in LagKinds -> <<o.lag, o.w>>
       [] o.kind = "Quantile" -> <<o.w, o.interp>>
       [] OTHER -> <<o.name>>)

NoCore == "none"

NewObj(e) ==
    LET base == [kind |-> e.kind, name |-> e.name, w |-> e.w, kk |-> e.kk, d |-> e.d, lag |-> e.lag]
    IN  CASE e.kind \in CoreKinds ->
               base @@ [core |-> IF e.init THEN e.o ELSE NoCore, lagq |-> <<>>]
          [] e.kind \in WindowKinds -> base @@ [s |-> EmptySeries, interp |-> InterpOf(e)]
          [] e.kind \in OrderKinds ->
               base @@ [ srt |-> <<>>,
                         max |-> LastOpt(e.opts, "max", OptV, 12),
                         p |-> LastOpt(e.opts, "p", OptP, RFrac(1, 4)),
                         \* are the levels random?
                         fair |-> ~\E i \in DOMAIN e.opts : e.opts[i].t = "script" ]
          [] e.kind \in ProbeKinds -> base @@ [pushes |-> 0, mode |-> e.mode]
          [] e.kind \in AggKinds -> base @@ [members |-> e.members]
          [] e.kind = "Reservoir" ->
               base @@ [size |-> e.size, n |-> 0, known |-> TRUE, last |-> {}, since |-> {}]

\* String() differs for metrics that report different statistics.
NameLegal(st, o) ==
    \A id \in DOMAIN st.m :
        /\ "name" \in DOMAIN st.m[id]
        /\ st.m[id].name = o.name /\ o.name # ""
        => Sig(st.m[id]) = Sig(o)

---------------------------------------------------- \* pushes, values, clears

Core(st, id) == st.c[st.m[id].core]
IsCore(st, id) == id \notin DOMAIN st.m
Arity(st, id) == IF st.m[id].kind \in JointKinds \cup {"JAgg"} THEN 2 ELSE 1

\* Is a push of x to id rejected?
Rejected(st, id, x) ==
    IF IsCore(st, id) THEN Len(x) # st.c[id].vars
    ELSE LET o == st.m[id] IN
         CASE o.kind \in MomentKinds -> o.core = NoCore
           [] o.kind \in JointKinds -> o.core = NoCore \/ Len(x) # 2
           [] o.kind \in LagKinds -> o.core = NoCore
           [] o.kind \in ProbeKinds -> o.mode = "failpush"
           [] OTHER -> FALSE

WithCore(st, id, core) == [st EXCEPT !.c[id] = core]

RECURSIVE Pushed(_, _, _), PushedAll(_, _, _, _)
Pushed(st, id, x) ==
    IF IsCore(st, id)
    THEN IF Rejected(st, id, x) THEN st ELSE WithCore(st, id, CorePush(st.c[id], x))
    ELSE LET o == st.m[id] IN
         CASE o.kind \in ProbeKinds -> [st EXCEPT !.m[id].pushes = @ + 1]
           [] o.kind \in AggKinds -> PushedAll(st, o.members, x, 1)
           [] Rejected(st, id, x) -> st
           [] o.kind \in MomentKinds \cup JointKinds ->
                WithCore(st, o.core, CorePush(st.c[o.core], x))
           [] o.kind \in LagKinds ->
                LET all == Append(o.lagq, x[1])
                    st2 == [st EXCEPT !.m[id].lagq = LastW(all, o.lag)]
                IN  IF o.lag = 0 THEN WithCore(st, o.core, CorePush(st.c[o.core], <<x[1], x[1]>>))
                    ELSE IF Len(all) <= o.lag THEN st2
                    ELSE WithCore(st2, o.core, CorePush(st.c[o.core], <<x[1], all[1]>>))
           [] o.kind \in WindowKinds -> [st EXCEPT !.m[id].s = SeriesPush(@, x, o.w)]
PushedAll(st, ids, x, i) ==
    IF i > Len(ids) THEN st ELSE PushedAll(Pushed(st, ids[i], x), ids, x, i + 1)

\* the pushes of all of xs
PushedSeq(st, id, xs) ==
    IF IsCore(st, id)
    THEN WithCore(st, id, [st.c[id] EXCEPT !.s = SeriesPushAll(@, xs, st.c[id].w)])
    ELSE LET o == st.m[id] IN
         CASE o.kind \in MomentKinds \cup JointKinds ->
                WithCore(st, o.core, [st.c[o.core] EXCEPT !.s = SeriesPushAll(@, xs, st.c[o.core].w)])
           [] o.kind \in WindowKinds -> [st EXCEPT !.m[id].s = SeriesPushAll(@, xs, o.w)]
           [] OTHER -> FoldLeft(LAMBDA s, x : Pushed(s, id, x), st, xs)

PushOk(st, id, x) ==
    IF ~IsCore(st, id) /\ st.m[id].kind \in AggKinds
    THEN \A i \in DOMAIN st.m[id].members : ~Rejected(st, st.m[id].members[i], x)
    ELSE ~Rejected(st, id, x)

\* Has the metric no value?
NoValue(st, id, q) ==
    LET o == st.m[id] IN
    CASE o.kind \in CoreKinds ->
           \/ o.core = NoCore
           \/ Core(st, id).s.n = 0
           \/ \E a \in Needs(o.kind, o.kk) : ~Tracks(Core(st, id), a)
      [] o.kind = "Quantile" -> o.s.n = 0 \/ ~InUnit(q)
      [] o.kind \in WindowKinds \ {"Quantile"} -> o.s.n = 0
      [] o.kind \in ProbeKinds -> o.mode = "failval"

ValueIs(st, id, q, r) ==
    LET o == st.m[id] IN
    IF o.kind \in CoreKinds THEN
        LET c == Core(st, id)
            s == c.s
        IN  CASE o.kind \in {"Mean", "EWMA"} -> NumIs(r, Slack(MeanIv(s, 1, c.d)))
              [] o.kind = "Moment" -> NumIs(r, MomentIv(s, o.kk))
              [] o.kind = "Std" -> NumIs(r, StdIv(s)) /\ (N(s) < 2 \/ RLe(RZero, NumOf(r)))
              [] o.kind = "Skewness" -> NumIs(r, SkewnessIv(s))
              [] o.kind = "Kurtosis" -> NumIs(r, KurtosisIv(s))
              [] o.kind = "EWMMoment" -> NumIs(r, EWMomentIv(s, o.kk, c.d))
              [] o.kind = "EWMStd" -> NumIs(r, EWStdIv(s, c.d)) /\ RLe(RZero, NumOf(r))
              [] o.kind \in {"Cov", "Autocov"} -> NumIs(r, CovIv(s))
              [] o.kind \in {"Corr", "Autocorr"} -> NumIs(r, CorrIv(s, <<>>))
              [] o.kind = "EWMCov" -> NumIs(r, Slack(SumIv(s, <<1, 1>>, c.d)))
              [] o.kind = "EWMCorr" -> NumIs(r, CorrIv(s, c.d))
    ELSE IF o.kind \in ProbeKinds THEN NumEq(r, RInt(o.pushes))
    ELSE LET vs == Column(o.s.vals, 1)
         IN  CASE o.kind = "Min" -> NumEq(r, RMinOf(vs))
               [] o.kind = "Max" -> NumEq(r, RMaxOf(vs))
               [] o.kind \in {"HeapMedian", "Median"} -> MedianIs(r, Sorted(vs))
               [] o.kind = "IQR" -> IQRIs(r, Sorted(vs))
               [] o.kind = "Quantile" -> QuantileIs(r, Sorted(vs), NumOf(q), o.interp)

\* Values of an aggregate
Members(st, id) == Elems(st.m[id].members)
ValuesLegal(st, id, r) ==
    LET ms == Members(st, id)
        zero == [k |-> "num", v |-> <<0, 0, 0>>]
    IN  IF \E m \in ms : NoValue(st, m, zero) THEN r.k = "err"
        ELSE /\ r.k = "map"
             /\ Elems(r.keys) = { st.m[m].name : m \in ms }
             /\ Len(r.keys) = Cardinality(Elems(r.keys)) /\ Len(r.nums) = Len(r.keys)
             /\ \A i \in DOMAIN r.keys : \E m \in ms :
                    st.m[m].name = r.keys[i] /\ ValueIs(st, m, zero, r.nums[i])
             /\ \A m \in ms : \E i \in DOMAIN r.keys :
                    st.m[m].name = r.keys[i] /\ ValueIs(st, m, zero, r.nums[i])

ValLegal(st, id, q, r) ==
    IF st.m[id].kind \in AggKinds THEN ValuesLegal(st, id, r)
    ELSE IF NoValue(st, id, q) THEN r.k = "err"
    ELSE ValueIs(st, id, q, r)

RECURSIVE Cleared(_, _), ClearedAll(_, _, _)
Cleared(st, id) ==
    IF IsCore(st, id) THEN WithCore(st, id, CoreClear(st.c[id]))
    ELSE LET o == st.m[id] IN
         CASE o.kind \in CoreKinds ->
                IF o.core = NoCore THEN st
                ELSE WithCore([st EXCEPT !.m[id].lagq = <<>>], o.core, CoreClear(st.c[o.core]))
           [] o.kind \in WindowKinds -> [st EXCEPT !.m[id].s = EmptySeries]
           [] o.kind \in OrderKinds -> [st EXCEPT !.m[id].srt = <<>>]
           [] o.kind \in ProbeKinds -> [st EXCEPT !.m[id].pushes = 0]
           [] o.kind \in AggKinds -> ClearedAll(st, o.members, 1)
ClearedAll(st, ids, i) ==
    IF i > Len(ids) THEN st ELSE ClearedAll(Cleared(st, ids[i]), ids, i + 1)

------------------------------------------------------------- \* core reads

CountLegal(core, r) == r.k = "int" /\ r.i = Len(core.s.vals)
MeanLegal(core, i, r) ==
    IF core.s.n = 0 \/ i < 0 \/ i >= core.vars THEN r.k = "err"
    ELSE NumIs(r, Slack(MeanIv(core.s, i + 1, core.d)))
SumLegal(core, a, r) ==
    CASE core.s.n = 0 -> r.k = "err"
      [] Tracks(core, a) -> NumIs(r, SumIv(core.s, a, core.d))
      \* the sum of the all-zero tuple of a multivariate core is not specified
      [] core.dom = "joint" /\ Len(a) = core.vars /\ \A i \in DOMAIN a : a[i] = 0 ->
            r.k = "err" \/ IsNumber(r)
      [] OTHER -> r.k = "err"

------------------------------------------------------- \* order structures

\* Lines of a rendered tree: depth d, branch up (a right child) and value v; the
\* greatest first.  Height of the subtree in lines i..j with root at depth d, or
\* -2 if the lines are not a search tree.
RECURSIVE TreeHeight(_, _, _, _)
TreeHeight(lines, i, j, d) ==
    IF i > j THEN -1
    ELSE LET roots == { k \in i..j : lines[k].d = d }
         IN  IF Cardinality(roots) # 1 THEN -2
             ELSE LET k == CHOOSE k \in roots : TRUE
                      up == TreeHeight(lines, i, k - 1, d + 1)
                      down == TreeHeight(lines, k + 1, j, d + 1)
                      upOk == \A l \in i..k-1 : lines[l].d = d + 1 => lines[l].up
                      downOk == \A l \in k+1..j : lines[l].d = d + 1 => ~lines[l].up
                  IN  IF up = -2 \/ down = -2 \/ ~upOk \/ ~downOk THEN -2
                      ELSE 1 + Max2(up, down)

\* The number of nodes on the longest and on the shortest path from the root of the
\* tree in lines i..j to a missing child; <<-1, -1>> if the tree is not balanced:
\* in an AVL tree the heights of siblings differ by at most one, and in a red-black
\* tree no path is more than twice as long as another one with the same start.
RECURSIVE Paths(_, _, _, _, _)
Paths(lines, i, j, d, kind) ==
    IF i > j THEN <<0, 0>>
    ELSE LET k == CHOOSE k \in i..j : lines[k].d = d
             a == Paths(lines, i, k - 1, d + 1, kind)
             b == Paths(lines, k + 1, j, d + 1, kind)
             long == Max2(a[1], b[1])
             short == Min2(a[2], b[2])
         IN  IF a[1] = -1 \/ b[1] = -1 THEN <<-1, -1>>
             ELSE IF IF kind = "AVL" THEN a[1] - b[1] \in -1..1 ELSE long + 1 <= 2 * (short + 1)
                  THEN <<long + 1, short + 1>>
                  ELSE <<-1, -1>>

Pow2Le(h, n, num, den) ==      \* h <= (num/den) * log2(n)
    RLe(RPow(RInt(2), den * h), RPow(RInt(n), num))

RenderedValues(r) == [i \in 1..Len(r.lines) |-> RFloat(r.lines[Len(r.lines) + 1 - i].v)]
TreeLegal(o, r) ==
    LET h == TreeHeight(r.lines, 1, Len(r.lines), 0)
        n == Len(o.srt)
    IN  /\ r.k = "tree"
        /\ RenderedValues(r) = o.srt
        /\ h >= -1
        /\ n > 0 => IF o.kind = "AVL" THEN Pow2Le(h, n + 2, 145, 100)
                    ELSE Pow2Le(h, n + 2, 2, 1)
        /\ Paths(r.lines, 1, Len(r.lines), 0, o.kind)[1] = h + 1

\* Lanes of a rendered skip list, the uppermost first.
RECURSIVE IsSubSeq(_, _, _, _)
IsSubSeq(s, i, t, j) ==          \* s[i..] is a subsequence of t[j..]
    IF i > Len(s) THEN TRUE
    ELSE IF j > Len(t) THEN FALSE
    ELSE IF s[i] = t[j] THEN IsSubSeq(s, i + 1, t, j + 1) ELSE IsSubSeq(s, i, t, j + 1)
LaneVals(l) == [i \in 1..Len(l.vals) |-> RFloat(l.vals[i])]
SumInts(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* about n * p^i nodes reach lane i (i = 0 is the lowest)
LaneThin(n, p, i, count) ==
    LET pi == RPow(p, i)
        mean == RMul(RInt(n), pi)
        var == RMul(mean, RSub(ROne, pi))
        dev == RSub(RInt(count), mean)
    IN  RLe(RMul(dev, dev), RAdd(RMul(RInt(50), var), RInt(150)))
LanesLegal(o, r) ==
    LET L == Len(r.lanes)
        n == Len(o.srt)
        lane(i) == LaneVals(r.lanes[L - i])
    IN  /\ r.k = "lanes"
        /\ L = o.max
        /\ lane(0) = o.srt
        /\ \A i \in 0..L-1 :
              /\ i > 0 => IsSubSeq(lane(i), 1, lane(i - 1), 1)
              /\ SumInts(r.lanes[L - i].widths) = n + 1
              /\ \A j \in DOMAIN r.lanes[L - i].widths : r.lanes[L - i].widths[j] >= 1
              /\ o.fair => LaneThin(n, o.p, i, Len(lane(i)))

OrderLegal(o, e) ==
    LET s == o.srt IN
    CASE e.op \in {"add", "remove"} -> e.r.k = "ok"
      [] e.op = "size" -> e.r.k = "int" /\ e.r.i = Len(s)
      [] e.op = "select" -> IF e.i < 0 \/ e.i >= Len(s) THEN e.r.k = "nil"
                            ELSE NumEq(e.r, s[e.i + 1])
      [] e.op = "rank" -> e.r.k = "int" /\ e.r.i = CountLess(s, RFloat(e.x))
      [] e.op = "height" -> /\ e.r.k = "int"
                            /\ IF Len(s) = 0 THEN e.r.i <= 0 ELSE Pow2Le(e.r.i, Len(s) + 2, 145, 100)
      [] e.op = "render" -> IF o.kind = "Skip" THEN LanesLegal(o, e.r) ELSE TreeLegal(o, e.r)
      [] e.op = "snap" ->
            /\ e.r.k = "snap" /\ e.r.n = Len(s)
            /\ Len(e.r.sel) = Len(s) + 2
            /\ \A i \in DOMAIN e.r.sel :
                  IF i = 1 \/ i = Len(s) + 2 THEN e.r.sel[i].k = "nil" ELSE NumEq(e.r.sel[i], s[i - 1])
            /\ \A i \in DOMAIN e.xs : e.r.ranks[i] = CountLess(s, RFloat(e.xs[i]))
      \* the rendering together with Height()
      [] e.op = "shape" -> /\ TreeLegal(o, e.r.tree)
                           /\ Len(s) > 0 => e.r.h = TreeHeight(e.r.tree.lines, 1, Len(e.r.tree.lines), 0)

OrderAfter(o, e) ==
    CASE e.op = "add" -> [o EXCEPT !.srt = InsertSorted(@, RFloat(e.x))]
      [] e.op = "remove" -> [o EXCEPT !.srt = RemoveSorted(@, RFloat(e.x))]
      [] OTHER -> o

------------------------------------------------------------------- \* heaps
(* items is the function of the names of the items in the heap to values.  *)
(* The initial values have items named <<i>>, which no call refers to.     *)

HeapVals(o) == [i \in DOMAIN o.items |-> o.items[i]]
Extreme(o, v) == \A i \in DOMAIN o.items :
                    IF o.cmp = "min" THEN RLe(v, o.items[i]) ELSE RLe(o.items[i], v)
Occurs(s, v) == Cardinality({ i \in DOMAIN s : s[i] = v })
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
\* which of several equal items a heap pops is its choice, and what cannot be done to the
\* items that are left is skipped
HeapSkips(o, e) ==
    /\ e.r.k = "skip"
    /\ CASE e.op = "hpush" -> e.item \in DOMAIN o.items
         [] e.op \in {"hupdate", "hremove"} -> e.item \notin DOMAIN o.items
         [] e.op \in {"hpop", "hpeek"} -> DOMAIN o.items = {}
         [] OTHER -> FALSE
HeapDoes(o, e) ==
    CASE e.op \in {"hpush", "hupdate", "hremove"} -> e.r.k = "ok"
      [] e.op = "hlen" -> e.r.k = "int" /\ e.r.i = Cardinality(DOMAIN o.items)
      [] e.op = "hpeek" -> \E v \in Elems(o.items) : Extreme(o, v) /\ NumEq(e.r, v)
      [] e.op = "hvalues" ->
            /\ e.r.k = "list"
            /\ LET vs == Vec(e.r.vs)
               IN  /\ Len(vs) = Cardinality(DOMAIN o.items)
                   /\ \A v \in Elems(vs) : Occurs(vs, v) = Occurs(o.items, v)
      [] e.op = "hpop" ->
            /\ e.r.k = "item"
            /\ LET v == RFloat(e.r.v)
               IN  /\ Extreme(o, v)
                   \* an item of the initial values has no name
                   /\ IF e.r.item = "" THEN \E i \in DOMAIN o.items : o.items[i] = v /\ i \in o.anon
                      ELSE e.r.item \in DOMAIN o.items /\ o.items[e.r.item] = v
HeapLegal(o, e) == IF e.r.k = "skip" THEN HeapSkips(o, e) ELSE HeapDoes(o, e)
HeapAfter(o, e) ==
    CASE e.r.k = "skip" -> o
      [] e.op \in {"hpush", "hupdate"} -> [o EXCEPT !.items = Put(@, e.item, RFloat(e.x))]
      [] e.op = "hremove" -> [o EXCEPT !.items = Without(@, e.item)]
      [] e.op = "hpop" ->
            IF e.r.k # "item" THEN o
            ELSE LET gone == IF e.r.item # "" THEN e.r.item
                             ELSE CHOOSE i \in o.anon \cap DOMAIN o.items : o.items[i] = RFloat(e.r.v)
                 IN  [o EXCEPT !.items = Without(@, gone)]
      [] OTHER -> o

-------------------------------------------------------------- \* reservoirs
(* Items are distinct numbers.  last is the sample at the last read (or     *)
(* empty at the beginning), since are the items pushed since then.          *)

IsSet(s) == Cardinality(Elems(s)) = Len(s)
SampleLegal(o, r) ==
    LET t == Elems(r.is) IN
    /\ r.k = "ints"
    /\ IsSet(r.is)
    /\ Len(r.is) = IF o.n < o.size THEN o.n ELSE o.size
    /\ t \subseteq o.last \cup o.since
    /\ o.since = {} => t = o.last
    \* every push replaces at most one item
    /\ Cardinality(o.last \ t) <= Cardinality(o.since)
ResLegal(o, e) ==
    CASE e.op = "rsample" -> SampleLegal(o, e.r)
      [] OTHER -> e.r.k = "ok"
ResAfter(o, e) ==
    CASE e.op = "rpush" -> [o EXCEPT !.n = @ + 1, !.since = @ \cup {e.i}]
      [] e.op = "rsample" -> [o EXCEPT !.last = Elems(e.r.is), !.since = {}]
      [] OTHER -> o

(* Statistics of many reservoirs: after n pushes every subset of size s is  *)
(* the sample equally often, up to 6.5 standard deviations.                 *)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE (Choose(n - 1, k - 1) * n) \div k
Often(count, rep, p) ==
    LET mean == RMul(RInt(rep), p)
        dev == RSub(RInt(count), mean)
    IN  RLe(RMul(dev, dev), RAdd(RMul(RFrac(4225, 100), RMul(mean, RSub(ROne, p))), RInt(100)))
StatLegal(e) ==
    /\ e.r.k = "stat"
    /\ \A c \in DOMAIN e.ns :
          LET n == e.ns[c]
              at == e.r.at[c]
          IN  IF e.mode = "subsets"
              THEN /\ Len(at.sets) = Choose(n, e.size)
                   /\ \A i \in DOMAIN at.sets : Often(at.sets[i], e.rep, RFrac(1, Choose(n, e.size)))
              ELSE /\ Len(at.ones) = n
                   /\ \A i \in DOMAIN at.ones : Often(at.ones[i], e.rep, RFrac(e.size, n))
                   /\ \A i \in DOMAIN at.pairs : \A j \in DOMAIN at.pairs[i] :
                         Often(at.pairs[i][j], e.rep, RFrac(e.size * (e.size - 1), n * (n - 1)))

------------------------------------------------------------------ \* events

OrderOps == {"add", "remove", "size", "select", "rank", "height", "render", "shape", "snap"}
HeapOps == {"hpush", "hupdate", "hremove", "hlen", "hpeek", "hvalues", "hpop"}
ResOps == {"rpush", "rsample", "rseed"}
LockOps == {"lock", "unlock", "rlock", "runlock"}
\* changes of data owned by the caller: no effect on any object
CallerOps == {"optslice", "optscramble", "cfg", "cfgscramble", "mcfgscramble"}

RECURSIVE Legal(_, _), After(_, _), LegalAll(_, _, _)
\* calls one after the other
LegalAll(st, evs, i) ==
    i > Len(evs) \/ (Legal(st, evs[i]) /\ LegalAll(After(st, evs[i]), evs, i + 1))

Legal(st, e) ==
    CASE e.op = "all" -> e.r.k = "all" /\ LegalAll(st, e.evs, 1)
      [] e.op = "new" ->
           /\ IF NewValid(st, e) THEN e.r.k = "ok" /\ NameLegal(st, NewObj(e)) ELSE e.r.k = "err"
           /\ e.optsame
      [] e.op = "hnew" -> e.r.k = "ok"
      [] e.op = "init" ->
           LET o == st.m[e.o]
           IN  IF CfgValid(MetricCfg(o)) THEN e.r.k = "ok" ELSE e.r.k = "err"
      [] e.op = "newcore" -> IF CfgValid(e.cfg) THEN e.r.k = "ok" ELSE e.r.k = "err"
      [] e.op = "merge" -> MergeLegal(e.from, e.r)
      [] e.op = "push" -> e.r.k = IF PushOk(st, e.o, Vec(e.xs)) THEN "ok" ELSE "err"
      [] e.op = "pushn" ->     \* a push of each
           /\ \A i \in DOMAIN e.xss : PushOk(st, e.o, Vec(e.xss[i]))
           /\ e.r.k = "ok"
      [] e.op = "val" -> ValLegal(st, e.o, e.q, e.r)
      [] e.op = "vals" ->      \* metrics that must agree exactly
           /\ e.r.k = "recs"
           /\ \A i \in DOMAIN e.os : ValLegal(st, e.os[i], e.q, e.r.rs[i])
           /\ \A i \in DOMAIN e.os : e.r.rs[i] = e.r.rs[1]
      [] e.op = "count" -> CountLegal(st.c[e.o], e.r)
      [] e.op = "mean" -> MeanLegal(st.c[e.o], e.i, e.r)
      [] e.op = "sum" -> SumLegal(st.c[e.o], e.ks, e.r)
      [] e.op = "str" -> e.r.k = "str" /\ e.r.s = st.m[e.o].name
      [] e.op = "isset" -> e.r.k = "bool" /\ e.r.b = (st.m[e.o].core # NoCore)
      [] e.op = "rstat" -> StatLegal(e)
      [] e.op \in OrderOps -> OrderLegal(st.m[e.o], e)
      [] e.op \in HeapOps -> HeapLegal(st.m[e.o], e)
      [] e.op \in ResOps -> ResLegal(st.m[e.o], e)
      [] e.op \in {"clear", "uclear", "attach"} \cup LockOps \cup CallerOps -> e.r.k = "ok"
      [] OTHER -> FALSE

After(st, e) ==
    CASE e.op = "all" -> FoldLeft(After, st, e.evs)
      [] e.op = "new" ->
           IF e.r.k # "ok" THEN st
           ELSE LET st2 == [st EXCEPT !.m = Put(@, e.o, NewObj(e))]
                IN  IF e.kind \in CoreKinds /\ e.init
                    THEN [st2 EXCEPT !.c = Put(@, e.o, NewCore(MetricCfg(e)))]
                    ELSE st2
      [] e.op = "hnew" ->
           [st EXCEPT !.m = Put(@, e.o,
               [kind |-> "Heap", cmp |-> e.cmp, anon |-> { ToString(i) : i \in DOMAIN e.xs },
                items |-> [a \in { ToString(i) : i \in DOMAIN e.xs } |->
                             RFloat(e.xs[CHOOSE i \in DOMAIN e.xs : ToString(i) = a])]])]
      [] e.op = "init" ->
           IF e.r.k # "ok" THEN st
           ELSE [ m |-> [st.m EXCEPT ![e.o].core = e.o],
                  c |-> Put(st.c, e.o, NewCore(MetricCfg(st.m[e.o]))) ]
      [] e.op = "newcore" ->
           IF e.r.k # "ok" THEN st ELSE [st EXCEPT !.c = Put(@, e.o, NewCore(e.cfg))]
      [] e.op = "attach" -> [st EXCEPT !.m[e.o].core = e.core]
      [] e.op = "push" -> Pushed(st, e.o, Vec(e.xs))
      [] e.op = "pushn" -> PushedSeq(st, e.o, [i \in 1..Len(e.xss) |-> Vec(e.xss[i])])
      [] e.op \in {"clear", "uclear"} -> Cleared(st, e.o)
      [] e.op \in OrderOps -> [st EXCEPT !.m[e.o] = OrderAfter(@, e)]
      [] e.op \in HeapOps -> [st EXCEPT !.m[e.o] = HeapAfter(@, e)]
      [] e.op \in ResOps -> [st EXCEPT !.m[e.o] = ResAfter(@, e)]
      [] OTHER -> st

Start == [m |-> <<>>, c |-> <<>>]
=============================================================================
