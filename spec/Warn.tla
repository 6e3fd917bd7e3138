-------------------------------- MODULE Warn ---------------------------------
(* A scoring request passes loading, checking and scoring and collects        *)
(* warnings, or is refused.                                                   *)
EXTENDS WarnLib, Json
CONSTANTS Metrics
VARIABLES q, stage, w, refused
vars == <<q, stage, w, refused>>
Init == /\ q \in [m : Metrics, nd : {"2", "3", "c"}, chrom : BOOLEAN, range : {0, 1}, norm : BOOLEAN,
                  eight : BOOLEAN, roi : {"none", "all", "part"}, dim : {0, 1, 2, 5, 99}, sl : {0, 2, 99}]
        /\ (q.m \in Whole => q.dim = 99 /\ q.sl = 99)
        /\ (q.chrom => q.m \in Chromatic)
        /\ (q.range = 0 => q.m = "RMSE")
        /\ (q.eight => q.norm /\ q.range = 1)
        /\ stage = 0 /\ w = {} /\ refused = FALSE
Step(bad, more) == IF bad THEN refused' = TRUE /\ w' = w ELSE refused' = FALSE /\ w' = w \cup more
Next == /\ stage < 3 /\ ~refused /\ stage' = stage + 1 /\ UNCHANGED q
        /\ CASE stage = 0 -> Step(LoadBad(q), LoadW(q))
             [] stage = 1 -> Step(CheckBad(q), CheckW(q))
             [] stage = 2 -> Step(ScoreBad(q), ScoreW(q))
Spec == Init /\ [][Next]_vars
Done == stage = 3 \/ refused
(* collected stage by stage or at once: the same *)
Same == stage = 3 /\ ~refused => w = Kinds(q)
RefusedOk == Done => (refused <=> Refused(q))
(* what the caller gave and what has no effect is announced, nothing else *)
NoSilentIgnore == stage = 3 /\ ~refused =>
   /\ (q.range = 1 /\ ~q.norm => "range" \in w)
   /\ (q.nd # "3" /\ (q.dim # 99 \/ q.sl # 99) => "plane" \in w)
NoNoise == stage = 3 /\ ~refused /\ q.range = 0 /\ q.roi # "all" /\ q.nd # "c" /\ q.dim = 99 /\ q.sl = 99 => w = {}
NoBoth == ~({"plane", "volume"} \subseteq w) /\ ~({"range", "normalized"} \subseteq w)
Emit == Done => PrintT("@@C " \o ToJson(q))
=============================================================================
