---------------------------- MODULE MCNodeSearch ----------------------------
EXTENDS NodeSearch, IOUtils
\* Small constants; chosen by the environment variable NS_CONF.
Conf == IOEnv.NS_CONF
Stencil1 == << << <<2>>, <<3>> >>, << <<-2>>, <<-3>> >> >>
Stencil0 == << << <<1>>, <<2>> >> >>
Base(per, size, mesh, par) ==
    [box |-> [lo |-> <<0>>, hi |-> <<size>>, per |-> per], feature |-> 6, mesh |-> <<mesh>>,
     stencil |-> Stencil1, sden |-> 2, hasStencil |-> TRUE,
     check |-> 0, recheck |-> 0, doRecheck |-> TRUE, par |-> par]
MCConfig ==
    CASE Conf = "per"     -> Base(TRUE, 12, 3, 2)
      [] Conf = "open"    -> Base(FALSE, 8, 3, 2)
      [] Conf = "check1"  -> [Base(TRUE, 12, 3, 2) EXCEPT !.check = 1, !.recheck = 1]
      [] Conf = "nocheck" -> [Base(TRUE, 12, 3, 3) EXCEPT !.doRecheck = FALSE, !.stencil = Stencil0]
      [] Conf = "none"    -> [Base(TRUE, 8, 4, 3) EXCEPT !.hasStencil = FALSE, !.check = 2]
      [] Conf = "live"    -> Base(TRUE, 8, 2, 2)
Points == {<<x>> : x \in 0..(IF C.box.per THEN Size(C.box, 1) - 1 ELSE Size(C.box, 1))}
MCWorlds == {w \in SUBSET Points : Cardinality(w) <= (IF IOEnv.NS_MAX = "1" THEN 1 ELSE IF IOEnv.NS_MAX = "2" \/ Conf \in {"none", "live"} THEN 2 ELSE 3)}
MCCrash == IF Conf \in {"none", "live"} THEN 1 ELSE 0
MCFail == IF Conf \in {"none", "live"} THEN 1 ELSE 0
=============================================================================
