---------------------------- MODULE MC_OptimLoop ---------------------------
EXTENDS OptimLoop

MCNext ==
  /\ Next
  /\ pc' = "done" =>
       PrintT("@@" \o ToJson([s |-> cid, hist |-> hist', n |-> i', r |-> Report',
          vals |-> tab.f]))
MCSpec == Init /\ [][MCNext]_vars /\ WF_vars(MCNext)
=============================================================================
