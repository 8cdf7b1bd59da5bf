----------------------------- MODULE ProgressMC -----------------------------
(* The bar, with its counter and its last percentage, for all small totals and distances, and more calls than iterations. *)
EXTENDS Progress
CONSTANTS MAXT, DISTS
VARIABLES total, dist, iteration, prev, calls, out
vars == <<total, dist, iteration, prev, calls, out>>
\* prev: -1 (nothing was shown), the iterations of the last percentage, or the total
Init == total \in 0..MAXT /\ dist \in DISTS /\ iteration = 0 /\ prev = -1 /\ calls = 0 /\ out = <<>>
Quiet == /\ prev # -1 /\ iteration = total /\ out' = Append(out, Nothing) /\ UNCHANGED <<iteration, prev>>
ToEnd == /\ ~(prev # -1 /\ iteration = total) /\ iteration + dist >= total
         /\ iteration' = total /\ prev' = total /\ out' = Append(out, Shows(-1, TRUE))
Skip == /\ ~(prev # -1 /\ iteration = total) /\ iteration + dist < total
        /\ prev # -1 /\ 100 * (iteration - prev) < dist * total
        /\ iteration' = iteration + 1 /\ out' = Append(out, Nothing) /\ UNCHANGED prev
\* the percentage is of the iterations before this one; when what is left is no more than the distance, the end follows
Show == /\ ~(prev # -1 /\ iteration = total) /\ iteration + dist < total
        /\ (prev = -1 \/ 100 * (iteration - prev) >= dist * total)
        /\ LET last == iteration + 1 + dist >= total IN
           /\ out' = Append(out, Shows(iteration, last))
           /\ iteration' = IF last THEN total ELSE iteration + 1
           /\ prev' = iteration
Next == calls < total + 3 /\ calls' = calls + 1 /\ UNCHANGED <<total, dist>> /\ (Quiet \/ ToEnd \/ Skip \/ Show)
Spec == Init /\ [][Next]_vars

IsEnd(o) == o.end
IsShown(o) == o.done >= 0
Ends == {k \in DOMAIN out : IsEnd(out[k])}
Shown == {k \in DOMAIN out : IsShown(out[k])}
EndsOnce == \A i, j \in Ends : i = j
EndsInTime == (calls >= total /\ calls > 0) => Ends # {}
QuietAfterTheEnd == \A e \in Ends : \A k \in DOMAIN out : k > e => out[k] = Nothing
FarApart == \A i, j \in Shown : i < j => 100 * (out[j].done - out[i].done) >= dist * total
Increasing == \A k \in Shown : out[k].done = k - 1
FirstIsShown == calls > 0 => out[1] # Nothing
=============================================================================
