--------------------------- MODULE TransportTrace ---------------------------
EXTENDS Transport, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l,
          law,     \* what is known about the scene
          seen     \* images so far: function from <<lo, hi>> to the first image of these paths
tvars == <<ti, l, law, seen>>
Ev == Traces[ti].ev[l]
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ TLCSet(ti, 0) /\ law = [kind |-> "none"] /\ seen = <<>>
Is(o) == Ev.op = o
Scene == Is("Scene") /\ Ev.ret = "ok" /\ law' = Ev.law /\ seen' = <<>>
Done == Is("Done") /\ Ev.ret = "ok" /\ UNCHANGED <<law, seen>>
Known(k) == k \in DOMAIN seen
Remember(k, im) == seen' = IF Known(k) THEN seen ELSE [x \in DOMAIN seen \cup {k} |-> IF x = k THEN im ELSE seen[x]]
Image == /\ Is("Image") /\ Ev.ok
         /\ LET im == [m |-> Ev.m, se |-> Ev.se]
                k == <<Ev.lo, Ev.hi>>
            IN /\ (law.kind = "furnace" => Agree(im, FurnaceImage(law, Len(Ev.m), Ev.lo, Ev.hi))) = TRUE
               /\ ((law.kind = "ref" /\ ToString(Ev.hi) \in DOMAIN law.ref /\ Ev.lo = 2) => Agree(im, Exact(law.ref[ToString(Ev.hi)]))) = TRUE
               /\ (Known(k) => Agree(im, seen[k])) = TRUE
               \* ranges add up
               /\ (\A b \in 2..8 : (Known(<<Ev.lo, b>>) /\ Known(<<b + 1, Ev.hi>>)) => Agree(im, Plus(seen[<<Ev.lo, b>>], seen[<<b + 1, Ev.hi>>]))) = TRUE
               /\ Remember(k, im)
         /\ law' = law
Close(q) == \A i \in 1..Len(q) : q[i][1] # Bad /\ Near(q[i][1], q[i][2], 100)
Paths == /\ Is("Paths") /\ Ev.ends /\ Ev.verts /\ Ev.bad = 0
         /\ (Ev.can # <<>> => /\ Len(Ev.can) = Len(Ev.v) + 1
                              /\ \A s \in 0..Len(Ev.v) : Ev.can[s + 1] = Can(Ev.v, s)) = TRUE
         /\ Close(Ev.estimate) = TRUE /\ Close(Ev.value) = TRUE /\ Close(Ev.mis) = TRUE /\ Close(Ev.one) = TRUE
         /\ UNCHANGED <<law, seen>>
TNext == /\ l <= Len(Traces[ti].ev)
         /\ (Scene \/ Done \/ Image \/ Paths)
         /\ l' = l + 1 /\ ti' = ti
TraceSpec == TInit /\ [][TNext]_tvars
TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
