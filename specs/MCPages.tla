------------------------------- MODULE MCPages ------------------------------
(* The page cache protocol of disk_page_io.hpp / disk_page_cache.hpp for one *)
(* shard: a lock, a cache of Cap pages, a write counter per page.  Readers   *)
(* look into the cache under the lock, read the device without it (a page is *)
(* two words, so a read can overlap a write), and offer what they read to    *)
(* the cache under the lock again.  Writers change a page in the cache,      *)
(* writing an evicted dirty page to the device while they hold the lock;     *)
(* a flush writes every dirty page.                                          *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Cap, Pages, Readers, Writers, MaxWrites, Bad
VARIABLES lock, cache, disk, ver, newest, pc, loc, seen, nwrites
\* cache: function from cached pages to [v: contents, d: dirty, t: last use]; disk: pair of words
vars == <<lock, cache, disk, ver, newest, pc, loc, seen, nwrites>>
Procs == Readers \cup Writers
Free == "free"
Init ==
  /\ lock = Free /\ cache = <<>> /\ disk = [p \in Pages |-> <<0, 0>>] /\ ver = [p \in Pages |-> 0]
  /\ newest = [p \in Pages |-> 0] /\ pc = [x \in Procs |-> "idle"] /\ nwrites = 0
  /\ loc = [x \in Procs |-> [p |-> CHOOSE p \in Pages : TRUE, buf |-> <<0, 0>>, ver |-> 0, victim |-> 0, next |-> "", dirty |-> FALSE]]
  /\ seen = [r \in Readers |-> {}]
Cached(p) == p \in DOMAIN cache
Drop(c, p) == [q \in DOMAIN c \ {p} |-> c[q]]
Set(c, p, v, d) == (p :> [v |-> v, d |-> d]) @@ c
\* any cached page may be the victim (the code takes the least recently used one)
Victims(p) == IF Cached(p) \/ Cap = 0 \/ Cardinality(DOMAIN cache) < Cap THEN {0} ELSE DOMAIN cache
Go(x, where) == pc' = [pc EXCEPT ![x] = where]
(* Installing a page: an evicted dirty page goes to the device first.        *)
StartInstall(x, p, v, d, next) ==
  \E vi \in Victims(p) :
    /\ loc' = [loc EXCEPT ![x] = [@ EXCEPT !.p = p, !.buf = v, !.dirty = d, !.victim = vi, !.next = next]]
    /\ Go(x, IF vi # 0 /\ cache[vi].d /\ Bad # 3 THEN "evict1" ELSE "install")
Evict1(x) ==
  /\ pc[x] = "evict1"
  /\ disk' = [disk EXCEPT ![loc[x].victim] = <<cache[loc[x].victim].v[1], @[2]>>]
  /\ Go(x, "evict2")
  /\ UNCHANGED <<lock, cache, ver, newest, loc, seen, nwrites>>
Evict2(x) ==
  /\ pc[x] = "evict2"
  /\ disk' = [disk EXCEPT ![loc[x].victim] = <<@[1], cache[loc[x].victim].v[2]>>]
  /\ Go(x, "install")
  /\ UNCHANGED <<lock, cache, ver, newest, loc, seen, nwrites>>
\* without a cache the contents go straight to the device
Install(x) ==
  /\ pc[x] = "install"
  /\ LET l == loc[x]
         c == IF l.victim = 0 THEN cache ELSE Drop(cache, l.victim)
     IN IF Cap = 0
        THEN /\ IF l.dirty THEN disk' = [disk EXCEPT ![l.p] = <<l.buf[1], @[2]>> ] /\ Go(x, "direct2") ELSE UNCHANGED disk /\ Go(x, l.next)
             /\ UNCHANGED <<cache, newest, ver>>
        ELSE /\ cache' = Set(c, l.p, l.buf, l.dirty \/ (Cached(l.p) /\ cache[l.p].d))
             /\ IF l.dirty THEN newest' = [newest EXCEPT ![l.p] = l.buf[1]] /\ ver' = [ver EXCEPT ![l.p] = IF Bad = 2 THEN @ ELSE @ + 1]
                           ELSE UNCHANGED <<newest, ver>>
             /\ Go(x, l.next) /\ UNCHANGED disk
  /\ seen' = [r \in Readers |-> IF loc[r].p = loc[x].p /\ loc[x].dirty /\ Cap > 0 THEN seen[r] \cup {loc[x].buf[1]} ELSE seen[r]]
  /\ UNCHANGED <<lock, loc, nwrites>>
Direct2(x) ==
  /\ pc[x] = "direct2"
  /\ disk' = [disk EXCEPT ![loc[x].p] = <<@[1], loc[x].buf[2]>>]
  /\ newest' = [newest EXCEPT ![loc[x].p] = loc[x].buf[1]]
  /\ ver' = [ver EXCEPT ![loc[x].p] = IF Bad = 2 THEN @ ELSE @ + 1]
  /\ seen' = [r \in Readers |-> IF loc[r].p = loc[x].p THEN seen[r] \cup {loc[x].buf[1]} ELSE seen[r]]
  /\ Go(x, loc[x].next)
  /\ UNCHANGED <<lock, cache, loc, nwrites>>
(* Writers.                                                                  *)
Write(w, p) ==
  /\ pc[w] = "idle" /\ lock = Free /\ nwrites < MaxWrites
  /\ lock' = w /\ nwrites' = nwrites + 1
  /\ StartInstall(w, p, <<nwrites + 1, nwrites + 1>>, TRUE, "unlock")
  /\ UNCHANGED <<cache, disk, ver, newest, seen>>
Flush(w) ==
  /\ pc[w] = "idle" /\ lock = Free
  /\ \E p \in DOMAIN cache :
       /\ cache[p].d
       /\ lock' = w
       /\ loc' = [loc EXCEPT ![w].p = p]
       /\ disk' = [disk EXCEPT ![p] = <<cache[p].v[1], @[2]>>]
       /\ Go(w, "flush2")
  /\ UNCHANGED <<cache, ver, newest, seen, nwrites>>
Flush2(w) ==
  /\ pc[w] = "flush2"
  /\ LET p == loc[w].p IN
       /\ disk' = [disk EXCEPT ![p] = <<@[1], cache[p].v[2]>>]
       /\ cache' = [cache EXCEPT ![p].d = FALSE]
  /\ Go(w, "unlock")
  /\ UNCHANGED <<lock, ver, newest, loc, seen, nwrites>>
Unlock(x) ==
  /\ pc[x] = "unlock"
  /\ lock' = Free /\ Go(x, "idle")
  /\ UNCHANGED <<cache, disk, ver, newest, loc, seen, nwrites>>
(* Readers.                                                                  *)
Peek(r, p) ==
  /\ pc[r] = "idle" /\ lock = Free
  /\ seen' = [seen EXCEPT ![r] = {newest[p]}]
  /\ IF Cached(p)
     THEN loc' = [loc EXCEPT ![r] = [@ EXCEPT !.p = p, !.buf = cache[p].v]] /\ Go(r, "done")
     ELSE loc' = [loc EXCEPT ![r] = [@ EXCEPT !.p = p, !.ver = ver[p]]] /\ Go(r, "dev1")
  /\ UNCHANGED <<lock, cache, disk, ver, newest, nwrites>>
Dev1(r) ==
  /\ pc[r] = "dev1"
  /\ loc' = [loc EXCEPT ![r].buf = <<disk[loc[r].p][1], 0>>]
  /\ Go(r, "dev2")
  /\ UNCHANGED <<lock, cache, disk, ver, newest, seen, nwrites>>
Dev2(r) ==
  /\ pc[r] = "dev2"
  /\ loc' = [loc EXCEPT ![r].buf = <<loc[r].buf[1], disk[loc[r].p][2]>>, ![r].ver = IF Bad = 6 THEN ver[loc[r].p] ELSE @]
  /\ Go(r, "fill")
  /\ UNCHANGED <<lock, cache, disk, ver, newest, seen, nwrites>>
Fill(r) ==
  /\ pc[r] = "fill" /\ lock = Free
  /\ LET p == loc[r].p IN
     IF Cached(p) /\ Bad # 4
     THEN /\ loc' = [loc EXCEPT ![r].buf = cache[p].v] /\ Go(r, "done")
          /\ cache' = IF Bad = 5 THEN [cache EXCEPT ![p].d = FALSE] ELSE cache
          /\ UNCHANGED lock
     ELSE /\ lock' = r /\ UNCHANGED cache
          /\ IF ver[p] # loc[r].ver /\ Bad # 1
             THEN StartInstall(r, p, disk[p], FALSE, "unlockr")
             ELSE StartInstall(r, p, loc[r].buf, FALSE, "unlockr")
  /\ UNCHANGED <<disk, ver, newest, seen, nwrites>>
UnlockR(r) ==
  /\ pc[r] = "unlockr"
  /\ lock' = Free /\ Go(r, "done")
  /\ UNCHANGED <<cache, disk, ver, newest, loc, seen, nwrites>>
Done(r) ==
  /\ pc[r] = "done"
  /\ Go(r, "idle")
  /\ loc' = [loc EXCEPT ![r].buf = <<0, 0>>, ![r].ver = 0]
  /\ seen' = [seen EXCEPT ![r] = {}]
  /\ UNCHANGED <<lock, cache, disk, ver, newest, nwrites>>
Next ==
  \/ \E x \in Procs : Evict1(x) \/ Evict2(x) \/ Install(x) \/ Direct2(x) \/ Unlock(x)
  \/ \E w \in Writers : Flush(w) \/ Flush2(w) \/ \E p \in Pages : Write(w, p)
  \/ \E r \in Readers : Dev1(r) \/ Dev2(r) \/ Fill(r) \/ UnlockR(r) \/ Done(r) \/ \E p \in Pages : Peek(r, p)
Spec == Init /\ [][Next]_vars
(* A finished read is a whole version that was current while it ran.         *)
ReadRight == \A r \in Readers : pc[r] = "done" => loc[r].buf[1] = loc[r].buf[2] /\ loc[r].buf[1] \in seen[r]
(* With the lock free, the cache and behind it the device hold the newest    *)
(* contents; what is not dirty is on the device.                             *)
Newest == lock = Free => \A p \in Pages :
  /\ (IF Cached(p) THEN cache[p].v ELSE disk[p]) = <<newest[p], newest[p]>>
  /\ Cached(p) /\ ~cache[p].d => disk[p] = <<newest[p], newest[p]>>
Bounded == Cardinality(DOMAIN cache) <= Cap
=============================================================================
