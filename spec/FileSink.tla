------------------------------- MODULE FileSink -------------------------------
(* The file sink: what is in which file after every operation.                                                           *)
(* Entries received and not yet in a file are in buf; when they get there is up to the sink, but after every n-th entry, *)
(* and when the sink is destroyed, nothing is left in buf.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Promise,        \* the promises on when entries are in the file and how they look (C17); otherwise only that none is lost or duplicated (C18)
          MaxN, MaxE, MaxC     \* bounds of the generated histories: write intervals, entries, changes

VARIABLES
  live,      \* the sink exists
  n,         \* write interval
  files,     \* sequence of [name, ent: sequence of <<entry, format>>, hdr: sequence of headers]; a file used again keeps its place
  cur,       \* index of the current file
  buf,       \* received, not in a file
  cnt,       \* entries received
  fmt, hdr,  \* details format and header in force
  used,      \* the header of the first file has been determined
  now,       \* seconds passed (part of file names)
  chg,       \* changes tried
  refs,      \* pairs of files that have to refer to each other
  failed     \* files that have to note a failed change: <<file, directory>>
vars == <<live, n, files, cur, buf, cnt, fmt, hdr, used, now, chg, refs, failed>>

FInit == /\ live = FALSE /\ n = 1 /\ files = <<>> /\ cur = 0 /\ buf = <<>> /\ cnt = 0 /\ fmt = "default" /\ hdr = "h0"
         /\ used = "" /\ now = 0 /\ chg = 0 /\ refs = {} /\ failed = {}

Good == {"A/", "B/", "", "./"}
Bad  == {"missing/", "plainfile/", "A/no/"}
Dirs == Good \cup Bad
Ids  == {"g3log", "", "id2"}
\* the name of the file created in a directory: prefix, id, time
Stamp == <<"20010909-014640", "20010909-014641", "20010909-014642", "20010909-014643", "20010909-014644", "20010909-014645", "20010909-014646">>
Name(d, id, t) == d \o "log." \o (IF id = "" THEN "" ELSE id \o ".") \o Stamp[t + 1] \o ".log"
\* the constructor is given a directory without the delimiter
First(d, id, t) == Name(IF d = "" THEN "" ELSE d \o "/", id, t)
Path(x) == IF Len(x) > 1 /\ SubSeq(x, 1, 2) = "./" THEN SubSeq(x, 3, Len(x)) ELSE x

Lookup(x, fs) == IF \E k \in 1..Len(fs) : Path(fs[k].name) = Path(x) THEN CHOOSE k \in 1..Len(fs) : Path(fs[k].name) = Path(x) ELSE 0
With(x, fs) == IF Lookup(x, fs) # 0 THEN fs ELSE Append(fs, [name |-> x, ent |-> <<>>])

\* m buffered entries get into file f
Put(fs, f, b, m) == [fs EXCEPT ![f].ent = @ \o SubSeq(b, 1, m)]
Rest(b, m) == SubSeq(b, m + 1, Len(b))

Create(i, d, id) == /\ ~live /\ cnt = 0 /\ files = <<>>
                    /\ live' = TRUE /\ n' = i /\ files' = <<[name |-> First(d, id, now), ent |-> <<>>]>> /\ cur' = 1
                    /\ UNCHANGED <<buf, cnt, fmt, hdr, used, now, chg, refs, failed>>
\* the header is the one in force when the file is first used; an entry is formatted as it is received
Entry == /\ live
         /\ cnt' = cnt + 1
         /\ LET b == Append(buf, <<cnt + 1, fmt>>) IN
            \E m \in 0..Len(b) : /\ Promise /\ cnt' % n = 0 => m = Len(b)
                                 /\ files' = Put(files, cur, b, m) /\ buf' = Rest(b, m)
         /\ used' = IF used = "" THEN hdr ELSE used
         /\ UNCHANGED <<live, n, cur, fmt, hdr, now, chg, refs, failed>>
Change(d, id) == LET x == Name(d, id, now) IN
         /\ live /\ chg' = chg + 1
         /\ IF d \in Good
            THEN \E m \in 0..Len(buf) :
                 LET fs == With(x, Put(files, cur, buf, m)) g == Lookup(x, fs) b == Rest(buf, m) IN
                 \E k \in 0..Len(b) : /\ files' = Put(fs, g, b, k) /\ buf' = Rest(b, k)
                                      /\ cur' = g /\ refs' = refs \cup {<<cur, g>>, <<g, cur>>} /\ failed' = failed
            ELSE \E m \in 0..Len(buf) : /\ files' = Put(files, cur, buf, m) /\ buf' = Rest(buf, m)
                                        /\ failed' = failed \cup {<<cur, d>>} /\ UNCHANGED <<cur, refs>>
         /\ used' = IF used = "" /\ d \in Good THEN hdr ELSE used
         /\ UNCHANGED <<live, n, cnt, fmt, hdr, now>>
Header(h) == live /\ hdr' = h /\ UNCHANGED <<live, n, files, cur, buf, cnt, fmt, used, now, chg, refs, failed>>
Details(f) == live /\ fmt' = f /\ UNCHANGED <<live, n, files, cur, buf, cnt, hdr, used, now, chg, refs, failed>>
Tick == now' = now + 1 /\ UNCHANGED <<live, n, files, cur, buf, cnt, fmt, hdr, used, chg, refs, failed>>
Destroy == /\ live /\ live' = FALSE /\ files' = Put(files, cur, buf, Len(buf)) /\ buf' = <<>>
           /\ UNCHANGED <<n, cur, cnt, fmt, hdr, used, now, chg, refs, failed>>

Do(o) == LET k == o[1] IN
  \/ k = "create" /\ Create(o[2], o[3], o[4])
  \/ k \in {"entry", "big"} /\ Entry
  \/ k = "change" /\ Change(o[3], o[4])
  \/ k = "header" /\ Header(o[3])
  \/ k = "details" /\ Details(o[3])
  \/ k = "tick" /\ Tick
  \/ k = "destroy" /\ Destroy

Ops == {<<"create", i, d, id>> : i \in MaxN, d \in {"A", ""}, id \in {"g3log", ""}}
       \cup (IF cnt < MaxE THEN {<<"entry", 0, "", "">>, <<"big", 0, "", "">>} ELSE {})
       \cup (IF chg < MaxC THEN {<<"change", 0, d, id>> : d \in Dirs, id \in Ids} ELSE {})
       \cup {<<"header", 0, h, "">> : h \in {"h1", "h2", "none"} \ {hdr}}
       \cup {<<"details", 0, f, "">> : f \in {"default", "full", "custom"} \ {fmt}}
       \cup (IF now < 5 /\ chg > 0 /\ chg < MaxC THEN {<<"tick", 0, "", "">>} ELSE {})
       \cup {<<"destroy", 0, "", "">>}

\* ---- what is seen: <<returned name, current name, files>>, a file is <<name, tokens>>, a token is one of
\* <<"E", entry, format>>, <<"P">> the beginning of an entry at the very end, <<"H", header>>, <<"X">> the shutdown line, <<"N", references>> other text
Sel(q, k) == SelectSeq(q, LAMBDA t : t[1] = k)
Ent(q, withFmt) == LET s == Sel(q, "E") IN [j \in 1..Len(s) |-> IF withFmt THEN <<s[j][2], s[j][3]>> ELSE <<s[j][2], "">>]
Strip(e, withFmt) == IF withFmt THEN e ELSE [j \in 1..Len(e) |-> <<e[j][1], "">>]
RefsIn(q) == UNION {{q[j][2][m] : m \in 1..Len(q[j][2])} : j \in {j \in 1..Len(q) : q[j][1] = "N"}}
HasAt(q, j, k) == q[j][1] = k
Ok(obs, o) ==
  LET fs == files' seen == obs[3]
      changed == chg' > 0
  IN
  /\ {Path(seen[j][1]) : j \in 1..Len(seen)} = {Path(fs[j].name) : j \in 1..Len(fs)}
  /\ \A j \in 1..Len(seen) :
     LET f == Lookup(seen[j][1], fs) q == seen[j][2] IN
     /\ Ent(q, Promise) = Strip(fs[f].ent, Promise)
     \* an entry that is only there in part is at the end of the current file, and the next to be written
     /\ \A k \in 1..Len(q) : HasAt(q, k, "P") => k = Len(q) /\ f = cur' /\ buf' # <<>>
     /\ \A k \in 1..Len(q) : ~HasAt(q, k, "B")
     \* the shutdown line ends the last file, and only that
     /\ \A k \in 1..Len(q) : HasAt(q, k, "X") => k = Len(q) /\ f = cur' /\ ~live'
     /\ (~live' /\ f = cur') => Len(q) > 0 /\ HasAt(q, Len(q), "X")
     \* the header comes before the entries, without changes it is what the file starts with
     /\ (Promise /\ f = 1) =>
          LET hs == {k \in 1..Len(q) : HasAt(q, k, "H")} IN
          /\ \A k \in 1..Len(q) : HasAt(q, k, "E") => \E h \in hs : h < k
          /\ hs # {} => q[CHOOSE h \in hs : \A k \in hs : h <= k][2] = (IF used' = "" THEN hdr' ELSE used')
          /\ ~changed => hs \subseteq {1} /\ Len(Sel(q, "N")) = 0
     \* once all is over, files that followed each other refer to each other, and failures are noted
     /\ ~live' => /\ \A r \in refs' : r[1] = f => Path(fs[r[2]].name) \in {Path(x) : x \in RefsIn(q)}
                  /\ \A r \in failed' : r[1] = f => r[2] \in RefsIn(q)
  /\ live' => Path(obs[2]) = Path(fs[cur'].name)
  /\ o[1] = "change" => Path(obs[1]) = IF o[3] \in Good THEN Path(fs[cur'].name) ELSE ""
=============================================================================
