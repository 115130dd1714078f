----------------------------- MODULE FileSinkGen -----------------------------
EXTENDS FileSink, Json
VARIABLE ops
Init == FInit /\ ops = <<>>
Next == \E o \in Ops : Do(o) /\ ops' = Append(ops, o) /\ PrintT(ToJson(ops'))
\* one way of writing buffered entries is enough to generate histories: only what is promised
Lazy == live => Len(buf) = cnt % n
Busy == ~live => now = 0 \/ cnt > 0
View == <<live, n, Len(files), cur, Len(buf), cnt, fmt, hdr, used, now, chg, refs, failed>>
Small == <<live, n, Len(files), cur, Len(buf), fmt, used, chg>>
Sound == /\ live /\ Promise /\ cnt % n = 0 => buf = <<>>
=============================================================================
