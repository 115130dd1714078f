-------------------------------- MODULE Names --------------------------------
(* The log file's name and place for every prefix, directory and logger id.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Deep               \* prefixes of three characters

At(s, k) == SubSeq(s, k, k)
Chars(s) == {At(s, k) : k \in 1..Len(s)}

White == {" ", "\t", "\n", "\r", "\f"}            \* (the vertical tab cannot be written here)
Dropped == White \cup {"/", "\\", ".", ":"}
Illegal == {"/", ",", "|", "<", ">", ":", "#", "$", "%", "{", "}", "[", "]", "'", "\"", "^", "!", "?", "+", "*", " "}
RECURSIVE Keep(_, _)
Keep(s, bad) == IF s = "" THEN "" ELSE (IF At(s, 1) \in bad THEN "" ELSE At(s, 1)) \o Keep(SubSeq(s, 2, Len(s)), bad)
RECURSIVE Unify(_)
Unify(s) == IF s = "" THEN "" ELSE (IF At(s, 1) = "\\" THEN "/" ELSE At(s, 1)) \o Unify(SubSeq(s, 2, Len(s)))
RECURSIVE Trim(_)
Trim(s) == IF s # "" /\ At(s, Len(s)) \in {"/", " "} THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

Time == "20010909-014640"
\* the directories there are; "plain" is a file, "ro" cannot be written by the user the driver runs as
Existing == {"", "sub", "sub/deep", "sp ace", "./sub", "sub//deep", "sub/../sub", " lead"}

Prefix(p) == Keep(p, Dropped)
Refused(p) == Prefix(p) = "" \/ Chars(Prefix(p)) \cap Illegal # {}
File(p, id) == Prefix(p) \o "." \o (IF id = "" THEN "" ELSE id \o ".") \o Time \o ".log"
Dir(d) == Trim(Unify(d))
Usable(d) == Dir(d) \in Existing \cup {"."}
Where(p, d, id) == IF ~Usable(d) THEN "./" \o File(p, id) ELSE IF Dir(d) = "" THEN File(p, id) ELSE Dir(d) \o "/" \o File(p, id)
\* the same place
RECURSIVE Plain(_)
Plain(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 2) = "./" THEN Plain(SubSeq(s, 3, Len(s))) ELSE s
OnDisk(p, d, id) == LET w == Where(p, d, id) IN
  CASE Usable(d) /\ Dir(d) = "sub//deep" -> "sub/deep/" \o File(p, id)
    [] Usable(d) /\ Dir(d) = "sub/../sub" -> "sub/" \o File(p, id)
    [] OTHER -> Plain(w)

\* <<prefix, directory, id>>;  obs: <<[how it ended, code], said something, reported name, files there are>>
ObsOK(o, obs) ==
  IF Refused(o[1]) THEN /\ obs[1] # <<0, 0>> /\ obs[2] = 1 /\ obs[4] = <<>>
  ELSE /\ obs[1] = <<0, 0>> /\ Plain(obs[3]) = Plain(Where(o[1], o[2], o[3])) /\ obs[4] = <<OnDisk(o[1], o[2], o[3])>>

Odd == {",", "|", "<", ">", "#", "$", "%", "{", "}", "[", "]", "'", "\"", "^", "!", "?", "+", "*"}
Fine == {"a", "Z", "0", "-", "_", "@", "~", "=", "&", ";", "(", ")", "`"}
Alphabet == White \cup {"/", "\\", ".", ":"} \cup Odd \cup Fine
Prefixes == {""} \cup Alphabet \cup {a \o b : a \in Alphabet, b \in Alphabet} \cup {"log" \o a \o b \o "x" : a \in Alphabet, b \in {"", " ", "/", "?", "q"}}
            \cup {a \o "log" \o b : a \in Alphabet, b \in {"", " ", ".", "*"}}
            \cup (IF Deep THEN {a \o b \o c : a \in Alphabet, b \in Alphabet, c \in Alphabet} ELSE {})
            \cup {"../../etc/passwd", "C:\\logs\\app.log", "  spaced out  name ", "a.b.c", "\t\n", "..", "/", "x" \o "\\" \o "/" \o "y.z:w", "UPPER lower", "l'og", "name(1)"}
Directories == {"", ".", "./", "sub", "sub/", "sub//", "sub\\", "sub/ ", "sub / / ", "sub\\\\deep", "sub/deep", "sub\\deep\\", "sub/deep// ", "sp ace", "sp ace/", "sp ace ", "missing", "missing/", "missing/deep",
                "plain", "plain/", "./sub", ".\\sub\\ ", "sub//deep", "sub/../sub/", "sub ", " lead", "lead", " ", "  ", "su b", "SUB", "sub."}
IdSet == {"", "g3log", "id.with.dots", "white space", "(ReplaceLogFile)", "a", "*?", "log", "..", "7"}

Ops == {<<p, d, "id">> : p \in Prefixes, d \in {"sub"}}
       \cup {<<p, d, id>> : p \in {"log", " l.o/g ", "a?b", ""}, d \in Directories, id \in IdSet}
=============================================================================
