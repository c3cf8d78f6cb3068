------------------------------- MODULE Logging -------------------------------
(* The logging facility: levels (1 error, 2 warning, 3 information, 4 debug), *)
(* sinks, and the lines which remain to be delivered to each of them.         *)
EXTENDS HexText
CONSTANT Sinks
VARIABLES on, up, due
\* on: enabled levels, up: registered sinks, due: for each sink, the lines it is to receive
LogInit == on = {} /\ up = {} /\ due = [k \in Sinks |-> <<>>]
Quiet == \A k \in Sinks : due[k] = <<>>

SetLevel(l) == Quiet /\ on' = 1..l /\ UNCHANGED <<up, due>>
Set(l, b) == Quiet /\ on' = (IF b THEN on \cup {l} ELSE on \ {l}) /\ UNCHANGED <<up, due>>
Add(ks) == Quiet /\ up' = up \cup ks /\ UNCHANGED <<on, due>>
Leave(ks) == Quiet /\ up' = up \ ks /\ UNCHANGED <<on, due>>
\* lines: what is to be delivered for one message
Log(l, lines) == Quiet /\ due' = [k \in Sinks |-> IF k \in up /\ l \in on THEN lines ELSE <<>>] /\ UNCHANGED <<on, up>>

Letter(l) == <<69, 87, 73, 68>>[l]
HasSuffix(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
\* a line: [l: level, text, where: place in the source, for debug messages] or [raw: exact text]
Fits(line, s) ==
    IF "raw" \in DOMAIN line THEN IsDump(s, line.raw)
    ELSE /\ HasPrefix(s, <<91, Letter(line.l), 93>>)
         /\ HasSuffix(s, B(" | ") \o line.text)
         /\ (line.l = 4 => LET head == SubSeq(s, 1, Len(s) - Len(line.text)) IN HasSub(head, line.file) /\ HasSub(head, Dec(line.at))) = TRUE
Receive(k, s) == /\ due[k] # <<>> /\ Fits(due[k][1], s)
                 /\ due' = [due EXCEPT ![k] = Tail(@)] /\ UNCHANGED <<on, up>>
=============================================================================
