------------------------------ MODULE SwData ------------------------------
\* Space weather files: one line per day after a heading line; a reader that remembers where it stopped.
\* A line is [k |-> "day", d, v, f] (values v, flag f of day d), [k |-> "part", d] (only its date can be read) or [k |-> "bad"] (not even that).
\* The dates of the lines that have one increase; days may be missing.
EXTENDS Integers, Sequences
VARIABLES head,   \* "ok", "wrong" (no or another heading line), "none" (no such file)
          lines, pos, win
\* pos: 0 = read from the top next time, p > 0 = the heading and p lines have been read
--------------------------------------------------------------------------
Row(x) == [d |-> x.d, v |-> x.v, f |-> x.f]
Failed == [ok |-> FALSE, rows |-> <<>>, pos |-> 0]
\* the reader, line by line
RECURSIVE Collect(_, _, _, _, _)
Collect(L, i, d, n, acc) ==
  IF i > Len(L) \/ L[i].k # "day" THEN Failed
  ELSE IF L[i].d # d THEN Failed
  ELSE IF n = 1 THEN [ok |-> TRUE, rows |-> Append(acc, Row(L[i])), pos |-> i]
  ELSE Collect(L, i + 1, d + 1, n - 1, Append(acc, Row(L[i])))
RECURSIVE Seek(_, _, _, _)
Seek(L, i, s, n) ==
  IF i > Len(L) \/ L[i].k = "bad" THEN Failed
  ELSE IF L[i].d = s THEN Collect(L, i, s, n, <<>>) ELSE Seek(L, i + 1, s, n)
FromTop(h, L, s, n) ==
  IF h # "ok" \/ L = <<>> \/ L[1].k = "bad" THEN Failed
  ELSE IF L[1].d > s THEN Failed ELSE Seek(L, 1, s, n)
\* days s .. s + n - 1, starting to read at p
Scan(h, L, p, s, n) ==
  IF h = "none" THEN Failed
  ELSE IF p = 0 THEN FromTop(h, L, s, n)
  ELSE IF p + 1 > Len(L) \/ L[p + 1].k = "bad" THEN FromTop(h, L, s, n)
  ELSE IF L[p + 1].d > s THEN FromTop(h, L, s, n)
  ELSE Seek(L, p + 1, s, n)
\* what is asked for, whatever was read before: the lines of these days, if the file has them all and nothing before them is damaged
Fresh(h, L, s, n) ==
  IF h = "ok" /\ \E i \in 1..Len(L) : /\ L[i].k = "day" /\ L[i].d = s /\ i + n - 1 <= Len(L)
                                      /\ (\A j \in 1..i : L[j].k # "bad") /\ (\A j \in 0..(n - 1) : IF L[i + j].k = "day" THEN L[i + j].d = s + j ELSE FALSE)
  THEN [ok |-> TRUE, rows |-> LET i == CHOOSE i \in 1..Len(L) : L[i].k = "day" /\ (IF L[i].k = "day" THEN L[i].d = s ELSE FALSE) IN [j \in 1..n |-> Row(L[i + j - 1])]]
  ELSE [ok |-> FALSE, rows |-> <<>>]
--------------------------------------------------------------------------
File(h, L) == head' = h /\ lines' = L
\* the window of n = b + 1 + a days around day d goes to the front of the array; a failed read leaves the array in any state (w)
Read(d, b, a, ok, w) ==
  LET n == b + 1 + a r == Scan(head, lines, pos, d - b, n) IN
  /\ ok = r.ok /\ pos' = r.pos
  /\ (r.ok => w = r.rows \o SubSeq(win, n + 1, Len(win)))
  /\ win' = w /\ UNCHANGED <<head, lines>>
\* one more day at the end of the first n, the oldest of them leaves; nothing happens when there is no such day
Next1(d, n, ok, w) ==
  LET r == Scan(head, lines, pos, d, 1) IN
  /\ ok = r.ok /\ pos' = r.pos
  /\ w = (IF r.ok THEN SubSeq(win, 2, n) \o r.rows \o SubSeq(win, n + 1, Len(win)) ELSE win)
  /\ win' = w /\ UNCHANGED <<head, lines>>
=============================================================================
