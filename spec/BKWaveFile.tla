------------------------------ MODULE BKWaveFile ------------------------------
(* WAVE files: what a writer leaves in a file and what a reader finds in one.  *)
(* A file is [b, pos, mode]: its bytes, the position, "rw", "r", "w" or "pipe". *)
EXTENDS BKNum

Chars(s) == CASE s = "RIFF" -> <<82, 73, 70, 70>> [] s = "WAVE" -> <<87, 65, 86, 69>> [] s = "fmt " -> <<102, 109, 116, 32>>
              [] s = "data" -> <<100, 97, 116, 97>>

(* little-endian numbers of n bytes *)
LE(n, v)   == TLCEval([j \in 1..n |-> (v \div 256^(j - 1)) % 256])
Word(b, p) == b[p + 1] + 256 * b[p + 2]
High(b, p) == b[p + 4] >= 128                               \* 2^31 or more
Long(b, p) == b[p + 1] + 256 * b[p + 2] + 65536 * b[p + 3] + 16777216 * (IF b[p + 4] >= 128 THEN b[p + 4] - 256 ELSE b[p + 4])
Tag(b, p, s) == SubSeq(b, p + 1, p + 4) = Chars(s)

------------------------------------------------------------------------------
(* writing *)

PutBytes(F, bytes) ==
  LET old == F.b
      pad == IF F.pos > Len(old) THEN old \o Rep(F.pos - Len(old), 0) ELSE old
      new == SubSeq(pad, 1, F.pos) \o bytes \o SubSeq(pad, F.pos + Len(bytes) + 1, Len(pad))
  IN [F EXCEPT !.b = new, !.pos = F.pos + Len(bytes)]

(* sizes are filled in when the file is terminated *)
Header(nch, rate, bits) ==
  Chars("RIFF") \o LE(4, 0) \o Chars("WAVE") \o Chars("fmt ") \o LE(4, 16) \o LE(2, 1) \o LE(2, nch) \o LE(4, rate)
  \o LE(4, rate * nch * (bits \div 8)) \o LE(2, nch * (bits \div 8)) \o LE(2, bits) \o Chars("data") \o LE(4, 0)

(* a writer is [f, off, nch, rate, bits, hdr, data, term] *)
NewWriter(f, off, nch, rate, bits) ==
  [f |-> f, off |-> off, nch |-> nch, rate |-> rate, bits |-> IF bits = 0 THEN 16 ELSE bits, hdr |-> FALSE, data |-> 0, term |-> FALSE]

WithHeader(W, F) == IF W.hdr THEN F ELSE PutBytes(F, Header(W.nch, W.rate, W.bits))

SampleBytes(bits, v) == IF bits = 8 THEN <<(v \div 256) + 128>> ELSE LE(2, v)
AllBytes(bits, vals) == FoldLeft(LAMBDA a, v: a \o SampleBytes(bits, v), <<>>, vals)
AppendTo(W, F, vals) == PutBytes(WithHeader(W, F), AllBytes(W.bits, vals))

(* the sizes of what was written; then the position is the end of the file *)
Terminated(W, F) ==
  LET F1 == WithHeader(W, F)
      F2 == PutBytes([F1 EXCEPT !.pos = W.off + 4], LE(4, 36 + W.data))
      F3 == PutBytes([F2 EXCEPT !.pos = W.off + 40], LE(4, W.data))
  IN [F3 EXCEPT !.pos = Len(F3.b)]

------------------------------------------------------------------------------
(* reading *)

None == [ok |-> FALSE, nch |-> 0, rate |-> 0, bits |-> 0, n |-> 0, at |-> 0]

(* the data chunk from position p on: <<position, size>> or <<>> *)
RECURSIVE FindData(_, _)
FindData(b, p) ==
  IF Len(b) < p + 8 THEN <<>>
  ELSE LET size == Long(b, p + 4)
       IN IF Tag(b, p, "data") THEN (IF High(b, p + 4) THEN <<>> ELSE <<p + 8, IF size = 0 THEN Len(b) - (p + 8) ELSE size>>)
          ELSE IF High(b, p + 4) \/ size > Len(b) THEN <<>>
          ELSE FindData(b, p + 8 + size + (size % 2))

(* the format has to come first, chunks behind it are skipped *)
ParseHeader(F) ==
  LET b    == F.b
      p    == F.pos
      fmt  == Long(b, p + 16)
      nch  == Word(b, p + 22)
      bits == Word(b, p + 34)
      ok   == /\ Len(b) >= p + 44
              /\ Tag(b, p, "RIFF") /\ Tag(b, p + 8, "WAVE") /\ Tag(b, p + 12, "fmt ")
              /\ Word(b, p + 20) = 1 /\ bits \in {8, 16} /\ nch > 0
              /\ ~High(b, p + 16) /\ fmt >= 16 /\ fmt <= Len(b)
      d    == FindData(b, p + 36 + (fmt - 16) + (fmt % 2))
  IN IF Len(b) < p + 44 THEN None
     ELSE IF ~ok THEN None
     ELSE IF d = <<>> THEN None
     ELSE [ok |-> TRUE, nch |-> nch, rate |-> Long(b, p + 24), bits |-> bits, n |-> d[2] \div (nch * (bits \div 8)), at |-> d[1]]

(* frames that are not there any more are silent *)
WaveFrames(F, H) ==
  LET w == H.bits \div 8
      v(i) == LET p == H.at + i * w IN
              IF Len(F.b) < p + w THEN 0
              ELSE IF w = 1 THEN (F.b[p + 1] - 128) * 256
              ELSE LET x == Word(F.b, p) IN IF x > 32767 THEN x - 65536 ELSE x
  IN TLCEval([i \in 1..H.n * H.nch |-> v(i - 1)])

(* the harness gives the library no more memory than this at once *)
TooLarge(H) == H.n > 134217728 \div H.nch
=============================================================================
