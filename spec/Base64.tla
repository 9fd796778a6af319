------------------------------- MODULE Base64 ------------------------------
(* Standard base64 with canonical padding, and its IRC chunking.             *)
EXTENDS ByteSeq, Ascii
(* byte-string literals *)
bSym43 == B("+")
Alph64 == B("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
PAD == 61
(* value + 1 of each byte, 0 if it is not in the alphabet *)
Idx64 == SubSeq([b \in 1..255 |-> IF \E k \in 1..64 : Alph64[k] = b THEN CHOOSE k \in 1..64 : Alph64[k] = b ELSE 0], 1, 255)
Enc64(s) ==
  LET n == Len(s)
      groups == (n + 2) \div 3
      at(k) == IF k <= n THEN s[k] ELSE 0
      ch(j) ==                                     \* j-th output character, 1-based
        LET g == (j - 1) \div 4
            p == (j - 1) % 4
            a == at(3 * g + 1)
            b == at(3 * g + 2)
            c == at(3 * g + 3)
            v == CASE p = 0 -> a \div 4
                   [] p = 1 -> (a % 4) * 16 + b \div 16
                   [] p = 2 -> (b % 16) * 4 + c \div 64
                   [] OTHER -> c % 64
        IN  IF (p = 2 /\ 3 * g + 2 > n) \/ (p = 3 /\ 3 * g + 3 > n) THEN PAD ELSE Alph64[v + 1]
  IN  SubSeq([j \in 1..(4 * groups) |-> ch(j)], 1, 4 * groups)
Pads(s) == IF Len(s) >= 2 /\ s[Len(s)] = PAD /\ s[Len(s) - 1] = PAD THEN 2
           ELSE IF Len(s) >= 1 /\ s[Len(s)] = PAD THEN 1 ELSE 0
(* Decoding: << >> if malformed, <<bytes>> otherwise. *)
Dec64(s) ==
  LET n == Len(s)
      pd == Pads(s)
      body == n - pd
      v(k) == IF k <= body THEN Idx64[s[k]] - 1 ELSE 0
      len == (n \div 4) * 3 - pd
      by(j) ==
        LET g == (j - 1) \div 3
            p == (j - 1) % 3
            w == v(4 * g + 1)
            x == v(4 * g + 2)
            y == v(4 * g + 3)
            z == v(4 * g + 4)
        IN  CASE p = 0 -> w * 4 + x \div 16
              [] p = 1 -> (x % 16) * 16 + y \div 4
              [] OTHER -> (y % 4) * 64 + z
  IN  IF n % 4 # 0 \/ (\E k \in 1..body : IF s[k] = 0 THEN TRUE ELSE Idx64[s[k]] = 0) THEN << >>
      ELSE IF pd = 2 /\ v(body) % 16 # 0 THEN << >>
      ELSE IF pd = 1 /\ v(body) % 4 # 0 THEN << >>
      ELSE <<SubSeq([j \in 1..len |-> by(j)], 1, len)>>
(* A byte string as the chunks of an exchange: at most max characters each,  *)
(* ended by a shorter chunk ("+" if nothing is left for it).                 *)
RECURSIVE Cut(_, _)
Cut(s, max) ==
  IF Len(s) < max THEN <<IF s = << >> THEN bSym43 ELSE s>>
  ELSE <<Upto(s, max)>> \o Cut(From(s, max + 1), max)
Chunks(bytes, max) == IF max = 0 THEN << >> ELSE Cut(Enc64(bytes), max)
(* One step of the decoder: buffer, chunk -> still buffering or a result.    *)
Feed64(buf, chunk, max) ==
  IF Len(chunk) >= max THEN [done |-> FALSE, buf |-> buf \o chunk, res |-> << >>]
  ELSE [done |-> TRUE, buf |-> << >>, res |-> Dec64(IF chunk = bSym43 THEN buf ELSE buf \o chunk)]
=============================================================================
