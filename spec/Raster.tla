------------------------------- MODULE Raster -------------------------------
(* The raster machine: a glyph mask is drawn by a stream of operations        *)
(* executed one by one from the origin with full opacity.  An image is the    *)
(* set of its non-transparent pixels <<x, y, alpha>>.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Bit(c, k) == (c \div (2^k)) % 2 = 1
NzInt8(v) == IF v >= 128 THEN v - 256 ELSE v + 1     \* moves: never zero
NzUint8(v) == v + 1                                  \* lengths: never zero

(* operands of an operation, in stream order *)
NumArgs(c) == (IF Bit(c, 0) THEN 1 ELSE 0) + (IF Bit(c, 1) THEN 1 ELSE 0) + (IF Bit(c, 2) THEN 1 ELSE 0)
              + (IF Bit(c, 5) THEN 1 ELSE 0) + (IF ~Bit(c, 4) /\ Bit(c, 6) THEN 1 ELSE 0)
(* operations the format leaves undefined *)
Undefined(c) == \/ Bit(c, 2) /\ Bit(c, 3)                          \* move and row advance
                \/ Bit(c, 4) /\ Bit(c, 7)                          \* diagonal and single pixel
                \/ Bit(c, 4) /\ ~Bit(c, 5)                         \* diagonal without length
                \/ ~Bit(c, 4) /\ Bit(c, 7) /\ (Bit(c, 5) \/ Bit(c, 6)) \* pixel and lines

Origin == [x |-> 0, y |-> 0, a |-> 255, img |-> {}, zero |-> FALSE]

Paint(img, pts, a) == {p \in img : <<p[1], p[2]>> \notin pts} \cup {<<q[1], q[2], a>> : q \in pts}

(* effect of a defined operation with all its operands *)
Exec(s, c, args) ==
  LET i1 == IF Bit(c, 0) THEN 1 ELSE 0
      i2 == i1 + (IF Bit(c, 1) THEN 1 ELSE 0)
      i3 == i2 + (IF Bit(c, 2) THEN 1 ELSE 0)
      i5 == i3 + (IF Bit(c, 5) THEN 1 ELSE 0)
      i6 == i5 + (IF ~Bit(c, 4) /\ Bit(c, 6) THEN 1 ELSE 0)
      a == IF Bit(c, 0) THEN args[i1] ELSE s.a
      x == s.x + (IF Bit(c, 1) THEN NzInt8(args[i2]) ELSE 0)
      y == s.y + (IF Bit(c, 2) THEN NzInt8(args[i3]) ELSE 0) + (IF Bit(c, 3) THEN 1 ELSE 0)
      horz == IF Bit(c, 5) THEN NzUint8(args[i5]) ELSE 1
      vert == IF ~Bit(c, 4) /\ Bit(c, 6) THEN NzUint8(args[i6]) ELSE 1
      draws == Bit(c, 4) \/ Bit(c, 5) \/ Bit(c, 6) \/ Bit(c, 7)
      pts == IF ~draws THEN {}
             ELSE IF Bit(c, 4)
                  THEN IF Bit(c, 6)
                       THEN {<<x + i, y + horz - 1 - i>> : i \in 0..horz - 1}
                       ELSE {<<x + i, y + i>> : i \in 0..horz - 1}
                  ELSE {<<x + i, y + j>> : i \in 0..horz - 1, j \in 0..vert - 1}
  IN [x |-> IF draws THEN x + horz ELSE x, y |-> y, a |-> a,
      img |-> IF draws THEN Paint(s.img, pts, a) ELSE s.img,
      zero |-> s.zero \/ (Bit(c, 0) /\ args[i1] = 0)]

(* a whole stream: status "ok" or "bad" *)
RECURSIVE RunFrom(_, _, _)
RunFrom(code, i, s) ==
  IF i > Len(code) THEN [ok |-> TRUE, s |-> s]
  ELSE LET c == code[i]
           n == NumArgs(c)
       IN IF Undefined(c) \/ i + n > Len(code) THEN [ok |-> FALSE, s |-> s]
          ELSE RunFrom(code, i + n + 1, Exec(s, c, SubSeq(code, i + 1, i + n)))
RunCode(code) == RunFrom(code, 1, Origin)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE v \in S : \A w \in S : v <= w
MaxOf(S) == CHOOSE v \in S : \A w \in S : v >= w
(* tight rectangle of a set of pixels: minX, minY, maxX+1, maxY+1 *)
Tight(img) == LET xs == {p[1] : p \in img}
                  ys == {p[2] : p \in img}
              IN <<MinOf(xs), MinOf(ys), MaxOf(xs) + 1, MaxOf(ys) + 1>>
-----------------------------------------------------------------------------
(* Model: streams built operation by operation.  A second machine tracks only *)
(* the bounding box, as an implementation allocating the image first must do; *)
(* the model checks that both agree.                                          *)
CONSTANTS Ctrls, Vals, Moves, Alphas, MaxOps
VARIABLES s, box, nops
vars == <<s, box, nops>>
Init == s = Origin /\ box = <<>> /\ nops = 0

Grow(b, x0, y0, x1, y1) == IF b = <<>> THEN <<x0, y0, x1, y1>>
                           ELSE <<Min2(b[1], x0), Min2(b[2], y0), Max2(b[3], x1), Max2(b[4], y1)>>
(* the extent of the operation that moved the machine from s to t *)
BoxStep(c, args, t) ==
  LET draws == Bit(c, 4) \/ Bit(c, 5) \/ Bit(c, 6) \/ Bit(c, 7)
      n == Len(args)
      len1 == IF Bit(c, 5) THEN NzUint8(args[IF ~Bit(c, 4) /\ Bit(c, 6) THEN n - 1 ELSE n]) ELSE 1
      high == IF Bit(c, 4) THEN len1 ELSE IF Bit(c, 6) THEN NzUint8(args[n]) ELSE 1
  IN IF draws THEN Grow(box, t.x - len1, t.y, t.x, t.y + high) ELSE box

DoOp(c, args) == /\ nops < MaxOps /\ ~Undefined(c)
                 /\ s' = Exec(s, c, args)
                 /\ box' = BoxStep(c, args, s')
                 /\ nops' = nops + 1
(* values of the k-th operand: alphas, moves (Moves) and lengths (Vals) *)
ArgKind(c, k) == LET i1 == IF Bit(c, 0) THEN 1 ELSE 0
                     i3 == i1 + (IF Bit(c, 1) THEN 1 ELSE 0) + (IF Bit(c, 2) THEN 1 ELSE 0)
                 IN IF k <= i1 THEN "alpha" ELSE IF k <= i3 THEN "move" ELSE "length"
ArgVals(c, k) == CASE ArgKind(c, k) = "alpha" -> Alphas [] ArgKind(c, k) = "move" -> Moves [] OTHER -> Vals
Args(c, n) == {a \in [1..n -> Alphas \cup Moves \cup Vals] : \A k \in 1..n : a[k] \in ArgVals(c, k)}
Next == \E c \in Ctrls : ~Undefined(c) /\ \E args \in Args(c, NumArgs(c)) : DoOp(c, args)
BoxOK == IF s.img = {} THEN box = <<>> ELSE box = Tight(s.img)
OneAlpha == \A p, q \in s.img : p[1] = q[1] /\ p[2] = q[2] => p = q
=============================================================================
