----------------------------- MODULE MC_Format ------------------------------
(* The parser run on every font of a catalog, on all its proper prefixes and   *)
(* on extensions.  The catalog combines alternatives of five groups of         *)
(* sections; Choices bounds how many groups differ from the plain font.        *)
EXTENDS Format
CONSTANT Choices
VARIABLES pick, len, data, s

Header == {[fmt |-> 2, id |-> i, major |-> 0, minor |-> 1, dates |-> <<<<0, 0, 0>>, <<2024, 2, 29>>, <<65535, 12, 31>>>>,
            name |-> n, family |-> f, author |-> a, about |-> b] :
             <<i, n, f, a, b>> \in {<<<<181, 233, 172, 104, 36, 240, 87, 19>>, <<65>>, <<>>, <<>>, <<>>>>,
                                    <<<<27, 228, 27, 228, 27, 228, 27, 228>>, <<65, 66>>, <<67>>, <<68, 0>>, <<1, 2, 3>>>>,
                                    <<<<0, 0, 27, 228, 27, 228, 255, 85>>, <<0>>, <<>>, <<9>>, <<>>>>}}
Metrics(ng, vert) == [ng |-> ng, vert |-> vert, rest |-> <<0, 9, 9, 5, 1, 9, 4, 1, IF vert THEN 3 ELSE 0, 2, 7, 1>>]
Glyphs == {[metrics |-> Metrics(1, FALSE), placements |-> <<<<5, 0, 0, 0>>>>, masks |-> <<<<>>>>, names |-> <<>>, kern |-> <<>>, vkern |-> <<>>],
           [metrics |-> Metrics(2, FALSE), placements |-> <<<<5, 0, 0, 0>>, <<0, 0, 0, 0>>>>, masks |-> <<<<128>>, <<96, 1, 2>>>>,
            names |-> <<<<<<97>>, 1>>>>, kern |-> <<<<0, 1, -128>>>>, vkern |-> <<>>],
           [metrics |-> Metrics(2, TRUE), placements |-> <<<<5, 6, 7, 8>>, <<0, 0, 0, 255>>>>, masks |-> <<<<>>, <<33, 7, 1>>>>,
            names |-> <<<<<<97>>, 1>>, <<<<97, 98>>, 0>>>>, kern |-> <<<<0, 0, 1>>, <<1, 0, 127>>>>, vkern |-> <<<<0, 1, -1>>, <<1, 1, 0>>>>]}
Colors0 == {[dyes |-> <<>>, palettes |-> <<>>],
            [dyes |-> <<[name |-> <<77>>, colors |-> <<<<255>>>>]>>, palettes |-> <<>>],
            [dyes |-> <<[name |-> <<77>>, colors |-> <<<<255>>, <<0>>>>], [name |-> <<78, 79>>, colors |-> <<<<9>>>>]>>,
             palettes |-> <<[name |-> <<80>>, colors |-> <<<<1, 2, 3, 4>>, <<5, 6, 7, 8>>>>]>>]}
Settings == {[words |-> <<>>, settings |-> <<>>, switches |-> <<>>, mapping |-> <<>>, conds |-> <<>>],
             [words |-> <<<<119>>>>, settings |-> <<[name |-> <<115>>, opts |-> <<0, 16>>]>>, switches |-> <<<<0>>>>,
              mapping |-> <<<<65, <<255, 1, 0>>>>>>, conds |-> <<<<96, 0>>>>],
             [words |-> <<<<119>>, <<120, 121>>>>, settings |-> <<[name |-> <<115>>, opts |-> <<0>>], [name |-> <<116, 45>>, opts |-> <<1, 1, 200>>]>>,
              switches |-> <<<<1>>, <<0, 1>>>>,
              mapping |-> <<<<32, <<254, 0, 1, 0>>>>, <<66, <<0, 0, 1, 0, 129, 9, 0, 0, 0, 2, 0>>>>, <<70000, <<1, 0, 0, 0, 0, 1, 0, 0, 1, 0>>>>>>,
              conds |-> <<<<97, 1>>, <<2, 64, 0, 1, 128, 1>>>>]}
Rewrites == {[rsets |-> <<>>, gsets |-> <<>>, urules |-> <<>>, grules |-> <<>>],
             [rsets |-> <<<<0, 1, 97, 0, 0, 0>>>>, gsets |-> <<<<1, 0, 0, 1, 0>>>>, urules |-> <<<<255, 0, 1, 0, 1, 98, 0, 0, 0, 0, 16, 0, 0>>>>,
              grules |-> <<<<255, 0, 1, 0, 1, 1, 0, 0, 1, 0, 0>>>>],
             [rsets |-> <<<<1, 97, 0, 0, 0, 25, 0>>, <<0, 2, 65, 0, 0, 0, 255, 255, 16, 0>>>>, gsets |-> <<<<0, 0>>, <<1, 0, 0, 255, 1, 5, 0>>>>,
              urules |-> <<>>, grules |-> <<<<0, 1, 1, 1, 2, 1, 0, 2, 0, 1, 1, 0, 16, 0, 1, 0, 0>>, <<255, 0, 1, 0, 0, 0, 1, 0, 0>>>>]}
H0 == CHOOSE x \in Header : Len(x.name) = 1 /\ x.author = <<>>
G0 == CHOOSE x \in Glyphs : x.metrics.ng = 1
C0 == CHOOSE x \in Colors0 : x.dyes = <<>>
S0 == CHOOSE x \in Settings : x.words = <<>>
R0 == CHOOSE x \in Rewrites : x.rsets = <<>>
Value(p) == p[1] @@ p[2] @@ p[3] @@ p[4] @@ p[5]
B(x) == IF x THEN 1 ELSE 0
Picks == {p \in {[header |-> h] : h \in Header} \X Glyphs \X Colors0 \X Settings \X Rewrites :
            B(p[1].header # H0) + B(p[2] # G0) + B(p[3] # C0) + B(p[4] # S0) + B(p[5] # R0) <= Choices}
Whole(p) == Write(Value(p))
Init == /\ pick \in Picks
        /\ LET w == Whole(pick)
           IN \E k \in 0..Len(w) + 2 : /\ len = k - Len(w)
                                       /\ data = IF k <= Len(w) THEN SubSeq(w, 1, k) ELSE w \o [i \in 1..k - Len(w) |-> (k + i) % 2]
        /\ s = Start
Next == s.st = "run" /\ s' = Step(Plain(data), s) /\ UNCHANGED <<pick, len, data>>
(* what has been consumed was there, and sections never overlap *)
Bounds == s.pos <= Len(data) /\ s.sec <= Len(Sections) + 1
          /\ \A i \in 1..Len(s.offs) : (i > 1 => s.offs[i - 1] < s.offs[i]) /\ s.offs[i] <= s.pos
(* only the whole font is a font; it says what was written *)
Verdict == s.st = "ok" => len = 0
Accepted == len = 0 => s.st # "bad"
SameView == s.st = "ok" => View(Plain(data)) = Value(pick)
Progress == <>(s.st # "run")
Spec == Init /\ [][Next]_<<pick, len, data, s>> /\ WF_<<pick, len, data, s>>(Next)
=============================================================================
