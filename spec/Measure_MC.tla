----------------------------- MODULE Measure_MC -----------------------------
(* A 3x2 picture changed pixel by pixel (9 is nodata) and measured, two      *)
(* 2x2 pictures compared: what the definitions must satisfy.                 *)
EXTENDS Measure, TLC, Json
CONSTANTS Vals, Steps
VARIABLES v, p, q, hist
vars == <<v, p, q, hist>>
B(w) == [nx |-> 3, ny |-> 2, v |-> w]
Init == v = <<1, 1, 1, 1, 1, 1>> /\ p \in [1..4 -> {0, 1, 2}] /\ q = <<0, 1, 2, 2>> /\ hist = <<>>
Put(k, x) == Len(hist) < Steps /\ v' = [v EXCEPT ![k] = x] /\ hist' = Append(hist, <<k, x>>) /\ UNCHANGED <<p, q>>
Flip(k, x) == Len(hist) = 0 /\ q' = [q EXCEPT ![k] = x] /\ q' # q /\ v' = v /\ p' = p /\ hist' = Append(hist, <<0, 0>>) \o <<<<0, 0>>, <<0, 0>>>>
Next == (p = [k \in 1..4 |-> k % 3] /\ \E k \in 1..6, x \in Vals : Put(k, x)) \/ (\E k \in 1..4, x \in {0, 1, 2} : Flip(k, x))
Spec == Init /\ [][Next]_vars

Centres2 == {<<x, y>> : x \in -3..5, y \in -3..4}
MeanIsWithin == \A c \in Centres2, w \in 1..4 :
   LET d == Data(B(v), Window(B(v), c[1], c[2], w), 9)  m == MeanOf(d)
   IN IF d = <<>> THEN m = "nan" ELSE RLe(RMinOf(d), m) /\ RLe(m, RMaxOf(d)) /\ Len(d) <= w * w
OneIsThePixel == \A x \in 0..2, y \in 0..1 : Window(B(v), x, y, 1) = <<(3 * y) + x + 1>>
OddIsCentred == \A x \in 0..2, y \in 0..1 : LET i == Window(B(v), x, y, 3) IN \A k \in 1..Len(i) : ((i[k] - 1) % 3) - x \in {-1, 0, 1}
WideIsEverything == \A w \in 6..9 : Len(Window(B(v), 1, 1, w)) = 6
FarOffIsNothing == \A w \in {1, 2, 3, 4} : WindowMean(B(v), -w, 0, w, 9) = "nan" /\ WindowMean(B(v), 3 + w, 1, w, 9) = "nan" /\ WindowMean(B(v), 1, 2 + w, w, 9) = "nan"
WideSeesAll == WindowMean(B(v), 1, 1, 9, 9) = MeanOf(SelectSeq(v, LAMBDA x : x # 9))
MissingDoesNotCount == \A k \in 1..6 : v[k] = 9 => \A c \in Centres2 : LET i == Window(B(v), c[1], c[2], 4) IN Len(Data(B(v), i, 9)) <= Len(i)
                                                   /\ ((\E j \in 1..Len(i) : i[j] = k) => Len(Data(B(v), i, 9)) < Len(i))
Varies(s) == \E i, j \in 1..4 : s[i] # s[j]
Tiny == "1/1000000000000000000000"
Symmetric == RClose(AgreementOfBins(p, q), AgreementOfBins(q, p), Tiny)
BestWithItself == RLe(AgreementOfBins(p, q), RAdd(AgreementOfBins(p, p), Tiny))
Turned(s) == <<s[2], s[3], s[4], s[1]>>
OrderOfPixelsIsNoMatter == RClose(AgreementOfBins(p, q), AgreementOfBins(Turned(p), Turned(q)), Tiny)
StretchIsNoMatter == (Varies(p) /\ Varies(q)) => RClose(Agreement(p, q, 8), Agreement([k \in 1..4 |-> 5 + 3 * p[k]] \o <<>>, q, 8), Tiny)
ASSUME /\ RClose(Ln(2), RMul(2, RDiv(Ln(4), 4)), Tiny) /\ RClose(Ln("1/3"), RNeg(Ln(3)), Tiny) /\ RClose(RAdd(Ln("7/5"), Ln("5/7")), 0, Tiny)
       /\ RClose(RAdd(Ln(6), Ln(35)), RAdd(Ln(14), Ln(15)), Tiny) /\ RClose(Ln(10), "2302585092994045684017991/1000000000000000000000000", Tiny)
Emit == (Len(hist) = Steps /\ hist[1][1] # 0) => PrintT("@@BEH " \o ToJson(v))
=============================================================================
