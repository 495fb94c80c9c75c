--------------------------- MODULE DenseAlgebraMC ---------------------------
(* The operators of the specification satisfy the laws of matrix algebra, for *)
(* all pairs of small matrices; the register machine touches one register.    *)
EXTENDS DenseAlgebra
CONSTANT Vals
NegVals == {-1, 0, 1}
VARIABLES shp, last
vars == <<regs, shp, last>>
X == <<shp[1], shp[2], 1>>
Y == <<shp[2], shp[3], 2>>
Init == /\ shp \in {<<2, 2, 2>>, <<1, 2, 2>>, <<2, 1, 2>>, <<2, 2, 1>>, <<3, 1, 2>>}
        /\ \E a \in [1..(shp[1] * shp[2]) -> Vals], b \in [1..(shp[2] * shp[3]) -> Vals] :
             regs = [n \in Names |-> IF n = X THEN a ELSE IF n = Y THEN b ELSE Zeros(n[1] * n[2])]
        /\ last = "init"
DoMul == /\ last = "init" /\ Put(<<shp[1], shp[3], 3>>, MulM(regs[X], regs[Y], shp[1], shp[2], shp[3]))
         /\ last' = "mul" /\ UNCHANGED shp
DoTrans == /\ last \in {"init", "mul"} /\ Put(<<shp[2], shp[1], 3>>, TransM(regs[X], shp[1], shp[2]))
           /\ last' = "trans" /\ UNCHANGED shp
Next == DoMul \/ DoTrans
Spec == Init /\ [][Next]_vars
TransposedProduct ==
  TransM(MulM(regs[X], regs[Y], shp[1], shp[2], shp[3]), shp[1], shp[3])
    = MulM(TransM(regs[Y], shp[2], shp[3]), TransM(regs[X], shp[1], shp[2]), shp[3], shp[2], shp[1])
UnfitIsMul == UnfitM(regs[X], regs[Y], shp[1], shp[2], shp[2], shp[3]) = MulM(regs[X], regs[Y], shp[1], shp[2], shp[3])
Multiplicative == shp = <<2, 2, 2>> =>
  /\ Det(MulM(regs[X], regs[Y], 2, 2, 2), 2) = Det(regs[X], 2) * Det(regs[Y], 2)
  /\ MulM(regs[X], Adj(regs[X], 2), 2, 2, 2) = [k \in 1..4 |-> Det(regs[X], 2) * IdM(2)[k]]
  /\ Det(Gram(regs[X], 2, 2), 2) = Det(regs[X], 2) * Det(regs[X], 2)
Trichotomy == shp = <<2, 2, 2>> =>
  LET a == regs[X] b == regs[Y] IN
  Cardinality({k \in 1..3 : (k = 1 /\ LexLess(a, b)) \/ (k = 2 /\ LexLess(b, a)) \/ (k = 3 /\ a = b)}) = 1
CrossLaws == shp = <<3, 1, 2>> =>
  LET u == regs[X] v == <<regs[Y][1], regs[Y][2], 1>> IN
  ScalarProd(u, CrossM(u, v)) = 0 /\ ScalarProd(v, CrossM(u, v)) = 0 /\ CrossM(u, u) = Zeros(3)
Cramer == shp = <<2, 2, 1>> =>
  LET a == regs[X] b == regs[Y] x == MulM(Adj(a, 2), b, 2, 2, 1) IN
  MulM(a, x, 2, 2, 1) = [k \in 1..2 |-> Det(a, 2) * b[k]]
NormLaws == Norm1(regs[X], shp[1], shp[2]) = NormInf(TransM(regs[X], shp[1], shp[2]), shp[2], shp[1])
Frame == \A n \in Names : n \notin {X, Y} /\ n[3] # 3 => regs[n] = Zeros(n[1] * n[2])
=============================================================================
