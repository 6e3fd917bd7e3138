------------------------------ MODULE KernelLib ------------------------------
(* Directional difference kernels, filtering with borders, and the gradient   *)
(* similarity built from them.  Offsets count from the centre of the kernel;  *)
(* images are flat sequences in row-major order.                              *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Ab(x) == IF x < 0 THEN -x ELSE x
LOCAL Sg(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
(* axis: [kind |-> "axis", a, s]; diagonal of a plane: [kind, a, b, sa, sb]   *)
Axis(f, n, a, s) == [kind |-> "axis", f |-> f, n |-> n, a |-> a, s |-> s]
Diag(f, n, a, b, sa, sb) == [kind |-> "diag", f |-> f, n |-> n, a |-> a, b |-> b, sa |-> sa, sb |-> sb]
Kernels ==
  [gsm_kernel_x |-> Axis("gsm", 3, 1, 1), gsm_kernel_y |-> Axis("gsm", 3, 2, 1), gsm_kernel_z |-> Axis("gsm", 3, 3, 1),
   sobel_kernel_x |-> Axis("sobel", 3, 1, 1), sobel_kernel_y |-> Axis("sobel", 3, 2, 1), sobel_kernel_z |-> Axis("sobel", 3, 3, 1),
   scharr_kernel_x |-> Axis("scharr", 3, 1, 1), scharr_kernel_y |-> Axis("scharr", 3, 2, 1), scharr_kernel_z |-> Axis("scharr", 3, 3, 1),
   prewitt_kernel_x |-> Axis("prewitt", 3, 1, 1), prewitt_kernel_y |-> Axis("prewitt", 3, 2, 1), prewitt_kernel_z |-> Axis("prewitt", 3, 3, 1),
   gsm_kernel_xy1 |-> Diag("gsm", 3, 1, 2, 1, 1), gsm_kernel_xy2 |-> Diag("gsm", 3, 1, 2, -1, 1),
   gsm_kernel_yz1 |-> Diag("gsm", 3, 2, 3, 1, 1), gsm_kernel_yz2 |-> Diag("gsm", 3, 2, 3, 1, -1),
   gsm_kernel_xz1 |-> Diag("gsm", 3, 1, 3, 1, 1), gsm_kernel_xz2 |-> Diag("gsm", 3, 1, 3, -1, 1),
   gsm_kernel_xyz1 |-> Diag("wide", 3, 2, 3, 1, -1), gsm_kernel_xyz2 |-> Diag("wide", 3, 2, 3, 1, 1),
   gsm_kernel_xyz3 |-> Diag("wide", 3, 1, 3, -1, -1), gsm_kernel_xyz4 |-> Diag("wide", 3, 1, 2, 1, 1),
   gsm_kernel_2d_x |-> Axis("gsm", 2, 2, 1), gsm_kernel_2d_y |-> Axis("gsm", 2, 1, 1),
   gsm_kernel_2d_xy |-> Diag("gsm", 2, 1, 2, 1, -1), gsm_kernel_2d_yx |-> Diag("gsm", 2, 1, 2, 1, 1),
   sobel_kernel_2d_x |-> Axis("sobel", 2, 2, -1), sobel_kernel_2d_y |-> Axis("sobel", 2, 1, -1),
   scharr_kernel_2d_x |-> Axis("scharr", 2, 2, -1), scharr_kernel_2d_y |-> Axis("scharr", 2, 1, -1),
   prewitt_kernel_2d_x |-> Axis("prewitt", 2, 2, -1), prewitt_kernel_2d_y |-> Axis("prewitt", 2, 1, -1)]
(* in the order in which the gradient similarity prefers them *)
Order(nd) == IF nd = 2
  THEN <<"gsm_kernel_2d_x", "gsm_kernel_2d_y", "gsm_kernel_2d_xy", "gsm_kernel_2d_yx">>
  ELSE <<"gsm_kernel_x", "gsm_kernel_y", "gsm_kernel_z", "gsm_kernel_xy1", "gsm_kernel_xy2", "gsm_kernel_yz1", "gsm_kernel_yz2",
         "gsm_kernel_xz1", "gsm_kernel_xz2", "gsm_kernel_xyz1", "gsm_kernel_xyz2", "gsm_kernel_xyz3", "gsm_kernel_xyz4">>
Half(k) == IF k.f \in {"gsm", "wide"} THEN 2 ELSE 1
Rng(k) == (0 - Half(k))..Half(k)
Offsets(k) == [1..k.n -> Rng(k)]
Others(k, o) == LET RECURSIVE D(_) D(i) == IF i > k.n THEN 0 ELSE (IF i = k.a THEN 0 ELSE Ab(o[i])) + D(i + 1) IN D(1)
RECURSIVE Prewitt(_, _, _)
Prewitt(k, o, i) ==                 \* the 3D kernels act in one plane
  IF i > k.n THEN 1 ELSE IF i # k.a /\ o[i] # 0 /\ k.n = 3 /\ i # (IF k.a = 2 THEN 3 ELSE 2) THEN 0 ELSE Prewitt(k, o, i + 1)
AxisW(k, o) ==
  IF Ab(o[k.a]) # 1 THEN 0
  ELSE LET d == Others(k, o)
       IN k.s * Sg(o[k.a]) *
          (CASE k.f = "gsm" -> (CASE d = 0 -> 8 [] d = 1 -> 3 [] d = 2 -> 1 [] OTHER -> 0)
             [] k.f = "sobel" -> (CASE d = 0 -> 2 [] d = 1 -> 1 [] OTHER -> 0)
             [] k.f = "scharr" -> (IF k.n = 2 THEN (CASE d = 0 -> 10 [] OTHER -> 3)
                                   ELSE (CASE d = 0 -> 162 [] d = 1 -> 47 [] OTHER -> 0))
             [] OTHER -> Prewitt(k, o, 1))
Third(k, o) == IF k.n = 2 THEN 0 ELSE Ab(o[6 - k.a - k.b])
DiagW(k, o) ==
  LET u == k.sa * o[k.a]
      v == k.sb * o[k.b]
      p == u + v
      c == Third(k, o)
      in(x, y) == (u = x /\ v = y) \/ (u = y /\ v = x) \/ (u = -x /\ v = -y) \/ (u = -y /\ v = -x)
  IN Sg(p) *
     (IF k.f = "gsm"
      THEN (CASE in(1, 1) -> (CASE c = 0 -> 8 [] c = 1 -> 3 [] OTHER -> 1)
              [] in(1, 0) -> (CASE c = 0 -> 3 [] c = 1 -> 1 [] OTHER -> 0)
              [] in(2, 0) -> (IF c = 0 THEN 1 ELSE 0)
              [] OTHER -> 0)
      ELSE (CASE c = 0 -> (CASE in(1, 1) -> 8 [] in(2, 0) -> 1 [] OTHER -> 0)
              [] c = 1 -> (IF in(1, 0) THEN 3 ELSE 0)
              [] OTHER -> (IF in(1, 1) \/ in(2, -1) THEN 1 ELSE 0)))
Weight(k, o) == IF k.kind = "axis" THEN AxisW(k, o) ELSE DiagW(k, o)
Edge(k) == 2 * Half(k) + 1
(* entries in row-major order *)
Entry(k, i) == LET e == Edge(k)
                   o == [a \in 1..k.n |-> ((i \div (IF k.n - a = 0 THEN 1 ELSE IF k.n - a = 1 THEN e ELSE e * e)) % e) - Half(k)]
               IN Weight(k, o)
Count(k) == IF k.n = 2 THEN Edge(k) * Edge(k) ELSE Edge(k) * Edge(k) * Edge(k)
Flat(k) == [i \in 1..Count(k) |-> Entry(k, i - 1)]
(* where index i of an axis with n pixels is taken from; -1: outside *)
Border(mode, i, n) ==
  IF i >= 0 /\ i < n THEN i
  ELSE CASE mode = "constant" -> -1
         [] mode = "nearest" -> (IF i < 0 THEN 0 ELSE n - 1)
         [] mode = "wrap" -> i % n
         [] mode = "mirror" -> LET j == i % (2 * n) IN IF j < n THEN j ELSE 2 * n - 1 - j        \* edges repeated
         [] OTHER -> IF n = 1 THEN 0 ELSE LET j == i % (2 * n - 2) IN IF j < n THEN j ELSE 2 * n - 2 - j
RECURSIVE IndexR(_, _, _, _, _)
IndexR(shape, x, mode, a, acc) ==
  IF a > Len(shape) THEN acc
  ELSE LET j == Border(mode, x[a], shape[a])
       IN IF j < 0 THEN -1 ELSE IndexR(shape, x, mode, a + 1, acc * shape[a] + j)
Pixel(img, shape, x, mode, value) == LET i == IndexR(shape, x, mode, 1, 0) IN IF i < 0 THEN value ELSE img[i + 1]
RECURSIVE Coord(_, _, _)
Coord(shape, i, a) ==
  IF a = 0 THEN <<>> ELSE Append(Coord(shape, i \div shape[a], a - 1), i % shape[a])
Plus(x, o) == [a \in 1..Len(x) |-> x[a] + o[a]]
(* nonzero entries as a sequence of <<offset, weight>> *)
RECURSIVE Seq1(_)
Seq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Seq1(S \ {x})
Sparse(k) == Seq1({<<o, Weight(k, o)>> : o \in {q \in Offsets(k) : Weight(k, q) # 0}})
RECURSIVE RespR(_, _, _, _, _, _)
RespR(sp, img, shape, x, i, acc) ==
  IF i > Len(sp) THEN acc
  ELSE RespR(sp, img, shape, x, i + 1, acc + sp[i][2] * Pixel(img, shape, Plus(x, sp[i][1]), "mirror", 0))
Response(sp, img, shape) == [i \in 1..Len(img) |-> RespR(sp, img, shape, Coord(shape, i - 1, Len(shape)), 1, 0)]
RECURSIVE SumAbs(_, _)
SumAbs(q, i) == IF i > Len(q) THEN 0 ELSE Ab(q[i]) + SumAbs(q, i + 1)
RECURSIVE MaxAbs(_, _, _)
MaxAbs(q, i, m) == IF i > Len(q) THEN m ELSE MaxAbs(q, i + 1, IF Ab(q[i]) > m THEN Ab(q[i]) ELSE m)
Sp2 == [i \in 1..4 |-> Sparse(Kernels[Order(2)[i]])]
Sp3 == [i \in 1..13 |-> Sparse(Kernels[Order(3)[i]])]
(* the response with the largest mean of absolute values, the first of several *)
RECURSIVE BestR(_, _, _, _, _)
BestR(sps, img, shape, i, best) ==
  IF i > Len(sps) THEN best
  ELSE LET g == Response(sps[i], img, shape)
           s == SumAbs(g, 1)
       IN BestR(sps, img, shape, i + 1, IF i = 1 \/ s > best.s THEN [g |-> g, s |-> s] ELSE best)
Best(img, shape) == BestR(IF Len(shape) = 2 THEN Sp2 ELSE Sp3, img, shape, 1, [g |-> <<>>, s |-> 0])
(* similarity of structure at a pixel as a fraction: gradients gr, gm of the  *)
(* images, g of the one with more gradient, G the largest one, c masking      *)
SimNum(gr, gm, g, G, c) == 2 * (g - Ab(gr - gm)) * g * G + c * g * g
SimDen(gr, gm, g, G, c) == g * g * G + (g - Ab(gr - gm)) * (g - Ab(gr - gm)) * G + c * g * g
=============================================================================
