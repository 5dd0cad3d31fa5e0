---------------------------- MODULE ReedSolomon -----------------------------
(***************************************************************************)
(* Reed-Solomon codes as QR uses them: a block is the coefficient sequence *)
(* (highest power first) of a polynomial that vanishes at alpha^0 ..       *)
(* alpha^(npar-1).  `Correct` is a bounded distance decoder: syndromes,    *)
(* Berlekamp-Massey, root search, error values by solving with Forney's    *)
(* formula, verification.                                                  *)
(***************************************************************************)
EXTENDS GF

Syndromes(blk, npar) == [i \in 1 .. npar |-> EvalHi(blk, i - 1)]
AllZero(s) == \A i \in 1 .. Len(s) : s[i] = 0
IsCodeword(blk, npar) == \A i \in 0 .. npar - 1 : EvalHi(blk, i) = 0
Dist(a, b) == LET D == { i \in 1 .. Len(a) : a[i] # b[i] } IN
              FoldLeft(LAMBDA acc, i : IF i \in D THEN acc + 1 ELSE acc, 0, [i \in 1 .. Len(a) |-> i])

(* Generator polynomial, highest power first: product of (x - alpha^i).    *)
Generator(npar) ==
  FoldLeft(LAMBDA g, i :
             LET n == Len(g) IN
             TLCEval([k \in 1 .. n + 1 |->
                (IF k <= n THEN g[k] ELSE 0) ^^ (IF k > 1 THEN MulExp(g[k - 1], i) ELSE 0)]),
           <<1>>, [i \in 1 .. npar |-> i - 1])

(* Parity of a data sequence: remainder of data * x^npar by the generator. *)
ParityG(data, npar, g) ==
  FoldLeft(LAMBDA rem, d :
             LET f == d ^^ rem[1] IN
             TLCEval([k \in 1 .. npar |->
                (IF k < npar THEN rem[k + 1] ELSE 0) ^^ Mul(f, g[k + 1])]),
           [k \in 1 .. npar |-> 0], data)
Parity(data, npar) == ParityG(data, npar, TLCEval(Generator(npar)))

(* Berlekamp-Massey.  c, b: connection polynomials, constant term first,   *)
(* padded to npar+1.                                                       *)
BM(s) ==
  LET n == Len(s)
      At(p, k) == IF k >= 1 /\ k <= n + 1 THEN p[k] ELSE 0
      step(st, k) ==
        LET d == FoldLeft(LAMBDA acc, i : acc ^^ Mul(st.c[i + 1], s[k - i]), s[k],
                          [i \in 1 .. st.l |-> i])
            q == Div(d, st.bd)
            newc == [i \in 1 .. n + 1 |-> st.c[i] ^^ Mul(q, At(st.b, i - st.m))]
        IN IF d = 0 THEN [st EXCEPT !.m = @ + 1]
           ELSE IF 2 * st.l <= k - 1
                THEN TLCEval([c |-> newc, b |-> st.c, l |-> k - st.l, m |-> 1, bd |-> d])
                ELSE TLCEval([st EXCEPT !.c = newc, !.m = @ + 1])
  IN FoldLeft(step,
              TLCEval([c |-> [i \in 1 .. n + 1 |-> IF i = 1 THEN 1 ELSE 0],
                       b |-> [i \in 1 .. n + 1 |-> IF i = 1 THEN 1 ELSE 0],
                       l |-> 0, m |-> 1, bd |-> 1]),
              [k \in 1 .. n |-> k])

Degree(p) == LET S == { i \in 1 .. Len(p) : p[i] # 0 } IN (CHOOSE i \in S : \A j \in S : j <= i) - 1

(* Unverified correction: positions whose locator is a root of sigma get   *)
(* the error value of Forney's formula.  (First consecutive root alpha^0.) *)
Forney(blk, s, sigma) ==
  LET npar == Len(s)
      len == Len(blk)
      deg == Degree(sigma)
      omega == TLCEval([k \in 1 .. npar |->
                 FoldLeft(LAMBDA acc, i : acc ^^ Mul(sigma[i], s[k - i + 1]), 0,
                          [i \in 1 .. (IF k < deg + 1 THEN k ELSE deg + 1) |-> i])])
      (* formal derivative, constant term first *)
      deriv == TLCEval([k \in 1 .. npar |-> IF k % 2 = 1 THEN sigma[k + 1] ELSE 0])
      (* block position p (1-based) carries power len - p *)
      roots == TLCEval({ p \in 1 .. len : EvalLo(sigma, N1 - ((len - p) % N1)) = 0 })
      Val(p) == LET xi == N1 - ((len - p) % N1)
                    den == EvalLo(deriv, xi)
                IN IF den = 0 THEN 0
                   ELSE MulExp(Div(EvalLo(omega, xi), den), len - p)
  IN [blk |-> [p \in 1 .. len |-> IF p \in roots THEN blk[p] ^^ Val(p) ELSE blk[p]],
      nroots |-> Len(SetToSeq(roots)), deg |-> deg]

(* Outcome of correcting one received block:                               *)
(*   within : a codeword at distance <= npar/2 exists and is cw            *)
(*   beyond : none exists, but the locator still leads to a codeword cw;   *)
(*            an implementation may refuse or accept it                    *)
(*   fail   : uncorrectable                                                *)
Correct(blk, npar) ==
  LET s == TLCEval(Syndromes(blk, npar)) IN
  IF AllZero(s) THEN [tag |-> "within", cw |-> blk]
  ELSE LET bm == TLCEval(BM(s))
           f == TLCEval(Forney(blk, s, bm.c))
           ok == IsCodeword(f.blk, npar)
       IN IF ok
          THEN IF 2 * f.deg <= npar /\ f.nroots = f.deg
               THEN [tag |-> "within", cw |-> f.blk]
               ELSE [tag |-> "beyond", cw |-> f.blk]
          ELSE [tag |-> "fail", cw |-> << >>]
=============================================================================
