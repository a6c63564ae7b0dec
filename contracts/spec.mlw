module Spec
  use base.Base

  function step (o: option nt) (v: nt): option nt = match o with None -> Some v | Some w -> Some (addf w v) end

  (* contribution to column c of  a * B[row with entries lo..hi), accumulated left to right onto o *)
  let rec ghost function foldk (o: option nt) (a: nt) (bc: imap) (bv: vmap) (lo hi c:int) : option nt
    variant {hi - lo} = if hi <= lo then o else
     let r = foldk o a bc bv lo (hi-1) c in if bc[hi-1]=c then step r (mulf a bv[hi-1]) else r

  (* column c of the product row: entries lo..hi of A's row, in order *)
  let rec ghost function foldj (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (lo hi c:int) : option nt
    variant {hi - lo} = if hi <= lo then None else
     foldk (foldj ac av bp bc bv lo (hi-1) c) (av[hi-1]) bc bv (bp[ac[hi-1]]) (bp[ac[hi-1]+1]) c

  predicate wf_rowptr (p: imap) (n nnz: int) = 0 <= n /\ p[0] = 0 /\ p[n] = nnz /\ (forall i j. 0 <= i <= j <= n -> p[i] <= p[j])
  predicate in_range (c: imap) (nnz n: int) = forall i. 0 <= i < nnz -> 0 <= c[i] < n

  (* number of mask entries in lo..hi whose column has a product *)
  let rec ghost function rank (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo hi:int) : int
    variant {hi-lo} = if hi <= lo then 0 else rank ac av bp bc bv alo ahi mc lo (hi-1) + (match foldj ac av bp bc bv alo ahi mc[hi-1] with None -> 0 | _ -> 1 end)

  let rec lemma rank_bounds (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo hi:int)
    requires { lo <= hi }
    ensures { 0 <= rank ac av bp bc bv alo ahi mc lo hi <= hi - lo }
    variant { hi - lo }
  = if lo < hi then rank_bounds ac av bp bc bv alo ahi mc lo (hi-1)

  let rec ghost rank_mono (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo p hi:int)
    requires { lo <= p <= hi }
    ensures { rank ac av bp bc bv alo ahi mc lo p <= rank ac av bp bc bv alo ahi mc lo hi }
    variant { hi - p }
  = if p < hi then rank_mono ac av bp bc bv alo ahi mc lo p (hi-1)

  (* positions p of mc in lo..hi whose column is in state v *)
  let rec ghost function cpos (mc st: imap) (v lo hi: int) : int
    variant { hi - lo } = if hi <= lo then 0 else cpos mc st v lo (hi-1) + (if st[mc[hi-1]] = v then 1 else 0)

  let rec ghost cpos_upd_other (mc st: imap) (v lo hi x w: int)
    requires { forall p. lo <= p < hi -> mc[p] <> x }
    ensures { cpos mc st[x <- w] v lo hi = cpos mc st v lo hi }
    variant { hi - lo }
  = if lo < hi then cpos_upd_other mc st v lo (hi-1) x w

  let rec ghost cpos_upd (mc st: imap) (v lo hi q: int)
    requires { distinct mc lo hi /\ lo <= q < hi /\ st[mc[q]] <> v }
    ensures { cpos mc st[mc[q] <- v] v lo hi = cpos mc st v lo hi + 1 }
    variant { hi - lo }
  = if q < hi - 1 then cpos_upd mc st v lo (hi-1) q else cpos_upd_other mc st v lo (hi-1) mc[q] v

  let rec ghost cpos_zero (mc st: imap) (v lo hi: int)
    requires { forall p. lo <= p < hi -> st[mc[p]] <> v }
    ensures { cpos mc st v lo hi = 0 }
    variant { hi - lo }
  = if lo < hi then cpos_zero mc st v lo (hi-1)

  let rec ghost cpos_rank (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc st: imap) (v lo hi: int)
    requires { forall p. lo <= p < hi -> (st[mc[p]] = v <-> foldj ac av bp bc bv alo ahi mc[p] <> None) }
    ensures { cpos mc st v lo hi = rank ac av bp bc bv alo ahi mc lo hi }
    variant { hi - lo }
  = if lo < hi then cpos_rank ac av bp bc bv alo ahi mc st v lo (hi-1)

  (* indices in lo..hi in state v *)
  let rec ghost function cnt (st: imap) (v lo hi: int) : int
    variant { hi - lo } = if hi <= lo then 0 else cnt st v lo (hi-1) + (if st[hi-1] = v then 1 else 0)

  let rec lemma cnt_bounds (st: imap) (v lo hi: int)
    requires { lo <= hi }
    ensures { 0 <= cnt st v lo hi <= hi - lo }
    variant { hi - lo }
  = if lo < hi then cnt_bounds st v lo (hi-1)

  let rec ghost cnt_upd (st: imap) (v lo hi x w: int)
    requires { lo <= hi }
    ensures { cnt st[x <- w] v lo hi = cnt st v lo hi + (if lo <= x < hi then (if w = v then 1 else 0) - (if st[x] = v then 1 else 0) else 0) }
    variant { hi - lo }
  = if lo < hi then cnt_upd st v lo (hi-1) x w

  let rec ghost cnt_zero (st: imap) (v lo hi: int)
    requires { forall p. lo <= p < hi -> st[p] <> v }
    ensures { cnt st v lo hi = 0 }
    variant { hi - lo }
  = if lo < hi then cnt_zero st v lo (hi-1)

  (* columns in clo..chi that the complemented mask row keeps and that have a product *)
  let rec ghost function crank (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (mlo mhi clo chi: int) : int
    variant { chi - clo } = if chi <= clo then 0 else
      crank ac av bp bc bv alo ahi mc mlo mhi clo (chi-1) +
      (if is_in mc mlo mhi (chi-1) then 0 else match foldj ac av bp bc bv alo ahi (chi-1) with None -> 0 | _ -> 1 end)

  let rec lemma crank_bounds (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (mlo mhi clo chi: int)
    requires { clo <= chi }
    ensures { 0 <= crank ac av bp bc bv alo ahi mc mlo mhi clo chi <= chi - clo }
    variant { chi - clo }
  = if clo < chi then crank_bounds ac av bp bc bv alo ahi mc mlo mhi clo (chi-1)

  let rec ghost cnt_crank (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (mlo mhi: int) (st: imap) (v clo chi: int)
    requires { forall c. clo <= c < chi -> (st[c] = v <-> (not (is_in mc mlo mhi c) /\ foldj ac av bp bc bv alo ahi c <> None)) }
    ensures { cnt st v clo chi = crank ac av bp bc bv alo ahi mc mlo mhi clo chi }
    variant { chi - clo }
  = if clo < chi then cnt_crank ac av bp bc bv alo ahi mc mlo mhi st v clo (chi-1)

  let ghost distinct_push (d: imap) (n x: int)
    requires { distinct d 0 n /\ 0 <= n /\ forall q. 0 <= q < n -> d[q] <> x }
    ensures { distinct d[n <- x] 0 (n+1) }
    ensures { forall i. is_in d 0 n i -> is_in d[n <- x] 0 (n+1) i }
    ensures { is_in d[n <- x] 0 (n+1) x }
  = assert { d[n <- x][n] = x }
end
