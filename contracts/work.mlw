module Work
  use base.Base
  use spec.Spec
  use map.Const

  let rec lemma sum_set (m: imap) (x v lo hi: int)
    requires { hi <= x }
    ensures { sum m[x <- v] lo hi = sum m lo hi }
    variant { hi - lo }
  = if lo < hi then sum_set m x v lo (hi-1)

  (* scalar products of entries lo..hi of A's row *)
  let rec ghost function rfl (ac bp: imap) (lo hi: int) : int
    variant { hi - lo } = if hi <= lo then 0 else rfl ac bp lo (hi-1) + (bp[ac[hi-1]+1] - bp[ac[hi-1]])
  (* ... of row i of the masked product *)
  let ghost function mfl (ap ac bp mp: imap) (i: int) : int = if mp[i+1] = mp[i] then 0 else rfl ac bp ap[i] ap[i+1]
  (* totals over rows 0..n *)
  let rec ghost function tfl (ap ac bp: imap) (n: int) : int
    variant { n } = if n <= 0 then 0 else tfl ap ac bp (n-1) + rfl ac bp ap[n-1] ap[n]

  let rec ghost rfl_pos (ac bp: imap) (lo hi: int)
    requires { forall j. lo <= j < hi -> bp[ac[j]] <= bp[ac[j]+1] }
    ensures { 0 <= rfl ac bp lo hi }
    variant { hi - lo }
  = if lo < hi then rfl_pos ac bp lo (hi-1)

  (* work of the dot products of row i: |A's row| + |B's column| for every mask entry where both are non-empty *)
  let rec ghost function dwk (la: int) (mc bp: imap) (lo hi: int) : int
    variant { hi - lo } = if hi <= lo then 0 else
      dwk la mc bp lo (hi-1) + (if la <> 0 && bp[mc[hi-1]+1] - bp[mc[hi-1]] <> 0 then la + (bp[mc[hi-1]+1] - bp[mc[hi-1]]) else 0)
  let rec ghost dwk_pos (la: int) (mc bp: imap) (lo hi: int)
    requires { 0 <= la /\ forall j. lo <= j < hi -> bp[mc[j]] <= bp[mc[j]+1] }
    ensures { 0 <= dwk la mc bp lo hi }
    variant { hi - lo }
  = if lo < hi then dwk_pos la mc bp lo (hi-1)

  (* ---- the product row has at most rfl columns *)
  let rec ghost cpos_le (mc st: imap) (v lo hi x w: int)
    requires { distinct mc lo hi }
    ensures { cpos mc st[x <- w] v lo hi <= cpos mc st v lo hi + 1 }
    variant { hi - lo }
  = if lo < hi then if mc[hi-1] = x then cpos_upd_other mc st v lo (hi-1) x w else cpos_le mc st v lo (hi-1) x w

  (* indicator of the columns reached after part of row j of A's entry *)
  let rec ghost ind_k (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo j: int) (mc: imap) (mlo mhi n: int) (st: imap) (lo hi: int) : imap
    requires { forall c. st[c] = 1 <-> foldj ac av bp bc bv alo j c <> None }
    requires { distinct mc mlo mhi /\ 0 <= n }
    ensures { forall c. result[c] = 1 <-> foldk (foldj ac av bp bc bv alo j c) av[j] bc bv lo hi c <> None }
    ensures { lo <= hi -> cpos mc result 1 mlo mhi <= cpos mc st 1 mlo mhi + (hi - lo) }
    ensures { lo <= hi -> cnt result 1 0 n <= cnt st 1 0 n + (hi - lo) }
    variant { hi - lo }
  = if hi <= lo then st else begin
      let r = ind_k ac av bp bc bv alo j mc mlo mhi n st lo (hi-1) in
      cpos_le mc r 1 mlo mhi bc[hi-1] 1;
      cnt_upd r 1 0 n bc[hi-1] 1;
      r[bc[hi-1] <- 1]
    end
  let rec ghost ind_j (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi: int) (mc: imap) (mlo mhi n: int) : imap
    requires { forall j. alo <= j < ahi -> bp[ac[j]] <= bp[ac[j]+1] }
    requires { distinct mc mlo mhi /\ 0 <= n /\ mlo <= mhi }
    ensures { forall c. result[c] = 1 <-> foldj ac av bp bc bv alo ahi c <> None }
    ensures { alo <= ahi -> cpos mc result 1 mlo mhi <= rfl ac bp alo ahi }
    ensures { alo <= ahi -> cnt result 1 0 n <= rfl ac bp alo ahi }
    variant { ahi - alo }
  = if ahi <= alo then begin
      let z = const 0 in assert { forall i. z[i] = 0 };
      cpos_zero mc z 1 mlo mhi; cnt_zero z 1 0 n; z end
    else begin
      let r = ind_j ac av bp bc bv alo (ahi-1) mc mlo mhi n in
      ind_k ac av bp bc bv alo (ahi-1) mc mlo mhi n r bp[ac[ahi-1]] bp[ac[ahi-1]+1]
    end
  let ghost rank_le_rfl (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi: int) (mc: imap) (mlo mhi: int)
    requires { forall j. alo <= j < ahi -> bp[ac[j]] <= bp[ac[j]+1] }
    requires { distinct mc mlo mhi /\ mlo <= mhi /\ alo <= ahi }
    ensures { rank ac av bp bc bv alo ahi mc mlo mhi <= rfl ac bp alo ahi }
  = let st = ind_j ac av bp bc bv alo ahi mc mlo mhi 0 in
    cpos_rank ac av bp bc bv alo ahi mc st 1 mlo mhi
  let rec ghost crank_le_cnt (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi: int) (mc: imap) (mlo mhi: int) (st: imap) (clo chi: int)
    requires { forall c. st[c] = 1 <-> foldj ac av bp bc bv alo ahi c <> None }
    ensures { crank ac av bp bc bv alo ahi mc mlo mhi clo chi <= cnt st 1 clo chi }
    variant { chi - clo }
  = if clo < chi then crank_le_cnt ac av bp bc bv alo ahi mc mlo mhi st clo (chi-1)
  let ghost crank_le_rfl (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi: int) (mc: imap) (mlo mhi n: int)
    requires { forall j. alo <= j < ahi -> bp[ac[j]] <= bp[ac[j]+1] }
    requires { alo <= ahi /\ 0 <= n }
    ensures { crank ac av bp bc bv alo ahi mc mlo mhi 0 n <= rfl ac bp alo ahi }
  = let st = ind_j ac av bp bc bv alo ahi mc 0 0 n in
    crank_le_cnt ac av bp bc bv alo ahi mc mlo mhi st 0 n

  (* entries of rows lo..hi of the (masked, complement-masked) product *)
  let rec ghost function trank (ap ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (mp mc: imap) (lo hi: int) : int
    variant { hi - lo } = if hi <= lo then 0 else
      trank ap ac av bp bc bv mp mc lo (hi-1) + rank ac av bp bc bv ap[hi-1] ap[hi] mc mp[hi-1] mp[hi]
  let rec ghost function tcrank (ap ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (mp mc: imap) (n lo hi: int) : int
    variant { hi - lo } = if hi <= lo then 0 else
      tcrank ap ac av bp bc bv mp mc n lo (hi-1) + crank ac av bp bc bv ap[hi-1] ap[hi] mc mp[hi-1] mp[hi] 0 n

  let rec lemma trank_bounds (ap ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (mp mc: imap) (lo hi: int)
    requires { forall i. lo <= i < hi -> mp[i] <= mp[i+1] }
    ensures { 0 <= trank ap ac av bp bc bv mp mc lo hi }
    variant { hi - lo }
  = if lo < hi then trank_bounds ap ac av bp bc bv mp mc lo (hi-1)
  let rec lemma tcrank_bounds (ap ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (mp mc: imap) (n lo hi: int)
    requires { 0 <= n }
    ensures { 0 <= tcrank ap ac av bp bc bv mp mc n lo hi }
    variant { hi - lo }
  = if lo < hi then tcrank_bounds ap ac av bp bc bv mp mc n lo (hi-1)
end
