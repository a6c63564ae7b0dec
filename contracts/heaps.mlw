module Heaps
  use base.Base
  use spec.Spec
  (* heap merging adds the products of a column in an unspecified order *)
  axiom addf_comm : forall a b. addf a b = addf b a
  axiom addf_assoc : forall a b c. addf (addf a b) c = addf a (addf b c)

  function endpos (ac bp: imap) : imap
  axiom endpos_def : forall ac bp j [(endpos ac bp)[j]]. (endpos ac bp)[j] = bp[ac[j]+1]

  (* column c of the product row so far: row j of the merge consumed up to pos[j] *)
  let rec ghost function foldp (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (lo hi: int) (pos: imap) (c: int) : option nt
    variant { hi - lo } = if hi <= lo then None else
      foldk (foldp ac av bp bc bv lo (hi-1) pos c) av[hi-1] bc bv bp[ac[hi-1]] pos[hi-1] c

  let rec ghost foldk_skip (o: option nt) (a: nt) (bc: imap) (bv: vmap) (lo m hi c: int)
    requires { lo <= m <= hi } requires { forall k. m <= k < hi -> bc[k] <> c }
    ensures { foldk o a bc bv lo hi c = foldk o a bc bv lo m c }
    variant { hi - m } = if m < hi then foldk_skip o a bc bv lo m (hi-1) c
  let ghost step_step (o: option nt) (v w: nt)
    ensures { step (step o v) w = step (step o w) v }
  = match o with None -> () | Some u -> assert { addf (addf u v) w = addf u (addf v w) }; assert { addf (addf u w) v = addf u (addf w v) } end
  let rec ghost foldk_step (o: option nt) (v a: nt) (bc: imap) (bv: vmap) (lo hi c: int)
    ensures { foldk (step o v) a bc bv lo hi c = step (foldk o a bc bv lo hi c) v }
    variant { hi - lo }
  = if lo < hi then begin foldk_step o v a bc bv lo (hi-1) c; step_step (foldk o a bc bv lo (hi-1) c) v (mulf a bv[hi-1]) end
  let rec ghost foldp_same (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (lo hi: int) (pos pos2: imap) (c: int)
    requires { forall j. lo <= j < hi -> pos[j] = pos2[j] }
    ensures { foldp ac av bp bc bv lo hi pos c = foldp ac av bp bc bv lo hi pos2 c }
    variant { hi - lo } = if lo < hi then foldp_same ac av bp bc bv lo (hi-1) pos pos2 c
  (* one step of the merge: row j0 moves from pos[j0] to pos2[j0] *)
  predicate moved (bp ac: imap) (lo hi: int) (pos pos2: imap) (j0: int) =
    lo <= j0 < hi /\ bp[ac[j0]] <= pos[j0] < pos2[j0] <= bp[ac[j0]+1] /\ forall j. j <> j0 -> pos2[j] = pos[j]
  let rec ghost foldp_adv (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (lo hi: int) (pos pos2: imap) (j0 c: int)
    requires { moved bp ac lo hi pos pos2 j0 } requires { forall k. pos[j0] < k < pos2[j0] -> bc[k] <> c }
    ensures { foldp ac av bp bc bv lo hi pos2 c = (if bc[pos[j0]] = c then step (foldp ac av bp bc bv lo hi pos c) (mulf av[j0] bv[pos[j0]]) else foldp ac av bp bc bv lo hi pos c) }
    variant { hi - lo }
  = if hi - 1 = j0 then begin
      foldp_same ac av bp bc bv lo (hi-1) pos pos2 c;
      foldk_skip (foldp ac av bp bc bv lo (hi-1) pos c) av[j0] bc bv bp[ac[j0]] (pos[j0]+1) pos2[j0] c
    end else begin
      foldp_adv ac av bp bc bv lo (hi-1) pos pos2 j0 c;
      foldk_step (foldp ac av bp bc bv lo (hi-1) pos c) (mulf av[j0] bv[pos[j0]]) av[hi-1] bc bv bp[ac[hi-1]] pos[hi-1] c
    end
  let rec ghost foldp_advs (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (lo hi: int) (pos pos2: imap) (j0: int) (mc: imap) (ql qh: int)
    requires { moved bp ac lo hi pos pos2 j0 } requires { forall k q. pos[j0] < k < pos2[j0] -> ql <= q < qh -> bc[k] <> mc[q] }
    ensures { forall q. ql <= q < qh -> foldp ac av bp bc bv lo hi pos2 mc[q] = (if bc[pos[j0]] = mc[q] then step (foldp ac av bp bc bv lo hi pos mc[q]) (mulf av[j0] bv[pos[j0]]) else foldp ac av bp bc bv lo hi pos mc[q]) }
    variant { qh - ql }
  = if ql < qh then begin foldp_advs ac av bp bc bv lo hi pos pos2 j0 mc ql (qh-1); foldp_adv ac av bp bc bv lo hi pos pos2 j0 mc[qh-1] end
  predicate posok (ac bp: imap) (lo hi: int) (pos: imap) = forall j. lo <= j < hi -> bp[ac[j]] <= pos[j] <= bp[ac[j]+1]
  let rec ghost foldp_done (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (lo hi: int) (pos: imap) (c: int)
    requires { posok ac bp lo hi pos } requires { forall j k. lo <= j < hi -> pos[j] <= k < bp[ac[j]+1] -> bc[k] <> c }
    ensures { foldp ac av bp bc bv lo hi pos c = foldj ac av bp bc bv lo hi c }
    variant { hi - lo }
  = if lo < hi then begin foldp_done ac av bp bc bv lo (hi-1) pos c;
      foldk_skip (foldp ac av bp bc bv lo (hi-1) pos c) av[hi-1] bc bv bp[ac[hi-1]] pos[hi-1] bp[ac[hi-1]+1] c end
  let rec ghost foldp_dones (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (lo hi: int) (pos: imap) (mc: imap) (ql qh: int)
    requires { posok ac bp lo hi pos } requires { forall j. lo <= j < hi -> pos[j] = bp[ac[j]+1] }
    ensures { forall q. ql <= q < qh -> foldp ac av bp bc bv lo hi pos mc[q] = foldj ac av bp bc bv lo hi mc[q] }
    variant { qh - ql }
  = if ql < qh then begin foldp_dones ac av bp bc bv lo hi pos mc ql (qh-1); foldp_done ac av bp bc bv lo hi pos mc[qh-1] end
  let rec ghost foldp_none (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (lo hi: int) (pos: imap) (c: int)
    requires { posok ac bp lo hi pos } requires { forall j k. lo <= j < hi -> bp[ac[j]] <= k < pos[j] -> bc[k] <> c }
    ensures { foldp ac av bp bc bv lo hi pos c = None }
    variant { hi - lo }
  = if lo < hi then begin foldp_none ac av bp bc bv lo (hi-1) pos c; foldk_skip None av[hi-1] bc bv bp[ac[hi-1]] bp[ac[hi-1]] pos[hi-1] c end
  predicate unmasked (ac bp bc: imap) (lo hi: int) (pos mc: imap) (ql qh: int) =
    forall j k q. lo <= j < hi -> bp[ac[j]] <= k < pos[j] -> ql <= q < qh -> bc[k] <> mc[q]
  let rec ghost foldp_nones (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (lo hi: int) (pos mc: imap) (ql qh: int)
    requires { posok ac bp lo hi pos } requires { unmasked ac bp bc lo hi pos mc ql qh }
    ensures { forall q. ql <= q < qh -> foldp ac av bp bc bv lo hi pos mc[q] = None }
    variant { qh - ql }
  = if ql < qh then begin foldp_nones ac av bp bc bv lo hi pos mc ql (qh-1); foldp_none ac av bp bc bv lo hi pos mc[qh-1] end
  let rec ghost rank_tail (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo p hi:int)
    requires { lo <= p <= hi } requires { forall q. p <= q < hi -> foldj ac av bp bc bv alo ahi mc[q] = None }
    ensures { rank ac av bp bc bv alo ahi mc lo hi = rank ac av bp bc bv alo ahi mc lo p }
    variant { hi - p } = if p < hi then rank_tail ac av bp bc bv alo ahi mc lo p (hi-1)
  (* what remains to be merged *)
  let rec ghost function remain (ac bp: imap) (lo hi: int) (pos: imap) : int
    variant { hi - lo } = if hi <= lo then 0 else remain ac bp lo (hi-1) pos + (bp[ac[hi-1]+1] - pos[hi-1])
  let rec ghost remain_pos (ac bp: imap) (lo hi: int) (pos: imap)
    requires { posok ac bp lo hi pos } ensures { remain ac bp lo hi pos >= 0 }
    variant { hi - lo } = if lo < hi then remain_pos ac bp lo (hi-1) pos
  let rec ghost remain_same (ac bp: imap) (lo hi: int) (pos pos2: imap)
    requires { forall j. lo <= j < hi -> pos[j] = pos2[j] } ensures { remain ac bp lo hi pos = remain ac bp lo hi pos2 }
    variant { hi - lo } = if lo < hi then remain_same ac bp lo (hi-1) pos pos2
  let rec ghost remain_adv (ac bp: imap) (lo hi: int) (pos pos2: imap) (j0: int)
    requires { moved bp ac lo hi pos pos2 j0 } ensures { remain ac bp lo hi pos2 < remain ac bp lo hi pos }
    variant { hi - lo }
  = if hi - 1 = j0 then remain_same ac bp lo (hi-1) pos pos2 else remain_adv ac bp lo (hi-1) pos pos2 j0

  (* std heaps of (key, runr, loc) ordered so that the smallest key is on top *)
  predicate heap_from (key: imap) (f n: int) = forall i. f <= i -> (2*i+1 < n -> key[i] <= key[2*i+1]) /\ (2*i+2 < n -> key[i] <= key[2*i+2])
  let rec ghost heap_top1 (key: imap) (n i: int)
    requires { heap_from key 0 n /\ 0 <= i < n } ensures { key[0] <= key[i] }
    variant { i } = if i > 0 then begin let p = div (i-1) 2 in assert { i = 2*p+1 \/ i = 2*p+2 }; heap_top1 key n p end
  let rec ghost heap_top (key: imap) (n k: int)
    requires { heap_from key 0 n /\ 0 <= k <= n } ensures { forall i. 0 <= i < k -> key[0] <= key[i] }
    variant { k } = if k > 0 then begin heap_top key n (k-1); heap_top1 key n (k-1) end
  predicate perm_by (p q k r l k2 r2 l2: imap) (n: int) =
    (forall i. 0 <= i < n -> 0 <= p[i] < n /\ q[p[i]] = i /\ k2[i] = k[p[i]] /\ r2[i] = r[p[i]] /\ l2[i] = l[p[i]]) /\
    (forall i. 0 <= i < n -> 0 <= q[i] < n /\ p[q[i]] = i) /\
    (forall i. not (0 <= i < n) -> k2[i] = k[i] /\ r2[i] = r[i] /\ l2[i] = l[i])
  val ghost std_make_heap (k r l p q: ref imap) (n: int) : unit
    requires { n >= 0 } writes { k, r, l, p, q }
    ensures { heap_from !k 0 n } ensures { perm_by !p !q (old !k) (old !r) (old !l) !k !r !l n }
  (* as implemented: the element on top need not be in order *)
  val ghost std_pop_heap (k r l p q: ref imap) (n: int) : unit
    requires { n >= 1 } requires { [@expl:precondition heap below the top] heap_from !k 1 n } writes { k, r, l, p, q }
    ensures { heap_from !k 0 (n-1) } ensures { perm_by !p !q (old !k) (old !r) (old !l) !k !r !l n } ensures { !p[n-1] = 0 }
  val ghost std_push_heap (k r l p q: ref imap) (n: int) : unit
    requires { n >= 1 } requires { [@expl:precondition heap before push] heap_from !k 0 (n-1) } writes { k, r, l, p, q }
    ensures { heap_from !k 0 n } ensures { perm_by !p !q (old !k) (old !r) (old !l) !k !r !l n }
  val ghost compose (q s: imap) (n: int) : imap
    ensures { forall j. result[j] = (if 0 <= s[j] < n then q[s[j]] else s[j]) }
  (* the heap holds the next entry of every row of the merge that is not exhausted; entries below f may be out of date *)
  predicate hp (f: int) (k r l: imap) (n: int) (slot pos ac bp bc: imap) (alo ahi: int) =
    0 <= n /\ (forall i. 0 <= i < n -> alo <= r[i] < ahi /\ slot[r[i]] = i) /\
    (forall i. f <= i < n -> l[i] = pos[r[i]] /\ bp[ac[r[i]]] <= l[i] < bp[ac[r[i]]+1] /\ k[i] = bc[l[i]]) /\
    posok ac bp alo ahi pos /\ (forall j. alo <= j < ahi -> pos[j] < bp[ac[j]+1] -> 0 <= slot[j] < n /\ r[slot[j]] = j)
  let ghost hmake (k r l slot: ref imap) (n: int) (pos ac bp bc: imap) (alo ahi: int) : unit
    requires { hp 0 !k !r !l n !slot pos ac bp bc alo ahi } writes { k, r, l, slot }
    ensures { hp 0 !k !r !l n !slot pos ac bp bc alo ahi } ensures { heap_from !k 0 n }
    ensures { forall i. not (0 <= i < n) -> !k[i] = (old !k)[i] /\ !r[i] = (old !r)[i] /\ !l[i] = (old !l)[i] }
  = let p = ref !k in let q = ref !k in let s0 = !slot in let r0 = !r in
    std_make_heap k r l p q n; slot := compose !q !slot n;
    assert { forall i. 0 <= i < n -> !slot[!r[i]] = i };
    assert { forall j. alo <= j < ahi -> pos[j] < bp[ac[j]+1] -> 0 <= s0[j] < n /\ !r[!q[s0[j]]] = r0[s0[j]] }
  let ghost hpop (k r l slot pos: ref imap) (n: int) (ac bp bc: imap) (alo ahi: int) : unit
    requires { n >= 1 } requires { heap_from !k 1 n } requires { hp 1 !k !r !l n !slot !pos ac bp bc alo ahi } writes { k, r, l, slot, pos }
    ensures { hp 0 !k !r !l (n-1) !slot !pos ac bp bc alo ahi } ensures { heap_from !k 0 (n-1) }
    ensures { !k[n-1] = (old !k)[0] /\ !r[n-1] = (old !r)[0] /\ !l[n-1] = (old !l)[0] /\ !slot[!r[n-1]] = n-1 }
    ensures { !pos = (old !pos)[(old !r)[0] <- bp[ac[(old !r)[0]]+1]] }
    ensures { forall i. not (0 <= i < n) -> !k[i] = (old !k)[i] /\ !r[i] = (old !r)[i] /\ !l[i] = (old !l)[i] }
  = let p = ref !k in let q = ref !k in let s0 = !slot in let r0 = !r in let p0 = !pos in
    pos := !pos[!r[0] <- bp[ac[!r[0]]+1]];
    std_pop_heap k r l p q n; slot := compose !q !slot n;
    assert { !q[0] = n-1 }; assert { forall i. 0 <= i < n -> !slot[!r[i]] = i }; assert { forall i. 0 <= i < n-1 -> !p[i] <> 0 };
    assert { forall i. 0 <= i < n-1 -> r0[!p[i]] <> r0[0] };
    assert { forall j. alo <= j < ahi -> !pos[j] < bp[ac[j]+1] -> j <> r0[0] /\ 0 <= s0[j] < n /\ s0[j] <> 0 /\ !r[!q[s0[j]]] = r0[s0[j]] }
  let ghost hpush (k r l slot pos: ref imap) (n: int) (ac bp bc: imap) (alo ahi: int) : unit
    requires { n >= 1 } requires { heap_from !k 0 (n-1) } requires { hp 0 !k !r !l (n-1) !slot !pos ac bp bc alo ahi }
    requires { alo <= !r[n-1] < ahi /\ !slot[!r[n-1]] = n-1 }
    requires { [@expl:the entry put back into the heap is the next entry of its row] bp[ac[!r[n-1]]] <= !l[n-1] < bp[ac[!r[n-1]]+1] /\ !k[n-1] = bc[!l[n-1]] } writes { k, r, l, slot, pos }
    ensures { hp 0 !k !r !l n !slot !pos ac bp bc alo ahi } ensures { heap_from !k 0 n }
    ensures { !pos = (old !pos)[(old !r)[n-1] <- (old !l)[n-1]] }
    ensures { forall i. not (0 <= i < n) -> !k[i] = (old !k)[i] /\ !r[i] = (old !r)[i] /\ !l[i] = (old !l)[i] }
  = let p = ref !k in let q = ref !k in let r0 = !r in let l0 = !l in
    pos := !pos[!r[n-1] <- !l[n-1]];
    assert { forall i. 0 <= i < n-1 -> !r[i] <> !r[n-1] };
    assert { hp 0 !k !r !l n !slot !pos ac bp bc alo ahi };
    let s0 = !slot in
    std_push_heap k r l p q n; slot := compose !q !slot n;
    assert { forall i. 0 <= i < n -> !slot[!r[i]] = i };
    assert { forall j. alo <= j < ahi -> !pos[j] < bp[ac[j]+1] -> 0 <= s0[j] < n /\ !r[!q[s0[j]]] = r0[s0[j]] }
  let rec ghost foldk_some (o: option nt) (a: nt) (bc: imap) (bv: vmap) (lo hi c l0: int)
    requires { lo <= l0 < hi /\ bc[l0] = c \/ o <> None }
    ensures { foldk o a bc bv lo hi c <> None }
    variant { hi - lo }
  = if lo < hi then match o with Some _ -> foldk_some o a bc bv lo (hi-1) c l0 | None -> if l0 < hi-1 then foldk_some o a bc bv lo (hi-1) c l0 end
  let rec ghost foldj_some (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (lo hi c j0 l0: int)
    requires { lo <= j0 < hi }
    requires { bp[ac[j0]] <= l0 < bp[ac[j0]+1] /\ bc[l0] = c }
    ensures { foldj ac av bp bc bv lo hi c <> None }
    variant { hi - lo }
  = if j0 < hi-1 then begin foldj_some ac av bp bc bv lo (hi-1) c j0 l0; foldk_some (foldj ac av bp bc bv lo (hi-1) c) av[hi-1] bc bv bp[ac[hi-1]] bp[ac[hi-1]+1] c l0 end
    else foldk_some (foldj ac av bp bc bv lo (hi-1) c) av[hi-1] bc bv bp[ac[hi-1]] bp[ac[hi-1]+1] c l0
  let ghost rank_room (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo p hi:int)
    requires { lo <= p < hi }
    requires { foldj ac av bp bc bv alo ahi mc[p] <> None }
    ensures { rank ac av bp bc bv alo ahi mc lo (p+1) = rank ac av bp bc bv alo ahi mc lo p + 1 }
    ensures { rank ac av bp bc bv alo ahi mc lo p + 1 <= rank ac av bp bc bv alo ahi mc lo hi }
  = rank_mono ac av bp bc bv alo ahi mc lo (p+1) hi
  (* the entries of the mask columns before mi lie in the output *)
  predicate outat (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo mi: int) (cc: imap) (co: int) (cv: vmap) (vo: int) (p: int) =
    foldj ac av bp bc bv alo ahi mc[p] <> None ->
      rank ac av bp bc bv alo ahi mc lo p < rank ac av bp bc bv alo ahi mc lo mi /\
      cc[co + rank ac av bp bc bv alo ahi mc lo p] = mc[p] /\ Some cv[vo + rank ac av bp bc bv alo ahi mc lo p] = foldj ac av bp bc bv alo ahi mc[p]
  predicate outp (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo mi: int) (cc: imap) (co: int) (cv: vmap) (vo: int) =
    forall p. lo <= p < mi -> outat ac av bp bc bv alo ahi mc lo mi cc co cv vo p
  let rec ghost outp_next1 (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo mi: int) (cc: imap) (co: int) (cv: vmap) (vo: int) (k: int)
    requires { lo <= k <= mi /\ outp ac av bp bc bv alo ahi mc lo mi cc co cv vo }
    requires { rank ac av bp bc bv alo ahi mc lo mi <= rank ac av bp bc bv alo ahi mc lo (mi+1) }
    ensures { forall p. k <= p < mi -> outat ac av bp bc bv alo ahi mc lo (mi+1) cc co cv vo p }
    variant { mi - k }
  = if k < mi then begin assert { outat ac av bp bc bv alo ahi mc lo mi cc co cv vo k }; assert { outat ac av bp bc bv alo ahi mc lo (mi+1) cc co cv vo k }; outp_next1 ac av bp bc bv alo ahi mc lo mi cc co cv vo (k+1) end
  let ghost outp_next (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo mi: int) (cc: imap) (co: int) (cv: vmap) (vo: int)
    requires { lo <= mi /\ outp ac av bp bc bv alo ahi mc lo mi cc co cv vo }
    requires { foldj ac av bp bc bv alo ahi mc[mi] <> None -> cc[co + rank ac av bp bc bv alo ahi mc lo mi] = mc[mi] /\ Some cv[vo + rank ac av bp bc bv alo ahi mc lo mi] = foldj ac av bp bc bv alo ahi mc[mi] }
    ensures { outp ac av bp bc bv alo ahi mc lo (mi+1) cc co cv vo }
  = assert { rank ac av bp bc bv alo ahi mc lo (mi+1) = rank ac av bp bc bv alo ahi mc lo mi + (match foldj ac av bp bc bv alo ahi mc[mi] with None -> 0 | _ -> 1 end) };
    assert { rank ac av bp bc bv alo ahi mc lo mi <= rank ac av bp bc bv alo ahi mc lo (mi+1) };
    assert { outat ac av bp bc bv alo ahi mc lo (mi+1) cc co cv vo mi };
    outp_next1 ac av bp bc bv alo ahi mc lo mi cc co cv vo lo;
    assert { forall p. lo <= p < mi+1 -> p <> mi -> outat ac av bp bc bv alo ahi mc lo (mi+1) cc co cv vo p }
  let rec ghost outp_keep1 (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo mi: int) (cc: imap) (co: int) (cv: vmap) (vo: int) (cc2: imap) (cv2: vmap) (k: int)
    requires { outp ac av bp bc bv alo ahi mc lo mi cc co cv vo /\ lo <= k <= mi }
    requires { forall i. i < co + rank ac av bp bc bv alo ahi mc lo mi -> cc2[i] = cc[i] }
    requires { forall i. i < vo + rank ac av bp bc bv alo ahi mc lo mi -> cv2[i] = cv[i] }
    ensures { forall p. k <= p < mi -> outat ac av bp bc bv alo ahi mc lo mi cc2 co cv2 vo p }
    variant { mi - k }
  = if k < mi then begin assert { outat ac av bp bc bv alo ahi mc lo mi cc co cv vo k }; outp_keep1 ac av bp bc bv alo ahi mc lo mi cc co cv vo cc2 cv2 (k+1) end
  let ghost outp_keep (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo mi: int) (cc: imap) (co: int) (cv: vmap) (vo: int) (cc2: imap) (cv2: vmap)
    requires { lo <= mi /\ outp ac av bp bc bv alo ahi mc lo mi cc co cv vo }
    requires { forall i. i < co + rank ac av bp bc bv alo ahi mc lo mi -> cc2[i] = cc[i] }
    requires { forall i. i < vo + rank ac av bp bc bv alo ahi mc lo mi -> cv2[i] = cv[i] }
    ensures { outp ac av bp bc bv alo ahi mc lo mi cc2 co cv2 vo }
  = outp_keep1 ac av bp bc bv alo ahi mc lo mi cc co cv vo cc2 cv2 lo
  let rec ghost outp_tail (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo mi hi: int) (cc: imap) (co: int) (cv: vmap) (vo: int)
    requires { lo <= mi <= hi /\ outp ac av bp bc bv alo ahi mc lo mi cc co cv vo }
    requires { forall q. mi <= q < hi -> foldj ac av bp bc bv alo ahi mc[q] = None }
    ensures { outp ac av bp bc bv alo ahi mc lo hi cc co cv vo }
    variant { hi - mi }
  = if mi < hi then begin outp_next ac av bp bc bv alo ahi mc lo mi cc co cv vo; outp_tail ac av bp bc bv alo ahi mc lo (mi+1) hi cc co cv vo end
  let rec ghost outp_all (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo mi: int) (cc: imap) (co: int) (cv: vmap) (vo: int) (k: int)
    requires { outp ac av bp bc bv alo ahi mc lo mi cc co cv vo /\ lo <= k <= mi }
    ensures { forall p. k <= p < mi -> match foldj ac av bp bc bv alo ahi mc[p] with None -> true | Some v -> cc[co + rank ac av bp bc bv alo ahi mc lo p] = mc[p] /\ cv[vo + rank ac av bp bc bv alo ahi mc lo p] = v end }
    variant { mi - k }
  = if k < mi then begin assert { outat ac av bp bc bv alo ahi mc lo mi cc co cv vo k }; outp_all ac av bp bc bv alo ahi mc lo mi cc co cv vo (k+1);
     match foldj ac av bp bc bv alo ahi mc[k] with None -> () | Some v -> assert { cc[co + rank ac av bp bc bv alo ahi mc lo k] = mc[k] /\ cv[vo + rank ac av bp bc bv alo ahi mc lo k] = v } end end
  (* ---- complemented mask: columns in increasing order *)
  val function idm : imap
  axiom idm_def : forall i [idm[i]]. idm[i] = i
  let rec ghost foldp_doner (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi: int) (pos: imap) (cl ch: int)
    requires { posok ac bp alo ahi pos } requires { forall j k. alo <= j < ahi -> pos[j] <= k < bp[ac[j]+1] -> bc[k] >= ch }
    ensures { forall c. cl <= c < ch -> foldp ac av bp bc bv alo ahi pos c = foldj ac av bp bc bv alo ahi c }
    variant { ch - cl }
  = if cl < ch then begin foldp_done ac av bp bc bv alo ahi pos cl; foldp_doner ac av bp bc bv alo ahi pos (cl+1) ch end
  let rec ghost foldp_advr (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (lo hi: int) (pos pos2: imap) (j0 cl ch: int)
    requires { moved bp ac lo hi pos pos2 j0 /\ pos2[j0] = pos[j0] + 1 }
    ensures { forall c. cl <= c < ch -> foldp ac av bp bc bv lo hi pos2 c = (if bc[pos[j0]] = c then step (foldp ac av bp bc bv lo hi pos c) (mulf av[j0] bv[pos[j0]]) else foldp ac av bp bc bv lo hi pos c) }
    variant { ch - cl }
  = if cl < ch then begin foldp_advr ac av bp bc bv lo hi pos pos2 j0 cl (ch-1); foldp_adv ac av bp bc bv lo hi pos pos2 j0 (ch-1) end
  let rec ghost foldp_noner (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (lo hi: int) (pos: imap) (cl ch: int)
    requires { posok ac bp lo hi pos } requires { forall j. lo <= j < hi -> pos[j] = bp[ac[j]] }
    ensures { forall c. cl <= c < ch -> foldp ac av bp bc bv lo hi pos c = None }
    variant { ch - cl }
  = if cl < ch then begin foldp_noner ac av bp bc bv lo hi pos cl (ch-1); foldp_none ac av bp bc bv lo hi pos (ch-1) end
  let rec ghost crank_mono (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo hi: int) (c d: int)
    requires { 0 <= c <= d } ensures { crank ac av bp bc bv alo ahi mc lo hi 0 c <= crank ac av bp bc bv alo ahi mc lo hi 0 d }
    variant { d - c }
  = if c < d then crank_mono ac av bp bc bv alo ahi mc lo hi c (d-1)
  let ghost crank_room (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo hi: int) (c d: int)
    requires { 0 <= c < d /\ not (is_in mc lo hi c) /\ foldj ac av bp bc bv alo ahi c <> None }
    ensures { crank ac av bp bc bv alo ahi mc lo hi 0 c + 1 <= crank ac av bp bc bv alo ahi mc lo hi 0 d }
  = crank_mono ac av bp bc bv alo ahi mc lo hi (c+1) d
  let rec ghost crank_skips (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo hi: int) (c d: int)
    requires { 0 <= c <= d } requires { forall x. c <= x < d -> is_in mc lo hi x \/ foldj ac av bp bc bv alo ahi x = None }
    ensures { crank ac av bp bc bv alo ahi mc lo hi 0 d = crank ac av bp bc bv alo ahi mc lo hi 0 c }
    variant { d - c }
  = if c < d then crank_skips ac av bp bc bv alo ahi mc lo hi c (d-1)
  predicate cent (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo hi: int) (cur: int) (c: int) (v: nt) = 0 <= c < cur /\ not (is_in mc lo hi c) /\ foldj ac av bp bc bv alo ahi c = Some v
  predicate cout (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo hi: int) (cur: int) (cc: imap) (co: int) (cv: vmap) (vo n: int) =
    (forall x. co <= x < co + n -> cent ac av bp bc bv alo ahi mc lo hi cur cc[x] cv[x - co + vo]) /\
    sorted_lt cc co (co+n) /\
    (forall c. 0 <= c < cur -> not (is_in mc lo hi c) -> foldj ac av bp bc bv alo ahi c <> None -> is_in cc co (co+n) c)
  let ghost cout_skips (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo hi: int) (cur cur2: int) (cc: imap) (co: int) (cv: vmap) (vo n: int)
    requires { 0 <= cur <= cur2 /\ cout ac av bp bc bv alo ahi mc lo hi cur cc co cv vo n }
    requires { forall x. cur <= x < cur2 -> is_in mc lo hi x \/ foldj ac av bp bc bv alo ahi x = None }
    ensures { cout ac av bp bc bv alo ahi mc lo hi cur2 cc co cv vo n }
  = assert { forall x. co <= x < co + n -> cent ac av bp bc bv alo ahi mc lo hi cur cc[x] cv[x - co + vo] && cent ac av bp bc bv alo ahi mc lo hi cur2 cc[x] cv[x - co + vo] }
  let ghost cout_push (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo hi: int) (cur: int) (cc: imap) (co: int) (cv: vmap) (vo n: int)
    requires { 0 <= cur /\ 0 <= n /\ cout ac av bp bc bv alo ahi mc lo hi cur cc co cv vo n }
    requires { not (is_in mc lo hi cur) /\ cc[co+n] = cur /\ foldj ac av bp bc bv alo ahi cur = Some cv[vo+n] }
    ensures { cout ac av bp bc bv alo ahi mc lo hi (cur+1) cc co cv vo (n+1) }
  = assert { forall x. co <= x < co + n -> cent ac av bp bc bv alo ahi mc lo hi cur cc[x] cv[x - co + vo] && cent ac av bp bc bv alo ahi mc lo hi (cur+1) cc[x] cv[x - co + vo] };
    assert { cent ac av bp bc bv alo ahi mc lo hi (cur+1) cc[co+n] cv[co+n - co + vo] };
    assert { forall x. co <= x < co + n -> cc[x] < cur };
    assert { is_in cc co (co+(n+1)) cur };
    assert { forall c. is_in cc co (co+n) c -> is_in cc co (co+(n+1)) c }
  let ghost cout_keep (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo hi: int) (cur: int) (cc: imap) (co: int) (cv: vmap) (vo n: int) (cc2: imap) (cv2: vmap)
    requires { cout ac av bp bc bv alo ahi mc lo hi cur cc co cv vo n }
    requires { forall i. i < co + n -> cc2[i] = cc[i] } requires { forall i. i < vo + n -> cv2[i] = cv[i] }
    ensures { cout ac av bp bc bv alo ahi mc lo hi cur cc2 co cv2 vo n }
  = assert { forall x. co <= x < co + n -> cent ac av bp bc bv alo ahi mc lo hi cur cc[x] cv[x - co + vo] && cent ac av bp bc bv alo ahi mc lo hi cur cc2[x] cv2[x - co + vo] };
    assert { forall c. is_in cc co (co+n) c -> is_in cc2 co (co+n) c }
  (* every column before k is finished *)
  let ghost csadv (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo hi: int) (pos: imap) (cur nn: ref int) (prev k: int)
    requires { 0 <= !cur <= k /\ !nn = crank ac av bp bc bv alo ahi mc lo hi 0 !cur }
    requires { posok ac bp alo ahi pos } requires { forall j x. alo <= j < ahi -> pos[j] <= x < bp[ac[j]+1] -> bc[x] >= k }
    requires { not (is_in mc lo hi !cur) -> (foldp ac av bp bc bv alo ahi pos !cur <> None <-> prev = !cur) }
    requires { is_in mc lo hi !cur -> prev <> !cur }
    requires { forall c. !cur < c < k -> foldp ac av bp bc bv alo ahi pos c = None }
    writes { cur, nn }
    ensures { !cur = k /\ !nn = crank ac av bp bc bv alo ahi mc lo hi 0 k }
    ensures { !nn = old !nn + (if k > old !cur && prev = old !cur then 1 else 0) }
    ensures { forall c. old !cur <= c < k -> foldp ac av bp bc bv alo ahi pos c = foldj ac av bp bc bv alo ahi c }
  = if !cur < k then begin
      foldp_doner ac av bp bc bv alo ahi pos !cur k;
      assert { crank ac av bp bc bv alo ahi mc lo hi 0 (!cur+1) = crank ac av bp bc bv alo ahi mc lo hi 0 !cur + (if prev = !cur then 1 else 0) };
      crank_skips ac av bp bc bv alo ahi mc lo hi (!cur+1) k;
      if prev = !cur then nn := !nn + 1;
      cur := k
    end
  let ghost cadv (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc: imap) (lo hi: int) (pos: imap) (cc: imap) (co: int) (cv: vmap) (vo: int) (cur nn: ref int) (prev k: int)
    requires { 0 <= !cur <= k /\ 0 <= !nn = crank ac av bp bc bv alo ahi mc lo hi 0 !cur /\ cout ac av bp bc bv alo ahi mc lo hi !cur cc co cv vo !nn }
    requires { posok ac bp alo ahi pos } requires { forall j x. alo <= j < ahi -> pos[j] <= x < bp[ac[j]+1] -> bc[x] >= k }
    requires { not (is_in mc lo hi !cur) -> (foldp ac av bp bc bv alo ahi pos !cur <> None <-> prev = !cur) }
    requires { is_in mc lo hi !cur -> prev <> !cur }
    requires { prev = !cur -> cc[co + !nn] = !cur /\ foldp ac av bp bc bv alo ahi pos !cur = Some cv[vo + !nn] }
    requires { forall c. !cur < c < k -> foldp ac av bp bc bv alo ahi pos c = None }
    writes { cur, nn }
    ensures { !cur = k /\ !nn = crank ac av bp bc bv alo ahi mc lo hi 0 k /\ cout ac av bp bc bv alo ahi mc lo hi k cc co cv vo !nn }
    ensures { !nn = old !nn + (if k > old !cur && prev = old !cur then 1 else 0) }
  = let c0 = !cur in let n0 = !nn in
    csadv ac av bp bc bv alo ahi mc lo hi pos cur nn prev k;
    if c0 < k then begin
      if prev = c0 then begin cout_push ac av bp bc bv alo ahi mc lo hi c0 cc co cv vo n0; cout_skips ac av bp bc bv alo ahi mc lo hi (c0+1) k cc co cv vo (n0+1) end
      else cout_skips ac av bp bc bv alo ahi mc lo hi c0 k cc co cv vo n0
    end
  predicate rows_lt (bp bc: imap) (n: int) = forall r. 0 <= r < n -> sorted_lt bc bp[r] bp[r+1]
  (* everything still to be merged lies at or above the top of the heap *)
  let ghost above (k r l: imap) (n: int) (slot pos ac bp bc: imap) (alo ahi bn: int)
    requires { hp 0 k r l n slot pos ac bp bc alo ahi } requires { heap_from k 0 n /\ n >= 1 } requires { rows_lt bp bc bn }
    requires { forall j. alo <= j < ahi -> 0 <= ac[j] < bn }
    ensures { forall j x. alo <= j < ahi -> pos[j] <= x < bp[ac[j]+1] -> k[0] <= bc[x] }
  = heap_top k n n;
    assert { forall j. alo <= j < ahi -> pos[j] < bp[ac[j]+1] -> k[0] <= bc[pos[j]] };
    assert { forall j x. alo <= j < ahi -> pos[j] <= x < bp[ac[j]+1] -> bc[pos[j]] <= bc[x] }
end
