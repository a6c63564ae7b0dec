module Merge
  use base.Base
  use spec.Spec
  (* the entries of a sorted row from position k on do not touch columns below bc[k] *)
  let rec ghost foldk_rest (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo j: int) (a: nt) (lo k hi: int)
    requires { lo <= k < hi /\ sorted_lt bc lo hi }
    ensures { forall c. c < bc[k] -> foldk (foldj ac av bp bc bv alo j c) a bc bv lo hi c = foldk (foldj ac av bp bc bv alo j c) a bc bv lo k c }
    variant { hi - k }
  = if k < hi - 1 then foldk_rest ac av bp bc bv alo j a lo k (hi-1)

  (* states kept by mask position count the mask entries with a product *)
  let rec ghost cnt_rank (ac: imap) (av: vmap) (bp bc: imap) (bv: vmap) (alo ahi:int) (mc st: imap) (v lo hi: int)
    requires { lo <= hi }
    requires { forall i. 0 <= i < hi - lo -> (st[i] = v <-> foldj ac av bp bc bv alo ahi mc[lo + i] <> None) }
    ensures { cnt st v 0 (hi - lo) = rank ac av bp bc bv alo ahi mc lo hi }
    variant { hi - lo }
  = if lo < hi then begin assert { mc[lo + (hi - 1 - lo)] = mc[hi-1] }; cnt_rank ac av bp bc bv alo ahi mc st v lo (hi-1) end
end
