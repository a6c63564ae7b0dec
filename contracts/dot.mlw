module Dot
  use base.Base
  use spec.Spec

  (* dot product of entries alo..ahi of a row (columns ac, values av) with entries blo..bhi of a column (rows br, values bv), in the order of the row *)
  let rec ghost function dot (ac: imap) (av: vmap) (alo ahi: int) (br: imap) (bv: vmap) (blo bhi: int) : option nt
    variant { ahi - alo } = if ahi <= alo then None else
      foldk (dot ac av alo (ahi-1) br bv blo bhi) av[ahi-1] br bv blo bhi ac[ahi-1]

  let rec ghost foldk_none (o: option nt) (a: nt) (br: imap) (bv: vmap) (lo hi c: int)
    requires { forall q. lo <= q < hi -> br[q] <> c }
    ensures { foldk o a br bv lo hi c = o }
    variant { hi - lo }
  = if lo < hi then foldk_none o a br bv lo (hi-1) c
  let rec ghost foldk_one (o: option nt) (a: nt) (br: imap) (bv: vmap) (lo q hi c: int)
    requires { lo <= q < hi /\ br[q] = c /\ sorted_lt br lo hi }
    ensures { foldk o a br bv lo hi c = step o (mulf a bv[q]) }
    variant { hi - q }
  = if q < hi - 1 then foldk_one o a br bv lo q (hi-1) c else foldk_none o a br bv lo (hi-1) c
  (* the rest of the row meets nothing *)
  let rec ghost dot_rest (ac: imap) (av: vmap) (alo p ahi: int) (br: imap) (bv: vmap) (blo bhi: int)
    requires { alo <= p <= ahi }
    requires { forall x q. p <= x < ahi -> blo <= q < bhi -> br[q] <> ac[x] }
    ensures { dot ac av alo ahi br bv blo bhi = dot ac av alo p br bv blo bhi }
    variant { ahi - p }
  = if p < ahi then begin
      dot_rest ac av alo p (ahi-1) br bv blo bhi;
      foldk_none (dot ac av alo (ahi-1) br bv blo bhi) av[ahi-1] br bv blo bhi ac[ahi-1] end
  (* once there is a product the dot product is defined *)
  let rec ghost foldk_some (o: option nt) (a: nt) (br: imap) (bv: vmap) (lo hi c: int)
    requires { o <> None }
    ensures { foldk o a br bv lo hi c <> None }
    variant { hi - lo }
  = if lo < hi then foldk_some o a br bv lo (hi-1) c
  let rec ghost dot_some (ac: imap) (av: vmap) (alo p ahi: int) (br: imap) (bv: vmap) (blo bhi: int)
    requires { alo <= p <= ahi /\ dot ac av alo p br bv blo bhi <> None }
    ensures { dot ac av alo ahi br bv blo bhi <> None }
    variant { ahi - p }
  = if p < ahi then begin
      dot_some ac av alo p (ahi-1) br bv blo bhi;
      foldk_some (dot ac av alo (ahi-1) br bv blo bhi) av[ahi-1] br bv blo bhi ac[ahi-1] end
  let ghost dot_empty_col (ac: imap) (av: vmap) (alo ahi: int) (br: imap) (bv: vmap) (blo bhi: int)
    requires { bhi <= blo }
    ensures { dot ac av alo ahi br bv blo bhi = None }
  = if alo <= ahi then dot_rest ac av alo alo ahi br bv blo bhi

  (* number of mask entries in lo..hi whose dot product is defined; column c holds entries bp[c]..bp[c+1] *)
  let rec ghost function irank (ac: imap) (av: vmap) (alo ahi: int) (bp br: imap) (bv: vmap) (mc: imap) (lo hi: int) : int
    variant { hi - lo } = if hi <= lo then 0 else irank ac av alo ahi bp br bv mc lo (hi-1) +
      (match dot ac av alo ahi br bv bp[mc[hi-1]] bp[mc[hi-1]+1] with None -> 0 | _ -> 1 end)
  let rec lemma irank_bounds (ac: imap) (av: vmap) (alo ahi: int) (bp br: imap) (bv: vmap) (mc: imap) (lo hi: int)
    requires { lo <= hi }
    ensures { 0 <= irank ac av alo ahi bp br bv mc lo hi <= hi - lo }
    variant { hi - lo }
  = if lo < hi then irank_bounds ac av alo ahi bp br bv mc lo (hi-1)
  let rec ghost irank_mono (ac: imap) (av: vmap) (alo ahi: int) (bp br: imap) (bv: vmap) (mc: imap) (lo p hi: int)
    requires { lo <= p <= hi }
    ensures { irank ac av alo ahi bp br bv mc lo p <= irank ac av alo ahi bp br bv mc lo hi }
    variant { hi - p }
  = if p < hi then irank_mono ac av alo ahi bp br bv mc lo p (hi-1)
end
