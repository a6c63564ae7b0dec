module Align
  use base.Base
  (* going up by what is missing to the next multiple *)
  let lemma align_up (a al: int)
    requires { al > 0 } ensures { mod a al <> 0 -> mod (a + (al - mod a al)) al = 0 } ensures { 0 <= mod a al < al }
  = assert { a + (al - mod a al) = al * (div a al + 1) + 0 };
    assert { mod (al * (div a al + 1) + 0) al = mod 0 al }
  let lemma mod_down (a al: int)
    requires { al > 0 } ensures { mod (a - mod a al) al = 0 }
  = assert { a - mod a al = al * (div a al) + 0 };
    assert { mod (al * (div a al) + 0) al = mod 0 al }
  (* a multiple of n is a multiple of every divisor of n *)
  let lemma mod_trans (a n d: int)
    requires { n > 0 /\ d > 0 /\ mod n d = 0 /\ mod a n = 0 } ensures { mod a d = 0 }
  = assert { a = d * (div n d * div a n) + 0 };
    assert { mod (d * (div n d * div a n) + 0) d = mod 0 d }
end
