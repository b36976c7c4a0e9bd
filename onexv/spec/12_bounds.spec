# ---------------------------------------------------------------------------
# Lower bounds and the distances with a cutoff
# ---------------------------------------------------------------------------
%% predicate vfin (v: view) = forall i: int [vat v i]. 0 <= i < v.vl -> fin (vat v i)
%% predicate ts_use (t: int) = @alive[t] /\ ts_inv t /\ 0 < @TimeSeries.length[t] <= 268435455
# what one position adds to the envelope bound
%% sym kterm (x l u: dbl) : dbl
%% axiom kterm_def : forall x l u: dbl [kterm x l u]. kterm x l u =
   (if dv x >. dv u then fmul (fsub x u) (fsub x u) else if dv x <. dv l then fmul (fsub x l) (fsub x l) else of_int 0)
# its accumulation over the first n positions
%% sym ksum (b: view) (lo up: map int dbl) (n: int) : dbl
%% axiom ksum_zero : forall b: view, lo up: map int dbl [ksum b lo up 0]. ksum b lo up 0 = of_int 0
%% assume ksum_step (b: view) (lo up: map int dbl) (n: int) : unit
  requires { n > 0 }
  ensures { ksum b lo up n = (let t = kterm (vat b (n-1)) lo[n-1] up[n-1] in if dv t = 0.0 then ksum b lo up (n-1) else fadd (ksum b lo up (n-1)) t) }
%% lemma kterm_nonneg (x l u: dbl) : unit
  ensures { dv (kterm x l u) >=. 0.0 }
= ()
%% lemma ksum_nonneg (b: view) (lo up: map int dbl) (n: int) : unit
  requires { n >= 0 }
  ensures { dv (ksum b lo up n) >=. 0.0 }
  variant { n }
= if n > 0 then begin ksum_step b lo up n; ksum_nonneg b lo up (n-1); kterm_nonneg (vat b (n-1)) (pure { lo[n-1] }) (pure { up[n-1] }) end
%% lemma ksum_mono (b: view) (lo up: map int dbl) (n k: int) : unit
  requires { 0 <= n <= k }
  ensures { dv (ksum b lo up n) <=. dv (ksum b lo up k) }
  variant { k }
= if n < k then begin ksum_step b lo up k; ksum_nonneg b lo up (k-1); kterm_nonneg (vat b (k-1)) (pure { lo[k-1] }) (pure { up[k-1] }); ksum_mono b lo up n (k-1) end
# one position never adds more than any point it can be aligned with
%% lemma kterm_point (a b: view) (r i j: int) (lo up: map int dbl) : unit
  requires { envl a r lo up /\ 0 <= i < a.vl /\ 0 <= j < b.vl /\ j < a.vl /\ i - j <= r /\ j - i <= r /\ vfin a /\ vfin b }
  ensures { dv (kterm (vat b j) lo[j] up[j]) <=. dv (pd a b i j) }
= inf_at_def a r j (pure { lo[j] }); sup_at_def a r j (pure { up[j] });
  assert { dv lo[j] <=. dv (vat a i) <=. dv up[j] /\ fin lo[j] /\ fin up[j] };
  assert { pd a b i j = fmul (fsub (vat b j) (vat a i)) (fsub (vat b j) (vat a i)) };
  if fgt (vat b j) (pure { up[j] }) then begin
    assert { dv (fsub (vat b j) up[j]) >=. 0.0 };
    assert { dv (fsub (vat b j) up[j]) <=. dv (fsub (vat b j) (vat a i)) } end
  else if flt (vat b j) (pure { lo[j] }) then begin
    assert { dv (fsub lo[j] (vat b j)) >=. 0.0 };
    assert { dv (fsub lo[j] (vat b j)) <=. dv (fsub (vat a i) (vat b j)) };
    assert { fmul (fsub (vat b j) lo[j]) (fsub (vat b j) lo[j]) = fmul (fsub lo[j] (vat b j)) (fsub lo[j] (vat b j)) } end
  else ()
%% lemma c03_keogh_cell (a b: view) (r i j: int) (lo up: map int dbl) : unit
  requires { r >= 0 /\ envl a r lo up /\ 0 <= i < a.vl /\ 0 <= j < b.vl /\ vfin a /\ vfin b }
  ensures { [@expl:C03|lemma|the envelope bound of the first positions is below every accumulated cost] dv (ksum b lo up (min2 (j+1) (min2 a.vl b.vl))) <=. dv (cell a b r i j) }
  variant { i + j }
= cell_nonneg a b r i j; cell_nonneg a b r (i-1) (j-1); cell_nonneg a b r (i-1) j; cell_nonneg a b r i (j-1);
  if i - j <= r && j - i <= r then begin
    let n = j + 1 in
    if j < pure { a.vl } then begin
      ksum_step b lo up n; kterm_point a b r i j lo up; ksum_nonneg b lo up j; kterm_nonneg (vat b j) (pure { lo[j] }) (pure { up[j] }) end;
    if i + j > 0 then begin
      cell_step a b r i j;
      if j > 0 then begin
        if i > 0 then c03_keogh_cell a b r (i-1) (j-1) lo up;
        c03_keogh_cell a b r i (j-1) lo up end;
      if i > 0 then c03_keogh_cell a b r (i-1) j lo up;
      if j < pure { a.vl } then begin
        let c = pure { dmin (dmin (cell a b r (i-1) (j-1)) (cell a b r i (j-1))) (cell a b r (i-1) j) } in
        assert { dv (ksum b lo up j) <=. dv (cell a b r (i-1) (j-1)) \/ i = 0 \/ j = 0 };
        assert { dv (ksum b lo up j) <=. dv c };
        assert { dv (ksum b lo up n) <=. dv (fadd c (pd a b i j)) }
      end
    end
  end
%% lemma c03_keogh (a b: view) (ratio: dbl) (lo up: map int dbl) (n: int) : unit
  requires { 0 < a.vl <= 2147483647 /\ 0 < b.vl <= 2147483647 /\ 0.0 <=. dv ratio <=. 1.0 /\ envl a (band (max2 a.vl b.vl) ratio) lo up /\ vfin a /\ vfin b /\ 0 <= n <= min2 a.vl b.vl }
  ensures { [@expl:C03|lemma|the envelope bound is below the warped distance] 0.0 <=. dv (dnorm (ksum b lo up n) (max2 a.vl b.vl)) <=. dv (dtw a b ratio) }
= let r = pure { band (max2 a.vl b.vl) ratio } in
  let la = pure { a.vl } in let lb = pure { b.vl } in
  c03_keogh_cell a b r (la-1) (lb-1) lo up;
  ksum_mono b lo up n (imin la lb); ksum_nonneg b lo up n

fn keoghLowerBound (a, b, dropout)
  requires [the series are valid] { ts_use p_a /\ ts_use p_b }
  requires [ratio in range] { ratio_ok }
  ensures C03 [the bound is below the warped distance] { vfin (tv p_a) -> vfin (tv p_b) -> dv result <=. dv (dtw (tv p_a) (tv p_b) @gv_warpingBandRatio) }
  ensures C03 [the bound is not negative] { dv result >=. 0.0 }
  ensures C04,C19 [the series stay valid] { ts_use p_a }
  ensures C19 [the envelope arrays are the earlier ones or new] { let l = @TimeSeries.keoghLower[p_a] in let u = @TimeSeries.keoghUpper[p_a] in
    (l.pb = 0 \/ (old @dkind)[l.pb] = 0 \/ l.pb = (old @TimeSeries.keoghLower[p_a]).pb \/ l.pb = (old @TimeSeries.keoghUpper[p_a]).pb)
    /\ (u.pb = 0 \/ (old @dkind)[u.pb] = 0 \/ u.pb = (old @TimeSeries.keoghLower[p_a]).pb \/ u.pb = (old @TimeSeries.keoghUpper[p_a]).pb) }
  modifies TimeSeries.envelope: p_a
  modifies own: { o_ <> 0 /\ (o_ = (@TimeSeries.keoghLower[p_a]).pb \/ o_ = (@TimeSeries.keoghUpper[p_a]).pb) }
  modifies mem: { o_ <> 0 /\ (o_ = (@TimeSeries.keoghLower[p_a]).pb \/ o_ = (@TimeSeries.keoghUpper[p_a]).pb) }
  noraise
  loop 1
  invariant [position] { 0 <= $i <= $len }
  invariant [the bound of the positions so far] { $lb = ksum (tv p_b) @dmem[($aLower).pb] @dmem[($aUpper).pb] $i }
  variant { $len - $i }
  begin { ksum_step (tv p_b) (pure { @dmem[($aLower).pb] }) (pure { @dmem[($aUpper).pb] }) ($i + 1) }
  after { if pure { vfin (tv p_a) /\ vfin (tv p_b) } then c03_keogh (tv p_a) (tv p_b) (pure { @gv_warpingBandRatio }) (pure { @dmem[($aLower).pb] }) (pure { @dmem[($aUpper).pb] }) $i; ksum_nonneg (tv p_b) (pure { @dmem[($aLower).pb] }) (pure { @dmem[($aUpper).pb] }) $i }

fn crossKeoghLowerBound (a, b, dropout)
  requires [the series are valid] { ts_use p_a /\ ts_use p_b }
  requires [ratio in range] { ratio_ok }
  ensures C03 [the bound is below the warped distance or infinite while the distance is above the cutoff] { vfin (tv p_a) -> vfin (tv p_b) ->
    dv result <=. dv (dtw (tv p_a) (tv p_b) @gv_warpingBandRatio) \/ (result = inf /\ dv (dtw (tv p_a) (tv p_b) @gv_warpingBandRatio) >. dv p_dropout) }
  ensures C03 [the bound is not negative] { dv result >=. 0.0 }
  ensures C04,C19 [the series stay valid] { ts_use p_a /\ ts_use p_b }
  ensures C19 [the envelope arrays are the earlier ones or new] { let l = @TimeSeries.keoghLower[p_a] in let u = @TimeSeries.keoghUpper[p_a] in
    (l.pb = 0 \/ (old @dkind)[l.pb] = 0 \/ l.pb = (old @TimeSeries.keoghLower[p_a]).pb \/ l.pb = (old @TimeSeries.keoghUpper[p_a]).pb \/ l.pb = (old @TimeSeries.keoghLower[p_b]).pb \/ l.pb = (old @TimeSeries.keoghUpper[p_b]).pb)
    /\ (u.pb = 0 \/ (old @dkind)[u.pb] = 0 \/ u.pb = (old @TimeSeries.keoghLower[p_a]).pb \/ u.pb = (old @TimeSeries.keoghUpper[p_a]).pb \/ u.pb = (old @TimeSeries.keoghLower[p_b]).pb \/ u.pb = (old @TimeSeries.keoghUpper[p_b]).pb) }
  ensures C19 [the envelope arrays are the earlier ones or new] { let l = @TimeSeries.keoghLower[p_b] in let u = @TimeSeries.keoghUpper[p_b] in
    (l.pb = 0 \/ (old @dkind)[l.pb] = 0 \/ l.pb = (old @TimeSeries.keoghLower[p_a]).pb \/ l.pb = (old @TimeSeries.keoghUpper[p_a]).pb \/ l.pb = (old @TimeSeries.keoghLower[p_b]).pb \/ l.pb = (old @TimeSeries.keoghUpper[p_b]).pb)
    /\ (u.pb = 0 \/ (old @dkind)[u.pb] = 0 \/ u.pb = (old @TimeSeries.keoghLower[p_a]).pb \/ u.pb = (old @TimeSeries.keoghUpper[p_a]).pb \/ u.pb = (old @TimeSeries.keoghLower[p_b]).pb \/ u.pb = (old @TimeSeries.keoghUpper[p_b]).pb) }
  modifies TimeSeries.envelope: p_a, p_b
  modifies own: { kb_of p_a o_ \/ kb_of p_b o_ }
  modifies mem: { kb_of p_a o_ \/ kb_of p_b o_ }
  noraise
  exit { c18_dtw_sym (tv p_a) (tv p_b) (pure { @gv_warpingBandRatio }) }
%% predicate kb_of (t o: int) = o <> 0 /\ (o = (@TimeSeries.keoghLower[t]).pb \/ o = (@TimeSeries.keoghUpper[t]).pb)
# an answer under a cutoff: the distance itself, or infinity when the distance is not below the cutoff
%% predicate dtw_cut (x d cut: dbl) (l: int) = x = d \/ (x = inf /\ (dv (rcut cut l) <=. dv d \/ dv cut <. dv d))

fn cascadeDistance (a, b, dropout)
  requires [the series are valid and finite] { ts_use p_a /\ ts_use p_b /\ vfin (tv p_a) /\ vfin (tv p_b) }
  requires [ratio in range] { ratio_ok }
  requires [the cutoff is not negative] { dv p_dropout >=. 0.0 }
  ensures C02,C03,C07 [the result is exact or the exact value is not below the cutoff]
    { dtw_cut result (dtw (tv p_a) (tv p_b) @gv_warpingBandRatio) p_dropout (max2 @TimeSeries.length[p_a] @TimeSeries.length[p_b]) }
  ensures C02 [without a cutoff the result is the warped distance] { p_dropout = inf -> result = dtw (tv p_a) (tv p_b) @gv_warpingBandRatio }
  ensures C18 [the result is not negative] { dv result >=. 0.0 }
  ensures C04,C19 [the series stay valid] { ts_use p_a /\ ts_use p_b }
  ensures C19 [the envelope arrays are the earlier ones or new] { let l = @TimeSeries.keoghLower[p_a] in let u = @TimeSeries.keoghUpper[p_a] in
    (l.pb = 0 \/ (old @dkind)[l.pb] = 0 \/ l.pb = (old @TimeSeries.keoghLower[p_a]).pb \/ l.pb = (old @TimeSeries.keoghUpper[p_a]).pb \/ l.pb = (old @TimeSeries.keoghLower[p_b]).pb \/ l.pb = (old @TimeSeries.keoghUpper[p_b]).pb)
    /\ (u.pb = 0 \/ (old @dkind)[u.pb] = 0 \/ u.pb = (old @TimeSeries.keoghLower[p_a]).pb \/ u.pb = (old @TimeSeries.keoghUpper[p_a]).pb \/ u.pb = (old @TimeSeries.keoghLower[p_b]).pb \/ u.pb = (old @TimeSeries.keoghUpper[p_b]).pb) }
  ensures C19 [the envelope arrays are the earlier ones or new] { let l = @TimeSeries.keoghLower[p_b] in let u = @TimeSeries.keoghUpper[p_b] in
    (l.pb = 0 \/ (old @dkind)[l.pb] = 0 \/ l.pb = (old @TimeSeries.keoghLower[p_a]).pb \/ l.pb = (old @TimeSeries.keoghUpper[p_a]).pb \/ l.pb = (old @TimeSeries.keoghLower[p_b]).pb \/ l.pb = (old @TimeSeries.keoghUpper[p_b]).pb)
    /\ (u.pb = 0 \/ (old @dkind)[u.pb] = 0 \/ u.pb = (old @TimeSeries.keoghLower[p_a]).pb \/ u.pb = (old @TimeSeries.keoghUpper[p_a]).pb \/ u.pb = (old @TimeSeries.keoghLower[p_b]).pb \/ u.pb = (old @TimeSeries.keoghUpper[p_b]).pb) }
  modifies TimeSeries.envelope: p_a, p_b
  modifies own: { kb_of p_a o_ \/ kb_of p_b o_ }
  modifies mem: { kb_of p_a o_ \/ kb_of p_b o_ }
  noraise

# ---- Euclidean distance
%% sym esum (a b: view) (n: int) : dbl
%% axiom esum_zero : forall a b: view [esum a b 0]. esum a b 0 = of_int 0
%% assume esum_step (a b: view) (n: int) : unit
  requires { n > 0 } ensures { esum a b n = fadd (esum a b (n-1)) (pd a b (n-1) (n-1)) }
%% function enorm (x: dbl) (n: int) : dbl = fsqrt (fdiv x (of_int n))
%% function ed (a b: view) : dbl = enorm (esum a b a.vl) a.vl
# a cutoff after one round trip through its own normalisation
%% function ecut (x: dbl) (n: int) : dbl = enorm (fmul (fmul x x) (of_int n)) n
%% lemma esum_mono (a b: view) (n k: int) : unit
  requires { 0 <= n <= k }
  ensures { 0.0 <=. dv (esum a b n) <=. dv (esum a b k) }
  variant { k }
= if k > 0 then begin
    esum_step a b k; esum_mono a b (if n < k then n else k-1) (k-1) end
%% lemma esum_sym (a b: view) (n: int) : unit
  requires { n >= 0 } ensures { esum a b n = esum b a n } variant { n }
= if n > 0 then begin esum_step a b n; esum_step b a n; esum_sym a b (n-1); assert { pd a b (n-1) (n-1) = pd b a (n-1) (n-1) } end
%% lemma esum_same (a b: view) (n: int) : unit
  requires { 0 <= n <= a.vl /\ vfin a /\ forall k: int [vat a k]. 0 <= k < a.vl -> vat a k = vat b k }
  ensures { dv (esum a b n) = 0.0 } variant { n }
= if n > 0 then begin esum_step a b n; esum_same a b (n-1); assert { dv (pd a b (n-1) (n-1)) = 0.0 } end
%% lemma c18_ed_sym (a b: view) : unit
  requires { a.vl = b.vl /\ a.vl > 0 }
  ensures { [@expl:C18|lemma|Euclidean distance is symmetric] ed a b = ed b a }
= esum_sym a b (pure { a.vl })
%% lemma c18_ed_zero (a b: view) : unit
  requires { 0 < a.vl <= 2147483647 /\ a.vl = b.vl /\ vfin a /\ forall k: int [vat a k]. 0 <= k < a.vl -> vat a k = vat b k }
  ensures { [@expl:C18|lemma|Euclidean distance of equal series is zero] dv (ed a b) = 0.0 }
= esum_same a b (pure { a.vl })
%% lemma ed_nonneg (a b: view) : unit
  requires { 0 < a.vl <= 2147483647 }
  ensures { [@expl:C18|lemma|Euclidean distance is not negative] dv (ed a b) >=. 0.0 }
= esum_mono a b 0 (pure { a.vl })
%% predicate ed_cut (x d cut: dbl) (l: int) = x = d \/ (x = inf /\ dv (ecut cut l) <=. dv d)

fn pairwiseDistance (x_1, x_2, dropout)
  requires [the series have valid storage] { ts_ok p_x_1 /\ ts_ok p_x_2 }
  requires [the series are not empty] { @TimeSeries.length[p_x_1] > 0 }
  requires [the cutoff is not negative] { dv p_dropout >=. 0.0 }
  ensures C02,C06,C18 [series of different lengths are refused] { @TimeSeries.length[p_x_1] = @TimeSeries.length[p_x_2] }
  ensures C02,C18 [without a cutoff the result is the root mean squared difference] { p_dropout = inf -> result = ed (tv p_x_1) (tv p_x_2) }
  ensures C02,C05,C06 [the result is exact or the exact value is not below the cutoff] { ed_cut result (ed (tv p_x_1) (tv p_x_2)) p_dropout @TimeSeries.length[p_x_1] }
  ensures C18 [the result is not negative] { dv result >=. 0.0 }
  raises E_onex C02,C18 [only series of different lengths are refused] { @TimeSeries.length[p_x_1] <> @TimeSeries.length[p_x_2] }
  loop 1
  invariant [position] { 0 <= $i <= @TimeSeries.length[p_x_1] }
  invariant [sum of the squared differences so far] { $total = esum (tv p_x_1) (tv p_x_2) $i }
  invariant [not dropped so far] { $dropped = false }
  variant { @TimeSeries.length[p_x_1] - $i }
  begin { esum_step (tv p_x_1) (tv p_x_2) ($i + 1); esum_mono (tv p_x_1) (tv p_x_2) ($i + 1) (pure { @TimeSeries.length[p_x_1] }) }
  exit { ed_nonneg (tv p_x_1) (tv p_x_2) }

# ---- distances by name and through function pointers
%% predicate is_dist (c: int) = c = code_pairwiseDistance \/ c = code_warpedDistance \/ c = code_cascadeDistance
# what a distance function answers under a cutoff
%% predicate dist_cut (c: int) (x: dbl) (a b: view) (cut ratio: dbl) =
  (c = code_pairwiseDistance -> a.vl = b.vl /\ ed_cut x (ed a b) cut a.vl) /\ (c <> code_pairwiseDistance -> dtw_cut x (dtw a b ratio) cut (max2 a.vl b.vl))
fn getDistance (distance_name)
  ensures C02,C18 [the name selects its distance] { (p_distance_name = STR(euclidean) /\ result = code_pairwiseDistance) \/ (p_distance_name = STR(euclidean_dtw) /\ result = code_warpedDistance) }
  raises E_onex C18 [exactly unknown names are refused] { p_distance_name <> STR(euclidean) /\ p_distance_name <> STR(euclidean_dtw) }

fn call_dist (code, a, b, dropout)
  requires [a distance function] { is_dist p_code }
  requires [the series are valid and finite] { ts_use p_a /\ ts_use p_b /\ vfin (tv p_a) /\ vfin (tv p_b) }
  requires [ratio in range] { ratio_ok }
  requires [the cutoff is not negative] { dv p_dropout >=. 0.0 }
  ensures C02,C06,C07 [the result is exact or the exact value is not below the cutoff] { dist_cut p_code result (tv p_a) (tv p_b) p_dropout @gv_warpingBandRatio }
  ensures C02,C06 [without a cutoff the result is the distance] { p_dropout = inf -> result = (if p_code = code_pairwiseDistance then ed (tv p_a) (tv p_b) else dtw (tv p_a) (tv p_b) @gv_warpingBandRatio) }
  ensures C18 [the result is not negative] { dv result >=. 0.0 }
  ensures C04,C19 [the series stay valid] { ts_use p_a /\ ts_use p_b }
  ensures C19 [the envelope arrays are the earlier ones or new] { let l = @TimeSeries.keoghLower[p_a] in let u = @TimeSeries.keoghUpper[p_a] in
    (l.pb = 0 \/ (old @dkind)[l.pb] = 0 \/ l.pb = (old @TimeSeries.keoghLower[p_a]).pb \/ l.pb = (old @TimeSeries.keoghUpper[p_a]).pb \/ l.pb = (old @TimeSeries.keoghLower[p_b]).pb \/ l.pb = (old @TimeSeries.keoghUpper[p_b]).pb)
    /\ (u.pb = 0 \/ (old @dkind)[u.pb] = 0 \/ u.pb = (old @TimeSeries.keoghLower[p_a]).pb \/ u.pb = (old @TimeSeries.keoghUpper[p_a]).pb \/ u.pb = (old @TimeSeries.keoghLower[p_b]).pb \/ u.pb = (old @TimeSeries.keoghUpper[p_b]).pb) }
  ensures C19 [the envelope arrays are the earlier ones or new] { let l = @TimeSeries.keoghLower[p_b] in let u = @TimeSeries.keoghUpper[p_b] in
    (l.pb = 0 \/ (old @dkind)[l.pb] = 0 \/ l.pb = (old @TimeSeries.keoghLower[p_a]).pb \/ l.pb = (old @TimeSeries.keoghUpper[p_a]).pb \/ l.pb = (old @TimeSeries.keoghLower[p_b]).pb \/ l.pb = (old @TimeSeries.keoghUpper[p_b]).pb)
    /\ (u.pb = 0 \/ (old @dkind)[u.pb] = 0 \/ u.pb = (old @TimeSeries.keoghLower[p_a]).pb \/ u.pb = (old @TimeSeries.keoghUpper[p_a]).pb \/ u.pb = (old @TimeSeries.keoghLower[p_b]).pb \/ u.pb = (old @TimeSeries.keoghUpper[p_b]).pb) }
  ensures C04,C19 [other series stay as they are] { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> t <> p_a -> t <> p_b -> old (ts_use t) ->
    ts_use t /\ tv t = old (tv t) /\ @TimeSeries.keoghLower[t] = old @TimeSeries.keoghLower[t] /\ @TimeSeries.keoghUpper[t] = old @TimeSeries.keoghUpper[t] }
  modifies TimeSeries.envelope: p_a, p_b
  modifies own: { kb_of p_a o_ \/ kb_of p_b o_ }
  modifies mem: { kb_of p_a o_ \/ kb_of p_b o_ }
  raises E_onex C02,C18 [only the Euclidean distance of different lengths is refused] { p_code = code_pairwiseDistance /\ @TimeSeries.length[p_a] <> @TimeSeries.length[p_b] }
