# ---------------------------------------------------------------------------
# Searching all compatible lengths of a dataset
# ---------------------------------------------------------------------------
# views of all representatives by length and group; number of groups by length
%% type vviews = map int views
%% assume all_views (s: int) : vviews ensures { forall l i: int [result[l][i]]. result[l][i] = tv (spc (gsp s l) i) }
%% assume all_counts (s: int) : map int int ensures { forall l: int [result[l]]. result[l] = spn (gsp s l) }
# no representative of the first n lengths of the order is closer to q than b (up to one rounding of the cutoff)
%% opaque gbest (code: int) (rv: vviews) (cn: map int int) (ord: map int int) (n: int) (q: view) (ratio: dbl) (b: dbl) =
   forall k i: int [rv[ord[k]][i]]. 0 <= k < n -> 0 <= i < cn[ord[k]] -> notcloser code b (dval code rv[ord[k]][i] q ratio) (max2 ord[k] q.vl)
%% lemma gbest_none (code: int) (rv: vviews) (cn: map int int) (ord: map int int) (q: view) (ratio: dbl) (b: dbl) : unit
  ensures { gbest code rv cn ord 0 q ratio b }
= gbest_def code rv cn ord 0 q ratio b
%% lemma gbest_less (code: int) (rv: vviews) (cn: map int int) (ord: map int int) (n: int) (q: view) (ratio: dbl) (b c: dbl) : unit
  requires { gbest code rv cn ord n q ratio c /\ 0.0 <=. dv b <=. dv c /\ 0 < q.vl <= 2147483647 /\ forall k: int [ord[k]]. 0 <= k < n -> ord[k] <= 2147483647 }
  ensures { gbest code rv cn ord n q ratio b }
  variant { n }
= gbest_def code rv cn ord n q ratio c; gbest_def code rv cn ord n q ratio b;
  if n > 0 then begin gbest_def code rv cn ord (n - 1) q ratio c; gbest_less code rv cn ord (n - 1) q ratio b c; gbest_def code rv cn ord (n - 1) q ratio b;
    cutr_mono code b c (pure { max2 ord[n-1] q.vl }) end
%% lemma gbest_step (code: int) (rv: vviews) (cn: map int int) (ord: map int int) (n: int) (q: view) (ratio: dbl) (b c: dbl) : unit
  requires { gbest code rv cn ord n q ratio c /\ 0.0 <=. dv b <=. dv c /\ n >= 0 /\ 0 < q.vl <= 2147483647 /\ forall k: int [ord[k]]. 0 <= k < n -> ord[k] <= 2147483647 }
  requires { forall i: int [rv[ord[n]][i]]. 0 <= i < cn[ord[n]] -> notcloser code b (dval code rv[ord[n]][i] q ratio) (max2 ord[n] q.vl) }
  ensures { gbest code rv cn ord (n + 1) q ratio b }
= gbest_less code rv cn ord n q ratio b c; gbest_def code rv cn ord n q ratio b; gbest_def code rv cn ord (n + 1) q ratio b
%% lemma gbest_all (code: int) (rv: vviews) (cn: map int int) (ord: map int int) (n t: int) (q: view) (ratio: dbl) (b: dbl) : unit
  requires { gbest code rv cn ord n q ratio b /\ forall l: int. 2 <= l <= t -> compat l q.vl ratio -> exists k: int. 0 <= k < n /\ ord[k] = l }
  ensures { forall l i: int [rv[l][i]]. 2 <= l <= t -> compat l q.vl ratio -> 0 <= i < cn[l] -> notcloser code b (dval code rv[l][i] q ratio) (max2 l q.vl) }
= gbest_def code rv cn ord n q ratio b
# the spaces can be searched
%% predicate gs_use (s hi: int) = forall l i: int [spg (gsp s l) i]. 2 <= l < hi -> 0 <= i < spn (gsp s l) -> cen_use (gsp s l) i
%% predicate gs_ready (s: int) = let d = @GlobalGroupSpace.dataset[s] in gs_live s /\ ds_ok d /\ ds_fin d /\ gsn s = @TimeSeriesSet.itemLength[d] + 1 /\ gs_base s (gsn s) /\ gs_fld s (gsn s) /\ gs_use s (gsn s) /\ gs_part s (gsn s) /\ gs_full s (gsn s) /\ gs_low s
   /\ @GlobalGroupSpace.warpedDistance[s] = code_cascadeDistance
fn GlobalGroupSpace::getBestMatch (query)
  opt vc sp
  requires [the dataset is grouped] { gs_ready this }
  requires [the groups can be released] { gs_dels this 0 /\ gs_grps this 0 }
  requires [lengths] { 0 < @TimeSeries.length[p_query] <= 67108862 /\ @TimeSeriesSet.itemLength[@GlobalGroupSpace.dataset[this]] <= 67108862 }
  requires [the query is valid and finite] { ts_use p_query /\ vfin (tv p_query) }
  requires [ratio in range] { ratio_ok }
  ensures C07,C08 [a member of the nearest group of all compatible lengths, with its exact distance] { let o = result in let t = @candidate_time_series_t.data[o] in let b = @candidate_time_series_t.dist[o] in
     let d = @GlobalGroupSpace.dataset[this] in let q = old (tv p_query) in
     exists l i: int. 2 <= l < gsn this /\ compat l q.vl @gv_warpingBandRatio /\ 0 <= i < spn (gsp this l) /\
       (dv b <. dv inf -> exists k: int. 0 <= k < @gh_cnt[spm (gsp this l)][i] /\ ts_coord t d l @gh_seq[spm (gsp this l)][i][k] /\ b = dval code_cascadeDistance q (spv (gsp this l) @gh_seq[spm (gsp this l)][i][k]) @gv_warpingBandRatio)
       /\ (forall k: int [@gh_seq[spm (gsp this l)][i][k]]. 0 <= k < @gh_cnt[spm (gsp this l)][i] -> notcloser code_cascadeDistance b (dval code_cascadeDistance q (spv (gsp this l) @gh_seq[spm (gsp this l)][i][k]) @gv_warpingBandRatio) (max2 q.vl l))
       /\ (let c = dval code_cascadeDistance (tv (spc (gsp this l) i)) q @gv_warpingBandRatio in dv c <. dv inf /\
           forall m j: int [spg (gsp this m) j]. 2 <= m < gsn this -> compat m q.vl @gv_warpingBandRatio -> 0 <= j < spn (gsp this m) -> notcloser code_cascadeDistance c (dval code_cascadeDistance (tv (spc (gsp this m) j)) q @gv_warpingBandRatio) (max2 m q.vl)) }
  ensures C07 [a subsequence of the dataset] { exists l: int. exists p: coord. 2 <= l < gsn this /\ ts_coord @candidate_time_series_t.data[result] @GlobalGroupSpace.dataset[this] l p }
  ensures C07,C19 [a valid series of its own] { let t = @candidate_time_series_t.data[result] in result > 0 /\ not (old @alive)[result] /\ @alive[result] /\ not (old @alive)[t] /\ ts_use t /\ ts_fresh t }
  ensures C16,C19 [the dataset stays searchable] { gs_ready this /\ ts_use p_query }
  ensures C04,C19 [other series stay as they are] { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> not gcen_of @GlobalGroupSpace.dataset[this] t -> t <> p_query -> old (ts_use t) ->
    ts_use t /\ tv t = old (tv t) /\ @TimeSeries.keoghLower[t] = old @TimeSeries.keoghLower[t] /\ @TimeSeries.keoghUpper[t] = old @TimeSeries.keoghUpper[t] }
  ensures [the values stay] { tv p_query = old (tv p_query) /\ dsm @GlobalGroupSpace.dataset[this] = old (dsm @GlobalGroupSpace.dataset[this]) }
  modifies TimeSeries.envelope: { gcen_of @GlobalGroupSpace.dataset[this] o_ \/ o_ = p_query }
  modifies own: { gcen_of @GlobalGroupSpace.dataset[this] (- @bown[o_]) \/ @bown[o_] = - p_query }
  modifies mem: { gcen_of @GlobalGroupSpace.dataset[this] (- @bown[o_]) \/ @bown[o_] = - p_query }
  raises E_onex C08 [refused only when the query is too short or no group of a compatible length is at a finite distance] { @TimeSeries.length[p_query] <= 1 \/
     let q = old (tv p_query) in forall m j: int [spg (gsp this m) j]. 2 <= m < gsn this -> compat m q.vl @gv_warpingBandRatio -> 0 <= j < spn (gsp this m) -> notcloser code_cascadeDistance inf (dval code_cascadeDistance (tv (spc (gsp this m) j)) q @gv_warpingBandRatio) (max2 m q.vl) }
  raises E_onex C16,C19 [the dataset stays searchable] { gs_ready this /\ ts_use p_query }
  raises E_onex [the values stay] { tv p_query = old (tv p_query) /\ dsm @GlobalGroupSpace.dataset[this] = old (dsm @GlobalGroupSpace.dataset[this]) }
  raises E_onex C16,C19 [the groups can be released] { gs_dels this 0 /\ gs_grps this 0 }
  entry { let ghost n0 = pure { gsn this } in let ghost d = pure { @GlobalGroupSpace.dataset[this] } in let ghost m0 = pure { dsm d } in let ghost qv = pure { tv p_query } in let ghost ratio = pure { @gv_warpingBandRatio } in
    let ghost rv = all_views this in let ghost cn = all_counts this in let ghost code = pure { code_cascadeDistance } in }
  after-call generateTraverseOrder { assert { gs_ready this } }
  loop 1
  before { let ghost ov = pure { @v_int[$order] } in let ghost on = pure { @n_int[$order] } in gbest_none code rv cn ov qv ratio $bestSoFarDist; assert { gs_ready this } }
  invariant [range] { 0 <= $io <= on }
  invariant C19 [the groups can be searched] { gs_use this n0 }
  invariant C19 [the dataset and the query stay the same] { dsm d = m0 /\ ds_ok d /\ ts_use p_query /\ tv p_query = qv }
  invariant C07 [the representatives stay the same] { forall l i: int [spg (gsp this l) i]. 2 <= l < n0 -> 0 <= i < spn (gsp this l) -> tv (spc (gsp this l) i) = rv[l][i] }
  invariant C08 [no group so far is closer] { gbest code rv cn ov $io qv ratio $bestSoFarDist }
  invariant C07,C08 [the distance is that of the chosen group] { if $bestSoFarGroup = 0 then $bestSoFarDist = inf else
     exists k i: int. 0 <= k < on /\ 0 <= i < cn[ov[k]] /\ $bestSoFarGroup = spg (gsp this ov[k]) i /\ dv $bestSoFarDist <. dv inf /\ $bestSoFarDist = dval code rv[ov[k]][i] qv ratio }
  invariant [not negative] { 0.0 <=. dv $bestSoFarDist <=. dv inf }
  variant { on - $io }
  begin { let ghost b0 = $bestSoFarDist in let ghost lio = pure { ov[$io] } in }
  before-call getBestGroup { let ghost p = pure { gsp this lio } in assert { gs_at this lio /\ sp_fld p (spn p) /\ sp_use p (spn p) } }
  end { gbest_step code rv cn ov $io qv ratio $bestSoFarDist b0 }
  after { gbest_all code rv cn ov on (n0 - 1) qv ratio $bestSoFarDist; assert { gs_base this n0 /\ gs_fld this n0 };
    assert { forall l: int [gsp this l]. 0 <= l < n0 -> gs_del this l };
    assert { forall l i: int [spg (gsp this l) i]. 0 <= l < n0 -> gsp this l <> 0 -> 0 <= i < spn (gsp this l) -> l >= 2 /\ grp_fld (gsp this l) i /\ cen_use (gsp this l) i };
    assert { forall l i: int [spg (gsp this l) i]. 0 <= l < n0 -> gsp this l <> 0 -> 0 <= i < spn (gsp this l) -> sp_del (gsp this l) i } }
  before-call getBestMatch { assert { gs_ready this }; let ghost g = $bestSoFarGroup in let ghost l = pure { @Group.memberLength[g] } in let ghost i = pure { @Group.groupIndex[g] } in let ghost p = pure { gsp this l } in
    assert { 2 <= l < n0 /\ 0 <= i < spn p /\ spg p i = g /\ compat l qv.vl ratio };
    assert { gs_at this l /\ grp_fld p i };
    part_chain (pure { @v_group_membership_t[spm p] }) (pure { @gh_seq[spm p] }) (pure { @gh_rank[spm p] }) (pure { @gh_cnt[spm p] }) (pure { spn p }) (pure { @TimeSeriesSet.itemCount[d] }) (pure { @LocalLengthGroupSpace.subTimeSeriesCount[p] }) i;
    assert { 1 <= @gh_cnt[spm p][i] };
    let ghost bo = @bown in let ghost dk = @dkind in }
  after-call getBestMatch { assert { dsm d = m0 }; assert { ds_ok d }; assert { ds_fin d };
    assert { forall l i: int [spg (gsp this l) i]. 2 <= l < n0 -> 0 <= i < spn (gsp this l) -> cen_use (gsp this l) i };
    assert { gs_base this n0 }; assert { gs_fld this n0 }; assert { gs_part this n0 }; assert { gs_full this n0 } }
  exit { assert { forall t: int [@TimeSeries.length[t] | @TimeSeries.keoghLower[t] | @TimeSeries.keoghUpper[t]]. old @alive[t] -> not old (gcen_of @GlobalGroupSpace.dataset[this] t) -> t <> p_query -> @TimeSeries.data[t] = old @TimeSeries.data[t] /\ @TimeSeries.isOwnerOfData[t] = old @TimeSeries.isOwnerOfData[t] /\ @TimeSeries.length[t] = old @TimeSeries.length[t] /\ @TimeSeries.keoghLower[t] = old @TimeSeries.keoghLower[t] /\ @TimeSeries.keoghUpper[t] = old @TimeSeries.keoghUpper[t] };
    assert { forall b: int [@bown[b]]. old @dkind[b] <> 0 -> not old (gcen_of @GlobalGroupSpace.dataset[this] (- @bown[b])) -> old @bown[b] <> - p_query -> @bown[b] = old @bown[b] /\ @dkind[b] = old @dkind[b] };
    assert { forall b: int [@dlen[b]]. old @dkind[b] <> 0 -> not old (gcen_of @GlobalGroupSpace.dataset[this] (- @bown[b])) -> old @bown[b] <> - p_query -> @dlen[b] = old @dlen[b] /\ @dmem[b] = old @dmem[b] };
    assert { forall t: int [@TimeSeries.length[t] | @TimeSeries.keoghLower[t] | @TimeSeries.keoghUpper[t]]. old @alive[t] -> not old (gcen_of @GlobalGroupSpace.dataset[this] t) -> t <> p_query -> old (ts_use t) -> forall b: int [old @bown[b]]. old (kb_of t b) -> old @bown[b] = - t /\ - (old @bown[b]) = t /\ old @dkind[b] <> 0 };
    assert { forall t: int [@TimeSeries.length[t] | @TimeSeries.keoghLower[t] | @TimeSeries.keoghUpper[t]]. old @alive[t] -> not old (gcen_of @GlobalGroupSpace.dataset[this] t) -> t <> p_query -> old (ts_use t) -> forall b: int [old @bown[b]]. old (kb_of t b) -> not old (gcen_of @GlobalGroupSpace.dataset[this] (- @bown[b])) /\ old @bown[b] <> - p_query };
    assert { forall t: int [@TimeSeries.length[t] | @TimeSeries.keoghLower[t] | @TimeSeries.keoghUpper[t]]. old @alive[t] -> not old (gcen_of @GlobalGroupSpace.dataset[this] t) -> t <> p_query -> old (ts_use t) -> @TimeSeries.keoghLower[t] = old @TimeSeries.keoghLower[t] -> forall b: int [@bown[b]]. old (kb_of t b) -> @dkind[b] = old @dkind[b] /\ @bown[b] = old @bown[b] /\ @dmem[b] = old @dmem[b] /\ @dlen[b] = old @dlen[b] };
    assert { forall t: int [@TimeSeries.length[t] | @TimeSeries.keoghLower[t] | @TimeSeries.keoghUpper[t]]. old (ts_use t) -> (let b = old (@TimeSeries.data[t]).pb in b <> 0 /\ old @bown[b] >= 0 /\ old @dkind[b] <> 0 /\ @dmem[b] = old @dmem[b] /\ @dlen[b] = old @dlen[b] /\ @bown[b] = old @bown[b] /\ @dkind[b] = old @dkind[b]) };
    assert { forall t: int [@TimeSeries.length[t] | @TimeSeries.keoghLower[t] | @TimeSeries.keoghUpper[t]]. old @alive[t] -> not old (gcen_of @GlobalGroupSpace.dataset[this] t) -> t <> p_query -> old (ts_use t) -> ts_ok t };
    assert { forall t: int [@TimeSeries.length[t] | @TimeSeries.keoghLower[t] | @TimeSeries.keoghUpper[t]]. old @alive[t] -> not old (gcen_of @GlobalGroupSpace.dataset[this] t) -> t <> p_query -> old (ts_use t) -> t > 0 /\ kblock t @TimeSeries.keoghLower[t] };
    assert { forall t: int [@TimeSeries.length[t] | @TimeSeries.keoghLower[t] | @TimeSeries.keoghUpper[t]]. old @alive[t] -> not old (gcen_of @GlobalGroupSpace.dataset[this] t) -> t <> p_query -> old (ts_use t) -> kblock t @TimeSeries.keoghUpper[t] };
    assert { forall t: int [@TimeSeries.length[t] | @TimeSeries.keoghLower[t] | @TimeSeries.keoghUpper[t]]. old @alive[t] -> not old (gcen_of @GlobalGroupSpace.dataset[this] t) -> t <> p_query -> old (ts_use t) -> ts_keogh t };
    assert { forall t: int [@TimeSeries.length[t] | @TimeSeries.keoghLower[t] | @TimeSeries.keoghUpper[t]]. old @alive[t] -> not old (gcen_of @GlobalGroupSpace.dataset[this] t) -> t <> p_query -> old (ts_use t) -> ts_own t };
    assert { forall t: int [@TimeSeries.length[t] | @TimeSeries.keoghLower[t] | @TimeSeries.keoghUpper[t]]. old @alive[t] -> not old (gcen_of @GlobalGroupSpace.dataset[this] t) -> t <> p_query -> old (ts_use t) -> ts_cache t };
    assert { forall t: int [@TimeSeries.length[t] | @TimeSeries.keoghLower[t] | @TimeSeries.keoghUpper[t]]. old @alive[t] -> not old (gcen_of @GlobalGroupSpace.dataset[this] t) -> t <> p_query -> old (ts_use t) -> ts_use t /\ tv t = old (tv t) };
    assert { forall t: int [@TimeSeries.length[t] | @TimeSeries.keoghLower[t] | @TimeSeries.keoghUpper[t]]. not gcen_of @GlobalGroupSpace.dataset[this] t -> not old (gcen_of @GlobalGroupSpace.dataset[this] t) } }
