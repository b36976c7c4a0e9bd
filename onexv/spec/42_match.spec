# ---------------------------------------------------------------------------
# Looking for the best group of one length and the best member of a group
# ---------------------------------------------------------------------------
# b is not above the distance of any of the first i views to q (up to one rounding of the cutoff)
%% type views = map int view
%% opaque best_rep (code: int) (rv: views) (q: view) (l: int) (ratio: dbl) (fl: bool) (i: int) (b: dbl) =
   forall j: int [rv[j]]. 0 <= j < i -> notcloser code b (if fl then dval code q rv[j] ratio else dval code rv[j] q ratio) l
%% lemma rep_none (code: int) (rv: views) (q: view) (l: int) (ratio: dbl) (fl: bool) (b: dbl) : unit
  ensures { best_rep code rv q l ratio fl 0 b }
= best_rep_def code rv q l ratio fl 0 b
%% predicate rep_cut (code: int) (x: dbl) (a q: view) (c: dbl) (ratio: dbl) (fl: bool) = if fl then dist_cut code x q a c ratio else dist_cut code x a q c ratio
%% lemma rep_step (code: int) (rv: views) (q: view) (l: int) (ratio: dbl) (fl: bool) (i: int) (b c: dbl) : unit
  requires { best_rep code rv q l ratio fl i c /\ 0.0 <=. dv b <=. dv c /\ 0 < l <= 2147483647 /\ i >= 0 /\ l = (if fl then max2 q.vl rv[i].vl else max2 rv[i].vl q.vl) }
  ensures { forall x: dbl [dv x]. rep_cut code x rv[i] q c ratio fl -> dv b <=. dv x -> best_rep code rv q l ratio fl (i+1) b }
= cutr_mono code b c l; best_rep_def code rv q l ratio fl i c; best_rep_def code rv q l ratio fl (i+1) b;
  assert { forall x: dbl [dv x]. rep_cut code x rv[i] q c ratio fl -> dv b <=. dv x -> notcloser code b (if fl then dval code q rv[i] ratio else dval code rv[i] q ratio) l }
%% lemma rep_all (code: int) (rv: views) (q: view) (l: int) (ratio: dbl) (fl: bool) (i: int) (b: dbl) : unit
  requires { best_rep code rv q l ratio fl i b }
  ensures { forall j: int [rv[j]]. 0 <= j < i -> notcloser code b (if fl then dval code q rv[j] ratio else dval code rv[j] q ratio) l }
= best_rep_def code rv q l ratio fl i b

# the views of all centroids of a space, as a value
%% assume views_of (s: int) : views ensures { forall i: int [result[i]]. result[i] = tv (spc s i) }
# a group space that can be searched: centroid i is a valid finite series of the length
%% predicate cen_use (s i: int) = let c = spc s i in ts_use c /\ @TimeSeries.length[c] = @LocalLengthGroupSpace.length[s] /\ vfin (tv c)
%% predicate sp_use (s n: int) = forall i: int [spg s i]. 0 <= i < n -> cen_use s i
# o is the centroid of a group with membership table t; o_ is an envelope array of such a series
%% predicate cen_of (t o: int) = o > 0 /\ cls o = cls_TimeSeries /\ let g = @gh_home[o] in @Group.memberMap[g] = t /\ @Group.centroid[g] = o
%% predicate env_of (t o: int) = cen_of t (- @bown[o])
fn LocalLengthGroupSpace::getNumberOfGroups ()
  ensures C05,C14 [the number of groups] { result = spn this }
  noraise
fn LocalLengthGroupSpace::getGroup (idx)
  ensures C14 [the group at that index] { 0 <= p_idx < spn this /\ result = spg this p_idx }
  raises E_onex C14 [refused exactly out of range] { p_idx < 0 \/ p_idx >= spn this }
fn LocalLengthGroupSpace::getBestGroup (query, warpedDistance, dropout)
  requires [the groups are valid] { sp_base this /\ sp_fld this (spn this) /\ sp_use this (spn this) }
  requires [a distance function] { is_dist p_warpedDistance }
  requires [the query is valid and finite] { ts_use p_query /\ vfin (tv p_query) }
  requires [ratio in range] { ratio_ok }
  requires [the cutoff is not negative] { dv p_dropout >=. 0.0 }
  ensures C07,C08 [a group of this space with its distance, or the cutoff] { let (g, b) = result in
     if g = 0 then b = p_dropout else exists i: int. 0 <= i < spn this /\ g = spg this i /\ dv b <. dv p_dropout /\ b = dval p_warpedDistance (tv (spc this i)) (tv p_query) @gv_warpingBandRatio }
  ensures C08 [no group is closer] { let (_, b) = result in forall i: int [spc this i]. 0 <= i < spn this ->
     notcloser p_warpedDistance b (dval p_warpedDistance (tv (spc this i)) (tv p_query) @gv_warpingBandRatio) (max2 @LocalLengthGroupSpace.length[this] (tv p_query).vl) }
  ensures [the result is not negative] { let (_, b) = result in dv b >=. 0.0 }
  ensures C19 [the series stay valid] { sp_use this (spn this) /\ ts_use p_query }
  ensures C04,C19 [other series stay as they are] { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> not cen_of (spm this) t -> t <> p_query -> old (ts_use t) ->
    ts_use t /\ tv t = old (tv t) /\ @TimeSeries.keoghLower[t] = old @TimeSeries.keoghLower[t] /\ @TimeSeries.keoghUpper[t] = old @TimeSeries.keoghUpper[t] }
  ensures [the views stay] { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> old (ts_use t) -> tv t = old (tv t) }
  modifies TimeSeries.envelope: { cen_of (spm this) o_ \/ o_ = p_query }
  modifies own: { env_of (spm this) o_ \/ @bown[o_] = - p_query }
  modifies mem: { env_of (spm this) o_ \/ @bown[o_] = - p_query }
  raises E_onex C18 [only the Euclidean distance of different lengths is refused] { p_warpedDistance = code_pairwiseDistance /\ @LocalLengthGroupSpace.length[this] <> @TimeSeries.length[p_query] }
  entry { let ghost n0 = pure { spn this } in let ghost len = pure { @LocalLengthGroupSpace.length[this] } in let ghost rv = views_of this in let ghost qv = pure { tv p_query } in
    let ghost lm = pure { max2 len qv.vl } in let ghost ratio = pure { @gv_warpingBandRatio } in let ghost t = pure { spm this } in
    rep_none p_warpedDistance rv qv lm ratio false p_dropout }
  loop 1
  invariant [range] { 0 <= $i <= n0 }
  invariant C19 [the centroids stay valid] { sp_use this n0 /\ ts_use p_query }
  invariant C07 [the series stay the same] { tv p_query = qv /\ forall j: int [spc this j]. 0 <= j < n0 -> tv (spc this j) = rv[j] }
  invariant C08 [no group so far is closer] { best_rep p_warpedDistance rv qv lm ratio false $i $bestSoFarDist }
  invariant C07,C08 [the distance is that of the chosen group] { if $bestSoFarGroup = 0 then $bestSoFarDist = p_dropout else
     exists k: int. 0 <= k < n0 /\ $bestSoFarGroup = spg this k /\ dv $bestSoFarDist <. dv p_dropout /\ $bestSoFarDist = dval p_warpedDistance rv[k] qv ratio }
  invariant [not negative] { 0.0 <=. dv $bestSoFarDist <=. dv p_dropout }
  variant { n0 - $i }
  begin { let ghost b0 = $bestSoFarDist in }
  before-call distanceFromCentroid { let ghost c = pure { spc this $i } in
     assert { cen_of t c };
     assert { forall j: int [spc this j]. 0 <= j < n0 -> j <> $i -> spc this j <> c };
     assert { forall o: int [@bown[o]]. kb_of c o -> env_of t o };
     assert { forall o: int [@bown[o]]. kb_of p_query o -> @bown[o] = - p_query };
     assert { forall o: int [@imem[o]]. l1_dkind[o] <> 0 -> not cen_of t (- l1_bown[o]) -> l1_bown[o] <> - p_query -> @dkind[o] <> 0 /\ not kb_of c o /\ not kb_of p_query o } }
  after-call distanceFromCentroid { assert { tv c = rv[$i] }; assert { tv p_query = qv }; assert { sp_use this n0 };
     assert { forall j: int [spc this j]. 0 <= j < n0 -> tv (spc this j) = rv[j] } }
  end { rep_step p_warpedDistance rv qv lm ratio false $i $bestSoFarDist b0 }
  after { rep_all p_warpedDistance rv qv lm ratio false n0 $bestSoFarDist }

# ---- the members of a group, from the last to the first
%% opaque chain (mv: map int r_group_membership_t) (sqi: coordmap) (c n w: int) = forall k: int [sqi[k]]. 0 <= k < c -> coord_in n w sqi[k]
   /\ mv[cpos w sqi[k]].r_group_membership_t_prev = (if k = 0 then noone else sqi[k-1])
%% lemma part_chain (mv: map int r_group_membership_t) (sq: seqs) (rk cn: map int int) (g n w i: int) : unit
  requires { part mv sq rk cn g n w /\ 0 <= i < g }
  ensures { chain mv sq[i] cn[i] n w /\ cn[i] >= 0 }
= part_def mv sq rk cn g n w; chain_def mv (pure { sq[i] }) (pure { cn[i] }) n w
%% lemma chain_at (mv: map int r_group_membership_t) (sqi: coordmap) (c n w k: int) : unit
  requires { chain mv sqi c n w /\ 0 <= k < c }
  ensures { let (x, s) = sqi[k] in 0 <= x < n /\ 0 <= s < w /\ 0 <= x * w + s < n * w /\ mv[x * w + s].r_group_membership_t_prev = (if k = 0 then noone else sqi[k-1]) }
= chain_def mv sqi c n w; let (x, s) = sqi[k] in mpos_at w x s; mpos_in w x s n
%% function gseq (g: int) : coordmap = @gh_seq[gmm g][@Group.groupIndex[g]]
%% predicate g_walk (g: int) = let d = @Group.dataset[g] in let w = @Group.subTimeSeriesCount[g] in g > 0 /\ @alive[g] /\ ds_ok d /\ ds_fin d /\ 1 <= @Group.memberLength[g] <= @TimeSeriesSet.itemLength[d]
  /\ w = @TimeSeriesSet.itemLength[d] - @Group.memberLength[g] + 1 /\ @n_group_membership_t[gmm g] = @TimeSeriesSet.itemCount[d] * w
  /\ 1 <= @Group.count[g] /\ @Group.lastMemberCoord[g] = (gseq g)[@Group.count[g] - 1] /\ chain @v_group_membership_t[gmm g] (gseq g) @Group.count[g] @TimeSeriesSet.itemCount[d] w
%% function gview (g: int) (p: coord) : view = sview (dsm @Group.dataset[g]) @TimeSeriesSet.itemLength[@Group.dataset[g]] @Group.memberLength[g] p
%% predicate ts_coord (t d l: int) (p: coord) = let (x, s) = p in ts_row t d x s (s + l)
%% assume views_mem (m: map int dbl) (rl l: int) (sq: coordmap) (c: int) : views ensures { forall j: int [result[j]]. result[j] = sview m rl l sq[c-1-j] }
%% lemma rep_mem (code: int) (rv: views) (q: view) (l: int) (ratio: dbl) (m: map int dbl) (rl le: int) (sq: coordmap) (c: int) (b: dbl) : unit
  requires { best_rep code rv q l ratio true c b /\ forall j: int [rv[j]]. rv[j] = sview m rl le sq[c-1-j] }
  ensures { forall k: int [sq[k]]. 0 <= k < c -> notcloser code b (dval code q (sview m rl le sq[k]) ratio) l }
= best_rep_def code rv q l ratio true c b;
  assert { forall k: int [sq[k]]. 0 <= k < c -> rv[c-1-k] = sview m rl le sq[k] }
fn Group::getBestMatch (query, warpedDistance)
  requires [the group has members] { g_walk this }
  requires [a distance function] { is_dist p_warpedDistance }
  requires [the query is valid and finite] { ts_use p_query /\ vfin (tv p_query) }
  requires [ratio in range] { ratio_ok }
  ensures C07,C08 [a member with its exact distance] { let o = result in let t = @candidate_time_series_t.data[o] in let b = @candidate_time_series_t.dist[o] in dv b <. dv inf ->
     exists k: int. 0 <= k < @Group.count[this] /\ ts_coord t @Group.dataset[this] @Group.memberLength[this] (gseq this)[k]
        /\ b = dval p_warpedDistance (tv p_query) (gview this (gseq this)[k]) @gv_warpingBandRatio }
  ensures C08 [no member is closer] { let b = @candidate_time_series_t.dist[result] in forall k: int [(gseq this)[k]]. 0 <= k < @Group.count[this] ->
     notcloser p_warpedDistance b (dval p_warpedDistance (tv p_query) (gview this (gseq this)[k]) @gv_warpingBandRatio) (max2 (tv p_query).vl @Group.memberLength[this]) }
  ensures C07 [some subsequence of the length of the group] { exists p: coord. coord_in @TimeSeriesSet.itemCount[@Group.dataset[this]] @Group.subTimeSeriesCount[this] p /\
     ts_coord @candidate_time_series_t.data[result] @Group.dataset[this] @Group.memberLength[this] p }
  ensures C07,C19 [a valid series of its own] { let t = @candidate_time_series_t.data[result] in result > 0 /\ not (old @alive)[result] /\ @alive[result] /\ not (old @alive)[t] /\ ts_use t /\ ts_fresh t }
  ensures C19 [the query stays valid] { ts_use p_query }
  ensures C04,C19 [other series stay as they are] { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> t <> p_query -> old (ts_use t) ->
    ts_use t /\ tv t = old (tv t) /\ @TimeSeries.keoghLower[t] = old @TimeSeries.keoghLower[t] /\ @TimeSeries.keoghUpper[t] = old @TimeSeries.keoghUpper[t] }
  ensures [the views stay] { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> old (ts_use t) -> tv t = old (tv t) }
  modifies TimeSeries.envelope: p_query
  modifies own: { @bown[o_] = - p_query }
  modifies mem: { @bown[o_] = - p_query }
  raises E_onex C18 [only the Euclidean distance of different lengths is refused] { p_warpedDistance = code_pairwiseDistance /\ @Group.memberLength[this] <> @TimeSeries.length[p_query] }
  entry { let ghost d = pure { @Group.dataset[this] } in let ghost n = pure { @TimeSeriesSet.itemCount[d] } in let ghost w = pure { @Group.subTimeSeriesCount[this] } in let ghost rl = pure { @TimeSeriesSet.itemLength[d] } in
    let ghost len = pure { @Group.memberLength[this] } in let ghost c = pure { @Group.count[this] } in let ghost sq = pure { gseq this } in let ghost m0 = pure { dsm d } in let ghost qv = pure { tv p_query } in
    let ghost mv = pure { @v_group_membership_t[gmm this] } in let ghost lm = pure { max2 qv.vl len } in let ghost ratio = pure { @gv_warpingBandRatio } in let ghost rv = views_mem m0 rl len sq c in
    chain_at mv sq c n w (c - 1); let ghost kk = ref c in
    rep_none p_warpedDistance rv qv lm ratio true inf }
  loop 1
  invariant [range] { 0 <= !kk <= c }
  invariant C07,C08 [the walk follows the links] { $currentMemberCoord = (if !kk = 0 then noone else sq[!kk - 1]) }
  invariant C19 [the series stay valid] { ts_use p_query /\ tv p_query = qv }
  invariant [the dataset is untouched] { dsm d = m0 }
  invariant C08 [no member so far is closer] { best_rep p_warpedDistance rv qv lm ratio true (c - !kk) $bestSoFarDist }
  invariant C07,C08 [the distance is that of the chosen member] { if $bestSoFarDist = inf then $bestSoFarMember = (0, 0) else
     exists k: int. 0 <= k < c /\ $bestSoFarMember = sq[k] /\ dv $bestSoFarDist <. dv inf /\ $bestSoFarDist = dval p_warpedDistance qv (sview m0 rl len sq[k]) ratio }
  invariant [a valid coordinate] { coord_in n w $bestSoFarMember }
  invariant [not negative] { 0.0 <=. dv $bestSoFarDist }
  variant { !kk }
  begin { let ghost b0 = $bestSoFarDist in chain_at mv sq c n w (!kk - 1);
    let ghost p = pure { sq[!kk - 1] } in (let (x, s) = p in row_in x 0 n rl; sview_fin m0 rl len n x s) }
  after-call getTimeSeries#1 { assert { dsm d = m0 /\ tv p_query = qv } }
  end { rep_step p_warpedDistance rv qv lm ratio true (c - !kk) $bestSoFarDist b0; kk := !kk - 1 }
  after { if !kk > 0 then chain_at mv sq c n w (!kk - 1); rep_mem p_warpedDistance rv qv lm ratio m0 rl len sq c $bestSoFarDist; (let (x, s) = $bestSoFarMember in row_in x 0 n rl) }
  after-call getTimeSeries#2 { assert { dsm d = m0 /\ tv p_query = qv } }
  exit { assert { dsm d = m0 /\ tv p_query = qv /\ gseq this = sq } }
