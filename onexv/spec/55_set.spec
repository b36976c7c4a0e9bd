# ---------------------------------------------------------------------------
# A dataset with its groups: groups belong to its current values
# ---------------------------------------------------------------------------
%% function gtg (d: int) : int = @GroupableTimeSeriesSet.groupsAllLengthSet[d]
# what is released with the groups of dataset d
%% predicate tdel_of (d o: int) = let g = gtg d in g <> 0 /\ (o = g \/ sdel_of g o)
%% predicate tcen_of (d o: int) = let g = gtg d in g <> 0 /\ (o = g \/ sdel_of g o \/ scen_of g o)
%% predicate tvec_of (d o: int) = let g = gtg d in g <> 0 /\ (o = g \/ o = gsv g \/ sdel_of g o \/ svec_of g o)
%% predicate tblk_of (d o: int) = let g = gtg d in g <> 0 /\ sblk_of g o
# the groups can be released
%% predicate gt_del (d: int) = let g = gtg d in g = 0 \/ (gs_live g /\ @GlobalGroupSpace.dataset[g] = d /\ gs_dels g 0 /\ gs_grps g 0)
%% predicate gt_live (d: int) = d > 0 /\ @alive[d] /\ cls d = cls_GroupableTimeSeriesSet /\ gt_del d
# the dataset is valid; when it has groups they can be searched
# the values of every representative are its own or those of the dataset
%% predicate gs_home (s: int) = forall l i: int [spg (gsp s l) i]. 2 <= l < gsn s -> 0 <= i < spn (gsp s l) -> let c = spc (gsp s l) i in let b = @bown[(@TimeSeries.data[c]).pb] in b = c \/ b = @GlobalGroupSpace.dataset[s]
%% predicate gt_ready (d: int) = let g = gtg d in g = 0 \/ (gs_ready g /\ gs_home g)
%% predicate gt_ok (d: int) = gt_live d /\ ds_ok d /\ gt_ready d
fn GroupableTimeSeriesSet::GroupableTimeSeriesSet ()
  requires [the object is live] { this > 0 /\ @alive[this] /\ cls this = cls_GroupableTimeSeriesSet }
  ensures C14,C16 [a new dataset is empty and not grouped] { gt_ok this /\ gtg this = 0 /\ @TimeSeriesSet.data[this] = null_ptr }
  noraise
fn GroupableTimeSeriesSet::reset ()
  requires [the groups can be released] { gt_live this }
  ensures C13,C16,C19 [not grouped] { gtg this = 0 }
  ensures [the null array stays] { @dlen[0] = old @dlen[0] }
  modifies GroupableTimeSeriesSet: this
  modifies vec: { tvec_of this o_ }
  modifies alive: { tdel_of this o_ }
  modifies TimeSeries: { tcen_of this o_ }
  modifies own: { tblk_of this o_ }
  noraise
fn GroupableTimeSeriesSet::~GroupableTimeSeriesSet ()
  requires [the groups can be released] { gt_live this }
  requires C19 [the dataset owns its values] { ds_data this }
  ensures C19 [the values are released] { (old @TimeSeriesSet.data[this]).pb <> 0 -> @dkind[(old @TimeSeriesSet.data[this]).pb] = 0 }
  ensures [the null array stays] { @dlen[0] = old @dlen[0] }
  modifies GroupableTimeSeriesSet: this
  modifies TimeSeriesSet: { o_ = this \/ tdel_of this o_ }
  modifies vec: { tvec_of this o_ }
  modifies alive: { tdel_of this o_ }
  modifies TimeSeries: { tcen_of this o_ }
  modifies own: { tblk_of this o_ \/ (o_ <> 0 /\ o_ = (@TimeSeriesSet.data[this]).pb) }
  noraise
fn GroupableTimeSeriesSet::clearData ()
  requires [the groups can be released] { gt_live this }
  requires C19 [the dataset owns its values] { ds_data this }
  ensures C11,C14,C16 [the dataset is empty and not grouped] { gt_ok this /\ gtg this = 0 /\ @TimeSeriesSet.data[this] = null_ptr }
  ensures C19 [the values are released] { (old @TimeSeriesSet.data[this]).pb <> 0 -> @dkind[(old @TimeSeriesSet.data[this]).pb] = 0 }
  ensures [the null array stays] { @dlen[0] = old @dlen[0] }
  modifies GroupableTimeSeriesSet: this
  modifies TimeSeriesSet: { o_ = this \/ tdel_of this o_ }
  modifies vec: { tvec_of this o_ }
  modifies alive: { tdel_of this o_ }
  modifies TimeSeries: { tcen_of this o_ }
  modifies own: { tblk_of this o_ \/ (o_ <> 0 /\ o_ = (@TimeSeriesSet.data[this]).pb) }
  noraise
fn GroupableTimeSeriesSet::normalize ()
  requires [the dataset is valid] { gt_ok this }
  requires C09 [the values are finite] { ds_fin this }
  ensures C09 [the smallest and the largest value are returned] { let (mn, mx) = result in let m = old (dsm this) in let n = dsn this in
     low_of m n mn /\ high_of m n mx /\ occurs m n mn /\ occurs m n mx }
  ensures C09 [every value is rescaled, a constant dataset becomes zero] { let (mn, mx) = result in
     if dv mn = dv mx then zeroed (dsm this) (dsn this) else scaled (dsm this) (old (dsm this)) (dsn this) mn (fsub mx mn) }
  ensures C16 [not grouped: the groups were built from other values] { gt_ok this /\ gtg this = 0 }
  ensures [the null array stays] { @dlen[0] = old @dlen[0] }
  modifies mem: (@TimeSeriesSet.data[this]).pb
  modifies GroupableTimeSeriesSet: this
  modifies TimeSeriesSet.normalized: this
  modifies vec: { tvec_of this o_ }
  modifies alive: { tdel_of this o_ }
  modifies TimeSeries: { tcen_of this o_ }
  modifies own: { tblk_of this o_ }
  raises E_onex C09 [exactly an empty dataset is refused] { dsn this = 0 /\ @dmem = old @dmem }
  raises E_onex C16 [the dataset stays valid] { gt_ok this }
fn GroupableTimeSeriesSet::PAA (n)
  requires [the dataset is valid] { gt_ok this }
  requires [the dataset is loaded] { @TimeSeriesSet.data[this] <> null_ptr }
  ensures C10 [every row has one value per block, the number of rows stays] { p_n >= 1 /\ @TimeSeriesSet.itemCount[this] = old @TimeSeriesSet.itemCount[this] /\ blocks (old @TimeSeriesSet.itemLength[this]) p_n @TimeSeriesSet.itemLength[this] }
  ensures C10 [every value is the mean of its block] { paa_rows (dsm this) (old (dsm this)) (old @TimeSeriesSet.itemLength[this]) p_n @TimeSeriesSet.itemLength[this] @TimeSeriesSet.itemCount[this] }
  ensures C16 [not grouped: the groups were built from other values] { gt_ok this /\ gtg this = 0 /\ @TimeSeriesSet.data[this] <> null_ptr }
  ensures [the null array stays] { @dlen[0] = old @dlen[0] }
  modifies GroupableTimeSeriesSet: this
  modifies TimeSeriesSet.data: this
  modifies TimeSeriesSet.itemLength: this
  modifies vec: { tvec_of this o_ }
  modifies alive: { tdel_of this o_ }
  modifies TimeSeries: { tcen_of this o_ }
  modifies own: { tblk_of this o_ \/ o_ = (@TimeSeriesSet.data[this]).pb }
  raises E_onex C10 [exactly a block size that is not positive is refused] { p_n <= 0 /\ @dmem = old @dmem }
  raises E_onex C16 [the dataset stays as it is] { gt_ok this /\ @TimeSeriesSet.data = old @TimeSeriesSet.data /\ @TimeSeriesSet.itemLength = old @TimeSeriesSet.itemLength /\ gtg this = old (gtg this) }
fn GroupableTimeSeriesSet::isGrouped ()
  ensures C16 [grouped means there are groups] { result <-> gtg this <> 0 }
  noraise
fn GroupableTimeSeriesSet::groupAllLengths (distance_name, threshold)
  requires [the dataset is valid] { gt_ok this /\ ds_fin this }
  requires [ratio in range] { ratio_ok }
  requires [the threshold is not negative] { 0.0 <=. dv p_threshold }
  ensures C16 [grouped, and ready for queries] { gt_ok this /\ gtg this <> 0 }
  ensures C05,C16 [every subsequence of every length of the current values is in exactly one group] { let g = gtg this in gs_part g (gsn g) /\ gs_scanned g (gsn g) /\ gs_full g (gsn g) }
  ensures C06,C16 [representatives are first members with their current values] { let g = gtg this in gs_rep g (gsn g) }
  ensures C06,C16 [similar to the nearest representative] { let g = gtg this in gs_near g (gsn g) @GlobalGroupSpace.pairwiseDistance[g] @gv_warpingBandRatio (fdiv p_threshold (of_int 2)) }
  ensures C05 [the groups of all lengths are counted] { let g = gtg this in exists c: map int int. result = total c (gsn g) /\ forall l: int [c[l]]. 2 <= l < gsn g -> c[l] = spn (gsp g l) }
  ensures C06,C18 [the named distance was used] { let g = gtg this in (p_distance_name = STR(euclidean) /\ @GlobalGroupSpace.pairwiseDistance[g] = code_pairwiseDistance) \/ (p_distance_name = STR(euclidean_dtw) /\ @GlobalGroupSpace.pairwiseDistance[g] = code_warpedDistance) }
  ensures C13 [the threshold is kept] { @GroupableTimeSeriesSet.threshold[this] = p_threshold }
  modifies GroupableTimeSeriesSet: { o_ = this \/ tdel_of this o_ }
  modifies GlobalGroupSpace: { tdel_of this o_ }
  modifies deque: { tdel_of this o_ }
  modifies vec: { tvec_of this o_ }
  modifies alive: { tdel_of this o_ }
  modifies TimeSeries: { tcen_of this o_ }
  modifies Group: { tdel_of this o_ }
  modifies LocalLengthGroupSpace: { tdel_of this o_ }
  modifies ghost: { tdel_of this o_ }
  modifies own: { tblk_of this o_ }
  modifies mem: { tblk_of this o_ }
  raises E_onex C18 [exactly unknown names and empty datasets are refused] { @TimeSeriesSet.data[this] = null_ptr \/ (p_distance_name <> STR(euclidean) /\ p_distance_name <> STR(euclidean_dtw)) }
  raises E_onex C16 [the dataset stays valid, without partial groups] { gt_ok this /\ (gtg this = 0 \/ (@TimeSeriesSet.data[this] = null_ptr /\ gtg this = old (gtg this))) }
  before-call reset#2 { assert { gsn (gtg this) = 0 /\ not (old @alive)[gsv (gtg this)] }; assert { forall o: int [@n_p_Group[o]]. old @alive[o] -> not old (tvec_of this o) -> @n_p_Group[o] = old @n_p_Group[o] /\ @v_p_Group[o] = old @v_p_Group[o] }; assert { forall o: int [@n_p_Group[o]]. old @alive[o] -> not old (tvec_of this o) -> @alive[o] }; assert { forall o: int [@n_p_LocalLengthGroupSpace[o]]. old @alive[o] -> not old (tvec_of this o) -> @n_p_LocalLengthGroupSpace[o] = old @n_p_LocalLengthGroupSpace[o] /\ @v_p_LocalLengthGroupSpace[o] = old @v_p_LocalLengthGroupSpace[o] }; assert { forall o: int [old @alive[o]]. old @alive[o] -> not old (tvec_of this o) -> not tvec_of this o } }
  after-call group { let ghost g = pure { gtg this } in assert { gs_live g /\ @GlobalGroupSpace.dataset[g] = this /\ ds_ok this /\ ds_fin this }; assert { gs_use g (gsn g) }; assert { gs_ready g } }
fn GroupableTimeSeriesSet::getBestMatch (query)
  requires [the dataset is valid] { gt_ok this }
  requires [lengths] { 0 < @TimeSeries.length[p_query] <= 67108862 /\ @TimeSeriesSet.itemLength[this] <= 67108862 }
  requires [the query is valid and finite] { ts_use p_query /\ vfin (tv p_query) }
  requires [ratio in range] { ratio_ok }
  ensures C16 [only a grouped dataset answers] { gtg this <> 0 }
  ensures C07,C08,C16 [a member of the nearest group of all compatible lengths, with its exact distance] { let s = gtg this in let o = result in let t = @candidate_time_series_t.data[o] in let b = @candidate_time_series_t.dist[o] in
     let q = old (tv p_query) in
     exists l i: int. 2 <= l < gsn s /\ compat l q.vl @gv_warpingBandRatio /\ 0 <= i < spn (gsp s l) /\
       (dv b <. dv inf -> exists k: int. 0 <= k < @gh_cnt[spm (gsp s l)][i] /\ ts_coord t this l @gh_seq[spm (gsp s l)][i][k] /\ b = dval code_cascadeDistance q (spv (gsp s l) @gh_seq[spm (gsp s l)][i][k]) @gv_warpingBandRatio)
       /\ (forall k: int [@gh_seq[spm (gsp s l)][i][k]]. 0 <= k < @gh_cnt[spm (gsp s l)][i] -> notcloser code_cascadeDistance b (dval code_cascadeDistance q (spv (gsp s l) @gh_seq[spm (gsp s l)][i][k]) @gv_warpingBandRatio) (max2 q.vl l))
       /\ (let c = dval code_cascadeDistance (tv (spc (gsp s l) i)) q @gv_warpingBandRatio in dv c <. dv inf /\
           forall m j: int [spg (gsp s m) j]. 2 <= m < gsn s -> compat m q.vl @gv_warpingBandRatio -> 0 <= j < spn (gsp s m) -> notcloser code_cascadeDistance c (dval code_cascadeDistance (tv (spc (gsp s m) j)) q @gv_warpingBandRatio) (max2 m q.vl)) }
  ensures C07,C16 [a subsequence of the current values] { exists l: int. exists p: coord. 2 <= l <= @TimeSeriesSet.itemLength[this] /\ ts_coord @candidate_time_series_t.data[result] this l p }
  ensures C07,C19 [a valid series of its own] { let t = @candidate_time_series_t.data[result] in result > 0 /\ not (old @alive)[result] /\ @alive[result] /\ not (old @alive)[t] /\ ts_use t /\ ts_fresh t }
  ensures C16,C19 [the dataset stays as it is] { gt_ok this /\ ts_use p_query /\ tv p_query = old (tv p_query) /\ dsm this = old (dsm this) }
  modifies TimeSeries.envelope: { (gtg this <> 0 /\ gcen_of this o_) \/ o_ = p_query }
  modifies own: { (gtg this <> 0 /\ gcen_of this (- @bown[o_])) \/ @bown[o_] = - p_query }
  modifies mem: { (gtg this <> 0 /\ gcen_of this (- @bown[o_])) \/ @bown[o_] = - p_query }
  raises E_onex C08,C16 [refused only when not grouped, the query is too short or no group of a compatible length is at a finite distance] { let s = gtg this in s = 0 \/ @TimeSeries.length[p_query] <= 1 \/
     let q = old (tv p_query) in forall m j: int [spg (gsp s m) j]. 2 <= m < gsn s -> compat m q.vl @gv_warpingBandRatio -> 0 <= j < spn (gsp s m) -> notcloser code_cascadeDistance inf (dval code_cascadeDistance (tv (spc (gsp s m) j)) q @gv_warpingBandRatio) (max2 m q.vl) }
  raises E_onex C16,C19 [the dataset stays as it is] { gt_ok this /\ ts_use p_query /\ tv p_query = old (tv p_query) /\ dsm this = old (dsm this) }
  after-call getBestMatch { let ghost g = pure { gtg this } in assert { gs_live g /\ @GlobalGroupSpace.dataset[g] = this };
    assert { forall l: int [gsp g l]. 0 <= l < gsn g -> gs_del g l };
    assert { forall l i: int [spg (gsp g l) i]. 0 <= l < gsn g -> gsp g l <> 0 -> 0 <= i < spn (gsp g l) -> l >= 2 /\ grp_fld (gsp g l) i /\ cen_use (gsp g l) i };
    assert { forall l i: int [spg (gsp g l) i]. 0 <= l < gsn g -> gsp g l <> 0 -> 0 <= i < spn (gsp g l) -> sp_del (gsp g l) i } }
