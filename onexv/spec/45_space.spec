# ---------------------------------------------------------------------------
# Releasing the groups of one length; all groups of a dataset
# ---------------------------------------------------------------------------
# what is released with the groups of membership table t: objects, and arrays of the centroids
%% predicate del_of (t o: int) = (cls o = cls_Group /\ @Group.memberMap[o] = t) \/ (cls o = cls_TimeSeries /\ cen_of t o)
%% predicate blk_of (t o: int) = cen_of t (- @bown[o]) \/ cen_of t @bown[o]
# group i of the space is its own and can be released
%% predicate sp_del (s i: int) = let g = spg s i in g = 0 \/ (g > 0 /\ @alive[g] /\ cls g = cls_Group /\ @Group.memberMap[g] = spm s /\ @Group.groupIndex[g] = i
   /\ g_home g /\ @alive[@Group.centroid[g]] /\ ts_own @Group.centroid[g])
%% predicate sp_dels (s lo: int) = forall i: int [spg s i]. lo <= i < spn s -> sp_del s i
%% predicate sp_live (s: int) = s > 0 /\ @alive[s] /\ sp_tab s /\ @alive[@LocalLengthGroupSpace.groups[s]] /\ spn s >= 0
fn LocalLengthGroupSpace::reset ()
  requires [the space is valid] { sp_live this }
  requires C19 [its groups can be released] { sp_dels this 0 }
  ensures C13,C16,C19 [no groups are left] { spn this = 0 }
  ensures [the null array stays] { @dlen[0] = old @dlen[0] }
  ensures C04,C19 [other series stay as they are] { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> not cen_of (spm this) t -> cls t <> cls_Group -> old (ts_inv t) -> (@TimeSeries.data[t]).pb = 0 \/ not cen_of (spm this) (old @bown)[(@TimeSeries.data[t]).pb] ->
    ts_inv t /\ tv t = old (tv t) /\ @TimeSeries.keoghLower[t] = old @TimeSeries.keoghLower[t] /\ @TimeSeries.keoghUpper[t] = old @TimeSeries.keoghUpper[t] }
  modifies vec: @LocalLengthGroupSpace.groups[this]
  modifies alive: { del_of (spm this) o_ }
  modifies TimeSeries: { cen_of (spm this) o_ \/ del_of (spm this) o_ }
  modifies own: { blk_of (spm this) o_ }
  noraise
  entry { let ghost n0 = pure { spn this } in let ghost t = pure { spm this } in let ghost gv = pure { @LocalLengthGroupSpace.groups[this] } in }
  loop 1
  invariant [range] { 0 <= $i <= n0 /\ spn this = n0 }
  invariant C19 [the remaining groups can be released] { sp_dels this $i }
  invariant [the null array stays] { @dlen[0] = l1_dlen[0] }
  variant { n0 - $i }
  exit { assert { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> not old (cen_of (spm this) t) -> cls t <> cls_Group -> @TimeSeries.data[t] = old @TimeSeries.data[t] /\ @TimeSeries.keoghLower[t] = old @TimeSeries.keoghLower[t] /\ @TimeSeries.keoghUpper[t] = old @TimeSeries.keoghUpper[t] };
    assert { forall t: int [@TimeSeries.length[t]]. old (ts_inv t) -> not old (cen_of (spm this) t) -> forall b: int [old @bown[b]]. kb_of t b -> old (kb_of t b) -> old @bown[b] = - t /\ old @dkind[b] <> 0 /\ not old (blk_of (spm this) b) };
    assert { forall t: int [@TimeSeries.length[t]]. old (ts_inv t) -> (let b = old (@TimeSeries.data[t]).pb in b = 0 \/ (old @bown[b] >= 0 /\ old @dkind[b] <> 0 /\ (old (cen_of (spm this) @bown[b]) \/ not old (blk_of (spm this) b)))) };
    assert { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> not old (cen_of (spm this) t) -> cls t <> cls_Group -> old (ts_inv t) -> (@TimeSeries.data[t]).pb = 0 \/ not old (cen_of (spm this) @bown[(@TimeSeries.data[t]).pb]) -> ts_ok t };
    assert { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> not old (cen_of (spm this) t) -> cls t <> cls_Group -> old (ts_inv t) -> (@TimeSeries.data[t]).pb = 0 \/ not old (cen_of (spm this) @bown[(@TimeSeries.data[t]).pb]) -> ts_own t };
    assert { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> not old (cen_of (spm this) t) -> cls t <> cls_Group -> old (ts_inv t) -> (@TimeSeries.data[t]).pb = 0 \/ not old (cen_of (spm this) @bown[(@TimeSeries.data[t]).pb]) -> ts_cache t } }
fn LocalLengthGroupSpace::~LocalLengthGroupSpace ()
  requires [the space is valid] { sp_live this }
  requires C19 [its groups can be released] { sp_dels this 0 }
  ensures [the null array stays] { @dlen[0] = old @dlen[0] }
  ensures C04,C19 [other series stay as they are] { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> not cen_of (spm this) t -> cls t <> cls_Group -> old (ts_inv t) -> (@TimeSeries.data[t]).pb = 0 \/ not cen_of (spm this) (old @bown)[(@TimeSeries.data[t]).pb] ->
    ts_inv t /\ tv t = old (tv t) /\ @TimeSeries.keoghLower[t] = old @TimeSeries.keoghLower[t] /\ @TimeSeries.keoghUpper[t] = old @TimeSeries.keoghUpper[t] }
  modifies vec: @LocalLengthGroupSpace.groups[this]
  modifies alive: { del_of (spm this) o_ }
  modifies TimeSeries: { cen_of (spm this) o_ \/ del_of (spm this) o_ }
  modifies own: { blk_of (spm this) o_ }
  noraise

# ---- all groups of a dataset
%% function gsv (s: int) : int = @GlobalGroupSpace.localLengthGroupSpace[s]
%% function gsn (s: int) : int = @n_p_LocalLengthGroupSpace[@GlobalGroupSpace.localLengthGroupSpace[s]]
%% function gsp (s l: int) : int = @v_p_LocalLengthGroupSpace[@GlobalGroupSpace.localLengthGroupSpace[s]][l]
%% predicate gs_live (s: int) = s > 0 /\ @alive[s] /\ cls s = cls_GlobalGroupSpace /\ (let v = gsv s in cls v = cls_vec /\ mem_of v = s /\ @alive[v]) /\ gsn s >= 0
# what belongs to the groups of dataset d: objects, centroids, arrays of centroids, tables
%% predicate gcen_of (d o: int) = o > 0 /\ cls o = cls_TimeSeries /\ (let g = @gh_home[o] in @Group.centroid[g] = o /\ @LocalLengthGroupSpace.dataset[mem_of @Group.memberMap[g]] = d)
%% predicate gdel_of (d o: int) = (cls o = cls_Group /\ @LocalLengthGroupSpace.dataset[mem_of @Group.memberMap[o]] = d) \/ (cls o = cls_TimeSeries /\ gcen_of d o) \/ (cls o = cls_LocalLengthGroupSpace /\ @LocalLengthGroupSpace.dataset[o] = d)
%% predicate gblk_of (d o: int) = gcen_of d (- @bown[o]) \/ gcen_of d @bown[o]
%% predicate gvec_of (d o: int) = cls (mem_of o) = cls_LocalLengthGroupSpace /\ @LocalLengthGroupSpace.dataset[mem_of o] = d
# the same, for the groups held by s
%% predicate scen_of (s o: int) = gsn s > 0 /\ gcen_of @GlobalGroupSpace.dataset[s] o
%% predicate sdel_of (s o: int) = gsn s > 0 /\ gdel_of @GlobalGroupSpace.dataset[s] o
%% predicate sblk_of (s o: int) = gsn s > 0 /\ gblk_of @GlobalGroupSpace.dataset[s] o
%% predicate svec_of (s o: int) = gsn s > 0 /\ gvec_of @GlobalGroupSpace.dataset[s] o
%% predicate gs_del (s l: int) = let p = gsp s l in p = 0 \/ (sp_live p /\ @LocalLengthGroupSpace.dataset[p] = @GlobalGroupSpace.dataset[s] /\ @LocalLengthGroupSpace.length[p] = l)
%% predicate gs_dels (s lo: int) = forall l: int [gsp s l]. lo <= l < gsn s -> gs_del s l
%% predicate gs_grps (s lo: int) = forall l i: int [spg (gsp s l) i]. lo <= l < gsn s -> gsp s l <> 0 -> 0 <= i < spn (gsp s l) -> sp_del (gsp s l) i
fn GlobalGroupSpace::reset ()
  requires [the groups are valid] { gs_live this /\ gs_dels this 0 }
  requires C19 [all groups can be released] { gs_grps this 0 }
  ensures C05,C16,C19 [no groups are left] { gsn this = 0 }
  ensures [the null array stays] { @dlen[0] = old @dlen[0] }
  modifies vec: { o_ = gsv this \/ svec_of this o_ \/ sdel_of this o_ }
  modifies alive: { sdel_of this o_ }
  modifies TimeSeries: { scen_of this o_ \/ sdel_of this o_ }
  modifies own: { sblk_of this o_ }
  noraise
  entry { let ghost n0 = pure { gsn this } in let ghost d = pure { @GlobalGroupSpace.dataset[this] } in }
  loop 1
  invariant [range] { 0 <= $i <= n0 /\ gsn this = n0 }
  invariant C19 [the remaining spaces are valid] { gs_dels this $i }
  invariant C19 [the remaining groups can be released] { gs_grps this $i }
  invariant [the null array stays] { @dlen[0] = l1_dlen[0] }
  variant { n0 - $i }
fn GlobalGroupSpace::~GlobalGroupSpace ()
  requires [the groups are valid] { gs_live this /\ gs_dels this 0 }
  requires C19 [all groups can be released] { gs_grps this 0 }
  ensures [the null array stays] { @dlen[0] = old @dlen[0] }
  modifies vec: { o_ = gsv this \/ svec_of this o_ \/ sdel_of this o_ }
  modifies alive: { sdel_of this o_ }
  modifies TimeSeries: { scen_of this o_ \/ sdel_of this o_ }
  modifies own: { sblk_of this o_ }
  noraise
fn GlobalGroupSpace::GlobalGroupSpace (dataset)
  requires [the object is live] { this > 0 /\ @alive[this] /\ cls this = cls_GlobalGroupSpace }
  ensures C05,C16 [no groups yet] { gs_live this /\ gsn this = 0 /\ @GlobalGroupSpace.dataset[this] = p_dataset /\ not (old @alive)[gsv this] }
  noraise
fn GlobalGroupSpace::loadDistance (distance_name)
  ensures C06,C18 [the named distance is used for grouping] { (p_distance_name = STR(euclidean) /\ @GlobalGroupSpace.pairwiseDistance[this] = code_pairwiseDistance) \/ (p_distance_name = STR(euclidean_dtw) /\ @GlobalGroupSpace.pairwiseDistance[this] = code_warpedDistance) }
  ensures C07 [the pruned warped distance is used for searching] { @GlobalGroupSpace.warpedDistance[this] = code_cascadeDistance }
  modifies GlobalGroupSpace: this
  raises E_onex C18 [exactly unknown names are refused] { p_distance_name <> STR(euclidean) /\ p_distance_name <> STR(euclidean_dtw) }
fn GlobalGroupSpace::grouped ()
  ensures C16 [grouped means there are groups] { result <-> gsn this > 0 }
  noraise
# every length from 2 up to below hi has its valid groups
%% predicate gs_at (s l: int) = let p = gsp s l in p > 0 /\ sp_base p /\ @LocalLengthGroupSpace.dataset[p] = @GlobalGroupSpace.dataset[s] /\ @LocalLengthGroupSpace.length[p] = l
%% predicate gs_base (s hi: int) = forall l: int [gsp s l]. 2 <= l < hi -> gs_at s l
%% predicate gs_fld (s hi: int) = forall l i: int [spg (gsp s l) i]. 2 <= l < hi -> 0 <= i < spn (gsp s l) -> grp_fld (gsp s l) i
%% predicate gs_cen (s hi: int) = forall l i: int [spg (gsp s l) i]. 2 <= l < hi -> 0 <= i < spn (gsp s l) -> cen_ok (gsp s l) i
%% predicate gs_rep (s hi: int) = forall l: int [gsp s l]. 2 <= l < hi -> sp_rep (gsp s l) (spn (gsp s l))
%% predicate gs_full (s hi: int) = forall l: int [gsp s l]. 2 <= l < hi -> sp_full (gsp s l) (spn (gsp s l))
%% predicate gs_part (s hi: int) = forall l: int [gsp s l]. 2 <= l < hi -> sp_part (gsp s l) (spn (gsp s l))
%% predicate gs_scanned (s hi: int) = forall l: int [gsp s l]. 2 <= l < hi -> sp_scanned (gsp s l) (0, @LocalLengthGroupSpace.subTimeSeriesCount[gsp s l])
%% predicate gs_near (s hi code: int) (ratio half: dbl) = forall l: int [gsp s l]. 2 <= l < hi -> sp_near (gsp s l) code ratio half (spn (gsp s l))
# no spaces below length 2
%% predicate gs_low (s: int) = forall l: int [gsp s l]. 0 <= l < 2 -> l < gsn s -> gsp s l = 0
# sum of c over the lengths from 2 to below n
%% sym total (c: map int int) (n: int) : int
%% assume total_at (c: map int int) (n: int) : unit ensures { total c n = if n <= 2 then 0 else total c (n - 1) + c[n - 1] }
%% lemma total_upto (c d: map int int) (n: int) : unit
  requires { forall l: int. 2 <= l < n -> c[l] = d[l] }
  ensures { total c n = total d n }
  variant { n }
= total_at c n; total_at d n; if n > 2 then total_upto c d (n - 1)
fn GlobalGroupSpace::group (distance_name, threshold)
  opt vc sp
  requires [the groups are valid] { gs_live this /\ gs_dels this 0 }
  requires C19 [all groups can be released] { gs_grps this 0 }
  requires [the dataset is loaded and finite] { let d = @GlobalGroupSpace.dataset[this] in ds_ok d /\ ds_fin d }
  requires [ratio in range] { ratio_ok }
  requires [the threshold is not negative] { 0.0 <=. dv p_threshold }
  ensures C05,C19 [a group space for every length] { gs_live this /\ gsn this = @TimeSeriesSet.itemLength[@GlobalGroupSpace.dataset[this]] + 1 /\ gs_base this (gsn this) }
  ensures C19 [no groups of shorter lengths] { gs_low this }
  ensures C05,C19 [valid groups] { gs_fld this (gsn this) }
  ensures C05,C19 [valid representatives] { gs_cen this (gsn this) }
  ensures C19 [the groups can be released] { gs_dels this 0 /\ gs_grps this 0 }
  ensures C05 [every subsequence of every length is in exactly one group] { gs_part this (gsn this) /\ gs_scanned this (gsn this) }
  ensures C05 [no group is empty] { gs_full this (gsn this) }
  ensures C06,C07 [representatives are first members] { gs_rep this (gsn this) }
  ensures C06 [similar to the nearest representative] { gs_near this (gsn this) @GlobalGroupSpace.pairwiseDistance[this] @gv_warpingBandRatio (fdiv p_threshold (of_int 2)) }
  ensures C05 [the groups of all lengths are counted] { exists c: map int int. result = total c (gsn this) /\ forall l: int [c[l]]. 2 <= l < gsn this -> c[l] = spn (gsp this l) }
  ensures C07 [the pruned warped distance is used for searching] { @GlobalGroupSpace.warpedDistance[this] = code_cascadeDistance }
  ensures C06,C18 [the named distance was used] { (p_distance_name = STR(euclidean) /\ @GlobalGroupSpace.pairwiseDistance[this] = code_pairwiseDistance) \/ (p_distance_name = STR(euclidean_dtw) /\ @GlobalGroupSpace.pairwiseDistance[this] = code_warpedDistance) }
  modifies GlobalGroupSpace: { o_ = this \/ sdel_of this o_ }
  modifies deque: { sdel_of this o_ }
  modifies vec: { o_ = gsv this \/ svec_of this o_ \/ sdel_of this o_ }
  modifies alive: { sdel_of this o_ }
  modifies TimeSeries: { scen_of this o_ \/ sdel_of this o_ }
  modifies Group: { sdel_of this o_ }
  modifies LocalLengthGroupSpace: { sdel_of this o_ }
  modifies ghost: { sdel_of this o_ }
  modifies own: { sblk_of this o_ }
  modifies mem: { sblk_of this o_ }
  raises E_onex C18 [exactly unknown names are refused] { p_distance_name <> STR(euclidean) /\ p_distance_name <> STR(euclidean_dtw) }
  raises E_onex C16,C19 [no groups are left] { gs_live this /\ gsn this = 0 }
  entry { let ghost d = pure { @GlobalGroupSpace.dataset[this] } in let ghost gv = pure { gsv this } in let ghost m0 = pure { dsm d } in let ghost cc = ref (pure { @n_p_Group }) in
     let ghost half = pure { fdiv p_threshold (of_int 2) } in let ghost ratio = pure { @gv_warpingBandRatio } in total_at !cc 2 }
  after-call resize { assert { ds_ok d /\ ds_fin d /\ dsm d = m0 } }
  loop 1
  before { let ghost n0 = pure { gsn this } in let ghost code = pure { @GlobalGroupSpace.pairwiseDistance[this] } in assert { ds_ok d /\ ds_fin d /\ dsm d = m0 /\ is_dist code /\ gs_live this } }
  invariant [range] { 2 <= $i /\ ($i <= n0 \/ $i = 2) /\ gs_live this /\ gsn this = n0 /\ gsv this = gv }
  invariant [no other spaces] { forall l: int [gsp this l]. 0 <= l < n0 -> l < 2 \/ l >= $i -> gsp this l = 0 }
  invariant C19 [the dataset is untouched] { ds_ok d /\ ds_fin d /\ dsm d = m0 }
  invariant C05,C19 [spaces so far] { gs_base this $i }
  invariant C05,C19 [valid groups] { gs_fld this $i }
  invariant C05,C19 [valid centroids] { gs_cen this $i }
  invariant C05 [every subsequence in one group] { gs_part this $i }
  invariant C05 [every subsequence assigned] { gs_scanned this $i }
  invariant C05 [no group is empty] { gs_full this $i }
  invariant C06 [representatives are first members] { gs_rep this $i }
  invariant C06 [similar to the nearest representative] { gs_near this $i code ratio half }
  invariant C05 [groups counted so far] { $numberOfGroups = total !cc $i /\ forall l: int [(!cc)[l]]. 2 <= l < $i -> (!cc)[l] = spn (gsp this l) }
  variant { n0 - $i }
  modifies vec: gv
  before-call LocalLengthGroupSpace { let ghost da1 = pure { @LocalLengthGroupSpace.dataset } in let ghost gr1 = pure { @LocalLengthGroupSpace.groups } in let ghost mm1 = pure { @LocalLengthGroupSpace.memberMap } in let ghost le1 = pure { @LocalLengthGroupSpace.length } in
    let ghost sc1 = pure { @LocalLengthGroupSpace.subTimeSeriesCount } in let ghost ng1 = pure { @n_p_Group } in let ghost nm1 = pure { @n_group_membership_t } in }
  after-call LocalLengthGroupSpace { assert { ds_ok d /\ gsn this = n0 /\ gs_live this }; assert { forall l: int [gsp this l]. 2 <= l < $i -> let p = gsp this l in @alive[p] /\ @LocalLengthGroupSpace.dataset[p] = da1[p] /\ @LocalLengthGroupSpace.groups[p] = gr1[p] /\ @LocalLengthGroupSpace.memberMap[p] = mm1[p] /\ @LocalLengthGroupSpace.length[p] = le1[p] /\ @LocalLengthGroupSpace.subTimeSeriesCount[p] = sc1[p] };
    assert { forall l: int [gsp this l]. 2 <= l < $i -> let p = gsp this l in @alive[gr1[p]] /\ @alive[mm1[p]] /\ @n_p_Group[gr1[p]] = ng1[gr1[p]] /\ @n_group_membership_t[mm1[p]] = nm1[mm1[p]] };
    assert { forall l: int [gsp this l]. 2 <= l < $i -> sp_tab (gsp this l) /\ gsp this l > 0 };
    assert { forall l: int [gsp this l]. 2 <= l < $i -> sp_base (gsp this l) };
    assert { gs_base this $i }; assert { gs_fld this $i }; assert { gs_cen this $i }; assert { gs_part this $i }; assert { gs_scanned this $i }; assert { gs_full this $i }; assert { gs_rep this $i }; assert { gs_near this $i code ratio half }; assert { forall l: int [(!cc)[l]]. 2 <= l < $i -> (!cc)[l] = spn (gsp this l) }; assert { gs_live this /\ gsn this = n0 /\ gsv this = gv /\ ds_ok d /\ ds_fin d /\ dsm d = m0 } }
  before-call generateGroups { let ghost q = pure { gsp this $i } in assert { gs_at this $i /\ spn q = 0 }; assert { gs_base this $i }; assert { gs_fld this $i }; assert { gs_cen this $i }; assert { gs_part this $i }; assert { gs_scanned this $i }; assert { gs_full this $i }; assert { gs_rep this $i }; assert { gs_near this $i code ratio half }; assert { forall l: int [(!cc)[l]]. 2 <= l < $i -> (!cc)[l] = spn (gsp this l) }; assert { gs_live this /\ gsn this = n0 /\ gsv this = gv /\ ds_ok d /\ ds_fin d /\ dsm d = m0 }; assert { forall l: int [gsp this l]. 2 <= l < $i -> gsp this l <> q /\ gsp this l > 0 /\ @alive[gsp this l] };
    assert { mem_of @LocalLengthGroupSpace.groups[q] = q /\ mem_of (spm q) = q };
    assert { forall l: int [gsp this l]. 2 <= l < $i -> mem_of @LocalLengthGroupSpace.groups[gsp this l] = gsp this l /\ mem_of (spm (gsp this l)) = gsp this l };
    let ghost vg0 = pure { @v_p_Group } in let ghost ng0 = pure { @n_p_Group } in let ghost ce0 = pure { @Group.centroid } in let ghost tl0 = pure { @TimeSeries.length } in let ghost hm0 = pure { @gh_home } in let ghost td0 = pure { @TimeSeries.data } in let ghost mv0 = pure { @v_group_membership_t } in let ghost sq0 = pure { @gh_seq } in let ghost rk0 = pure { @gh_rank } in let ghost cn0 = pure { @gh_cnt } in
    assert { forall l i: int [spg (gsp this l) i]. 2 <= l < $i -> 0 <= i < spn (gsp this l) -> ts_use (spc (gsp this l) i) /\ @alive[spg (gsp this l) i] } }
  after-call generateGroups { assert { forall l: int [gsp this l]. 2 <= l < $i -> @v_p_Group[@LocalLengthGroupSpace.groups[gsp this l]] = vg0[@LocalLengthGroupSpace.groups[gsp this l]] /\ spn (gsp this l) = ng0[@LocalLengthGroupSpace.groups[gsp this l]] };
    assert { forall l i: int [spg (gsp this l) i]. 2 <= l < $i -> 0 <= i < spn (gsp this l) -> spc (gsp this l) i = ce0[spg (gsp this l) i] };
    assert { forall l i: int [spg (gsp this l) i]. 2 <= l < $i -> 0 <= i < spn (gsp this l) -> let t = spc (gsp this l) i in @TimeSeries.length[t] = tl0[t] /\ ts_use t /\ @TimeSeries.isOwnerOfData[t] = false /\ @TimeSeries.data[t] = td0[t] };
    assert { forall l i: int [spg (gsp this l) i]. 2 <= l < $i -> 0 <= i < spn (gsp this l) -> let t = spc (gsp this l) i in @gh_home[t] = hm0[t] };
    assert { forall l: int [gsp this l]. 2 <= l < $i -> (let t = spm (gsp this l) in @v_group_membership_t[t] = mv0[t] /\ @gh_seq[t] = sq0[t] /\ @gh_rank[t] = rk0[t] /\ @gh_cnt[t] = cn0[t]) }; assert { gs_base this $i }; assert { gs_fld this $i }; assert { gs_cen this $i }; assert { gs_part this $i }; assert { gs_scanned this $i }; assert { gs_full this $i }; assert { gs_rep this $i }; assert { gs_near this $i code ratio half }; assert { forall l: int [(!cc)[l]]. 2 <= l < $i -> (!cc)[l] = spn (gsp this l) }; assert { gs_live this /\ gsn this = n0 /\ gsv this = gv /\ ds_ok d /\ ds_fin d /\ dsm d = m0 }; assert { gs_at this $i } }
  end { let ghost c0 = pure { !cc } in cc := pure { c0[$i <- spn (gsp this $i)] }; total_at !cc ($i + 1); total_upto c0 !cc $i }
  after { let ghost c1 = pure { !cc } in total_at c1 n0; total_at c1 2; assert { $numberOfGroups = total c1 (gsn this) }; assert { forall l: int [c1[l]]. 2 <= l < gsn this -> c1[l] = spn (gsp this l) } }
