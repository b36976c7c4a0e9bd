# ---------------------------------------------------------------------------
# The registry of datasets
# ---------------------------------------------------------------------------
# what an operation on dataset d may change: objects, arrays
%% predicate tset_of (d o: int) = d <> 0 /\ (o = d \/ tdel_of d o)
%% predicate ttab_of (d o: int) = d <> 0 /\ tvec_of d o
%% predicate tarr_of (d b: int) = d <> 0 /\ (@bown[b] = d \/ tblk_of d b)
# the owner of the array is alive
%% predicate own_live (b: int) = if @bown[b] > 0 then @alive[@bown[b]] else @alive[- @bown[b]]
# nothing outside dataset d and its groups changed: the other datasets stay as they are, with their groups
%% lemma gt_keep (d: int) : unit
  requires { d = 0 \/ (d > 0 /\ cls d = cls_GroupableTimeSeriesSet /\ old (gt_del d)) }
  requires { [@stop_split] (forall o: int [@alive[o]]. old @alive[o] -> not old (tset_of d o) -> @alive[o])
    /\ (forall o: int [@GlobalGroupSpace.dataset[o]]. old @alive[o] -> not old (tset_of d o) -> @GlobalGroupSpace.dataset[o] = old @GlobalGroupSpace.dataset[o])
    /\ (forall o: int [@GlobalGroupSpace.localLengthGroupSpace[o]]. old @alive[o] -> not old (tset_of d o) -> @GlobalGroupSpace.localLengthGroupSpace[o] = old @GlobalGroupSpace.localLengthGroupSpace[o])
    /\ (forall o: int [@GlobalGroupSpace.warpedDistance[o]]. old @alive[o] -> not old (tset_of d o) -> @GlobalGroupSpace.warpedDistance[o] = old @GlobalGroupSpace.warpedDistance[o])
    /\ (forall o: int [@Group.centroid[o]]. old @alive[o] -> not old (tset_of d o) -> @Group.centroid[o] = old @Group.centroid[o])
    /\ (forall o: int [@Group.count[o]]. old @alive[o] -> not old (tset_of d o) -> @Group.count[o] = old @Group.count[o])
    /\ (forall o: int [@Group.dataset[o]]. old @alive[o] -> not old (tset_of d o) -> @Group.dataset[o] = old @Group.dataset[o])
    /\ (forall o: int [@Group.groupIndex[o]]. old @alive[o] -> not old (tset_of d o) -> @Group.groupIndex[o] = old @Group.groupIndex[o])
    /\ (forall o: int [@Group.lastMemberCoord[o]]. old @alive[o] -> not old (tset_of d o) -> @Group.lastMemberCoord[o] = old @Group.lastMemberCoord[o]) }
  requires { [@stop_split] (forall o: int [@Group.memberLength[o]]. old @alive[o] -> not old (tset_of d o) -> @Group.memberLength[o] = old @Group.memberLength[o])
    /\ (forall o: int [@Group.memberMap[o]]. old @alive[o] -> not old (tset_of d o) -> @Group.memberMap[o] = old @Group.memberMap[o])
    /\ (forall o: int [@Group.subTimeSeriesCount[o]]. old @alive[o] -> not old (tset_of d o) -> @Group.subTimeSeriesCount[o] = old @Group.subTimeSeriesCount[o])
    /\ (forall o: int [@GroupableTimeSeriesSet.groupsAllLengthSet[o]]. old @alive[o] -> not old (tset_of d o) -> @GroupableTimeSeriesSet.groupsAllLengthSet[o] = old @GroupableTimeSeriesSet.groupsAllLengthSet[o])
    /\ (forall o: int [@LocalLengthGroupSpace.dataset[o]]. old @alive[o] -> not old (tset_of d o) -> @LocalLengthGroupSpace.dataset[o] = old @LocalLengthGroupSpace.dataset[o])
    /\ (forall o: int [@LocalLengthGroupSpace.groups[o]]. old @alive[o] -> not old (tset_of d o) -> @LocalLengthGroupSpace.groups[o] = old @LocalLengthGroupSpace.groups[o])
    /\ (forall o: int [@LocalLengthGroupSpace.length[o]]. old @alive[o] -> not old (tset_of d o) -> @LocalLengthGroupSpace.length[o] = old @LocalLengthGroupSpace.length[o])
    /\ (forall o: int [@LocalLengthGroupSpace.memberMap[o]]. old @alive[o] -> not old (tset_of d o) -> @LocalLengthGroupSpace.memberMap[o] = old @LocalLengthGroupSpace.memberMap[o])
    /\ (forall o: int [@LocalLengthGroupSpace.subTimeSeriesCount[o]]. old @alive[o] -> not old (tset_of d o) -> @LocalLengthGroupSpace.subTimeSeriesCount[o] = old @LocalLengthGroupSpace.subTimeSeriesCount[o]) }
  requires { [@stop_split] (forall o: int [@TimeSeriesSet.data[o]]. old @alive[o] -> not old (tset_of d o) -> @TimeSeriesSet.data[o] = old @TimeSeriesSet.data[o])
    /\ (forall o: int [@TimeSeriesSet.itemCount[o]]. old @alive[o] -> not old (tset_of d o) -> @TimeSeriesSet.itemCount[o] = old @TimeSeriesSet.itemCount[o])
    /\ (forall o: int [@TimeSeriesSet.itemLength[o]]. old @alive[o] -> not old (tset_of d o) -> @TimeSeriesSet.itemLength[o] = old @TimeSeriesSet.itemLength[o])
    /\ (forall o: int [@TimeSeries.cachedWarpingBand[o]]. old @alive[o] -> not old (tset_of d o) -> @TimeSeries.cachedWarpingBand[o] = old @TimeSeries.cachedWarpingBand[o])
    /\ (forall o: int [@TimeSeries.data[o]]. old @alive[o] -> not old (tset_of d o) -> @TimeSeries.data[o] = old @TimeSeries.data[o])
    /\ (forall o: int [@TimeSeries.end[o]]. old @alive[o] -> not old (tset_of d o) -> @TimeSeries.end[o] = old @TimeSeries.end[o])
    /\ (forall o: int [@TimeSeries.isOwnerOfData[o]]. old @alive[o] -> not old (tset_of d o) -> @TimeSeries.isOwnerOfData[o] = old @TimeSeries.isOwnerOfData[o])
    /\ (forall o: int [@TimeSeries.keoghCacheValid[o]]. old @alive[o] -> not old (tset_of d o) -> @TimeSeries.keoghCacheValid[o] = old @TimeSeries.keoghCacheValid[o])
    /\ (forall o: int [@TimeSeries.keoghLower[o]]. old @alive[o] -> not old (tset_of d o) -> @TimeSeries.keoghLower[o] = old @TimeSeries.keoghLower[o]) }
  requires { [@stop_split] (forall o: int [@TimeSeries.keoghUpper[o]]. old @alive[o] -> not old (tset_of d o) -> @TimeSeries.keoghUpper[o] = old @TimeSeries.keoghUpper[o])
    /\ (forall o: int [@TimeSeries.length[o]]. old @alive[o] -> not old (tset_of d o) -> @TimeSeries.length[o] = old @TimeSeries.length[o])
    /\ (forall o: int [@TimeSeries.start[o]]. old @alive[o] -> not old (tset_of d o) -> @TimeSeries.start[o] = old @TimeSeries.start[o])
    /\ (forall o: int [@gh_cnt[o]]. old @alive[o] -> not old (tset_of d o) -> @gh_cnt[o] = old @gh_cnt[o])
    /\ (forall o: int [@gh_home[o]]. old @alive[o] -> not old (tset_of d o) -> @gh_home[o] = old @gh_home[o])
    /\ (forall o: int [@gh_rank[o]]. old @alive[o] -> not old (tset_of d o) -> @gh_rank[o] = old @gh_rank[o])
    /\ (forall o: int [@gh_seq[o]]. old @alive[o] -> not old (tset_of d o) -> @gh_seq[o] = old @gh_seq[o])
    /\ (forall o: int [@n_group_membership_t[o]]. old @alive[o] -> not old (ttab_of d o) -> @n_group_membership_t[o] = old @n_group_membership_t[o])
    /\ (forall o: int [@n_p_Group[o]]. old @alive[o] -> not old (ttab_of d o) -> @n_p_Group[o] = old @n_p_Group[o]) }
  requires { [@stop_split] (forall o: int [@n_p_LocalLengthGroupSpace[o]]. old @alive[o] -> not old (ttab_of d o) -> @n_p_LocalLengthGroupSpace[o] = old @n_p_LocalLengthGroupSpace[o])
    /\ (forall o: int [@v_group_membership_t[o]]. old @alive[o] -> not old (ttab_of d o) -> @v_group_membership_t[o] = old @v_group_membership_t[o])
    /\ (forall o: int [@v_p_Group[o]]. old @alive[o] -> not old (ttab_of d o) -> @v_p_Group[o] = old @v_p_Group[o])
    /\ (forall o: int [@v_p_LocalLengthGroupSpace[o]]. old @alive[o] -> not old (ttab_of d o) -> @v_p_LocalLengthGroupSpace[o] = old @v_p_LocalLengthGroupSpace[o])
    /\ (forall b: int [@dkind[b]]. old @dkind[b] <> 0 -> old (own_live b) -> not old (tarr_of d b) -> @dkind[b] = old @dkind[b])
    /\ (forall b: int [@dlen[b]]. old @dkind[b] <> 0 -> old (own_live b) -> not old (tarr_of d b) -> @dlen[b] = old @dlen[b])
    /\ (forall b: int [@dmem[b]]. old @dkind[b] <> 0 -> old (own_live b) -> not old (tarr_of d b) -> @dmem[b] = old @dmem[b])
    /\ (forall b: int [@bown[b]]. old @dkind[b] <> 0 -> old (own_live b) -> not old (tarr_of d b) -> @bown[b] = old @bown[b]) }
  ensures { forall e: int [gtg e]. e <> d -> old (gt_ok e) -> gt_ok e /\ (@TimeSeriesSet.data[e] <> null_ptr -> dsm e = old (dsm e)) /\ dsn e = old (dsn e) }
= assert { forall e: int [gtg e]. e <> d -> old (gt_ok e) -> ds_ok e /\ cls e = cls_GroupableTimeSeriesSet /\ gtg e = old (gtg e) };
  assert { forall e: int [gtg e]. e <> d -> old (gt_ok e) -> (@TimeSeriesSet.data[e] <> null_ptr -> dsm e = old (dsm e)) /\ dsn e = old (dsn e) };
  assert { forall e: int [gtg e]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> gs_live (gtg e) /\ @GlobalGroupSpace.dataset[gtg e] = e /\ gsv (gtg e) = old (gsv (gtg e)) /\ gsn (gtg e) = old (gsn (gtg e)) /\ @v_p_LocalLengthGroupSpace[gsv (gtg e)] = old @v_p_LocalLengthGroupSpace[gsv (gtg e)] };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> gsp (gtg e) l = old (gsp (gtg e) l) };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 0 <= l < gsn (gtg e) -> gsp (gtg e) l <> 0 -> old (gs_del (gtg e) l) /\ not old (tset_of d (gsp (gtg e) l)) };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 0 <= l < gsn (gtg e) -> gsp (gtg e) l <> 0 -> gs_del (gtg e) l /\ spm (gsp (gtg e) l) = old (spm (gsp (gtg e) l)) /\ spn (gsp (gtg e) l) = old (spn (gsp (gtg e) l)) /\ @v_p_Group[@LocalLengthGroupSpace.groups[gsp (gtg e) l]] = old @v_p_Group[@LocalLengthGroupSpace.groups[gsp (gtg e) l]] };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 0 <= l < gsn (gtg e) -> gsp (gtg e) l <> 0 -> 0 <= i < spn (gsp (gtg e) l) -> spg (gsp (gtg e) l) i = old (spg (gsp (gtg e) l) i) /\ old (sp_del (gsp (gtg e) l) i) };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 0 <= l < gsn (gtg e) -> gsp (gtg e) l <> 0 -> 0 <= i < spn (gsp (gtg e) l) -> spg (gsp (gtg e) l) i <> 0 -> let p = gsp (gtg e) l in let g = spg p i in old @gh_home[old @Group.centroid[g]] = g /\ old @Group.memberMap[g] = old (spm p) /\ mem_of (old (spm p)) = p /\ old @LocalLengthGroupSpace.dataset[p] = e /\ cls g = cls_Group /\ cls (old @Group.centroid[g]) = cls_TimeSeries };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 0 <= l < gsn (gtg e) -> gsp (gtg e) l <> 0 -> 0 <= i < spn (gsp (gtg e) l) -> spg (gsp (gtg e) l) i <> 0 -> old @alive[spg (gsp (gtg e) l) i] };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 0 <= l < gsn (gtg e) -> gsp (gtg e) l <> 0 -> 0 <= i < spn (gsp (gtg e) l) -> spg (gsp (gtg e) l) i <> 0 -> not old (tset_of d (spg (gsp (gtg e) l) i)) };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 0 <= l < gsn (gtg e) -> gsp (gtg e) l <> 0 -> 0 <= i < spn (gsp (gtg e) l) -> spg (gsp (gtg e) l) i <> 0 -> spc (gsp (gtg e) l) i = old (spc (gsp (gtg e) l) i) };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 0 <= l < gsn (gtg e) -> gsp (gtg e) l <> 0 -> 0 <= i < spn (gsp (gtg e) l) -> spg (gsp (gtg e) l) i <> 0 -> old @alive[spc (gsp (gtg e) l) i] /\ cls (spc (gsp (gtg e) l) i) = cls_TimeSeries };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 0 <= l < gsn (gtg e) -> gsp (gtg e) l <> 0 -> 0 <= i < spn (gsp (gtg e) l) -> spg (gsp (gtg e) l) i <> 0 -> not old (tset_of d (spc (gsp (gtg e) l) i)) };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 0 <= l < gsn (gtg e) -> gsp (gtg e) l <> 0 -> 0 <= i < spn (gsp (gtg e) l) -> spg (gsp (gtg e) l) i <> 0 -> let c = spc (gsp (gtg e) l) i in c > 0 /\ cls c = cls_TimeSeries /\ not old (tset_of d c) };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 0 <= l < gsn (gtg e) -> gsp (gtg e) l <> 0 -> 0 <= i < spn (gsp (gtg e) l) -> spg (gsp (gtg e) l) i <> 0 -> let c = spc (gsp (gtg e) l) i in forall b: int [old @bown[b]]. old @bown[b] = c -> not old (tarr_of d b) };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 0 <= l < gsn (gtg e) -> gsp (gtg e) l <> 0 -> 0 <= i < spn (gsp (gtg e) l) -> spg (gsp (gtg e) l) i <> 0 -> let c = spc (gsp (gtg e) l) i in forall b: int [old @bown[b]]. old @bown[b] = - c -> not old (tarr_of d b) };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 0 <= l < gsn (gtg e) -> gsp (gtg e) l <> 0 -> 0 <= i < spn (gsp (gtg e) l) -> sp_del (gsp (gtg e) l) i };
  assert { forall e: int [gtg e]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> gt_live e };
  assert { forall e: int [gtg e]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> old (gs_ready (gtg e) /\ gs_home (gtg e)) };
  assert { forall e: int [gtg e]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> ds_fin e };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> old (gs_at (gtg e) l) /\ gsp (gtg e) l <> 0 /\ mem_of (spm (gsp (gtg e) l)) = gsp (gtg e) l };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> not old (tset_of d (gsp (gtg e) l)) /\ not old (ttab_of d (spm (gsp (gtg e) l))) /\ old @alive[spm (gsp (gtg e) l)] /\ @n_group_membership_t[spm (gsp (gtg e) l)] = old @n_group_membership_t[spm (gsp (gtg e) l)] };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> ds_ok e /\ old (sp_base (gsp (gtg e) l)) /\ @LocalLengthGroupSpace.dataset[gsp (gtg e) l] = e };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> @TimeSeriesSet.itemCount[e] = old @TimeSeriesSet.itemCount[e] /\ @TimeSeriesSet.itemLength[e] = old @TimeSeriesSet.itemLength[e] };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> let p = gsp (gtg e) l in @LocalLengthGroupSpace.length[p] = old @LocalLengthGroupSpace.length[p] /\ @LocalLengthGroupSpace.subTimeSeriesCount[p] = old @LocalLengthGroupSpace.subTimeSeriesCount[p] };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> sp_live (gsp (gtg e) l) };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> @alive[spm (gsp (gtg e) l)] };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> sp_base (gsp (gtg e) l) };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> gs_at (gtg e) l };
  assert { forall e: int [gtg e]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> gs_base (gtg e) (gsn (gtg e)) };
  assert { forall e: int [gtg e]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> gs_low (gtg e) };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> old (gs_at (gtg e) l) /\ gsp (gtg e) l <> 0 /\ mem_of (spm (gsp (gtg e) l)) = gsp (gtg e) l /\ old @alive[spm (gsp (gtg e) l)] /\ cls (spm (gsp (gtg e) l)) = cls_vec };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> not old (tset_of d (spm (gsp (gtg e) l))) /\ not old (ttab_of d (spm (gsp (gtg e) l))) };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> let t = spm (gsp (gtg e) l) in @gh_cnt[t] = old @gh_cnt[t] /\ @gh_seq[t] = old @gh_seq[t] /\ @gh_rank[t] = old @gh_rank[t] /\ @v_group_membership_t[t] = old @v_group_membership_t[t] };
  assert { forall e: int [gtg e]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> gs_full (gtg e) (gsn (gtg e)) };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> old (sp_part (gsp (gtg e) l) (spn (gsp (gtg e) l))) };
  assert { forall e l: int [gsp (gtg e) l]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> sp_part (gsp (gtg e) l) (spn (gsp (gtg e) l)) };
  assert { forall e: int [gtg e]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> gs_part (gtg e) (gsn (gtg e)) };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> 0 <= i < spn (gsp (gtg e) l) -> old (grp_fld (gsp (gtg e) l) i) };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> 0 <= i < spn (gsp (gtg e) l) -> grp_fld (gsp (gtg e) l) i };
  assert { forall e: int [gtg e]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> gs_fld (gtg e) (gsn (gtg e)) };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> 0 <= i < spn (gsp (gtg e) l) -> old (cen_use (gsp (gtg e) l) i) };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> 0 <= i < spn (gsp (gtg e) l) -> let c = spc (gsp (gtg e) l) i in @TimeSeries.data[c] = old @TimeSeries.data[c] /\ @TimeSeries.start[c] = old @TimeSeries.start[c] /\ @TimeSeries.end[c] = old @TimeSeries.end[c] /\ @TimeSeries.length[c] = old @TimeSeries.length[c] /\ @TimeSeries.isOwnerOfData[c] = old @TimeSeries.isOwnerOfData[c] /\ @TimeSeries.keoghLower[c] = old @TimeSeries.keoghLower[c] /\ @TimeSeries.keoghUpper[c] = old @TimeSeries.keoghUpper[c] /\ @TimeSeries.keoghCacheValid[c] = old @TimeSeries.keoghCacheValid[c] /\ @TimeSeries.cachedWarpingBand[c] = old @TimeSeries.cachedWarpingBand[c] };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> 0 <= i < spn (gsp (gtg e) l) -> let c = spc (gsp (gtg e) l) i in let b = (@TimeSeries.data[c]).pb in b <> 0 -> not old (tarr_of d b) /\ @dkind[b] = old @dkind[b] /\ @dlen[b] = old @dlen[b] /\ @dmem[b] = old @dmem[b] /\ @bown[b] = old @bown[b] /\ @dkind[b] <> 0 };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> 0 <= i < spn (gsp (gtg e) l) -> let c = spc (gsp (gtg e) l) i in let b = (@TimeSeries.keoghLower[c]).pb in b <> 0 -> not old (tarr_of d b) /\ @dkind[b] = old @dkind[b] /\ @dlen[b] = old @dlen[b] /\ @dmem[b] = old @dmem[b] /\ @bown[b] = old @bown[b] /\ @dkind[b] <> 0 };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> 0 <= i < spn (gsp (gtg e) l) -> let c = spc (gsp (gtg e) l) i in let b = (@TimeSeries.keoghUpper[c]).pb in b <> 0 -> not old (tarr_of d b) /\ @dkind[b] = old @dkind[b] /\ @dlen[b] = old @dlen[b] /\ @dmem[b] = old @dmem[b] /\ @bown[b] = old @bown[b] /\ @dkind[b] <> 0 };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> 0 <= i < spn (gsp (gtg e) l) -> let c = spc (gsp (gtg e) l) i in (@TimeSeries.data[c]).pb <> 0 };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> 0 <= i < spn (gsp (gtg e) l) -> let c = spc (gsp (gtg e) l) i in ts_ok c };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> 0 <= i < spn (gsp (gtg e) l) -> let c = spc (gsp (gtg e) l) i in @dmem[(@TimeSeries.data[c]).pb] = old @dmem[(@TimeSeries.data[c]).pb] };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> 0 <= i < spn (gsp (gtg e) l) -> let c = spc (gsp (gtg e) l) i in (tv c).vm = old (tv c).vm };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> 0 <= i < spn (gsp (gtg e) l) -> let c = spc (gsp (gtg e) l) i in (tv c).vo = old (tv c).vo /\ (tv c).vl = old (tv c).vl };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> 0 <= i < spn (gsp (gtg e) l) -> let c = spc (gsp (gtg e) l) i in tv c = old (tv c) };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> 0 <= i < spn (gsp (gtg e) l) -> let c = spc (gsp (gtg e) l) i in ts_own c };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> 0 <= i < spn (gsp (gtg e) l) -> let c = spc (gsp (gtg e) l) i in ts_cache c };
  assert { forall e l i: int [spg (gsp (gtg e) l) i]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> 2 <= l < gsn (gtg e) -> 0 <= i < spn (gsp (gtg e) l) -> cen_use (gsp (gtg e) l) i };
  assert { forall e: int [gtg e]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> gs_use (gtg e) (gsn (gtg e)) };
  assert { forall e: int [gtg e]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> gs_home (gtg e) };
  assert { forall e: int [gtg e]. e <> d -> old (gt_ok e) -> gtg e <> 0 -> gs_ready (gtg e) }

# ---- counting
%% sym nonnull (m: map int int) (n: int) : int
%% assume nonnull_at (m: map int int) (n: int) : unit ensures { nonnull m n = if n <= 0 then 0 else nonnull m (n - 1) + (if m[n - 1] <> 0 then 1 else 0) }
%% lemma nonnull_same (m m2: map int int) (n: int) : unit
  requires { forall k: int [m2[k]]. 0 <= k < n -> (m[k] = 0 <-> m2[k] = 0) }
  ensures { nonnull m n = nonnull m2 n /\ 0 <= nonnull m n /\ (n >= 0 -> nonnull m n <= n) }
  variant { n }
= nonnull_at m n; nonnull_at m2 n; if n > 0 then nonnull_same m m2 (n - 1)
%% lemma nonnull_set (m: map int int) (n k x: int) : unit
  requires { 0 <= k < n }
  ensures { nonnull m[k <- x] n = nonnull m n - (if m[k] <> 0 then 1 else 0) + (if x <> 0 then 1 else 0) }
  variant { n }
= nonnull_at m n; nonnull_at (pure { m[k <- x] }) n;
  if k = n - 1 then nonnull_same m (pure { m[k <- x] }) (n - 1) else nonnull_set m (n - 1) k x

# ---- the registry
%% function rgv (a: int) : int = @OnexAPI.loadedDatasets[a]
%% function rgn (a: int) : int = @n_p_GroupableTimeSeriesSet[@OnexAPI.loadedDatasets[a]]
%% function rge (a k: int) : int = @v_p_GroupableTimeSeriesSet[@OnexAPI.loadedDatasets[a]][k]
%% predicate reg_live (a: int) = a > 0 /\ @alive[a] /\ cls a = cls_OnexAPI /\ (let v = rgv a in cls v = cls_vec /\ mem_of v = a /\ @alive[v]) /\ rgn a >= 0
%% predicate in_use (a k: int) = 0 <= k < rgn a /\ rge a k <> 0
# a registered dataset: valid and loaded
%% predicate reg_set (d: int) = gt_ok d /\ @TimeSeriesSet.data[d] <> null_ptr
%% predicate reg_sets (a lo: int) = forall k: int [rge a k]. lo <= k < rgn a -> rge a k = 0 \/ reg_set (rge a k)
%% predicate reg_dist (a: int) = forall j k: int [rge a j, rge a k]. 0 <= j < k -> k < rgn a -> rge a j <> 0 -> rge a j <> rge a k
%% predicate reg_ok (a: int) = reg_live a /\ reg_sets a 0 /\ reg_dist a /\ @OnexAPI.datasetCount[a] = nonnull @v_p_GroupableTimeSeriesSet[rgv a] (rgn a)
# what can be observed of dataset d
%% predicate info_of (a k: int) (r: r_dataset_info_t) = let d = rge a k in r.r_dataset_info_t_id = k /\ r.r_dataset_info_t_name = @TimeSeriesSet.filePath[d]
   /\ r.r_dataset_info_t_itemCount = @TimeSeriesSet.itemCount[d] /\ r.r_dataset_info_t_itemLength = @TimeSeriesSet.itemLength[d]
   /\ (r.r_dataset_info_t_isGrouped <-> gtg d <> 0) /\ r.r_dataset_info_t_isNormalized = @TimeSeriesSet.normalized[d]

fn OnexAPI::OnexAPI ()
  requires [the object is live] { this > 0 /\ @alive[this] /\ cls this = cls_OnexAPI }
  ensures C14 [no dataset is in use] { reg_ok this /\ rgn this = 0 /\ @OnexAPI.datasetCount[this] = 0 }
  modifies OnexAPI: this
  noraise
  exit { nonnull_at (pure { @v_p_GroupableTimeSeriesSet[rgv this] }) 0 }
fn OnexAPI::_checkDatasetIndex (index)
  opt inline
  requires [the registry is valid] { reg_live this }
  ensures C14 [only ids in use are accepted] { in_use this p_index }
  raises E_onex C14 [exactly ids not in use are refused] { not in_use this p_index }
fn OnexAPI::getDatasetCount ()
  requires [the registry is valid] { reg_ok this }
  ensures C14 [the number of datasets in use] { result = nonnull @v_p_GroupableTimeSeriesSet[rgv this] (rgn this) }
  noraise
fn OnexAPI::getDatasetInfo (index)
  requires [the registry is valid] { reg_live this /\ (in_use this p_index -> @alive[rge this p_index]) }
  ensures C14 [the dataset with this id is described] { in_use this p_index /\ info_of this p_index result }
  raises E_onex C14 [exactly ids not in use are refused] { not in_use this p_index }
# the registry is as before, except for entry x; the other datasets are as before, with their values and groups
%% predicate others_kept (a x: int) (v0: map int int) (n0: int) = forall k: int [rge a k]. k <> x -> (in_use a k <-> 0 <= k < n0 /\ v0[k] <> 0) /\ (in_use a k -> rge a k = v0[k])
fn OnexAPI::loadDataset (filePath, maxNumRow, startCol, separators)
  opt noframes
  requires [the registry is valid] { reg_ok this }
  ensures C14 [the smallest unused id is taken] { let k = result.r_dataset_info_t_id in in_use this k /\ not old (in_use this k) /\ forall j: int. 0 <= j < k -> old (in_use this j) }
  ensures C14 [the id denotes the new dataset] { let k = result.r_dataset_info_t_id in not (old @alive)[rge this k] /\ info_of this k result /\ @TimeSeriesSet.filePath[rge this k] = p_filePath /\ gtg (rge this k) = 0 }
  ensures C11 [the new dataset holds the values of the file] { let d = rge this result.r_dataset_info_t_id in @io_open /\ (not io_broken @io_src -> not refused @io_src p_separators p_startCol p_maxNumRow
     /\ @TimeSeriesSet.itemCount[d] = rows_read @io_src p_maxNumRow /\ @TimeSeriesSet.itemLength[d] = ncols @io_src p_separators 0 - p_startCol
     /\ loaded (dsm d) @io_src p_separators p_startCol @TimeSeriesSet.itemLength[d] @TimeSeriesSet.itemCount[d]) }
  ensures C14 [other ids denote the same datasets] { others_kept this result.r_dataset_info_t_id (old @v_p_GroupableTimeSeriesSet[rgv this]) (old (rgn this)) }
  ensures C14,C16 [other datasets stay as they are] { forall k: int [rge this k]. in_use this k -> k <> result.r_dataset_info_t_id -> let d = rge this k in @TimeSeriesSet.itemCount[d] = old @TimeSeriesSet.itemCount[d] /\ @TimeSeriesSet.itemLength[d] = old @TimeSeriesSet.itemLength[d]
     /\ @TimeSeriesSet.filePath[d] = old @TimeSeriesSet.filePath[d] /\ @TimeSeriesSet.normalized[d] = old @TimeSeriesSet.normalized[d] /\ gtg d = old (gtg d) /\ dsm d = old (dsm d) }
  ensures C14 [one dataset more] { @OnexAPI.datasetCount[this] = old @OnexAPI.datasetCount[this] + 1 }
  ensures C14,C16,C19 [all datasets are valid, with their groups] { reg_ok this }
  raises E_onex C11 [refused exactly when it cannot be read or is not a table of numbers] { not @io_open \/ io_broken @io_src \/ refused @io_src p_separators p_startCol p_maxNumRow }
  raises E_onex C14 [a failed load changes nothing] { rgn this = old (rgn this) /\ @v_p_GroupableTimeSeriesSet[rgv this] = old @v_p_GroupableTimeSeriesSet[rgv this] /\ @OnexAPI.datasetCount[this] = old @OnexAPI.datasetCount[this] }
  raises E_onex C14,C16,C19 [all datasets are valid, with their groups] { reg_ok this }
  modifies OnexAPI.datasetCount: this
  modifies vec: rgv this
  entry { let ghost v0 = pure { @v_p_GroupableTimeSeriesSet[rgv this] } in let ghost n0 = pure { rgn this } in }
  loop 1
  invariant [all ids before are in use] { 0 <= $i <= n0 /\ $nextIndex = -1 /\ forall j: int [v0[j]]. 0 <= j < $i -> v0[j] <> 0 }
  exit { gt_keep 0; let ghost d = $newSet in let ghost k = result.r_dataset_info_t_id in let ghost v1 = pure { @v_p_GroupableTimeSeriesSet[rgv this] } in
    nonnull_at v1 (n0 + 1); if k < n0 then nonnull_set v0 n0 k d else nonnull_same v0 v1 n0;
    assert { reg_sets this 0 }; assert { reg_dist this } }
  onraise { gt_keep 0 }
fn OnexAPI::unloadDataset (index)
  opt noframes
  requires [the registry is valid] { reg_ok this }
  ensures C14 [the id is free again, its dataset is released] { old (in_use this p_index) /\ not in_use this p_index /\ not @alive[old (rge this p_index)] }
  ensures C14 [other ids denote the same datasets] { others_kept this p_index (old @v_p_GroupableTimeSeriesSet[rgv this]) (old (rgn this)) }
  ensures C14,C16 [other datasets stay as they are] { forall k: int [rge this k]. in_use this k -> k <> p_index -> let d = rge this k in @TimeSeriesSet.itemCount[d] = old @TimeSeriesSet.itemCount[d] /\ @TimeSeriesSet.itemLength[d] = old @TimeSeriesSet.itemLength[d]
     /\ @TimeSeriesSet.filePath[d] = old @TimeSeriesSet.filePath[d] /\ @TimeSeriesSet.normalized[d] = old @TimeSeriesSet.normalized[d] /\ gtg d = old (gtg d) /\ dsm d = old (dsm d) }
  ensures C14 [one dataset less] { @OnexAPI.datasetCount[this] = old @OnexAPI.datasetCount[this] - 1 }
  ensures C14,C16,C19 [all datasets are valid, with their groups] { reg_ok this }
  raises E_onex C14 [exactly ids not in use are refused] { not in_use this p_index }
  raises E_onex C14 [a refused operation changes nothing] { reg_ok this /\ rgn this = old (rgn this) /\ @v_p_GroupableTimeSeriesSet[rgv this] = old @v_p_GroupableTimeSeriesSet[rgv this] /\ @OnexAPI.datasetCount[this] = old @OnexAPI.datasetCount[this]
     /\ @dmem = old @dmem /\ @TimeSeriesSet.itemCount = old @TimeSeriesSet.itemCount /\ @TimeSeriesSet.itemLength = old @TimeSeriesSet.itemLength }
  modifies OnexAPI.datasetCount: this
  entry { let ghost v0 = pure { @v_p_GroupableTimeSeriesSet[rgv this] } in let ghost n0 = pure { rgn this } in let ghost d0 = pure { rge this p_index } in }
  exit { gt_keep d0; let ghost v1 = pure { @v_p_GroupableTimeSeriesSet[rgv this] } in
    nonnull_set v0 n0 p_index 0; nonnull_same (pure { v0[p_index <- 0] }) v1 n0; nonnull_at v1 n0;
    assert { reg_sets this 0 }; assert { reg_dist this } }
fn OnexAPI::unloadAllDataset ()
  opt noframes
  requires [the registry is valid] { reg_ok this }
  ensures C14 [no dataset is in use] { rgn this = 0 /\ @OnexAPI.datasetCount[this] = 0 /\ reg_ok this }
  noraise
  entry { let ghost rv = pure { rgv this } in let ghost v0 = pure { @v_p_GroupableTimeSeriesSet[rgv this] } in let ghost n0 = pure { rgn this } in }
  loop 1
  invariant [range] { 0 <= $i <= n0 /\ rgn this = n0 /\ rgv this = rv /\ @v_p_GroupableTimeSeriesSet[rv] = v0 /\ reg_live this /\ @alive[rv] }
  invariant [different ids are different datasets] { reg_dist this }
  invariant [the remaining datasets are valid] { reg_sets this $i }
  variant { n0 - $i }
  begin { label Q in let ghost d = pure { v0[$i] } in let ghost i0 = $i in }
  end { if d <> 0 then gt_keep'Q d; assert { reg_sets this (i0 + 1) } }
  exit { nonnull_at (pure { @v_p_GroupableTimeSeriesSet[rgv this] }) 0 }
fn OnexAPI::~OnexAPI ()
  opt noframes
  requires C19 [the registry is valid] { reg_ok this }
  noraise
fn OnexAPI::setWarpingBandRatio (ratio)
  ensures C08 [the band ratio is the given one] { @gv_warpingBandRatio = p_ratio }
  noraise
fn OnexAPI::getAllDatasetInfo ()
  opt noframes
  requires [the registry is valid] { reg_ok this }
  ensures C14 [exactly the datasets in use are listed, by ascending id] { let v = @v_p_GroupableTimeSeriesSet[rgv this] in @n_dataset_info_t[result] = nonnull v (rgn this)
     /\ forall k: int [rge this k]. in_use this k -> info_of this k @v_dataset_info_t[result][nonnull v k] }
  ensures C14 [nothing changes] { reg_ok this /\ rgn this = old (rgn this) /\ @v_p_GroupableTimeSeriesSet = old @v_p_GroupableTimeSeriesSet /\ @OnexAPI.datasetCount = old @OnexAPI.datasetCount }
  noraise
  entry { let ghost v = pure { @v_p_GroupableTimeSeriesSet[rgv this] } in let ghost n0 = pure { rgn this } in }
  loop 1
  before { nonnull_at v 0 }
  invariant [the list so far] { 0 <= $i <= n0 /\ @n_dataset_info_t[$info] = nonnull v $i /\ 0 <= nonnull v $i }
  invariant [entries so far] { forall k: int [v[k]]. 0 <= k < $i -> v[k] <> 0 -> 0 <= nonnull v k < nonnull v $i /\ info_of this k @v_dataset_info_t[$info][nonnull v k] }
  variant { n0 - $i }
  begin { nonnull_at v ($i + 1); nonnull_same v v $i }
  exit { gt_keep 0 }
# ---- operations on one dataset
fn OnexAPI::saveDataset (index, filePath, separator)
  opt noframes
  requires [the registry is valid] { reg_ok this }
  ensures C14 [only ids in use are accepted] { in_use this p_index }
  ensures C12 [the file is a table of the values, exactly as they are] { let d = rge this p_index in @io_open /\ @os_path[@io_dst] = p_filePath /\ ttab @os_tok[@io_dst] (dsm d) @TimeSeriesSet.itemLength[d] (2 * @TimeSeriesSet.itemLength[d] + 1) @TimeSeriesSet.itemCount[d] p_separator
     /\ @os_len[@io_dst] = @TimeSeriesSet.itemCount[d] * (2 * @TimeSeriesSet.itemLength[d] + 1) }
  ensures C14 [ids denote the same datasets as before] { rgn this = old (rgn this) /\ @v_p_GroupableTimeSeriesSet[rgv this] = old @v_p_GroupableTimeSeriesSet[rgv this] /\ @OnexAPI.datasetCount[this] = old @OnexAPI.datasetCount[this] }
  ensures C14,C16 [other datasets stay as they are] { forall k: int [rge this k]. in_use this k -> k <> -1 -> let d = rge this k in @TimeSeriesSet.itemCount[d] = old @TimeSeriesSet.itemCount[d] /\ @TimeSeriesSet.itemLength[d] = old @TimeSeriesSet.itemLength[d]
     /\ @TimeSeriesSet.filePath[d] = old @TimeSeriesSet.filePath[d] /\ @TimeSeriesSet.normalized[d] = old @TimeSeriesSet.normalized[d] /\ gtg d = old (gtg d) /\ dsm d = old (dsm d) }
  ensures C14,C16,C19 [all datasets are valid, with their groups] { reg_ok this }
  raises E_onex C14 [exactly ids not in use and files that cannot be opened are refused] { not in_use this p_index \/ not @io_open }
  raises E_onex C14 [ids denote the same datasets as before] { rgn this = old (rgn this) /\ @v_p_GroupableTimeSeriesSet[rgv this] = old @v_p_GroupableTimeSeriesSet[rgv this] /\ @OnexAPI.datasetCount[this] = old @OnexAPI.datasetCount[this] }
  raises E_onex C14,C16 [other datasets stay as they are] { forall k: int [rge this k]. in_use this k -> k <> -1 -> let d = rge this k in @TimeSeriesSet.itemCount[d] = old @TimeSeriesSet.itemCount[d] /\ @TimeSeriesSet.itemLength[d] = old @TimeSeriesSet.itemLength[d]
     /\ @TimeSeriesSet.filePath[d] = old @TimeSeriesSet.filePath[d] /\ @TimeSeriesSet.normalized[d] = old @TimeSeriesSet.normalized[d] /\ gtg d = old (gtg d) /\ dsm d = old (dsm d) }
  raises E_onex C14,C16,C19 [all datasets are valid, with their groups] { reg_ok this }
  entry { let ghost d0 = pure { if in_use this p_index then rge this p_index else 0 } in }
  exit { gt_keep 0; assert { reg_sets this 0 } }
  onraise { gt_keep 0; assert { reg_sets this 0 } }
fn OnexAPI::normalizeDataset (idx)
  opt noframes
  requires [the registry is valid] { reg_ok this }
  requires C09 [the values are finite] { in_use this p_idx -> ds_fin (rge this p_idx) }
  ensures C14 [only ids in use are accepted] { in_use this p_idx }
  ensures C09 [the smallest and the largest value are returned] { let d = rge this p_idx in let (mn, mx) = result in let m = old (dsm (rge this p_idx)) in let n = dsn d in
     low_of m n mn /\ high_of m n mx /\ occurs m n mn /\ occurs m n mx }
  ensures C09 [every value is rescaled, a constant dataset becomes zero] { let d = rge this p_idx in let (mn, mx) = result in
     if dv mn = dv mx then zeroed (dsm d) (dsn d) else scaled (dsm d) (old (dsm (rge this p_idx))) (dsn d) mn (fsub mx mn) }
  ensures C16 [not grouped any more] { gtg (rge this p_idx) = 0 }
  ensures C14 [ids denote the same datasets as before] { rgn this = old (rgn this) /\ @v_p_GroupableTimeSeriesSet[rgv this] = old @v_p_GroupableTimeSeriesSet[rgv this] /\ @OnexAPI.datasetCount[this] = old @OnexAPI.datasetCount[this] }
  ensures C14,C16 [other datasets stay as they are] { forall k: int [rge this k]. in_use this k -> k <> p_idx -> let d = rge this k in @TimeSeriesSet.itemCount[d] = old @TimeSeriesSet.itemCount[d] /\ @TimeSeriesSet.itemLength[d] = old @TimeSeriesSet.itemLength[d]
     /\ @TimeSeriesSet.filePath[d] = old @TimeSeriesSet.filePath[d] /\ @TimeSeriesSet.normalized[d] = old @TimeSeriesSet.normalized[d] /\ gtg d = old (gtg d) /\ dsm d = old (dsm d) }
  ensures C14,C16,C19 [all datasets are valid, with their groups] { reg_ok this }
  raises E_onex C14 [exactly ids not in use and empty datasets are refused] { in_use this p_idx -> dsn (rge this p_idx) = 0 }
  raises E_onex C14 [ids denote the same datasets as before] { rgn this = old (rgn this) /\ @v_p_GroupableTimeSeriesSet[rgv this] = old @v_p_GroupableTimeSeriesSet[rgv this] /\ @OnexAPI.datasetCount[this] = old @OnexAPI.datasetCount[this] }
  raises E_onex C14,C16 [other datasets stay as they are] { forall k: int [rge this k]. in_use this k -> k <> -1 -> let d = rge this k in @TimeSeriesSet.itemCount[d] = old @TimeSeriesSet.itemCount[d] /\ @TimeSeriesSet.itemLength[d] = old @TimeSeriesSet.itemLength[d]
     /\ @TimeSeriesSet.filePath[d] = old @TimeSeriesSet.filePath[d] /\ @TimeSeriesSet.normalized[d] = old @TimeSeriesSet.normalized[d] /\ gtg d = old (gtg d) /\ dsm d = old (dsm d) }
  raises E_onex C14,C16,C19 [all datasets are valid, with their groups] { reg_ok this }
  entry { let ghost d0 = pure { if in_use this p_idx then rge this p_idx else 0 } in }
  exit { gt_keep d0; assert { reg_sets this 0 } }
  onraise { gt_keep (pure { if in_use this p_idx then rge this p_idx else 0 }); assert { reg_sets this 0 } }
fn OnexAPI::groupDataset (index, threshold)
  opt noframes
  requires [the registry is valid] { reg_ok this }
  requires [the values are finite] { in_use this p_index -> ds_fin (rge this p_index) }
  requires [ratio in range] { ratio_ok }
  requires [the threshold is not negative] { 0.0 <=. dv p_threshold }
  ensures C14 [only ids in use are accepted] { in_use this p_index }
  ensures C16 [grouped] { gtg (rge this p_index) <> 0 }
  ensures C05,C16 [every subsequence of every length of the current values is in exactly one group] { let g = gtg (rge this p_index) in gs_part g (gsn g) /\ gs_scanned g (gsn g) /\ gs_full g (gsn g) }
  ensures C06,C16 [representatives are first members with their current values] { let g = gtg (rge this p_index) in gs_rep g (gsn g) }
  ensures C06,C16 [similar to the nearest representative, by the euclidean distance] { let g = gtg (rge this p_index) in gs_near g (gsn g) code_pairwiseDistance @gv_warpingBandRatio (fdiv p_threshold (of_int 2)) }
  ensures C05 [the groups of all lengths are counted] { let g = gtg (rge this p_index) in exists c: map int int. result = total c (gsn g) /\ forall l: int [c[l]]. 2 <= l < gsn g -> c[l] = spn (gsp g l) }
  ensures C16 [the values stay] { dsm (rge this p_index) = old (dsm (rge this p_index)) }
  ensures C14 [ids denote the same datasets as before] { rgn this = old (rgn this) /\ @v_p_GroupableTimeSeriesSet[rgv this] = old @v_p_GroupableTimeSeriesSet[rgv this] /\ @OnexAPI.datasetCount[this] = old @OnexAPI.datasetCount[this] }
  ensures C14,C16 [other datasets stay as they are] { forall k: int [rge this k]. in_use this k -> k <> p_index -> let d = rge this k in @TimeSeriesSet.itemCount[d] = old @TimeSeriesSet.itemCount[d] /\ @TimeSeriesSet.itemLength[d] = old @TimeSeriesSet.itemLength[d]
     /\ @TimeSeriesSet.filePath[d] = old @TimeSeriesSet.filePath[d] /\ @TimeSeriesSet.normalized[d] = old @TimeSeriesSet.normalized[d] /\ gtg d = old (gtg d) /\ dsm d = old (dsm d) }
  ensures C14,C16,C19 [all datasets are valid, with their groups] { reg_ok this }
  raises E_onex C14 [exactly ids not in use are refused] { not in_use this p_index }
  raises E_onex C14 [ids denote the same datasets as before] { rgn this = old (rgn this) /\ @v_p_GroupableTimeSeriesSet[rgv this] = old @v_p_GroupableTimeSeriesSet[rgv this] /\ @OnexAPI.datasetCount[this] = old @OnexAPI.datasetCount[this] }
  raises E_onex C14,C16 [other datasets stay as they are] { forall k: int [rge this k]. in_use this k -> k <> -1 -> let d = rge this k in @TimeSeriesSet.itemCount[d] = old @TimeSeriesSet.itemCount[d] /\ @TimeSeriesSet.itemLength[d] = old @TimeSeriesSet.itemLength[d]
     /\ @TimeSeriesSet.filePath[d] = old @TimeSeriesSet.filePath[d] /\ @TimeSeriesSet.normalized[d] = old @TimeSeriesSet.normalized[d] /\ gtg d = old (gtg d) /\ dsm d = old (dsm d) }
  raises E_onex C14,C16,C19 [all datasets are valid, with their groups] { reg_ok this }
  entry { let ghost d0 = pure { if in_use this p_index then rge this p_index else 0 } in }
  exit { gt_keep d0; assert { reg_sets this 0 } }
  onraise { gt_keep (pure { if in_use this p_index then rge this p_index else 0 }); assert { reg_sets this 0 } }
fn OnexAPI::PAA (idx, n)
  opt noframes
  requires [the registry is valid] { reg_ok this }
  ensures C14 [only ids in use are accepted] { in_use this p_idx /\ info_of this p_idx result }
  ensures C10 [every row has one value per block, the number of rows stays] { let d = rge this p_idx in p_n >= 1 /\ @TimeSeriesSet.itemCount[d] = old @TimeSeriesSet.itemCount[rge this p_idx] /\ blocks (old @TimeSeriesSet.itemLength[rge this p_idx]) p_n @TimeSeriesSet.itemLength[d] }
  ensures C10 [every value is the mean of its block] { let d = rge this p_idx in paa_rows (dsm d) (old (dsm (rge this p_idx))) (old @TimeSeriesSet.itemLength[rge this p_idx]) p_n @TimeSeriesSet.itemLength[d] @TimeSeriesSet.itemCount[d] }
  ensures C16 [not grouped any more] { gtg (rge this p_idx) = 0 }
  ensures C14 [ids denote the same datasets as before] { rgn this = old (rgn this) /\ @v_p_GroupableTimeSeriesSet[rgv this] = old @v_p_GroupableTimeSeriesSet[rgv this] /\ @OnexAPI.datasetCount[this] = old @OnexAPI.datasetCount[this] }
  ensures C14,C16 [other datasets stay as they are] { forall k: int [rge this k]. in_use this k -> k <> p_idx -> let d = rge this k in @TimeSeriesSet.itemCount[d] = old @TimeSeriesSet.itemCount[d] /\ @TimeSeriesSet.itemLength[d] = old @TimeSeriesSet.itemLength[d]
     /\ @TimeSeriesSet.filePath[d] = old @TimeSeriesSet.filePath[d] /\ @TimeSeriesSet.normalized[d] = old @TimeSeriesSet.normalized[d] /\ gtg d = old (gtg d) /\ dsm d = old (dsm d) }
  ensures C14,C16,C19 [all datasets are valid, with their groups] { reg_ok this }
  raises E_onex C14 [exactly ids not in use and block sizes that are not positive are refused] { not in_use this p_idx \/ p_n <= 0 }
  raises E_onex C14 [ids denote the same datasets as before] { rgn this = old (rgn this) /\ @v_p_GroupableTimeSeriesSet[rgv this] = old @v_p_GroupableTimeSeriesSet[rgv this] /\ @OnexAPI.datasetCount[this] = old @OnexAPI.datasetCount[this] }
  raises E_onex C14,C16 [other datasets stay as they are] { forall k: int [rge this k]. in_use this k -> k <> -1 -> let d = rge this k in @TimeSeriesSet.itemCount[d] = old @TimeSeriesSet.itemCount[d] /\ @TimeSeriesSet.itemLength[d] = old @TimeSeriesSet.itemLength[d]
     /\ @TimeSeriesSet.filePath[d] = old @TimeSeriesSet.filePath[d] /\ @TimeSeriesSet.normalized[d] = old @TimeSeriesSet.normalized[d] /\ gtg d = old (gtg d) /\ dsm d = old (dsm d) }
  raises E_onex C14,C16,C19 [all datasets are valid, with their groups] { reg_ok this }
  entry { let ghost d0 = pure { if in_use this p_idx then rge this p_idx else 0 } in }
  exit { gt_keep d0; assert { reg_sets this 0 } }
  onraise { gt_keep (pure { if in_use this p_idx then rge this p_idx else 0 }); assert { reg_sets this 0 } }
fn OnexAPI::getBestMatch (result_idx, query_idx, index, start, end)
  opt noframes
  requires [the registry is valid] { reg_ok this }
  requires [ratio in range] { ratio_ok }
  requires [lengths] { (in_use this p_result_idx -> @TimeSeriesSet.itemLength[rge this p_result_idx] <= 67108862) /\ (in_use this p_query_idx -> @TimeSeriesSet.itemLength[rge this p_query_idx] <= 67108862) }
  requires [the values are finite] { in_use this p_query_idx -> ds_fin (rge this p_query_idx) }
  ensures C14 [only ids in use are accepted] { in_use this p_result_idx /\ in_use this p_query_idx }
  ensures C16 [only a grouped dataset answers] { gtg (rge this p_result_idx) <> 0 }
  ensures C07,C16 [a subsequence of the current values] { exists l: int. exists p: coord. 2 <= l <= @TimeSeriesSet.itemLength[rge this p_result_idx] /\ ts_coord @candidate_time_series_t.data[result] (rge this p_result_idx) l p }
  ensures C14 [ids denote the same datasets as before] { rgn this = old (rgn this) /\ @v_p_GroupableTimeSeriesSet[rgv this] = old @v_p_GroupableTimeSeriesSet[rgv this] /\ @OnexAPI.datasetCount[this] = old @OnexAPI.datasetCount[this] }
  ensures C14,C16 [the datasets stay as they are] { forall k: int [rge this k]. in_use this k -> let d = rge this k in @TimeSeriesSet.itemCount[d] = old @TimeSeriesSet.itemCount[d] /\ @TimeSeriesSet.itemLength[d] = old @TimeSeriesSet.itemLength[d]
     /\ @TimeSeriesSet.filePath[d] = old @TimeSeriesSet.filePath[d] /\ @TimeSeriesSet.normalized[d] = old @TimeSeriesSet.normalized[d] /\ gtg d = old (gtg d) /\ dsm d = old (dsm d) }
  ensures C14,C16,C19 [all datasets are valid, with their groups] { reg_ok this }
  raises E_onex C14 [ids denote the same datasets as before] { rgn this = old (rgn this) /\ @v_p_GroupableTimeSeriesSet[rgv this] = old @v_p_GroupableTimeSeriesSet[rgv this] /\ @OnexAPI.datasetCount[this] = old @OnexAPI.datasetCount[this] }
  raises E_onex C14,C16 [the datasets stay as they are] { forall k: int [rge this k]. in_use this k -> let d = rge this k in @TimeSeriesSet.itemCount[d] = old @TimeSeriesSet.itemCount[d] /\ @TimeSeriesSet.itemLength[d] = old @TimeSeriesSet.itemLength[d]
     /\ @TimeSeriesSet.filePath[d] = old @TimeSeriesSet.filePath[d] /\ @TimeSeriesSet.normalized[d] = old @TimeSeriesSet.normalized[d] /\ gtg d = old (gtg d) /\ dsm d = old (dsm d) }
  raises E_onex C14,C16,C19 [all datasets are valid, with their groups] { reg_ok this }
  entry { let ghost d0 = pure { if in_use this p_result_idx then rge this p_result_idx else 0 } in }
  after-call getTimeSeries { let ghost q = $ret in let ghost e = pure { rge this p_query_idx } in row_in p_index 0 (pure { @TimeSeriesSet.itemCount[e] }) (pure { @TimeSeriesSet.itemLength[e] });
    assert { ds_fin e }; assert { vfin (tv q) };
    assert { forall b: int [@bown[b]]. old @dkind[b] <> 0 -> old (own_live b) -> @bown[b] = old @bown[b] /\ @bown[b] <> - q /\ @dkind[b] = old @dkind[b] /\ @dlen[b] = old @dlen[b] /\ @dmem[b] = old @dmem[b] } }
  after-call getBestMatch { let ghost g = pure { gtg d0 } in
    assert { forall l i: int [spg (gsp g l) i]. 0 <= l < gsn g -> gsp g l <> 0 -> 0 <= i < spn (gsp g l) -> l >= 2 /\ spc (gsp g l) i <> q };
    assert { forall b: int [@bown[b]]. old @dkind[b] <> 0 -> old (own_live b) -> not old (tarr_of d0 b) -> @bown[b] = old @bown[b] /\ @bown[b] <> - q };
    let ghost t = pure { @candidate_time_series_t.data[$ret] } in assert { t <> q /\ ts_use t /\ not @TimeSeries.isOwnerOfData[q] /\ ts_own q };
    let ghost cl = (any int ensures { exists p: coord. 2 <= result <= @TimeSeriesSet.itemLength[d0] /\ ts_coord t d0 result p }) in let ghost cp = (any coord ensures { ts_coord t d0 cl result }) in let ghost (cx, cs) = cp in
    assert { ts_row t d0 cx cs (cs + cl) };
    label Q in }
  exit { let ghost t = pure { @candidate_time_series_t.data[result] } in assert { @TimeSeries.data[t] = (@TimeSeries.data[t] at Q) /\ @TimeSeries.start[t] = (@TimeSeries.start[t] at Q) /\ @TimeSeries.end[t] = (@TimeSeries.end[t] at Q) /\ @TimeSeries.index[t] = (@TimeSeries.index[t] at Q) /\ @TimeSeries.length[t] = (@TimeSeries.length[t] at Q) /\ @TimeSeries.isOwnerOfData[t] = (@TimeSeries.isOwnerOfData[t] at Q) };
    assert { ts_row t d0 cx cs (cs + cl) }; assert { ts_coord t d0 cl (cx, cs) };
    assert { forall b: int [@dkind[b]]. (@dkind[b] at Q) <> 0 -> (@bown[b] at Q) <> - q -> @dkind[b] = (@dkind[b] at Q) /\ @dlen[b] = (@dlen[b] at Q) /\ @dmem[b] = (@dmem[b] at Q) /\ @bown[b] = (@bown[b] at Q) };
    assert { forall l i: int [spg (gsp g l) i]. 0 <= l < gsn g -> gsp g l <> 0 -> 0 <= i < spn (gsp g l) -> cen_use (gsp g l) i /\ tv (spc (gsp g l) i) = (tv (spc (gsp g l) i) at Q) };
    assert { forall l i: int [spg (gsp g l) i]. 0 <= l < gsn g -> gsp g l <> 0 -> 0 <= i < spn (gsp g l) -> sp_del (gsp g l) i };
    assert { gs_use g (gsn g) }; assert { forall l: int [gsp g l]. 0 <= l < gsn g -> gs_del g l }; assert { gt_live d0 }; assert { ds_ok d0 /\ ds_data d0 }; assert { gs_base g (gsn g) }; assert { gs_home g }; assert { gs_ready g };  assert { gt_ok d0 }; gt_keep d0; assert { reg_sets this 0 } }
  onraise { gt_keep (pure { if in_use this p_result_idx then rge this p_result_idx else 0 }); assert { reg_sets this 0 } }
