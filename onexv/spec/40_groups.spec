# ---------------------------------------------------------------------------
# Groups: ghost record of every group of a space (indexed by the space's membership table)
# ---------------------------------------------------------------------------
# gh_seq[table][group][k]: the k-th member; gh_rank[table][position]: its k; gh_cnt[table][group]: number of members; gh_home[centroid]: its group
%% type coord = (int, int)
%% type coordmap = map int coord
%% type seqs = map int coordmap
%% global gh_seq : map int seqs
%% global gh_rank : map int (map int int)
%% global gh_cnt : map int (map int int)
%% global gh_home : map int int
%% assume set_gh_seq (o: int) (x: seqs) : unit writes { gh_seq } ensures { @gh_seq = (old @gh_seq)[o <- x] }
%% assume set_gh_rank (o: int) (x: map int int) : unit writes { gh_rank } ensures { @gh_rank = (old @gh_rank)[o <- x] }
%% assume set_gh_cnt (o: int) (x: map int int) : unit writes { gh_cnt } ensures { @gh_cnt = (old @gh_cnt)[o <- x] }
%% assume set_gh_home (o: int) (x: int) : unit writes { gh_home } ensures { @gh_home = (old @gh_home)[o <- x] }
# position of a subsequence in a membership table with w entries per series
%% sym mpos (w i c: int) : int
%% assume mpos_at (w i c: int) : unit ensures { mpos w i c = i * w + c }
%% assume mpos_all (w: int) : unit ensures { forall i c: int [mpos w i c]. mpos w i c = i * w + c }
%% lemma mpos_inj2 (w i c j d: int) : unit
  requires { 0 <= c < w /\ 0 <= d < w /\ i * w + c = j * w + d }
  ensures { i = j /\ c = d }
= if i < j then assert { j * w >= (i + 1) * w } else if j < i then assert { i * w >= (j + 1) * w }
%% lemma mpos_inj (w i c: int) : unit
  requires { 0 <= c < w }
  ensures { forall j d: int [mpos w j d]. 0 <= d < w -> mpos w i c = mpos w j d -> i = j /\ c = d }
= mpos_all w;
  assert { forall j d: int. 0 <= d < w -> i * w + c = j * w + d -> (i < j -> j * w >= (i + 1) * w) /\ (j < i -> i * w >= (j + 1) * w) };
  assert { forall j d: int. 0 <= d < w -> i * w + c = j * w + d -> i = j /\ c = d }
%% lemma mpos_in (w i c n: int) : unit
  requires { 0 <= c < w /\ 0 <= i < n }
  ensures { 0 <= mpos w i c < n * w }
= mpos_at w i c; assert { (i + 1) * w <= n * w }
%% predicate coord_in (n w: int) (p: coord) = let (i, s) = p in 0 <= i < n /\ 0 <= s < w
%% function cpos (w: int) (p: coord) : int = let (i, s) = p in mpos w i s
%% function noone : (int, int) = (-1, -1)
# the chain of every group visits its members once; every table entry is free or the entry of exactly one member
%% opaque part (mv: map int r_group_membership_t) (sq: seqs) (rk cn: map int int) (g n w: int) =
   (forall i k: int [sq[i][k]]. 0 <= i < g -> 0 <= k < cn[i] -> coord_in n w sq[i][k] /\ mv[cpos w sq[i][k]].r_group_membership_t_groupIndex = i
       /\ mv[cpos w sq[i][k]].r_group_membership_t_prev = (if k = 0 then noone else sq[i][k-1]) /\ rk[cpos w sq[i][k]] = k)
   /\ (forall x s: int [mpos w x s]. 0 <= x < n -> 0 <= s < w -> mv[mpos w x s].r_group_membership_t_groupIndex = -1
       \/ (0 <= mv[mpos w x s].r_group_membership_t_groupIndex < g /\ 0 <= rk[mpos w x s] < cn[mv[mpos w x s].r_group_membership_t_groupIndex]
           /\ sq[mv[mpos w x s].r_group_membership_t_groupIndex][rk[mpos w x s]] = (x, s)))
   /\ (forall i: int [cn[i]]. 0 <= i < g -> 0 <= cn[i])
%% lemma part_open (mv: map int r_group_membership_t) (sq: seqs) (rk cn: map int int) (g n w: int) : unit
  requires { part mv sq rk cn g n w /\ g >= 0 }
  ensures { part mv sq rk cn[g <- 0] (g + 1) n w }
= part_def mv sq rk cn g n w; part_def mv sq rk (pure { cn[g <- 0] }) (g + 1) n w
%% lemma part_add (mv: map int r_group_membership_t) (sq: seqs) (rk cn: map int int) (g n w i x s: int) (e: r_group_membership_t) : unit
  requires { part mv sq rk cn g n w /\ 0 <= i < g /\ 0 <= x < n /\ 0 <= s < w /\ mv[mpos w x s].r_group_membership_t_groupIndex = -1 }
  requires { e.r_group_membership_t_groupIndex = i /\ e.r_group_membership_t_prev = (if cn[i] = 0 then noone else sq[i][cn[i] - 1]) }
  ensures { part mv[mpos w x s <- e] sq[i <- sq[i][cn[i] <- (x, s)]] rk[mpos w x s <- cn[i]] cn[i <- cn[i] + 1] g n w }
= let mv2 = pure { mv[mpos w x s <- e] } in let sq2 = pure { sq[i <- sq[i][cn[i] <- (x, s)]] } in
  let rk2 = pure { rk[mpos w x s <- cn[i]] } in let cn2 = pure { cn[i <- cn[i] + 1] } in
  part_def mv sq rk cn g n w; part_def mv2 sq2 rk2 cn2 g n w; mpos_inj w x s;
  assert { forall j k: int [sq[j][k]]. 0 <= j < g -> 0 <= k < cn[j] -> cpos w sq[j][k] <> mpos w x s }
# exactly the positions before (s, x) in the order of the scan are assigned
%% predicate before (p q: coord) = let (x, s) = p in let (y, t) = q in s < t \/ (s = t /\ x < y)
%% opaque scanned (mv: map int r_group_membership_t) (n w: int) (q: coord) =
   forall x s: int [mpos w x s]. 0 <= x < n -> 0 <= s < w -> (mv[mpos w x s].r_group_membership_t_groupIndex <> -1 <-> before (x, s) q)
%% lemma scanned_step (mv: map int r_group_membership_t) (n w x s: int) (e: r_group_membership_t) : unit
  requires { scanned mv n w (x, s) /\ 0 <= x < n /\ 0 <= s < w /\ e.r_group_membership_t_groupIndex <> -1 }
  ensures { mv[mpos w x s].r_group_membership_t_groupIndex = -1 /\ scanned mv[mpos w x s <- e] n w (x + 1, s) }
= let mv2 = pure { mv[mpos w x s <- e] } in scanned_def mv n w (x, s); scanned_def mv2 n w (x + 1, s); mpos_inj w x s
%% lemma scanned_row (mv: map int r_group_membership_t) (n w s: int) : unit
  requires { scanned mv n w (n, s) }
  ensures { scanned mv n w (0, s + 1) }
= scanned_def mv n w (n, s); scanned_def mv n w (0, s + 1)
%% lemma scanned_none (mv: map int r_group_membership_t) (n w: int) : unit
  requires { forall p: int [mv[p]]. 0 <= p < n * w -> mv[p].r_group_membership_t_groupIndex = -1 }
  ensures { scanned mv n w (0, 0) }
= scanned_def mv n w (0, 0); mpos_all w;
  assert { forall x s: int. 0 <= x < n -> 0 <= s < w -> 0 <= x * w /\ (x + 1) * w <= n * w }
%% lemma scanned_all (mv: map int r_group_membership_t) (n w: int) : unit
  requires { scanned mv n w (0, w) }
  ensures { forall x s: int [mpos w x s]. 0 <= x < n -> 0 <= s < w -> mv[mpos w x s].r_group_membership_t_groupIndex <> -1 }
= scanned_def mv n w (0, w)
%% lemma part_none (mv: map int r_group_membership_t) (sq: seqs) (rk cn: map int int) (n w: int) : unit
  requires { forall p: int [mv[p]]. 0 <= p < n * w -> mv[p].r_group_membership_t_groupIndex = -1 }
  ensures { part mv sq rk cn 0 n w }
= part_def mv sq rk cn 0 n w; mpos_all w;
  assert { forall x s: int. 0 <= x < n -> 0 <= s < w -> 0 <= x * w /\ (x + 1) * w <= n * w }

# ---- distances to representatives
%% function dval (code: int) (a b: view) (ratio: dbl) : dbl = if code = code_pairwiseDistance then ed a b else dtw a b ratio
%% function cutr (code: int) (b: dbl) (l: int) : dbl = if code = code_pairwiseDistance then ecut b l else rcut b l
# d is not below b (up to one rounding of b as a cutoff)
%% predicate notcloser (code: int) (b d: dbl) (l: int) = dv b <=. dv d \/ dv (cutr code b l) <=. dv d
%% axiom fmul_mono_r : forall x u z: dbl [fmul x z, fmul u z]. 0.0 <=. dv x <=. dv u -> dv z >. 0.0 -> fin z -> dv (fmul x z) <=. dv (fmul u z)
%% lemma cutr_mono (code: int) (x y: dbl) (l: int) : unit
  requires { 0.0 <=. dv x <=. dv y /\ 0 < l <= 2147483647 }
  ensures { dv (cutr code x l) <=. dv (cutr code y l) }
= assert { dv (of_int l) >. 0.0 /\ fin (of_int l) /\ dv (of_int 2) = 2.0 /\ fin (of_int 2) };
  assert { dv (fmul (fmul x x) (of_int l)) <=. dv (fmul (fmul y y) (of_int l)) };
  assert { dv (fmul (fmul x x) (of_int l)) >=. 0.0 };
  assert { dv (fdiv (fmul (fmul x x) (of_int l)) (of_int l)) <=. dv (fdiv (fmul (fmul y y) (of_int l)) (of_int l)) };
  assert { dv (ecut x l) <=. dv (ecut y l) };
  let a = pure { fmul (fmul x (of_int 2)) (of_int l) } in let b = pure { fmul (fmul y (of_int 2)) (of_int l) } in
  assert { 0.0 <=. dv (fmul x (of_int 2)) <=. dv (fmul y (of_int 2)) };
  assert { 0.0 <=. dv a <=. dv b };
  assert { 0.0 <=. dv (fmul a a) <=. dv (fmul b b) };
  assert { dv (rcut x l) <=. dv (rcut y l) }
%% lemma notcloser_less (code: int) (b c d: dbl) (l: int) : unit
  requires { notcloser code c d l /\ 0.0 <=. dv b <=. dv c /\ 0 < l <= 2147483647 }
  ensures { notcloser code b d l }
= cutr_mono code b c l
%% lemma cut_notcloser (code: int) (x: dbl) (a b: view) (cut best ratio: dbl) : unit
  requires { dist_cut code x a b cut ratio /\ 0.0 <=. dv best <=. dv cut /\ dv best <=. dv x /\ 0 < max2 a.vl b.vl <= 2147483647 }
  ensures { notcloser code best (dval code a b ratio) (max2 a.vl b.vl) }
= cutr_mono code best cut (pure { max2 a.vl b.vl })
# the subsequence of length l at p, of a dataset with values m and rows of length rl
%% function sview (m: map int dbl) (rl l: int) (p: coord) : view = let (x, s) = p in { vm = m; vo = x * rl + s; vl = l }
%% function sd (code: int) (m: map int dbl) (rl l: int) (ratio: dbl) (p q: coord) : dbl = dval code (sview m rl l p) (sview m rl l q) ratio
# every member is within half of its representative; who opened a group was within half of no earlier representative; members joined the nearest one
%% opaque near (code: int) (m: map int dbl) (rl l: int) (ratio half: dbl) (sq: seqs) (cn: map int int) (g: int) =
   (forall i k: int [sq[i][k]]. 0 <= i < g -> 0 < k < cn[i] -> dv (sd code m rl l ratio sq[i][0] sq[i][k]) <=. dv half)
   /\ (forall i j: int [sq[i], sq[j]]. 0 <= j < i < g -> notcloser code half (sd code m rl l ratio sq[j][0] sq[i][0]) l)
   /\ (forall i k j: int [sq[i][k], sq[j]]. 0 <= i < g -> 0 < k < cn[i] -> 0 <= j < g -> before sq[j][0] sq[i][k] ->
        notcloser code (sd code m rl l ratio sq[i][0] sq[i][k]) (sd code m rl l ratio sq[j][0] sq[i][k]) l)
# every member was placed before q
%% opaque placed (sq: seqs) (cn: map int int) (g: int) (q: coord) = forall i k: int [sq[i][k]]. 0 <= i < g -> 0 <= k < cn[i] -> before sq[i][k] q
%% lemma placed_from (mv: map int r_group_membership_t) (sq: seqs) (rk cn: map int int) (g n w: int) (q: coord) : unit
  requires { part mv sq rk cn g n w /\ scanned mv n w q }
  ensures { placed sq cn g q }
= part_def mv sq rk cn g n w; scanned_def mv n w q; placed_def sq cn g q
%% lemma near_none (code: int) (m: map int dbl) (rl l: int) (ratio half: dbl) (sq: seqs) (cn: map int int) : unit
  ensures { near code m rl l ratio half sq cn 0 }
= near_def code m rl l ratio half sq cn 0
%% lemma near_join (code: int) (m: map int dbl) (rl l: int) (ratio half: dbl) (sq: seqs) (cn: map int int) (sq2: seqs) (cn2: map int int) (g i: int) (q: coord) : unit
  requires { near code m rl l ratio half sq cn g /\ 0 <= i < g /\ (forall j: int [cn[j]]. 0 <= j < g -> 1 <= cn[j]) }
  requires { dv (sd code m rl l ratio sq[i][0] q) <=. dv half }
  requires { forall j: int [sq[j]]. 0 <= j < g -> notcloser code (sd code m rl l ratio sq[i][0] q) (sd code m rl l ratio sq[j][0] q) l }
  requires { sq2 = sq[i <- sq[i][cn[i] <- q]] /\ forall j: int [cn2[j]]. 0 <= j < g -> cn2[j] = (if j = i then cn[i] + 1 else cn[j]) }
  ensures { near code m rl l ratio half sq2 cn2 g }
= near_def code m rl l ratio half sq cn g; near_def code m rl l ratio half sq2 cn2 g;
  assert { forall j: int [sq2[j]]. 0 <= j < g -> sq2[j][0] = sq[j][0] }
%% lemma near_open (code: int) (m: map int dbl) (rl l: int) (ratio half: dbl) (sq: seqs) (cn: map int int) (sq2: seqs) (cn2: map int int) (g: int) (q: coord) : unit
  requires { near code m rl l ratio half sq cn g /\ placed sq cn g q /\ g >= 0 /\ (forall j: int [cn[j]]. 0 <= j < g -> 1 <= cn[j]) }
  requires { forall j: int [sq[j]]. 0 <= j < g -> notcloser code half (sd code m rl l ratio sq[j][0] q) l }
  requires { sq2 = sq[g <- sq[g][0 <- q]] /\ cn2[g] = 1 /\ forall j: int [cn2[j]]. 0 <= j < g -> cn2[j] = cn[j] }
  ensures { near code m rl l ratio half sq2 cn2 (g + 1) }
= near_def code m rl l ratio half sq cn g; near_def code m rl l ratio half sq2 cn2 (g + 1); placed_def sq cn g q;
  assert { forall i k: int [sq2[i][k]]. 0 <= i < g -> sq2[i][k] = sq[i][k] };
  assert { forall i k: int [sq2[i][k]]. 0 <= i < g -> 0 <= k < cn[i] -> before sq2[i][k] q /\ not before q sq2[i][k] }

# ---- one group
%% function gmm (g: int) : int = @Group.memberMap[g]
%% function gsub (g i c: int) : int = i * @Group.subTimeSeriesCount[g] + c
# the centroid belongs to this group alone
%% predicate g_home (g: int) = @Group.centroid[g] > 0 /\ cls @Group.centroid[g] = cls_TimeSeries /\ @gh_home[@Group.centroid[g]] = g
fn Group::Group (groupIndex, memberLength, subTimeSeriesCount, dataset, memberMap)
  requires [the group is live] { this > 0 /\ @alive[this] /\ cls this = cls_Group }
  requires C19 [a positive length] { 0 <= p_memberLength <= 268435455 }
  ensures C05,C07 [an empty group of the given length] { @Group.groupIndex[this] = p_groupIndex /\ @Group.memberLength[this] = p_memberLength /\ @Group.subTimeSeriesCount[this] = p_subTimeSeriesCount
    /\ @Group.dataset[this] = p_dataset /\ @Group.memberMap[this] = p_memberMap /\ @Group.count[this] = 0 /\ @Group.lastMemberCoord[this] = noone }
  ensures C19 [a centroid of its own] { let c = @Group.centroid[this] in g_home this /\ not (old @alive)[c] /\ @alive[c] /\ @TimeSeries.length[c] = p_memberLength /\ ts_inv c /\ ts_fresh c /\ ts_start c /\ (@TimeSeries.data[c] = null_ptr \/ (old @dkind)[(@TimeSeries.data[c]).pb] = 0) }
  ensures C04,C19 [other series stay as they are] { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> old (ts_use t) ->
    ts_use t /\ tv t = old (tv t) /\ @TimeSeries.keoghLower[t] = old @TimeSeries.keoghLower[t] /\ @TimeSeries.keoghUpper[t] = old @TimeSeries.keoghUpper[t] }
  modifies ghost: { not @alive[o_] }
  noraise
  exit { set_gh_home @Group.centroid[this] this }
fn Group::addMember (index, start)
  requires C19 [a position of the membership table] { 0 <= gsub this p_index p_start < @n_group_membership_t[gmm this] }
  requires [the record counts the members] { @gh_cnt[gmm this][@Group.groupIndex[this]] = @Group.count[this] }
  ensures C05,C13 [one member more, linked to the last one] { @Group.count[this] = old @Group.count[this] + 1 /\ @Group.lastMemberCoord[this] = (p_index, p_start) }
  ensures C05,C13 [the table entry names the group and the member before] { exists e: r_group_membership_t. e.r_group_membership_t_prev = old @Group.lastMemberCoord[this] /\ e.r_group_membership_t_groupIndex = @Group.groupIndex[this]
    /\ @v_group_membership_t = (old @v_group_membership_t)[gmm this <- (old @v_group_membership_t)[gmm this][gsub this p_index p_start <- e]] }
  ensures [the record] { let t = gmm this in let i = @Group.groupIndex[this] in let k = old @Group.count[this] in
    @gh_seq = (old @gh_seq)[t <- (old @gh_seq)[t][i <- (old @gh_seq)[t][i][k <- (p_index, p_start)]]]
    /\ @gh_rank = (old @gh_rank)[t <- (old @gh_rank)[t][gsub this p_index p_start <- k]] /\ @gh_cnt = (old @gh_cnt)[t <- (old @gh_cnt)[t][i <- k + 1]] }
  modifies Group.count: this
  modifies Group.lastMemberCoord: this
  modifies vec: @Group.memberMap[this]
  modifies ghost: @Group.memberMap[this]
  noraise
  entry { let ghost t = pure { gmm this } in let ghost i = pure { @Group.groupIndex[this] } in let ghost k = pure { @Group.count[this] } in let ghost p = pure { gsub this p_index p_start } in
    set_gh_seq t (pure { @gh_seq[t][i <- @gh_seq[t][i][k <- (p_index, p_start)]] }); set_gh_rank t (pure { @gh_rank[t][p <- k] }); set_gh_cnt t (pure { @gh_cnt[t][i <- k + 1] }) }
fn Group::setCentroid (index, start)
  requires C19 [the centroid can be replaced] { let c = @Group.centroid[this] in ts_own c /\ @alive[c] }
  requires [the dataset is valid] { ds_ok @Group.dataset[this] }
  requires C05,C06 [a subsequence of the dataset] { let d = @Group.dataset[this] in 0 <= p_index < @TimeSeriesSet.itemCount[d] /\ 0 <= p_start /\ 0 < @Group.memberLength[this] /\ p_start + @Group.memberLength[this] <= @TimeSeriesSet.itemLength[d] }
  requires C19 [the centroid does not own the values of the dataset] { let c = @Group.centroid[this] in @TimeSeries.isOwnerOfData[c] -> (@TimeSeries.data[c]).pb <> 0 -> (@TimeSeries.data[c]).pb <> (@TimeSeriesSet.data[@Group.dataset[this]]).pb }
  ensures C06,C07 [the centroid is that subsequence] { ts_row @Group.centroid[this] @Group.dataset[this] p_index p_start (p_start + @Group.memberLength[this]) }
  ensures C04,C19 [a valid series] { ts_use @Group.centroid[this] /\ @TimeSeries.keoghCacheValid[@Group.centroid[this]] = false }
  ensures C04,C19 [its envelope arrays stay] { let c = @Group.centroid[this] in @TimeSeries.keoghLower[c] = old @TimeSeries.keoghLower[@Group.centroid[this]] /\ @TimeSeries.keoghUpper[c] = old @TimeSeries.keoghUpper[@Group.centroid[this]] }
  ensures C04,C19 [other series stay as they are] { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> t <> @Group.centroid[this] -> old (ts_use t) ->
    (let c = @Group.centroid[this] in old @TimeSeries.isOwnerOfData[c] -> (@TimeSeries.data[t]).pb <> (old @TimeSeries.data[c]).pb \/ (@TimeSeries.data[t]).pb = 0) ->
    ts_use t /\ tv t = old (tv t) /\ @TimeSeries.keoghLower[t] = old @TimeSeries.keoghLower[t] /\ @TimeSeries.keoghUpper[t] = old @TimeSeries.keoghUpper[t] }
  modifies TimeSeries: @Group.centroid[this]
  modifies own: { o_ <> 0 /\ (let c = @Group.centroid[this] in @TimeSeries.isOwnerOfData[c] /\ o_ = (@TimeSeries.data[c]).pb) }
  modifies mem: { o_ <> 0 /\ (let c = @Group.centroid[this] in @TimeSeries.isOwnerOfData[c] /\ o_ = (@TimeSeries.data[c]).pb) }
  noraise
%% predicate blk_from (p: ptr) (k0: map int int) (lo up: map int ptr) (a b: int) = p.pb = 0 \/ k0[p.pb] = 0 \/ p.pb = (lo[a]).pb \/ p.pb = (up[a]).pb \/ p.pb = (lo[b]).pb \/ p.pb = (up[b]).pb
%% predicate env_from (t: int) (k0: map int int) (lo up: map int ptr) (a b: int) = blk_from @TimeSeries.keoghLower[t] k0 lo up a b /\ blk_from @TimeSeries.keoghUpper[t] k0 lo up a b
# the envelope arrays of t did not exist in the state of k0
%% predicate env_new (t: int) (k0: map int int) = (@TimeSeries.keoghLower[t] = null_ptr \/ k0[(@TimeSeries.keoghLower[t]).pb] = 0) /\ (@TimeSeries.keoghUpper[t] = null_ptr \/ k0[(@TimeSeries.keoghUpper[t]).pb] = 0)
fn Group::distanceFromCentroid (query, distance, dropout)
  requires [a distance function] { is_dist p_distance }
  requires [the series are valid and finite] { ts_use @Group.centroid[this] /\ ts_use p_query /\ vfin (tv @Group.centroid[this]) /\ vfin (tv p_query) }
  requires [ratio in range] { ratio_ok }
  requires [the cutoff is not negative] { dv p_dropout >=. 0.0 }
  ensures C06,C07 [the distance of centroid and query under the cutoff] { dist_cut p_distance result (tv @Group.centroid[this]) (tv p_query) p_dropout @gv_warpingBandRatio }
  ensures C06,C07 [without a cutoff the distance itself] { p_dropout = inf -> result = dval p_distance (tv @Group.centroid[this]) (tv p_query) @gv_warpingBandRatio }
  ensures C06,C07 [the result is not negative] { dv result >=. 0.0 }
  ensures C04,C19 [the series stay valid] { ts_use @Group.centroid[this] /\ ts_use p_query }
  ensures C19 [the envelope arrays are earlier ones or new] { env_from @Group.centroid[this] (old @dkind) (old @TimeSeries.keoghLower) (old @TimeSeries.keoghUpper) @Group.centroid[this] p_query
    /\ env_from p_query (old @dkind) (old @TimeSeries.keoghLower) (old @TimeSeries.keoghUpper) @Group.centroid[this] p_query }
  ensures C04,C19 [other series stay as they are] { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> t <> @Group.centroid[this] -> t <> p_query -> old (ts_use t) ->
    ts_use t /\ tv t = old (tv t) /\ @TimeSeries.keoghLower[t] = old @TimeSeries.keoghLower[t] /\ @TimeSeries.keoghUpper[t] = old @TimeSeries.keoghUpper[t] }
  modifies TimeSeries.envelope: @Group.centroid[this], p_query
  modifies own: { kb_of @Group.centroid[this] o_ \/ kb_of p_query o_ }
  modifies mem: { kb_of @Group.centroid[this] o_ \/ kb_of p_query o_ }
  raises E_onex C18 [only the Euclidean distance of different lengths is refused] { p_distance = code_pairwiseDistance /\ @TimeSeries.length[@Group.centroid[this]] <> @TimeSeries.length[p_query] }

# ---- all groups of one length
%% function spg (s i: int) : int = @v_p_Group[@LocalLengthGroupSpace.groups[s]][i]
%% function spn (s: int) : int = @n_p_Group[@LocalLengthGroupSpace.groups[s]]
%% function spm (s: int) : int = @LocalLengthGroupSpace.memberMap[s]
%% function spc (s i: int) : int = @Group.centroid[@v_p_Group[@LocalLengthGroupSpace.groups[s]][i]]
# the tables are members of the space
%% predicate sp_tab (s: int) = cls s = cls_LocalLengthGroupSpace /\ (let v = @LocalLengthGroupSpace.groups[s] in cls v = cls_vec /\ mem_of v = s) /\ (let v = spm s in cls v = cls_vec /\ mem_of v = s)
%% predicate sp_base (s: int) = let d = @LocalLengthGroupSpace.dataset[s] in
  s > 0 /\ @alive[s] /\ spn s >= 0 /\ sp_tab s /\ ds_ok d /\ 2 <= @LocalLengthGroupSpace.length[s] <= @TimeSeriesSet.itemLength[d]
  /\ @LocalLengthGroupSpace.subTimeSeriesCount[s] = @TimeSeriesSet.itemLength[d] - @LocalLengthGroupSpace.length[s] + 1
  /\ @alive[@LocalLengthGroupSpace.groups[s]] /\ @alive[spm s] /\ @n_group_membership_t[spm s] = @TimeSeriesSet.itemCount[d] * @LocalLengthGroupSpace.subTimeSeriesCount[s]
# group i of the space is the one recorded, its centroid a valid series of its own
%% predicate grp_fld (s i: int) = let g = spg s i in let c = spc s i in let k = @gh_cnt[spm s][i] in
  g > 0 /\ @alive[g] /\ cls g = cls_Group /\ @Group.dataset[g] = @LocalLengthGroupSpace.dataset[s] /\ @Group.memberMap[g] = spm s /\ @Group.groupIndex[g] = i
  /\ @Group.memberLength[g] = @LocalLengthGroupSpace.length[s] /\ @Group.subTimeSeriesCount[g] = @LocalLengthGroupSpace.subTimeSeriesCount[s]
  /\ @Group.count[g] = k /\ @Group.lastMemberCoord[g] = (if k = 0 then noone else @gh_seq[spm s][i][k - 1])
  /\ g_home g
%% predicate cen_ok (s i: int) = let c = spc s i in ts_use c /\ @TimeSeries.isOwnerOfData[c] = false /\ (@TimeSeries.data[c]).pb = (@TimeSeriesSet.data[@LocalLengthGroupSpace.dataset[s]]).pb /\ @TimeSeries.length[c] = @LocalLengthGroupSpace.length[s] /\ vfin (tv c)
%% predicate sp_fld (s n: int) = forall i: int [spg s i]. 0 <= i < n -> grp_fld s i
%% predicate sp_cen (s n: int) = forall i: int [spg s i]. 0 <= i < n -> cen_ok s i
%% predicate sp_groups (s n: int) = sp_fld s n /\ sp_cen s n
%% function spv (s: int) (p: coord) : view = sview (dsm @LocalLengthGroupSpace.dataset[s]) @TimeSeriesSet.itemLength[@LocalLengthGroupSpace.dataset[s]] @LocalLengthGroupSpace.length[s] p
# the centroid of every group is its first member
%% predicate sp_rep (s n: int) = forall i: int [spc s i]. 0 <= i < n -> tv (spc s i) = spv s @gh_seq[spm s][i][0]
%% predicate sp_part (s n: int) = part @v_group_membership_t[spm s] @gh_seq[spm s] @gh_rank[spm s] @gh_cnt[spm s] n @TimeSeriesSet.itemCount[@LocalLengthGroupSpace.dataset[s]] @LocalLengthGroupSpace.subTimeSeriesCount[s]
%% predicate sp_scanned (s: int) (q: coord) = scanned @v_group_membership_t[spm s] @TimeSeriesSet.itemCount[@LocalLengthGroupSpace.dataset[s]] @LocalLengthGroupSpace.subTimeSeriesCount[s] q
%% predicate sp_near (s code: int) (ratio half: dbl) (n: int) = near code (dsm @LocalLengthGroupSpace.dataset[s]) @TimeSeriesSet.itemLength[@LocalLengthGroupSpace.dataset[s]] @LocalLengthGroupSpace.length[s] ratio half @gh_seq[spm s] @gh_cnt[spm s] n
%% predicate sp_full (s n: int) = forall i: int [@gh_cnt[spm s][i]]. 0 <= i < n -> 1 <= @gh_cnt[spm s][i]
# b is the least distance of q to the first i representatives (up to one rounding of the cutoff)
%% opaque best_of (code: int) (m: map int dbl) (rl l: int) (ratio: dbl) (sq: seqs) (i: int) (q: coord) (b: dbl) =
   forall j: int [sq[j]]. 0 <= j < i -> notcloser code b (sd code m rl l ratio sq[j][0] q) l
%% lemma best_none (code: int) (m: map int dbl) (rl l: int) (ratio: dbl) (sq: seqs) (q: coord) (b: dbl) : unit
  ensures { best_of code m rl l ratio sq 0 q b }
= best_of_def code m rl l ratio sq 0 q b
%% lemma best_less (code: int) (m: map int dbl) (rl l: int) (ratio: dbl) (sq: seqs) (i: int) (q: coord) (b c: dbl) : unit
  requires { best_of code m rl l ratio sq i q c /\ 0.0 <=. dv b <=. dv c /\ 0 < l <= 2147483647 }
  ensures { best_of code m rl l ratio sq i q b }
= cutr_mono code b c l; best_of_def code m rl l ratio sq i q c; best_of_def code m rl l ratio sq i q b
%% lemma best_step (code: int) (m: map int dbl) (rl l: int) (ratio: dbl) (sq: seqs) (i: int) (q: coord) (b c: dbl) : unit
  requires { best_of code m rl l ratio sq i q c /\ 0.0 <=. dv b <=. dv c /\ 0 < l <= 2147483647 /\ i >= 0 }
  ensures { forall x: dbl [dv x]. dist_cut code x (sview m rl l sq[i][0]) (sview m rl l q) c ratio -> dv b <=. dv x -> best_of code m rl l ratio sq (i+1) q b }
= best_less code m rl l ratio sq i q b c; cutr_mono code b c l; best_of_def code m rl l ratio sq i q b; best_of_def code m rl l ratio sq (i+1) q b;
  assert { forall x: dbl [dv x]. dist_cut code x (sview m rl l sq[i][0]) (sview m rl l q) c ratio -> dv b <=. dv x -> notcloser code b (sd code m rl l ratio sq[i][0] q) l }
%% lemma best_all (code: int) (m: map int dbl) (rl l: int) (ratio: dbl) (sq: seqs) (i: int) (q: coord) (b: dbl) : unit
  requires { best_of code m rl l ratio sq i q b }
  ensures { forall j: int [sq[j]]. 0 <= j < i -> notcloser code b (sd code m rl l ratio sq[j][0] q) l }
= best_of_def code m rl l ratio sq i q b

# the chosen group bi: one of the g groups, or a new one opened for q
%% lemma member_open (mv: map int r_group_membership_t) (sq: seqs) (rk cn: map int int) (g n w bi: int) : unit
  requires { part mv sq rk cn g n w /\ 0 <= bi <= g }
  ensures { part mv sq rk (if bi = g then cn[g <- 0] else cn) (if bi = g then g + 1 else g) n w }
= if bi = g then part_open mv sq rk cn g n w
%% lemma best_chosen (code: int) (m: map int dbl) (rl l: int) (ratio half: dbl) (sq: seqs) (g bi: int) (q: coord) (b: dbl) : unit
  requires { best_of code m rl l ratio sq g q b /\ 0 <= bi <= g /\ (bi = g -> 0.0 <=. dv half <=. dv b) /\ 0 < l <= 2147483647 }
  ensures { forall j: int [sq[j]]. 0 <= j < g -> notcloser code (if bi = g then half else b) (sd code m rl l ratio sq[j][0] q) l }
= if bi = g then begin best_less code m rl l ratio sq g q half b; best_all code m rl l ratio sq g q half end else best_all code m rl l ratio sq g q b
%% lemma near_step (code: int) (m: map int dbl) (rl l: int) (ratio half: dbl) (sq: seqs) (cn: map int int) (sq2: seqs) (cn2: map int int) (g bi: int) (q: coord) (b: dbl) : unit
  requires { near code m rl l ratio half sq cn g /\ placed sq cn g q /\ 0 <= bi <= g /\ (forall j: int [cn[j]]. 0 <= j < g -> 1 <= cn[j]) }
  requires { bi < g -> dv b <=. dv half /\ b = sd code m rl l ratio sq[bi][0] q }
  requires { forall j: int [sq[j]]. 0 <= j < g -> notcloser code (if bi = g then half else b) (sd code m rl l ratio sq[j][0] q) l }
  requires { sq2 = sq[bi <- sq[bi][(if bi = g then 0 else cn[bi]) <- q]] /\ cn2[bi] = (if bi = g then 1 else cn[bi] + 1) /\ forall j: int [cn2[j]]. 0 <= j < g -> j <> bi -> cn2[j] = cn[j] }
  ensures { near code m rl l ratio half sq2 cn2 (if bi = g then g + 1 else g) /\ forall j: int [cn2[j]]. 0 <= j < (if bi = g then g + 1 else g) -> 1 <= cn2[j] }
= if bi = g then near_open code m rl l ratio half sq cn sq2 cn2 g q else near_join code m rl l ratio half sq cn sq2 cn2 g bi q
# group i, its centroid and the envelopes of it did not exist in the state of a0, k0
%% predicate grp_new (s i: int) (a0: map int bool) (k0: map int int) = not a0[spg s i] /\ not a0[spc s i] /\ env_new (spc s i) k0
%% predicate sp_new (s n: int) (a0: map int bool) (k0: map int int) = forall i: int [spg s i]. 0 <= i < n -> grp_new s i a0 k0
%% lemma sview_fin (m: map int dbl) (rl l n x s: int) : unit
  requires { (forall k: int [m[k]]. 0 <= k < n * rl -> fin m[k]) /\ 0 <= x < n /\ 0 <= s /\ 0 <= l /\ s + l <= rl }
  ensures { vfin (sview m rl l (x, s)) }
= row_in x s n rl
fn LocalLengthGroupSpace::LocalLengthGroupSpace (dataset, length)
  requires [the object is live] { this > 0 /\ @alive[this] /\ cls this = cls_LocalLengthGroupSpace }
  requires [the dataset is valid] { ds_ok p_dataset }
  requires C05,C19 [a length of the dataset] { 2 <= p_length <= @TimeSeriesSet.itemLength[p_dataset] }
  ensures C05,C13 [no groups yet] { sp_base this /\ spn this = 0 /\ @LocalLengthGroupSpace.dataset[this] = p_dataset /\ @LocalLengthGroupSpace.length[this] = p_length }
  ensures C05,C13 [no subsequence is assigned] { forall p: int [@v_group_membership_t[spm this][p]]. 0 <= p < @n_group_membership_t[spm this] -> @v_group_membership_t[spm this][p].r_group_membership_t_groupIndex = -1 }
  ensures C19 [tables of its own] { not (old @alive)[@LocalLengthGroupSpace.groups[this]] /\ not (old @alive)[spm this] /\ @LocalLengthGroupSpace.groups[this] <> spm this }
  noraise
  entry { mul_pos (pure { @TimeSeriesSet.itemCount[p_dataset] }) (pure { @TimeSeriesSet.itemLength[p_dataset] - p_length + 1 }) }
fn LocalLengthGroupSpace::generateGroups (pairwiseDistance, threshold)
  opt vc sp
  requires [the space is valid and empty] { sp_base this /\ spn this = 0 /\ @LocalLengthGroupSpace.groups[this] <> spm this }
  requires [no subsequence is assigned] { forall p: int [@v_group_membership_t[spm this][p]]. 0 <= p < @n_group_membership_t[spm this] -> @v_group_membership_t[spm this][p].r_group_membership_t_groupIndex = -1 }
  requires [the values are finite] { ds_fin @LocalLengthGroupSpace.dataset[this] }
  requires [a distance function] { is_dist p_pairwiseDistance }
  requires [ratio in range] { ratio_ok }
  requires [the threshold is not negative] { 0.0 <=. dv p_threshold }
  ensures C05 [the groups are counted] { result = spn this }
  ensures C05,C07,C19 [valid groups of this length] { sp_base this /\ sp_groups this (spn this) }
  ensures C05 [every subsequence is in exactly one group] { sp_part this (spn this) /\ sp_scanned this (0, @LocalLengthGroupSpace.subTimeSeriesCount[this]) }
  ensures C05 [no group is empty] { sp_full this (spn this) }
  ensures C06,C07 [the representative is the first member] { sp_rep this (spn this) }
  ensures C06 [similar to the nearest representative] { sp_near this p_pairwiseDistance @gv_warpingBandRatio (fdiv p_threshold (of_int 2)) (spn this) }
  ensures C04,C19 [other series stay as they are] { forall t: int [@TimeSeries.length[t]]. old @alive[t] -> old (ts_use t) -> ts_use t /\ tv t = old (tv t) /\ @TimeSeries.data[t] = old @TimeSeries.data[t] /\ @TimeSeries.isOwnerOfData[t] = old @TimeSeries.isOwnerOfData[t] }
  noraise
  modifies vec: @LocalLengthGroupSpace.groups[this], @LocalLengthGroupSpace.memberMap[this]
  modifies ghost: @LocalLengthGroupSpace.memberMap[this]
  entry { let ghost d = pure { @LocalLengthGroupSpace.dataset[this] } in let ghost mm = pure { spm this } in let ghost m0 = pure { dsm d } in
    let ghost rl = pure { @TimeSeriesSet.itemLength[d] } in let ghost cnt = pure { @TimeSeriesSet.itemCount[d] } in let ghost len = pure { @LocalLengthGroupSpace.length[this] } in
    let ghost w = pure { @LocalLengthGroupSpace.subTimeSeriesCount[this] } in let ghost ratio = pure { @gv_warpingBandRatio } in let ghost half = pure { fdiv p_threshold (of_int 2) } in
    let ghost gv = pure { @LocalLengthGroupSpace.groups[this] } in
    scanned_none (pure { @v_group_membership_t[mm] }) cnt w; part_none (pure { @v_group_membership_t[mm] }) (pure { @gh_seq[mm] }) (pure { @gh_rank[mm] }) (pure { @gh_cnt[mm] }) cnt w;
    near_none p_pairwiseDistance m0 rl len ratio half (pure { @gh_seq[mm] }) (pure { @gh_cnt[mm] }) }
  loop 1
  invariant [range] { 0 <= $start <= w /\ spn this >= 0 }
  invariant C19 [the dataset is untouched] { sp_base this /\ dsm d = m0 }
  invariant C05,C19 [valid groups] { sp_fld this (spn this) }
  invariant C05,C19 [valid centroids] { sp_cen this (spn this) }
  invariant C19 [the groups are new] { sp_new this (spn this) l1_alive l1_dkind }
  invariant C05 [one group for each subsequence so far] { sp_part this (spn this) }
  invariant C05 [exactly those scanned are assigned] { sp_scanned this (0, $start) }
  invariant C05 [no group is empty] { sp_full this (spn this) }
  invariant C06 [representatives are first members] { sp_rep this (spn this) }
  invariant C06 [similar to the nearest representative] { sp_near this p_pairwiseDistance ratio half (spn this) }
  variant { w - $start }
  end { scanned_row (pure { @v_group_membership_t[mm] }) cnt w $start }
  loop 2
  invariant [range] { 0 <= $idx <= cnt /\ spn this >= 0 }
  invariant C19 [the dataset is untouched] { sp_base this /\ dsm d = m0 }
  invariant C05,C19 [valid groups] { sp_fld this (spn this) }
  invariant C05,C19 [valid centroids] { sp_cen this (spn this) }
  invariant C19 [the groups are new] { sp_new this (spn this) l1_alive l1_dkind }
  invariant C05 [one group for each subsequence so far] { sp_part this (spn this) }
  invariant C05 [exactly those scanned are assigned] { sp_scanned this ($idx, $start) }
  invariant C05 [no group is empty] { sp_full this (spn this) }
  invariant C06 [representatives are first members] { sp_rep this (spn this) }
  invariant C06 [similar to the nearest representative] { sp_near this p_pairwiseDistance ratio half (spn this) }
  variant { cnt - $idx }
  modifies Group: { not l1_alive[o_] }
  modifies TimeSeries: { not l1_alive[o_] }
  modifies own: { l1_dkind[o_] = 0 }
  modifies mem: { l1_dkind[o_] = 0 }
  modifies ghost: { not l1_alive[o_] }
  begin { row_in $idx 0 cnt rl; sview_fin m0 rl len cnt $idx $start; let ghost n0 = pure { spn this } in }
  loop 3
  invariant [range] { 0 <= $i <= n0 }
  invariant C19 [the dataset is untouched] { sp_base this /\ dsm d = m0 }
  invariant C05,C19 [valid groups] { sp_fld this n0 }
  invariant C05,C19 [valid centroids] { sp_cen this n0 }
  invariant C05,C19 [valid subsequence] { ts_use $query }
  invariant C06 [the subsequence at this position] { tv $query = spv this ($idx, $start) }
  invariant [new envelope arrays] { env_new $query l1_dkind }
  invariant [a new series] { not l1_alive[$query] }
  invariant C19 [the groups are new] { sp_new this n0 l1_alive l1_dkind }
  invariant C06 [representatives are first members] { sp_rep this n0 }
  invariant C06 [the least distance so far] { best_of p_pairwiseDistance m0 rl len ratio @gh_seq[mm] $i ($idx, $start) $bestSoFar }
  invariant C06 [the least distance is that of the chosen group] { if $bestSoFarIndex < 0 then $bestSoFar = inf else $bestSoFarIndex < $i /\ dv $bestSoFar <. dv inf
      /\ $bestSoFar = sd p_pairwiseDistance m0 rl len ratio @gh_seq[mm][$bestSoFarIndex][0] ($idx, $start) }
  invariant [not negative] { dv $bestSoFar >=. 0.0 }
  variant { n0 - $i }
  modifies TimeSeries: { not l1_alive[o_] }
  modifies own: { l1_dkind[o_] = 0 }
  modifies mem: { l1_dkind[o_] = 0 }
  before { best_none p_pairwiseDistance m0 rl len ratio (pure { @gh_seq[mm] }) ($idx, $start) $bestSoFar }
  begin { let ghost b0 = $bestSoFar in }
  end { best_step p_pairwiseDistance m0 rl len ratio (pure { @gh_seq[mm] }) $i ($idx, $start) $bestSoFar b0 }
  after-call getTimeSeries { assert { sp_cen this n0 }; assert { sp_rep this n0 } }
  before-call distanceFromCentroid { let ghost c = pure { spc this $i } in
     assert { c <> $query /\ forall j: int [spc this j]. 0 <= j < n0 -> spc this j <> $query };
     assert { forall j: int [spc this j]. 0 <= j < n0 -> j <> $i -> spc this j <> c };
     assert { env_new c l1_dkind /\ not l1_alive[c] };
     assert { let b = (@TimeSeriesSet.data[d]).pb in not kb_of c b /\ not kb_of $query b /\ @dkind[b] <> 0 };
     let ghost k0 = pure { @dkind } in let ghost kl0 = pure { @TimeSeries.keoghLower } in let ghost ku0 = pure { @TimeSeries.keoghUpper } in
     assert { forall o: int [l1_dkind[o]]. k0[o] = 0 -> l1_dkind[o] = 0 };
     assert { forall o: int [l1_dkind[o]]. kb_of c o \/ kb_of $query o -> l1_dkind[o] = 0 };
     assert { tv c = spv this @gh_seq[mm][$i][0] /\ vfin (tv c) } }
  after-call distanceFromCentroid { assert { dsm d = m0 }; 
     assert { @TimeSeries.keoghLower[$query] = null_ptr \/ l1_dkind[(@TimeSeries.keoghLower[$query]).pb] = 0 };
     assert { @TimeSeries.keoghUpper[$query] = null_ptr \/ l1_dkind[(@TimeSeries.keoghUpper[$query]).pb] = 0 };
     assert { env_new $query l1_dkind }; assert { env_new c l1_dkind };
     assert { tv c = spv this @gh_seq[mm][$i][0] };
     assert { forall j: int [spc this j]. 0 <= j < n0 -> j <> $i -> @TimeSeries.keoghLower[spc this j] = kl0[spc this j] };
     assert { forall j: int [spc this j]. 0 <= j < n0 -> j <> $i -> @TimeSeries.keoghUpper[spc this j] = ku0[spc this j] };
     assert { sp_cen this n0 }; assert { sp_rep this n0 }; assert { sp_new this n0 l1_alive l1_dkind } }
  after-call Group { assert { dsm d = m0 }; assert { spn this = n0 } }
  before-call setCentroid { assert { @TimeSeries.data[spc this n0] = null_ptr \/ l1_dkind[(@TimeSeries.data[spc this n0]).pb] = 0 };
    assert { sp_fld this n0 }; assert { sp_cen this n0 }; assert { sp_rep this n0 }; assert { sp_new this (n0 + 1) l1_alive l1_dkind };
    assert { forall j: int [spc this j]. 0 <= j < n0 -> spc this j <> spc this n0 } }
  after-call setCentroid { assert { dsm d = m0 }; assert { sp_fld this n0 }; assert { tv (spc this n0) = spv this ($idx, $start) }; assert { cen_ok this n0 }; assert { sp_cen this n0 }; assert { sp_rep this n0 }; 
    assert { grp_new this n0 l1_alive l1_dkind }; assert { sp_new this n0 l1_alive l1_dkind } }
  before-call addMember { let ghost bi = $bestSoFarIndex in let ghost q = pure { ($idx, $start) } in let ghost bs = $bestSoFar in let ghost n1 = pure { spn this } in
    assert { 0 <= bi <= n0 /\ n1 = (if bi = n0 then n0 + 1 else n0) };
    assert { sp_fld this n0 }; assert { sp_cen this n1 }; assert { sp_new this n1 l1_alive l1_dkind }; assert { dsm d = m0 };
    let ghost mv0 = pure { @v_group_membership_t[mm] } in let ghost sq0 = pure { @gh_seq[mm] } in let ghost rk0 = pure { @gh_rank[mm] } in let ghost cn0 = pure { @gh_cnt[mm] } in
    placed_from mv0 sq0 rk0 cn0 n0 cnt w q; mpos_at w $idx $start; mpos_in w $idx $start cnt;
    member_open mv0 sq0 rk0 cn0 n0 cnt w bi; set_gh_cnt mm (pure { if bi = n0 then cn0[n0 <- 0] else cn0 });
    best_chosen p_pairwiseDistance m0 rl len ratio half sq0 n0 bi q bs;
    let ghost cn1 = pure { @gh_cnt[mm] } in assert { sp_fld this n1 }; assert { forall j: int [spg this j]. 0 <= j < n1 -> j <> bi -> spg this j <> spg this bi } }
  after-call addMember { let ghost e = pure { @v_group_membership_t[mm][mpos w $idx $start] } in
    scanned_step mv0 cnt w $idx $start e; part_add mv0 sq0 rk0 cn1 n1 cnt w bi $idx $start e;
    near_step p_pairwiseDistance m0 rl len ratio half sq0 cn0 (pure { @gh_seq[mm] }) (pure { @gh_cnt[mm] }) n0 bi q bs;
    assert { grp_fld this bi }; assert { sp_fld this n1 }; assert { sp_rep this n1 }; assert { sp_cen this n1 };
    assert { forall j: int [spc this j]. 0 <= j < n1 -> spc this j <> $query }; assert { @TimeSeries.isOwnerOfData[$query] = false /\ ts_use $query };
    assert { forall j: int [spc this j]. 0 <= j < n1 -> (kblock (spc this j) @TimeSeries.keoghLower[spc this j] /\ kblock (spc this j) @TimeSeries.keoghUpper[spc this j]) };
    assert { forall j b: int [spc this j, @bown[b]]. 0 <= j < n1 -> kb_of (spc this j) b -> not kb_of $query b };
    assert { let b = (@TimeSeriesSet.data[d]).pb in not kb_of $query b /\ @dkind[b] <> 0 } }
