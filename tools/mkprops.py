import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="src/distance/Distance.cpp"
p("C01","Warped distance is exactly band-limited dynamic time warping",
 "For any two non-empty series of finite values and any warping-band setting in [0,1], the warped distance computed with an infinite cutoff equals the cheapest accumulated squared point difference over all warping paths that start at the first points, end at the last points, advance by single steps and stay inside the band (band = floor(ratio x longer length), capped at longer length - 1), square-rooted and divided by twice the longer length. It is infinite exactly when no such path fits into the band (or every such path overflows).",
 ["inputs","configurations"],"all pairs of non-empty series (any lengths, finite values), all band ratios in [0,1]",
 "The tests compare about ten hand-computed distances of series of length at most 10, nearly all with the band wide open; band edges, unequal lengths against a narrow band and unreachable end cells are not sampled.",
 [D],[("warpedDistance cost matrix with Sakoe-Chiba band",D),("calculateWarpingBandSize",D),("_euc / _euc_norm_dtw",D)],
 [("warpingBandRatio","global band ratio used by every warped distance",D)],["warpedDistance","TimeSeriesSet::distanceBetween"])
p("C02","A cutoff never changes a distance that is below it",
 "For any cutoff, the Euclidean, the warped and the pruned (search) distance return either exactly the value they return with an infinite cutoff, or infinity; and infinity replaces a finite value only when that value is not below the cutoff (the cutoff being taken up to the one rounding of its own normalisation).",
 ["inputs","configurations"],"all pairs of non-empty series of finite values, all cutoffs >= 0, all band ratios in [0,1]",
 "One test passes a cutoff that is never reached and checks one value; early abandoning in a row of the matrix or inside a prefix sum depends on the interplay of data, lengths, band and cutoff.",
 [D],[("early abandoning in warpedDistance / pairwiseDistance",D),("_euc_inorm / _euc_inorm_dtw",D),("cascadeDistance, crossKeoghLowerBound",D)],None,["pairwiseDistance","warpedDistance","cascadeDistance"])
p("C03","Lower bounds never exceed the distance they bound",
 "For any two non-empty series of finite values, any band ratio in [0,1] and any cutoff, the envelope-based lower bound in either direction is at most the warped distance of the two series, and the two-sided bound is at most it or is infinite while the warped distance is above the cutoff. Pruning by these bounds therefore never discards a candidate whose warped distance is at or below the cutoff.",
 ["inputs","configurations"],"all pairs of non-empty finite series of any lengths, all band ratios in [0,1], all cutoffs >= 0",
 "One test compares one bound with one hand-computed number; that a bound is below the true distance for all data, lengths and bands is never checked.",
 [D,"src/TimeSeries.cpp","src/lib/trillionDTW.cpp"],[("keoghLowerBound",D),("crossKeoghLowerBound",D),("envelope generation","src/lib/trillionDTW.cpp")],None,["keoghLowerBound","crossKeoghLowerBound","cascadeDistance"])
p("C04","Envelopes are the exact sliding minimum and maximum of the current values",
 "For every series and every band width, the lower and upper envelope at each position equal the minimum and maximum of the series' current values within the band around that position. This stays true when the band changes between calls and after the series is copied, assigned, moved or added to: an envelope is never a leftover of other values or of another band (values written in place through an element reference, or by another series sharing the array, are outside this property).",
 ["inputs","histories"],"all finite series of length >= 1, all band widths >= 0, all sequences of envelope queries, copies, assignments and additions on series objects",
 "Tests check two fixed series at six band widths, on objects that are never reassigned or changed after the first envelope query.",
 ["src/lib/trillionDTW.cpp","src/lib/deque.cpp","src/TimeSeries.cpp","src/TimeSeries.hpp"],[("lower_upper_lemire monotonic queues","src/lib/trillionDTW.cpp"),("circular deque","src/lib/deque.cpp"),("envelope cache and its invalidation","src/TimeSeries.cpp")],
 [("keoghLower/keoghUpper/keoghCacheValid/cachedWarpingBand","cached envelope of a series","src/TimeSeries.hpp")],["TimeSeries::getKeoghLower","TimeSeries::getKeoghUpper","lower_upper_lemire"])
p("C05","Grouping partitions all subsequences",
 "After a dataset is grouped, for every length from 2 to its item length every subsequence of that length of every series is a member of exactly one group, every group's size is the number of its members, no group is empty or has a member of another length, and the reported number of groups is the total over all lengths. Grouping finishes without error for every loaded dataset of finite values and every non-negative threshold.",
 ["inputs","configurations"],"all datasets of finite values with at least one series, all thresholds >= 0",
 "Tests check only that the number of groups is larger than some constant on three small files; membership is never inspected, and single-series or very short datasets are never grouped.",
 ["src/LocalLengthGroupSpace.cpp","src/Group.cpp","src/GlobalGroupSpace.cpp"],[("generateGroups","src/LocalLengthGroupSpace.cpp"),("addMember backward chain","src/Group.cpp"),("group over all lengths","src/GlobalGroupSpace.cpp")],
 [("memberMap","group and predecessor of each subsequence","src/LocalLengthGroupSpace.hpp"),("lastMemberCoord/count","head of the member chain and its length","src/Group.hpp")],["Group::getMembers","Group::getCount","groupAllLengths"])
p("C06","Group members are within half the threshold of their representative",
 "After grouping with similarity threshold ST, every member of a group has a normalised Euclidean distance of at most ST/2 to the group's representative; the representative is itself a member of the group, and the subsequence that opened a group had no representative of that length within ST/2 at that time (up to one rounding of the cutoff). A member joins the nearest representative that existed when it was placed.",
 ["inputs","configurations"],"all datasets of finite values, all thresholds >= 0",
 "No test looks at a distance between a member and its representative.",
 ["src/LocalLengthGroupSpace.cpp","src/Group.cpp",D],[("nearest representative and threshold/2 test","src/LocalLengthGroupSpace.cpp"),("setCentroid","src/Group.cpp"),("pairwiseDistance",D)],None,["LocalLengthGroupSpace::generateGroups","Group::getCentroid"])
p("C07","A match is real, correctly measured and the best of the nearest group",
 "The match returned for a query is an existing subsequence of the searched dataset, the reported distance is the warped distance between the query and that subsequence, and no other member of the group it was taken from is closer (up to one rounding of the cutoff). The group it is taken from has, among all groups of all band-compatible lengths, a representative at the least warped distance from the query (up to the same rounding).",
 ["inputs","configurations"],"all grouped datasets of finite values, all queries of length >= 2 (lengths up to 2^26), all band ratios in [0,1]",
 "Tests query the dataset with its own subsequences and check for distance zero; the identity of the match, the order of candidates and the effect of pruning while the best distance shrinks are not checked.",
 ["src/GlobalGroupSpace.cpp","src/LocalLengthGroupSpace.cpp","src/Group.cpp"],[("getBestMatch over lengths","src/GlobalGroupSpace.cpp"),("getBestGroup","src/LocalLengthGroupSpace.cpp"),("Group::getBestMatch along the member chain","src/Group.cpp")],None,["OnexAPI::getBestMatch","GroupableTimeSeriesSet::getBestMatch"])
p("C08","A query is compared with exactly the band-compatible lengths",
 "A query is compared with the groups of exactly those lengths between 2 and the dataset's item length for which the warping band permits an alignment with the query, each of them once, whatever the lengths of query and dataset (up to 2^26) and the band ratio in [0,1]. A query with no compatible length (for example one longer than the dataset's series) is answered with an error, never with an invalid access.",
 ["inputs","configurations"],"all query lengths >= 2, all dataset item lengths, all band ratios in [0,1]",
 "One test checks the order for one pair of lengths and one ratio; queries longer than the dataset are never tried.",
 ["src/GlobalGroupSpace.cpp",D],[("generateTraverseOrder",  "src/GlobalGroupSpace.cpp"),("calculateWarpingBandSize",D)],None,["generateTraverseOrder","GlobalGroupSpace::getBestMatch"])
p("C09","Normalisation maps the dataset onto [0,1] by its true minimum and maximum",
 "Normalising a non-empty dataset returns the smallest and largest value of the whole dataset and replaces every value v by (v - min)/(max - min), so that all values lie in [0,1]; a constant dataset becomes all zeros; dimensions do not change. An empty dataset is refused.",
 ["inputs"],"all datasets of finite values whose value range does not overflow, all numbers of series and all item lengths (odd or even)",
 "Two files are normalised, with 5x10 and 3x11 values; the minimum or maximum at the end of a row of odd length in a dataset with an even number of rows is not covered.",
 ["src/TimeSeriesSet.cpp"],[("pairwise min/max scan and rescaling","src/TimeSeriesSet.cpp")],[("data/itemCount/itemLength/normalized","row-major values of the dataset","src/TimeSeriesSet.hpp")],["TimeSeriesSet::normalize","OnexAPI::normalizeDataset"])
p("C10","Piecewise aggregation replaces each block by its mean",
 "Aggregating with block size n > 0 keeps the number of series, makes each series ceil(L/n) long, and makes value k of each series the mean of the original values k*n .. min((k+1)*n, L)-1 of that same series. A non-positive block size is refused and leaves the dataset unchanged (for a loaded dataset; aggregating an object that holds no data is outside).",
 ["inputs"],"all datasets of finite values, all block sizes",
 "One file is aggregated with block sizes 1, 3 and 5; divisibility, blocks longer than the series and row boundaries in general are not covered.",
 ["src/TimeSeriesSet.cpp"],[("doPAA / tsPAA / calcPAALength","src/TimeSeriesSet.cpp")],None,["TimeSeriesSet::PAA","OnexAPI::PAA"])
p("C11","Loading reads exactly the selected rows and columns or fails cleanly",
 "Loading a text table yields min(requested, present) rows (all rows if the request is not positive) and all columns from the requested start column on, and value (r,c) is the number in row r and column start+c of the file. Rows of different lengths, a cell that cannot be parsed as a number of the value type, an unreadable file, a file with no row, a start column outside the table or a table of more than 2^31-1 cells are reported as errors, after which the dataset is empty; no load touches memory outside the dataset.",
 ["inputs","configurations"],"all files, all separators, all row limits and start columns including negative and too large ones",
 "Tests load six small files with row limits and one start column inside the table; row/column index arithmetic for all shapes, negative or too large start columns and empty files are not covered.",
 ["src/TimeSeriesSet.cpp"],[("loadData","src/TimeSeriesSet.cpp"),("clearData","src/TimeSeriesSet.cpp")],None,["TimeSeriesSet::loadData","OnexAPI::loadDataset"])
p("C12","Saving a dataset and loading it back reproduces it exactly",
 "A saved dataset file contains one line per series with that series' values in order, each followed by the chosen separator, written with enough digits to be read back as the same number. Loading the file with that separator therefore gives a dataset of the same dimensions and the same values.",
 ["inputs"],"all datasets of zero or normal (not subnormal) values, all separator characters that cannot be part of a number",
 "No test saves a dataset.",
 ["src/TimeSeriesSet.cpp"],[("saveData","src/TimeSeriesSet.cpp")],None,["TimeSeriesSet::saveData","OnexAPI::saveDataset"])
p("C13","Group files reproduce the grouping or are refused",
 "Saving the groups of a dataset and loading them into a dataset of the same dimensions gives, for every length, the same groups in the same order with the same members and bit-identical representatives, and reports the same number of groups. A file of another version, for other dimensions, with only group sizes, truncated or with inconsistent counts, positions or lengths is refused with an error, memory outside the group structures is never touched, and the dataset is not left with a partial grouping.",
 ["inputs","histories","fault_sequences"],"all grouped datasets (finite threshold), all group files including truncated and inconsistent ones",
 "No test saves or loads groups.",
 ["src/Group.cpp","src/LocalLengthGroupSpace.cpp","src/GlobalGroupSpace.cpp","src/GroupableTimeSeriesSet.cpp","src/README.md"],[("saveGroup(s)/loadGroup(s) at four levels","src/Group.cpp"),("compatibility checks","src/GroupableTimeSeriesSet.cpp")],None,["OnexAPI::saveGroup","OnexAPI::loadGroup"])
p("C14","Dataset ids are stable, smallest-free and checked",
 "In every history of loads and unloads, a new dataset gets the smallest id not in use, an id keeps denoting the same dataset until that dataset is unloaded, the dataset count and the listing report exactly the datasets in memory, and a failed load changes nothing. Every operation on an id that is not in use is refused with an error and changes nothing.",
 ["histories","inputs"],"all sequences of load (successful or failing), unload, unload-all and id-taking operations with any ids",
 "Three short histories are tested, with gaps only at the first and last id.",
 ["src/OnexAPI.cpp"],[("slot reuse in loadDataset","src/OnexAPI.cpp"),("unloadDataset / unloadAllDataset","src/OnexAPI.cpp"),("_checkDatasetIndex","src/OnexAPI.cpp")],[("loadedDatasets/datasetCount","slots and number of datasets in memory","src/OnexAPI.hpp")],["OnexAPI::loadDataset","OnexAPI::getAllDatasetInfo","OnexAPI::getDatasetCount"])
p("C15","Series access is exact and bounds-checked; copies keep their own values",
 "A subsequence request (series, start, end) yields exactly the values start..end-1 of that series and records its coordinates, and is refused unless 0 <= start < end <= item length and the series exists (both positions negative meaning the whole series); reading or writing a series outside its length is refused. Copying or assigning a series that owns its values gives an independent equal copy (also for self-assignment), one that refers to a dataset keeps referring to the same values, and adding another series adds point by point or is refused when lengths differ.",
 ["inputs","histories"],"all datasets, all index/start/end triples, all positions, all series objects and sequences of copies and assignments",
 "Tests try six invalid triples, one out-of-range position and one addition; assignment over an owning series, self-assignment and moved-from series are not exercised.",
 ["src/TimeSeriesSet.cpp","src/TimeSeries.cpp","src/TimeSeries.hpp"],[("getTimeSeries","src/TimeSeriesSet.cpp"),("operator[], operator+=, copy/move assignment, copy constructor","src/TimeSeries.cpp")],[("data/isOwnerOfData/start/end/length","view or owner of an array of values","src/TimeSeries.hpp")],["TimeSeriesSet::getTimeSeries","TimeSeries::operator[]"])
p("C16","Groups always belong to the data they are used with",
 "A dataset counts as grouped, and answers queries, only while its groups were built from or loaded for its current values: loading new data, normalising or aggregating a grouped dataset, or a grouping or group loading that fails, leaves it not grouped (or with its previous, still valid groups), so that queries are refused with an error instead of being answered from outdated or freed values. Regrouping replaces the previous groups.",
 ["histories"],"all sequences of load, normalise, aggregate, group, save/load groups, match and unload on one dataset",
 "Tests only run load-then-group-then-match; no test changes a dataset after grouping it.",
 ["src/GroupableTimeSeriesSet.cpp","src/GroupableTimeSeriesSet.hpp","src/OnexAPI.cpp","src/TimeSeriesSet.cpp"],[("reset / groupAllLengths / loadGroups","src/GroupableTimeSeriesSet.cpp"),("PAA, normalize, loadData on a grouped set","src/TimeSeriesSet.cpp")],[("groupsAllLengthSet","the current grouping or none","src/GroupableTimeSeriesSet.hpp")],["GroupableTimeSeriesSet::isGrouped","OnexAPI::getBestMatch"])
p("C17","Every command line is answered; malformed ones change nothing",
 "For every command and every list of arguments, the command interpreter either carries the command out or reports an error, and it keeps running unless asked to quit: missing, surplus, non-numeric or out-of-range arguments never read an argument that was not given and never end the session abnormally. A command refused for its number of arguments has no effect on the datasets.",
 ["inputs","histories"],"all command names, all argument lists of any length and content",
 "No test runs the command-line interface.",
 ["cli/OnexCLI.cpp","cli/Command.hpp"],[("tooFewArgs/tooManyArgs guards in each command","cli/OnexCLI.cpp"),("catch clauses of the main loop","cli/OnexCLI.cpp")],None,["onex executable (stdin/stdout)"])
p("C18","Distances are non-negative, symmetric and zero for identical series",
 "For any two non-empty series of finite values and any band ratio in [0,1], the Euclidean and the warped distance with an infinite cutoff are non-negative, do not depend on the order of the two series, and are zero when the two series have the same values. The Euclidean distance of two series of different lengths is refused with an error, and an unknown distance name is refused with an error.",
 ["inputs","configurations"],"all pairs of non-empty finite series, all band ratios in [0,1], all distance names",
 "Tests evaluate a handful of distances in one argument order only.",
 [D],[("warpedDistance, pairwiseDistance, getDistance",D)],None,["getDistance","TimeSeriesSet::distanceBetween"])
p("C19","No operation touches memory it does not own",
 "No library operation, in any sequence of operations allowed by its documented interface, reads or writes outside the arrays of the datasets, series, groups and envelopes involved, uses a series or dataset buffer after it was released, releases one twice, or releases it with a mismatching form of deallocation.",
 ["inputs","histories"],"all sequences of library operations with arguments of any value",
 "The tests run without any memory checking, on a few well-formed inputs.",
 ["src/TimeSeries.cpp","src/TimeSeries.hpp","src/TimeSeriesSet.cpp","src/lib/trillionDTW.cpp","src/lib/deque.cpp",D,"src/Group.cpp","src/LocalLengthGroupSpace.cpp","src/GlobalGroupSpace.cpp","src/OnexAPI.cpp"],[("ownership of series and envelope buffers","src/TimeSeries.cpp"),("ownership of the dataset buffer","src/TimeSeriesSet.cpp"),("queue capacity in envelope generation","src/lib/trillionDTW.cpp"),("matrix and chain indexing",D)],None,["all public operations under AddressSanitizer"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
