"""Which harnesses decide which property, with bounds and per-harness budgets (s)."""
CHECKS = {}


def H(name, bounds, budget=10, thorough=None, tier="quick", covers=(), args=()):
    h = dict(name=name, bounds=bounds, budget=budget, tier=tier, covers=list(covers), args=list(args))
    h["thorough"] = thorough if thorough else max(60, budget * 10)
    return h


def HS(names, bounds, budget=6, **kw):
    """several harnesses with the same bounds; 'name*' asks for its cover labels"""
    cov = kw.pop("covers", ())
    r = []
    for n in names.split():
        star = n.endswith("*")
        r.append(H(n.rstrip("*"), bounds, budget, covers=cov if star else (), **kw))
    return r


def U(src, *h, defs=(), yields=False, flags=()):
    hs = []
    for x in h:
        hs += x if isinstance(x, list) else [x]
    return dict(src=src, h=hs, defs=list(defs), yields=yields, flags=list(flags))


def C(prop, *units, assumptions=()):
    CHECKS[prop] = dict(units=list(units), assumptions=list(assumptions))


SMALL = "VIECUT_VERIFY_SMALL_LIMITS=2"
SIX = "the triangular prism on 6 nodes, 9 symbolic weights 1..100"

mc = [H("heap4", "all graphs on 4 nodes (connected or not), weights 1..10^6, heap queue", 8, covers=["zero", "positive"]),
      H("heap4_mut", "same on mutable_graph", 6),
      H("heap4_nolimit", "same, queue keys unlimited", 6),
      H("bqueue4", "all graphs on 4 nodes, weights 1..2, bucket queue", 4),
      H("bqueue4_nolimit", "same, unlimited", 4),
      H("bstack4", "all graphs on 4 nodes, weights 1..2, bucket stack", 4),
      H("default4_big", "connected graphs on 4 nodes, weights 9990..10010, default queue", 3),
      H("start4", "connected graphs on 4 nodes, any start vertex", 4),
      H("path6", "6-cycle, weights 1..1000", 3),
      H("twotri6", "two triangles joined by three edges, 5 symbolic weights", 3),
      H("wide4", "K4 weights up to 3*10^9", 4),
      H("bstack5_unit", "all connected 5-node unit graphs", 5), H("bqueue5_unit", "all connected 5-node unit graphs", 5),
      H("heap5", "connected graphs on 5 nodes, weights 1..1000", 60, 600, tier="thorough")]
FAM = "60-100 base graphs on 8-10 nodes (mixed and clustered), 3 symbolic weights each"
mcf = HS("fam8 fam8_bs clu9 clu9_bq clu10_nolimit", FAM, 5)
C("P01", U("p01_mincut.cpp", *(mc + mcf)))

heur = HS("pr3 pr4* pr4_mut", "all graphs on 3/4 nodes, weights 1..10^6", 5, covers=["zero", "positive"]) + \
    HS("pr5_unit pr5_unit_mut", "all 5-node unit graphs", 4) + \
    HS("vc4 vc4_mut", "all graphs on 4 nodes, weights 1..1000, heap queue", 4) + \
    HS("vc5_unit", "all connected 5-node unit graphs, first 3 random draws symbolic", 5) + \
    HS("vc5_unit_mut", "all 5-node unit graphs", 5) + \
    HS("pr6 vc6 vc6_mut", SIX, 3, thorough=300)
heur_small = HS("pr4 vc4 vc4_mut", "all graphs on 4 nodes, thresholds 2 (hook)", 4) + \
    HS("vc5_unit vc5_unit_mut pr5_unit", "5-node unit graphs, thresholds 2 (hook)", 4) + HS("vc6_mut", SIX + ", thresholds 2 (hook)", 3)
ks = HS("ks4 ks4_any ks3_any ks2", "all graphs on 2..4 nodes, weights 1..1000", 4) + HS("ks5_unit", "all connected 5-node unit graphs", 4) + \
    HS("ks6", SIX, 3, thorough=300)
mat = HS("matula4* matula4_mut", "all graphs on 4 nodes, weights 1..10^6, heap queue", 6, covers=["zero", "positive"]) + \
    HS("matula4_bq", "all graphs on 4 nodes, weights 1..3, bucket queue", 4) + \
    HS("matula5_unit matula5_unit_mut", "all 5-node unit graphs, bucket stack", 4) + HS("matula6", SIX, 3, thorough=300)
hf = HS("pr_fam8 pr_clu9 pr_clu10 vc_fam8 vc_clu9 vc_clu10", FAM, 5)
mf = HS("matula_fam8 matula_clu9 matula_clu10", FAM, 4)
kf = HS("ks_fam8 ks_clu9", FAM, 5)


def cp(hs, b):
    return [dict(h, budget=b) for h in hs]


big = HS("vcpairs vcpairs_mut vcmove vcmove_mut", "families on 12 and 20 nodes with 2-4 symbolic weights, thresholds 2 (hook)", 2)
C("P02", U("p01_mincut.cpp", *[dict(h, budget=max(2, h["budget"] * .5)) for h in mc], *cp(mcf, 3), defs=["SAVED"]),
  U("p03_heur.cpp", [dict(h, budget=max(2, h["budget"] * .6)) for h in heur + mat], defs=["SAVED"]),
  U("p03_heur.cpp", [dict(h, budget=max(2, h["budget"] * .6)) for h in heur_small], ks, big, cp(hf + mf + kf, 3), defs=["SAVED", SMALL]),
  U("p03_heur.cpp", [dict(h, budget=1.5) for h in heur_small], cp(big, 2), cp(hf, 2), defs=["SAVED", SMALL, "PARALLEL"]))
C("P03", U("p03_heur.cpp", heur, HS("ks4 ks4_any ks3_any ks2", "all graphs on 2..4 nodes, weights 1..1000", 4)),
  U("p03_heur.cpp", heur_small, ks, cp(big, 2), cp(hf, 4), cp(kf, 3), defs=[SMALL]),
  U("p03_heur.cpp", [dict(h, budget=1.5) for h in heur_small], cp(big, 2), cp(hf, 3), defs=[SMALL, "PARALLEL"]))
C("P04", U("p03_heur.cpp", mat, mf), U("p03_heur.cpp", HS("matula4 matula4_mut matula5_unit", "as above, thresholds 2 (hook)", 4), defs=[SMALL]))

loc = HS("pr12_4* pr12_4_mut pr12_4_all pr12_4_all_mut", "connected graphs on 4 nodes, weights 1..1000, bound 1..3000", 3, covers=["merged"]) + \
    HS("pr34_4* pr34_4_mut pr34_4_all pr34_4_all_mut", "connected graphs on 4 nodes, weights 1..1000, bound 1..3000", 3, covers=["merged"]) + \
    HS("pr34_5 pr34_5_all", "one 5-node graph with 8 edges, weights 1..20", 3) + \
    HS("pr34_5unit pr34_5unit_all pr12_5unit pr12_5unit_all", "connected 5-node unit graphs, any bound", 3) + \
    HS("pr12_wide pr34_wide pr12_wide_all pr34_wide_all", "4-node graphs, weights up to 6*10^9", 3) + \
    HS("pr12_fam7 pr12_clu8 pr12_fam7_all pr12_clu8_all pr34_fam7 pr34_clu8 pr34_fam7_all pr34_clu8_all", "48 base graphs on 7-8 nodes, 2 symbolic weights each, any bound up to 30", 5)
heavy = HS("heavy_edges heavy_triangles", "graphs on 4 nodes, weights 1..1000, any bound", 4)
C("P05", U("p05_local.cpp", loc, heavy), U("p05_local.cpp", [dict(h, budget=2) for h in loc + heavy], defs=["PARALLEL"]))
scan = HS("heap4* heap4_mut heap4_nolimit", "all graphs on 4 nodes, weights 1..1000, bound 1..4000, heap queue", 5, covers=["merged"]) + \
    HS("bqueue4 bqueue4_nolimit bstack4 bstack4_nolimit", "connected graphs on 4 nodes, weights 1..3, any bound, bucket queues", 3) + \
    HS("bqueue5 bstack5", "connected 5-node unit graphs, any bound", 4) + HS("start4", "5-edge graph on 4 nodes, any start vertex", 3) + \
    HS("wide3 wide4_nolimit", "weights up to 6*10^9", 3) + \
    HS("progress4 progress4_bq progress4_bs", "graphs on 4 nodes, bound at most the minimum degree", 4) + \
    HS("fam7 fam7_bs clu8 clu8_bq", "48 base graphs on 7-8 nodes, 2 symbolic weights each, any bound up to 30", 4)
pscan = HS("scan1_any4 scan1_any5u* scan2_any3 scan2_cyc5", "parallel scan, all graphs on 3-5 nodes, 1-2 threads, any bound", 2, covers=["merged"])
C("P06", U("p06_scan.cpp", scan), U("p26_par.cpp", pscan, defs=["PARALLEL", SMALL], yields=True))
pq = HS("heap_seq* vecheap_seq*", "3 elements, any 4 operations, keys up to 2^62", 5, covers=["insert", "change", "delete", "extract"]) + \
    HS("heap_full vecheap_full", "5 inserted elements with any keys, one change, drained", 5) + \
    HS("heap_full2 vecheap_full2", "4 inserted elements, 2 operations, drained", 4) + \
    HS("fifo_seq stack_seq bucket_seq", "3 elements, any 4 operations, keys 0..2", 4) + \
    HS("fifo_full fifo_full3 stack_full stack_full3 bucket_full bucket_full3", "3-4 elements, 2-3 operations, drained, keys 0..1", 3) + \
    HS("heap_tree6 vecheap_tree6 heap_tree7 vecheap_tree7 heap_tree8 vecheap_tree8", "heaps of 6-8 elements in any heap order, one arbitrary operation, drained", 16, thorough=60) + \
    HS("fifo_five stack_five bucket_five", "5 elements, any 2 operations, drained, keys 0..1", 2)
C("P11", U("p11_pq.cpp", pq))
uf = HS("uf4_3* uf4_4", "4 elements, any 3 / 4 unions, finds in between", 4, covers=["merged", "noop"]) + \
    HS("uf5_3 uf3_5 uf6_4", "3-6 elements, 3-5 unions", 4, thorough=300)
C("P12", U("p12_uf.cpp", uf), U("p12_uf.cpp", [dict(h, budget=3) for h in uf], defs=["PARALLEL"]))

c7 = HS("uf4* uf4_mut uf4_inplace uf6 uf6_mut uf6_inplace", "4-node graphs (6-node families), any merge pattern, symbolic weights", 4, covers=["merged", "one"]) + \
    HS("graph4 sparse4_mut vset4_mut vset6_mut sparse6_mut delete_edge contract_edge", "4-6 node graphs, any mapping / edge, symbolic weights", 3) + \
    HS("uf5 uf5_mut uf5_inplace", "5-node graphs, any merge pattern", 2, thorough=300)
c7p = HS("uf4* uf4_mut uf4_inplace mesh4 sparse4 nohash4 sparse4_mut vset4_mut graph5", "4-5 node graphs, any mapping, one thread", 3, covers=["merged", "one"])
c7t = HS("t2_mesh t2_nohash t2_sparse_mut", "2 threads, every interleaving of shared accesses, preemptions bounded", 8) + \
    HS("t2_sparse t2_sparse2 t2_sparse5 t3_sparse_mut t2_uf", "2-3 threads, every interleaving of shared accesses, preemptions bounded", 3, thorough=200)
C("P07", U("p07_contract.cpp", c7), U("p07_contract.cpp", c7p, [dict(h) for h in c7t], defs=["PARALLEL"], yields=True),
  U("p07_contract.cpp", [dict(h, budget=2) for h in c7p], [dict(h, budget=3) for h in c7t[:3]], defs=["PARALLEL", SMALL], yields=True))
c8 = HS("any4_1 deg3_1 any3_2 k4_2 vtx4_3 prism6_2", "3-6 node graphs with symbolic weights, any 1-3 operations", 6) + \
    HS("house5_2", "5-node graph, any 2 operations", 8) + \
    [H("any4_2", "any graph on 4 nodes, any 2 operations", 6, 600, covers=["new_edge", "deleteEdge", "setEdgeWeight", "contractEdge", "contractEdgeSparseTarget",
       "contractVertexSet", "deleteVertex", "new_empty_node"])] + \
    HS("any3_3 k4_3contr w5_3contr edit5_3", "3-5 node graphs, any 3 operations", 4, thorough=400)
C("P08", U("p08_mut.cpp", c8))
c9 = HS("serial4* serial4_h1 serial4_h2 serial5_h2 serial6_h1 serial5", "4-6 node graphs, any edges and weights, 0-2 contractions before serialising", 5, covers=["few_edges"]) + \
    HS("copies4_h1 copies5_h2 static4_h1 static5 multi3_1 multi3_2 multi4_1", "3-5 node graphs, any weights, contraction history, parallel edges", 5)
C("P09", U("p09_conv.cpp", c9))
c10 = HS("any4 any5 any6_unit any1 extremes4 extremes4_eager percentile4 percentile3 selfloops4 defaultw4 marks4 hacky4", "1-6 node graphs, any edges and weights", 8)
C("P10", U("p10_static.cpp", c10))
c13 = HS("t2_n3_11*", "3 elements, 2 threads, one union each, every interleaving", 12, covers=["merged"]) + \
    HS("t2_n3_12 t2_n3_22 t2_n3_22p2 t2_n4_12 t3_n3_111 t2_pre_q t2_pre2 t2_q12", "3-4 elements, 2-3 threads, 1-2 operations each, every interleaving of atomic accesses", 6, thorough=400)
C("P13", U("p13_cuf.cpp", c13, yields=True))

c14 = HS("any3*", "all graphs on 3 nodes, 1-2 sinks, capacities 1..1000", 3, covers=["positive"]) + \
    HS("any4 any4_3 k4 house5 path6 ladder6 twice3 twice4", "3-6 node graphs, symbolic capacities, any terminals", 5) + \
    HS("unit5 wide3 par3 par4", "unit 5-node graphs, capacities up to 3*10^9, solvers with parallel edges", 4) + \
    HS("limited2* limited3 limited4 limited6", "2-6 node graphs, any flow limit", 4, covers=["below", "reached"]) + \
    HS("limited5_unit limited2_deep", "unit 5-node graphs; relabelling depth beyond the graph", 3) + \
    HS("fam7 fam8_4 limited_fam7", "24-32 base graphs on 7-8 nodes, 1-2 symbolic capacities each", 4) + \
    HS("unitflow2 unitflow3 unitflow3t unitflow3_any", "unit flow on 2-3 node graphs", 3)
C("P14", U("p14_flow.cpp", c14))
c15 = HS("any3* any3_acc any4_unit any4_acc any5_unit any5_unit_acc", "connected graphs on 3-5 nodes, weights 1..4 / 1..2 / unit, edge selection rules", 3, covers=["several"]) + \
    HS("any2 cyc5 cyc6 bow5 tree6 tri6 cyc7 ring8 known4 known5_unit", "2-8 node families, weights 1..3", 3) + HS("any4 any5_unit_rules prism6", "connected graphs on 4 nodes weights 1..3, 5 unit, prism", 5) + \
    HS("any5 any6_unit", "connected graphs on 5 nodes weights 1..2, 6 unit", 3, thorough=300)
c15 = HS("fam6 fam7 clu8 clu9 spa8", "120 base graphs on 6-9 nodes, 3 symbolic weights each, edge selection rules", 6) + c15
c15s = HS("wide2 wide3 big3", "2-3 nodes, weights beyond 2^32 / beyond the bucket limit", 2)
C("P15", U("p15_cactus.cpp", c15, c15s), U("p15_cactus.cpp", [dict(h, budget=max(1.5, h["budget"] * .5)) for h in c15], defs=["PARALLEL"]))
C("P16", U("p15_cactus.cpp", [dict(h, covers=[]) for h in c15 + c15s], defs=["BALANCED"]))
c17 = HS("any3_2* any3_3 empty3_4 empty3_5u empty4_4u any4_2u tri3_4 path4_3 cyc4_3 cyc4_4 cyc5_3", "3-5 node graphs, every sequence of 2-5 insertions and deletions", 5, covers=["positive", "zero"]) + \
    HS("any4_1 k4_4", "all graphs on 4 nodes, every update sequence", 4, thorough=300) + \
    HS("k4_daa k4_ddaa k4_dada balanced4_2 house5_daa path5_daa tree6_daa cyc5_cache cyc5_cache2 cyc6_daa cyc6_dda recache5 recache5_d", "4-6 node families, update sequences that fill and use the cache", 4) + \
    HS("fam6_2 fam6_dad spa7_daa clu8_da", "12-24 base graphs on 6-8 nodes, sequences of 2-3 updates", 7) + \
    HS("nest7_1 nest7_2 nest7_3 nest8_1 nest8_2 nest8_3 nest8_4", "cycles of 7 and 8 vertices, 5-9 updates that nest two caches", 2.5) + \
    HS("nest7_4 nest7_5", "cycle of 7 vertices, 7-8 updates that nest two caches", 1, thorough=100) + \
    HS("cyc4_daad path5_dadaa cyc5_twice", "4-5 node families, update sequences that fill and use the cache", 3, thorough=300)
C("P17", U("p17_dyn.cpp", c17), U("p17_dyn.cpp", HS("any3_2 any3_3 cyc5_3 path4_3 recache5", "as above, parallel cactus algorithm", 2, thorough=60), defs=["PARALLEL"]))

c18 = HS("any3_2 any3_3 any3_more disc4* any4_2 any4_2more any4_3 any4_4 k4_3", "all graphs on 3-4 nodes, weights 1..1000 / 1..100 / 1..3, any terminals or further fixed vertices", 2, covers=["positive"]) + \
    HS("any4_save disc4_save inexact4", "all graphs on 4 nodes, weights 1..3, written solution", 3) + \
    HS("any5_unit any5_unit_rules any5_unit_queue any5_unit_save any5_unit_inexact", "connected 5-node unit graphs, every edge selection rule, queue order, thread start order", 6) + \
    HS("any5_unit_more any4_3s five_3 five_3s", "5 nodes, further fixed vertices; one 5-node graph, weights 1..3", 2, thorough=120) + \
    HS("k33_3 k33_3s ring8 ring8_branch grid9_4 k5_5", "6-9 node families, 3-5 terminals, weights 1..2", 2, thorough=120)
c18 = HS("fam6_3 fam7_3 fam8_4 fam8_3s fam8_3save", "64 base graphs on 6-8 nodes, 2 symbolic weights each, 3-4 terminals", 9) + c18 + \
    HS("tri6 six_q seven_p four_p", "6-7 nodes, 3-6 symbolic weights, 3-4 terminals", 2, thorough=120)
c18t = HS("t_five t_five_s t_five_u t_fam6 t_fam8 t_fam8m", "5-8 nodes, two worker threads, every interleaving at the accesses of the shared queues and bounds, one preemption anywhere", 5, thorough=200)
C("P18", U("p18_multi.cpp", c18, HS("wide3 wide4 wide5 wide6", "3-6 nodes, weights up to 6*10^9", 3)),
  U("p18_multi.cpp", c18t, defs=["THREADS=1"], yields="problem_management.h,branch_multicut.h,per_thread_problem"))

RULE = "one application of the rule, then contraction"
c19 = []
for _r in "low high tri eqn aps".split():
    c19 += HS("%s_any4 %s_any5u %s_fam" % (_r, _r, _r), "graphs on 4-5 nodes and 64 base graphs on 7-8 nodes, 2-4 terminals; " + RULE, 3)
c19 += HS("high_tri6 high_six high_seven tri_tri6* tri_six tri_seven tri_7 eqn_7 aps_8 aps_9 low_leaf low_leaf2", "6-9 node families, weights 1..40 / 1..9; " + RULE, 4, covers=["merged"]) + \
    HS("flow_any4 flow_any5u flow_path flow_hdv flow_fam", "4-8 nodes, random draws symbolic; " + RULE, 5) + \
    HS("iso_any3 iso_any4 iso_any5u iso_six iso_seven iso_fam", "3-8 nodes: isolating cuts, bounds and markings", 4) + \
    HS("ker_any4 ker_any5u ker_any6u ker_fam6 ker_fam7 ker_fam8", "4-8 nodes: isolating cuts and the full reduction loop, 1-2 rounds", 5) + \
    HS("kert_any5u kert_six kert_fam6 kert_fam7 kert_fam8 kert_clu8 kert_dense7", "5-8 nodes: isolating cuts and the full reduction loop when the best known solution is one heavier than the optimum", 6) + \
    HS("ker_six ker_tri6 ker_seven ker_four", "6-7 nodes, all weights symbolic 1..5 / 1..40, full reduction loop", 2, thorough=200)
C("P19", U("p19_kernel.cpp", c19))
c26 = HS("any3* any4 any4_mut any5_unit any5_unit_mut prism", "all graphs on 3-5 nodes (prism on 6), weights 1..3, one thread, thresholds 2 (hook)", 3, covers=["zero", "positive"]) + \
    HS("fam8 clu9 clu9_mut scan1_fam7", "24-100 base graphs on 7-9 nodes, 1-3 symbolic weights each, one thread", 4) + \
    HS("t2_any3 t2_path4 t2_path4_mut", "2 threads, bounded preemptions, whole algorithm", 3) + \
    HS("scan1_any4 scan1_any5u scan2_any3 scan2_any4u scan2_k4 scan2_prism scan2_cyc5 scan2_noblack scan3_any3 scan3_cyc4", "concurrent scans of 1-3 threads on 3-6 node graphs, any bound, any start vertices, up to 2 preemptions at every memory access", 2.5, thorough=200)
C("P26", U("p26_par.cpp", c26, defs=["PARALLEL", SMALL], yields=True))

c20 = HS("gain_two6 gain_two7 gain_two8 gain_two9", "64 base graphs on 6-9 nodes, any solution of 2 blocks, one symbolic weight, gain moves", 4, covers=["moved"]) + \
    HS("gain_any4* gain_any5u gain_any5_3 gain_path6 gain_perm gain_fam7 gain_fam8 gain_clu8", "4-8 node graphs, any solution of 2-3 blocks, any terminals, gain moves", 2, covers=["moved"]) + \
    HS("pair_any4* pair_any5u pair_house pair_six pair_fam7 pair_fam8", "4-8 node graphs, any solution, pair moves", 2, covers=["moved"]) + \
    HS("flow_any4* flow_six flow_fam7 flow_fam8 all_any4* all_any5u all_six all_fam7 all_fam8 all_wide", "4-8 node graphs, any solution, flow moves / the whole local search", 3, covers=["moved"])
C("P20", U("p20_local.cpp", c20))
c21 = HS("core_any3* core_any4 core_any4u core_any5u core_fam8 core_fam9 core_clu10 core_famw", "3-5 node graphs, 8-10 node families, static and mutable graphs, any k", 3, covers=["core2"])
c22 = HS("cc_any4* cc_any5 cc_sparse8 ", "4-5 node graphs, 8 nodes with 9 possible edges", 4, covers=["several"]) + \
    HS("res_any3* res_k4 res_cyc5 res_problem res_again", "residual networks on 3-5 nodes with any flow pattern", 5, covers=["mixed"])
c29 = HS("ex_any4* ex_any4_mut ex_house ex_house_mut ex_fam8 ex_fam8_mut ex_wide ex_wide_mut", "3-8 node graphs, any partition into blocks, symbolic weights", 4, covers=["part"])
c32 = HS("top_any4* top_any5 top_mut4 top_w4 top_wide top_wide_mut top_fam8", "4-8 node graphs, any k", 4, covers=["some"]) + \
    HS("bfs_any4* bfs_any5 bfs_one bfs_fam9", "1-9 node graphs, any centre", 4, covers=["far"]) + HS("valid_any4 valid_wide valid_ops", "any 4-node graph, after any 2 operations", 3)
c35 = HS("cut_any4* cut_any4_wide cut_fam9", "4-9 node graphs, any partition, symbolic weights", 6, covers=["blocks"])
C("P21", U("p21_misc.cpp", c21))
C("P22", U("p21_misc.cpp", c22))
C("P29", U("p21_misc.cpp", c29))
C("P32", U("p21_misc.cpp", c32))
C("P35", U("p21_misc.cpp", c35))
c23 = HS("aps_any4* aps_any5 aps_fam8 aps_clu9 aps_tree7", "4-9 node graphs, any 2-3 terminals", 4, covers=["merged"]) + \
    HS("bri_any4* bri_any5 bri_fam8 bri_clu9 bri_tree7", "4-9 node graphs, any 2-3 terminals", 4, covers=["merged", "edge"])
c31 = HS("eq_any4* eq_any4_0 eq_any5u eq_any5u_0 eq_k23 eq_k5 eq_fam8", "4-8 node graphs, symbolic weights, any terminals", 3, covers=["merged"]) + \
    HS("cl_any4 cl_any4_0* cl_any5u cl_k5 cl_fam8", "4-8 node graphs, symbolic weights", 3, covers=["merged", "triangle"])
c30 = HS("perm_circ perm_circ5 perm_circ1 perm_fast perm_fast_in perm_local perm_local_in perm_good perm_good_in perm_good_small perm_good9 perm_good4 perm_good5 perm_good3 perm_small perm_small2",
         "vectors of 3-14 elements, first 3-6 random draws symbolic", 3) + HS("range range_wide range_full range_odd", "any interval up to 2^32 wide, any generator output", 3)
C("P23", U("p23_struct.cpp", c23))
C("P30", U("p23_struct.cpp", c30))
C("P31", U("p23_struct.cpp", c31))
c24 = HS("un_any3 un_any4 un_any4_mut un_blanks un_lead un_trail un_tabs un_comment un_loop un_ten", "unweighted files of 3-10 vertices, any edges, any spelling of blanks and comments", 2) + \
    HS("w_any3 w_any3_mut w_any4 w_any4_mut w_blanks w_lead w_trail w_loop w_loop_mut w_wide w_wide_mut nw_any3 nw_w_any3", "weighted files of 3-4 vertices, any digits (1-12 of them), edge and vertex weights", 2) + \
    HS("rt_any4 rt_any4_mut rt_any4_un rt_wide rt_fam9 cut5 cut5_mut vec_rt vec_file flow_any4", "written and read again: graphs of 4-9 vertices, cuts, vectors", 2)
c33 = HS("t_plain t_sign t_wgt t_mixed t_three t_blanks t_lead t_trail t_wide t_many", "files of 2-60 lines, any digits, signs, blanks", 3)
C("P24", U("p24_io.cpp", c24))
C("P33", U("p24_io.cpp", c33))
c25 = HS("lp_any4* lp_any4_rnd lp_any4_mut lp_any5u lp_fam9 lp_clu9_mut", "4-9 node graphs, any visiting order", 2, covers=["joined"])
c25s = HS("triv_any4 triv_any5u triv_prism* triv_prism_mut triv_fam9 triv_clu9_mut", "4-9 node graphs, any clustering", 2, covers=["moved"])
c25m = HS("match_any3* match_any4 match_path match_any5u match_prism", "3-6 node graphs, random draws symbolic", 2, covers=["matched"]) + \
    HS("heavy_any3* heavy_any4 heavy_k4 heavy_fam8", "3-8 node graphs, any weights", 2, covers=["part"])
c25q = HS("smp_any3* smp_any4 smp_any4_rnd smp_k4 smp_any5u smp_fam8", "3-8 node graphs, any sampled edges", 2, covers=["joined"])
c25p = HS("lp_par_any3* lp_par_any4 lp_par_mut smp_random smp_random2 smp_separate smp_separate2 smp_weighted smp_weighted2 smp_geometric",
          "3-4 node graphs, 1-2 threads, every interleaving up to the preemption bound, random draws symbolic", 2, covers=["joined"]) + \
    HS("smpc_random smpc_separate smpc_weighted smpc_geometric", "3-4 node graphs, sampled and contracted", 1.5)
C("P25", U("p25_coarse.cpp", c25, c25s, c25m, c25q), U("p25_coarse.cpp", cp(c25, 1.5), [dict(h, budget=1.5, covers=[]) for h in c25s], c25p, defs=["PARALLEL"], yields=True))
c28 = HS("hist1_lower* hist1_any", "one worker, any sequence of 5 operations, any bounds, every ordering", 4, covers=["drained", "ordered"]) + \
    HS("hist2_lower* hist2_any hist3_lower", "2-3 workers, any sequence of operations, any bounds", 3, covers=["drained"]) + HS("prune1* prune2", "pruning in any sequence", 3, covers=["pruned"]) + \
    HS("conc_add* conc_add2 conc_add3 conc_addtake conc_addtake1 conc_take conc_take3 conc_send conc_swap conc_swap2 conc3 conc3_mix", "2-3 concurrent workers, every interleaving up to the preemption bound", 2, covers=["concurrent"], thorough=100)
c27 = HS("ship_any3 ship_any4 ship_any4_maps* ship_ops5 ship_wide ship_fam8", "3-8 node problems after any contractions and deletions, any terminals and bounds", 4, covers=["contracted", "mapped"]) + \
    HS("bounds3* bounds4", "any order of bound messages between 3 ranks", 4, covers=["bound"])
C("P28", U("p28_queue.cpp", c28, yields=True))
C("P27", U("p28_queue.cpp", c27, yields=True))

c34 = HS("ids_any4 ids_area4* ids_area5 ids_fam9 ids_pct9", "4-9 node graphs, terminals given by identifier, surrounding areas of any size or share", 3) + \
    HS("top_any4 top_area5", "4-5 node graphs, weights 1..3, the vertices of highest degree", 3) + \
    HS("rnd_any3* rnd_any4 rnd_area5", "3-5 node graphs, random draws symbolic", 3, covers=["random"]) + \
    HS("dist_any4* dist_any5 dist_fam9 dist_area", "4-9 node graphs, random draws symbolic, 2-4 distant terminals", 3, covers=["far"]) + \
    HS("file_pre file_pos", "preset and order files, any assignment", 3)
C("P34", U("p34_terms.cpp", c34))

APP = "the whole program on a file with symbolic weights: "
c36 = HS("noi_any4* noi_k4 noi_iter noi_pq noi_unw noi_fam", APP + "4-8 vertices, any queue, seeds, repetitions", 2, covers=["positive"]) + \
    HS("cac_any4 cac_file cac_file5 cac_disc cac_fams cac_bal cac_fam", APP + "4-8 vertices, all minimum cuts", 2, covers=["positive"]) + \
    HS("vc_any4 vc_fam pr_any4 pr_fam mat_any4 mat_fam ks_any4 ks_fam", APP + "4-9 vertices, heuristics", 2, covers=["positive"]) + \
    HS("dyn_any3 dyn_init4 dyn_static3 dyn_static4", "2-4 updates on 3-4 vertices, dynamic and static mode", 3, covers=["changes"]) + \
    HS("mt_any4 mt_five mt_fam", APP + "4-7 vertices, 2-3 terminals", 4, covers=["positive"]) + \
    HS("core_any5 core_twin", "any graph on 5 vertices, 32 on 7", 4) + HS("cc_any4 cc_any5", "any graph on 4-5 vertices", 2, covers=["part"]) + \
    HS("tcc_4 tcc_6", "3 updates on 4-6 vertices", 4, covers=["written"])
c36p = HS("par_any4 par_fam inex_any4 inex_fam pcac_any4 pcac_disc pcac_fams pcac_fam", APP + "parallel program with one thread, 4-9 vertices", 2, covers=["positive"])
NSR = ["-fno-strict-return"]   # the programs are called as functions, where the return of main is not implied
C("P36", U("p36_apps.cpp", c36, flags=NSR), U("p36_apps.cpp", c36p, defs=["PARALLEL"], flags=NSR))

NOT_APPLICABLE = {}
# time per check is limited: budgets of the long ones are scaled down
for _p, _f in dict(P11=.7, P19=.6, P18=.5, P02=.6, P03=.7, P07=.7, P15=.6, P16=.75, P17=.6).items():
    for _u in CHECKS[_p]["units"]:
        for _h in _u["h"]:
            _h["budget"] = max(1.2, _h["budget"] * _f)
