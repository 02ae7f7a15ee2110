"""The jobs of every property: harness, parameters, engine options, tier, time cap and the bound they stand for."""

ANY = "any 64-bit hashes"
BOUND = {
    "h_new_pf": "every u8 precision",
    "h_new_plus": "every u8 precision",
    "h_pf_step": "p={0}, {regs}, one insert of any 64-bit hash",
    "h_plus_step": "p={0}, {regs}, one insert of any 64-bit hash",
    "h_pf_fresh": "p={0}, fresh sketch, two inserts of any 64-bit hashes",
    "h_sparse_set": "p={0}, {1}+{2} inserts of any 64-bit hashes, estimates after each group",
    "h_order_plus": "p={0}, {1} concrete codes and {2} arbitrary hashes, rotated/repeated order, mode {3}",
    "h_order_dense": "p={0}, {regs}, two arbitrary hashes in both orders, one repeated",
    "h_order_pf": "p={0}, {regs}, two arbitrary hashes in both orders, one repeated",
    "h_to_dense": "p={0}, {1} arbitrary hashes (estimate after no. {2}), then dense by a merge",
    "h_switch": "p={0}, {1} concrete codes and {2} arbitrary hashes, dense by itself",
    "h_store": "p={0}, codes of {1}+{2} arbitrary hashes stored and read back",
    "h_store_raw": "p={0}, {1} arbitrary distinct 32-bit codes stored and read back",
    "h_store_gap": "p={0}, {1} arbitrary increasing 32-bit codes stored and read back",
    "h_merge_pf": "p={0}, two arbitrary sketches ({regs} on both sides)",
    "h_merge_pf_stream": "p={0}, streams of 2 and 1 arbitrary hashes, and one later insert",
    "h_merge_plus": "p={0}, pairing {1} (1 self dense, 2 other dense), {2} and {3} arbitrary hashes, options {4}",
    "h_mismatch_pf": "p={0} with every other precision, one arbitrary hash on each side",
    "h_mismatch_plus": "p={0} with every other precision, representations {1} (1 self dense, 2 other dense), one arbitrary hash on each side",
    "h_pf_win": "p={0}, cyclic registers, one insert of any hash whose index is in a window of up to 32 at eighth {1} of the registers",
    "h_plus_win": "p={0}, cyclic registers, one insert of any hash whose index is in a window of up to 32 at eighth {1} of the registers",
    "h_big": "p={0}, {1} concrete hashes, {2} arbitrary ones in windows of 2*{4} indices, {3} concrete ones; made dense by a merge: {5}",
    "h_big_budget": "p={0}, {1} concrete hashes, then {2} more with sizes checked after each, the first of them arbitrary in a window of 2*{3} indices",
    "h_big_order": "p={0}, {1} concrete hashes and {2} arbitrary ones in windows of 2*{3} indices, in another order, repeated, with an estimate in between",
    "h_big_mid": "p={0}, {1} concrete hashes and an arbitrary one in a window of 2*{3} indices, then step {4} (0 estimate, 1 clone, 2.. round trip), {2} more on each side, merges",
    "h_big_merge": "p={0}, pairing {1} (1 self dense, 2 other dense; one word of arbitrary registers), {2} and {3} concrete hashes, {4} of them after a flush, an arbitrary one in a window of 2*{5} indices (options {6})",
    "h_big_near": "p={0}, {1}+{2} concrete hashes with one-byte gaps across a register border and an arbitrary one in a window of 16 indices; made dense by a merge: {3}",
    "h_pf_rank": "p={0}, any rank in the first, the middle or the last register, one other arbitrary, the rest {1} (3: the same rank)",
    "h_plus_rank": "p={0}, any rank in the first, the middle or the last register, one other arbitrary, the rest {1} (3: the same rank)",
    "h_merge_dense": "p={0}, both dense, {regs} on both sides",
    "h_pure_plus": "p={0}, {1} arbitrary hashes, estimates after those in mask {2}",
    "h_pure_dense": "p={0}, {regs}",
    "h_pure_pf": "p={0}, {regs}",
    "h_budget": "p={0}, {1} concrete codes and {2} arbitrary hashes, {3} final estimates",
    "h_flush_point": "p={0}, buffer filled to the flush point, one arbitrary hash",
    "h_dense_size": "p={0}, type {1} (0 PF, 1 Plus), one arbitrary hash",
    "h_serde_plus": "p={0}, {1}+{2} arbitrary hashes, encoding {3} (0 map, 1 reversed map, 2 sequence), one later insert and merge",
    "h_serde_dense": "p={0}, {regs}, encoding {1}, one later insert",
    "h_serde_pf": "p={0}, {regs}, encoding {1}, one later insert",
    "h_clone_plus": "p={0}, {1} arbitrary hashes, mode {2} (1 clone changes, 2 flushed), later insert and merge",
    "h_clone_dense": "p={0}, {regs}, side {1}",
    "h_clone_pf": "p={0}, {regs}, side {1}",
    "h_pf_count": "p={0}, {shape}",
    "h_plus_select": "p={0}, {shape}",
    "h_plus_bias": "p={0}, {1} zero registers, {2} arbitrary other values (0: all arbitrary)",
    "h_sparse_count": "p={0}, {1} concrete codes and {2} arbitrary hashes",
    "h_pf_finite": "p={0}, {shape}",
    "h_plus_finite": "p={0}, {shape}",
    "h_ops": "p={0}, operation sequence {2} (base 6 digits, {1} of them) with arbitrary hashes",
    "h_dense_ops": "p={0}, {regs} on both sides, insert, merge, insert",
    "h_pf_ops": "p={0}, {regs} on both sides, insert, merge, insert",
    "h_entry_plus": "p={0}, value type {1}, arbitrary values, hasher depending on its whole input",
    "h_entry_pf": "p={0}, value type {1}, arbitrary values, hasher depending on its whole input",
    "h_entry_dense": "p={0}, dense",
    "h_const_pf": "const-loop against default, PF, p={0}, {vs}",
    "h_const_plus": "const-loop against default, dense Plus, p={0}, {vs}",
    "h_const_stream": "const-loop against default, p={0}, both types, {1} arbitrary hashes, a merge of one more",
    "h_nostd_new": "every u8 precision",
    "h_nostd_step": "no_std against std, p={0}, any registers, one insert of any 64-bit hash",
    "h_nostd_merge": "no_std against std, precisions {0} and {1}, any registers on both sides",
    "h_nostd_count": "no_std, p={0}, {vs}, against the formula on FreeBSD's logarithm (floating-point operations uninterpreted in it)",
    "h_nostd_lc": "no_std against std, p={0}, any number of zero registers in {2}..={2}+{3}, the others at rank 1 (0) or the top (1): {1}",
    "h_nostd_large": "no_std against std, p={0}, any rank, sixteen mixtures with the next rank",
    "h_nostd_stream": "no_std against std, p={0}, three arbitrary values",
    "h_pf_edge": "p={0}, registers around {edge}, the last one or two of them arbitrary",
    "h_plus_edge": "p={0}, registers around {edge}, the last one or two of them arbitrary",
    "h_plus_seg": "p={0}, any of the bias table's segments {1}..{2}, the last register arbitrary",
}
VS = ["all registers arbitrary", "one word of arbitrary registers repeated", "two arbitrary register values and zero in three runs of arbitrary length",
      "one arbitrary register among those of rank 3", "one arbitrary register among those of the highest ranks", "one arbitrary register among zeros and ones"]
EDGE = {"h_pf_edge": ["the end of the small range (with zero registers)", "2^32/30", "2^32 and the top", "the middle range without zero registers", "the large range"],
        "h_plus_edge": ["the linear counting threshold", "five times the register count", "far beyond any correction", "few zero registers", "half the linear counting threshold"]}
SHAPES = ["all registers arbitrary", "one word of arbitrary registers repeated", "two arbitrary register values and zero in three runs of arbitrary length"]
SHAPED = {"h_pf_count", "h_plus_select", "h_pf_finite", "h_plus_finite"}


def J(fn, params, tier="quick", secs=None, cost=10, reach=(1,), opts=(), variants=False):
    ps = [] if params in ("", "-") else [int(x) for x in str(params).split(",")]
    regs = "arbitrary valid registers"
    if fn in ("h_pf_step", "h_plus_step", "h_order_dense", "h_order_pf", "h_pure_dense", "h_pure_pf", "h_serde_dense", "h_serde_pf", "h_clone_dense",
              "h_merge_dense", "h_clone_pf", "h_dense_ops", "h_pf_ops") and ps and ps[0] > FULL.get(fn, 5):
        regs = "arbitrary register words in a repeating pattern (cyclic)"
    shape = SHAPES[ps[1]] if fn in SHAPED and len(ps) > 1 else ""
    b = BOUND.get(fn, fn + " {0}")
    edge = EDGE[fn][ps[1]] if fn in EDGE else ""
    text = b.format(*(ps + [""] * 6), regs=regs, shape=shape, edge=edge, vs=VS[ps[1]] if len(ps) > 1 and ps[1] < len(VS) else "")
    if secs is None:
        secs = 240 if tier == "quick" else 1500
    return {"fn": fn, "params": ps, "tier": tier, "secs": secs, "cost": cost, "reach": list(reach), "opts": list(opts), "bound": text, "variants": variants}


FULL = {"h_pf_step": 6, "h_plus_step": 7, "h_order_dense": 6, "h_order_pf": 6}
F20 = ("--fork-uitofp", "20")
N = ()
T = "thorough"
POINTS = {4: 79, 5: 159, 6: 200, 7: 200, 8: 200, 9: 201, 10: 200, 11: 201, 12: 201, 13: 200, 14: 201, 15: 201, 16: 200, 17: 201, 18: 200}
PF_EDGES = [J("h_pf_edge", "%d,%d" % (p, w), reach=(9,), cost=2) for p in range(4, 17) for w in range(5)]
PLUS_EDGES = [J("h_plus_edge", "%d,%d" % (p, w), reach=(9,), cost=12 if (p, w) == (4, 1) else 3) for p in range(4, 19) for w in range(5)]


def segs():
    out = []
    for p, n in POINTS.items():
        parts = {4: 2, 5: 4, 6: 4, 7: 4, 8: 4, 9: 4}.get(p, 2)
        for k in range(parts):
            # the last range reaches beyond the table whatever its length
            a, b = (n + 1) * k // parts, 100000 if k == parts - 1 else (n + 1) * (k + 1) // parts
            out.append(J("h_plus_seg", "%d,%d,%d" % (p, a, b), reach=(), cost=20))
    return out


SEGS = segs()

def budget(p):
    return 4 * (((1 << p) + 4) // 5)


def flush(p):
    """buffered codes after which an insert flushes"""
    return budget(p) // 100


def seq(p, digits):
    return "%d,%d,%d" % (p, len(digits), sum(int(d) * 6 ** i for i, d in enumerate(digits)))


def many(fn, fmt, values, tier="quick", cost=2, reach=(1,), **k):
    return [J(fn, fmt.format(*(v if isinstance(v, tuple) else (v,))), tier, cost=cost, reach=reach, **k) for v in values]


PFP, PLP = range(4, 17), range(4, 19)
SEQS = ["0", "00", "02", "013", "0132", "1034", "501", "143", "054", "113", "51", "1340", "0344", "5544"]
BIG = {p: flush(p) + 3 for p in PLP}
# (p, values before, after): across the flush point, and across the switch
MID = [x for x in BIG.items() if x[0] > 5]
NEAR = [(7, 20, 30), (8, 90, 40), (9, 200, 60), (10, 400, 100), (11, 700, 300), (12, 1300, 500)]
CLOSE = [(4, 6, 10, 0), (5, 10, 20, 0), (6, 20, 40, 0), (7, 40, 80, 0), (8, 150, 100, 0), (9, 300, 200, 0), (10, 700, 300, 0), (12, 50, 50, 0), (18, 50, 50, 0)]
CLOSE1 = [(4, 3, 5, 1), (6, 10, 20, 1), (8, 75, 50, 1), (10, 350, 150, 1), (12, 25, 25, 1), (14, 25, 25, 1)]
PF_RANKS = [J("h_pf_rank", "%d,%d" % (p, b), reach=(9,), cost=4) for p in PFP for b in range(4)]
PLUS_RANKS = [J("h_plus_rank", "%d,%d" % (p, b), T if p > 15 else "quick", reach=(9,), cost=4) for p in PLP for b in range(4)]
MFL = [9, 10, 26, 33, 34, 17, 20 + 1]
JOBS = {
    "C01": [J("h_new_pf", ""), J("h_new_plus", "")],
    "C02": [J("h_pf_step", p) for p in (4, 5, 6, 8, 10, 12)] + [J("h_pf_fresh", 4)] + many("h_pf_win", "{},{}", [(p, e) for p in PFP for e in range(8)], cost=1)
    + [J("h_pf_step", p, T) for p in (7, 9, 11, 13, 14)],
    "C03": [J("h_plus_step", p) for p in (4, 5, 6, 8, 10)] + many("h_plus_win", "{},{}", [(p, e) for p in PLP for e in ((0, 3, 7) if p > 16 else range(8))], cost=1)
    + [J("h_plus_step", p, T) for p in (7, 9, 11, 12, 13)],
    "C04": [J("h_sparse_set", x) for x in ("7,2,0", "4,2,0", "18,2,0")] + many("h_sparse_set", "{},2,0", (10, 12, 14, 16))
    + many("h_big", "{},40,1,20,8,0", PLP, cost=1) + many("h_big", "{},{},1,20,8,0", BIG.items(), cost=1) + many("h_big", "{},{},1,{},8,0", NEAR, cost=1)
    + many("h_big", "{},30,2,10,8,0", (10, 14, 18)) + many("h_big", "{},30,3,10,8,0", (14,))
    + many("h_sparse_count", "{},0,2", (4, 7, 10, 14, 18)) + many("h_big_mid", "{},30,10,8,0", PLP, cost=1)
    + [J("h_sparse_set", x, T) for x in ("14,3,0", "14,2,1", "7,1,2")] + many("h_big", "{},30,3,10,8,0", (10, 12, 16, 18), T)
    + many("h_big_near", "{},{},{},{}", CLOSE, cost=1),
    "C05": [J("h_order_plus", x) for x in ("7,0,2,0", "4,0,2,0", "7,1,2,3", "10,0,2,0", "14,0,2,0", "18,0,2,0")] + [J("h_order_dense", 4), J("h_order_pf", 4)]
    + many("h_big_order", "{},40,1,8", [p for p in PLP if p not in (7, 8)], cost=3) + many("h_big_order", "{},20,1,8", (7, 8), cost=3)
    + [J("h_order_plus", "14,0,3,0", T)] + many("h_big_order", "{},{},1,8", [(9, 250), (10, 450), (12, 100)], T),
    "C06": [J("h_to_dense", x) for x in ("7,1,0", "4,1,0", "5,1,0", "10,1,1")] + [J("h_switch", x) for x in ("4,1,1", "5,1,1", "6,1,1")]
    + many("h_big", "{},40,1,20,8,1", PLP, cost=2) + many("h_big", "{},{},1,20,8,1", [x for x in BIG.items() if 11 < x[0] < 17], cost=2) + many("h_big", "{},{},1,{},8,0", NEAR, cost=1)
    + many("h_big", "{},30,2,10,8,1", (10, 14), cost=2)
    + many("h_big_near", "{},{},{},{}", CLOSE + CLOSE1, cost=1),
    "C07": [J("h_store", x) for x in ("14,1,1",)] + [J("h_store_raw", x) for x in ("14,1", "14,2")] + many("h_store_gap", "{},2", (7, 10, 14, 18)) + [J("h_store_gap", "14,3")]
    + [J("h_store_gap", "14,4", T), J("h_store_gap", "18,3", T)],
    "C08": [J("h_merge_pf", x) for x in ("4,6", "5,6", "6,6", "7,6", "8,6", "9,6", "10,6")] + [J("h_merge_pf_stream", 4)] + many("h_merge_pf", "{},6", (11, 12), T),
    "C09": [J("h_merge_plus", x, reach=()) for x in ("7,0,1,1,0", "4,1,1,1,0", "4,3,1,1,0")]
    + many("h_big_merge", "{},0,10,10,1,8,{}", [(p, f) for p in PLP for f in (1, 2)], cost=1) + many("h_big_merge", "{},0,10,10,3,8,5", PLP, cost=1)
    + many("h_big_merge", "{},1,10,10,1,8,{}", [(p, f) for p in range(4, 17) for f in (1, 6)], cost=1)
    + many("h_big_merge", "{},2,10,10,1,8,{}", [(p, f) for p in range(4, 16) for f in ((1, 2) if p < 9 else (2,))], cost=2)
    + many("h_big_merge", "{},3,10,10,1,8,{}", [(p, f) for p in range(4, 15) for f in (1, 6)], cost=2)
    + many("h_big_merge", "{},0,{},{},{},8,{}", [(7, 20, 20, 3, 6), (8, 60, 60, 1, 1), (10, 10, 10, 9, 5), (18, 100, 100, 5, 1)], cost=5)
    + many("h_merge_dense", "{}", range(4, 9), cost=5)
    + many("h_big_merge", "{},0,{},{},{},8,{}", [(8, 60, 60, 1, 2), (10, 250, 250, 1, 1), (10, 250, 250, 1, 2)], T)
    + many("h_big_merge", "{},2,10,10,1,8,1", (9, 10, 12), T)
    + many("h_big_merge", "{},{},10,10,3,8,{}", [(p, q, f) for p in (4, 7, 10, 13) for q in range(3) for f in MFL if (q, f) != (2, 21)], cost=1, reach=()) + many("h_big_merge", "{},0,10,10,3,8,{}", [(p, f) for p in (14, 18) for f in MFL], cost=1),
    "C10": many("h_mismatch_plus", "{},{}", [(p, q) for p in PLP for q in range(4)], cost=5) + many("h_mismatch_pf", "{}", PFP, cost=3),
    "C11": [J("h_pf_count", x, reach=(9,)) for x in ("4,1", "4,2")] + PF_EDGES
    + PF_RANKS,
    "C12": [J("h_plus_select", "4,1", reach=(9,), opts=F20)] + PLUS_EDGES
    + PLUS_RANKS,
    "C13": [J("h_plus_bias", "4,0,1", reach=(9,))] + SEGS,
    "C14": many("h_sparse_count", "{},0,2", PLP, cost=3) + [J("h_sparse_count", "7,3,1")] + many("h_big", "{},40,1,20,8,0", PLP, cost=1) + many("h_big", "{},{},1,20,8,0", BIG.items(), cost=1)
    + many("h_sparse_set", "{},2,0", (7, 10, 14, 18), cost=4)
    + [J("h_big", "18,70000,1,20,8,0", cost=60)],
    "C15": [J("h_pure_plus", "7,2,1"), J("h_pure_plus", "10,2,1"), J("h_pure_plus", "18,2,1"), J("h_pure_pf", 4), J("h_pure_pf", 6), J("h_pure_pf", 8)]
    + many("h_big_mid", "{},30,10,8,0", PLP, cost=1) + many("h_big_mid", "{},{},10,8,0", MID, cost=1) + many("h_big_order", "{},40,1,8", (11, 14, 16, 18)),
    "C16": [J("h_budget", x) for x in ("4,2,1,1", "4,1,2,1", "6,20,1,0")] + [J("h_flush_point", p) for p in (4, 6, 8, 10)] + [J("h_dense_size", x) for x in ("4,0", "4,1", "10,0", "10,1")]
    + many("h_big_budget", "{},{},4,8", [(p, max(0, flush(p) - 2)) for p in PLP], cost=2)
    + many("h_big_budget", "{},{},{},8", [(6, 5, 20), (7, 20, 15), (8, 70, 40), (9, 150, 60), (10, 380, 60), (11, 750, 60)], cost=2)
    + many("h_big_merge", "{},0,10,10,{},8,{}", [(p, t, f) for p in PLP for t in (1, 9) for f in (1,)], cost=1)
    + many("h_big_merge", "{},0,{},{},{},8,{}", [(8, 60, 60, 1, 1)], cost=5)
    + many("h_big_near", "{},{},{},{}", CLOSE, cost=1),
    "C17": [J("h_serde_dense", x) for x in ("4,0", "5,1", "6,2")] + [J("h_serde_pf", "4,0")] + many("h_serde_plus", "{},1,0,{}", [(18, 0), (7, 1), (14, 2), (4, 0), (10, 2)])
    + many("h_big_mid", "{},30,10,8,{}", [(p, w) for p in PLP for w in (2, 3, 4)], cost=1) + many("h_big_mid", "{},{},10,8,2", MID, cost=1)
    + [J("h_serde_pf", "6,2", T), J("h_serde_pf", "5,1", T)],
    "C18": [J("h_const_pf", "4,%d" % k, variants=True) for k in (0, 1, 2)] + [J("h_const_plus", "4,%d" % k, variants=True, cost=30) for k in (1,)]
    + [J("h_const_plus", "4,%d" % k, T, variants=True) for k in (0, 2)]
    + [J("h_const_pf", "%d,%d" % (p, k), variants=True, cost=1) for p in range(4, 17) for k in (3, 4, 5)]
    + [J("h_const_plus", "%d,%d" % (p, k), variants=True, cost=1) for p in range(4, 19) for k in (3, 4, 5)]
    + [J("h_const_stream", x, variants=True) for x in ("4,1", "7,1", "16,1")] + [J("h_const_stream", x, T, variants=True) for x in ("4,2", "7,2")],
    "C19": [J("h_nostd_new", "", variants=True)] + [J("h_nostd_step", p, variants=True) for p in range(4, 13)] + [J("h_nostd_step", p, T, variants=True) for p in range(13, 17)]
    + [J("h_nostd_merge", x, variants=True) for x in ("4,4", "5,4", "4,5", "8,8", "10,10")] + [J("h_nostd_stream", 4, variants=True)]
    + [J("h_nostd_count", "%d,%d" % (p, k), secs=60, cost=2, variants=True) for p in range(4, 17) for k in (3, 4, 5)]
    + [J("h_nostd_lc", "%d,%d,0,511" % (p, k), variants=True) for p in range(4, 10) for k in (0, 1)]
    + [J("h_nostd_lc", "%d,0,%d,%d" % (p, b, 255 if p < 13 else 31), variants=True) for p in range(10, 17) for b in (0, (1 << p) // 3, (1 << p) - 31)] + [J("h_nostd_large", p, variants=True) for p in range(4, 12)],
    "C20": [J("h_pf_finite", "4,0"), J("h_plus_finite", "4,0", opts=F20), J("h_dense_ops", 4), J("h_pf_ops", 4)] + [J("h_ops", seq(p, d), cost=3) for p in (4, 7, 10, 16, 18) for d in SEQS if (p, d) != (4, "0132")] + [J("h_ops", seq(4, "0132"), T)]
    + many("h_big_budget", "{},{},4,8", [(p, max(0, flush(p) - 2)) for p in PLP], cost=1) + many("h_big", "{},{},1,{},8,0", NEAR, cost=1) + many("h_big", "{},{},1,20,8,1", [x for x in BIG.items() if x[0] < 17], cost=2)
    + [J("h_pf_edge", "%d,%d" % (p, w), reach=(9,), cost=2) for p in PFP for w in (0, 2)] + [J("h_plus_edge", "%d,%d" % (p, w), reach=(9,), cost=3) for p in PLP for w in (0, 2, 3)]
    + PF_RANKS + PLUS_RANKS + [J("h_plus_seg", "%d,%d,%d" % (p, a, b), reach=(), cost=3) for p, n in POINTS.items() for a, b in ((0, 2), (n - 1, 100000))],
    "C21": [J("h_entry_plus", "%d,%d" % (p, t)) for p in (4, 7, 18) for t in range(4)] + [J("h_entry_dense", p) for p in (4, 5)] + [J("h_entry_pf", "%d,%d" % (p, t)) for p in (4, 5) for t in range(4)]
    + [J(h, "%d,%d" % (p, t), cost=2) for t in range(4, 14) for h, p in (("h_entry_plus", 7), ("h_entry_pf", 4), ("h_entry_plus", 14))],
    "C22": [J("h_clone_dense", x) for x in ("4,0", "4,1", "6,1", "8,0")] + [J("h_clone_pf", "4,0"), J("h_clone_pf", "4,1")]
    + many("h_big_mid", "{},30,10,8,1", PLP, cost=1) + many("h_big_mid", "{},{},10,8,1", MID, cost=1) + [J("h_clone_plus", x, T) for x in ("7,1,1", "7,1,2", "18,1,1")],
}
PRE = {"C19": "nostd"}
OUTSIDE = {}
ASSUME = {"*": [
    "the compiler's LLVM IR (rustc stable, opt-level 1, overflow checks on) is taken as the meaning of the source",
    "std::collections::HashSet is replaced in the symbolic build by an insertion-ordered set (shim/); the replay uses the real one",
    "the allocator never fails",
]}
