"""What each check runs: harness entries, parameter sets (bounds) per tier, reachability witnesses."""


def E(entry, q=({},), t=None, tq=100, tt=800, opts=(), reach=("done",), samples=8, mem=3500, weight=1):
    return dict(entry=entry, q=list(q), t=list(t) if t is not None else None, tq=tq, tt=tt, opts=list(opts), reach=list(reach),
                samples=samples, mem=mem, weight=weight)


MANY = ("--max-steps", "3000000000")  # files with many parts
ASSUME = [
    "laz-perf is absent from this sandbox: rt/lazperf is a stand-in (headers, VLR layouts, an invertible chunk codec with a chunk table)",
    "the symbolic build replaces the C++ runtime (exceptions, containers' tree/list hooks, file streams as memory files, unordered maps as lists) by the models in rt/; every counterexample is replayed natively against the real runtime before it is reported",
    "compiled by clang 18 for x86-64 with -fwrapv -ffp-contract=off; allocation does not fail; single thread",
]

SPEC = {}


def P(prop, bounds, entries, **kw):
    SPEC[prop] = dict(bounds=bounds, entries=entries, **kw)



P("C01", "keys: every valid 32-bit component (children: components below 2^30 so that the child exists); parent chains and ancestor tests for depths up to D and at exact depths 31-64 (thorough: -100); parent-at-depth for every depth pair at most K-1 levels apart",
  [E("C01_children"), E("C01_parent", reach=("done", "invalid", "root")),
   E("C01_parents", q=({"D": 12, "self": 0}, {"D": 12, "self": 1}), t=({"D": 40, "self": 0}, {"D": 40, "self": 1}), reach=("done", "invalid")),
   E("C01_parents", q=[{"at": a, "self": a % 2} for a in (31, 32, 33, 40, 64)], t=[{"at": a, "self": s} for a in (31, 32, 33, 34, 48, 63, 64, 65, 100) for s in (0, 1)], reach=("done", "invalid")),
   E("C01_atdepth", q=({"K": 40},), t=({"K": 70},)), E("C01_atdepth_err", reach=("done", "invalid")),
   E("C01_childof", q=({"D": 8},), t=({"D": 33},), reach=("yes", "no", "invalid")),
   E("C01_childof", q=[{"at": a} for a in (31, 33, 40)], t=[{"at": a} for a in (31, 32, 33, 34, 48, 63, 64, 65, 100)], reach=("yes", "no", "invalid"))])
P("C02", "every pair of keys with arbitrary 32-bit components; lists of length 0..N-1",
  [E("C02_eq"), E("C02_hash", reach=("done", "eq")), E("C02_ctor", reach=("done", "rejected"), t=({"N": 40},))])
P("C03", "formats 6-8, 0..EB-1 and 255, 256, 257, 300, 1000 extra bytes, every value of every field, every 32-bit raw coordinate, scale 1 (and six power-of-two scales) with offset 0",
  [E("C03_pack", q=({}, {"wide": 1}), t=({"EB": 12}, {"wide": 1})), E("C03_unpack", q=({}, {"wide": 1}), t=({"EB": 12}, {"wide": 1})), E("C03_scaled")])
P("C04", "store/read formulas: every double coordinate, every positive finite scale, every finite offset, each axis; identity and half-step claims: S scales from a list (0.01, 0.001, 1, ...), every 32-bit stored value, every offset up to 1e10 scale steps",
  [E("C04_store", opts=("--no-merge",), reach=("done", "rejected")), E("C04_read"), E("C04_nearest", opts=("--lra",), q=({"S": 3},), t=({"S": 14},), weight=3), E("C04_restore", opts=("--lra",), q=({"S": 3},), t=({"S": 14},), weight=3)])
P("C05", "every setter from an arbitrary state of all attributes with an arbitrary argument; formats 6-8; up to EB extra bytes; extra-byte vectors of every length up to EB and those plus 256 and 65536",
  [E("C05_plain"), E("C05_bits", reach=("done", "rejected")), E("C05_colour", reach=("done", "rejected")), E("C05_eb", reach=("done", "rejected"), t=({"EB": 10},)),
   E("C05_ctor", reach=("done", "rejected")), E("C05_degrees", tq=300, reach=("done", "rejected")), E("C05_angle", opts=("--lra",))])
P("C06", "all attribute values, all pairs of formats 6-8, all 256 target format ids, up to EB-1 extra bytes, and 255, 256, 257, 300 and 1000 (any value of one byte at seven positions)",
  [E("C06_wide", reach=("done", "eq")), E("C06_copy", t=({"EB": 8},)), E("C06_copyeq", t=({"EB": 8},)), E("C06_eq", reach=("done", "eq")), E("C06_tol", reach=("done", "eq")), E("C06_conv", reach=("done", "rejected"), t=({"EB": 8},))])
P("C07", "collections of up to 3 points with arbitrary attribute values, formats 6-8, up to 2 extra bytes, up to 3 additions; bulk vectors of up to 3 elements and the right length plus 256 or 65536; raw data up to BYTES-1 bytes",
  [E("C07_add", weight=5), E("C07_samelen"), E("C07_ctor", reach=("done", "rejected")), E("C07_fmt", reach=("done", "rejected")), E("C07_bulk", reach=("done", "rejected"), weight=5),
   E("C07_conv", reach=("done", "rejected"), weight=5), E("C07_pack", weight=3, t=({"N": 7},)), E("C07_partial", reach=("done", "rejected"), weight=4, t=({"BYTES": 260},)), E("C07_within", weight=3),
   E("C07_many", tq=400, opts=MANY, samples=1, weight=9, mem=6000)])
P("C08", "boxes and points with arbitrary non-NaN double bounds (including infinities); lists of length 0..N-1",
  [E("C08_table"), E("C08_contains"), E("C08_intersects"), E("C08_laws", reach=("done", "trans", "share")), E("C08_ctor6", reach=("done", "rejected")),
   E("C08_ctor4", reach=("done", "rejected")), E("C08_misc", reach=("done", "len"))])
P("C09", "keys of depth 0..D-1 and eleven depths up to 100 with any 32-bit components; header bounds up to 1e12 in magnitude; predicates: H headers x K keys, all query boxes and points; tiling: depths 0..D-1 on one axis, bounds up to 1e7",
  [E("C09_span"), E("C09_box", t=({"D": 32},)), E("C09_pred", t=({"H": 3, "K": 9},)), E("C09_tile", opts=("--lra",), q=({"D": 3},), t=({"D": 5},)), E("C09_resolution")])
P("C10", "every value of every numeric attribute, flag, count and offset; identifiers of NUL-free text up to their full length (6 length combinations); every header version, size, encoding and format",
  [E("C10_convert", reach=("done", "rejected")), E("C10_reject", reach=("done", "rejected")), E("C10_ident", reach=("done", "rejected")), E("C10_file")])
P("C11", "up to N-1 extra-byte dimensions of every defined type; totals and descriptor counts on each side of the 16-bit limits, in configurations and Writer overrides; every format id, extra-byte count and record length; every descriptor field value (one-character strings)",
  [E("C11_sum", t=({"N": 4},)), E("C11_undoc"), E("C11_badtype", reach=("done", "rejected")), E("C11_format", reach=("done", "rejected")), E("C11_consistent", t=({"N": 3},)), E("C11_eq", reach=("done", "eq")), E("C11_limits", opts=MANY, tq=400, samples=4, reach=("done", "rejected")),
   E("C11_long", opts=MANY, tq=400, samples=4, reach=("done", "rejected"))])
P("C12", "formats 6-8 (and every format id), up to EB-1 extra-byte dimensions, every non-rejected double value",
  [E("C12_count", reach=("done", "rejected"), t=({"EB": 12},)), E("C12_set", reach=("done", "rejected")), E("C12_extent", reach=("done", "rejected")), E("C12_equal", reach=("done", "eq")), E("C12_store", t=({"EB": 6},)),
   E("C12_mismatch", reach=("done", "rejected")), E("C12_convert", reach=("done", "rejected")), E("C12_file"), E("C12_many", q=({"ext": 0}, {"ext": 1}), tq=400, opts=MANY, samples=1)])
P("C13", "every value of every field; formats 6-8, with and without WKT, extra bytes and extended statistics",
  [E("C13_record"), E("C13_file"), E("C13_place", reach=("done", "rejected"))])
P("C14", "all values of every Entry field", [E("C14_pack"), E("C14_class", reach=("done", "page")), E("C14_equal", reach=("done", "eq"))])
P("C15", "N additions of keys of depth up to D with any x, y, z, each on any ancestor page, one point of arbitrary bytes each; re-added keys replace",
  [E("C15_nodes", q=({"N": 2, "D": 3}, {"N": 3, "D": 1}), t=({"N": 3, "D": 2}, {"N": 2, "D": 5}), reach=("done", "absent")),
   E("C15_many", q=({"shape": 0, "N": 300}, {"shape": 1, "N": 300}, {"shape": 2, "N": 2100}, {"shape": 3, "N": 60}, {"shape": 4, "N": 300}), tq=400, opts=MANY, samples=1)])
P("C16", "up to N nodes on any ancestor page of a 4-level chain, 1-2 points of arbitrary bytes each; formats 6-8, up to EB-1 extra bytes, WKT of length up to W-1, with and without extended statistics; LAZ: up to N chunks of 0-2 points",
  [E("C16_copc", t=({"N": 3, "F": 3, "EB": 3, "W": 3},)), E("C16_laz"),
   E("C16_many", q=({"shape": 0, "N": 300}, {"shape": 1, "N": 300}, {"shape": 2, "N": 2100}, {"shape": 3, "N": 60}, {"shape": 4, "N": 300}), tq=400, opts=MANY, samples=1)])
P("C17", "N nodes of 1..P points of arbitrary bytes, each on the root or its own page, added raw, as points or compressed; formats 6-8, up to EB-1 extra bytes; absent keys of depth up to 2",
  [E("C17_data", t=({"N": 3, "P": 3},)), E("C17_absent"),
   E("C17_many", q=({"how": 0}, {"how": 2, "objects": 1}), t=({"how": 0}, {"how": 1}, {"how": 2, "objects": 2}), tq=400, opts=MANY, samples=1, mem=8000, weight=9)])
P("C18", "N nodes on any of their ancestor pages, M moves of any of them to any ancestor page; rejected moves: any unknown key of depth up to 3, any page key that is not an ancestor",
  [E("C18_moves", q=({"N": 2, "M": 3}, {"N": 1, "M": 4, "B": 2}, {"N": 3, "M": 1}), t=({"N": 2, "M": 4}, {"N": 1, "M": 5, "B": 2}, {"N": 3, "M": 2}, {"N": 2, "M": 4, "B": 2}), weight=4), E("C18_reject", weight=2),
   E("C18_many", q=[{"from": f, "to": t} for f, t in ((0, 2), (1, 0), (2, 1), (0, 1))], tq=400, opts=MANY, samples=1)])
P("C19", "files of N nodes along one branch (any x, y, z), each on any ancestor page; every sequence of Q lookups, listings and reads over the keys of the branch and keys beside it",
  [E("C19_order", q=[{"Q": 2, "N": 3, "A": a} for a in (0, 1, 2)] + [{"Q": 2, "N": 2, "A": a} for a in (3, 4, 5, 6)], t=[{"Q": 3, "N": 2, "A": a} for a in range(7)] + [{"Q": 2, "N": 3, "A": a} for a in range(7)], weight=4)])
P("C20", "every spacing (0 or 1e-100..1e100) and every non-NaN requested resolution; up to N nodes at depths 0..D (also with empty levels)",
  [E("C20_resolution", q=({"N": 3, "D": 3}, {"N": 2, "D": 12, "gap": 1}), t=({"N": 4, "D": 4}, {"N": 2, "D": 20, "gap": 1}), reach=("done", "cut", "empty"), weight=3),
   E("C20_resolution", q=({"table": 1, "N": 2, "D": 3, "gap": 1}, {"table": 2, "N": 2, "D": 40, "gap": 1}), t=({"table": 1, "N": 2, "D": 4}, {"table": 2, "N": 2, "D": 31, "gap": 1}, {"table": 2, "N": 2, "D": 63, "gap": 1}), reach=("done", "cut", "empty"))])
P("C21", "every query box; files of N concrete nodes with points of arbitrary bytes and every raw coordinate inside the node's cube, every level limit; collections of up to N-1 points with any non-NaN or NaN coordinates",
  [E("C21_file", opts=("--lra",), q=[{"N": 2, "first": f, "L": 3} for f in range(5)] + [{"N": 1, "first": 1, "P": 2}], t=[{"N": 2, "first": f, "L": 4, "P": 2} for f in range(5)] + [{"N": 3, "first": f} for f in range(5)], reach=("done", "some"), weight=5), E("C21_points", t=({"N": 6},))])
P("C31", "files of N nodes with P points of every raw coordinate, header boxes of three shapes, both modes; updates: every header box and point (non-NaN)",
  [E("C31_validate", opts=("--lra",), q=[{"N": 1, "first": f, "P": 2, "H": 3} for f in range(6)] + [{"N": 2, "first": f} for f in (0, 1, 4)], t=[{"N": 2, "first": f, "P": 2, "H": 3} for f in range(6)] + [{"N": 3, "first": f, "H": 3} for f in range(6)], reach=("valid", "invalid"), weight=3),
   E("C31_report", opts=("--lra",), q=[{"N": 1, "first": f, "P": 2} for f in (0, 1, 2)] + [{"N": 1, "first": f} for f in (3, 4)], t=[{"N": 1, "first": f, "P": 2, "H": 3} for f in range(6)] + [{"N": 2, "first": f} for f in range(6)], reach=("valid", "invalid"), weight=3), E("C31_update"), E("C31_outside", reach=("done", "beyond"))])
P("C25", "all subsets of overrides (formats 6-8, 0-2 extra-byte dimensions) with arbitrary header, info, extent values; stream and file writers, every copying constructor and assignment, changes through each holder; every format id",
  [E("C25_override", q=[{"F0": f, "E0": f % 2, "M": 8} for f in range(3)] + [{"F0": 1, "E0": 1, "M": 8, "D": 1}], t=[{"F0": f, "E0": e, "M": 8, "D": d} for f in range(3) for e in range(3) for d in range(2)], weight=4), E("C25_alias", t=({"F": 3},), weight=2), E("C25_reader"), E("C25_laz"), E("C25_header"), E("C25_format", reach=("done", "rejected"))])
P("C22", "up to N chunks of 0..P-1 points of arbitrary bytes, added as points or compressed; formats 6-8, extra bytes, WKT of 0 or 2 characters; every non-positive compressed count; mismatching points of formats 6-8 and 0-9 extra bytes",
  [E("C22_data", q=({"N": 2, "P": 3},), t=({"N": 3, "P": 3}, {"N": 1, "P": 6}, {"N": 2, "P": 2, "EBV": 9}), weight=2), E("C22_mismatch", reach=("done", "rejected")), E("C22_disk"),
   E("C22_many", q=({}, {"N": 66000, "chunks": 300}), t=({}, {"N": 66000, "chunks": 66000}), tq=400, opts=MANY, samples=1)])
P("C27", "buffers of 0..N-1 records of arbitrary bytes, formats 6-8, record lengths up to 338 bytes (thorough 638), every form of call; partial records of any tested remainder; K chunks in one stream read K times in any order",
  [E("C27_compress", q=({"E": 6, "N": 3},), t=({"E": 8, "N": 4},)), E("C27_partial", q=({"R": 4},), t=({"R": 30},), reach=("rejected",)), E("C27_decompress", q=({"E": 6, "N": 3},), t=({"E": 8, "N": 4},)),
   E("C27_chunks", q=({"E": 6, "K": 2},), t=({"E": 8, "K": 3},)), E("C27_many", q=[{"how": 0}, {"how": 1, "N": 40000}, {"how": 2}], tq=400, opts=MANY, samples=1)])
P("C24", "up to N-1 valid additions with one (thorough: two) rejected additions of 12 kinds at any position, any invalid or non-ancestor key of depth up to 4, any non-positive count, failed streams; COPC and plain LAZ",
  [E("C24_reject", q=[{"F": f, "EB": e, "N": 3} for f, e in ((0, 1), (1, 0), (1, 2))], t=[{"F": f, "EB": e, "N": 3} for f, e in ((0, 0), (0, 6), (2, 1))] + [{"F": 0, "EB": 1, "N": 2, "T": 2}, {"F": 0, "EB": 1, "N": 4}], weight=2), E("C24_closed"), E("C24_laz")])
P("C28", "up to N-1 additions, then every number of closes up to M-1, destruction, in memory and on disk; formats 6-8, extra bytes, WKT, extended statistics",
  [E("C28_copc", t=({"F": 3, "N": 4},), weight=2), E("C28_laz", t=({"F": 3, "N": 4},))])
P("C23", "arbitrary bytes: a root page of N entries, up to B bytes of records, extents, chunk headers; every truncation of four whole files; counts, lengths, offsets and record lengths from lists of extreme values or any value past the end of the file; nesting of pages as deep as such a file allows",
  [E("C23_truncate", q=({"copc": 1, "W": 1}, {"copc": 0}), t=({"copc": 1, "W": 4}, {"copc": 0}, {"copc": 1, "W": 4, "F": 2}), weight=2), E("C23_vlrs"), E("C23_record"), E("C23_page", q=({"N": 1}, {"N": 2}), t=({"N": 1}, {"N": 2}, {"N": 3}), reach=("done", "rejected"), weight=2),
   E("C23_node", reach=("done", "rejected")), E("C23_unpack", t=({"B": 400},), reach=("done", "rejected")), E("C23_point"), E("C23_extents", t=({"B": 200},), reach=("done", "rejected")), E("C23_chunk", t=({"B": 400},), reach=("done", "rejected"))])
P("C26", "every double bit pattern of every component (NaN payloads of results excepted)", [E("C26_ops"), E("C26_eq"), E("C26_ctor")])

P("C30", "WKT of 0 to 300 arbitrary bytes, and of 65535 to 70000 bytes of which four are arbitrary; up to N-1 descriptors of every type with arbitrary fields (names and descriptions of 0 to 32 bytes), 100/341/342 plain ones; files with the records as VLR or EVLR in every order, with up to one look-alike; up to N extra records with arbitrary ids; every header value for the conversions",
  [E("C30_file", t=({"F": 3, "N": 3, "W": 5},), weight=2), E("C30_many", reach=("done", "rejected")), E("C30_long"), E("C30_placed", weight=2), E("C30_headers", t=({"N": 3},)), E("C30_convert"), E("C30_eq", reach=("done", "eq"))])

P("C33", "every value of every field of the pickled or exchanged objects (identifiers and WKT of a few lengths, formats 6-8, 0-2 extra bytes); collections of up to N-1 points under every index and slice; files of one node; subsets of overrides",
  [E(e) for e in ("C33_key", "C33_tree", "C33_keybox", "C33_box", "C33_vector", "C33_node")] + [E("C33_point", reach=("done", "rejected")), E("C33_point2"), E("C33_points"), E("C33_seq"), E("C33_pack"), E("C33_header"), E("C33_header2"), E("C33_scale"), E("C33_info"), E("C33_extent"), E("C33_extents"), E("C33_config"), E("C33_file", reach=("done", "read")), E("C33_names"), E("C33_override"), E("C33_laz"), E("C33_charvec")],
  assumptions=["pybind11 is absent: rt/pybind11 is a stand-in (overload resolution in two passes, implicit conversions, keyword arguments and defaults, return policies that copy, properties, pickling, slices) on a small model of Python values; the module's init function and every bound lambda are the real ones"])

P("C32", "files of up to N-1 nodes with every configuration value; each identifying field of the header and of the COPC records replaced by any value (header sizes from a list); any invalid key or negative size in any entry of a two-page hierarchy, before or after other calls",
  [E("C32_open", t=({"EB": 3, "N": 4},), weight=2), E("C32_ident", reach=("done", "rejected")), E("C32_records", reach=("done", "rejected")), E("C32_stream"), E("C32_listing", reach=("done", "page")), E("C32_later")])

P("C35", "files of up to N-1 nodes of one arbitrary record; the process ends after any number of write operations, or any write operation fails (wholly, after its first byte or before its last) with all later ones; closed once, twice or only destroyed; header bounds with any minimum and maximum",
  [E("C35_crash", q=({}, {"F": 1, "EB": 0, "W": 0, "X": 1}), t=[{"F": f, "EB": e, "W": w, "X": x, "N": 4} for f, e, w, x in ((0, 0, 0, 0), (1, 1, 2, 0), (2, 2, 0, 1), (0, 1, 300, 1))], reach=("done", "accepted", "rejected")),
   E("C35_fail", q=[{"part": p, **b} for b in ({}, {"F": 1, "EB": 0, "W": 0, "X": 1}) for p in range(3)] + [{"exc": 1}, {"exc": 1, "part": 1, "F": 1, "EB": 0, "W": 0, "X": 1}], t=[{"F": f, "EB": e, "W": w, "X": x, "N": 4, "part": p} for f, e, w, x in ((0, 0, 0, 0), (1, 1, 2, 0), (2, 2, 0, 1), (0, 1, 300, 1)) for p in range(3)] + [{"exc": 1, "part": p} for p in range(3)], weight=2),
   E("C35_laz", q=({}, {"exc": 1}), t=[{"exc": 1}] + [{"F": f, "EB": e, "W": w, "N": 4} for f, e, w in ((0, 0, 0), (1, 1, 2), (2, 2, 300))], reach=("done", "accepted", "rejected")), E("C35_throw", reach=("done", "rejected"))])

P("C36", "files of up to N-1 nodes of one arbitrary record; every length the file can be cut to; any read operation fails (wholly or half way; once or with all later ones); calls in several orders",
  [E("C36_truncate", q=({}, {"F": 1, "EB": 0, "W": 0, "X": 1}, {"plain": 1, "X": 1}), t=[{"F": f, "EB": e, "W": w, "X": x, "N": 4, "plain": p} for f, e, w, x in ((0, 0, 0, 0), (1, 1, 2, 0), (2, 2, 0, 1), (0, 1, 300, 1)) for p in range(2)], reach=("done", "rejected")),
   E("C36_fail", q=({}, {"F": 1, "EB": 0, "W": 0, "X": 1}, {"plain": 1}), t=[{"F": f, "EB": e, "W": w, "X": x, "N": 4, "plain": p} for f, e, w, x in ((0, 0, 0, 0), (1, 1, 2, 0), (2, 2, 0, 1), (0, 1, 300, 1)) for p in range(2)], reach=("done", "rejected", "opened", "partly")),
   E("C36_laz", t=[{"F": f, "EB": e, "W": w, "N": 4} for f, e, w in ((0, 0, 0), (1, 1, 2), (2, 2, 300))], reach=("done", "rejected", "partly"))])

P("C37", "N chunks of any size up to 2^31-1 bytes (any size up to 2^40 is offered) and any declared number of points up to 2^31-1 each, so files of up to 6 GiB and 6e9 points (thorough 8 GiB)",
  [E("C37_offsets", q=({"N": 3}, {"N": 2, "F": 1, "EB": 0, "X": 1}), t=({"N": 4}, {"N": 3, "F": 1, "EB": 0, "X": 1}, {"N": 4, "F": 2, "EB": 2}), reach=("done", "rejected", "beyond")), E("C37_laz", t=({"N": 4}, {"N": 3, "F": 1, "EB": 0}), reach=("done", "rejected")), E("C37_counts", t=({"N": 4},), reach=("done", "beyond"))])

P("C38", "files of N nodes of 1-2 arbitrary points on one or two pages with every configuration value (texts of a few lengths, 0-2 extra bytes, formats 6-8), copied compressed, raw or as points; LAZ files of up to N-1 chunks; COPC read as LAZ",
  [E("C38_copc", q=({}, {"F": 1, "EB": 2, "W": 0, "X": 0, "G": 0}, {"F": 2, "EB": 0, "W": 300, "G": 7}), t=[{"N": 3, "F": f, "EB": e, "W": w, "X": x, "G": g} for f, e, w, x, g in ((0, 2, 2, 1, 16), (1, 1, 0, 1, 3), (2, 2, 70, 0, 15), (2, 0, 0, 1, 0))]),
   E("C38_laz", q=({}, {"F": 1, "EB": 2, "W": 0, "G": 0}, {"F": 2, "EB": 0, "W": 300, "G": 7}), t=[{"N": 4, "F": f, "EB": e, "W": w, "G": g} for f, e, w, g in ((0, 2, 2, 16), (1, 1, 0, 3), (2, 2, 70, 15), (2, 0, 0, 0))])])

P("C39", "files of up to N-1 nodes; two contents of all fresh memory; every interleaving of the steps of two of: COPC writer, LAZ writer, COPC reader, LAZ reader, point collection",
  [E("C39_memory", q=({}, {"F": 1, "EB": 0, "W": 0, "X": 1}), t=[{"F": f, "EB": e, "W": w, "X": x, "N": 4} for f, e, w, x in ((0, 0, 0, 0), (1, 1, 2, 0), (2, 2, 0, 1), (0, 1, 300, 1))]),
   E("C39_others", q=[{"A": a} for a in range(4)], t=[{"A": a, "F": f, "X": x} for a in range(4) for f, x in ((1, 1), (2, 0))])])

P("C40", "files of up to N-1 nodes of one arbitrary record; seven kinds of files that can't be opened; every size at which the disk gets full",
  [E(n, q=q, t=[dict(a, N=4, F=f, X=x, EB=e, W=w) for a in q for f, x, e, w in ((1, 1, 0, 0), (2, 0, 2, 70))])
   for n, q in (("C40_closed", ({},)), ("C40_open", ({},)), ("C40_replace", ({},)), ("C40_full", ({}, {"laz": 1})), ("C40_fails", ({}, {"laz": 1})))])

P("C41", "every value of every attribute; entries with any key, offset, size and count, as entry, node and page; formats 6-8, up to EB-1 extra-byte dimensions; fixed identifiers",
  [E("C41_small"), E("C41_entry"), E("C41_extents", t=({"EB": 6},)), E("C41_header"), E("C41_point")])

P("C42", "files put together by the harness from the specifications: 13 kinds of foreign records or none, or 300 VLRs and 300 EVLRs of up to 70000 bytes, every rotation of the records forwards and backwards, each as VLR or EVLR; 7 page structures over keys of depth 0-3 with any x, y, z, page orders, entry orders, gaps, one or no empty node; four chunk orders forwards and backwards; every value of header and info fields and of all bytes that belong to nothing",
  [E("C42_records", q=({}, {"X": 1, "EB": 0, "U": 13}, {"X": 2, "F": 1, "U": 7}), t=[{"F": f, "EB": e, "W": w, "X": x, "L": l} for f, e, w, x, l in ((0, 2, 0, 0, 0), (1, 1, 300, 1, 2), (2, 2, 1, 2, 3), (2, 0, 3, 1, 1))], weight=2),
   E("C42_pages", q=[{"shape": i} for i in range(7)], t=[{"shape": i, "F": 1 + i % 2, "EB": i % 3} for i in range(7)]), E("C42_manyrecs", opts=MANY, samples=1, weight=2), E("C42_chunks", t=({}, {"F": 1, "EB": 0}, {"F": 2, "EB": 2})), E("C42_big", t=[{"D": d} for d in range(4)], reach=("done", "beyond"))])

P("C43", "files of five nodes on 7 page structures with any x, y, z (files put together by the harness); every byte of every page and chunk that the question is not about; entries of other nodes and pages that point past the end of the file, tried first; questions: opening, every node and an absent key, every page, listings, box and resolution queries at every level",
  [E("C43_node", q=[{"shape": i} for i in range(7)], t=[{"shape": i, "F": 1 + i % 2, "EB": i % 3} for i in range(7)]), E("C43_after", q=[{"shape": i} for i in range(7)]), E("C43_open", q=[{"shape": i} for i in (0, 6)]), E("C43_page", q=[{"shape": i} for i in range(1, 7)]), E("C43_query", q=[{"shape": i} for i in (0, 6)], reach=("done", "some"))])

P("C29", "up to N nodes, chunk sizes 1..N+1 and the default, up to 2 points per node with arbitrary coordinates and classifications, every completion order, every pattern of empty results, any resolution",
  [E("C29_read", q=({"N": 3},), t=({"N": 5},), reach=("done", "several")),
   E("C29_transform", q=({"N": 2, "how": 0}, {"N": 2, "how": 1}, {"N": 2, "how": 2}), t=({"N": 3, "how": 0}, {"N": 3, "how": 1}, {"N": 3, "how": 2}, {"N": 2, "how": 2, "full": 1}), reach=("done", "several", "minmax")),
   E("C29_rejected", q=({"N": 2},), reach=("done", "rejected")), E("C29_failing", q=({"N": 3},)), E("C29_formats", q=({"N": 2, "formats": 1},), t=({"N": 3, "formats": 1},), reach=("done", "rejected")),
   E("C29_concat", q=({"N": 2, "limits": 1}, {"N": 2, "limits": 2}), t=tuple({"N": 3, "limits": i} for i in (0, 1, 2)) + ({"N": 2, "limits": 3}, {"N": 1, "full": 1})), E("C29_map", q=({"N": 2, "limits": 1}, {"N": 2, "limits": 2}), t=tuple({"N": 3, "limits": i} for i in (0, 1, 2)) + ({"N": 2, "limits": 3}, {"N": 1, "full": 1})), E("C29_badargs", q=({"N": 2},), reach=("rejected",))],
  custom="pycheck", technique="symbolic execution of the Python sources (proxy terms, re-execution) with Z3, concrete replay",
  assumptions=["copclib's compiled core is a stand-in (node lists, points, readers and writers that record calls); coordinates are finite", "the process pool is a stand-in: arguments and results are copied, tasks run in any order chosen by the solver, workers have their own copy of the modules, no worker dies"],
  level_note="Bounded: up to N nodes with 2 points each. The Python sources are executed on Z3 terms; copclib's compiled core and concurrent.futures are stand-ins.")

NOT_APPLICABLE = {
    "C34": "laz-perf's entropy coder is not in this sandbox, so its compression code cannot be encoded; the checks use an invertible stand-in codec",
}
