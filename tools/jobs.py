"""Which analyses decide which property."""
import json, os

FLOW = ["mon", "hook", "flow_spec", "flow"]


def flow(*entries, **k):
    d = dict(name="flow-" + "-".join(e[2:] for e in entries), harness=FLOW, entries=list(entries))
    d.update(k)
    return d


# rules of other properties that also belong to a property, in jobs whose input is a caller's image buffer
BUFFER = {"C22": ["C02:frame dimensions and precision", "C02:number of components", "C06:each coded sample is the level-shifted pixel it represents",
                  "C06:each block is coded at its own position"]}
# the frame header carries the pair of factors an alias stands for
ALIASES = {"C20": ["C02:sampling factors"]}

GEOM = flow("h_geom", also=BUFFER)
REST = flow("h_restart")
SCANS = flow("h_scans")
DENS = flow("h_density")
FAIL = flow("h_fail", panics=("C07",))
EDGE = flow("h_edge", also=BUFFER)
LARGE = flow("h_large")
HUGE = flow("h_huge", secs=800)
HUGE2 = flow("h_huge_all", secs=3000)
ALIAS = flow("h_alias", also=ALIASES)
INTERVAL = flow("h_interval")
MIXED = flow("h_mixed")
MIXED2 = flow("h_mixed_more", secs=3000)
GEOM2 = flow("h_geom_more", secs=3000)
REST2 = flow("h_restart_more", secs=3000)
SCANS2 = flow("h_scans_more", secs=3000)



def misc(*entries, **k):
    d = dict(name="misc-" + "-".join(e[2:] for e in entries), harness=["mon", "none/hook", "misc"], entries=list(entries))
    d.update(k)
    return d


DIMS = misc("h_dims")
GATE = misc("h_gate")
CONF = misc("h_defaults", "h_setters", "h_addkeeps", panics=("C20",), also=ALIASES)
BADS = misc("h_badscans")
INPUT = misc("h_input", "h_input_buffer", "h_input_modes", "h_input_short", panics=("C08",))
APP = misc("h_app", "h_app_stream", "h_icc_empty", "h_icc_limit", panics=("C09",))
ICC = misc("h_icc", panics=("C09",))
ICC2 = misc("h_icc_all", panics=("C09",))


def tab(*entries, **k):
    d = dict(name="tab-" + "-".join(e[2:] for e in entries), harness=["mon", "none/hook", "refs", "tab"], entries=list(entries))
    d.update(k)
    return d


QUAL = tab("h_quality", "h_huffman", panics=("C15",))
QUANT = tab("h_custom", "h_quantize", panics=("C14",))
HUFF = tab("h_canonical", "h_deep", "h_flat", "h_one", panics=("C16",))
HUFF2 = tab("h_deep_all", panics=("C16",), secs=2000)


def coef(*entries, **k):
    d = dict(name="coef-" + "-".join(e[2:] for e in entries), harness=["mon", "none/hook", "refs", "coef"], entries=list(entries))
    d.update(k)
    return d


COEF = coef("h_runs", "h_values", "h_bands", "h_dc", "h_mixed_blocks", panics=("C18",))
COEFFAIL = coef("h_coef_fail", panics=("C07",))
CNT = dict(name="cnt", harness=["cnt"], entries=["h_cnt", "h_cnt_scans"], panics=("C17",))
BITSFAIL = dict(name="bitsfail", harness=["bits"], entries=["h_bits_fail"], panics=("C07",))
BITS = dict(name="bits", harness=["bits"], entries=["h_bits_all", "h_ff", "h_pad"], panics=("C03",))
FMT = flow("h_formats", panics=("C10",))
FMT2 = flow("h_formats_all", secs=2000, panics=("C10",))


def rows(*entries, **k):
    d = dict(name="planes-" + "-".join(e[2:] for e in entries), harness=["mon", "hook", "flow_spec", "planes"], entries=list(entries), panics=("C10",))
    d.update(k)
    return d


ROWS = rows("h_rows")
ROWS2 = rows("h_rows_more")
FDCT = dict(name="fdct", harness=["dct"], entries=["h_fdct"], panics=("C12",), shards=2)
SIMD = dict(name="simd", harness=["dct"], entries=["h_fdct_simd", "h_quant_ops"], panics=("C13",), shards=4)
YCC = dict(name="ycc", harness=["dct"], entries=["h_ycc"], panics=("C11",), shards=1)



def struct(f):
    return dict(name="structural-" + f, harness=[], entries=[], structural=True, features=f, shards=1)


IO = dict(name="io", harness=["io"], entries=["h_io", "h_io_ref"], features="std", panics=("C07",))
NOSTD = dict(name="nostd", harness=["nostd"], entries=["h_ref", "h_vec"], features="", panics=("C07", "C23"), also={"C23": ["C07:"]})

STRUCT = struct("simd,std")


def feat(job, f, **k):
    d = dict(job, features=f, base=job["name"], name=job["name"] + "[" + f + "]", panics=())
    d.update(k)
    return d


CONFIGS = ["", "std", "simd,std"]
PER_CONFIG = [BITS, FMT, misc("h_dims", "h_defaults"), INPUT, FAIL, SCANS]
C23JOBS = [NOSTD] + [struct(f) for f in CONFIGS + ["std,benchmark"]] + [feat(j, f) for j in PER_CONFIG for f in CONFIGS]

# property -> (quick jobs, additional jobs of the thorough tier)
TABLE = {
    "C01": ([GEOM, SCANS, ALIAS, MIXED, BITS, APP], [REST, GEOM2, REST2, SCANS2, MIXED2]),
    "C02": ([GEOM, REST, DENS, DIMS, ALIAS, MIXED, INTERVAL], [GEOM2, REST2, MIXED2]),
    "C03": ([BITS, REST], [COEF, GEOM, REST2]),
    "C04": ([REST, LARGE, INTERVAL, MIXED], [REST2, HUGE, HUGE2, MIXED2]),
    "C05": ([SCANS, MIXED], [SCANS2, GEOM, MIXED2]),
    "C06": ([GEOM, EDGE, ALIAS, MIXED], [HUGE, HUGE2, GEOM2, REST2, MIXED2]),
    "C07": ([FAIL, COEFFAIL, BITSFAIL, IO, NOSTD], []),
    "C08": ([INPUT], []),
    "C09": ([APP, ICC], [ICC2]),
    "C10": ([FMT, ROWS, MIXED], [FMT2, ROWS2, MIXED2]),
    "C11": ([YCC, FMT], []),
    "C12": ([FDCT], []),
    "C13": ([SIMD, FMT, ROWS], [FMT2, ROWS2]),
    "C14": ([QUANT, GEOM, MIXED], [GEOM2, REST2, MIXED2]),
    "C15": ([QUAL, DENS], []),
    "C16": ([HUFF, FDCT, GEOM, REST, MIXED], [HUFF2, GEOM2, REST2, SCANS2, MIXED2]),
    "C18": ([COEF, GEOM, SCANS, MIXED], [GEOM2, SCANS2, MIXED2]),
    "C17": ([CNT, GEOM, REST, SCANS, LARGE, MIXED], [HUGE, HUGE2, GEOM2, REST2, SCANS2, MIXED2]),
    "C19": ([GATE, FMT, EDGE, ROWS, MIXED], [FMT2, ROWS2, GEOM2, MIXED2]),
    "C20": ([CONF, BADS, ALIAS], []),
    "C21": ([STRUCT, FMT, SCANS], [GEOM, REST]),
    "C23": (C23JOBS, []),
    "C24": ([GEOM, REST, SCANS, DENS, FMT, ROWS, EDGE, INPUT, APP, QUAL, QUANT, HUFF, COEF, CNT, BITS, FDCT, YCC, DIMS, FAIL, LARGE, HUGE, IO, NOSTD, ALIAS, MIXED], [HUGE2, ICC, ICC2, GEOM2, REST2, SCANS2, HUFF2, MIXED2]),
    "C22": ([GEOM, EDGE, FMT, ROWS, MIXED], [GEOM2, MIXED2]),
}
LEVEL = {}
EXPLAIN = {}
NOTE = {}
NA = {}
TECH = {}
TECH_DEFAULT = "abstract interpretation of the compiler's MIR with a typestate monitor"


def jobs_for(pid, tier):
    q, t = TABLE[pid]
    return q + t if tier == "thorough" else q


def floors(pid, tier):
    return FLOORS.get(pid, {})


FLOORS = {}


def level(pid):
    return LEVEL.get(pid, "other")


def note(pid):
    return NOTE.get(pid, "Sound over the abstract domain within the partitions listed in DESIGN.md; trusts the analyser and its models of the standard library.")


def explain(pid):
    return EXPLAIN.get(pid, "abstract interpretation of the crate's MIR")


def known(pid, here):
    p = os.path.join(here, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)).get("findings", []) if e["property"] == pid]
