"""What each check builds, runs and assumes. Read by check.py and manifest.py."""

MON = "online monitor comparing every observed execution with an independent reference"

# id: dict(features=[builds], quick=seconds of workload, technique, rule, note)
CHECKS = {
    "C01": dict(features=["all,serde_facets"], quick=30, panic_any=True,
        technique="hostile-input stress under overflow checks, std unsafe-precondition checks, rlimits and crash/hang attribution; the same workload under AddressSanitizer and, for the validators with unsafe code, Miri",
        rule="corner, hostile (very long, deeply nested, one-character), grammar-derived and mutated inputs, each through every entry point, serializer and deserializer of every configuration of its family; a case is non-trivial when at least one entry point exists for it",
        note="Every call runs in a worker process with arithmetic overflow and debug assertions on; panics, aborts, signals, stack overflows, runaway memory (6 GB) and stalls are attributed to one input and one target and reproduced alone before they are reported. Sampled inputs, no proof."),
    "C02": dict(features=["all"], quick=25,
        technique="differential monitor across the entry points of one type",
        rule="each input goes through borrowed, owned and validate-only entry points and, where the datum can be presented as another type (bytes, char, other integer widths, number as text, JSON as text), through those too; non-trivial when the type has an entry point for it",
        note="Compares verdict, value and error of the real entry points with each other; needs no reference."),
    "C03": dict(features=["fam_base"], quick=15, rule="all short strings over a reduced alphabet, encodings of random bytes with padding and alphabet edits; non-trivial when the reference decides it"),
    "C04": dict(features=["fam_base"], quick=15, rule="as C03, the decoded bytes being compared"),
    "C05": dict(features=["fam_int"], quick=15, rule="boundary values of every bound and width +-3, random values, and texts of them with signs, leading zeros, other-script digits, padding and edits; non-trivial when the reference decides it"),
    "C06": dict(features=["fam_number"], quick=15, rule="bit patterns around every bound, NaN, infinities, subnormals, and decimal texts; non-trivial when the reference decides it"),
    "C07": dict(features=["fam_boolean"], quick=12, rule="every string of up to three symbols of a reduced alphabet, all case patterns of the accepted words and their neighbours, all numbers and characters near them"),
    "C08": dict(features=["fam_unit", "fam_unit,u128_units"], quick=12, rule="amount x blank x unit texts in exact decimal arithmetic with every unit, case pattern and boundary; both with and without the byte-unit-u128 feature"),
    "C09": dict(features=["fam_linetext"], quick=30, rule="all strings up to length 5 over blanks, control and plain characters, and longer random mixtures, against a reference written from the documentation"),
    "C10": dict(features=["fam_length"], quick=14, rule="collections of every supported kind with every size around every bound, plain and after histories of insertions, removals and duplicates, with null, nested and zero-sized elements, built in memory and read from documents"),
    "C11": dict(features=["fam_hex"], quick=15, rule="MAC and UUID texts of every separator placement, case pattern and length, with edits"),
    "C12": dict(features=["fam_ip"], quick=15, rule="addresses in and beside every block, in every spelling of the grammar, with ports and edits"),
    "C13": dict(features=["locality"], quick=10, rule="both ends +-3 of every block, every top half-word of IPv6, 258 addresses of every IPv4 /16 (all 2^32 in the thorough tier) with their mapped and compatible forms, domain texts over a reduced alphabet"),
    "C14": dict(features=["fam_domain"], quick=20, rule="grammar-derived names, IDN spellings, boundary lengths, address spellings, ports, every ASCII character in every position, with edits"),
    "C15": dict(features=["fam_host"], quick=20, rule="as C14 plus IPv6 literals and bracket placements"),
    "C16": dict(features=["fam_email"], quick=25, rule="grammar-derived addresses with comments, quoted parts, literals and boundary lengths, all short strings over the structural characters, with edits"),
    "C17": dict(features=["fam_ip,fam_domain,fam_host,fam_email,fam_hex,fam_json,canon_facets"], quick=20, technique="round-trip monitor over live accepted values", rule="every input the type accepts is written canonically and read back; non-trivial when it was accepted", note="Canonical text is compared with an independent rendering where one is specified, read back by the real parser and compared; only accepted inputs count."),
    "C18": dict(features=["fam_url"], quick=15, rule="URLs of every scheme, authority shape, local name and delimiter, relative references, and edits"),
    "C19": dict(features=["fam_phone"], quick=35, rule="national and international spellings of numbers of many countries, valid and near-valid, single and multi-country configurations"),
    "C20": dict(features=["fam_delegate,fam_json"], quick=28, rule="inputs of each engine's grammar and edits; verdict, value and message compared with a direct call of the engine"),
    "C21": dict(features=["all,serde_facets"], quick=25, technique="differential monitor: deserialization against parsing the same datum", rule="each datum is presented as borrowed, transient and owned text, bytes, every integer width and as a JSON document, to human-readable and compact deserializers; non-trivial when at least one presentation was compared", note="Differential against the real parse entry points."),
    "C22": dict(features=["all,serde_facets"], quick=20, technique="recording serializer with round-trip monitor", rule="every accepted value is serialized with a recording serializer (human-readable and compact) and serde_json, its form compared with the canonical one and read back; non-trivial when the value was accepted", note="Only accepted inputs count."),
    "C23": dict(features=["all,serde_facets"], quick=22, technique="differential monitor of the wrapper against parsing, documents with injected invalid fields", rule="each datum is converted and deserialized into validators::Result and compared with parsing it; multi-field documents mix valid and invalid data; non-trivial when a wrapper was produced", note="Differential against the real parse entry points."),
    "C24": dict(features=["all,web_facets"], quick=22, technique="differential monitor of the web front ends against parsing, with a running Rocket application and Axum responses", rule="each text goes through FromParam, FromFormField, whole forms (percent-encoded), lists, the Result wrapper and the Axum response of its error; a running Rocket application gets it as a path parameter and within forms of 29 fields; non-trivial when the type has web front ends", note="Differential against the real parse entry points; the application is driven in-process (local client), no sockets."),
    "C25": dict(features=["all"], quick=25, technique="monitor of the reported variant against the set of rules the reference finds broken", rule="inputs the reference rejects with a known set of broken rules; non-trivial when such an input was rejected", note="Where several rules are broken any of them may be reported; messages must be non-empty and, within a validator, different for different reasons."),
    "C26": dict(quick=0,
        technique="compile-time monitor: every probe declaration is given to the real derive macro and the compiler's verdict and messages observed, accepted ones run",
        rule="declarations of every validator x option x value x field shape x attribute spelling, each known from the documentation to be legal or illegal, with and without the serde and rocket features; legal ones that must mean the same are run on the same inputs; every probe is non-trivial",
        note="The macro runs inside the compiler, so its executions are observed there: a legal declaration must compile, provide the documented methods and traits and behave as the declaration written in full; an illegal one must be refused with an error on its own lines. Enumerated within a grid of options, not all token sequences."),
    "C27": dict(features=["all,serde_facets"], quick=20, technique="multi-thread and multi-process result log compared offline with a sequential run; ThreadSanitizer (instrumented std) on the same calls", rule="calls made from 2..16 threads with a common start and random delays, compared with the same calls made alone in another order and in other processes; also each input twice in a row", note="Interleavings are sampled; the evidence counts distinct ones."),
    "C28": dict(quick=0,
        technique="build-and-run monitor over feature sets: each is built on its own (no_std library with its own panic handler, with and without derive) and its validators run",
        rule="each validator feature alone, with and without std, derive and serde, and random pairs (thorough: rocket, axum, byte-unit-u128, full, all-validators too); a feature set is non-trivial when it was built and its probe ran",
        note="Each feature set is a separate build by the real cargo; the probe uses every validator the set should provide. Random pairs are sampled."),
    "C29": dict(features=["model"], quick=8, rule="texts near dotted quads (all strings of up to 8 symbols over a reduced alphabet), addresses with every pattern of zero groups and every special prefix, domains; pairs and triples of hosts for the laws; non-trivial when the reference decides it"),
    "C30": dict(features=["model"], quick=8, rule="every power of two +-4 of every integer width, both ends of each, all 8-bit values, every exponent of f32 and f64 with boundary mantissas, lengths around every power of two, and random values; twelve types written by hand which write one, two or all of the methods", technique="monitor recording every call that reaches a type written by hand", note="Expected calls are computed from the value alone; the widening of f32 is computed from its fields. Values are sampled beyond the corner sets."),
    "C31": dict(features=["all,serde_facets,meter", "fam_linetext,meter"], quick=24, technique="counting allocator and thread clock around every call: memory left, at its highest and in all, and time against an input eight times shorter", rule="every input (short, ordinary and up to 70,000 characters) through every entry point, serializer and deserializer; a case is non-trivial when a call was measured", note="Memory limits are about three times the most seen on the unchanged tree (400 bytes for each byte of input, 2000 for JSON documents); time is only judged when an input of 32,768 characters takes over 15 ms and over 32 times as long as one of 4,096, three times over. The delegated engines are measured with the rest."),
}
for c in CHECKS.values():
    c.setdefault("technique", MON)
    c.setdefault("note", "The reference is written from the documentation, not from the code; inputs are sampled (corner sets are complete within their stated bounds), so absence of a violation is not a proof.")

READY = list(CHECKS)
NOT_APPLICABLE = {p: "check not built yet" for p in CHECKS if p not in READY}
