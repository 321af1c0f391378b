"""Per-property simulation plans: how many runs, in which environments."""
def P(bin="sim", **env):
    return {"bin": bin, "env": {k: str(v) for k, v in env.items()}}

HWALL = [P(SIM_CPU=7), P(SIM_CPU=0), P(SIM_CPU=1), P(SIM_CPU=2), P("sim_min", SIM_CPU=0)]
PLAN = {}
def prop(id, rule, quick, thorough, personalities=HWALL, qb=40, tb=500, **kw):
    PLAN[id] = dict(rule=rule, quick={"runs": quick, "budget": qb}, thorough={"runs": thorough, "budget": tb}, personalities=personalities, **kw)

prop("C01", "one run = 1..3 interleaved transform sessions under a seeded schedule; non-trivial when a session with non-empty input ran to completion and matched the reference", 24000, 2000000)
prop("C02", "one run = 1..3 interleaved hash/MAC sessions; non-trivial when one hashed a non-empty message to completion", 24000, 2000000)
prop("C03", "one run = 1..3 interleaved authenticated transforms; non-trivial when one processed a non-empty message to its tag", 24000, 2000000)
prop("C16", "one run = 1..3 interleaved generators; non-trivial when bytes were requested", 24000, 2000000)
prop("C19", "one run = 1..3 interleaved compression sessions; non-trivial when a non-empty message was processed, or refused for want of zlib", 12000, 1000000, personalities=HWALL + [P("sim_nosys", SIM_NOSYS=1, SIM_NOZ=1, SIM_CPU=7)])
prop("C13", "one run = one object driven to a random point and erased (or one erasing function), executed twice with secrets that differ; non-trivial when memory reachable from the object was compared", 24000, 2000000)
prop("C04", "one run = 1..3 associations exchanging messages over a faulty network; non-trivial when at least one packet was delivered", 24000, 2000000)
prop("C05", "one run = one input channel carrying 1..4 framed messages through transform_channel/hash_channel to one output channel, over faulty descriptors; non-trivial when a non-empty message was processed", 16000, 1000000)
ENT = [P(SIM_CPU=7), P("sim_nosys", SIM_NOSYS=1, SIM_CPU=7), P("sim_nosys", SIM_NOSYS=1, SIM_CPU=7, SIM_DEV=2), P("sim_nosys", SIM_NOSYS=1, SIM_CPU=0, SIM_DEV=13),
       P("sim_nosys", SIM_NOSYS=1, SIM_CPU=7, SIM_DEV=24, SIM_HW=1), P("sim_nosys", SIM_NOSYS=1, SIM_CPU=4, SIM_DEV=2, SIM_HW=3),
       P("sim_nosys", SIM_NOSYS=1, SIM_CPU=4, SIM_DEV=2, SIM_HW=4), P(SIM_CPU=0)]
prop("C06", "one run = a history of opens, requests and wipes of the entropy sources under faults; non-trivial when bytes were delivered", 40000, 3000000, personalities=ENT)
GEN = [P(SIM_CPU=7)]
prop("C07", "one run = one key generation under a hostile generator; non-trivial when a key was produced and validated or the failure was propagated", 8000, 400000, personalities=GEN)
prop("C08", "one run = parties running DH, RSA or Paillier over a faulty network; non-trivial when an exchange completed", 8000, 400000, personalities=GEN)
prop("C09", "one run = 1..3 interleaved clients with a collection forced at up to every allocation of the primitives; non-trivial when a client completed on non-empty data", 12000, 800000)
prop("C10", "one run = 2..3 threads under a seeded scheduler with preemption inside library calls; non-trivial when a client completed on non-empty data", 8000, 500000)
prop("C11", "one run = a client hit by a failing allocation or an asynchronous exception, then unrelated work; non-trivial when the fault fired", 12000, 800000)
prop("C12", "one run = 2..8 clients completed, abandoned or wiped, then dropped; every run is non-trivial", 12000, 800000)
prop("C15", "one run = one encoded, padded or compressed message, possibly corrupted, decoded twice under different fragmentations; every run is non-trivial", 24000, 2000000)
prop("C17", "one run = one counter-mode stream driven to and past the end of its counter; non-trivial when the counter was exhausted", 3000, 200000)
prop("C18", "one run = a series of calls with ranges, offsets or sizes outside what is allowed, next to a legitimate neighbour; non-trivial when a call was refused", 24000, 2000000)
prop("C20", "one run = one comparison or tag verification repeated with contents that differ, on a machine whose clock counts instructions; non-trivial when the clock advanced through the call", 1000, 60000)
prop("C22", "one run = one or two objects given a stream of 220 kB or more in small fragments, their output being taken; non-trivial when one object processed over 60 kB", 1600, 100000)
CPUS = [P(SIM_CPU=c) for c in (7, 0, 1, 2, 3, 4)] + [P("sim_min", SIM_CPU=0)]
prop("C14", "one run = the same seed executed on seven simulated machines (every combination of AES and carry-less multiply instructions, and a portable build); non-trivial when the sessions completed", 4000, 300000, personalities=CPUS, cross=True)

# Long histories (lengths beyond 2^31 and 2^32, exhausted 3-byte counters): one shard per scenario,
# built without AddressSanitizer (the giant buffers are surrounded by inaccessible pages).
def long(id, quick, thorough=(), truns=3):
    def pers(x):
        name, _, mode = x.partition("/")
        return P("sim_fast", SIM_CPU=7, SIM_LONG=name, **({"SIM_MODE": mode} if mode else {}))
    PLAN[id]["long"] = {"quick": [(pers(x), 1) for x in quick],
                        "thorough": [(pers(x), truns) for x in tuple(quick) + tuple(thorough)]}
long("C01", ["giant/0", "giant/1", "giant/2"])
HASHES = ["sha3", "sha256", "sha224", "sha1", "sha512", "sha384", "blake2s", "blake3", "ripemd160", "blake2b", "md5", "siphash", "siphash128"]
long("C02", [h + "/" + m for h in HASHES for m in ("one", "cut")])
long("C03", ["chapoly", "gcm", "header"], ["gcm4g"])
long("C16", ["rng"])
long("C17", ["ctr3"])
long("C19", ["zlib/one", "zlib/cut"])
