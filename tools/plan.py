"""What each property's check runs."""
import copy

ASSUMPTIONS = [
    "the cryptographic primitives (ed25519-zebra, p256, rsa, sha2, blake3) are correct",
    "symbolic tokens stand for all real ones: names, keys, values and times are made concrete by seeded random draws",
    "the harness's own application semantics (paths, mailboxes) represent all semantics",
]


# ------------------------------------------------------------------ corrupted traces
def _first(t, pred):
    return next((k for k, e in enumerate(t["ev"]) if pred(e)), None)


def _with(t, k, change, ident):
    c = copy.deepcopy(t)
    change(c["ev"][k])
    c["id"] = ident
    return c


def del_corruptions(pid):
    def flip(e):
        e["res"] = "err" if e["res"] == "ok" else "ok"

    def outlast(e):
        next(r for r in e["red"] if r["infos"])["infos"][0]["exp"] = 5

    def inflate(e):
        next(r for r in e["red"] if r["infos"])["infos"][0]["o"] = ["H"]

    def drop(e):
        next(r for r in e["red"] if r["infos"])["infos"] = []

    def ctl(e):
        e["ctl"] = "err"

    infos = lambda e: e["e"] == "end" and e["res"] == "ok" and any(r["infos"] for r in e["red"])
    ends = lambda e: e["e"] == "end" and e["res"] in ("ok", "err")
    return {
        "P01": [(lambda e: e["e"] == "sig" and e["res"] in ("ok", "err"), flip)],
        "P02": [(lambda e: e["e"] == "val" and e["res"] in ("ok", "err"), flip)],
        "P03": [(ends, flip)],
        "P04": [(infos, inflate)],
        "P05": [(infos, drop)],
        "P06": [(infos, inflate), (infos, drop)],
        "P07": [(infos, outlast)],
        "P18": [(lambda e: e["e"] == "end" and e["res"] == "ok", ctl)],
        "P19": [(lambda e: e["e"] == "made", flip), (ends, flip), (infos, inflate), (infos, drop), (infos, outlast)],
    }.get(pid, [(ends, flip)])


def cap_corruptions(pid):
    def flip(e):
        e["res"] = "err" if e["res"] == "ok" else "ok"

    def fewer(e):
        e["en"] = e["en"][1:]

    def view(e):
        e["res"]["ok"] = not e["res"]["ok"]

    def lose(e):
        e["out"] = e["out"][1:]

    return {
        "P08": [(lambda e: e["e"] == "row" and e["en"], fewer)],
        "P09": [(lambda e: e["e"] == "text", view), (lambda e: e["e"] == "render" and not (e["c"]["wild"] and e["c"]["form"] == "res"), view)],
        "P10": [(lambda e: e["e"] == "list", flip), (lambda e: e["e"] == "json", flip),
                (lambda e: e["e"] == "list" and e["res"] == "ok" and e["out"], lose)],
    }.get(pid, [])


def build_corruptions(pid):
    def flip(e):
        e["res"] = "err" if e["res"] == "ok" else "ok"

    def made(e):
        e.update(res="ok", nonce="none", text=0)

    def late(e):
        e["raw"]["exp"] = []

    def reuse(e):
        e["text"] += 1000

    def lost(e):
        e["out"]["prf"] = e["out"]["prf"][1:]

    def moved(e):
        e["out"]["caps"] = [[c[0] + "1" if c[0].startswith("prf:") else c[0], c[1], c[2]] for c in e["out"]["caps"]]

    signed = lambda e: e["e"] == "sign" and e["res"] == "ok"
    redel = lambda e: signed(e) and any(c[0].startswith("prf:") for c in e["out"]["caps"])
    if pid == "P06":
        return [(redel, lost), (redel, moved)]
    return [(lambda e: e["e"] == "build", flip), (signed, late), (lambda e: signed(e) and e["out"]["prf"], lost),
            (redel, moved), (lambda e: e["e"] == "sign" and e["res"] == "err", made)]


def store_corruptions(pid):
    def none(e):
        e["res"] = {"r": "none", "c": 0}

    def other(e):
        e["res"]["c"] += 7000

    def known(t):
        """a read of an entry that had been found or written before the read began"""
        seen, at = set(), {}
        for k, e in enumerate(t["ev"]):
            if e["e"] == "call":
                at[e["t"]] = set(seen)
            elif e["e"] == "ret" and e["res"]["r"] == "bytes" and e["res"]["c"] in at[e["t"]]:
                return k
            if e["e"] == "ret" and e["res"]["r"] in ("cid", "bytes"):
                seen.add(e["res"]["c"])

    known.whole = True

    def cite(e):
        e["cited"]["hash"] = "sha256"

    return [(lambda e: e["e"] == "ret" and e["res"]["r"] == "cid", other),
            (lambda e: e["e"] == "ret" and e["res"]["r"] == "bytes", other),
            (known, none), (lambda e: e["e"] == "cite", cite)]


def did_corruptions(pid):
    def none(e):
        e["res"] = "none" if e["res"] != "none" else "EdDSA|did:key:z6Mk"

    def other(e):
        e["res"] += "x"

    return [(lambda e: e["res"] != "none", none), (lambda e: e["res"] == "none", none), (lambda e: e["res"] != "none", other)]


def key_corruptions(pid):
    def flip(e):
        e["res"] = "err" if e["res"] == "ok" else "ok"

    def did(e):
        e["did"] += "x"

    return [(lambda e: e["e"] == "verify" and e["res"] == "ok", flip), (lambda e: e["e"] == "verify" and e["res"] == "err", flip),
            (lambda e: e["e"] == "sign", flip), (lambda e: e["e"] == "did", did)]


def wire_corruptions(pid):
    def flip(e):
        e["res"] = ["err" if r == "ok" else "ok" for r in e["res"]]

    def split(e):
        e["res"][1] = "err"

    def enc(e):
        e["enc"] += "x"

    def acc(e):
        e["acc"]["aud"] += "x"

    def cid(e):
        e["cids"][2][2] += "x"

    ok = lambda e: set(e["res"]) == {"ok"} and not e["odd"]
    return [(lambda e: set(e["res"]) == {"err"} and not e["odd"], lambda e: (flip(e), e.update(
                text="a", enc="a", again="equal", cids=[], want={}, acc={}, data="a", text2="a", sig=["ok", "ok"]))),
            (ok, flip), (ok, split), (ok, enc), (ok, acc), (ok, cid)]


def ipld_corruptions(pid):
    def flip(e):
        e["res"] = "err" if e["res"] == "ok" else "ok"

    def ver(e):
        e["c"]["ucv"] += "x"

    def text(e):
        e["text"] += "x"

    def alg(e):
        e["alg2"] = "EdDSA" if e["alg2"] != "EdDSA" else "ES256"

    def back(e):
        e["back"] += "x"

    def collide(t):
        ok = [k for k, e in enumerate(t["ev"]) if e["e"] == "prin" and e["res"] == "ok"]
        for k in ok[1:]:
            if t["ev"][k]["p"] != t["ev"][ok[0]]["p"]:
                collide.p = t["ev"][ok[0]]["p"]
                return k

    collide.whole = True
    move = lambda m: lambda e: e["e"] == "move" and e["m"] == m and e["res"] == "ok"
    return [(lambda e: move("toipld")(e) and e["did"] == "yes", flip), (move("toipld"), ver), (move("fromipld"), text), (move("parse"), text),
            (move("fromcbor"), ver), (lambda e: e["e"] == "varsig" and e["res"] == "ok", alg), (lambda e: e["e"] == "varsig" and e["res"] == "err", flip),
            (lambda e: e["e"] == "prefix", back), (lambda e: e["e"] == "prin" and e["res"] == "ok", back),
            (collide, lambda e: e.update(p=collide.p))]


def hostile_corruptions(pid):
    def panic(e):
        e["res"] = "panic"

    def hang(e):
        e["res"] = ""

    called = lambda e: e["e"] == "call" and e["res"] in ("ok", "err")
    return [(called, panic), (lambda e: called(e) and e["res"] == "err", hang)]


def hostile(src, shape, *ops):
    """one value and a line of calls, each on the value that the one before gave"""
    return {"steps": [{"o": "make", "src": src, "shape": shape}] +
            [{"o": o, "k": k + 1, "gives": k + 1 < len(ops)} for k, o in enumerate(ops)]}


CORRUPTIONS = {"hostile": hostile_corruptions, "wire": wire_corruptions, "ipld": ipld_corruptions, "del": del_corruptions, "cap": cap_corruptions, "build": build_corruptions, "store": store_corruptions,
               "did": did_corruptions, "key": key_corruptions}


def canaries(engine, traces, pid, base):
    """Copies of real traces with one recorded value changed: the specification must reject each."""
    out = []
    for pred, change in CORRUPTIONS.get(engine, lambda p: [])(pid):
        for t in traces:
            k = pred(t) if hasattr(pred, "whole") else _first(t, pred)
            if k is not None:
                bad = _with(t, k, change, base + len(out))
                if engine == "hostile":       # what follows may use the value that the call now did not give
                    del bad["ev"][k + 1:]
                out.append(bad)
                break
    return out


# ------------------------------------------------------------------ stages
def D(module, cfg=None, only=None, **kw):
    def stage(c):
        if only is None or only == c.tier:
            c.design(module, cfg, **kw)
    return stage


def S(gen, quick, thorough, depth=60, **kw):
    """simulated behaviours; thorough repeats with fresh seeds"""
    def stage(c):
        if c.thorough:
            left, k = thorough, 0
            while left > 0:
                c.simulated(gen, min(left, 20000), depth, seed=1000 + k, **kw)
                left -= 20000
                k += 1
        elif quick:
            c.simulated(gen, quick, depth, **kw)
    return stage


def E(gen, cfg=None, only=None, **kw):
    def stage(c):
        if only is None or only == c.tier:
            c.enumerated(gen, cfg, **kw)
    return stage


def F(key, scens, hang=120, **kw):
    """the scenarios of a recorded finding"""
    def stage(c):
        c.finding(key, [dict(s, finding=key) for s in scens], hang=hang, **kw)
    return stage


def G(**kw):
    return {"G_" + k: v for k, v in kw.items()}


CLEAN = G(NTOK=5, NOPS=2, FAULT=0, REDEL=25, WILD=60, CLAIMS=4, HIST=0)
REDEL = G(NTOK=5, NOPS=2, FAULT=1, REDEL=60, WILD=20, CLAIMS=3, HIST=0, MANY=8)
MANY = G(NTOK=5, NOPS=3, MANY=40, REDEL=60, FAULT=1)
FAN = G(NTOK=6, NOPS=2, FAULT=0, REDEL=10, WILD=8, CLAIMS=3, HIST=0, FAN=100)
HUGE = G(NTOK=5, NOPS=1, HUGE=100, FAN=100, CLAIMS=2, REDEL=60, FAULT=0, HIST=0)
HIST = G(NTOK=4, NOPS=12, FAULT=3, HIST=45)
AGAIN = G(NTOK=4, NOPS=14, FAULT=6, STOLEN=12, HIST=20, CONC=20, TWIN=3)
CONC = G(NTOK=4, NOPS=24, FAULT=3, HIST=25, CONC=65)
FAULTY = G(NTOK=4, NOPS=5, FAULT=12, HIST=10, TWIN=6)
WAIT = G(NTOK=6, NOPS=60, FAULT=1, HIST=5, WAIT=1)
DEEP = G(NTOK=10, NOPS=4, DEEP=100, FAULT=1)
FLOW = G(NTOK=12, NOPS=2, DEEP=100, KEEP=97, CLAIMS=3, FAULT=0, TWIN=0, REDEL=15, HIST=0)
BROAD = G(NTOK=15, NOPS=2, FAN=100, CLAIMS=1, KEEP=90, WILD=100, FAULT=0, TWIN=0, REDEL=8, HIST=0)
TWINS = G(NTOK=4, NOPS=3, FAULT=1, HIST=0, TWIN=35)
WINDOW = G(NTOK=4, NOPS=8, FAULT=8, HIST=0)

BUILD = {"engine": "build", "trace": "TraceBuild"}
STORE = {"engine": "store", "trace": "TraceStore"}
DID = {"engine": "did", "trace": "TraceDid"}
KEY = {"engine": "key", "trace": "TraceKeys"}
CAP = {"engine": "cap", "trace": "TraceCap"}
WIRE = {"engine": "wire", "trace": "TraceWire"}
HOSTILE = {"engine": "hostile", "trace": "TraceHostile"}
IPLD = {"engine": "ipld", "trace": "TraceIpld"}

LONG_DID = {"pre": "did:key:z", "body": "long:500000", "magic": "ed", "key": "good"}

PLAN = {
    "P01": [E("MCSig"), S("GenDel", 1500, 40000, env=FAULTY)],
    "P02": [E("MCWindow"), S("GenDel", 1500, 40000, env=WINDOW), S("GenDel", 32, 800, depth=100, env=WAIT)],
    "P03": [D("MCVerifier", "MCVerifier1"), E("MCWindow"), E("MCLink", only="quick", sample=4000), E("MCLink", only="thorough"),
            S("GenDel", 2500, 80000, env=FAULTY),
            S("GenDel", 300, 6000, env=DEEP), S("GenDel", 600, 20000, env=TWINS), S("GenDel", 200, 6000, env=MANY)],
    "P04": [E("MCClaims"), D("MCReduce", "MCReduceGreedy", expect_error="Sound"), E("MCReduce", "MCReduceQ", only="quick"),
            E("MCReduce", "MCReduceT", only="thorough"),
            E("MCFan", "MCFanQ", only="quick", sample=3000), E("MCFan", "MCFanT", only="thorough", sample=60000, timeout=3000),
            S("GenDel", 2500, 80000, env=CLEAN), S("GenDel", 1000, 40000, env=REDEL),
            S("GenDel", 500, 20000, env=FAN), S("GenDel", 300, 6000, env=BROAD), S("GenDel", 200, 6000, env=FLOW)],
    "P05": [E("MCClaims"), E("MCReduce", "MCReduceQ", only="quick"), E("MCReduce", "MCReduceT", only="thorough"),
            E("MCFan", "MCFanQ", only="quick", sample=3000), E("MCFan", "MCFanT", only="thorough", sample=60000, timeout=3000),
            S("GenDel", 2500, 80000, env=CLEAN), S("GenDel", 1000, 40000, env=REDEL),
            S("GenDel", 1500, 40000, env=FAN), S("GenDel", 300, 6000, env=BROAD), S("GenDel", 200, 6000, env=FLOW)],
    "P06": [E("MCClaims"), E("MCRedel", "MCRedelQ", only="quick"), E("MCRedel", "MCRedelT", only="thorough"), E("MCReduce", "MCReduceQ", only="quick"), E("MCReduce", "MCReduceT", only="thorough"),
            E("MCFan", "MCFanQ", only="quick", sample=3000), E("MCFan", "MCFanT", only="thorough", sample=60000, timeout=3000),
            S("GenDel", 2500, 80000, env=REDEL), S("GenDel", 500, 8000, env=MANY), S("GenDel", 240, 3000, env=HUGE),
            S("GenBuild", 800, 10000, depth=200, **BUILD)],
    "P07": [E("MCWindow"), S("GenDel", 2500, 60000, env=REDEL), S("GenDel", 1000, 20000, env=DEEP)],
    "P08": [D("MCCaps", "MCCapsQ", only="quick"), D("MCCaps", "MCCapsT", only="thorough"),
            S("GenCaps", 800, 20000, depth=5, env=G(N=30), **CAP), S("GenCaps", 40, 400, depth=5, env=G(N=150), **CAP)],
    "P09": [E("MCText", "MCTextQ", only="quick", **CAP), E("MCText", "MCTextT", only="thorough", timeout=3000, **CAP),
            S("GenText", 300, 6000, depth=40, env=G(N=30), **CAP), S("GenText", 40, 600, depth=40, env=G(N=30, LEN=40), **CAP),
            S("GenCaps", 400, 8000, depth=5, env=G(N=30), **CAP)],
    "P10": [E("MCMap", "MCMapQ", only="quick", **CAP), E("MCMap", "MCMapT", only="thorough", **CAP),
            S("GenMap", 800, 12000, depth=5, **CAP), S("GenMap", 100, 1500, depth=5, env=G(N=300, BAD=0), **CAP)],
    "P11": [E("MCWire", "MCWireQ", only="quick", **WIRE), E("MCWire", "MCWireT", only="thorough", sample=60000, timeout=3000, **WIRE),
            S("GenWire", 1200, 20000, **WIRE), S("GenWire", 400, 8000, env=G(EDITS=6), **WIRE)],
    "P12": [E("MCBuild", "MCBuildQ", only="quick", **BUILD), E("MCBuild", "MCBuildN", only="quick", **BUILD),
            E("MCBuild", "MCBuildT", only="thorough", **BUILD), E("MCBuild", "MCBuildNT", only="thorough", **BUILD),
            S("GenBuild", 2500, 60000, depth=200, env=G(N=30), **BUILD),
            S("GenBuild", 80, 800, depth=200, env=G(N=30, WAIT=5), **BUILD),
            S("GenBuild", 60, 1000, depth=400, env=G(N=250), **BUILD)],
    "P13": [D("MCStore", only="quick"), D("MCStore", "MCStoreT", only="thorough", timeout=3000),
            S("GenStore", 1500, 40000, depth=60, env=G(N=25), **STORE),
            S("GenStore", 300, 4000, depth=500, env=G(N=300, PAR=1, THREADS=6, CONTENTS=40), **STORE),
            S("GenStore", 200, 4000, depth=500, env=G(N=200, PAR=1, THREADS=7, CONTENTS=5), **STORE),
            S("GenStore", 8, 48, depth=5000, env=G(N=2500, CONTENTS=1500, BULK=1), **STORE)],
    "P14": [D("MCDid"), D("MCDid", "MCDidShort", expect_error="OwnMerit"),
            S("GenDid", 2500, 60000, depth=60, **DID),
            S("GenDid", 8, 64, depth=6000, env=G(N=3500, POOL=1500, LOOP=1, PARSERS=1, REAL=30), **DID),
            S("GenDid", 40, 400, depth=600, env=G(N=400, POOL=120, PARSERS=3), **DID)],
    "P15": [D("MCPrin"), E("MCIpld", "MCIpldQ", only="quick", **IPLD), E("MCIpld", "MCIpldT", only="thorough", **IPLD),
            S("GenIpld", 3000, 60000, **IPLD), S("GenIpld", 400, 8000, env=G(KIND=1, N=40), **IPLD),
            S("GenIpld", 200, 4000, env=G(KIND=2, N=20), **IPLD)],
    "P16": [D("MCCalls"), E("MCHostile", "MCHostileQ", only="quick", **HOSTILE), E("MCHostile", "MCHostileT", only="thorough", timeout=3000, **HOSTILE),
            S("GenHostile", 4000, 60000, **HOSTILE), S("GenHostile", 1000, 20000, env=G(PLAIN=20, N=50), **HOSTILE),
            F("deep-chain", [hostile("cid", {"form": "deep20000"}, "chaincid", "reduce")], hang=60, **HOSTILE),
            F("doubled-proofs", [hostile("cid", {"form": "doubled40"}, "chaincid", "reduce")], hang=15, **HOSTILE),
            F("base58-length", [hostile("did", LONG_DID, "resolve", "keyshow"),
                                hostile("cid", {"form": "long:1500000"}, "cite", "chaintok", "reduce")], hang=15, **HOSTILE)],
    "P17": [E("MCKeys", **KEY), S("GenKeys", 600, 15000, depth=60, **KEY)],
    "P18": [D("MCVerifier", "MCVerifier1", only="quick"), D("MCVerifier", "MCVerifier2", only="thorough"),
            S("GenDel", 1500, 60000, env=HIST), S("GenDel", 1500, 60000, env=CONC),
            S("GenDel", 800, 20000, env=AGAIN, pristine=True), S("GenDel", 32, 800, depth=100, env=WAIT)],
    "P19": [D("MCSystem", "MCSystem2", only="quick"), E("MCSystem", "MCSystemQ", only="quick", sample=2000), E("MCSystem", "MCSystemM", only="quick", sample=1500),
            E("MCSystem", "MCSystemT", only="thorough", sample=40000, timeout=3000), E("MCSystem", "MCSystemTM", only="thorough", sample=30000, timeout=3000),
            S("GenDel", 800, 20000, env=dict(CLEAN, G_VIA=1)), S("GenDel", 500, 20000, env=dict(REDEL, G_VIA=1)),
            S("GenDel", 300, 10000, env=dict(FAULTY, G_VIA=1)), S("GenDel", 200, 5000, env=dict(MANY, G_VIA=1))],
}

_T = "TLA+ specification checked with TLC; "
NOTES = {
    "P01": (_T + "exhaustive signature situations and generated worlds replayed on the code, recorded traces validated by TLC",
            "Every combination of signer, signed text, damage, layout and key type of the model, plus random worlds"),
    "P02": (_T + "every pair of windows on a discrete time line replayed on the code with concrete times up to u64::MAX, traces validated by TLC",
            "Exhaustive over relative orders of bounds and time; concrete times drawn from eight tables"),
    "P03": (_T + "verifier state machine checked exhaustively, every single fault at every place of a chain and generated worlds with faults replayed on the code, traces (every store read, verdict, chain) validated by TLC",
            "Design exhaustive for 3-token worlds under all store interleavings; conformance on sampled larger worlds"),
    "P04": (_T + "exhaustive three-token reductions against the denotation and the path formulation, replayed on the code, reported capabilities validated by TLC",
            "Exhaustive for three-token worlds over five capabilities; sampled for larger ones"),
    "P05": (_T + "exhaustive three-token reductions and random larger chains replayed on the code, reported capabilities validated by TLC",
            "Exhaustive for three-token worlds over five capabilities; sampled for larger ones"),
    "P06": (_T + "exhaustive redelegations of one or two proofs and random chains with up to 13 proofs replayed on the code, traces validated by TLC",
            "Exhaustive for up to two proofs; sampled for more"),
    "P07": (_T + "every pair of windows with a redelegation, and random chains, replayed on the code, reported windows validated by TLC",
            "Exhaustive over two-token windows; sampled for deeper chains"),
    "P08": (_T + "laws of the relation on all triples of a small universe, and pairwise comparisons of random capability sets on the code validated by TLC",
            "Laws exhaustive in the model; the code is compared on all pairs of sampled sets of 30 to 150 capabilities"),
    "P09": (_T + "character-level parser specification; every text of up to four lexemes, and rendered views, interpreted by the code and compared by TLC",
            "Exhaustive for texts of up to three lexemes after each of several prefixes; texts stay within characters URI parsing does not normalise"),
    "P10": (_T + "every short capability list and small JSON value through every entry point of the code, outcomes validated by TLC",
            "Exhaustive for lists of up to three entries over two resources, abilities and caveats, and one-resource JSON maps"),
    "P11": (_T + "every token text with up to two departures (three in thorough) from the format, and random edits of texts, parsed by the code; verdicts, accessors, re-encoding and CIDs validated by TLC",
            "Exhaustive over pairs of departures among about 150 on fields, documents, base64 and segments; edits sampled. JSON questions the format leaves open (deep nesting, out-of-range numbers, repeated keys) are accepted either way"),
    "P12": (_T + "every short sequence of builder calls and random histories with clones replayed on the code, token contents and texts validated by TLC",
            "Exhaustive for sequences of two calls (three in thorough) over 26 calls; sampled for longer histories"),
    "P13": (_T + "all interleavings of a store specification, whose observable answers are characterised exactly; sequential and multi-threaded recorded histories validated by TLC",
            "Design exhaustive for three threads and five operations; real threads are sampled schedules"),
    "P14": (_T + "parser-with-cache state machine, and random histories over pools of close and malformed DIDs replayed on the code, answers validated by TLC",
            "Design exhaustive for seven DIDs; histories sampled, up to 3500 resolutions of 1500 DIDs"),
    "P15": (_T + "every path of up to five conversions (eight in thorough) between token, text, IPLD, DAG-CBOR and IPLD value replayed on the code with varied contents; principals and signature prefixes checked in the model and validated by TLC on the code",
            "Exhaustive over paths and presence of fields; values, DIDs and signature lengths drawn at random"),
    "P16": (_T + "every shape of hostile data from ten sources with up to two departures (three in thorough), put through every operation its type allows to depth three, and random programs; outcomes of every call validated by TLC",
            "Exhaustive over pairs of departures among about 250 forms; contents drawn at random. Nesting and lengths are bounded (100 000), and known findings are exercised separately"),
    "P17": (_T + "every situation of signer, verifier, message, damage and way of holding the keys replayed on the code, outcomes validated by TLC",
            "Exhaustive over single deviations for six keys of three types; messages and damage drawn at random"),
    "P18": (_T + "verifier state machine with store interleavings checked exhaustively, histories and interleaved verifications replayed on the code poll by poll, traces validated by TLC",
            "Design exhaustive for 3-token worlds; conformance on sampled histories and schedules"),
    "P19": (_T + "principals issuing tokens to one another checked exhaustively (honest tokens accepted, no authority amplified, cheats believed only about themselves); the same worlds built with the real builder, carried in five forms, stored and reduced, traces validated by TLC",
            "Exhaustive for worlds of three tokens by three principals; conformance on samples of these and of larger generated worlds"),
}
