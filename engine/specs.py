"""Properties, and which scenarios and rules decide each of them.

Single source of properties.jsonl and MANIFEST.json (tool/gen.py).
"""
ASSUMPTIONS = [
    "library functions (std, absl, protobuf, OpenSSL, Highway) behave as modelled in engine/models.py",
    "signed arithmetic does not overflow; allocation succeeds",
]
TECHNIQUE = "static analysis: abstract interpretation of the AST over gated value graphs"
SPECS = {}
NOT_APPLICABLE = []
DPF_OPAQUE = ["DistributedPointFunction::(Create|GenerateKeys|CreateEval|EvaluateNext)"]
CONTEXT = {r"DistributedPointFunction::CreateEvaluationContext$": "verif_scn::ModelCreateContext",
           r"DistributedPointFunction::EvaluateNext": "verif_scn::ModelEvaluateNext"}
KEYGEN = {r"DistributedPointFunction::GenerateKeys$": "verif_scn::ModelGenerateKeys"}
FAMILY = {r"CreateHashFamilyFromConfig$": "verif_scn::ModelHashFamily",
          r"SHA256HashFunction::operator\(\)": "verif_scn::ModelSha256"}
UNMASK = {r"DenseDpfPirClient::HandleResponse$": "verif_scn::ModelDenseResponse"}

DENSE_SRC = [r"^pir/dense_dpf_pir", r"^pir/dpf_pir_server", r"^pir/prng", r"^pir/testing/request_gen"]
SPARSE_SRC = [r"^pir/(dense_dpf_pir|dpf_pir_server|cuckoo_hash|simple_hash)", r"^pir/hashing",
              r"^pir/prng"]

# scenario name -> (driver, options)
SCENARIOS = {}


def scn(driver, names, **kw):
    for n in names.split():
        SCENARIOS[n] = dict(kw, driver=driver, name=n)


def merge(*ds):
    r = {}
    for d in ds:
        r.update(d)
    return r


scn("pir_dense.cc", "DenseMaskCancels", opaque=DPF_OPAQUE + ["GetRandomBytes"])
scn("pir_dense.cc", "DenseClientAccepts", opaque=DPF_OPAQUE, replace=KEYGEN,
    okfns=[r"DistributedPointFunction::Create$"])
scn("pir_dense.cc", "DenseClientIndex DenseClientRequest DenseClientQuery",
    opaque=DPF_OPAQUE, replace=KEYGEN)
scn("pir_server.cc", "LeaderCombines LeaderRequiresOwnEvaluation LeaderPropagatesSenderError "
    "LeaderForwards PlainEvaluates DenseServerCreate HelperDecrypts",
    opaque=DPF_OPAQUE, replace=CONTEXT)
scn("pir_sparse.cc", "CuckooClientCreate CuckooClientQuery SimpleClientCreate SimpleClientQuery", opaque=DPF_OPAQUE,
    replace=merge(CONTEXT, KEYGEN, FAMILY))
scn("pir_sparse.cc", "CuckooClientResponse SimpleClientResponse", opaque=DPF_OPAQUE,
    replace=merge(CONTEXT, KEYGEN, FAMILY, UNMASK))

scn("pir_sparse_server.cc", "CuckooServerCreate SimpleServerCreate CuckooPlainEvaluates SimplePlainEvaluates "
    "CuckooHelperDecrypts SimpleHelperDecrypts ContextsDiffer CuckooParamsGenerated SimpleParamsGenerated DenseParametersAgree CuckooParametersAgree SimpleParametersAgree",
    opaque=DPF_OPAQUE, replace=merge(CONTEXT, FAMILY))
scn("pir_sparse_server.cc", "CuckooServerAccepts SimpleServerAccepts",
    opaque=DPF_OPAQUE, replace=merge(CONTEXT, FAMILY), okfns=[r"DistributedPointFunction::Create$"])

scn("hashing.cc", "Sha256InRange Sha256Concatenates Sha256Reduces FarmInRange FamilyWithSeedPrepends "
    "FunctionsAreNumbered ConfigChoosesFamily")
scn("prng.cc", "PrngSeedSize PrngStream PrngDefaultNonce BasicRngFresh")

HASH = {r"Aes128FixedKeyHash::Evaluate$": "verif_scn::ModelHash"}
DPF_SRC = [r"^dpf/"]
NOHWY = {r"dpf_internal::EvaluateSeeds$": "distributed_point_functions::dpf_internal::EvaluateSeedsNoHwy"}
def ring(w):
    return {r"IntModNImpl(<.*>)?::operator\+=$": "verif_scn::ModelAdd" + w,
            r"IntModNImpl(<.*>)?::operator-=$": "verif_scn::ModelSub" + w}


scn("dpf_values.cc", "SharesMod32", wrap=True, replace=ring("32"))
scn("dpf_values.cc", "SharesMod64 SharesMods", wrap=True, replace=ring("64"))
scn("dpf_values.cc", "SharesMod128", wrap=True, replace=ring("128"))
scn("dpf_values.cc", "AddsModulo8 AddsModulo32 AddsModulo64", wrap=True)
scn("dpf_values.cc", "SharesUint8 SharesUint16 SharesUint32 SharesUint64 SharesUint128 SharesXor64 SharesXor128 SharesPair SharesMixed SharesWide", wrap=True)
scn("dpf_core.cc", "ExpandManySeeds", replace=HASH, straight=70)
scn("dpf_core.cc", "ExpandOneLevel ExpandTwoLevels ExpandThreeLevels", replace=HASH)
scn("dpf_core.cc", "WalkManySeeds", replace=merge(HASH, NOHWY), straight=70)
scn("dpf_core.cc", "WalkOneLevel WalkTwoLevels WalkThreeLevels", replace=merge(HASH, NOHWY))
PROTO = merge(HASH, NOHWY)
HWY = {r"::HashOneWithKeyMask$": "verif_scn::N_%s::ModelHashOne",
       r"::HashFourWithKeyMask$": "verif_scn::N_%s::ModelHashFour"}
scn("hwy_two.cc", "Dispatches", replace={r"::EvaluateSeedsHwy$": "verif_scn::N_TWO::ModelHwy"})
scn("hwy_two.cc", "FallsBack", replace={r"::EvaluateSeedsNoHwy$": "verif_scn::N_TWO::ModelNoHwy"})
scn("hwy_two.cc", "PortableWordPerSeed PortableWordsOfLevels PortableInPlace", straight=80, lemmas=False,
    replace={r"Aes128FixedKeyHash::Evaluate$": "verif_scn::N_TWO::ModelHash"})
scn("hwy_bytes_one.cc", "OneProducts OneProduct OneProductsUnaligned OneProductUnaligned PortableProducts PortableProductsAligned PortableProduct AddsBlocks AddsWholeBlocks AddsBytes ManyProducts ManyProductsUnaligned PortableManyProducts", straight=140, lemmas=False)
scn("hwy_bytes_one.cc", "RefusesNone RefusesOne RefusesTwo", replace={r"::InnerProductHwy$": "verif_scn::N_ONE::ModelProduct"})
scn("hwy_bytes_two.cc", "TwoProducts TwoProduct TwoProductUnaligned TwoProductHalfAligned", straight=300, lemmas=False)
scn("hwy_bytes_four.cc", "FourProducts FourProduct", straight=300, lemmas=False)
scn("pir_database.cc", "DenseKeepsRecords DenseKeepsBytes DenseEmpty DenseBuildsOnce DenseClones")
TABLE = {r"::CreateHashFamilyFromConfig$": "verif_scn::ModelHashFamily", r"CuckooHashTable::Create$": "verif_scn::ModelTable",
         r"CuckooHashTable::Insert$": "verif_scn::ModelInsert", r"CuckooHashTable::GetTable$": "verif_scn::ModelGetTable"}
scn("pir_database.cc", "CuckooKeepsRecords CuckooRefusesEmptyKeys CuckooBuildsAgain", replace=TABLE)
scn("pir_database.cc", "CuckooMultiplies")
scn("pir_database.cc", "SimpleKeepsApart SimpleKeepsTogether SimpleKeepsOrder SimpleKeepsNone SimpleRefuses SimpleBuildsAgain SimpleMultiplies", replace=FAMILY)
scn("pir_database.cc", "DenseMultiplies", replace={r"pir_internal::InnerProduct$": "verif_scn::ModelInnerProduct"})
HWY_WALKS = "OneLevel TwoLevels Shifted Top WordPerSeed WordsOfLevels InPlace".split()
for n in ("One", "Two", "Four"):
    scn("hwy_%s.cc" % n.lower(), n + "Hash", lemmas=False)
    scn("hwy_%s.cc" % n.lower(), " ".join(n + x for x in HWY_WALKS),
        replace={k: v % n.upper() for k, v in HWY.items()}, straight=80, lemmas=False)
def types(t):
    return {r"DistributedPointFunction::GetValueCorrectionFunction$": "verif_scn::Model" + t}
scn("dpf_protocol.cc", "ProtocolDepthOne ProtocolDepthTwo ProtocolTwoLevels ProtocolIncremental", alloc=True, wrap=True, replace=merge(PROTO, types("Uint128")))
scn("dpf_protocol.cc", "ProtocolPacked ProtocolTwoLevelsPacked ProtocolIncrementalPacked", alloc=True, wrap=True, replace=merge(PROTO, types("Uint64")))
scn("dpf_protocol.cc", "ProtocolPackedFour ProtocolNoTree", alloc=True, wrap=True, replace=merge(PROTO, types("Uint32")))
scn("dpf_protocol.cc", "ProtocolThreeBlocks ProtocolThreeBlocksDeep", alloc=True, wrap=True, replace=merge(PROTO, types("Triple")))
scn("dpf_protocol.cc", "CorrectionsFarApart CorrectionsFarthest", alloc=True, wrap=True, straight=140,
    replace=merge(PROTO, {r"DistributedPointFunction::ComputeValueCorrection$": "verif_scn::ModelCorrection"}))
scn("dpf_protocol.cc", "KeysWide KeysNarrow KeysOneLevel", alloc=True, wrap=True, straight=140,
    replace=merge(PROTO, {r"DistributedPointFunction::ComputeValueCorrection$": "verif_scn::ModelCorrection",
                          r"DistributedPointFunction::GenerateNext$": "verif_scn::ModelNext"}))
scn("dpf_protocol.cc", "ElementsOfBlocks", alloc=True, wrap=True, replace=PROTO)
scn("dpf_eval.cc", "ContextFarApart ContextFarthest UntilFarWide UntilFarthest UntilFarPacked UntilFarHigh ApplyFarApart ApplyFarShifted", alloc=True, wrap=True, straight=140, replace=merge(HASH, {r"dpf_internal::EvaluateSeeds$": "verif_scn::ModelWalk"}))
scn("dpf_eval.cc", "ContextKeepsPrefixes ContextKeepsPrefixesBelow AnyPointsWide AnyPointsPacked", alloc=True, wrap=True, straight=70,
    replace=merge(HASH, {r"DistributedPointFunction::EvaluateSeeds$": "verif_scn::ModelSeeds"}))
scn("dpf_eval.cc", "AnyKeysOneLevel AnyKeysTwoLevels AnyKeysPacked", alloc=True, wrap=True, straight=70,
    replace=merge(HASH, {r"dpf_internal::EvaluateSeeds$": "verif_scn::ModelSteps"}))
scn("dpf_core.cc", "StepKeepsInvariant", replace=HASH, opaque=["ComputeValueCorrection$"])


def prop(id, title, statement, over, over_text, why, files, mech, scenarios=(), **kw):
    kw.update(id=id, title=title, statement=statement,
              quantifier={"over": over.split(), "text": over_text},
              why_tests_cant=why,
              anchors={"files": files,
                       "mechanism": [{"name": a, "where": b} for a, b in mech]})
    kw["scenarios"] = [SCENARIOS[s] for s in scenarios]
    SPECS[id] = kw


prop("P01", "The client removes exactly the mask the helper applied",
     "Whatever a helper server answers to a request, the client that made the request "
     "recovers, byte for byte, the answers the helper computed before masking: same number, "
     "same lengths, same contents.",
     "inputs", "every request, database, number of queries, answer length and seed",
     "The tests use a handful of queries and fixed record sizes; the mask is one stream over "
     "all answers, so the position bookkeeping has to agree for every sequence of lengths.",
     ["pir/dpf_pir_server.cc", "pir/dense_dpf_pir_client.cc", "pir/dense_dpf_pir_server.cc",
      "pir/prng/aes_128_ctr_seeded_prng.cc"],
     [("one-time pad over the answers", "pir/dpf_pir_server.cc HandleHelperRequest"),
      ("unmasking", "pir/dense_dpf_pir_client.cc HandleResponse")],
     ["DenseMaskCancels"], sources=DENSE_SRC)

prop("P02", "The dense client queries exactly the requested record, for valid indices only",
     "A dense PIR client accepts a query if and only if every index lies within the "
     "configured database, and query i asks both servers for the one bit that selects "
     "record i of the query, in the order given.",
     "inputs", "every configuration and every list of indices",
     "Tests sample a few indices; the mapping of index to block and bit, and the bounds, "
     "must hold for all of them.",
     ["pir/dense_dpf_pir_client.cc"],
     [("index check and block/bit split", "pir/dense_dpf_pir_client.cc CreatePlainRequests")],
     ["DenseClientIndex", "DenseClientAccepts", "DenseClientQuery"], sources=DENSE_SRC)

prop("P03", "A dense PIR request gives the leader nothing that belongs to the helper",
     "What the client sends to the leader contains, besides the leader's own keys, only the "
     "ciphertext returned by the encrypter: neither the helper's keys nor the one-time pad "
     "seed. The helper's plaintext contains no leader key, and the client keeps the seed it "
     "sent to the helper.",
     "inputs", "every configuration, query list and encrypter",
     "A test sees one request and can only look for the values it thinks of; the absence of "
     "a flow has to hold for every field and every request.",
     ["pir/dense_dpf_pir_client.cc", "pir/dpf_pir_client.h"],
     [("request assembly", "pir/dense_dpf_pir_client.cc CreateRequest, CreatePlainRequests")],
     ["DenseClientRequest"], sources=DENSE_SRC)

prop("P04", "The leader returns the XOR of both servers' answers or an error",
     "Whenever a leader answers a request, its answer is the bytewise XOR of its own answer "
     "and the helper's, for the same number of queries and the same lengths. If the two do "
     "not match in shape, if its own evaluation fails or is never run, or if the helper "
     "cannot be reached, it returns an error.",
     "inputs schedules", "every request, every helper response, and every behaviour of the "
     "sender callback (calls the evaluation callback or not, fails or not)",
     "Tests use a well-behaved sender and well-formed responses.",
     ["pir/dpf_pir_server.cc"],
     [("combination of the answers", "pir/dpf_pir_server.cc HandleLeaderRequest")],
     ["LeaderCombines", "LeaderRequiresOwnEvaluation", "LeaderPropagatesSenderError"],
     sources=DENSE_SRC)

prop("P05", "The leader forwards only the helper's ciphertext",
     "What the leader sends to the helper is the unchanged ciphertext of the client's "
     "request as an encrypted helper request, and nothing of the leader's own part; a "
     "request that lacks either part is refused.",
     "inputs", "every request",
     "Tests check one request; a leak through another field is invisible to them.",
     ["pir/dpf_pir_server.cc"],
     [("forwarded request", "pir/dpf_pir_server.cc HandleLeaderRequest")],
     ["LeaderForwards"], sources=DENSE_SRC)

prop("P06", "A dense server's answers are the inner products for the keys of the request",
     "A server answers a plain request with one answer per key, in order: the product of the "
     "database with the full evaluation of that key. Requests of another kind or without "
     "keys are refused, and errors of the database are returned.",
     "inputs", "every request and database",
     "Tests use a few keys against a real database and compare end to end.",
     ["pir/dense_dpf_pir_server.cc", "pir/dpf_pir_server.cc"],
     [("evaluation and inner product", "pir/dense_dpf_pir_server.cc HandlePlainRequest")],
     ["PlainEvaluates"], sources=DENSE_SRC)

prop("P07", "A dense server is only created for a matching configuration and role",
     "A dense PIR server comes into being only with a dense configuration with a positive "
     "number of elements, a database of exactly that size, and the callback its role needs; "
     "it then has the role it was created for.",
     "inputs configurations", "every configuration, database and callback, including null ones",
     "Tests cover some rejected combinations per role, not all.",
     ["pir/dense_dpf_pir_server.cc", "pir/dpf_pir_server.cc"],
     [("validation", "pir/dense_dpf_pir_server.cc Create"),
      ("role setters", "pir/dpf_pir_server.cc MakeLeader, MakeHelper")],
     ["DenseServerCreate"], sources=DENSE_SRC)

prop("P08", "A helper answers only what decrypts to a well-formed helper request",
     "A helper decrypts exactly the ciphertext it was sent, under the context string of its "
     "protocol, and answers only if decryption succeeds, the plaintext parses as a helper "
     "request and the pad seed has the generator's seed size.",
     "inputs", "every request, decrypter and plaintext",
     "Tests use one valid ciphertext and a few malformed ones.",
     ["pir/dpf_pir_server.cc", "pir/dense_dpf_pir_server.cc"],
     [("decryption and parsing", "pir/dpf_pir_server.cc HandleHelperRequest")],
     ["HelperDecrypts"], sources=DENSE_SRC)

prop("P10", "A dense database keeps its records in order, unchanged",
     "A database built from any list of records, empty ones included, has exactly these records in the order of "
     "insertion, one selection bit for each, and knows the largest size; building does not fail, and records "
     "do not overwrite each other in the shared buffer. A builder builds once unless it is cleared, and a clone has "
     "the records and state of its original at that time. Inner products are taken over all records.",
     "inputs histories", "records of all lengths and contents; lists of none to three records of any size, five of chosen sizes",
     "Sizes are rounded to blocks and records share one buffer; overlaps depend on particular lengths.",
     ["pir/dense_dpf_pir_database.cc", "pir/dense_dpf_pir_database.h"],
     [("construction", "DenseDpfPirDatabase::Builder::Build, DenseDpfPirDatabase::Append"),
      ("products", "DenseDpfPirDatabase::InnerProductWith")],
     ["DenseKeepsRecords", "DenseKeepsBytes", "DenseEmpty", "DenseBuildsOnce", "DenseClones", "DenseMultiplies"],
     sources=[r"^pir/dense_dpf_pir_database"])

prop("P11", "A cuckoo-hashed database holds each value in the slot of its key",
     "The key and value databases have one entry per slot of the cuckoo table: key and value of the record in the slot, "
     "or two empty strings. All keys are inserted in a table without a stash of the configured size and hash functions; "
     "empty keys, unusable parameters and keys that do not fit are refused. Products pair the key and the value "
     "of the same selection, and builders build once, clone and clear like the dense one.",
     "inputs histories", "all values, tables and parameters; up to two records with chosen keys in any slots of one to three",
     "The table decides the layout at random; a value in a wrong slot shows for some tables only.",
     ["pir/cuckoo_hashed_dpf_pir_database.cc", "pir/cuckoo_hashed_dpf_pir_database.h"],
     [("construction", "CuckooHashedDpfPirDatabase::Builder::Build"),
      ("products", "CuckooHashedDpfPirDatabase::InnerProductWith")],
     ["CuckooKeepsRecords", "CuckooRefusesEmptyKeys", "CuckooBuildsAgain", "CuckooMultiplies"],
     sources=[r"^pir/(cuckoo_hashed|dense)_dpf_pir_database", r"^pir/hashing"])

prop("P12", "A simple-hashed database puts every record into the bucket of its key",
     "The dense database has one serialized bucket for each of the configured buckets, with keys and values of exactly "
     "the records whose keys hash to it, in order of insertion, every value at the position of its key. Empty keys and "
     "unusable parameters are refused, and builders build once, clone and clear like the dense one.",
     "inputs histories", "all keys and values; up to four records in any of three buckets",
     "Which records share a bucket depends on the hash seed; tests see one seed.",
     ["pir/simple_hashed_dpf_pir_database.cc", "pir/simple_hashed_dpf_pir_database.h"],
     [("construction", "SimpleHashedDpfPirDatabase::Builder::Build"),
      ("products", "SimpleHashedDpfPirDatabase::InnerProductWith")],
     ["SimpleKeepsApart", "SimpleKeepsTogether", "SimpleKeepsOrder", "SimpleKeepsNone", "SimpleRefuses",
      "SimpleBuildsAgain", "SimpleMultiplies"],
     sources=[r"^pir/(simple_hashed|dense)_dpf_pir_database", r"^pir/hashing"])

prop("P20", "A cuckoo-hashing client is only created from usable parameters",
     "A keyword-PIR client over cuckoo hashing is created only with an encrypter, "
     "parameters of the cuckoo kind, a positive number of buckets and of hash functions, "
     "and a seeded hash family.",
     "inputs", "every public-parameter message and encrypter",
     "Tests reject a few malformed parameter messages.",
     ["pir/cuckoo_hashing_sparse_dpf_pir_client.cc"],
     [("validation", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc Create")],
     ["CuckooClientCreate"], sources=SPARSE_SRC)

prop("P21", "A cuckoo-hashing query asks for every candidate bucket of every key, privately",
     "For each query string the client asks both servers for the bucket of each configured "
     "hash function, in order, under the seed, number of buckets and number of hash "
     "functions of the server's parameters; both requests carry the fingerprint of that "
     "seed. The leader's request contains neither the pad seed nor a helper key, and the "
     "client keeps the query strings and the pad seed.",
     "inputs", "every parameter message and list of query strings",
     "Tests sample a few strings and three hash functions.",
     ["pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/dense_dpf_pir_client.cc"],
     [("bucket selection", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc CreatePlainRequests")],
     ["CuckooClientQuery"], sources=SPARSE_SRC)

prop("P22", "A cuckoo-hashing client returns a value exactly for keys that are stored",
     "From the unmasked answers, the client returns, for each query string, the value of the "
     "first bucket whose key is that query string padded with zero bytes, and nothing if no "
     "bucket holds it; answers that do not match the number of queries are refused.",
     "inputs", "every response and client state, for three hash functions",
     "Tests query stored keys and a few absent ones, with keys of one length.",
     ["pir/cuckoo_hashing_sparse_dpf_pir_client.cc"],
     [("key comparison and value selection",
       "pir/cuckoo_hashing_sparse_dpf_pir_client.cc HandleResponse")],
     ["CuckooClientResponse"], sources=SPARSE_SRC)

prop("P23", "A simple-hashing client is only created from usable parameters",
     "A keyword-PIR client over simple hashing is created only with an encrypter, parameters "
     "of the simple-hashing kind, a positive number of buckets and a seeded hash family.",
     "inputs", "every public-parameter message and encrypter",
     "Tests reject a few malformed parameter messages.",
     ["pir/simple_hashing_sparse_dpf_pir_client.cc"],
     [("validation", "pir/simple_hashing_sparse_dpf_pir_client.cc Create")],
     ["SimpleClientCreate"], sources=SPARSE_SRC)

prop("P24", "A simple-hashing query asks for the one bucket of every key, privately",
     "For each query string, in order, the client asks both servers for the bucket of the "
     "single configured hash function, under the seed and number of buckets of the server's "
     "parameters; both requests carry the fingerprint of that seed. The leader's request "
     "contains neither the pad seed nor a helper key, and the client keeps the query strings "
     "and the pad seed.",
     "inputs", "every parameter message and list of query strings",
     "Tests sample a few strings.",
     ["pir/simple_hashing_sparse_dpf_pir_client.cc", "pir/dense_dpf_pir_client.cc"],
     [("bucket selection", "pir/simple_hashing_sparse_dpf_pir_client.cc CreatePlainRequests")],
     ["SimpleClientQuery"], sources=SPARSE_SRC)

prop("P25", "A simple-hashing client returns the value stored with the queried key",
     "From each unmasked bucket the client returns the value stored with the first key equal "
     "to the query string, and nothing if no key is; answers that are not well-formed "
     "buckets, or do not match the number of queries, are refused.",
     "inputs", "every response and client state",
     "Tests use buckets built by the honest server only.",
     ["pir/simple_hashing_sparse_dpf_pir_client.cc"],
     [("bucket parsing and key comparison",
       "pir/simple_hashing_sparse_dpf_pir_client.cc HandleResponse")],
     ["SimpleClientResponse"], sources=SPARSE_SRC)

prop("P26", "A keyword-PIR server needs matching parameters, database and role",
     "A cuckoo- or simple-hashing server comes into being exactly when its parameters are "
     "usable (positive sizes, a hash family), the database has one selection bit per bucket, "
     "and the callback of its role is given; it then has that role and publishes exactly "
     "those parameters.",
     "inputs configurations", "every parameter message, database and callback",
     "Tests cover some rejected combinations per role, not all.",
     ["pir/cuckoo_hashing_sparse_dpf_pir_server.cc",
      "pir/simple_hashing_sparse_dpf_pir_server.cc", "pir/dpf_pir_server.cc"],
     [("validation", "CreatePlain, CreateLeader, CreateHelper of both sparse servers")],
     ["CuckooServerCreate", "SimpleServerCreate", "CuckooServerAccepts",
      "SimpleServerAccepts"], sources=SPARSE_SRC)

prop("P27", "A keyword-PIR server answers with the selected buckets, in order",
     "A sparse server answers exactly the plain requests that have keys and whose seed "
     "fingerprint is absent or its own; the answer holds, for each key in order, the inner "
     "product of the database with the full evaluation of that key: for cuckoo hashing the "
     "record key followed by the record value, for simple hashing the bucket.",
     "inputs", "every request, parameter message and database",
     "Tests use a few requests against one database.",
     ["pir/cuckoo_hashing_sparse_dpf_pir_server.cc",
      "pir/simple_hashing_sparse_dpf_pir_server.cc"],
     [("evaluation", "HandlePlainRequest of both sparse servers")],
     ["CuckooPlainEvaluates", "SimplePlainEvaluates"], sources=SPARSE_SRC)

prop("P28", "Keyword-PIR helpers decrypt under the context of their own protocol",
     "A sparse helper decrypts exactly the ciphertext it was sent, under the context string "
     "of its protocol, and answers only well-formed helper requests with a full pad seed; "
     "the context strings of the three protocols differ.",
     "inputs", "every request, decrypter and plaintext",
     "Tests use one valid ciphertext and a few malformed ones per protocol.",
     ["pir/cuckoo_hashing_sparse_dpf_pir_server.cc",
      "pir/simple_hashing_sparse_dpf_pir_server.cc", "pir/dpf_pir_server.cc",
      "pir/cuckoo_hashing_sparse_dpf_pir_server.h",
      "pir/simple_hashing_sparse_dpf_pir_server.h"],
     [("context", "kEncryptionContextInfo, CreateHelper of both sparse servers")],
     ["CuckooHelperDecrypts", "SimpleHelperDecrypts", "ContextsDiffer"], sources=SPARSE_SRC)

prop("P29", "Generated keyword-PIR parameters follow the configuration and a fresh seed",
     "Parameters are generated exactly for configurations of the right kind with a positive "
     "size and a hash family; they carry that family, a 16-byte seed drawn anew from the "
     "cryptographic generator by every call, and the configured (simple hashing) or "
     "size-determined (cuckoo hashing) number of buckets.",
     "inputs", "every configuration",
     "A test cannot see where a seed comes from.",
     ["pir/cuckoo_hashing_sparse_dpf_pir_server.cc",
      "pir/simple_hashing_sparse_dpf_pir_server.cc"],
     [("parameter generation", "GenerateParams of both sparse servers")],
     ["CuckooParamsGenerated", "SimpleParamsGenerated"], sources=SPARSE_SRC)

prop("P30", "Client and server of a PIR protocol agree on the DPF they use",
     "A client and a server created from the same configuration or public parameters use "
     "distributed point functions with the same parameters and, for keyword PIR, the same "
     "seed fingerprint.",
     "configurations", "every configuration and parameter message",
     "The two sides compute their DPF parameters in separate files; tests compare them for "
     "a few sizes.",
     ["pir/dense_dpf_pir_server.cc", "pir/dense_dpf_pir_client.cc",
      "pir/cuckoo_hashing_sparse_dpf_pir_server.cc",
      "pir/cuckoo_hashing_sparse_dpf_pir_client.cc",
      "pir/simple_hashing_sparse_dpf_pir_server.cc",
      "pir/simple_hashing_sparse_dpf_pir_client.cc"],
     [("DPF parameters", "Create of the clients, CreatePlain of the servers")],
     ["DenseParametersAgree", "CuckooParametersAgree", "SimpleParametersAgree"],
     sources=SPARSE_SRC)

HASH_SRC = [r"^pir/hashing"]
prop("P31", "Hash values lie in [0, bound) and are determined by seed and input",
     "For every seed, input and positive bound, the SHA-256 and Farm hash functions return a "
     "value that is at least 0 and below the bound, the same on every call and for every "
     "function made from the same seed, and depending on both seed and input. The SHA-256 "
     "hash under a seed is the digest of the seed followed by the input, whatever their "
     "lengths, taken as a 256-bit little-endian number and reduced modulo the bound.",
     "inputs", "every seed, input and positive bound",
     "A bucket number out of range corrupts memory or loses a record; tests hash a few short "
     "strings, and inputs beyond one gigabyte or bounds near 2^31 never occur in them.",
     ["pir/hashing/sha256_hash_family.cc", "pir/hashing/farm_hash_family.cc"],
     [("seed prefix, digest and reduction", "pir/hashing/sha256_hash_family.cc operator()"),
      ("reduction", "pir/hashing/farm_hash_family.cc operator()")],
     ["Sha256InRange", "Sha256Concatenates", "Sha256Reduces", "FarmInRange"], sources=HASH_SRC)

prop("P32", "Hash functions are numbered from 0 under the seed of the configuration",
     "A hash family made from a configuration is SHA-256 under the configured seed, and is "
     "refused without a seed or a known family. A seeded family prepends its seed to each "
     "function's seed. Function i of n hash functions has the decimal number i as its seed, "
     "for every n >= 0; negative n is refused.",
     "inputs configurations", "every configuration, family, seed and number of functions",
     "Client and server derive their functions separately from these helpers; a mistake that "
     "is the same in one process only shows when they disagree or collide.",
     ["pir/hashing/hash_family.cc", "pir/hashing/hash_family.h",
      "pir/hashing/hash_family_config.cc"],
     [("numbering", "CreateHashFunctions"), ("seeding", "WrapWithSeed"),
      ("choice of family", "CreateHashFamilyFromConfig")],
     ["FamilyWithSeedPrepends", "FunctionsAreNumbered", "ConfigChoosesFamily"], sources=HASH_SRC)

prop("P33", "The seeded generator is one AES-CTR stream per seed and nonce",
     "The seeded generator accepts exactly-16-byte seeds and nonces only. The bytes it "
     "returns form one stream determined by seed and nonce, independent of how the reads are "
     "split up, with the requested length every time; without a nonce the nonce is zero. "
     "Generated seeds are 16 bytes drawn from the cryptographic generator.",
     "inputs histories", "every seed, nonce and sequence of read lengths",
     "Mask and unmask read the stream in different pieces; tests read a few lengths.",
     ["pir/prng/aes_128_ctr_seeded_prng.cc", "pir/prng/aes_128_ctr_seeded_prng.h"],
     [("counter mode with carried state", "GetRandomBytes, CreateWithNonce, GenerateSeed")],
     ["PrngSeedSize", "PrngStream", "PrngDefaultNonce"], sources=[r"^pir/prng"])

prop("P34", "The default generator of the FSS gates draws every bit from the CSPRNG",
     "Each 8-, 64- and 128-bit value returned by the unseeded generator consists entirely of "
     "bytes drawn from the cryptographic generator by that very call.",
     "inputs histories", "every call",
     "A test cannot tell random bits from predictable ones.",
     ["dcf/fss_gates/prng/basic_rng.h"],
     [("sampling", "BasicRng::Rand")],
     ["BasicRngFresh"], sources=[r"^dcf/fss_gates/prng"])
scn("tables.cc", "SimpleTableCreate SimpleTableFromFamily SimpleInsertOne SimpleInsertTwo SimpleInsertThree "
    "SimpleAccepts ChoiceTableCreate ChoiceInsertTwo ChoiceInsertThree CuckooTableCreate CuckooInsertNone CuckooInsertOne CuckooInsertTwo")

prop("P35", "The simple hash table stores each element in every bucket it hashes to",
     "A simple hash table is created exactly for a positive number of buckets, at least one "
     "hash function and a positive (or no) maximum bucket size. Inserting an element appends "
     "it once for each hash function to the bucket that function names, leaving everything "
     "else as it was, or is refused and changes nothing; no bucket ever exceeds the maximum "
     "size, nothing is refused without a maximum, and nothing is refused for which there is "
     "room.",
     "inputs histories", "every table state, element, hash function and capacity; one to three "
     "hash functions per table for insertion",
     "Which buckets collide depends on the hash values; the tests do not fill buckets with "
     "colliding functions.",
     ["pir/hashing/simple_hash_table.cc", "pir/hashing/simple_hash_table.h"],
     [("insertion", "SimpleHashTable::Insert"), ("validation", "SimpleHashTable::Create")],
     ["SimpleTableCreate", "SimpleTableFromFamily", "SimpleInsertOne", "SimpleInsertTwo",
      "SimpleInsertThree", "SimpleAccepts"], sources=HASH_SRC)

prop("P36", "The multiple-choice hash table puts an element in a least loaded bucket",
     "A multiple-choice hash table is created exactly for a positive number of buckets, at "
     "least two hash functions and a positive (or no) maximum bucket size. Inserting an "
     "element appends it to one bucket, which is one of the element's buckets and has the "
     "fewest elements of these; it is refused exactly if all of them are full, and then "
     "nothing changes.",
     "inputs histories", "every table state, element, hash function and capacity; two and "
     "three hash functions per table for insertion",
     "Which bucket is least loaded depends on the history and the hash values.",
     ["pir/hashing/multiple_choice_hash_table.cc", "pir/hashing/multiple_choice_hash_table.h"],
     [("insertion", "MultipleChoiceHashTable::Insert"),
      ("validation", "MultipleChoiceHashTable::Create")],
     ["ChoiceTableCreate", "ChoiceInsertTwo", "ChoiceInsertThree"], sources=HASH_SRC)

prop("P37", "The cuckoo hash table never loses an element it accepted",
     "A cuckoo hash table is created exactly for a positive number of buckets, at least two "
     "hash functions, a non-negative number of relocations and a non-negative (or no) "
     "maximum stash size. After a successful insertion the new element and every element that "
     "was in the table are found in the bucket one of their hash functions names, or on the "
     "stash; elements on the stash stay there, the stash never exceeds its maximum, and an "
     "insertion is refused only when the stash is full.",
     "inputs histories", "every table state, element, set of hash functions and choice of "
     "functions; zero, one and two relocations",
     "Losing an element needs a particular chain of evictions; tests run one fixed random "
     "sequence.",
     ["pir/hashing/cuckoo_hash_table.cc", "pir/hashing/cuckoo_hash_table.h"],
     [("eviction and stash", "CuckooHashTable::Insert"),
      ("validation", "CuckooHashTable::Create")],
     ["CuckooTableCreate", "CuckooInsertNone", "CuckooInsertOne", "CuckooInsertTwo"],
     sources=HASH_SRC)

prop("P40", "One level of key generation matches one level of evaluation",
     "Let the two parties hold any seeds with differing control bits on the path to alpha, "
     "and let key generation add one correction word at any level, for any alpha and beta. "
     "Expanding both parties' seeds with it yields, at the child on the path to alpha, "
     "exactly the seeds and control bits key generation carries on with, which again have "
     "differing control bits, and at the other child equal seeds and equal control bits, so "
     "everything below it evaluates to shares of zero.",
     "inputs", "every state, level, alpha and beta; the three hashes are arbitrary functions",
     "This is the induction step of the protocol's correctness; tests run whole protocols on "
     "a few random keys, and a slip in a control bit shows for some seeds only.",
     ["dpf/distributed_point_function.cc"],
     [("correction words", "DistributedPointFunction::GenerateNext"),
      ("expansion", "DistributedPointFunction::ExpandSeeds")],
     ["StepKeepsInvariant"], sources=DPF_SRC)

prop("P41", "Path evaluation and full expansion walk the same tree",
     "Evaluating seeds along paths applies, level by level, the left or right hash chosen by "
     "the bit of the path (most significant level first), the correction seed and the "
     "correction bit of that side exactly if the control bit is set, and moves the lowest "
     "bit of the seed to the control bit. Expanding seeds yields, for every seed in order, "
     "the block reached by the bits of j at position j below it.",
     "inputs", "all seeds, control bits, paths and correction words; one to three levels, and "
     "more seeds than one batch holds",
     "Both are batched and reuse buffers; an error for some position, bit pattern or batch "
     "boundary is not in the tests' sample.",
     ["dpf/distributed_point_function.cc", "dpf/internal/evaluate_prg_hwy.cc"],
     [("path evaluation", "DistributedPointFunction::EvaluateSeeds, "
       "dpf_internal::EvaluateSeedsNoHwy"),
      ("expansion", "DistributedPointFunction::ExpandSeeds")],
     ["WalkOneLevel", "WalkTwoLevels", "WalkThreeLevels", "WalkManySeeds", "ExpandOneLevel",
      "ExpandTwoLevels", "ExpandThreeLevels", "ExpandManySeeds"], sources=DPF_SRC)

prop("P42", "Value corrections turn equal blocks into shares of beta at one index",
     "For every value type (unsigned integers, XOR-wrapped integers, integers modulo N and "
     "tuples of these), every pair of leaf blocks and every beta of the type, adding the "
     "value correction on the side whose control bit is set, and negating the second party's "
     "value, yields shares that add up to beta at the index of alpha in the block and to "
     "zero at the other indices; and a correction exists for every beta of the type.",
     "inputs", "all blocks, control bits and betas; all indices for the types with at most "
     "four elements in a block, one index for the others",
     "Wrap-around, index and sign slips depend on the random blocks; tests sample a few.",
     ["dpf/internal/value_type_helpers.h", "dpf/internal/value_type_helpers.cc", "dpf/tuple.h",
      "dpf/xor_wrapper.h", "dpf/int_mod_n.h"],
     [("correction", "dpf_internal::ComputeValueCorrectionFor"),
      ("conversion", "ConvertBytesToArrayOf, ValuesToArray")],
     ["SharesUint8", "SharesUint16", "SharesUint32", "SharesUint64", "SharesUint128",
      "SharesXor64", "SharesXor128", "SharesPair", "SharesMixed", "SharesWide", "SharesMod32",
      "SharesMod64", "SharesMod128", "SharesMods"], sources=DPF_SRC)

prop("P43", "Two keys evaluate to shares of beta at alpha and of zero elsewhere",
     "Keys are generated for every alpha in the domain and beta of the type and for nothing "
     "else. For every point x of the domain, the values the two parties compute from their "
     "keys add up to beta if x is alpha and to zero otherwise; points outside the domain are "
     "refused.",
     "inputs", "every alpha, beta, x and random seed; trees of depth 0, 1 and 2, with one, two "
     "and four elements per block or three blocks per element, elements of domains of up to "
     "128 bits; the three hashes are arbitrary functions",
     "Tests draw random seeds and a few alphas; the guarantee is for all of them.",
     ["dpf/distributed_point_function.cc", "dpf/distributed_point_function.h"],
     [("key generation", "GenerateKeysIncremental, GenerateNext"),
      ("evaluation", "EvaluateAt")],
     ["ProtocolDepthOne", "ProtocolDepthTwo", "ProtocolPacked", "ProtocolPackedFour",
      "ProtocolNoTree", "ProtocolThreeBlocks", "ProtocolThreeBlocksDeep", "ElementsOfBlocks", "KeysWide",
      "KeysNarrow", "KeysOneLevel"],
     sources=DPF_SRC)

prop("P44", "Every hierarchy level of a key shares its own beta at the prefix of alpha",
     "With two hierarchy levels, evaluating a key pair at any point of either level yields "
     "shares of that level's beta exactly at the prefix of alpha, and of zero elsewhere.",
     "inputs", "every alpha, betas, points and random seeds; two levels of one and two bits, "
     "with and without packing; the assembly of keys for one to four levels up to 128 bits apart",
     "The value correction of an inner level lives in the correction word of a tree level; "
     "mixing up the two indices shows for particular parameters only.",
     ["dpf/distributed_point_function.cc", "dpf/distributed_point_function.h"],
     [("hierarchy", "GenerateNext, EvaluateAt, DomainToTreeIndex, DomainToBlockIndex")],
     ["ProtocolTwoLevels", "ProtocolTwoLevelsPacked", "CorrectionsFarApart",
      "CorrectionsFarthest", "KeysWide", "KeysNarrow", "KeysOneLevel"], sources=DPF_SRC)

prop("P45", "Incremental evaluation gives the shares below the chosen prefixes, in order",
     "Evaluating the first level through a context gives one share for every element of its "
     "domain, in order; evaluating the next level below prefixes gives, for each prefix in "
     "order, one share for every element below it. The shares add up to that level's beta "
     "exactly at the prefix of alpha, and to zero elsewhere.",
     "inputs histories", "every alpha, betas, prefix and random seeds; two levels of one and two "
     "bits, with and without packing, one prefix; for one key also levels up to 127 bits below the first",
     "Which seeds the context carries over depends on the prefixes; tests use a few sets.",
     ["dpf/distributed_point_function.cc", "dpf/distributed_point_function.h"],
     [("context", "CreateEvaluationContext, EvaluateUntil, ComputePartialEvaluations, "
       "ExpandAndUpdateContext")],
     ["ProtocolIncremental", "ProtocolIncrementalPacked", "UntilFarWide", "UntilFarthest",
      "UntilFarPacked", "UntilFarHigh"], sources=DPF_SRC)

prop("P46", "Integers modulo N add, subtract and negate as residues",
     "For every pair of elements of IntModN, the sum, difference and negation are the unique "
     "residue in [0, N) of the integer result, and construction reduces its argument.",
     "inputs", "every pair of elements; 8-, 32- and 64-bit base types with a modulus close to "
     "the maximum",
     "The sum of two residues may overflow the base type; that needs operands near N.",
     ["dpf/int_mod_n.h"],
     [("arithmetic", "IntModN operator+=, operator-=, constructor")],
     ["AddsModulo8", "AddsModulo32", "AddsModulo64"], sources=DPF_SRC)
scn("dpf_validate.cc", "IntegerTypesAccepted ModularTypesAccepted UnsetTypesRefused TupleTypesAccepted IntegerValuesAccepted "
    "XorValuesAccepted ModularValuesAccepted TupleValuesAccepted ParametersAccepted", wrap=True, straight=140, recursion=4)
scn("dpf_validate.cc", "KeysAccepted ContextsAccepted ContextsFreshAccepted IndicesSplit LevelsOneWide LevelsOneNarrow LevelsTwo LevelsThree LevelsTuple", wrap=True)

scn("dpf_convert.cc", "Convert8 Convert16 Convert32 Convert64 Convert128 ConvertXor8 ConvertXor32 ConvertXor64 ConvertXor128 ConvertMod32 "
    "ConvertMod64 ConvertMod128 ConvertTuple TypesCompared TypesComparedUnset", wrap=True, recursion=4)
scn("dpf_convert.cc", "BytesOfTuples BytesOfMods BytesOfMixed BytesOfWideMods", wrap=True, straight=300, recursion=4)

scn("dpf_eval.cc", "ManyPoints ManyPointsPacked FullWide FullPacked FullPackedFour FullTooWide LevelsWide LevelsPackedSame LevelsPackedApart LevelsWideThree LevelsPackedThree LevelsSkipped LevelsSkippedFirst AtContextWide AtContextPacked AtContextSkips "
    "ApplyWide ApplyPacked ApplyShifted ApplyStops ApplyNothing AtRefuses ApplyRefuses ApplyRefusesFirst ApplyRefusesSecond ApplyRefusesThird UntilRefuses UntilRefusesStrangers",
    alloc=True, wrap=True, replace=PROTO)

prop("P47", "Value types and values are accepted exactly if they are well formed",
     "A value type is accepted exactly if it is an integer or XOR-wrapped integer of 1 to 128 "
     "bits, a power of two, an integer modulo N whose base is a valid integer type that can "
     "hold N, or a non-empty tuple of accepted integer and modular types; unset types are refused. A "
     "value is accepted for a type exactly if its kind is that of the type and its number "
     "fits: below 2^bits, or below N, and every element of a tuple fits its type.",
     "inputs", "every bit size, modulus and number; tuples of up to two elements",
     "The interesting inputs are malformed protos from the other party; tests list a few.",
     ["dpf/internal/proto_validator.cc"],
     [("types", "ProtoValidator::ValidateValueType"), ("values", "ProtoValidator::ValidateValue")],
     ["IntegerTypesAccepted", "ModularTypesAccepted", "UnsetTypesRefused", "TupleTypesAccepted",
      "IntegerValuesAccepted", "XorValuesAccepted", "ModularValuesAccepted",
      "TupleValuesAccepted"], sources=DPF_SRC)

prop("P48", "The hierarchy is laid out with a tree level for every block of values",
     "Parameters are accepted exactly if there is a level, domain sizes lie between 0 and 128 and "
     "increase from level to level, value types are accepted and security parameters make "
     "sense. Each hierarchy level is placed at the "
     "tree level that leaves as many elements to a block of 128 bits as fit, different "
     "hierarchy levels never share a tree level, and a domain index splits into the tree index "
     "(its high bits) and the index in the block (its low bits).",
     "inputs", "every domain size, value type size and security parameter; one to three "
     "hierarchy levels",
     "Rounding at block boundaries depends on the combination of sizes; tests list some.",
     ["dpf/internal/proto_validator.cc", "dpf/distributed_point_function.h",
      "dpf/distributed_point_function.cc"],
     [("layout", "ProtoValidator::Create"), ("acceptance", "ProtoValidator::ValidateParameters"),
      ("split", "DomainToTreeIndex, DomainToBlockIndex")],
     ["ParametersAccepted", "IndicesSplit", "LevelsOneWide", "LevelsOneNarrow", "LevelsTwo",
      "LevelsThree", "LevelsTuple"], sources=DPF_SRC)

prop("P49", "Keys and contexts that do not belong to the function are refused",
     "A key is accepted exactly if it has a seed, a party of 0 or 1, one correction word for "
     "every tree level, value corrections wherever a hierarchy level needs them and "
     "one for the last level. An accepted evaluation context has the parameters of the "
     "function, an acceptable key, levels left to evaluate, and partial evaluations of a "
     "level it has evaluated only; contexts of the function with an acceptable key are accepted.",
     "inputs histories", "keys and contexts with arbitrary contents for one and two hierarchy levels",
     "Keys and contexts come from the network; a missing check reads past the end for inputs "
     "no test has.",
     ["dpf/internal/proto_validator.cc", "dpf/distributed_point_function.cc"],
     [("keys", "ProtoValidator::ValidateDpfKey"),
      ("contexts", "ProtoValidator::ValidateEvaluationContext, CreateEvaluationContext")],
     ["KeysAccepted", "ContextsAccepted", "ContextsFreshAccepted"], sources=DPF_SRC)

prop("P50", "Enough bits are hashed for every value that is drawn from them",
     "BitsNeeded is a whole number of bits that covers what the conversion from bytes reads, for "
     "integers, XOR-wrapped integers, integers modulo N and every mix of these in tuples; "
     "for integers modulo N it is large enough for the requested statistical security.",
     "inputs", "tuples of up to three elements over all base sizes and a range of security "
     "parameters",
     "A tuple that mixes types reads past the end of the hash only for particular mixes.",
     ["dpf/internal/value_type_helpers.cc", "dpf/internal/value_type_helpers.h"],
     [("size", "dpf_internal::BitsNeeded"), ("use", "FromBytes, SampleAndUpdateBytes")],
     ["BytesOfTuples", "BytesOfMods", "BytesOfMixed", "BytesOfWideMods"], sources=DPF_SRC)

prop("P51", "Values survive the trip into a proto and back, and only if they fit",
     "Converting a value to its proto and back yields the same value, for every supported "
     "type; a proto of another kind, with a number too large for the type, or without a "
     "number, is refused. Two value types are equal exactly if they describe the same type.",
     "inputs", "every value and proto of each supported type; tuples of two elements",
     "128-bit values are split into blocks; a wrong half shows for large values only.",
     ["dpf/internal/value_type_helpers.h", "dpf/internal/value_type_helpers.cc"],
     [("conversion", "ToValue, FromValue, Uint128To"),
      ("comparison", "dpf_internal::ValueTypesAreEqual")],
     ["Convert8", "Convert16", "Convert32", "Convert64", "Convert128", "ConvertXor8",
      "ConvertXor32", "ConvertXor64", "ConvertXor128", "ConvertMod32", "ConvertMod64",
      "ConvertMod128", "ConvertTuple", "TypesCompared", "TypesComparedUnset"], sources=DPF_SRC)

scn("dpf_setup.cc", "HashBlocks HashInPlace HashSizes", replace={r"EVP_Cipher$": "verif_scn::ModelCipher"})
scn("dpf_setup.cc", "HashManyBlocks HashManyInPlace", straight=70, replace={r"EVP_Cipher$": "verif_scn::ModelCipher"})
scn("dpf_setup.cc", "HashCreate", replace={r"EVP_EncryptInit_ex$": "verif_scn::ModelInit"})
scn("dpf_setup.cc", "CreatesFunction CreatesOneLevel", wrap=True, replace={
    r"ProtoValidator::Create$": "verif_scn::ModelValidator", r"dpf_internal::BitsNeeded$": "verif_scn::ModelBits",
    r"Aes128FixedKeyHash::Create$": "verif_scn::ModelCreateHash",
    r"DistributedPointFunction::SerializeValueTypeDeterministically$": "verif_scn::ModelSerialize"})
scn("dpf_setup.cc", "KeysAreRandom", wrap=True, replace=merge(HASH, {r"DistributedPointFunction::GetValueCorrectionFunction$": "verif_scn::ModelUint128"}))
scn("dpf_setup.cc", "SamplesMod32 SamplesMod64 SamplesMod128 SamplesApart SamplesRefused32 SamplesRefused64", wrap=True)
scn("dpf_setup.cc", "SeedsRefused ExpansionsRefused", wrap=True)

prop("P52", "Every way of evaluating a key gives the same values",
     "Evaluating a key at several points gives, in order, what evaluating each point alone "
     "gives; evaluating a whole domain gives exactly one value for every element, in order; "
     "evaluating level after level below any prefixes, in any order and with repetitions, "
     "skipping levels or not, gives one value for every element below each prefix, in the "
     "order of the prefixes; points evaluated through a context have the same values; and "
     "evaluating many keys at a point each calls the callback once for every level, with "
     "every key's value at the prefix of its own point, until the callback stops it.",
     "inputs histories", "every key (all seeds, control bits and corrections); trees of up to "
     "three levels, and any walk in trees of up to 128 levels; blocks of one, two and four "
     "elements; any number of arbitrary points, keys and prefixes of a context, and chosen sets of up "
     "to three prefixes to expand",
     "Batching, packing, deduplication and trimming differ between the paths; tests compare "
     "a few parameters and prefixes.",
     ["dpf/distributed_point_function.h", "dpf/distributed_point_function.cc"],
     [("points", "EvaluateAt"), ("expansion", "EvaluateUntil, ExpandAndUpdateContext"),
      ("contexts", "ComputePartialEvaluations"), ("many keys", "EvaluateAndApply")],
     ["ManyPoints", "ManyPointsPacked", "FullWide", "FullPacked", "FullPackedFour",
      "FullTooWide", "LevelsWide", "LevelsPackedSame", "LevelsPackedApart", "LevelsWideThree",
      "LevelsPackedThree", "LevelsSkipped", "LevelsSkippedFirst", "AtContextWide",
      "AtContextPacked", "AtContextSkips", "ApplyWide", "ApplyPacked", "ApplyShifted",
      "ApplyStops", "ApplyNothing", "ContextFarApart", "ContextFarthest", "ContextKeepsPrefixes",
      "ContextKeepsPrefixesBelow", "ApplyFarApart", "ApplyFarShifted", "AnyPointsWide",
      "AnyPointsPacked", "AnyKeysOneLevel", "AnyKeysTwoLevels", "AnyKeysPacked"], sources=DPF_SRC)

prop("P53", "Evaluation refuses points, levels, prefixes and types that do not fit",
     "Points and prefixes outside the domain of their level, hierarchy levels that do not "
     "exist or were already evaluated, prefixes at the first call or none at a later one, "
     "prefixes that do not extend those of the call before, expansions too large for memory, keys the function does not "
     "accept, numbers of points that differ from the number of keys, and a value type other "
     "than the level's are refused as invalid arguments, before any callback runs.",
     "inputs histories", "every level, point and prefix; contexts before every level of three",
     "Each is a comparison at the boundary of an unbounded range; a missing one reads or "
     "shifts past the end for inputs no test has.",
     ["dpf/distributed_point_function.h", "dpf/distributed_point_function.cc"],
     [("points", "EvaluateAt, EvaluateAndApply"), ("levels and prefixes", "EvaluateUntil, "
       "ComputePartialEvaluations")],
     ["AtRefuses", "ApplyRefuses", "ApplyRefusesFirst", "ApplyRefusesSecond", "ApplyRefusesThird", "UntilRefuses", "UntilRefusesStrangers", "SeedsRefused",
      "ExpansionsRefused"], sources=DPF_SRC)

scn("dcf.cc", "DcfCreateOne DcfCreateTwo DcfCreateFour DcfCreateRefused", wrap=True, replace={r"DistributedPointFunction::CreateIncremental$": "verif_scn::ModelCreateIncremental"})
scn("dcf.cc", "DcfKeysInteger DcfKeysModular DcfKeysXor DcfKeysTuple DcfKeysLarge", wrap=True, straight=140, replace={r"DistributedPointFunction::GenerateKeysIncremental$": "verif_scn::ModelGenerate"})
scn("dcf.cc", "DcfAccumulates DcfAccumulatesPacked DcfAccumulatesFar DcfAccumulatesFarthest DcfRefuses", alloc=True, wrap=True, replace=PROTO)
scn("dcf.cc", "DcfCompareOne DcfCompareTwo", alloc=True, wrap=True, replace=merge(PROTO, types("Uint128")))
scn("dcf.cc", "DcfComparePacked DcfComparePackedThree", alloc=True, wrap=True, replace=merge(PROTO, types("Uint64")))
scn("dcf.cc", "DcfCompareThree", alloc=True, wrap=True, effort=20000, replace=merge(PROTO, types("Uint128")))

DCF_SRC = [r"^dcf/", r"^dpf/"]
prop("P64", "Vectorised path evaluation computes the same seeds and control bits",
     "For vectors of one, two or four blocks, the vectorised evaluation of seeds along paths gives exactly the "
     "seeds and control bits of the walk, for all numbers of seeds including partial batches, shared or "
     "separate correction words, and outputs that overwrite the inputs. Numbers of correction words other than "
     "one per level, or one per level and seed, are refused, and unaligned buffers take the portable code.",
     "inputs configurations", "all seeds, control bits, paths and correction words; one and two levels, shifted "
     "and topmost path bits, and more seeds than four vectors hold, with a remainder",
     "A build has only the kernels of its own machine and the existing tests for them do not run here; lane "
     "effects depend on the number of seeds and the width of vectors.",
     ["dpf/internal/evaluate_prg_hwy.cc", "dpf/internal/evaluate_prg_hwy.h", "dpf/internal/aes_128_fixed_key_hash_hwy.h"],
     [("kernels", "EvaluateSeedsHwy, EvaluateSeedsHwy's helpers, EvaluateSeedsNoHwy"),
      ("dispatch", "dpf_internal::EvaluateSeeds")],
     [n + x for n in ("One", "Two", "Four") for x in HWY_WALKS] +
     ["Dispatches", "FallsBack", "PortableWordPerSeed", "PortableWordsOfLevels", "PortableInPlace"], sources=DPF_SRC)

prop("P65", "The vectorised hash is the fixed-key hash, in every block of a vector",
     "In every block of one or four vectors, the vectorised hash with a key chosen by a mask equals "
     "AES(sigma(x)) xor sigma(x) under the key that the mask selects for that block, where AES is ten rounds "
     "with the key's schedule, the last without mixing.",
     "inputs configurations", "all blocks, masks and pairs of keys; vectors of one, two and four blocks",
     "Blocks of a vector must not influence each other; a mixed-up lane shows for particular masks only.",
     ["dpf/internal/aes_128_fixed_key_hash_hwy.h"],
     [("hash", "HashOneWithKeyMask, HashFourWithKeyMask")],
     ["OneHash", "TwoHash", "FourHash"], sources=DPF_SRC)

prop("P66", "The inner product of bits and values is the XOR of the selected values",
     "Every result has the size asked for, and each of its bytes is the XOR of that byte of exactly the values "
     "whose selection bit is set, zero beyond the end of a value, for the portable and the vectorised code and "
     "for aligned and unaligned values. Too few or unequal numbers of selection bits, a size that is not "
     "positive and values larger than it are refused with INVALID_ARGUMENT; no selections give no results.",
     "inputs configurations", "all bytes and selection bits; up to two selections, three values of sizes below, at and "
     "above multiples of the vector, 131 values; vectors of 16, 32 and 64 bytes",
     "The code handles blocks, partial vectors and single bytes separately, depending on sizes and addresses; "
     "its tests are not part of the build here.",
     ["pir/internal/inner_product_hwy.cc", "pir/internal/inner_product_hwy.h"],
     [("vectorised", "InnerProductHwy, XorPartialString"),
      ("portable", "InnerProductNoHwy, XorStringInPlaceNoHwy"), ("checks", "InnerProduct")],
     ["OneProducts", "OneProduct", "OneProductsUnaligned", "OneProductUnaligned", "PortableProducts",
      "PortableProductsAligned", "PortableProduct", "TwoProducts", "TwoProduct", "TwoProductUnaligned",
      "TwoProductHalfAligned", "FourProducts", "FourProduct", "ManyProducts", "ManyProductsUnaligned",
      "PortableManyProducts", "AddsBlocks", "AddsWholeBlocks", "AddsBytes", "RefusesNone", "RefusesOne",
      "RefusesTwo"], sources=["pir/internal/inner_product_hwy.cc"])

prop("P60", "A comparison function has one level of its value type for every bit",
     "A comparison function is created exactly for valid parameters with a domain of 1 to 128 "
     "bits; it is built on an incremental point function with one hierarchy level for every "
     "bit, level i having i bits, the function's value type and its security parameter.",
     "inputs", "all parameters; one, two and four levels, and every domain size outside 1..128",
     "A wrong level or security parameter weakens the keys without any visible failure.",
     ["dcf/distributed_comparison_function.cc"],
     [("levels", "DistributedComparisonFunction::Create")],
     ["DcfCreateOne", "DcfCreateTwo", "DcfCreateFour", "DcfCreateRefused"], sources=DCF_SRC)

prop("P61", "Comparison keys carry beta at the set bits of alpha, for every value type",
     "For every alpha and beta, key generation asks the point function for the path to alpha "
     "without its last bit, with the value beta at the levels where alpha's bit is set and zero of "
     "the same type at the others; tuples keep their shape, and every element follows the "
     "same rule. The two keys are those of party 0 and 1, in order.",
     "inputs", "every alpha and beta; integers, integers modulo N, XOR-wrapped integers and tuples of "
     "these; two, three and 66 levels",
     "A type or bit position that is treated differently matters only for particular alphas.",
     ["dcf/distributed_comparison_function.cc"],
     [("values", "SetToZero"), ("levels", "DistributedComparisonFunction::GenerateKeys")],
     ["DcfKeysInteger", "DcfKeysModular", "DcfKeysXor", "DcfKeysTuple", "DcfKeysLarge"], sources=DCF_SRC)

prop("P62", "A comparison share is the sum of the levels whose bit of x is not set",
     "Evaluating several keys at a point each gives, for every key on its own, the sum of its "
     "values at the prefixes of x over the levels at which the bit of x is not set, whatever the "
     "output held before. Numbers of keys, points and outputs that differ, points outside of the "
     "domain and keys the point function refuses are refused.",
     "inputs", "every pair of keys and points; domains of two and three bits, with and without packing; the first two levels of domains of 100 and 128 bits",
     "Batches and levels are interleaved; tests compare sums for a few keys.",
     ["dcf/distributed_comparison_function.h"],
     [("accumulation", "DistributedComparisonFunction::BatchEvaluate")],
     ["DcfAccumulates", "DcfAccumulatesPacked", "DcfAccumulatesFar", "DcfAccumulatesFarthest", "DcfRefuses"], sources=DCF_SRC)

prop("P63", "Comparison shares add up to beta below alpha and to zero elsewhere",
     "For every alpha, beta and x of the domain, the values the two parties compute add up to beta "
     "if x < alpha, and to zero otherwise.",
     "inputs", "every alpha, beta, x and random seed; domains of one to three bits, with and without "
     "packing; the three hashes are arbitrary functions",
     "Tests draw random seeds and a few alphas; the guarantee is for all of them.",
     ["dcf/distributed_comparison_function.cc", "dcf/distributed_comparison_function.h"],
     [("keys", "DistributedComparisonFunction::GenerateKeys"),
      ("evaluation", "DistributedComparisonFunction::BatchEvaluate")],
     ["DcfCompareOne", "DcfCompareTwo", "DcfCompareThree", "DcfComparePacked", "DcfComparePackedThree"], sources=DCF_SRC)

MIC = {r"DistributedComparisonFunction::Create$": "verif_scn::ModelCreateDcf",
       r"DistributedComparisonFunction::GenerateKeys": "verif_scn::ModelDcfKeys",
       r"DistributedComparisonFunction::BatchEvaluate": "verif_scn::ModelDcfEvaluate"}
scn("mic.cc", "MicCreateSmall MicCreateMiddle MicCreateLarge MicCreateRefused", wrap=True, replace=MIC)
scn("mic.cc", "MicContainsTwoBits MicContainsSmall MicContainsMiddle MicContainsLarge MicSeveral MicSeveralNarrow "
    "MicBatch MicNothing MicGenRefuses MicEvalRefuses MicKeys MicCreateMany MicGenMany MicBatchMany MicEvalMany", alloc=True, wrap=True, replace=MIC)
scn("mic.cc", "MicCreateAccepts", wrap=True, replace={r"DistributedComparisonFunction::Create$": "verif_scn::ModelCreateAnyDcf"})

prop("P70", "An interval containment gate is created exactly for intervals of its group",
     "A gate is created only for groups of 1 to 127 bits and intervals that have both bounds, "
     "in the group, the lower one not above the upper one, whether the bounds are given as "
     "64-bit or as 128-bit numbers; it holds a comparison function over the whole group with "
     "128-bit values. Valid parameters are accepted.",
     "inputs", "all bounds, of either kind, of two intervals; all group sizes that are refused; groups "
     "of 2, 64 and 127 bits",
     "A bound check that truncates or forgets one kind of number shows for unusual parameters only.",
     ["dcf/fss_gates/multiple_interval_containment.cc"],
     [("creation", "MultipleIntervalContainmentGate::Create")],
     ["MicCreateSmall", "MicCreateMiddle", "MicCreateLarge", "MicCreateRefused",
      "MicCreateAccepts"], sources=DCF_SRC)

prop("P71", "Interval shares add up to the masked containment of the unmasked input",
     "For all intervals, input masks, output masks and inputs of the group, the shares the two "
     "parties compute from the masked input add up, modulo the group size, to the output mask, "
     "plus one if the unmasked input lies in the interval (both bounds included).",
     "inputs", "every interval, mask and input, for arbitrary comparison shares that add up to the "
     "comparison; one interval in groups of 2, 3, 64 and 127 bits, two intervals with bounds of "
     "either kind in a group of 3 bits",
     "The arithmetic has wrap-around cases (bounds at the ends of the group, masks that wrap) that "
     "random tests in large groups practically never reach.",
     ["dcf/fss_gates/multiple_interval_containment.cc"],
     [("keys", "MultipleIntervalContainmentGate::Gen"),
      ("evaluation", "MultipleIntervalContainmentGate::Eval, "
       "MultipleIntervalContainmentGate::BatchEval")],
     ["MicContainsTwoBits", "MicContainsSmall", "MicContainsMiddle", "MicContainsLarge",
      "MicSeveral", "MicSeveralNarrow"], sources=DCF_SRC)

prop("P72", "Interval keys are evaluated each at its own input, or refused if unfit",
     "Evaluating several keys at an input each gives, in order, what evaluating each alone gives, "
     "also for no keys or no intervals. Masks or inputs outside of the group, numbers of masks or "
     "inputs that differ from those of intervals or keys, and keys without a mask share for every "
     "interval are refused. A party's mask share says nothing about the masks, and lies in the group.",
     "inputs", "all masks, inputs and keys; two intervals and up to two keys",
     "Batches are laid out by arithmetic on indices; a missing check reads past the end of a key.",
     ["dcf/fss_gates/multiple_interval_containment.cc"],
     [("keys", "MultipleIntervalContainmentGate::Gen"),
      ("batches", "MultipleIntervalContainmentGate::BatchEval")],
     ["MicBatch", "MicNothing", "MicGenRefuses", "MicEvalRefuses", "MicKeys"], sources=DCF_SRC)

prop("P54", "The fixed-key hash maps every block x to AES(sigma(x)) xor sigma(x)",
     "A fixed-key hash uses AES-128 under its key on single blocks, and maps each block x to "
     "AES(sigma(x)) xor sigma(x), where sigma(x) has the XOR of both halves of x as its high half and the high half of x as its low half; every "
     "output depends on its own input only, whatever the number of blocks, also in place. "
     "Numbers of inputs and outputs that differ and failures of the cipher are reported.",
     "inputs", "all blocks and keys; a few blocks, and more than fit into one batch; AES is an arbitrary "
     "function",
     "The security of the keys rests on this construction; a change that stays consistent "
     "passes every test, and batches only matter beyond their size.",
     ["dpf/aes_128_fixed_key_hash.cc", "dpf/aes_128_fixed_key_hash.h"],
     [("hash", "Aes128FixedKeyHash::Evaluate"), ("setup", "Aes128FixedKeyHash::Create")],
     ["HashBlocks", "HashInPlace", "HashManyBlocks", "HashManyInPlace", "HashSizes",
      "HashCreate"], sources=DPF_SRC)

prop("P55", "A point function is assembled from its parameters and three fixed hashes",
     "A function is created exactly if its parameters are valid; it keeps them in order, with "
     "the tree laid out for them, as many hash blocks for each level as its values need, the "
     "three documented fixed keys for left seeds, right seeds and values, and corrections for "
     "unsigned integers of every size. Other types are unknown until they are registered, and "
     "then have their own correction.",
     "inputs", "all outcomes of validation and sizes of values; two levels",
     "Keys made by other versions evaluate to garbage if a constant or table differs; tests "
     "use one version for both sides.",
     ["dpf/distributed_point_function.cc", "dpf/distributed_point_function.h"],
     [("assembly", "DistributedPointFunction::CreateIncremental, DistributedPointFunction::Create"),
      ("types", "RegisterValueTypeImpl, DistributedPointFunction::GetValueCorrectionFunction")],
     ["CreatesFunction", "CreatesOneLevel"], sources=DPF_SRC)

prop("P56", "Keys hide alpha and beta behind two seeds drawn independently",
     "The seeds of the two keys are drawn separately from the cryptographic generator and do "
     "not depend on alpha or beta; everything else in the keys is the same for both parties, "
     "except the party, and combines the hashes of both seeds.",
     "inputs", "every alpha and beta; two levels",
     "A key that reveals alpha, or seeds that depend on each other, work as well as good ones.",
     ["dpf/distributed_point_function.cc"],
     [("seeds", "DistributedPointFunction::GenerateKeysIncremental"),
      ("corrections", "DistributedPointFunction::GenerateNext")],
     ["KeysAreRandom"], sources=DPF_SRC)

prop("P57", "Samples modulo N are drawn alike everywhere, and only from enough bytes",
     "Samples drawn from bytes are those a tuple of integers modulo N is converted to; the "
     "first one is the residue of the first block, and samples of 128 bits come from separate blocks. "
     "Samples are refused exactly if there are too few bytes for the requested security, or "
     "no samples at all.",
     "inputs", "all bytes; two samples of 32, 64 and 128 bits; all lengths and security parameters",
     "Two implementations must agree, and a statistical flaw in one shows in no single sample.",
     ["dpf/int_mod_n.h", "dpf/int_mod_n.cc", "dpf/internal/value_type_helpers.h"],
     [("samples", "UnsafeSampleFromBytes, SampleFromBytes"), ("tuples", "FromBytes")],
     ["SamplesMod32", "SamplesMod64", "SamplesMod128", "SamplesApart", "SamplesRefused32",
      "SamplesRefused64"], sources=DPF_SRC)

def na(id, title, statement, over, over_text, why, files, mech, reason):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement,
                               quantifier=dict(over=over, text=over_text), why_tests_cant=why,
                               anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                               reason=reason))

na("P90", "Keys and shares reveal nothing about alpha and beta to either party",
   "The distribution of a single party's key, and of its shares, is computationally independent of alpha "
   "and beta.",
   ["inputs"], "every pair of points and values, every polynomial-time observer",
   "A test sees samples, and no statistic of samples bounds what an observer can learn.",
   ["dpf/distributed_point_function.cc", "dpf/aes_128_fixed_key_hash.cc"],
   [("pseudorandom corrections", "DistributedPointFunction::GenerateNext")],
   "A statement about probability distributions under a cryptographic assumption; static analysis of "
   "the source decides provenance (P56, P03, P72) but not indistinguishability.")
na("P91", "Values drawn modulo N are within the requested statistical distance of uniform",
   "The values drawn modulo N from uniform bytes have a total variation distance from uniform below two to the "
   "minus security parameter.",
   ["inputs"], "every modulus, number of samples and security parameter",
   "The distance is far below what any number of samples can show.",
   ["dpf/int_mod_n.h", "dpf/int_mod_n.cc"],
   [("security level", "IntModNBase::GetNumBytesRequired")],
   "The bound is a real-number inequality over logarithms evaluated in floating point; the analysis has "
   "no sound theory of it. P50 and P57 decide the surrounding facts (sizes, independence of blocks).")
na("P92", "Cuckoo insertion succeeds with high probability at the recommended load",
   "With the recommended number of buckets, inserting all elements with fresh hash functions succeeds "
   "except with negligible probability.",
   ["inputs"], "every set of elements, over the choice of hash functions",
   "Failures are rare events; tests run a few sets.",
   ["pir/hashing/cuckoo_hash_table.cc", "pir/cuckoo_hashed_dpf_pir_server.cc"],
   [("parameters", "CuckooHashedDpfPirServer::GenerateParams")],
   "A probability over hash functions and a bound from the literature, not a fact about the program; P37 decides "
   "that no accepted element is lost.")
na("P94", "Evaluation time and memory accesses do not depend on secrets",
   "The sequence of branches and memory addresses of key generation and evaluation is independent of "
   "seeds, alpha and beta.",
   ["inputs"], "all pairs of secrets",
   "Timing differences are below the noise of a test, and depend on the compiler.",
   ["dpf/distributed_point_function.cc", "dpf/internal/evaluate_prg_hwy.cc"],
   [("corrections selected by control bits", "EvaluateSeedsNoHwy")],
   "The project does not promise it, and the source branches on control bits and points; a constant-time rule "
   "would raise alarms on code that is right.")
