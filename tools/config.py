"""What each check runs and what its evidence says.

rule: how cases are made and what makes one non-trivial (goes into the evidence)
oracle / note: for MANIFEST.json (tools/mkmanifest.py)
race: build with the race detector; shards: processes; scale: factor on the
number of cases in both tiers; deep: extra factor in the thorough tier;
procs: GOMAXPROCS of each process.
"""
CHECKS = {}

BIAS = "integers and lengths are biased towards powers of two, type limits and varint length boundaries"
REF = ["the reference codec in harness/ref and harness/props describes the EOSIO formats correctly (cross-checked against independent implementations at development time, see DESIGN.md)"]
INTEREST = "non-trivial: the value is not the zero value of its type (for composite types: at least one non-empty container, present optional or non-zero leaf)"


def c(pid, rule, technique, note, level="exploration", **kw):
    CHECKS[pid] = dict(rule=rule, technique=technique, note=note, level=level, **kw)


c("C01", "random values of every primitive type, varuint32/varint32 values, arbitrary varint byte strings and raw byte runs; %s; non-trivial: value not zero, varint bytes longer than one, varint beyond 32 bits" % BIAS,
  "property-based testing against a reference encoder, plus inverse",
  "generated values of all primitive types are encoded through Encode and the Write methods and compared with an independent byte writer, then decoded through both routes with exact consumption; varints beyond 32 bits and overlong byte runs are generated on purpose", assumptions=REF)
c("C02", "random values of every chain type (all key types, WebAuthn payloads of many lengths); %s; %s" % (BIAS, INTEREST),
  "property-based testing against a reference encoder, plus inverse",
  "each generated chain value is encoded by value, by pointer, inside slices/structs, by the chain and by the plain encoder, compared with reference bytes, and decoded back", assumptions=REF)
c("C03", "random transactions, headers, extensions, actions, permission levels with list lengths over 127 and data over 128 and 16384 bytes included; %s" % INTEREST,
  "property-based testing against a reference encoder, plus inverse and SHA-256",
  "packed form compared with an independent writer, decoded back, digests compared with crypto/sha256 of the reference bytes, near-identical pairs of actions must have distinct digests", assumptions=REF)
c("C04", "random Go types built with reflect (structs with tags, slices, arrays, maps, pointers, named types, leaves) and random values; non-trivial: composite type and a value that is not all zero; malformed variants indexes and nil pointers are separate classes",
  "property-based testing over generated Go types against a reference encoder",
  "types and values are generated together with a schema tree from which reference bytes are computed; map entries are compared in any order", assumptions=REF)
c("C05", "histories of decodes into one variable of a random type (generated Go types, chain types, transactions, ABI definitions), the variable also being filled by assignment; non-trivial: the value decoded last is not all zero",
  "model-based testing of decode histories against a fresh decode",
  "after every step the reused variable must equal a decode of the same bytes into a zero value")
c("C06", "sequences of values of random types written by one encoder and read by one decoder through readers with random chunk schedules (one byte, zero-length reads, data with EOF); non-trivial: more than one value, or a value that is not zero",
  "property-based testing over sequences and read schedules",
  "concatenation of the individual reference encodings, equality of the sequence read back, exact consumption after every value and io.EOF at the end", assumptions=REF)
c("C07", "every prefix (all cuts of short encodings, sampled cuts plus all field boundaries of long ones) of generated encodings; every case is a strict prefix and non-trivial",
  "property-based testing over truncation points",
  "each strict prefix must give an error, except those ending exactly at an absent extension field, which must give the value without it", assumptions=REF)
c("C08", "random bytes, mutated encodings, huge claimed lengths and counts, deep nesting, inputs of n and 4n elements, decoded into generated Go types, chain types and through generated ABIs; non-trivial: more than two bytes of input",
  "structure-aware fuzzing with allocation, depth and re-encode oracles",
  "no panic, stack overflow (256 MiB), hang (60 s of CPU) or more allocation than a constant plus a multiple of the input size (nor more than 8 times as much for 4 times the data); what decodes re-encodes to bytes that decode to the same value and renders without panic. Types with variant fields or absent extensions are exempt from re-encoding", shards=8, procs=2)
c("C09", "for each generated value every write call and every read position (all of short encodings, sampled in long ones) is made to fail once or for good, also as a short write; every case has an injected fault and is non-trivial",
  "fault injection at enumerated positions over generated values",
  "the injected error itself (errors.Is) must be returned; a reader fault at the exact end of input counts only where more input is needed", level="fault_enumeration")
c("C10", "random ABI definitions (inheritance, aliases, arrays, optionals, variants, extensions, every builtin) with random values; non-trivial: the value is not empty and has at least one non-zero leaf",
  "property-based testing over generated schemas against a reference encoder",
  "reference bytes are computed from the generated schema tree; decode must give the same tree keyed by field name, with the library's own types; actions through Action.Decode/DecodeInto and EncodeAction", assumptions=REF)
c("C11", "well-formed values with one generated corruption (wrong Go type, missing/nil field, non-list, bad variant, wrong fixed size) at a random position, unknown types and actions; every case is a mismatch and non-trivial",
  "property-based testing with mutated values: every mismatch must be an error",
  "the corruption is chosen so that no reading of the schema admits it; error required, panic never allowed")
c("C12", "random malformed ABI definitions (odd names, dangling references, cycles, non-struct bases, empty variants) with random bytes and values, self-referencing Go values included; every case is non-trivial",
  "structure-aware fuzzing of ABI definitions",
  "no panic, stack overflow, hang (CPU-time watchdog) or memory exhaustion; the answer itself is free")
c("C13", "random ABI definitions with all sections, duplicates included; non-trivial: binary form over 20 bytes, JSON over 200 characters, more than one entry to look up",
  "property-based testing: reference abi_def bytes, JSON inverse, linear-search lookup model",
  "binary form compared with an independent writer, decode and JSON give back an equal definition, lookups compared with a linear search", assumptions=REF)
c("C14", "random 64-bit values, well-formed names, pairs of names, arbitrary text, plus all single digits at all positions; non-trivial: not zero / not empty / not equal / not well-formed",
  "property-based testing against a reference name codec",
  "reference base-32 codec, identity both ways, order isomorphism on pairs that share long prefixes", assumptions=REF)
c("C15", "random amounts x precisions x codes, and generated asset/symbol texts (valid, near-valid, arbitrary); non-trivial: non-zero amount, or text outside the canonical grammar",
  "property-based testing against exact decimal arithmetic (math/big)",
  "rendered text compared with big.Int decimal rendering; accepted text must denote the resulting amount exactly; text with a stated defect must be rejected; float compared with big.Rat rounding", assumptions=REF)
c("C16", "random values over the whole range of each time type, random instants and zones, generated time texts with field-level corruptions; non-trivial: not zero (values); all texts",
  "property-based testing against civil-date arithmetic",
  "independent days-from-civil calendar, local zone varied during the run; sub-millisecond parts and years outside 0-9999 have no text form", assumptions=REF)
c("C17", "random 128-bit, 64-bit and 32-bit integers by limb patterns, generated decimal texts and JSON tokens; non-trivial: high limb set, out of range or malformed",
  "property-based testing against math/big",
  "text, JSON, big.Int and both byte orders compared with math/big over the whole range")
c("C18", "random keys and signatures of all types; altered texts (substitution, deletion, insertion, swap, truncation, retyping, re-checksummed data of wrong size); non-trivial: round trips, and altered texts that are not valid by the reference",
  "property-based testing against a reference key-text codec",
  "text compared with reference base58/RIPEMD-160; altered text must be rejected unless the reference says it is itself valid; the checksum is 32 bits so collisions are decided by the reference and not assumed away", assumptions=REF)
c("C19", "random byte strings with leading zeros, texts over the alphabet, texts with foreign characters, check-encoded payloads and corruptions; non-trivial: not empty, or containing a foreign character, or an invalid checksum by the reference",
  "property-based testing against big-integer base58 and reference checksums",
  "math/big long division, crypto/sha256 and the reference RIPEMD-160", assumptions=REF)
c("C20", "histories of Write/Sum/Reset with random splits, all lengths 0-300 and more, one message over 2^32 bits and one over 2^32 bytes; non-trivial: at least one sum and two writes, non-empty messages",
  "model-based testing of hash histories against a reference RIPEMD-160",
  "the model is the list of bytes written since the last reset, hashed by an independent RIPEMD-160 (cross-checked against golang.org/x/crypto), SHA-2 from the standard library", assumptions=REF)
c("C21", "random chain values embedded in structs, slices, maps, pointers, interfaces and ABI-decoded values, blobs with all paddings; %s" % INTEREST,
  "property-based testing against reference JSON, plus inverse",
  "JSON compared (as tokens) with a reference rendering and parsed back into an equal value", assumptions=REF)
c("C22", "canonical texts of every chain type with mutations, arbitrary strings, every JSON kind in every position; non-trivial: the reference does not demand acceptance",
  "grammar-aware fuzzing with a rejection oracle",
  "no panic on any text; texts with a stated defect must be rejected; valid texts must be accepted with their value, into fresh and used variables", assumptions=REF)
c("C23", "operations (encode, decode, parse, render, hash, base58, ABI) on values and buffers with poisoned spare capacity, then mutation of inputs and outputs; non-trivial: the value contains references (slices, maps, pointers) or the data is not empty",
  "metamorphic testing: deep snapshots before and after, mutation of every output",
  "inputs are deep-copied and compared after each operation (capacity bytes included); outputs and buffers are scrambled and every other value must stay the same")
c("C24", "random selections of up to 12 operations (encode, decode, ABI encode/decode, JSON, text, hash, base58) on shared read-only inputs, run from 2, 8 or 16 goroutines in different orders, first of all cold (the first use of the library in the process); non-trivial: more than two operations at once",
  "randomised concurrent batches against sequential results, under the race detector",
  "every answer must equal the one the operation gives alone (or the reference bytes), and the Go race detector must stay silent; schedules are the runtime's own, so only races it can see on executed paths are found", race=True, shards=4, procs=4, fuzz=False)
c("C25", "random Go programs of up to 60 struct types (primitives, types with methods of the chain, own and another package, earlier generated structs; each alone, as slice, fixed array or pointer, optional or not) for which methods are generated, compiled and run on 12 random values each (every cut, read fault and sampled write fault of each encoding); non-trivial: a struct with at least one field",
  "generated programs: compile and compare with the generic codec",
  "the generated code must compile and agree with the generic codec (checked by C04, C05, C07, C09) on the same type without methods: bytes, values into fresh and used variables, truncation, stream faults, nil pointers. Nested slices, slices of pointers, maps and embedded fields are outside the property", scale=3, fuzz=False)
c("C26", "random hooks (each type occurring in a generated Go type may be handled, handled through nested calls, declined or made to fail) with random values; non-trivial: the hook handled or failed at least one value",
  "property-based testing against a reference interpretation of the hook",
  "expected bytes are computed from the generated schema tree with the handled values replaced by the hook's tokens; consultation, errors and exact consumption are checked, and a declining hook must make no difference on valid and corrupted input", assumptions=REF)
c("C27", "types with an unsupported kind nested 0-4 levels deep in structs, slices, arrays, maps, pointers, optionals and variant alternatives, with wire data that leads to it; non-pointer and nil targets of generated types; malformed variants; every case is non-trivial",
  "property-based testing over generated Go types: every case must be an error",
  "the unsupported part is always reachable by the encoder or decoder, so the only right answer is an error; panics are caught and reported")

c("C28", "a random value in the variable (with its spare memory filled) and refused input for its type: altered canonical texts, odd strings, JSON of every kind, alone, through the methods and as a member of a struct or list; non-trivial: the input is refused",
  "property-based testing: deep snapshot of the variable before a refused parse",
  "bit-exact snapshot (NaN payloads, nil versus empty included) compared after every error. ExtendedAsset and other plain structs, which encoding/json fills member by member, and lists, which it resets itself, are outside the property")
c("C29", "random Go types with an ABI definition derived from each (first struct fields sometimes written as bases, definitions in either order), random values, and their bytes intact, followed by others, cut or altered in up to three places; non-trivial: the value is not all zero, the data is not empty",
  "differential testing of the two codecs over generated types, values and damaged data",
  "bytes from both encoders, and acceptance, consumption and values from both decoders, must be the same; types without an ABI form (maps, own codecs) and optionals that are not pointers are left out")
c("C30", "canonical texts of random values of every text type, altered texts, odd strings; values with odd symbols and sub-millisecond times for rendering; non-trivial: an accepted text that is not empty or a refused one of more than two characters",
  "differential testing of the parsing and rendering routes",
  "acceptance and value of every route must equal those of UnmarshalText, text of every route that of MarshalText; texts that are not UTF-8 are left out of the JSON routes, which replace them. Whether the text itself is right is decided by C14 to C18, C21 and C22")

SCALES = dict(C01=24, C02=20, C03=2, C04=2.5, C05=2, C06=5, C07=2.5, C08=2.5, C09=2.5, C10=6, C11=20, C12=2, C13=8, C14=16, C15=8, C16=14, C17=8, C18=3, C20=4, C21=2, C22=8, C23=2.5, C26=2.5, C27=8, C28=12, C29=6, C30=20)
for _k, _v in SCALES.items():
    CHECKS[_k]["scale"] = _v

LARGE = {
    "C01": "strings and byte strings up to 4 MB", "C02": "key and signature payloads up to 1 MB, lists of over 65536 values",
    "C03": "lists of over 65536 entries, data up to 4 MB", "C04": "containers past 65536 elements, hundreds of levels of nesting, structs of hundreds of fields",
    "C05": "containers past 65536 elements growing and shrinking", "C06": "thousands of values and megabytes in one stream",
    "C07": "cuts of encodings of megabytes", "C09": "faults in encodings of megabytes", "C10": "lists past 65536 elements, hundreds of fields, aliases and bases",
    "C11": "the mismatch late in a list of over 65536 elements or hundreds of levels down", "C12": "hundreds of levels of aliases, bases and references",
    "C13": "definitions with tens of thousands of entries", "C18": "key payloads up to 1 MB", "C19": "base58 of up to 16 KB", "C20": "messages of megabytes",
    "C21": "blobs and lists of megabytes", "C22": "texts of megabytes, spoiled anywhere", "C23": "buffers and values of megabytes", "C24": "batches on values of megabytes",
    "C26": "hooks consulted for more than 65536 values", "C28": "refused texts of megabytes", "C29": "lists past 65536 elements, hundreds of levels",
}
for _k, _v in LARGE.items():
    CHECKS[_k]["rule"] += "; a fixed number of large cases on top (%s)" % _v

MORE = {
    "C02": "values used once and then changed in place; keys of types that do not exist",
    "C05": "steps with cut or altered data",
    "C27": "interfaces that are empty or point to themselves",
    "C03": "values and actions used once and then changed in place",
    "C04": "values used once and then changed in place; types of the same name",
    "C06": "readers and writers of many kinds (of the standard library, with and without WriteString, ReadByte, ReadFrom, Len)",
    "C07": "readers of many kinds",
    "C09": "well-known and own errors, with and without data, also with all bytes written; streams with and without ReadByte, WriteString, WriteByte",
    "C10": "definitions redefined, and edited in place, between uses; variants of up to 600 alternatives",
    "C11": "choice lists of up to 65538 elements",
    "C15": "texts longer than a valid one by 256, 512 or 65536 characters", "C16": "texts longer than a valid one by 256, 512 or 65536 characters",
    "C17": "texts longer than a valid one by 256, 512 or 65536 characters",
    "C26": "types with failing methods at every position, variants and extensions included",
    "C13": "lookups after the definition was edited in place",
    "C18": "keys used once and then changed in place", "C19": "buffers changed in place", "C20": "messages changed in place",
    "C21": "values used once and then changed in place",
    "C25": "structs of up to 300 fields, arrays and lists of up to 70000 elements; readers of five kinds",
}
for _k, _v in MORE.items():
    CHECKS[_k]["rule"] += "; also " + _v
