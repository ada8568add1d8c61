#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list; edit here, then run)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Primitive values use the exact EOSIO wire format and round-trip",
  "Encoding any boolean, fixed-width integer, float, string, byte string or variable-length integer produces exactly the EOSIO binary form (little-endian, IEEE-754 bits kept, 7-bit-group varuint32, zig-zag varint32, length-prefixed strings and bytes), through the generic encode call and through the individual write methods alike. Decoding those bytes through either route restores the identical value and consumes exactly those bytes. A variable-length integer that does not fit in 32 bits is reported as an error by encoder and decoder, never a crash or a different number.",
  ["inputs"], "every value of every primitive type, including all varint length boundaries and all string/byte lengths",
  "The tests encode a handful of constants; no test writes a varint above 12,345,678, a float special value, or a length that needs a two-byte prefix in both directions.",
  ["pkg/abi/encode.go", "pkg/abi/decode.go"],
  [("Encoder.Encode fast path and Write* methods", "pkg/abi/encode.go"), ("Decoder.Decode fast path and Read* methods", "pkg/abi/decode.go")],
  ["chain.NewEncoder(w).Encode(v)", "abi.Encoder.Write*", "chain.NewDecoder(r).Decode(&v)", "abi.Decoder.Read*"])

p("C02", "Chain value types use the exact EOSIO wire format and round-trip",
  "Names, symbols, symbol codes, assets, extended assets, time points, block timestamps, block numbers, checksums, 64/128-bit integers, 128-bit floats, byte strings, blobs, public keys and signatures (all key types, WebAuthn included) encode to exactly the bytes EOSIO defines for them and decode back to the identical value; keys and signatures of a type that does not exist are refused. The bytes are the same whether the value is passed by value or by pointer, stands alone or is nested in a slice, and whether the chain encoder or the plain reflective encoder is used.",
  ["inputs"], "every value of every chain type, all key types and all WebAuthn payload lengths",
  "Each type has one or two hand-written vectors; boundary values, second and third key types, long WebAuthn payloads and the by-value/by-pointer/reflective routes are not covered.",
  ["pkg/chain/encoding.go", "pkg/chain/name.go", "pkg/chain/asset.go", "pkg/chain/symbol.go", "pkg/chain/time.go", "pkg/chain/checksum.go", "pkg/chain/numbers.go", "pkg/chain/public_key.go", "pkg/chain/signature.go", "pkg/chain/bytes.go", "pkg/chain/blob.go"],
  [("MarshalABI/UnmarshalABI of each type", "pkg/chain/*.go"), ("fast-path type switches", "pkg/chain/encoding.go")],
  ["chain.NewEncoder(w).Encode(v)", "chain.NewDecoder(r).Decode(&v)", "v.MarshalABI / v.UnmarshalABI"])

p("C03", "Transactions and actions serialize canonically and digest correctly",
  "Any transaction, transaction header, extension, action or permission level encodes to exactly the EOSIO packed form (field order, varuint32 header fields and list counts, length-prefixed action data) and decodes back to an equal value. The digest of an action is the SHA-256 of its packed form, so two actions share a digest only if they pack to the same bytes.",
  ["inputs"], "every transaction: any header values, any number of context-free actions, actions, authorizations and extensions, any data length",
  "One transaction with a single action and small header values is tested; lists of 128+ items, large varuint header fields and digests are never exercised.",
  ["pkg/chain/transaction.go", "pkg/chain/action.go"],
  [("Transaction/TransactionHeader/Action MarshalABI and UnmarshalABI", "pkg/chain/transaction.go, pkg/chain/action.go"), ("Action.Digest", "pkg/chain/action.go")],
  ["chain.NewEncoder(w).Encode(tx)", "chain.NewDecoder(r).Decode(&tx)", "Action.Digest()"])

p("C04", "Composite Go types encode field by field and round-trip",
  "For any Go type built from supported element types by structs, slices, fixed arrays, maps and pointers, with fields optionally marked optional, the encoded bytes are the concatenation EOSIO defines (fields in declaration order, varuint32 counts for slices and maps, map entries in any order, no count for arrays, one presence byte for optionals) and decoding restores an equal value. Fields marked variant decode from a varuint32 index plus the selected alternative, leaving every other alternative unset and rejecting an index that does not exist; a field marked extension may be absent at the end of the data and is then left at its zero value. A nil pointer that is not optional is an encoding error, not a crash.",
  ["inputs", "programs"], "every such type (nesting, tags, named and unnamed element types) and every value of it",
  "The tests use about ten fixed struct types; the type space itself (nesting of slices, arrays, maps, pointers and tags) is unbounded.",
  ["pkg/abi/encode.go", "pkg/abi/decode.go"],
  [("EncodeValue", "pkg/abi/encode.go"), ("DecodeValue, DecodeVariant, indirect", "pkg/abi/decode.go")],
  ["Encoder.Encode(v)", "Decoder.Decode(&v)", "Decoder.DecodeVariant(&v)"])

p("C05", "Decoding into a used value gives the same result as into a fresh one",
  "Decoding into a variable that already holds data from an earlier decode or assignment leaves it equal to what decoding the same bytes into a zero value gives: nothing of the old contents (list elements, map entries, optional values, variant alternatives, authorizations) survives.",
  ["histories"], "every type, every earlier value and every sequence of successive decodes into the same variable",
  "One struct type and three decodes are tested; chain types (actions, transactions, keys) and nested containers are never decoded into a used value.",
  ["pkg/abi/decode.go", "pkg/chain/action.go", "pkg/chain/transaction.go", "pkg/chain/public_key.go", "pkg/chain/signature.go"],
  [("DecodeValue slice/map/optional reset", "pkg/abi/decode.go"), ("UnmarshalABI of composite chain types", "pkg/chain/action.go, pkg/chain/transaction.go")],
  ["Decoder.Decode(&v) repeated on one v"])

p("C06", "Values stream back to back and decode independently of read chunking",
  "A sequence of values written by one encoder, through any mix of its methods and with refused values in between, occupies exactly the concatenation of their individual encodings, and one decoder reading that stream yields the same sequence, consuming exactly each value's bytes and no more. The result does not depend on how the underlying reader splits the data into reads, including one byte at a time or data delivered together with end-of-file. At the end of the stream, decoding a further value (one that takes at least a byte) gives io.EOF.",
  ["histories", "inputs"], "every sequence of values of any types and every read-size schedule",
  "Tests decode one value from an in-memory reader that returns everything at once.",
  ["pkg/abi/decode.go", "pkg/abi/encode.go", "pkg/chain/abi.go", "pkg/chain/encoding.go"],
  [("ReadBytes / io.ReadFull", "pkg/abi/decode.go"), ("WriteBytes", "pkg/abi/encode.go")],
  ["Decoder.Decode over a custom io.Reader", "remaining bytes of the reader", "Abi.Decode"])

p("C07", "Truncated input is always reported as an error",
  "Decoding any strict prefix of a valid encoding, into a typed value or through an ABI definition, returns an error and never reports success. The only exception is a prefix that ends exactly where a trailing binary-extension field would start: it decodes successfully with that field absent, while data that stops inside an extension field is still an error.",
  ["inputs", "crash_points"], "every value of every type and every cut position in its encoding",
  "No test feeds truncated data to any decoder.",
  ["pkg/abi/decode.go", "pkg/chain/abi.go", "pkg/chain/action.go", "pkg/chain/transaction.go", "pkg/chain/public_key.go", "pkg/chain/signature.go"],
  [("io.ReadFull errors and extension handling", "pkg/abi/decode.go DecodeValue"), ("decodeType extension handling", "pkg/chain/abi.go")],
  ["error result of Decoder.Decode, Abi.Decode, Action.DecodeInto"])

p("C08", "Hostile binary input never crashes, hangs or exhausts memory",
  "Decoding arbitrary bytes into any supported type, or through any well-formed ABI definition, returns a value or an error: it never panics, overflows the stack or loops forever, and memory allocated stays within a fixed multiple of the input size plus a constant, whatever the lengths and counts the input claims. A value that decodes successfully can be encoded again (variants and absent extensions apart), and those bytes decode to the same value; rendering it as text or JSON does not panic either.",
  ["inputs"], "every byte string, in particular ones claiming huge lengths or counts, unknown tags, and deep nesting",
  "No test decodes malformed input; the two fuzz targets cover only asset and name strings.",
  ["pkg/abi/decode.go", "pkg/chain/abi.go", "pkg/chain/transaction.go", "pkg/chain/action.go", "pkg/chain/asset.go", "pkg/chain/public_key.go", "pkg/chain/signature.go"],
  [("length-prefixed reads", "pkg/abi/decode.go ReadBytes/ReadString/DecodeValue"), ("array, variant and nesting handling", "pkg/chain/abi.go")],
  ["panic/error/allocation of Decoder.Decode, Abi.Decode, String(), json.Marshal"])

p("C09", "Every read and write failure of the underlying stream is reported",
  "If the underlying writer fails at any write during an encode, or the underlying reader fails at any read during a decode, the call returns that error (once or permanently failing streams alike) for every type and through an ABI definition as well. Nothing is reported as encoded or decoded when part of its bytes were lost.",
  ["fault_sequences", "crash_points"], "every value, every position at which the stream fails, and both transient and permanent failures",
  "No test uses a failing reader or writer.",
  ["pkg/abi/encode.go", "pkg/abi/decode.go", "pkg/chain/action.go", "pkg/chain/transaction.go", "pkg/chain/abi.go", "pkg/chain/asset.go", "pkg/chain/public_key.go", "pkg/chain/signature.go"],
  [("error returns of every Marshal/Unmarshal step", "pkg/chain/*.go, pkg/abi/*.go")],
  ["error result of Encode/Decode over fault-injecting io.Writer/io.Reader"])

p("C10", "ABI-driven encoding and decoding follow the schema exactly",
  "For any well-formed ABI definition and any value of one of its types, encoding produces exactly the EOSIO bytes (base-struct fields first, then own fields in order, aliases resolved, array counts, presence bytes, variant indexes, binary extensions) and decoding those bytes gives back an equal value keyed by field name, which can be encoded again to the same bytes. Built-in types decode to the library's own typed values and produce the same bytes as encoding those values directly. Action data is decoded and encoded with the type the ABI names for that action.",
  ["inputs", "programs", "configurations"], "every well-formed ABI (inheritance chains, alias chains, optionals, arrays, variants, extensions, recursion, empty structs, any names) and every value of its types",
  "One ABI with one base struct, one variant and one array is tested with a single value.",
  ["pkg/chain/abi.go", "pkg/chain/action.go"],
  [("resolver and resolvedType", "pkg/chain/abi.go"), ("encodeType/encodeInner, decodeType/decodeInner", "pkg/chain/abi.go"), ("Action.Decode", "pkg/chain/action.go")],
  ["Abi.Encode", "Abi.Decode", "Abi.EncodeAction", "Abi.DecodeAction", "Action.Decode"])

p("C11", "ABI-driven encoding rejects values that do not fit the schema",
  "Encoding through an ABI a value that does not match the requested type (wrong Go type at any position, missing or nil required field, non-list for an array, malformed or unknown variant choice) returns an error and never panics, and so does requesting an unknown type or action. It never silently encodes something else in place of the mismatched part.",
  ["inputs"], "every well-formed ABI, every valid value, and every single-point corruption of that value",
  "No test encodes a mismatched value.",
  ["pkg/chain/abi.go"],
  [("type assertions in encodeType/encodeInner", "pkg/chain/abi.go")],
  ["error result of Abi.Encode, Abi.EncodeAction, Abi.DecodeAction, Abi.Decode"])

p("C12", "Malformed ABI definitions cause errors, not crashes",
  "Encoding or decoding through an ABI definition that is itself malformed (empty or odd type names, dangling references, cyclic aliases, structs that contain or inherit from themselves, inheritance from a non-struct, empty variants) either works or returns an error. It never panics, overflows the stack or hangs.",
  ["inputs", "configurations"], "every ABI definition, however malformed, any requested type name, and any input bytes or value",
  "The only ABI in the tests is well formed.",
  ["pkg/chain/abi.go"],
  [("resolver.resolve", "pkg/chain/abi.go"), ("allFields", "pkg/chain/abi.go")],
  ["panic/error of Abi.Decode, Abi.Encode"])

p("C13", "ABI definitions survive JSON and binary storage unchanged",
  "Any ABI definition converted to JSON and back, or packed to its binary form and back, equals the original, and its binary form is exactly the EOSIO abi_def layout. Binary ABIs from before variants existed (ending after the extensions list) load with no variants, and looking up an action, table, struct, alias or variant by name returns the first entry with exactly that name or nothing.",
  ["inputs"], "every ABI definition and every lookup name",
  "Tests load one ABI from JSON; none packs or unpacks an ABI.",
  ["pkg/chain/abi.go", "pkg/abi/decode.go"],
  [("Abi and its element structs with tags", "pkg/chain/abi.go"), ("extension handling", "pkg/abi/decode.go")],
  ["chain.NewEncoder/Decoder on Abi", "json.Marshal/Unmarshal on Abi", "Abi.GetStruct/GetAction/GetTable/GetType/GetVariant"])

p("C14", "Names map one-to-one between text and 64-bit values",
  "Rendering any 64-bit name value and parsing the text gives the same value, and every well-formed EOSIO name text (up to 12 characters of .12345a-z plus a 13th limited to .1-5a-j, no trailing dot) parses and renders to itself. The numeric order of names equals the character order of their texts; other text never panics and always yields some renderable name.",
  ["inputs"], "every 64-bit value, every well-formed name, and every string",
  "The tests check six strings; the fuzz target only checks that the output looks like a name.",
  ["pkg/chain/name.go"],
  [("stringToName / nameToString", "pkg/chain/name.go")],
  ["chain.NewName, chain.N, Name.String, MarshalText/UnmarshalText"])

p("C15", "Asset and symbol text is exact decimal and round-trips",
  "Any asset with a valid symbol renders as its exact decimal amount with precisely the symbol's number of decimals and parses back to the same amount, precision and code; the same holds for symbols and symbol codes. Text that is accepted denotes exactly the resulting amount, and text with a bad amount, more than 18 decimals, an amount outside 64 bits, or a code with anything but capital letters or more than 7 of them is rejected with an error. The floating-point value of an asset is the float64 nearest to its decimal text.",
  ["inputs"], "every int64 amount, every precision 0-18, every code of 1-7 letters, and every string",
  "About ten strings are tested; extreme amounts, zero with decimals, negative fractions and rejected inputs are not.",
  ["pkg/chain/asset.go", "pkg/chain/symbol.go"],
  [("NewAssetFromString, Asset.String, FloatValue", "pkg/chain/asset.go"), ("rawSymbolValue, Symbol.Name/Precision", "pkg/chain/symbol.go")],
  ["chain.NewAssetFromString, Asset.String, FloatValue, NewSymbol, NewSymbolFromString, Symbol.*"])

p("C16", "Times convert exactly between instants, values and text",
  "Time points, second-resolution time points and block timestamps convert to the instant they denote and back without change, render as UTC text whatever the local time zone (years 0 to 9999, milliseconds for time points, rounded down), and parse that text (with or without a trailing Z) back to the same value at that resolution. Converting an instant keeps it to the type's resolution: microseconds and seconds round down, block timestamps go to the nearest half-second slot, and so does the text of a time between slots. Text that is malformed or denotes an instant the type cannot hold is rejected with an error.",
  ["inputs", "configurations"], "every representable value, every instant in range, every time zone, and every string",
  "Four values are tested, all in the default zone.",
  ["pkg/chain/time.go"],
  [("New*/Time()/String()/New*FromString", "pkg/chain/time.go")],
  ["chain.NewTimePoint*, NewBlockTimestamp*, Time(), String()"])

p("C17", "Large integers keep their exact value through text, JSON and big.Int",
  "Signed and unsigned 128-bit integers convert to and from decimal text, big integers, JSON and bytes in either byte order without losing or changing the value over their whole range, and out-of-range or malformed text is rejected with an error (a big integer out of range never becomes another number). 64-bit integers and block numbers are written to JSON as numbers up to 2^32-1 and as strings above, read back from either form to the same value, and anything that is not a decimal integer in range is rejected.",
  ["inputs"], "every 128-bit, 64-bit and 32-bit value, and every string",
  "Ten values are tested; the minimum signed value, values just out of range and malformed inputs are not.",
  ["pkg/chain/numbers.go"],
  [("NewInt128/NewUint128 and String/BigInt/Bytes", "pkg/chain/numbers.go"), ("readUintJSON/writeUintJSON", "pkg/chain/numbers.go")],
  ["chain.NewInt128*, NewUint128*, String, BigInt, Bytes, JSON"])

p("C18", "Key and signature text is checksummed and round-trips",
  "Any public key or signature of any key type (K1, R1, WA) renders to the EOSIO text form for its type and parses back to the same type and bytes; any K1 key holding a compressed point also renders to the legacy form with a prefix and parses back (asking for the legacy form of a key of another type panics). The text produced is the one other EOSIO software produces (RIPEMD-160 checksum salted with the type name, or unsalted for legacy keys). Any altered, truncated or retyped text is rejected with an error.",
  ["inputs"], "every key and signature of every type, every prefix, and every single-character corruption of the text",
  "Two keys and two signatures are tested; legacy text, R1 and corrupted text are not.",
  ["pkg/chain/public_key.go", "pkg/chain/signature.go", "pkg/chain/key_type.go", "pkg/base58/base58check.go"],
  [("NewPublicKeyFromString, String, LegacyString", "pkg/chain/public_key.go"), ("NewSignatureString, String", "pkg/chain/signature.go"), ("CheckEncodeEosio/CheckDecodeEosio", "pkg/base58/base58check.go")],
  ["chain.NewPublicKeyFromString, PublicKey.String/LegacyString, NewSignatureString, Signature.String"])

p("C19", "Base58 is a bijection and its checksums detect corruption",
  "Base58 encoding of any byte string (leading zero bytes included) is the standard Bitcoin base58 text and decodes back to the same bytes; text containing any character outside the alphabet decodes to nothing rather than to other bytes or a crash. Both check-encoded forms append the right 4-byte checksum (double SHA-256, or RIPEMD-160 over data plus suffix), decode back to the payload, and reject wrong checksums, wrong suffixes and texts too short to hold a checksum.",
  ["inputs"], "every byte string of every length, every string, every suffix",
  "About thirty vectors, none with non-ASCII text or corrupted checksums of valid payloads.",
  ["pkg/base58/base58.go", "pkg/base58/base58check.go", "pkg/base58/alphabet.go"],
  [("Encode/Decode 10-digit chunking", "pkg/base58/base58.go"), ("checksums", "pkg/base58/base58check.go")],
  ["base58.Encode, Decode, CheckEncode, CheckDecode, CheckEncodeEosio, CheckDecodeEosio"])

p("C20", "Digests equal the standard hash however the message is fed",
  "The RIPEMD-160 hash of any message equals the standard function, however the message is split into writes, with intermediate sums taken at any point, after a reset, and with sums appended to existing slices. The 160-, 256- and 512-bit checksum helpers return the RIPEMD-160, SHA-256 and SHA-512 of exactly the message given.",
  ["histories", "inputs"], "every message of every length and every interleaving of writes, sums and resets",
  "Eight short vectors and one long uniform message; split points within blocks are sampled only at half the length.",
  ["pkg/ripemd160/ripemd160.go", "pkg/ripemd160/ripemd160block.go", "pkg/chain/checksum.go"],
  [("digest.Write buffering and Sum padding", "pkg/ripemd160/ripemd160.go"), ("_Block", "pkg/ripemd160/ripemd160block.go"), ("Checksum*Digest", "pkg/chain/checksum.go")],
  ["ripemd160.New().Write/Sum/Reset", "chain.Checksum160Digest/256/512"])

p("C21", "Chain values survive JSON unchanged in the EOSIO JSON form",
  "Every chain value converted to JSON and back is equal to the original (times to the millisecond), and its JSON is the documented EOSIO form (names, assets, symbols, times, keys, signatures and 128-bit integers as their text, bytes and checksums and 128-bit floats as lower-case hex, blobs as base64, structures as objects with EOSIO field names). This holds whether the value is passed directly, by pointer, or sits inside a struct, slice, map or a value decoded through an ABI; blobs written without base64 padding or with nodeos' surplus padding character are read correctly.",
  ["inputs"], "every value of every chain type in every embedding",
  "One value per type is tested, mostly by pointer.",
  ["pkg/chain/bytes.go", "pkg/chain/blob.go", "pkg/chain/checksum.go", "pkg/chain/numbers.go", "pkg/chain/signature.go", "pkg/chain/public_key.go", "pkg/chain/action.go", "pkg/chain/transaction.go"],
  [("MarshalText/UnmarshalText/MarshalJSON of each type", "pkg/chain/*.go")],
  ["json.Marshal / json.Unmarshal of chain types"])

p("C22", "Malformed text and JSON is rejected with an error, never a crash",
  "Parsing any string as any chain type, directly or through JSON, either returns a value or an error and never panics. In particular odd-length or non-hex digits and hex of the wrong length for fixed-size types, non-base64 blobs, and key or signature texts that are too short, mis-delimited or contain characters outside the alphabet all give an error instead of a partial, stale or truncated value.",
  ["inputs"], "every string and JSON document for every type with a text form",
  "Only a few rejected asset and symbol strings are tested.",
  ["pkg/chain/checksum.go", "pkg/chain/bytes.go", "pkg/chain/blob.go", "pkg/chain/numbers.go", "pkg/chain/public_key.go", "pkg/chain/signature.go", "pkg/base58/base58.go", "pkg/chain/asset.go", "pkg/chain/symbol.go", "pkg/chain/time.go"],
  [("UnmarshalText/UnmarshalJSON/New*FromString of each type", "pkg/chain/*.go")],
  ["error/panic of UnmarshalText, json.Unmarshal, New*FromString"])

p("C23", "Operations never modify their inputs or share memory with their outputs",
  "Encoding, rendering, hashing and parsing leave the values, byte slices and strings they are given unchanged (spare capacity behind a slice included), so repeating an operation gives the same answer. Decoded and parsed values do not share memory with the input buffer or with values returned by other calls: changing one afterwards never changes another.",
  ["histories", "inputs"], "every operation on every value followed by any mutation of inputs or outputs",
  "No test looks at an input after the call or mutates a result.",
  ["pkg/chain/blob.go", "pkg/chain/bytes.go", "pkg/abi/decode.go", "pkg/abi/encode.go", "pkg/chain/abi.go", "pkg/base58/base58.go", "pkg/base58/base58check.go", "pkg/ripemd160/ripemd160.go", "pkg/chain/numbers.go"],
  [("copying in UnmarshalText / ReadBytes / base58", "pkg/chain, pkg/abi, pkg/base58")],
  ["inputs after the call", "outputs after mutating inputs or other outputs"])

p("C24", "Independent operations are safe and deterministic under concurrency",
  "Any mix of encoding, decoding, parsing, rendering and hashing run from many goroutines on shared read-only inputs (including one shared ABI definition) gives each goroutine the same results as running alone, with no data race.",
  ["schedules"], "every set of operations on shared inputs and every interleaving",
  "No test runs anything concurrently.",
  ["pkg/chain/abi.go", "pkg/chain/encoding.go", "pkg/base58/base58.go", "pkg/ripemd160/ripemd160block.go", "pkg/abi/encode.go", "pkg/abi/decode.go"],
  [("per-call resolver and decoder state; read-only package variables", "pkg/chain/abi.go, pkg/base58/base58.go, pkg/ripemd160/ripemd160block.go")],
  ["results of concurrent calls", "race detector"])

p("C25", "Generated marshaling code compiles and matches the generic codec",
  "For any struct whose fields are primitives or types with their own binary methods, slices or fixed arrays of those, or pointers (optional or not) to any of these, the generated methods compile. The generated encoder produces the same bytes as the generic encoder and reports an error for a nil non-optional pointer, and the generated decoder restores an equal value from them into a fresh or used struct and reports truncated data as an error, without taking memory for lengths the data does not back. The generator refuses (panics on) a struct with an optional field that is not a pointer, and anything that is not a struct.",
  ["programs", "inputs"], "every such struct type (any number, order and kind of fields) and every value of it",
  "The code generator has no tests.",
  ["pkg/codegen/codegen.go"],
  [("GenUnmarshalFn templates", "pkg/codegen/codegen.go")],
  ["compilation and behaviour of codegen.GenUnmarshalFn output"])

p("C26", "Custom codec hooks take precedence and fall back to the chain codec",
  "A custom encoder or decoder hook is consulted first for every value passed to the generic encode or decode call, nested fields and elements included, and what it handles is used exactly as is; whatever it declines is handled exactly as the standard chain encoder or decoder would, and an error it returns stops the operation and is returned. Types that implement the marshaling interfaces themselves are encoded and decoded through them wherever they appear.",
  ["inputs", "programs"], "every hook (any subset of types handled, declined or failed) and every value",
  "No test uses the custom constructors.",
  ["pkg/chain/encoding.go", "pkg/abi/encode.go", "pkg/abi/decode.go"],
  [("NewCustomEncoder/NewCustomDecoder", "pkg/chain/encoding.go"), ("fn hook and Marshaler/Unmarshaler lookup", "pkg/abi/encode.go, pkg/abi/decode.go")],
  ["chain.NewCustomEncoder, chain.NewCustomDecoder, abi.NewEncoder, abi.NewDecoder"])

p("C27", "Types and targets the codec cannot handle are errors, not crashes",
  "Encoding or decoding a Go value that holds something without a binary form (a channel, function, complex number, uintptr or unsafe pointer, at any depth inside structs, slices, arrays, maps, pointers, optionals or variant alternatives) returns an error, as does decoding into an interface, into something that is not a pointer, into a nil pointer to a struct, and into a variant that is not a struct or whose selected alternative is not a pointer. None of these panics or reports success.",
  ["inputs", "programs"], "every such type, at every position it can be nested in",
  "The tests use a handful of supported types only.",
  ["pkg/abi/encode.go", "pkg/abi/decode.go"],
  [("default branches of Encode/EncodeValue/Decode/DecodeValue", "pkg/abi/encode.go, pkg/abi/decode.go"), ("DecodeVariant checks", "pkg/abi/decode.go")],
  ["abi.Encoder.Encode, abi.Decoder.Decode, abi.Decoder.DecodeVariant"])

p("C28", "Rejected text leaves the variable as it was",
  "When a chain value type refuses text or JSON (a name, asset, symbol, time, checksum, key, signature, byte string, big integer and the like, read through UnmarshalText, UnmarshalJSON or encoding/json, alone or as a member of a larger document), the variable it was read into still holds exactly the value it had before, the memory behind it included.",
  ["inputs", "histories"], "every value a variable can hold and every text or JSON it can refuse",
  "Tests parse into fresh variables and never look at them after an error.",
  ["pkg/chain/numbers.go", "pkg/chain/name.go", "pkg/chain/asset.go", "pkg/chain/symbol.go", "pkg/chain/time.go", "pkg/chain/checksum.go", "pkg/chain/bytes.go", "pkg/chain/blob.go", "pkg/chain/public_key.go", "pkg/chain/signature.go"],
  [("UnmarshalText and UnmarshalJSON methods", "pkg/chain/*.go"), ("decodeFixedHex", "pkg/chain/checksum.go")],
  ["value of the variable after a failed UnmarshalText, UnmarshalJSON or json.Unmarshal"])

p("C29", "The typed and the ABI-driven codec agree",
  "For a Go type and an ABI definition that describe the same data (structs and bases, lists, optionals, variants, binary extensions, every built-in type both can express), encoding a value through either gives the same bytes. Of any bytes, intact, cut short, altered or followed by others, both decoders accept the same, consume the same part of it and return the same values.",
  ["inputs", "programs"], "every type expressible both ways, every value of it and every byte string",
  "Tests exercise each codec on its own samples.",
  ["pkg/abi/encode.go", "pkg/abi/decode.go", "pkg/chain/abi.go", "pkg/chain/encoding.go"],
  [("Encode/Decode", "pkg/abi/encode.go, pkg/abi/decode.go"), ("Abi.Encode/Abi.Decode", "pkg/chain/abi.go")],
  ["chain.NewEncoder, chain.NewDecoder, chain.Abi.Encode, chain.Abi.Decode"])

p("C30", "Every way in and out of text agrees",
  "For each chain type with a text form, all ways of parsing it (the constructors taking a string, UnmarshalText, a JSON string, a member of a JSON list, a JSON object key) accept exactly the same texts and give the same value, and all ways of rendering it (String, MarshalText, Hex or Base64, JSON by value or pointer, a JSON object key) give the same text. The short forms behave as the constructors: N as NewName, and A as NewAssetFromString except that it panics where that fails.",
  ["inputs"], "every text, well-formed or not, for every chain type, and every value of those types",
  "Tests parse and render each type through one or two of the ways with a handful of texts.",
  ["pkg/chain/numbers.go", "pkg/chain/name.go", "pkg/chain/asset.go", "pkg/chain/symbol.go", "pkg/chain/time.go", "pkg/chain/checksum.go", "pkg/chain/bytes.go", "pkg/chain/blob.go", "pkg/chain/public_key.go", "pkg/chain/signature.go"],
  [("constructors from strings", "pkg/chain/*.go"), ("String, MarshalText and UnmarshalText methods", "pkg/chain/*.go")],
  ["New...FromString, NewName, N, A, NewSignatureString", "UnmarshalText, MarshalText, String, Hex, Base64", "json.Marshal, json.Unmarshal"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
