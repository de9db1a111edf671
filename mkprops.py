#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

ENC="eth_abi/encoding.py"; DEC="eth_abi/decoding.py"; COD="eth_abi/codec.py"; REG="eth_abi/registry.py"
GRA="eth_abi/grammar.py"; BAS="eth_abi/base.py"; NUM="eth_abi/utils/numeric.py"; PAD="eth_abi/utils/padding.py"
STRAT="eth_abi/tools/_strategies.py"; EXC="eth_abi/exceptions.py"; STR="eth_abi/utils/string.py"; PACK="eth_abi/packed.py"

p("C01","Encoding produces exactly the Solidity contract ABI encoding",
  "For every list of supported type strings and every list of matching Python values, encode returns exactly the byte string the Solidity contract ABI specification prescribes: values in 32-byte words (numbers left-padded with their sign, bytesN right-padded with zeros), static parts inline in the head, dynamic parts in the tail behind an offset counted from the start of the enclosing tuple or array contents, and length-prefixed arrays, bytes and UTF-8 strings. The result does not depend on which accepted Python form (list, tuple or other sequence; bytes or bytearray; hex or binary address; int or Decimal) carries the value.",
  ["inputs"],"all type lists over uint/int/fixed/ufixed of every width, bytes1..32, bytes, string, address, bool, function, the aliases, tuples and fixed or dynamic arrays nested to any depth, and all values of those types, including empty and very long ones",
  "The repository compares encode with expected bytes for about 120 hand-written cases; its property tests check single coders or only reversibility, so an encoding that is wrong but reversible, or wrong only for some width, length, nesting or mix of static and dynamic members, is not seen.",
  [ENC,COD,PAD,NUM],[("head/tail assembly of tuples",ENC+":TupleEncoder.encode"),("head/tail assembly of arrays",ENC+":BaseArrayEncoder.encode_elements"),("word padding and sign fill",ENC+":FixedSizeEncoder.encode, SignedIntegerEncoder.encode"),("length prefix",ENC+":ByteStringEncoder, TextStringEncoder, DynamicArrayEncoder")],
  ["return value of eth_abi.encode / ABICodec.encode"])
p("C02","Decoding an encoding returns the original values",
  "For every list of supported types and every list of values they can represent, decode(types, encode(types, values)) returns a tuple equal to those values in canonical Python form: int, bool, str and bytes with exactly those types, Decimal for fixed point, lower-case 0x-prefixed hex for addresses, bytesN right-padded to N bytes, tuples for every array and tuple. This holds in strict and in non-strict mode, for bytes and bytearray data, and whatever bytes follow the encoding.",
  ["inputs","configurations"],"all supported type lists and values they can represent, both strictness settings, bytes and bytearray input, arbitrary trailing bytes",
  "The reversibility property test draws ten-element-at-most structures from a generator that never produces strings, booleans, arrays of tuples, arrays of bytes, multi-dimensional arrays, aliases or non-strict mode, and it checks equality only, not the Python types returned.",
  [ENC,DEC,COD],[("decoders mirror encoders per type",DEC),("frame stack for nested offsets",DEC+":ContextFramesBytesIO, HeadTailDecoder")],
  ["eth_abi.encode then eth_abi.decode"])
p("C03","Any well-formed payload decodes to the value the ABI assigns to it",
  "For every type list and every byte string, canonical or not, in which each offset points past the head it stands in and inside the data, each length fits, and every padding rule is met, decode succeeds in strict mode and returns exactly the value the ABI specification assigns to those bytes. In particular tails may come in any order, be shared by several offsets, start at offsets that are not multiples of 32, have unused bytes between them and be followed by trailing bytes. Whenever decode returns, every returned value was read from the positions that the head offsets and lengths designate.",
  ["inputs"],"all type lists and all byte strings, canonical encodings, rearranged layouts, and arbitrary mutations of both",
  "Every decoding test except seven rejection cases feeds canonical encodings, so offset arithmetic that happens to agree with canonical layout (frames not restored, an offset ignored, tails assumed contiguous) is never distinguished.",
  [DEC,COD],[("relative offsets resolved against the enclosing frame",DEC+":HeadTailDecoder.decode, ContextFramesBytesIO.push_frame/pop_frame"),("array frame",DEC+":DynamicArrayDecoder.decode")],
  ["return value of eth_abi.decode"])
p("C04","Malformed payloads are rejected with the documented decoding errors",
  "For every type list and every byte string, strict decode either returns a value or raises a DecodingError, or UnicodeDecodeError for a string whose bytes are not UTF-8, and never any other exception. It rejects data that ends before a value does (InsufficientDataBytes), padding or sign-extension bytes that do not belong to the value and booleans other than 0 and 1 (NonEmptyPaddingBytes), and offsets that point into the head they stand in or at or beyond the end of the data (InvalidPointer). A payload with one such defect, at any nesting depth, is never accepted.",
  ["inputs","fault_sequences"],"all type lists; all byte strings, in particular every truncation of an encoding, every single corrupted padding byte, and every word replaced by an extreme value up to 2**256-1",
  "Seven malformed-pointer payloads and flat single-coder padding checks are tested; nested positions, huge lengths and offsets, and every cut point are not.",
  [DEC,EXC],[("padding checks",DEC+":FixedByteSizeDecoder.validate_padding_bytes, ByteStringDecoder.read_data_from_stream"),("pointer checks",DEC+":TupleDecoder.validate_pointers, BaseArrayDecoder.validate_pointers"),("length checks",DEC+":FixedByteSizeDecoder.read_data_from_stream")],
  ["outcome of eth_abi.decode"])
p("C05","Non-strict decoding relaxes only byte-string padding, per call",
  "decode with strict=False differs from strict decoding in exactly one way: for bytes and string values, wherever they are nested, the bytes that pad the content to a multiple of 32 may be missing or non-zero; the content itself must be complete, and all other rules still apply. Whatever strict mode accepts, non-strict mode accepts with the same result. The setting holds for that call only: no sequence of calls with either setting changes what a later call accepts or returns, for built-in types and for decoders registered as instances.",
  ["inputs","histories"],"all type lists, payloads with missing or dirty padding at any depth, and all interleavings of strict and non-strict calls on one registry",
  "Three flat payloads are decoded with strict=False, each followed by one strict call; nested byte strings, other corruptions in non-strict mode and longer call histories are not tried.",
  [DEC,REG,COD],[("strict flag carried by dynamic decoders",REG+":ABIRegistry._get_decoder_uncached"),("padding branch",DEC+":ByteStringDecoder.read_data_from_stream"),("lookup cache keyed by strict",REG+":ABIRegistry.get_decoder")],
  ["eth_abi.decode(..., strict=...)"],
  [dict(name="decoder cache",meaning="memoised decoder per (type, strict)",where=REG+":ABIRegistry.get_decoder")])
p("C06","encode accepts exactly the values of the type and never alters one",
  "encode succeeds only for values the type can represent exactly: integers and fixed-point numbers within the bit width and with no more fractional digits than the type has, finite numbers only, at most N bytes for bytesN, bool only for bool and never for integers, text only for string, bytes or bytearray for bytes, 20-byte or 40-hex-digit addresses, and sequences of exactly the declared length for fixed arrays and tuples. Any other value, at any nesting depth, raises an EncodingError (EncodingTypeError for a wrong Python type, ValueOutOfBounds for a wrong magnitude or length, IllegalValue for NaN, infinity or excess precision, and for text that has no UTF-8 form) and nothing is wrapped, truncated, rounded or coerced. Every value that does fit, up to and including the exact bounds, is accepted.",
  ["inputs"],"all types and all Python values of the built-in types and their subclasses (Decimals with exponents the decimal module can normalise), in particular values adjacent to each bound of each width, at any nesting depth",
  "About 25 non-encodable values are listed; the bounds of the other widths, nested positions, extreme magnitudes and the remaining Python types are not tried.",
  [ENC,NUM,STR,EXC],[("bounds checks",ENC+":NumberEncoder.validate_value"),("precision check",ENC+":BaseFixedEncoder.validate_value"),("length checks",ENC+":TupleEncoder.validate_value, SizedArrayEncoder.validate_value, BytesEncoder.validate_value")],
  ["outcome of eth_abi.encode"])
p("C07","is_encodable tells the truth about encode for any value",
  "For every type string and every Python value, is_encodable returns True exactly when encode of that single value under that type succeeds, and returns False, rather than raising, otherwise; is_encodable_packed does the same for encode_packed. is_encodable_type(t) is True exactly when encode finds an encoder for t. Asking never changes the value asked about.",
  ["inputs","programs"],"all supported, invalid and unknown type strings; all Python values including mistyped, out-of-range, malformed and oversized ones; standard and packed codecs, default and custom registries",
  "The tests check two lists of examples for each verdict separately and never compare the verdict with what encode does.",
  [COD,ENC],[("validation without encoding",COD+":ABIEncoder.is_encodable"),("per-coder validate_value",ENC)],
  ["eth_abi.is_encodable, eth_abi.packed.is_encodable_packed, eth_abi.encode, encode_packed"])
p("C08","Packed encoding is the unpadded concatenation of its parts",
  "For every list of supported types and matching values, encode_packed returns the concatenation, in order and with no offsets, lengths or padding words, of each leaf value in its minimal width: M/8 bytes for M-bit numbers, 1 for bool, 20 for address, N for bytesN, the raw bytes of bytes and of UTF-8 strings, with tuples and arrays of any dimension contributing just their elements. Values that do not belong to the type, including sequences of the wrong length for fixed arrays or tuples, are refused with an EncodingError just as in standard encoding.",
  ["inputs"],"all supported type lists and values, nested arrays and tuples included",
  "Packed output is compared for the same hand-written cases as standard encoding; widths other than 8, 32, 128 and 256 bits and nested fixed arrays hardly occur.",
  [ENC,PACK,REG],[("packed coders",ENC+":Packed*Encoder"),("packed registrations",REG+":registry_packed")],
  ["eth_abi.packed.encode_packed"])
p("C09","Type strings parse exactly by the grammar and print back unchanged",
  "parse accepts exactly the strings of the type grammar (a base name of ASCII letters with an optional size N or NxM, or a parenthesised non-empty comma-separated list of types, followed by any number of [k] or [] dimensions, sizes having no leading zero and no spaces anywhere) and raises ParseError, or ValueError for zero-sized tuples, on every other string. The result prints back to the identical string, exposes the right base, size, components and dimensions, compares equal to another result exactly when their strings are equal and to nothing else, and its is_array, is_dynamic and item type agree with the ABI specification. normalize replaces exactly the whole-word aliases with their canonical names, and doing it twice changes nothing more.",
  ["inputs"],"all strings: all well-formed type strings with sizes of up to 4300 digits and nesting within the interpreter's recursion limit, all single-edit corruptions of them, and arbitrary text",
  "A few dozen strings and a derandomised generator of types without custom bases are used, the grammar test module is not even collected by the test runner, and corrupted strings are only checked for some malformations.",
  [GRA],[("PEG grammar",GRA+":grammar"),("visitor",GRA+":NodeVisitor"),("printing",GRA+":BasicType.to_type_str, TupleType.to_type_str"),("dynamism",GRA+":is_dynamic"),("aliases",GRA+":normalize")],
  ["eth_abi.grammar.parse / normalize results"],
  [dict(name="parse cache",meaning="memoised parse results shared between callers",where=GRA+":NodeVisitor.parse")])
p("C10","A type is usable exactly when it is a valid ABI type; aliases are equal",
  "encode, decode, encode_packed, is_encodable_type and get_abi_strategy find a coder for a type string exactly when it is well formed and valid under the ABI specification: integer widths 8 to 256 in steps of 8, bytes1 to bytes32, fixed-point widths 8 to 256 in steps of 8 with 1 to 80 decimals, no suffix on string, address, bool and function, at any nesting depth. For every other string they raise ParseError, ABITypeError, NoEntriesFound or another ValueError, whatever the value or data, before producing a result. validate() of a parsed type, or of its item type, raises ABITypeError exactly when one of these bases (or hash without a number) occurs in it with a size it cannot have. The aliases uint, int, fixed, ufixed, function and byte behave in every position exactly like uint256, int256, fixed128x18, ufixed128x18, bytes24 and bytes1.",
  ["inputs"],"all type strings: every base with every suffix from the valid ranges and around them, alone and nested in arrays and tuples within the interpreter's recursion limit; every alias in every position",
  "Validity is tested on a few strings, and the modules that test it are not collected by the test runner; no test uses the byte alias or a suffixed bool.",
  [GRA,BAS,REG,COD,STRAT],[("validate",GRA+":BasicType.validate, TupleType.validate"),("normalise then parse then validate",BAS+":parse_type_str, parse_tuple_type_str"),("registrations",REG+":registry, registry_packed"),("strategy registrations",STRAT)],
  ["eth_abi.encode/decode/is_encodable_type, eth_abi.packed, eth_abi.tools.get_abi_strategy"])
p("C11","Registry lookups follow the current registrations, and only a unique match",
  "After any sequence of registrations, unregistrations (by label, type string or equal predicate), copies and lookups on a registry, a lookup or coding call for a type string uses the one registration whose predicate currently matches it, also when the type occurs inside a compound type and however often it was looked up before. If no registration matches it raises NoEntriesFound (ParseError if unparsable), and if several match it raises MultipleEntriesFound rather than choosing; has_encoder answers accordingly. A predicate or label can be registered again exactly when it is not currently registered, and a refused registration or unregistration leaves that side (encoders or decoders) unchanged.",
  ["histories","programs"],"all sequences of register, register_encoder, register_decoder, unregister variants, copy and lookup calls with string and predicate lookups, with and without labels",
  "Each registry test performs one or two operations; combinations such as re-registering after removal by an equal predicate, removing while compound types are cached, or a label reused after a refused registration are not exercised.",
  [REG],[("cache invalidation",REG+":_clear_encoder_cache, _clear_decoder_cache"),("unique match",REG+":PredicateMapping.find"),("label bookkeeping",REG+":PredicateMapping.add/remove_by_equality/remove_by_label")],
  ["ABIRegistry methods and ABICodec calls over that registry"],
  [dict(name="_values/_labeled_predicates",meaning="predicate to coder, label to predicate",where=REG+":PredicateMapping"),dict(name="get_encoder/get_decoder cache",meaning="memoised lookups",where=REG+":ABIRegistry.__init__")])
p("C12","Registry copies are independent of each other and reclaimable",
  "A registry obtained by copy(), copy.copy or copy.deepcopy is a registry of the same class and starts with the same registrations and labels as its source at that moment, and from then on no registration, unregistration, lookup or coding call on either one changes what the other finds, also through compound types, cached lookups and strictness settings. Two codecs over different registries never influence each other. Once no longer referenced, a registry is released by the garbage collector.",
  ["histories"],"all histories of operations interleaved over a family of registries related by copying, including copies of copies",
  "One test checks that the internal dictionaries of a copy are different objects and that one lookup works; no operation is performed on a copy afterwards.",
  [REG],[("copy",REG+":ABIRegistry.copy, PredicateMapping.copy, Copyable"),("per-instance caches",REG+":ABIRegistry.__init__")],
  ["ABIRegistry.copy and lookups on both registries; weak references"])
p("C13","Custom coders work alone and inside any compound type",
  "An encoder and decoder registered under a type string or predicate, whether plain callables, coder classes or coder instances, of any static width or dynamic, are used for exactly the matching types at top level and inside tuples, fixed arrays and dynamic arrays nested to any depth. Compound values are laid out, validated, encoded and decoded as the ABI specification prescribes for an element of that width or dynamism. Errors raised by a custom coder reach the caller, and is_encodable reports values it refuses as not encodable.",
  ["programs","inputs"],"custom coders of every kind and width (callable, class, instance; static of any number of bytes from 1; dynamic) that raise anything but StopIteration, under names that are not malformed built-in types, in all compound types over built-in and custom leaves",
  "Custom coders are tested only at top level and as the second member of a static pair.",
  [REG,ENC,DEC,COD],[("callable fallback",ENC+":TupleEncoder.validate_value, BaseArrayEncoder.validate_value"),("is_dynamic lookup on arbitrary coders",DEC+":TupleDecoder.__init__, BaseArrayDecoder.__init__"),("from_type_str dispatch",REG+":ABIRegistry._get_registration")],
  ["ABICodec over a registry with custom registrations"])
p("C14","Calls are pure: no call affects another call or its own arguments",
  "The outcome of encode, decode, is_encodable and encode_packed, and of coder objects called directly, depends only on the arguments and the registry's registrations: not on earlier calls, failed calls, repetition, concurrent calls in other threads, calls nested inside a custom coder, stream or sequence during another call, or the caller's decimal context. No call modifies the type list, values or data passed to it or the caller's decimal context, and what the caller later does to an object it passed in or got back changes no other result.",
  ["schedules","histories"],"all interleavings of coding calls in any number of threads and at any nesting, all call histories including failing calls, and all ambient decimal contexts",
  "The test suite is single-threaded, never nests calls and never changes the decimal context; coder objects are cached and shared, so hidden state would only show under such histories.",
  [COD,ENC,DEC,REG,GRA,NUM],[("stateless cached coders",REG+":ABIRegistry.get_encoder/get_decoder"),("per-call stream and frames",COD+":ABIDecoder.decode"),("local decimal contexts",NUM+", "+ENC+", "+DEC)],
  ["all codec entry points, argument snapshots, decimal.getcontext()"],
  [dict(name="cached coders",meaning="coder instances shared by all calls and threads",where=REG)])
p("C15","Fixed-point values are exact decimals at every width and precision",
  "For all 2560 combinations of width M in 8..256 and decimals N in 1..80, signed and unsigned, encode of a value v stores exactly the integer v*10**N in M-bit two's complement and decode returns exactly the stored integer divided by 10**N as a Decimal, with no rounding for any representable value however many digits it has or however it is written (int, trailing zeros, exponent form, negative zero). Values one unit outside the range or with more than N decimals are refused. The results are the same under every ambient decimal context (precision, rounding, exponent limits, traps).",
  ["inputs","configurations"],"all M, N, both signednesses, all representable values and their written forms, all ambient decimal contexts",
  "Values of a handful of (M, N) pairs are compared with expected bytes; the per-coder property tests only assert that no exception occurs, under the default context.",
  [ENC,DEC,NUM],[("999-digit private context",NUM+":abi_decimal_context"),("scaling",ENC+":UnsignedFixedEncoder.encode_fn, SignedFixedEncoder.encode_fn"),("unscaling",DEC+":UnsignedFixedDecoder.decoder_fn, SignedFixedDecoder.decoder_fn"),("bounds",NUM+":compute_*_fixed_bounds")],
  ["eth_abi.encode / decode / encode_packed for fixed types"])
p("C16","Decoding and encoding work stays proportional to the values handled",
  "The work decode does is bounded by a constant times the number of values and words it reads from the payload (for a rejected payload, up to the defect) plus the size of the type, however deeply tuples and arrays are nested. A declared array or byte length that exceeds the data, or an offset that points backwards or out of the data, is rejected without work or memory in proportion to the declared number. encode, is_encodable and type lookup cost at most a constant times nesting depth times the number of values.",
  ["inputs"],"all type strings, deeply nested ones included, and all payloads, including adversarial lengths and offsets",
  "One test checks that a few payloads with bad pointers fail within a second; cost growth with nesting depth or declared sizes is not measured.",
  [DEC,ENC,REG],[("pointer validation before traversal",DEC+":validate_pointers"),("lazy element reads",DEC+":DynamicArrayDecoder.decode"),("memoised lookups",REG)],
  ["counts of executed steps and stream reads during calls"])
p("C17","ABI strategies generate only values encodable under their type",
  "For every valid type string, get_abi_strategy returns a Hypothesis strategy all of whose values are encodable under that type in standard and packed mode and come back from decode as the same values (addresses up to letter case, lists as tuples), with arrays of the declared length, bytesN of exactly N bytes and numbers within range and precision. For strings that are not valid types it raises ParseError, ABITypeError, NoEntriesFound or another ValueError, at the latest when an example is drawn. Registering or unregistering a strategy changes the strategies of the types it matches and of no other.",
  ["inputs","programs"],"all valid type strings, all values drawn from their strategies, and all sequences of registrations on a strategy registry",
  "The tests compare the printed form of strategies for about thirty types and draw almost no values.",
  [STRAT,NUM],[("strategy factories",STRAT),("exact scaling",NUM+":scale_places")],
  ["values drawn from eth_abi.tools.get_abi_strategy(type)"])
p("C18","Decoding frames resolve positions relative to the enclosing objects",
  "On the decoding stream, for every sequence of reads, seeks and frame pushes and pops, pushing a frame moves to the sum of the offsets of all open frames, seeking in the frame is relative to that sum, and popping returns to exactly the position and frame in force before the matching push. Popping with no open frame raises IndexError and leaves the stream usable and unchanged. Reading, seeking and telling otherwise behave as on an ordinary binary stream.",
  ["histories"],"all operation sequences on the stream with any offsets and contents",
  "One fixed sequence of two pushes and two pops is tested.",
  [DEC],[("frame stack",DEC+":ContextFramesBytesIO")],
  ["ContextFramesBytesIO.tell/read after each operation"],
  [dict(name="_frames/_total_offset",meaning="stack of (offset, return position) and their sum",where=DEC+":ContextFramesBytesIO")])
p("C19","Coder objects used directly honour their settings or refuse them",
  "An encoder or decoder object created with any allowed settings (value width, data width, decimals, array size, item coder) writes and reads data of exactly that data width, value and padding placed as for the standard width, and the decoder inverts the encoder of equal settings. An encoder object refuses values that do not belong to its type with an EncodingError, just as encode does. Settings that are inconsistent (a width not a multiple of 8, a value wider than its data, decimals outside 1..80, a missing required setting) raise ValueError and unknown settings raise AttributeError when the object is created. Coders made from a type string accept exactly the types of their own family, with or without array dimensions as they require, and raise ValueError (ParseError if unparsable) for others.",
  ["configurations","inputs"],"all coder classes, all combinations of positive widths and other settings within and around the allowed ranges (booleans 8 and addresses 160 bits wide; StringDecoder has no settings but its error handler), and all values and byte strings",
  "Each coder class is tested with 250 derandomised examples that mostly fall outside the valid settings, fixed-point ones without comparing results, and the module that tests creation from type strings is not collected by the test runner.",
  [BAS,ENC,DEC],[("settings validation",BAS+":BaseCoder.__init__, validate methods"),("type string checks",BAS+":parse_type_str, parse_tuple_type_str")],
  ["coder constructors, encode/decode/from_type_str of coder objects"])
p("C20","Strings are UTF-8 exactly, with the configured handling of malformed bytes",
  "string values encode to their UTF-8 bytes, prefixed by the number of bytes (not characters), and decode back to the same text, with no normalisation, byte-order-mark removal, newline or NUL treatment, at any position in any compound type. Content that is not valid UTF-8 raises UnicodeDecodeError with the default decoder, and with a decoder registered for another error handler decodes exactly as Python's bytes.decode('utf-8', handler) would. bytes content comes back byte for byte, whatever it is.",
  ["inputs","configurations"],"all texts and byte strings of all lengths, all error handlers, at top level and nested, strict and non-strict",
  "Flat single-decoder examples of up to 256 bytes are tested; nested strings and texts with unusual code points at length boundaries are not.",
  [DEC,ENC],[("utf-8 with error handler",DEC+":StringDecoder"),("byte length prefix",ENC+":TextStringEncoder.encode")],
  ["eth_abi.encode/decode for string and bytes; registries with StringDecoder instances"])
p("C21","Entry points follow their registry and stream class at every moment",
  "encode, decode, is_encodable and is_encodable_type, under each of their public names, always act by the current registrations of eth_abi.registry.registry, and encode_packed and is_encodable_packed by those of registry_packed. Every ABICodec, ABIEncoder and ABIDecoder, whenever it was made, acts by the current registrations of exactly the registry it was given: a change in one registry shows at once in all codecs over it and in no codec over another. A decoder with its own stream_class (a subclass of ContextFramesBytesIO, set on a subclass or an instance) decodes through streams of that class made from the data, coders are handed those streams, and the results follow from what the stream holds.",
  ["histories","configurations"],"all histories of registrations and unregistrations on the default, packed and copied registries interleaved with calls through every entry point and codec, and all stream classes derived from the default one",
  "The tests never change the default registries and never decode with another stream class.",
  [COD,"eth_abi/abi.py",PACK,REG],[("module-level functions","eth_abi/abi.py, eth_abi/packed.py"),("codec over a registry",COD+":BaseABICoder, ABIEncoder, ABIDecoder"),("stream construction",COD+":ABIDecoder.decode")],
  ["module-level functions and codecs; streams handed to custom decoders"])
p("C22","Misused entry points fail cleanly and every error can be printed",
  "encode, decode and encode_packed take types and arguments only as lists or tuples and data only as bytes or bytearray, subclasses included: anything else raises TypeError and nothing is read from a refused iterator. An entry of types that is not a string raises TypeError, and is_encodable and is_encodable_type answer False for it. A number of arguments other than the number of types raises ValueOutOfBounds, also with no types at all; encode of nothing is b'' and decode of no types is () for any data; data beyond what the types need is ignored. Every exception raised by a refused call, lookup or parse can be printed, and a ParseError holds the string and a position in it.",
  ["inputs"],"all argument objects of any kind in any position of every entry point, all numbers of arguments, and all exceptions raised for hostile values, payloads, type strings and labels",
  "The tests try three or four wrong argument kinds on encode and decode and never print most errors.",
  [COD,"eth_abi/utils/validation.py",EXC,GRA],[("argument checks","eth_abi/utils/validation.py"),("count check",ENC+":TupleEncoder.validate_value"),("messages",EXC+":ParseError.__str__, "+STR)],
  ["return values and exceptions of the entry points; str() of exceptions"])
p("C23","Type matchers decide by the parsed type and compare by what they match",
  "For every string, BaseEquals matches exactly the parsable basic types without array dimensions whose base name is the given one and that have a sub-size, have none, or either, as asked; has_arrlist exactly the parsable types with array dimensions; is_base_tuple exactly the parsable tuple types without; Equals exactly the equal string. They return False for unparsable strings and never raise. Two matcher objects are equal, with equal hashes, exactly when they are of the same class with the same settings, so a registry takes each once.",
  ["inputs"],"all strings nested at most 40 deep, parsable or not, all base names and settings, and all pairs of matchers",
  "The tests draw from narrow generators of parsable types and compare a few matchers.",
  [REG,GRA],[("matchers",REG+":BaseEquals, Equals, has_arrlist, is_base_tuple"),("equality and hash",REG+":Predicate")],
  ["matcher calls, ==, hash and use as keys"])
p("C24","Results are the same in every process and interpreter mode",
  "The outcome of every call (result or exception class) is the same in every Python process, whatever its hash seed, optimisation level (-O, -OO), integer digit limit, bytes-warning, warning, development, locale, tracing and garbage collection settings, in the main or another thread, and whichever module of eth_abi was imported first; every module can be the first one imported.",
  ["configurations","inputs"],"all combinations of interpreter options listed, all calls of encode, decode, is_encodable, is_encodable_type, encode_packed, parse and registry operations",
  "The test suite runs in one interpreter configuration.",
  [ENC,DEC,REG,GRA,COD],[("validation by exceptions, not assertions",ENC+", "+DEC),("ordered mappings",REG+":PredicateMapping")],
  ["recorded outcomes of the same calls in differently configured interpreters"])
p("C25","Registrations may change while other threads use the registry",
  "While one thread registers or unregisters encoders and decoders, every lookup, encode and decode call made in another thread completes, and each part of its result stems from the registration in force for its type at some time during the call (or it raises NoEntriesFound or MultipleEntriesFound if there was none or several); calls for types the change does not concern are not affected at all. A call begun after the change has returned follows the new registrations, also for compound types, whichever lookups were in progress during the change. Changes that several threads make to different registrations all complete, and none of them is lost.",
  ["schedules","histories"],"all interleavings of a changing thread with lookups, encode and decode calls, and with changes to other registrations, in other threads, over simple and compound types, with warm and cold lookups",
  "The tests use one thread; the windows between a change and the forgetting of remembered lookups are a few instructions wide.",
  [REG,COD],[("forgetting remembered lookups around a change",REG+":_clear_encoder_cache, _clear_decoder_cache"),("search of the registrations",REG+":PredicateMapping.find"),("search of the labels",REG+":PredicateMapping._label_for_predicate")],
  ["ABIRegistry registration methods in some threads; ABICodec calls in others"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
