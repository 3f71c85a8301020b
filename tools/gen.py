#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, re, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []  # (id, title, statement, over, quantifier text, why, files, mechanisms)
def prop(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop("C01", "0x byte strings: exact encoding, exact acceptance, lossless round trip",
 """Encoding a byte string gives 0x followed by exactly two lower-case hexadecimal digits per byte, and decoding
 accepts exactly the strings that are 0x or 0X followed by an even number of hexadecimal digits and returns exactly the
 bytes they spell; every byte string survives encode-then-decode. The text, JSON and GraphQL decoders accept exactly those strings as well
 (text and quoted JSON also the empty string, as no bytes), report empty input, missing prefix, odd length and bad digits
 as distinct errors, and leave the target untouched when they fail. The panicking variant panics exactly on the inputs that the other rejects.""",
 ["inputs"], "every byte string of every length; every input string, valid or not",
 "The unit tests sample about twenty inputs per decoder; a wrong nibble, an accepted odd digit or a target clobbered on error can hide at any other length or byte value.",
 ["common/hexutil/hexutil.go", "common/hexutil/json.go"],
 [("Encode, Decode, MustDecode", "common/hexutil/hexutil.go"), ("Bytes marshalling", "common/hexutil/json.go"), ("checkText, bytesHave0xPrefix, mapError", "common/hexutil")])

prop("C02", "64-bit hex quantities: minimal form, exact acceptance, no overflow",
 """Encoding a 64-bit unsigned integer gives 0x and its shortest lower-case hexadecimal form (zero is 0x0), and decoding accepts exactly
 0x or 0X followed by at least one and at most sixteen hexadecimal digits with no superfluous leading zero, returning the value they spell, so
 every integer survives the round trip. The text, JSON and GraphQL decoders of the two quantity types accept exactly the same quantities
 (empty text means zero; GraphQL also takes 32-bit integers), reject what does not fit, and leave the target untouched when they fail. The panicking variant panics exactly on rejected inputs.""",
 ["inputs"], "all 2^64 values and every input string",
 "Tests check a dozen values; a wrong digit boundary, a missed overflow or a leading zero accepted at one length is invisible to them.",
 ["common/hexutil/hexutil.go", "common/hexutil/json.go"],
 [("EncodeUint64, DecodeUint64, checkNumber", "common/hexutil/hexutil.go"), ("Uint64, Uint marshalling, decodeNibble, checkNumberText", "common/hexutil/json.go")])

prop("C03", "Big hex quantities up to 256 bits: exact value, exact acceptance",
 """Decoding a big quantity accepts exactly 0x or 0X followed by one to sixty-four hexadecimal digits without superfluous leading zero and returns exactly the
 number they spell, in memory of its own; anything longer is reported as out of range. Encoding a big integer gives 0x and its shortest lower-case
 hexadecimal form (with a minus sign in front for negative numbers). The text, JSON and GraphQL decoders agree with this (empty text means zero, GraphQL also takes 32-bit integers)
 and leave the target untouched when they fail.""",
 ["inputs"], "every input string; every big integer",
 "The decoder assembles machine words from the right in a nested loop; tests reach only a few word boundaries and digit values.",
 ["common/hexutil/hexutil.go", "common/hexutil/json.go"],
 [("DecodeBig, EncodeBig", "common/hexutil/hexutil.go"), ("Big marshalling", "common/hexutil/json.go"), ("bigWordNibbles", "common/hexutil/hexutil.go")])

prop("C04", "Fixed-size values decode atomically from text, JSON, GraphQL and databases",
 """Decoding a hash or an address (or any fixed-size byte value) from text, JSON, GraphQL or a database column succeeds exactly when the input has the right kind and spells exactly the
 right number of bytes in hexadecimal (with 0x for the prefixed forms, with or without it for the unprefixed forms; raw bytes for a database column), and then stores exactly those bytes. On any error the target keeps its previous content.
 Encoding the value as text gives 0x (nothing for unprefixed forms) and the lower-case digits of every byte, so every value survives the round trip.""",
 ["inputs"], "every input text, every previous content of the target",
 "The atomicity matters for bad digits in any of 64 positions, after any prior content; tests use all-zero targets and a few bad inputs.",
 ["common/hexutil/json.go", "common/types.go"],
 [("UnmarshalFixedJSON, UnmarshalFixedText, UnmarshalFixedUnprefixedText", "common/hexutil/json.go"), ("Hash/Address UnmarshalText, UnmarshalJSON, UnmarshalGraphQL, Scan, MarshalText, Value", "common/types.go"), ("UnprefixedHash, UnprefixedAddress", "common/types.go")])

prop("C05", "Hashes print exactly the digits they hold, in every format",
 """The hexadecimal and string forms of a hash are 0x and its sixty-four lower-case digits. Formatting it with the verbs v and s gives the same text, with q the same in quotes, and with x and X the sixty-four
 digits in lower or upper case, with a 0x (0X) in front exactly when the # flag is given. The terminal form is the digits of the first three bytes, two dots, and the digits of the last three.""",
 ["inputs"], "all 2^256 hashes, each verb with and without the flag",
 "Tests print one fixed hash; an index or nibble error shows only for other contents.",
 ["common/types.go"], [("Hash.Hex, String, TerminalString, Format", "common/types.go")])

prop("C06", "Hash and address conversions crop on the left and pad on the left",
 """Converting bytes, an integer or a hexadecimal string to a hash or an address keeps the last 32 (20) bytes of longer inputs and right-aligns shorter ones behind zeros; converting back to bytes or to an
 integer gives exactly the stored bytes or the big-endian number they form. An integer below 2^256 (2^160) survives the conversion there and back, and an address embedded in a hash is its low 20 bytes behind zeros.""",
 ["inputs"], "byte strings of every length, all integers",
 "Tests use one length; crop/pad direction errors at other lengths or with aliasing inputs are invisible.",
 ["common/types.go"], [("BytesToHash, BigToHash, HexToHash, SetBytes, Bytes, Big", "common/types.go"), ("BytesToAddress, BigToAddress, HexToAddress, Address.Hash", "common/types.go")])

prop("C07", "Address checksum casing follows EIP-55 for every address",
 """The hexadecimal form of an address is 0x and forty digits that spell the address, where a letter is upper case exactly when the corresponding nibble of the hash of the lower-case forty digits is
 at least 8. The string form and the format verbs v and s give the same text, q the same in quotes; the verbs x and X give the forty digits in lower or upper case without checksum, with 0x (0X) in front exactly when the # flag is given.""",
 ["inputs"], "all 2^160 addresses (for whatever digest the hash function returns)",
 "Tests compare eight known addresses; a wrong nibble order or threshold shows only for particular digests.",
 ["common/types.go"], [("checksumHex, hex, Hex, String, Format", "common/types.go")])

prop("C08", "Mixed-case addresses keep the original text and judge its checksum",
 """Parsing a mixed-case address accepts exactly the strings that are forty hexadecimal digits with or without 0x, keeps the text as given and the address it spells; from JSON it accepts exactly quoted prefixed forms and leaves the target untouched otherwise.
 The checksum is reported valid exactly when the original text equals the checksummed form of the address. Re-encoding reproduces the original digits behind a single 0x.""",
 ["inputs"], "every input string",
 "Tests try a handful of literals; prefix and case combinations are many.",
 ["common/types.go"], [("NewMixedcaseAddressFromString, NewMixedcaseAddress, UnmarshalJSON, MarshalJSON, ValidChecksum, Original", "common/types.go")])

prop("C09", "Byte-slice helpers copy, pad and trim exactly, without aliasing",
 """Copying a byte string yields the same bytes in fresh memory (and nothing for nothing); padding on either side to a length yields exactly the input plus zeros in fresh memory, and leaves inputs that are already long enough as they are;
 trimming zeros from either side removes zeros only and all of them on that side. None of them modifies its input.""",
 ["inputs"], "byte strings of every length, every pad length",
 "Tests use one slice of fixed length each.",
 ["common/bytes.go"], [("CopyBytes, LeftPadBytes, RightPadBytes, TrimLeftZeroes, TrimRightZeroes", "common/bytes.go")])

prop("C10", "Lenient hex parsing helpers accept and convert exactly what they document",
 """Converting from loose hexadecimal text drops an optional 0x or 0X, tolerates an odd number of digits by assuming a leading zero, and yields exactly the bytes spelled; the fixed-length variant crops or pads on the left to exactly the requested length.
 The recogniser for address text accepts exactly forty hexadecimal digits with optional prefix; the variant that returns errors accepts exactly well-formed text, reporting anything else.""",
 ["inputs"], "every input string, every requested length",
 "Tests cover a few lengths; off-by-one at odd lengths or around the prefix is not sampled.",
 ["common/bytes.go", "common/types.go"], [("FromHex, Hex2Bytes, Hex2BytesFixed, Bytes2Hex, ParseHexOrString", "common/bytes.go"), ("IsHexAddress, has0xPrefix, isHex, isHexCharacter", "common/bytes.go, common/types.go")])

prop("C11", "256-bit integer arithmetic: wrap, sign, power, extremes",
 """Reduction to 256 bits gives the unique value in [0, 2^256) congruent to the input; interpreting a 256-bit value as two's complement gives the unique value in [-2^255, 2^255) congruent to it; maximum and minimum return one of their
 arguments that is no smaller (no larger) than both. Modular exponentiation returns base^exponent mod 2^256 and modifies neither argument.""",
 ["inputs"], "all big integers (all 256-bit values for the signed interpretation)",
 "No test of this package exists at this commit; boundaries at 2^255 and 2^256 and argument aliasing are where errors hide.",
 ["common/math/big.go"], [("U256, S256, Exp, BigMax, BigMin", "common/math/big.go")])

prop("C12", "Big integers convert to exact fixed-width big-endian bytes",
 """The padded byte form of a non-negative integer is its big-endian bytes with zeros in front up to the requested width (or its own minimal width when larger). Reading the bits of an integer into a buffer writes the low bytes of its
 absolute value, big-endian, at the end of the buffer, and the positions in front of the number's own bytes are zero or keep what they held. The byte accessor returns byte n, counted from the front, of the padded form of the given width and zero from the width on.
 The 32-byte form is the big-endian value modulo 2^256 (negative numbers in two's complement); the lowest set bit reported for a positive integer is the position of its lowest one bit.""",
 ["inputs"], "all non-negative integers, every buffer length and position",
 "No test of this package exists at this commit; word-boundary and width cases are unbounded.",
 ["common/math/big.go"], [("PaddedBigBytes, ReadBits, Byte, bigEndianByteAt, U256Bytes, FirstBitSet", "common/math/big.go")])

prop("C13", "Parsing of hex-or-decimal integers never exceeds 256 bits",
 """Parsing a 256-bit integer from text gives zero for empty text, the base-16 value after 0x or 0X, the base-10 value otherwise, and fails on anything unparsable or wider than 256 bits. The text decoders of the hex-or-decimal and decimal types store exactly the parsed value,
 and leave the target untouched on failure.""",
 ["inputs"], "every input string",
 "No test of this package exists at this commit.",
 ["common/math/big.go"], [("ParseBig256, HexOrDecimal256, Decimal256", "common/math/big.go")])

prop("C14", "Mnemonic phrases encode and decode hexadecimal keys losslessly",
 """Encoding a hexadecimal message whose length is a multiple of eight digits gives three dictionary words per eight digits, and decoding such a word list gives back the same digits; the dictionary has 1626 distinct words.""",
 ["inputs"], "all messages: every number of groups, every 32-bit group value",
 "One fixed message is tested out of 2^32 per group.",
 ["crypto/mnemonic.go", "crypto/mnemonic_words.go"], [("MnemonicEncode, MnemonicDecode", "crypto/mnemonic.go"), ("words table", "crypto/mnemonic_words.go")])

prop("C15", "The Keccak permutation computes Keccak-f[1600] for every state",
 """The permutation at the heart of the hash maps every 1600-bit state to the state prescribed by Keccak-f[1600]: twenty-four rounds of theta, rho, pi, chi and iota with the standard rotation offsets and round constants.""",
 ["inputs"], "all 2^1600 states",
 "The unrolled permutation is 400 lines of interleaved rotations; test vectors touch a negligible part and cannot tell a value-specific error from correctness.",
 ["crypto/sha3/keccakf.go"], [("keccakF1600", "crypto/sha3/keccakf.go"), ("rc (round constants)", "crypto/sha3/keccakf.go")])

prop("C16", "Hashing depends only on the message bytes, however they are written",
 """The digest is a function of the concatenation of the bytes written since the last reset: splitting or merging writes never changes it, reading the sum does not disturb the running state, and a reset hash equals a new one.
 The digest is the sponge construction over the permutation with the standard rate and padding for the selected variant, appended to the caller's buffer.""",
 ["inputs", "histories"], "every message and every way of splitting it into writes; every interleaving of sums and resets",
 "Tests write each vector once; rate-boundary splits and sum-then-write histories are unbounded.",
 ["crypto/sha3/sha3.go"], [("Write, Sum, Reset, finalize, squeeze, absorb, unalignedAbsorb", "crypto/sha3/sha3.go")])

prop("C17", "Adding and doubling curve points follow the group law",
 """Over every prime field, adding two points of a short Weierstrass curve with a = 0 gives the chord construction for different points and the tangent construction for equal points, with (0, 0) standing for the point at infinity, which is
 neutral and is also the sum of a point and its opposite; doubling a point gives the tangent construction. This holds in affine coordinates and for the Jacobian formulas, the conversion from Jacobian to affine coordinates divides by the proper powers of z, coordinates of results
 are reduced, and the arguments are never modified. The on-curve test accepts exactly the pairs satisfying the curve equation modulo the prime.""",
 ["inputs"], "all coordinates, all prime moduli",
 "No test covers this code; exceptional cases (equal, opposite, infinity) and carries of particular coordinates would not be sampled.",
 ["crypto/curve.go"], [("Add, addJacobian, Double, doubleJacobian, affineFromJacobian, IsOnCurve", "crypto/curve.go")])

prop("C18", "Points marshal to the uncompressed form and only valid encodings unmarshal",
 """Marshalling a point whose coordinates are non-negative and fit the width of the curve gives the byte 4 followed by both coordinates as fixed-width big-endian numbers; unmarshalling such a string gives back the same coordinates, and any string of another length or another leading byte is rejected.""",
 ["inputs"], "all coordinate pairs in range, all byte strings",
 "No test covers this code; short coordinates (leading zero bytes) are one in 256.",
 ["crypto/curve.go"], [("Marshal, Unmarshal", "crypto/curve.go")])

prop("C19", "The simulated clock fires timers in order, exactly once, and never early",
 """Advancing the simulated clock runs every timer whose time has been reached, in order of time and none before its time, removes them, and leaves the clock at the target time; timers that were stopped or rescheduled fire as last set.
 Stopping reports whether it prevented the timer from firing.""",
 ["histories", "schedules"], "all sequences of scheduling, stopping, resetting and advancing",
 "The heap-index bookkeeping under arbitrary histories of stop/reset cannot be enumerated by examples.",
 ["common/mclock/simclock.go"], [("Run, schedule, Stop, Reset, simTimerHeap", "common/mclock/simclock.go")])

prop("C20", "An alarm fires no later than its earliest scheduled time",
 """After scheduling an alarm exactly one timer is armed, for a time that is neither later than the deadline just asked for nor later than any deadline asked for before whose timer has not fired or been stopped (or for right now where such a deadline has passed),
 and no earlier than all of these. When the timer fires the channel holds a notification, which stays until it is read or the alarm is stopped, however often the timer fires or the alarm is rescheduled. Stopping the alarm leaves no timer armed and no notification.""",
 ["histories", "schedules"], "all sequences of scheduling and clock advances",
 "Rescheduling earlier or later, or around a firing, is a matter of history, which examples do not exhaust.",
 ["common/mclock/alarm.go"], [("NewAlarm, Schedule, schedule, Stop, send", "common/mclock/alarm.go")])

prop("C21", "The feed's case list loses no subscriber and delivers to no removed one",
 """In the bookkeeping of a feed, finding a channel returns the position of its case or reports absence, removing a case leaves all the others exactly once and only that one gone, and deactivating a case hides exactly it until the list is next rebuilt, keeping every case.""",
 ["inputs", "histories"], "case lists of every length and every position",
 "Tests of the feed that would touch this are not runnable at this commit or sample a couple of subscribers.",
 ["event/feed.go"], [("caseList.find, delete, deactivate", "event/feed.go")])

prop("C22", "Event-mux subscription lists stay exact under add and remove",
 """In the event mux, looking up a subscriber finds its position or reports absence, and deleting a position yields the remaining subscribers in order in fresh memory, so that a post in progress on the old list is not disturbed.""",
 ["inputs", "schedules"], "lists of every length and every position",
 "Aliasing between the posted snapshot and the new list shows only under a particular schedule.",
 ["event/event.go"], [("find, posdelete", "event/event.go")])

prop("C24", "Numbers in logs are grouped by thousands without changing a digit",
 """Formatting an integer for the log gives its decimal digits, a minus sign for negatives, and commas every three digits from the right from six digits on (five and fewer have none); removing the commas gives back exactly the number.""",
 ["inputs"], "all signed and unsigned 64-bit integers and all big integers",
 "Tests sample twenty values; extremes such as the smallest signed integer and interior zeros groups matter.",
 ["log/format.go"], [("FormatLogfmtInt64, FormatLogfmtUint64, formatLogfmtUint64, formatLogfmtBigInt", "log/format.go")])

prop("C25", "Log values are quoted exactly when they could break the line format",
 """A logged string appears verbatim exactly when it consists of printable ASCII characters other than the space, the double quote and the equals sign, and otherwise as the quoted literal that strconv.Quote gives, so that a log line is never broken by the content of a value; log messages may additionally contain spaces, double quotes, line feeds and carriage returns and still appear verbatim, and are quoted otherwise.""",
 ["inputs"], "every string",
 "Tests do not sample control bytes, quotes, equals signs and non-ASCII at every position.",
 ["log/format.go"], [("escapeString, escapeMessage, formatLogfmtValue", "log/format.go")])

prop("C27", "Log filters pass exactly the records they are meant to pass",
 """A filter asks its predicate once and forwards the record, unchanged and once, exactly when the predicate holds, returning the handler's result; a level filter does so exactly when the record's level is at most the configured one, and a match filter exactly when the named value (the level, time or message under the record's own key names, otherwise the first context value under the key) equals the given one, a missing key never matching; the multi-handler passes the record to every handler in order and returns no error; the failover handler tries the handlers in order, stops at the first one that succeeds and returns the last error otherwise; the discard handler drops everything without error.""",
 ["inputs", "configurations"], "all levels, records and handler results",
 "Only samples of levels are tested.",
 ["log/handler.go"], [("FilterHandler, LvlFilterHandler, MatchFilterHandler, MultiHandler, FailoverHandler, DiscardHandler", "log/handler.go")])

prop("C28", "Struct tags decide RLP field roles and the field order rules",
 """A field's struct tag yields exactly the roles its comma-separated words name (ignored, optional, tail, nil and its explicit kinds), and unknown words or roles on fields where they make no sense are reported. Once an optional field has been seen every later encoded field must be optional as well, and a tail must be the last field.""",
 ["inputs"], "all tag texts and field kinds; all field lists",
 "No test of this package exists at this commit.",
 ["rlp/internal/rlpstruct/rlpstruct.go"], [("ProcessFields, parseTag, lastPublicField, DefaultNilValue, isUint, isByte", "rlp/internal/rlpstruct/rlpstruct.go")])

prop("C29", "Log levels and their names correspond one to one",
 """Every log level has its fixed name, its five-letter aligned name and its parser: parsing a level name or its abbreviation yields the level it names and anything else gives an error together with the debug level; converting a level to text and back is the identity; asking for the name of a value that is no level panics.""",
 ["inputs"], "all level values and all strings",
 "Tests do not cover it.",
 ["log/logger.go"], [("Lvl.AlignedString, Lvl.String, LvlFromString", "log/logger.go")])

NA = {}
def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech)
    NA[id] = reason

na("C30", "Feeds deliver every value once to each subscriber under all interleavings",
 """While subscriptions come and go concurrently, a value sent on a feed is delivered exactly once to each channel subscribed for the whole duration of the send, and a subscription that has been cancelled receives nothing afterwards.""",
 ["schedules", "histories"], "all interleavings of send, subscribe and unsubscribe",
 "Interleavings are sampled by chance only.",
 ["event/feed.go", "event/feedof.go"], [("Feed.Send, Subscribe, remove", "event/feed.go")],
 "delivery depends on the interleaving of blocking channel operations (reflect.Select over dynamically built cases, unlock/relock around the send); the sequential contracts of this family have no ownership logic for Go channels here, so only the list bookkeeping (C21) is claimed")
na("C31", "RPC requests get exactly one matching response each",
 """Each request is answered by exactly one response carrying its identifier, notifications get none, batches are answered in one message, and all calls of a closed connection end.""",
 ["histories", "schedules"], "all message sequences",
 "The package has no runnable tests at this commit.",
 ["rpc/handler.go", "rpc/json.go"], [("handler", "rpc/handler.go")],
 "the rpc package does not compile at this commit, so there is no program to generate obligations from")

# ---------------------------------------------------------------- output
def claimed():
    c = set()
    for f in glob.glob(ROOT + "/contracts/**/*.go", recursive=True):
        for m in re.finditer(r"(?m)^//govc:(?:contract|lemma)\b.*\bprop=(\S+)", open(f).read()):
            if " support" in m.group(0): continue
            c |= set(m.group(1).split(","))
    return c

NOTES = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "notes.py")) else None
WHYNOT = {
 "C14": "contracts are drafted in wip/crypto: the encoder, the dictionary and the arithmetic lemma are provable, the decoder's loop invariant (text produced by Sprintf from remainders of dictionary positions) is not discharged, and half a round trip is not claimed",
 "C19": "the heap bookkeeping runs inside container/heap over an interface; the loop invariants of up/down over arbitrary heaps with index fields were not completed",
}
BOUNDED = {"C16"}
NOTES["C16"] = ("Sum, Reset, Size, BlockSize and the constructors: proved for every state, position, variant and buffer. Write: bounded, never counted as proved: every state and content, "
  "every position with up to 24 bytes (Keccak-256), every length up to 152 bytes and 268 to 280 bytes from two positions (thorough: every length up to 290), the other variants around the block boundary with up to 17 bytes. "
  "The permutation enters through its own contract (C15). Trusted: the translation (go/ssa, govc), the solvers, and the models listed in the evidence")
DEFAULT = ("every obligation generated from the current source is discharged for all inputs and all iterations; trusted: the translation "
  "(go/ssa, govc), the solvers, and the standard-library models listed in the evidence; termination is not proved")

cl = claimed()
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
checks, nas = [], []
for p in sorted(P, key=lambda p: p["id"]):
    if p["id"] in cl and p["id"] not in NA:
        checks.append(dict(property=p["id"],
            quick_cmd="bash tools/check.sh %s quick" % p["id"], thorough_cmd="bash tools/check.sh %s thorough" % p["id"],
            technique="contract-based deductive verification (function contracts and loop invariants on the Go source, VCs from go/ssa discharged by z3/cvc5)",
            level="other" if p["id"] in BOUNDED else "proof", level_note=NOTES.get(p["id"], DEFAULT)))
    else:
        nas.append(dict(property=p["id"], reason=NA.get(p["id"], WHYNOT.get(p["id"], "no contract has been completed for it yet"))))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=nas,
    notes="no hooks: contracts live in /verif/contracts and are laid over the packages of /repo in memory when a check loads them; /repo itself carries only fix: commits")
m["hooks"] = dict(guard="none", enable="not needed: the contracts are added through a go/packages overlay", source_commits=[])
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
open(ROOT + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed:", " ".join(c["property"] for c in checks))
print(len(nas), "not claimed:", " ".join(c["property"] for c in nas))
