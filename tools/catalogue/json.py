JN = ("Sampled, not exhaustive: seeded random documents, call histories and stream faults run against the real JSON reader and writer over simulated stream buffers that deliver or accept a random number of chars at a time and end or fail anywhere. "
      "Compared with an independent reference parser. Exact decimal round trips of doubles are not claimed (relative error up to 1e-15); tokens use buffers from the smallest usable up to some kilobytes.")
JF = ["src/json.h", "src/i/json.i.h", "src/stream.h"]

prop("J01", "The JSON reader reports exactly the tokens of a valid document",
     "For any valid JSON document, however the bytes trickle in and however deeply objects and arrays nest, the reader reports the same tokens, property names and values in the order of the document. Skipping a value leaves the reader right behind it, and a reader that is moved goes on where the moved one was.",
     ["inputs", "histories"],
     "every valid document (nesting, escapes, surrounding white space, long strings and numbers), every way of cutting it into pieces, every mixture of reading and skipping",
     "Tests parse short fixed documents from one string buffer.",
     JF, [("token recognition", "src/json.h: json_istream::get_token"), ("skipping", "src/json.h: json_istream::skip_value")], JN)
prop("J02", "Damaged JSON is flagged, never accepted, and never hangs the reader",
     "A document that is damaged, cut off, random or too deep makes the stream fail at or before the damage, after a bounded number of reads; tokens reported before the damage are right, and no memory outside the caller's buffer is touched. (A comma before a closing bracket is tolerated.)",
     ["inputs", "fault_sequences"],
     "every corruption, truncation and read error at any byte of any document, and random bytes",
     "Tests hold a few hand-written bad documents that come from memory.",
     JF, [("failing on unexpected chars", "src/json.h: json_istream get_* / set_bad"), ("end of input", "src/stream.h: istream")], JN)
prop("J03", "A JSON token never exceeds the caller's buffer",
     "A string, property name or number is stored completely in the caller's token buffer if it fits, terminated; if it does not, the stream fails and nothing behind the given size is written.",
     ["inputs", "configurations"],
     "every length of string, property name and number around every buffer size",
     "Tests use one generous buffer size.",
     JF, [("bounded reads into the token", "src/json.h: get_string/get_literal/get_number")], JN)
prop("J04", "The JSON writer produces valid JSON that reads back the same",
     "Whatever values are written in a legal order, the result is one valid JSON document with the same structure, names and values, including strings with quotes, control chars and non-ASCII bytes. If the sink stops accepting chars, the writer's stream reports the failure.",
     ["histories", "inputs", "fault_sequences"],
     "every legal history of writer calls, any string content, sinks that fill up at any char",
     "Tests write a handful of fixed documents into memory that never fills.",
     JF, [("escaping and separators", "src/json.h: json_ostream::put_*"), ("propagating a failed sink", "src/stream.h: ostream")], JN)
prop("J05", "The JSON writer refuses calls that would break the document",
     "A writer call that is illegal at its place, such as a value without a property name in an object, a closing bracket that matches nothing, or too deep a nesting, is refused: the stream fails and the output stays a prefix of valid JSON.",
     ["histories"],
     "every history of writer calls with an illegal one at any point",
     "Tests cover a few of the illegal orders.",
     JF, [("nesting and expectation state", "src/json.h: json_ostream")], JN)
