HN = ("Sampled, not exhaustive: seeded random messages, inputs, fragmentations and interleavings against the real stream classes. Header names, methods and protocols are generated non-empty; where the input ends or a non-ASCII char follows right behind an item, the reader may have noticed it or not.")
prop("H01", "An HTTP message written through the streams is read as the same message",
     "Every request and response (method, resource, protocol, status code, reason phrase, headers, body bytes) put through an http client or server stream arrives at the other side item by item as it was put, with spaces and folds in header values made one space, with the right count and next item, however the network splits the bytes, with any spacing the grammar allows, over any number of messages on one connection, across reset() and moves. An item that is not next is refused with an exception and changes nothing. After the end of the connection no item comes.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "every sequence of messages with up to 5 headers over a connection, every fragmentation and delay by the network, every interleaving of the two sides, every buffer that just fits, raw peers on either side",
     "Tests pass a few fixed messages through a string stream, one at a time, never over a socket.",
     ["src/http.h", "src/i/http.i.h", "src/stream.h", "src/socket.h"],
     [("order of items", "src/http.h: http_state::assert_next, set_gstate, set_pstate"), ("header values", "src/http.h: get_header_value, put_header_value, skip_spaces_in_header_value"), ("body", "src/http.h: get_bytes, put_bytes"), ("reuse and moves", "src/http.h: reset, move constructors; src/stream.h")], HN)
prop("H02", "Reading HTTP takes any bytes without overrun, hang or made-up item",
     "Whatever bytes come, in whatever pieces, ending or failing anywhere, and however small the buffers, every getter returns with a terminated item within its buffer. While the stream is good each item is exactly the one the input has at that place, a valid item that fits is not refused, an invalid or oversized one makes the stream not good, and a stream that is not good stays so, also when it is moved, and yields nothing more until it is reset, after which it reads the next message.",
     ["inputs", "fault_sequences"],
     "every request or response, correct, mutated or random, cut or failing at any byte, in any pieces, into buffers of 2 to 700 chars",
     "Tests read a handful of fixed texts, mostly correct ones.",
     ["src/http.h", "src/stream.h"],
     [("bounded reads", "src/http.h: http_istream::get_chars, get_protocol, get_header_value, get_resource"), ("errors", "src/http.h: skip_crlf, peek_char; src/stream.h: set_bad, set_fail"), ("moves", "src/stream.h: move constructors")], HN)
prop("H03", "Writing HTTP puts out exactly the given items or fails visibly",
     "While an http output stream is good, exactly the items given to it have gone out, each in its place with its delimiters. A method, resource, protocol, status code, reason phrase, header name or header value that has chars it may not have (line ends, separators, control or non-ASCII chars) never lets the stream stay good, and nothing of it or after it can add a line or an item to the message. When the sink is full the stream is not good and puts out nothing more until it is reset.",
     ["inputs", "fault_sequences"],
     "every sequence of valid and invalid items, including embedded line ends, with and without explicit size, into sinks that fill up at any byte",
     "Tests write a few items, few of them invalid, to a string stream that never fills up.",
     ["src/http.h", "src/ascii.h"],
     [("validation", "src/http.h: put_chars and the put_ methods; src/ascii.h: http::is_token, is_abcprint"), ("folded values", "src/http.h: put_header_value, skip_spaces_in_header_value")], HN)
prop("H04", "The parameters of a resource are found by name with their exact values",
     "For every resource that comes through a request stream into a buffer with just enough room or more, splitting it gives the exact path and looking a parameter up gives the exact value of the first parameter of that name, and none for a name that is not there, even one that is a prefix, an extension or a value of another, never reading beyond the buffer.",
     ["inputs"],
     "every path and every list of up to 5 parameters with equal, similar or empty parts",
     "Tests look up a few parameters of a few resources.",
     ["src/http.h"],
     [("splitting and lookup", "src/http.h: http_request_istream::split_resource, get_resource_parameter, get_resource")], HN)
