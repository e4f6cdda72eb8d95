EN = ("Sampled, not exhaustive: seeded random requests, misbehaviours, faults and interleavings of a whole endpoint and its clients in one simulated process. Only header lines of up to 2 KB are generated for well-formed requests; where a body is sent that nobody reads, the response may be cut by the reset that follows.")
prop("E01", "Every complete request gets exactly one right and complete response",
     "While no shutdown is requested, every well-formed request, under any concurrency, is processed exactly once and answered with one complete response and the end of the connection: 200 with the exact content, length and type of an existing file, 404 for what is missing, a directory or unreadable, 405 for a file with another method than GET, and for REST what the handler produced. A file that changes meanwhile never makes the body longer than its stated length.",
     ["schedules", "inputs", "fault_sequences"],
     "every set of requests of up to 5 clients on one endpoint, every fragmentation and delay, every interleaving of listener, request and client threads",
     "No test covers the endpoint.",
     ["src/endpoint.h", "src/i/endpoint.i.h", "src/http.h", "src/socket.h"],
     [("dispatch", "src/endpoint.h: endpoint::process_request, is_file_request"), ("files", "src/endpoint.h: process_file_request, get_content_type_from_path"), ("simple responses", "src/endpoint.h: send_simple_response")], EN)
prop("E02", "No request reaches a file outside of the root directory",
     "Whatever resource a client asks for, no path that isn't below the root directory is opened, read or examined and nothing of such a file comes back; files below the files prefix are still served exactly.",
     ["inputs", "histories"],
     "every resource built of parent, current, empty, encoded, known and overlong segments behind either kind of prefix, with any method",
     "No test covers the endpoint.",
     ["src/endpoint.h"],
     [("path building", "src/endpoint.h: endpoint::process_request (path), process_file_request")], EN)
prop("E03", "Misbehaving clients and failing calls never bring the server down",
     "Whatever clients do (leave in the middle of a request or a response, send nothing, junk or oversized items), and when connections are reset or accepting, creating a thread, a handler or a file operation fails, the server neither ends nor crashes. Nobody gets a wrong response, only a right one, a visibly cut one or none. No REST request is processed twice, and none whose request line didn't arrive whole. Afterwards the server answers as ever, shuts down, and has left no thread or descriptor.",
     ["fault_sequences", "schedules", "inputs"],
     "every mix of well-behaved and misbehaving clients with network, accept, thread and disk faults at any point",
     "No test covers the endpoint, and none injects a fault.",
     ["src/endpoint.h", "src/socket.h", "src/http.h"],
     [("accept loop", "src/endpoint.h: endpoint::start"), ("request threads", "src/endpoint.h: process_request"), ("files", "src/endpoint.h: process_file_request")], EN)
prop("E04", "Shutdown completes once, after every request that is being processed",
     "After POST /shutdown the future of start_async() gets ready, exactly once, when no request is being processed any more, however many shutdowns and other requests come at the same time. Every request is either answered completely or not processed at all, the first shutdown request gets its response, and nothing is processed after the future is ready.",
     ["schedules", "histories"],
     "every interleaving of up to 5 clients with up to 3 shutdown requests at any moment, and clients that come later",
     "No test covers the endpoint.",
     ["src/endpoint.h"],
     [("counting and completing", "src/endpoint.h: endpoint::process_request, _requests_in_progress, _is_shutdown_requested, _promise"), ("accept loop", "src/endpoint.h: endpoint::start")], EN)
prop("E05", "Starting reports failure and returns after a shutdown",
     "start() serves until POST /shutdown and then returns, and the future of start_async() is not ready before a shutdown. When the server can't start (port taken or invalid, no socket, unreadable certificate, wrong password) start() throws and the future of start_async() has the exception; nothing crashes and no thread or descriptor is left.",
     ["configurations", "schedules", "fault_sequences"],
     "every way to start, with each cause of failure, plain and TLS, under random interleavings",
     "No test covers the endpoint.",
     ["src/endpoint.h", "src/socket.h", "src/openssl_socket.h"],
     [("starting", "src/endpoint.h: endpoint::start, start_async, start_thread_func")], EN + " That start() needs another connection to return is a known finding.")
prop("E06", "An endpoint over TLS gives the same guarantees",
     "With TLS sockets, requests are answered, misbehaving clients survived and shutdowns completed as without TLS; clients that speak no TLS or leave during the handshake harm nobody, and one that is slow to start its session keeps nobody else waiting.",
     ["schedules", "fault_sequences", "inputs"],
     "every set of requests, shutdowns and misbehaviours of up to 3 TLS clients and non-TLS clients, with network faults",
     "No test covers the endpoint over TLS.",
     ["src/endpoint.h", "src/openssl_socket.h"],
     [("accepting", "src/openssl_socket.h: openssl_tcp_server_socket::accept; src/endpoint.h: endpoint::start"), ("processing", "src/endpoint.h: process_request")], EN + " That the handshake blocks the listening thread is a known finding.")
