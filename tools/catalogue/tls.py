TN = ("Sampled, not exhaustive: seeded random programs, interleavings, fragmentations and faults run against the real TLS socket classes and the real OpenSSL over a simulated kernel network; OpenSSL's randomness comes from the seed. TLS 1.3 with one certificate type; signals that interrupt a call are not injected here.")
prop("T01", "A TLS stream carries every byte once, in order, then reports the end",
     "Over a working TLS connection what one side writes through the socket or a socket stream is what the other side reads, every byte once and in order, in both directions, with several connections at the same time, across moves of sockets, until one side closes; then the other gets the end of the stream. Nothing one connection does shows in another.",
     ["schedules", "inputs", "fault_sequences"],
     "every sequence of writes, flushes, reads and moves over up to 3 connections, every fragmentation by the network, every interleaving of their threads",
     "Tests exchange one text over one TLS connection.",
     ["src/openssl_socket.h", "src/socket.h"],
     [("transfers", "src/openssl_socket.h: openssl_tcp_client_socket::send/receive"), ("ending the session before the descriptor", "src/openssl_socket.h: openssl_tcp_client_socket::close, destructor"), ("handshakes", "src/openssl_socket.h: connect_handshake, openssl_tcp_server_socket::accept")], TN)
prop("T02", "A broken TLS connection is noticed as an error, never as data or a crash",
     "Whenever a TLS connection is reset or left, during the handshake or later, connecting or accepting throws an std::exception or what was received is a prefix of what was sent, reading ends, writing fails, no call hangs or kills the process, and all descriptors are released.",
     ["fault_sequences", "schedules"],
     "every point at which either side leaves or the network resets the connection, under every interleaving of two threads",
     "Tests never break a connection.",
     ["src/openssl_socket.h", "src/socket.h"],
     [("failed transfers", "src/openssl_socket.h: openssl_tcp_client_socket::send/receive"), ("failed handshakes", "src/openssl_socket.h: connect_handshake, accept"), ("writing to a closed peer", "src/openssl_socket.h: openssl_sigpipe_guard")], TN)
prop("T03", "TLS refuses whom it can't trust and never delivers tampered bytes",
     "A client that verifies its server doesn't connect to one whose certificate nobody vouches for, and sends it nothing. A server never accepts a client that doesn't complete the handshake, and goes on serving the next one. If somebody in between changes, drops or repeats bytes, each side gets a prefix of what the other sent. A server that verifies its clients never accepts one whose certificate nobody vouches for. A server is constructed with a right certificate, key and password and not with an unreadable or mismatched one.",
     ["histories", "fault_sequences", "schedules"],
     "every history of up to 5 clients that verify, show a certificate, speak no TLS, leave during the handshake, or are behind a relay that changes one place of either direction, then a good client",
     "Tests have one well-behaved client with verification off.",
     ["src/openssl_socket.h", "src/i/openssl_socket.i.h"],
     [("verification mode", "src/openssl_socket.h: openssl_tcp_client_socket constructor, SSL_CTX_set_verify"), ("certificate, key and password", "src/openssl_socket.h: openssl_tcp_server_socket constructor, pem_passwd_cb"), ("handshake result", "src/openssl_socket.h: connect_handshake, accept")], TN)
