NN = ("Sampled, not exhaustive: seeded random programs, interleavings, fragmentations and faults run against the real socket classes over a simulated kernel network (latency, windows, FIN, RST, SIGPIPE, EINTR, datagram loss). The simulated kernel follows Linux; it has no out-of-band data and no non-blocking mode.")
prop("N01", "A socket stream carries every byte once, in order, then reports the end",
     "Over a working TCP connection, IPv4 or IPv6, what one side writes through the socket or through a socket stream is what the other side reads: every value of a byte, once, in order, however the network fragments or delays it, in both directions, across flushes, peeks and moves of the sockets and stream buffers. After the sender closes, the reader gets the end of the stream and nothing else.",
     ["schedules", "inputs", "fault_sequences", "configurations"],
     "every sequence of writes, flushes, reads, peeks and moves over up to 3 connections, every byte value, every split of the data by the network, delays and signals",
     "Tests exchange one short ASCII text over a loopback connection that never splits it.",
     ["src/socket.h", "src/i/socket.i.h", "src/stream.h"],
     [("one char at a time over the socket", "src/socket.h: socket_streambuf::underflow/overflow/sync/move constructor"), ("blocking transfers", "src/socket.h: client_socket::send/receive"), ("accepting and connecting", "src/socket.h: tcp_server_socket::accept, basic_socket::tie")], NN)
prop("N02", "A broken connection is noticed as an error, never as data or a crash",
     "Whenever a connection is reset or the other side goes away, what was received is a prefix of what was sent, reading ends, writing fails after a while instead of succeeding for ever, no call hangs, throws out of a stream or kills the process, and all descriptors are released.",
     ["fault_sequences", "schedules"],
     "every point at which either side leaves or the network resets the connection, under every interleaving of two threads and every fragmentation",
     "Tests never break a connection.",
     ["src/socket.h"],
     [("failed receive is the end", "src/socket.h: socket_streambuf::underflow, client_socket::receive"), ("failed send is a failed flush", "src/socket.h: socket_streambuf::overflow/sync, client_socket::send")], NN)
prop("N03", "UDP sockets pass whole datagrams and the address of their sender",
     "A datagram arrives as it was sent, or cut to the room given to receive(), or not at all; it is never mixed with another one or made up. The address that receive() gives, IPv4 or IPv6, leads an answer back to the sender of that datagram. Without loss in the network nothing is lost, repeated or reordered.",
     ["schedules", "fault_sequences", "inputs"],
     "every interleaving of up to 3 clients and a hub, every pattern of loss, duplication, reordering and signals, datagrams up to 4000 bytes, rooms from 1 byte",
     "Tests send one datagram each way over IPv4.",
     ["src/socket.h", "src/i/socket.i.h"],
     [("addresses", "src/i/socket.i.h: socket::address; src/socket.h: client_socket::send/receive with an address")], NN)
prop("N04", "Opening, binding, connecting and closing sockets never lies and never leaks",
     "Through any history of binding, listening, connecting, accepting, moving and closing, with name resolution, socket creation and accepting failing at any point: a call throws an std::exception exactly when it did not do its job, every other socket goes on working, a socket says it is open exactly when it is, and at every moment exactly the open sockets hold a descriptor.",
     ["histories", "fault_sequences"],
     "every history of up to 25 operations on 3 ports, free, bound or listening, with names that have no, one or several addresses",
     "Tests have one server and one client, and nothing fails.",
     ["src/socket.h"],
     [("opening and tying", "src/socket.h: basic_socket::open/tie/close/move constructor"), ("accepting", "src/socket.h: tcp_server_socket::listen/accept_fd")], NN)
