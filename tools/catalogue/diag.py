DN = ("Sampled, not exhaustive: seeded random threads, line contents, clocks, sinks and disks run against the real log, line, table, multifile and timestamp classes. Threads and locks run under the simulated scheduler, with preemption inside the repository's code and at every write of the sink or the simulated disk.")
prop("D01", "A shared log keeps every line whole, once, and in order per thread",
     "When any number of threads put entries in one log, every enabled entry comes out exactly once as complete lines with its own time, thread, category, severity, tag and text, lines of different threads never mix within a line, and each thread's entries keep their order. Entries below the filter's severity don't come out.",
     ["schedules", "histories", "configurations"],
     "every interleaving of up to 4 logging threads, every line shape, sinks in memory that pause at any char and files on disk, every severity, category and tag",
     "Tests log from one thread.",
     ["src/table.h", "src/log.h", "src/i/table.i.h"],
     [("putting and flushing a line as one step", "src/table.h: table_ostream::put_line/put_blank_line"), ("line formatting and filter", "src/log.h: log_ostream, *_line_ostream::put_props")], DN)
prop("D02", "A line never exceeds its room and always ends in one newline",
     "Whatever is put in a line, of whatever length, the line that comes out is exactly that text, cut at the size of the line if it is longer, followed by one newline; no memory beyond the line is touched and binary content is put completely or not at all. A line that is moved comes out once.",
     ["inputs", "histories", "configurations"],
     "every sequence of formatted text, numbers, binary chunks, flushes and moves, with lengths around the size of the line, for line sizes from 17 to 2048 chars",
     "Tests put short texts in large lines.",
     ["src/table.h", "src/log.h"], [("bounded formatting", "src/table.h: line_ostream::put_anyv/put_binary/flush/move constructor")], DN)
prop("D03", "Rotating log files together hold everything, each line in one file",
     "The files of a rotating stream, taken in the order of their names, hold exactly what was flushed, without loss, repetition or a line split between files. A new file is started by the flush at which the size or duration limit is reached and by no other, and each file is named after the UTC second at which it was opened. A path too long for its room is refused, not cut.",
     ["histories", "configurations", "fault_sequences"],
     "every sequence of writes of any size, waits, explicit reopens and forward clock jumps, every size and duration limit, moved streams, short disk writes; with files opened at least one second apart, as documented",
     "Tests write two words and never rotate.",
     ["src/multifile.h", "src/i/multifile.i.h"], [("counting and rotating on flush", "src/multifile.h: size_multifile_streambuf::sync/xsputn, duration_multifile_streambuf::sync, multifile_streambuf::reopen")], DN)
prop("D04", "Timestamps show the right UTC date and time for any clock reading",
     "For any reading of the clock from 1970 to 2262, through any jumps and for clocks of any resolution, a timestamp, however it was constructed or reset, has the date and time of the proleptic Gregorian calendar in UTC and compares like the clock readings do, and log lines and file names show the time at which they were made.",
     ["inputs", "fault_sequences"],
     "every clock reading from 1970 to April 2262 and every sequence of clock jumps between them",
     "Tests hold a table of fixed dates; the calendar rules are wrong or right for years nobody listed.",
     ["src/timestamp.h", "src/log.h", "src/multifile.h"], [("calendar from days since the epoch", "src/timestamp.h: timestamp::reset_date/reset_time")], DN)
prop("D05", "A log that cannot be written never disturbs the program",
     "When the sink under a log throws or fails or the disk is full, calls that put entries return normally in every thread: none throws, blocks forever or takes the process down, and file descriptors are released in the end.",
     ["fault_sequences", "schedules"],
     "every sequence of exceptions, refused and short writes, full disks and failed opens under every interleaving of logging threads",
     "Tests log into memory that never fails.",
     ["src/table.h", "src/log.h", "src/multifile.h"], [("no exception leaves put_line", "src/table.h: table_ostream::put_line/put_blank_line")], DN)
prop("D06", "A test suite's verdict is right and its seed repeats the run",
     "A suite runs every test once and in order, also after failures, and passes exactly when every test returns true; a test that throws anything fails. Comparisons of values, strings and blobs of any content and size are right. The report names the verdict of every test, the values of a failed comparison and the seed, with which a second run draws the same random numbers. All this, except the report, also with a log that cannot be written, and whatever the clock says.",
     ["inputs", "configurations", "fault_sequences"],
     "every suite of passing, failing and throwing tests, every seed given or taken from any clock reading, working and failing logs",
     "The tests run by it, but none checks what it says about a test that fails.",
     ["src/test.h"],
     [("running", "src/test.h: test_suite::run, srand"), ("comparing", "src/test.h: test_context::are_equal")],
     "Sampled, not exhaustive: seeded random suites and clocks; logs may fail at any write.")
prop("D07", "A stream over memory holds exactly its range",
     "A stream buffer over a range of memory reads exactly the chars of the range and then the end, steps back no further than the beginning, and writes into the range only: what does not fit is refused and nothing is lost or changed around it. This holds for narrow and wide chars, for every mix of reads, peeks, steps back and writes, also after the stream buffer is moved.",
     ["inputs", "histories"],
     "every sequence of reads, writes and moves over ranges of any size, empty and missing ones too",
     "The tests use it under a log line only, never read from it, and never move it.",
     ["src/buffer_streambuf.h"],
     [("range and positions", "src/buffer_streambuf.h: constructors, reset")],
     "Sampled, not exhaustive: seeded random sequences of up to 60 operations over up to 40 chars.")
