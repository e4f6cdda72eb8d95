// A diagnostic log for harnesses: in part of the runs the code under test is given a log of full detail,
// so that its logging statements run too.
#pragma once
#include "core.h"
#include <memory>
#include <streambuf>
#include "log.h"
typedef abc::log_ostream<abc::debug_line_ostream<600>, abc::log_filter> diag_log;
struct log_holder {
    struct sink : std::streambuf {
        uint64_t bytes = 0;
        int_type overflow(int_type c) override { bytes++; return c == traits_type::eof() ? 0 : c; }
        std::streamsize xsputn(const char*, std::streamsize n) override { bytes += (uint64_t)n; return n; }
    } sb;
    abc::log_filter filter{abc::severity::abc::debug};
    std::unique_ptr<diag_log> log;
    explicit log_holder(uint32_t permille = 300) { if (sim::chance(permille, "cfg.log")) { log.reset(new diag_log(&sb, &filter)); sim::coverage("with-log"); } }
    diag_log* get() { return log.get(); }
};
