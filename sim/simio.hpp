// Simulated operating system edge: file system calls, stdin, output streams.
#pragma once
#include "sim.hpp"
#include <sys/types.h>

namespace sim
{
//=== file system calls made by the code under test ===//
// Calls on descriptors opened through the seam go to a scratch file, with outcomes decided here.
struct fs_t
{
    bool        on = false;    // are we inside a simulated call?
    std::string path;          // the only path that is simulated
    unsigned    fault_pct = 0; // chance that a call is made to misbehave
    bool        open_failed = false;
    int         open_errno  = 0;
    unsigned    hard = 0, soft = 0; // injected failures / short transfers
    int         fds = 0, maps = 0, files = 0; // still held
    // content change by somebody else: before the given data call, to the given content
    bool        mutate_armed = false;
    std::string mutate_to;
    bool        mutated = false;
};
extern fs_t fs;
void        fs_begin(const std::string& path, unsigned fault_pct);
void        fs_end();

//=== standard input ===//
struct in_t
{
    std::string data;
    std::size_t pos = 0;
    std::size_t max_chunk = 1;   // reads deliver 1..max_chunk bytes
    bool        line_mode = false; // a read ends after a newline, as on a terminal
    std::size_t error_at = std::size_t(-1); // position at which a read fails
    int         error_no = 5;
    bool        errored = false, eof_seen = false;
    unsigned    reads = 0;
    std::string after_eof; // what a terminal would deliver after end of file was signalled once
};
extern in_t in;
// Replaces stdin by a simulated stream (buffer size chosen); restores and closes it.
void stdin_begin(std::size_t bufsize);
void stdin_end();

//=== output streams ===//
struct out_t
{
    std::string accepted;
    std::string attempted_until_fault;
    unsigned    fault_pct = 0;
    std::size_t capacity = std::size_t(-1); // full disk after that many bytes
    unsigned    faults = 0;
    unsigned    writes = 0;
};
FILE* out_open(out_t& o, int bufmode, std::size_t bufsize);
} // namespace sim
