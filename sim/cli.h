// Simulated process for the command line tool: virtual disk, stdio over system
// calls that can fail or be short, monotonic clock, signals, process end.
#pragma once
#include "rt.h"
#include <map>
#include <memory>
#include <set>

namespace cli {
struct Disk {
    std::map<std::string, std::shared_ptr<std::vector<uint8_t>>> f;
    std::vector<uint8_t> out;     // standard output
    std::string err;              // standard error (bounded)
};
struct Cfg {
    uint64_t seed = 1;
    int rd_chunk = 0, wr_chunk = 0;   // most bytes one read/write transfers (0: no bound)
    uint64_t space = ~0ull;           // bytes that fit on the disk
    bool in_pipe = false;             // input cannot be positioned
    bool out_tty = false, err_tty = false;
    uint64_t ns_step = 200;           // clock ticks per scheduling point
    uint64_t ns_io = 20000;           // clock ticks per system call (at most)
    int stall_den = 0;                // one call in stall_den takes stall_ns
    uint64_t stall_ns = 0;
    bool oversleep = false;
    std::string out_name;             // the file(s) whose growth is recorded
    int sig_from = -1;                // a signal arrives at this point or later
    std::function<void(uint64_t)> on_out; // bytes appeared in the output (total so far)
};
struct Result {
    int code = -1;
    bool exited = false;
    uint64_t io_ops = 0, clock_reads = 0, sleeps = 0, slept_ns = 0, max_sleep_ns = 0;
    uint64_t t_first = 0, t_end = 0;  // simulated ns at the first clock read / end of the process
    bool signalled = false, sig_installed = false;
    uint64_t logical = 0, logical_at_sig = 0;  // bytes handed to stdio for the output
    uint64_t short_reads = 0, short_writes = 0, full = 0;
    uint64_t f_open = 0, f_read = 0, f_write = 0, f_close = 0;
    uint64_t lost = 0;                // injected failures of calls on the input or output
    uint64_t bad_sleeps = 0, open_files = 0, last_seek = 0; // sleeps with an invalid time; streams open at the end
};
// runs on fibre 0 inside sim::run; ends the simulated process
Result run_tool(const std::vector<std::string> &args, Disk &d, const Cfg &c);
Result run_proc(Disk &d, const Cfg &c, const std::function<int()> &body); // the same for other code
uint64_t sim_ns();                    // simulated clock
uint64_t sim_first();                 // what the first clock read returned (0: none yet)
}
