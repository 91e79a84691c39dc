// Simulated SDL for the player (examples/dav1dplay.c): threads, locks, event queue,
// clock, window and renderer, plus a user who presses keys.
#pragma once
#include "cli.h"
#include <deque>

namespace play {
enum Act { A_SPACE, A_LEFT, A_RIGHT, A_EXPOSE, A_RESIZE, A_OTHER, A_QUIT, A_ESC };
struct Step { Act a; uint64_t points; int frames; }; // acts so many scheduling points / shown frames after the previous step
struct Cfg {
    cli::Cfg io;
    std::vector<Step> user;
    std::function<uint64_t(const uint8_t *const *, const ptrdiff_t *, int, int, int, int)> hash; // planes, strides, w, h, layout, bpc
};
struct Shown { uint64_t hash; int w, h; int64_t ts; bool have_ts; uint64_t t_update, t_render; int renders; int keys, seeks; };
struct Result {
    cli::Result r;
    std::vector<Shown> shown;
    int pauses = 0, seeks = 0, quits = 0, exposes = 0;
    size_t shown_at_quit = 0;
    uint64_t quit_at = 0, last_seek_at = 0, last_input_seek = 0, delays = 0, delayed_ms = 0;
    bool missing_render = false;
    uint64_t live_blocks = 0; std::string leaks;
    int zc_live = 0; uint64_t zc_total = 0;
};
Result run_player(const std::vector<std::string> &args, cli::Disk &d, const Cfg &c);
bool available();
}
