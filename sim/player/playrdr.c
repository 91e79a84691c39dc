// Takes the place of the libplacebo renderers: pictures go to the simulator.
#include "config.h"
#include "dp_renderer.h"
void sim_rd_update(const Dav1dPicture *p); void sim_rd_render(void); void *sim_rd_create(void); void sim_rd_destroy(void *);
int sim_rd_alloc(Dav1dPicture *p, void *cookie); void sim_rd_release(Dav1dPicture *p, void *cookie);
static void *create(const Dav1dPlaySettings *s) { return sim_rd_create(); }
static void destroy(void *c) { sim_rd_destroy(c); }
static void render(void *c, const Dav1dPlaySettings *s) { sim_rd_render(); }
static int update(void *c, Dav1dPicture *p, const Dav1dPlaySettings *s) { if (p) sim_rd_update(p); return 0; }
const Dav1dPlayRenderInfo rdr_placebo_vk = {
    .name = "sim", .create_renderer = create, .destroy_renderer = destroy, .render = render, .update_frame = update,
    .alloc_pic = sim_rd_alloc, .release_pic = sim_rd_release, .supports_gpu_grain = 1,
};
const Dav1dPlayRenderInfo rdr_placebo_gl = { 0 };
