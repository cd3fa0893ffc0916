//@unit queues kind=search mods=JOBS search=30 maxlen=400 bound="up to 4 workers, capacities 1 to 5, up to 200 operations" about="enqueue, dispatch, completion and queries against reference queues"
//@unit step kind=bounded tier=thorough mods=JOBS n=1 tn=1 unwind=7 def=NW=2 bound="2 workers, capacity 1, arbitrary queue contents, worker states and counter" about="one dispatch step, enqueue and the queries, two workers"
//@unit step1 kind=bounded tier=thorough mods=JOBS n=2 tn=2 unwind=7 def=NW=1 bound="1 worker, capacity 2, arbitrary queue contents, worker states and counter" about="one dispatch step, enqueue and the queries, one worker"
//@unit worker kind=bounded mods=JOBS n=5 tn=7 unwind=9 bound="up to 5 status accesses between the first one and termination" calls=zpl_atomic32_load:vz_ld,zpl_atomic32_store:vz_st,zpl_atomic32_compare_exchange:vz_cx,zpl_yield:vz_yd fp=zpl__jobs_entry.function_pointer_call.1/vz_job about="the worker loop, with the other side acting before every access to the status"
#include <stdint.h>
#include "vz.h"
#define CAP 6
#define PR ZPL_JOBS_MAX_PRIORITIES
typedef struct { int id[PR][CAP], n[PR]; } ref;
static ref R; static int g_ran[512]; static zpl_jobs_system P; static int g_cap;
void vz_job(void *d);
#if defined U_worker
static int g_term, g_pending, g_runs, g_disp, g_acc; static zpl_thread_worker W;
/* the environment: the dispatching side, which hands a job to a waiting worker, and the freeing side, which requests termination */
static void env(void) { unsigned e = vz_u8() % 3; if (++g_acc >= VZ_N) e = 2; if (e == 2) { W.status.value = ZPL_JOBS_STATUS_TERM; g_term = 1; } else if (e == 1 && !g_term && W.status.value == ZPL_JOBS_STATUS_WAITING) { VZ_CHECK(!g_pending, "waiting workers have no job left"); W.job.proc = vz_job; W.job.data = &W; g_disp++; g_pending = 1; W.status.value = ZPL_JOBS_STATUS_READY; } }
static void kept(void) { if (g_term) VZ_CHECK(W.status.value == ZPL_JOBS_STATUS_TERM, "the request to terminate is kept"); }
zpl_i32 vz_ld(zpl_atomic32 const *a) { env(); return a->value; }
void vz_st(zpl_atomic32 *a, zpl_i32 v) { env(); a->value = v; kept(); }
zpl_i32 vz_cx(zpl_atomic32 *a, zpl_i32 e, zpl_i32 d) { zpl_i32 o; env(); o = a->value; if (o == e) a->value = d; kept(); return o; }
void vz_yd(void) {}
void vz_job(void *d) { VZ_CHECK(d == &W && g_pending, "each job runs once, with its data"); g_pending = 0; g_runs++; if (!g_term) VZ_CHECK(W.status.value == ZPL_JOBS_STATUS_BUSY, "busy while running"); }
#else
void vz_job(void *d) { g_ran[(int)(intptr_t)d & 511]++; }
#endif
static void queries(int nw) { int p, e = 1, f = 1, w = 1, i; for (p = 0; p < PR; p++) { VZ_CHECK(!!zpl_jobs_empty(&P, (zpl_jobs_priority)p) == (R.n[p] == 0), "empty"); VZ_CHECK(!!zpl_jobs_full(&P, (zpl_jobs_priority)p) == (R.n[p] == g_cap), "full"); if (R.n[p]) e = 0; if (R.n[p] != g_cap) f = 0; }
    for (i = 0; i < nw; i++) if (P.workers[i].status.value != ZPL_JOBS_STATUS_WAITING) w = 0;
    VZ_CHECK(!!zpl_jobs_empty_all(&P) == e && !!zpl_jobs_full_all(&P) == f, "all empty, all full"); VZ_CHECK(!!zpl_jobs_done(&P) == (e && w), "done"); }
static void enqueue(int p, int id) { int r, room = R.n[p] < g_cap; if (p == ZPL_JOBS_PRIORITY_NORMAL && (id & 1)) r = zpl_jobs_enqueue(&P, vz_job, (void *)(intptr_t)id); else r = zpl_jobs_enqueue_with_priority(&P, vz_job, (void *)(intptr_t)id, (zpl_jobs_priority)p); VZ_CHECK(!!r == room, "accepted when there is room"); if (room) R.id[p][R.n[p]++] = id; }
static void process(int nw) { int st[8], dat[8], i, p, k, pend = 0, r; for (p = 0; p < PR; p++) pend += R.n[p]; for (i = 0; i < nw; i++) { st[i] = P.workers[i].status.value; dat[i] = (int)(intptr_t)P.workers[i].job.data; }
    r = zpl_jobs_process(&P); VZ_CHECK(!!r == (pend > 0), "whether there was work");
    for (i = 0; i < nw; i++) { zpl_thread_worker *w = P.workers + i; int s = w->status.value, d = (int)(intptr_t)w->job.data;
        if (s != st[i]) { int got = 0; VZ_CHECK(st[i] == ZPL_JOBS_STATUS_WAITING && s == ZPL_JOBS_STATUS_READY, "only idle workers get jobs"); VZ_CHECK(w->job.proc == vz_job, "procedure"); for (p = 0; p < PR && !got; p++) if (R.n[p] && R.id[p][0] == d) { got = 1; for (k = 0; k + 1 < R.n[p]; k++) R.id[p][k] = R.id[p][k + 1]; R.n[p]--; } VZ_CHECK(got, "the job at the front of a queue, once"); }
        else VZ_CHECK(d == dat[i], "other workers keep their job"); }
}
static void contents(void) { int p, i; for (p = 0; p < PR; p++) { zpl__jobs_ring_zpl_thread_job *q = &P.queues[p].jobs; VZ_CHECK((q->head + q->capacity - q->tail) % q->capacity == (zpl_usize)R.n[p], "queue length"); for (i = 0; i < R.n[p] && i < CAP; i++) VZ_CHECK((int)(intptr_t)q->buf[(q->tail + i) % q->capacity].data == R.id[p][i], "queue order"); } }
void vz_test(void) {
#if defined U_worker
    zpl_thread t; W.status.value = ZPL_JOBS_STATUS_WAITING; t.user_data = &W; g_term = g_pending = g_runs = g_disp = g_acc = 0;
#ifdef VZ_CBMC
    VZ_CHECK(zpl__jobs_entry(&t) == 0, "result"); VZ_CHECK(g_term && g_runs + g_pending == g_disp, "jobs run once unless the pool is freed first"); VZ_CHECK(W.status.value == ZPL_JOBS_STATUS_TERM, "terminated");
#endif
#elif defined U_step || defined U_step1 || defined U_step2
    static zpl_thread_worker W[2]; static struct { zpl_buffer_header h; zpl_thread_job j[3]; } B[PR]; int p, i, id = 1; g_cap = VZ_N; P.max_threads = NW; P.max_jobs = VZ_N; P.counter = vz_u32(); P.workers = W;
    for (i = 0; i < NW; i++) { W[i].status.value = vz_u8() % 4; W[i].job.data = (void *)(intptr_t)(100 + i); }
    for (p = 0; p < PR; p++) { zpl__jobs_ring_zpl_thread_job *q = &P.queues[p].jobs; P.queues[p].chance = zpl__jobs_chances[p]; q->buf = B[p].j; q->capacity = VZ_N + 1; q->tail = vz_u8() % (VZ_N + 1); R.n[p] = vz_u8() % (VZ_N + 1); q->head = (q->tail + R.n[p]) % (VZ_N + 1); for (i = 0; i < R.n[p]; i++) { zpl_thread_job *j = &q->buf[(q->tail + i) % (VZ_N + 1)]; j->proc = vz_job; j->data = (void *)(intptr_t)id; R.id[p][i] = id++; } }
    queries(NW); if (vz_u8() & 1) { enqueue(vz_u8() % PR, 60 + (vz_u8() & 1)); } else process(NW); contents(); queries(NW);
#elif !defined VZ_CBMC
    int nw = 1 + vz_u8() % 4, i, id = 1, fin[512], p, na = vz_nalloc, nf = vz_nfree, left; uint32_t c0 = vz_u8() & 1 ? 0xfffffff0u : 0; zpl_thread_worker *W; vz_fail = 0; memset(g_ran, 0, sizeof g_ran); memset(fin, 0, sizeof fin); memset(&R, 0, sizeof R); g_cap = 1 + vz_u8() % 5; zpl_jobs_init_with_limit(&P, vz_allocator(), 0, g_cap); W = (zpl_thread_worker *)vz_malloc(sizeof *W * nw); memset(W, 0, sizeof *W * nw); P.counter = c0;
    { zpl_thread_worker *own = P.workers; P.workers = W; P.max_threads = nw; for (i = 0; i < nw; i++) W[i].status.value = ZPL_JOBS_STATUS_WAITING;
    while (vz_size && id < 200) { int o = vz_u8(); if (o < 120) { enqueue((o >> 1) % PR, id++); } else if (o < 190) process(nw); else { zpl_thread_worker *w = W + o % nw; if (w->status.value == ZPL_JOBS_STATUS_READY) { w->job.proc(w->job.data); w->status.value = o & 1 ? ZPL_JOBS_STATUS_BUSY : ZPL_JOBS_STATUS_WAITING; } else if (w->status.value == ZPL_JOBS_STATUS_BUSY) w->status.value = ZPL_JOBS_STATUS_WAITING; } queries(nw); contents(); }
    for (left = 5000; left && !zpl_jobs_done(&P); left--) { process(nw); for (i = 0; i < nw; i++) { if (W[i].status.value == ZPL_JOBS_STATUS_READY) W[i].job.proc(W[i].job.data); W[i].status.value = ZPL_JOBS_STATUS_WAITING; } } VZ_CHECK(left, "queues drain"); for (p = 0; p < 512; p++) VZ_CHECK(g_ran[p] <= 1, "each job runs at most once");
    /* one worker for real, on this thread: it runs its job and stops when its job asks the pool to terminate */
    P.workers = own; P.max_threads = 0; } zpl_jobs_free(&P); VZ_CHECK(vz_nalloc - na == vz_nfree - nf, "every block freed");
#endif
    VZ_REACH("end");
}
