/*
 * Verification host: a persistent server which evaluates generated javascript
 * programs in the engine under test and returns what they printed.
 *
 * stdin : requests,  stdout: responses (binary, little endian u32 fields).
 *
 *   request : u32 magic 0x52415431, u32 flags, u32 stress, u32 ncases,
 *             u32 prelude_len, bytes,
 *             ncases * { u32 mode, u32 len, bytes }
 *   response: ncases * { u32 status, u32 len, bytes }
 *
 * Every request is run in a new runtime. flags: 1 = a new realm per case,
 * 2 = compile only. stress: run the garbage collector after every "stress"th
 * gc_add (0 = only when the engine itself wants to).
 * mode: 0 script, 1 indirect eval, 2 strict script, 3 module file (bytes = path).
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <limits.h>
#include <libgen.h>
#include <pthread.h>
#include <time.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <ratjs.h>

#define MAGIC 0x52415431

/* ---------------------------------------------------------------- output */
typedef struct { char *p; size_t len, cap; } Buf;

static __thread Buf out;
static size_t out_limit = 4 * 1024 * 1024;

static void
buf_add (Buf *b, const char *s, size_t n)
{
    if (b->len + n > out_limit)
        return;
    if (b->len + n > b->cap) {
        b->cap = (b->len + n) * 2 + 256;
        b->p   = realloc(b->p, b->cap);
        if (!b->p) abort();
    }
    memcpy(b->p + b->len, s, n);
    b->len += n;
}

static void
buf_str (Buf *b, const char *s) { buf_add(b, s, strlen(s)); }

/* Escape a javascript string's UTF-16 code units to ASCII. */
static void
buf_jsstr (Buf *b, RJS_Runtime *rt, RJS_Value *v)
{
    size_t i, n = rjs_string_get_length(rt, v);
    const RJS_UChar *u = rjs_string_get_uchars(rt, v);
    char t[16];

    for (i = 0; i < n; i ++) {
        int c = u[i];
        if (c == '\\') buf_str(b, "\\\\");
        else if ((c >= 32) && (c < 127)) { t[0] = c; buf_add(b, t, 1); }
        else { snprintf(t, sizeof(t), "\\u%04x", c & 0xffff); buf_str(b, t); }
    }
}

/* ---------------------------------------------------------------- leak report */
static int leak_seen;

extern void rjs_log_v (RJS_LogLevel level, const char *tag, const char *file, const char *func, int line, const char *fmt, va_list ap);
void
__wrap_rjs_log (RJS_LogLevel level, const char *tag, const char *file, const char *func, int line, const char *fmt, ...)
{
    va_list ap;
    if (strstr(fmt, "unfreed memory"))
        leak_seen = 1;
    va_start(ap, fmt);
    rjs_log_v(level, tag, file, func, line, fmt, ap);
    va_end(ap);
}

/* ---------------------------------------------------------------- gc stress */
static __thread unsigned gc_stress, gc_count;
static __thread int gc_armed;
static __thread unsigned long gc_runs;

extern void __real_rjs_gc_add (RJS_Runtime *rt, void *thing, const RJS_GcThingOps *ops);
void
__wrap_rjs_gc_add (RJS_Runtime *rt, void *thing, const RJS_GcThingOps *ops)
{
    RJS_RuntimeBase *rb = (RJS_RuntimeBase*)rt;
    __real_rjs_gc_add(rt, thing, ops);
    if (gc_stress && gc_armed && rb->gc_enable && !rb->gc_running) {
        /* < 4096: at every n-th allocation; else at each of (low 12 bits) allocations from the (n >> 12)-th on */
        gc_count ++;
        if ((gc_stress < 4096) ? (gc_count % gc_stress == 0) : (gc_count - (gc_stress >> 12) < (gc_stress & 4095))) {
            gc_runs ++;
            rjs_gc_run(rt);
        }
    }
}

/* ---------------------------------------------------------------- agents */
typedef struct Agent_s {
    struct Agent_s *next;
    pthread_t       thread;
    char           *src;
    size_t          slen;
    RJS_DataBlock  *db;
    int             has;
    RJS_Runtime    *rt;
} Agent;

static pthread_mutex_t ag_lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t  ag_cond = PTHREAD_COND_INITIALIZER;
static Agent          *ag_list;
static Buf             ag_reports;
static __thread Agent *ag_self;

static void host_setup_realm (RJS_Runtime *rt, RJS_Realm *realm);
static int  host_run (RJS_Runtime *rt, RJS_Realm *realm, int mode, const char *src, size_t len, int compile_only);

static RJS_Realm *
realm_of (RJS_Runtime *rt) { return rjs_realm_current(rt); }

static RJS_NF(h_out)
{
    size_t     top = rjs_value_stack_save(rt);
    RJS_Value *s   = rjs_value_stack_push(rt);
    RJS_Result r;

    if ((r = rjs_to_string(rt, rjs_argument_get(rt, args, argc, 0), s)) != RJS_ERR) {
        buf_jsstr(&out, rt, s);
        buf_str(&out, "\n");
        rjs_value_set_undefined(rt, rv);
    }
    rjs_value_stack_restore(rt, top);
    return r == RJS_ERR ? RJS_ERR : RJS_OK;
}

extern size_t host_mem_size (RJS_Runtime *rt); /* hostmem.c */

/* Bytes in use after a collection. */
static RJS_NF(h_mem)
{
    rjs_gc_run(rt);
    rjs_value_set_number(rt, rv, (double)host_mem_size(rt));
    return RJS_OK;
}

static RJS_NF(h_gc)
{
    rjs_gc_run(rt);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}

static RJS_NF(h_detach)
{
    RJS_Value *v = rjs_argument_get(rt, args, argc, 0);
    rjs_value_set_undefined(rt, rv);
    if (rjs_is_array_buffer(rt, v) && !rjs_is_shared_array_buffer(rt, v))
        return rjs_detach_array_buffer(rt, v);
    return RJS_OK;
}

/* __tz(name): the process's time zone, a few names only. */
static RJS_NF(h_tz)
{
    RJS_Value *v = rjs_argument_get(rt, args, argc, 0);
    const char *s = rjs_string_to_enc_chars(rt, v, NULL, "UTF-8");

    setenv("TZ", s, 1);
    tzset();
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}

static RJS_NF(h_new_realm)
{
    size_t     top = rjs_value_stack_save(rt);
    RJS_Value *v   = rjs_value_stack_push(rt);
    RJS_Realm *re;

    re = rjs_realm_new(rt, v);
    host_setup_realm(rt, re);
    rjs_value_copy(rt, rv, rjs_global_object(re));
    rjs_value_stack_restore(rt, top);
    return RJS_OK;
}

/* __evalscript(src): compile and run a script in the current realm. */
static RJS_NF(h_evalscript)
{
    size_t     top = rjs_value_stack_save(rt);
    RJS_Value *s   = rjs_value_stack_push(rt);
    RJS_Value *sc  = rjs_value_stack_push(rt);
    RJS_Result r;

    if ((r = rjs_to_string(rt, rjs_argument_get(rt, args, argc, 0), s)) == RJS_ERR)
        goto end;
    if ((r = rjs_script_from_string(rt, sc, s, realm_of(rt), RJS_FALSE)) == RJS_ERR) {
        r = rjs_throw_syntax_error(rt, "syntax error");
        goto end;
    }
    r = rjs_script_evaluation(rt, sc, rv);
end:
    rjs_value_stack_restore(rt, top);
    return r;
}

static RJS_NF(h_jobs)
{
    rjs_solve_jobs(rt);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}

static void *
agent_entry (void *p)
{
    Agent       *a  = p;
    RJS_Runtime *rt;

    ag_self = a;
    rt      = rjs_runtime_new();
    rjs_set_agent_can_block(rt, RJS_TRUE);
    rjs_realm_load_extension(rt, NULL);
    host_setup_realm(rt, rjs_realm_current(rt));
    host_run(rt, rjs_realm_current(rt), 0, a->src, a->slen, 0);
    rjs_solve_jobs(rt);
    rjs_runtime_free(rt);
    pthread_mutex_lock(&ag_lock);
    buf_add(&ag_reports, out.p, out.len);
    pthread_mutex_unlock(&ag_lock);
    free(out.p);
    out.p = NULL; out.len = out.cap = 0;
    return NULL;
}

static RJS_NF(h_agent_start)
{
    size_t     top = rjs_value_stack_save(rt);
    RJS_Value *s   = rjs_value_stack_push(rt);
    RJS_Result r;

    if ((r = rjs_to_string(rt, rjs_argument_get(rt, args, argc, 0), s)) != RJS_ERR) {
        const char *c = rjs_string_to_enc_chars(rt, s, NULL, NULL);
        Agent      *a = calloc(1, sizeof(*a));
        a->src  = strdup(c);
        a->slen = strlen(c);
        pthread_mutex_lock(&ag_lock);
        a->next = ag_list;
        ag_list = a;
        pthread_mutex_unlock(&ag_lock);
        pthread_create(&a->thread, NULL, agent_entry, a);
        rjs_value_set_undefined(rt, rv);
    }
    rjs_value_stack_restore(rt, top);
    return r == RJS_ERR ? r : RJS_OK;
}

static RJS_NF(h_agent_broadcast)
{
    RJS_Value     *sb = rjs_argument_get(rt, args, argc, 0);
    RJS_DataBlock *db;
    Agent         *a;

    if (!rjs_is_shared_array_buffer(rt, sb))
        return rjs_throw_type_error(rt, "not shared");
    db = rjs_array_buffer_get_data_block(rt, sb);
    pthread_mutex_lock(&ag_lock);
    for (a = ag_list; a; a = a->next) {
        a->db  = rjs_data_block_ref(db);
        a->has = 1;
    }
    pthread_cond_broadcast(&ag_cond);
    pthread_mutex_unlock(&ag_lock);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}

static RJS_NF(h_agent_receive)
{
    size_t         top = rjs_value_stack_save(rt);
    RJS_Value     *sb  = rjs_value_stack_push(rt);
    RJS_DataBlock *db;
    RJS_Result     r;

    if (!ag_self)
        return rjs_throw_type_error(rt, "not an agent");
    pthread_mutex_lock(&ag_lock);
    while (!ag_self->has)
        pthread_cond_wait(&ag_cond, &ag_lock);
    db = ag_self->db;
    ag_self->has = 0;
    ag_self->db  = NULL;
    pthread_mutex_unlock(&ag_lock);
    r = rjs_allocate_shared_array_buffer(rt, NULL, rjs_data_block_get_size(db), db, sb);
    rjs_data_block_unref(db);
    if (r != RJS_ERR)
        r = rjs_call(rt, rjs_argument_get(rt, args, argc, 0), rjs_v_undefined(rt), sb, 1, rv);
    rjs_value_stack_restore(rt, top);
    return r;
}

static RJS_NF(h_agent_sleep)
{
    RJS_Number n = 0;
    if (rjs_to_number(rt, rjs_argument_get(rt, args, argc, 0), &n) == RJS_ERR)
        return RJS_ERR;
    if (n > 0) usleep(n * 1000);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}

/* Join all agents; return what they printed. */
static void
agents_join (void)
{
    Agent *a;
    for (;;) {
        pthread_mutex_lock(&ag_lock);
        a = ag_list;
        if (a) ag_list = a->next;
        pthread_mutex_unlock(&ag_lock);
        if (!a) break;
        pthread_join(a->thread, NULL);
        if (a->db) rjs_data_block_unref(a->db);
        free(a->src);
        free(a);
    }
}

static RJS_NF(h_agent_join)
{
    RJS_Result r;
    agents_join();
    r = rjs_string_from_enc_chars(rt, rv, ag_reports.p ? ag_reports.p : "", ag_reports.len, NULL);
    ag_reports.len = 0;
    return r;
}

typedef struct { const char *name; int len; RJS_NativeFunc fn; } HF;
static const HF hfs[] = {
    {"__out", 1, h_out}, {"__gc", 0, h_gc}, {"__mem", 0, h_mem}, {"__detach", 1, h_detach}, {"__tz", 1, h_tz},
    {"__newrealm", 0, h_new_realm}, {"__evalscript", 1, h_evalscript},
    {"__jobs", 0, h_jobs},
    {"__agent_start", 1, h_agent_start}, {"__agent_broadcast", 1, h_agent_broadcast},
    {"__agent_receive", 1, h_agent_receive}, {"__agent_sleep", 1, h_agent_sleep},
    {"__agent_join", 0, h_agent_join},
    {NULL, 0, NULL}
};

static char  *prelude;
static size_t prelude_len;

static int
src_to_value (RJS_Runtime *rt, RJS_Value *v, const char *s, size_t n)
{
    return rjs_string_from_enc_chars(rt, v, s, n, "UTF-8");
}

static void
host_setup_realm (RJS_Runtime *rt, RJS_Realm *realm)
{
    size_t     top = rjs_value_stack_save(rt);
    RJS_Value *name = rjs_value_stack_push(rt);
    RJS_Value *fn   = rjs_value_stack_push(rt);
    const HF  *h;

    for (h = hfs; h->name; h ++) {
        RJS_PropertyName pn;
        RJS_PropertyDesc pd;
        rjs_string_from_chars(rt, name, h->name, -1);
        rjs_create_builtin_function(rt, NULL, h->fn, h->len, name, realm, NULL, NULL, fn);
        rjs_property_name_init(rt, &pn, name);
        rjs_property_desc_init(rt, &pd);
        pd.flags = RJS_PROP_FL_DATA | RJS_PROP_FL_HAS_WRITABLE | RJS_PROP_FL_HAS_CONFIGURABLE
            | RJS_PROP_FL_HAS_ENUMERABLE | RJS_PROP_FL_WRITABLE | RJS_PROP_FL_CONFIGURABLE;
        rjs_value_copy(rt, pd.value, fn);
        rjs_define_property_or_throw(rt, rjs_global_object(realm), &pn, &pd);
        rjs_property_desc_deinit(rt, &pd);
        rjs_property_name_deinit(rt, &pn);
    }
    if (prelude_len) {
        RJS_Value *src = rjs_value_stack_push(rt);
        RJS_Value *sc  = rjs_value_stack_push(rt);
        src_to_value(rt, src, prelude, prelude_len);
        if ((rjs_script_from_string(rt, sc, src, realm, RJS_FALSE) == RJS_ERR)
            || (rjs_script_evaluation(rt, sc, NULL) == RJS_ERR)) {
            RJS_Value *err = rjs_value_stack_push(rt);
            rjs_catch(rt, err);
            buf_str(&out, "PRELUDE-FAILED\n");
        }
    }
    rjs_value_stack_restore(rt, top);
}

/* Report a pending exception through the prelude's __str. */
static void
report_throw (RJS_Runtime *rt, RJS_Realm *realm, const char *what)
{
    size_t     top = rjs_value_stack_save(rt);
    RJS_Value *err = rjs_value_stack_push(rt);
    RJS_Value *fnn = rjs_value_stack_push(rt);
    RJS_Value *fn  = rjs_value_stack_push(rt);
    RJS_Value *rv  = rjs_value_stack_push(rt);
    RJS_PropertyName pn;

    buf_str(&out, what);
    if (!rjs_catch(rt, err)) {
        buf_str(&out, "<none>\n");
        goto end;
    }
    rjs_string_from_chars(rt, fnn, "__str", -1);
    rjs_property_name_init(rt, &pn, fnn);
    rjs_get(rt, rjs_global_object(realm), &pn, fn);
    rjs_property_name_deinit(rt, &pn);
    if (rjs_is_callable(rt, fn)
        && (rjs_call(rt, fn, rjs_v_undefined(rt), err, 1, rv) != RJS_ERR)
        && rjs_value_is_string(rt, rv)) {
        buf_jsstr(&out, rt, rv);
    } else {
        RJS_Value *e2 = rjs_value_stack_push(rt);
        rjs_catch(rt, e2);
        buf_str(&out, "?");
    }
    buf_str(&out, "\n");
end:
    rjs_value_stack_restore(rt, top);
}

/* ---------------------------------------------------------------- modules */
static RJS_Result
mod_lookup (RJS_Runtime *rt, const char *base, const char *name, char *path)
{
    char b[PATH_MAX], p[PATH_MAX * 2];

    if (name[0] == '/' || !base) {
        snprintf(p, sizeof(p), "%s", name);
    } else {
        snprintf(b, sizeof(b), "%s", base);
        snprintf(p, sizeof(p), "%s/%s", dirname(b), name);
    }
    return realpath(p, path) ? RJS_OK : RJS_ERR;
}

static RJS_Result
mod_load (RJS_Runtime *rt, const char *id, RJS_PromiseCapability *pc)
{
    size_t         top = rjs_value_stack_save(rt);
    RJS_Value     *mod = rjs_value_stack_push(rt);
    RJS_Value     *err = rjs_value_stack_push(rt);
    RJS_Input      input;
    RJS_ModuleType type = RJS_MODULE_TYPE_SCRIPT;
    const char    *sup  = strrchr(id, '.');
    RJS_Result     r;
    int            has = 0;

    if (sup && !strcasecmp(sup, ".njs")) type = RJS_MODULE_TYPE_NATIVE;
    else if (sup && !strcasecmp(sup, ".json")) type = RJS_MODULE_TYPE_JSON;
    if (type != RJS_MODULE_TYPE_NATIVE) {
        if ((r = rjs_file_input_init(rt, &input, id, NULL)) == RJS_ERR)
            goto end;
        has = 1;
    }
    r = rjs_load_module(rt, type, &input, id, NULL, mod);
end:
    if (has)
        rjs_input_deinit(rt, &input);
    if (r == RJS_ERR) {
        rjs_catch(rt, err);
        r = rjs_call(rt, pc->reject, rjs_v_undefined(rt), err, 1, NULL);
    } else {
        r = rjs_call(rt, pc->resolve, rjs_v_undefined(rt), mod, 1, NULL);
    }
    rjs_value_stack_restore(rt, top);
    return r;
}

static __thread int        cb_state;
static __thread RJS_Value *cb_value;
static RJS_NF(cb_ok)  { rjs_value_copy(rt, cb_value, rjs_argument_get(rt, args, argc, 0)); rjs_value_set_undefined(rt, rv); cb_state = 1; return RJS_OK; }
static RJS_NF(cb_err) { rjs_value_copy(rt, cb_value, rjs_argument_get(rt, args, argc, 0)); rjs_value_set_undefined(rt, rv); cb_state = 2; return RJS_OK; }

static int
wait_promise (RJS_Runtime *rt, RJS_Value *promise)
{
    int n = 0;
    cb_state = 0;
    if (rjs_promise_then_native(rt, promise, cb_ok, cb_err, NULL) == RJS_ERR)
        return 3;
    while (!cb_state && n ++ < 10)
        rjs_solve_jobs(rt);
    return cb_state;
}

/* Returns 0 ok, 1 threw, 2 did not compile, 4 link error, 5 load error, 6 never settled. */
static int
run_module (RJS_Runtime *rt, RJS_Realm *realm, const char *path, int compile_only)
{
    size_t     top  = rjs_value_stack_save(rt);
    RJS_Value *mod  = rjs_value_stack_push(rt);
    RJS_Value *pro  = rjs_value_stack_push(rt);
    RJS_Input  input;
    int        st, r;

    cb_value = rjs_value_stack_push(rt);
    if (rjs_file_input_init(rt, &input, path, NULL) == RJS_ERR) { st = 5; goto end; }
    r = rjs_load_module(rt, RJS_MODULE_TYPE_SCRIPT, &input, path, realm, mod);
    rjs_input_deinit(rt, &input);
    if (r == RJS_ERR) { st = 2; goto err; }
    if (compile_only) { st = 0; goto end; }
    if (rjs_module_load_requested(rt, mod, pro) == RJS_ERR) { st = 5; goto err; }
    st = wait_promise(rt, pro);
    if (st != 1) {
        if (st == 2) { rjs_throw(rt, cb_value); st = 5; goto err; }
        st = 6;
        goto end;
    }
    if (rjs_module_link(rt, mod) == RJS_ERR) { st = 4; goto err; }
    if (rjs_module_evaluate(rt, mod, pro) == RJS_ERR) { st = 1; goto err; }
    st = wait_promise(rt, pro);
    if (st == 1) { st = 0; goto end; }
    if (st == 2) { rjs_throw(rt, cb_value); st = 1; goto err; }
    st = 6;
    goto end;
err:
    report_throw(rt, realm, "!throw ");
end:
    rjs_solve_jobs(rt);
    rjs_value_stack_restore(rt, top);
    return st;
}

static int
host_run (RJS_Runtime *rt, RJS_Realm *realm, int mode, const char *src, size_t len, int compile_only)
{
    size_t     top = rjs_value_stack_save(rt);
    RJS_Value *s   = rjs_value_stack_push(rt);
    RJS_Value *sc  = rjs_value_stack_push(rt);
    RJS_Value *rv  = rjs_value_stack_push(rt);
    RJS_Value *e   = rjs_value_stack_push(rt);
    int        st  = 0;
    RJS_Result r;

    rjs_catch(rt, e);
    if (mode == 3) {
        char *p = strndup(src, len);
        st = run_module(rt, realm, p, compile_only);
        free(p);
        goto end;
    }
    if (src_to_value(rt, s, src, len) == RJS_ERR) { st = 2; goto end; }
    if (mode == 1) {
        if (rjs_eval_from_string(rt, sc, s, realm, RJS_FALSE, RJS_FALSE) == RJS_ERR) {
            st = 2;
            rjs_catch(rt, e);
            goto end;
        }
        r = compile_only ? RJS_OK : rjs_eval_evaluation(rt, sc, RJS_FALSE, rv);
    } else {
        if (rjs_script_from_string(rt, sc, s, realm, mode == 2) == RJS_ERR) {
            st = 2;
            rjs_catch(rt, e);
            goto end;
        }
        r = compile_only ? RJS_OK : rjs_script_evaluation(rt, sc, rv);
    }
    if (r == RJS_ERR) {
        st = 1;
        report_throw(rt, realm, "!throw ");
    }
    rjs_solve_jobs(rt);
    rjs_catch(rt, e);
end:
    rjs_value_stack_restore(rt, top);
    return st;
}

/* ---------------------------------------------------------------- server */
static void
rd (void *p, size_t n)
{
    char *c = p;
    while (n) {
        ssize_t k = read(0, c, n);
        if (k == 0) exit(0);
        if (k < 0) { if (errno == EINTR) continue; exit(3); }
        c += k; n -= k;
    }
}

static int rfd = 1;

static void
wr (const void *p, size_t n)
{
    const char *c = p;
    while (n) {
        ssize_t k = write(rfd, c, n);
        if (k < 0) { if (errno == EINTR) continue; exit(3); }
        c += k; n -= k;
    }
}

static uint32_t rd32 (void) { uint32_t v; rd(&v, 4); return v; }
static void wr32 (uint32_t v) { wr(&v, 4); }

static void
on_prof (int sig)
{
    static const char m[] = "HOST-CPU-LIMIT\n";
    (void)!write(2, m, sizeof(m) - 1);
    _exit(99);
}

static void
arm (int sec)
{
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, NULL);
}

int
main (int argc, char **argv)
{
    int cpu = 20;
    int log_leak = 0;
    char *ev;

    if ((ev = getenv("HOST_CPU"))) cpu = atoi(ev);
    if ((ev = getenv("HOST_LEAK"))) log_leak = atoi(ev);
    if (log_leak)
        rjs_log_set_level(RJS_LOG_ERROR);
    /* The scripts' own stdout goes to stderr, responses to a private fd. */
    rfd = dup(1);
    fcntl(rfd, F_SETFD, FD_CLOEXEC);
    dup2(2, 1);
    setvbuf(stdout, NULL, _IONBF, 0);
    signal(SIGPROF, on_prof);

    for (;;) {
        uint32_t magic, flags, stress, n, i;
        RJS_Runtime *rt;
        size_t top0;

        magic = rd32();
        if (magic != MAGIC) return 4;
        flags  = rd32();
        stress = rd32();
        n      = rd32();
        free(prelude);
        prelude_len = rd32();
        prelude = malloc(prelude_len + 1);
        rd(prelude, prelude_len);
        prelude[prelude_len] = 0;

        arm(cpu);
        gc_armed = 0;
        gc_stress = stress;
        gc_count = 0;
        rt = rjs_runtime_new();
        rjs_set_agent_can_block(rt, (flags & 8) ? RJS_TRUE : RJS_FALSE);
        rjs_realm_load_extension(rt, NULL);
        rjs_set_module_lookup_func(rt, mod_lookup);
        rjs_set_module_load_func(rt, mod_load);
        out.len = 0;
        top0 = rjs_value_stack_save(rt);
        if (!(flags & 1))
            host_setup_realm(rt, rjs_realm_current(rt));
        for (i = 0; i < n; i ++) {
            uint32_t   mode = rd32(), len = rd32(), st;
            char      *src  = malloc(len + 1);
            RJS_Realm *re;
            rd(src, len);
            src[len] = 0;
            arm(cpu);
            if (flags & 1) {
                RJS_Value *v = rjs_value_stack_push(rt);
                re = rjs_realm_new(rt, v);
                host_setup_realm(rt, re);
            } else {
                re = rjs_realm_current(rt);
            }
            gc_armed = 1;
            st = host_run(rt, re, mode, src, len, (flags & 2) ? 1 : 0);
            gc_armed = 0;
            rjs_value_stack_restore(rt, top0);
            if (i == n - 1) {
                /* Tear the runtime down before the last answer, so that a
                   crash in there belongs to this request. */
                agents_join();
                leak_seen = 0;
                rjs_runtime_free(rt);
                if ((flags & 16) && leak_seen)
                    buf_str(&out, "!memory not returned\n");
            }
            wr32(st);
            wr32(out.len);
            wr(out.p, out.len);
            out.len = 0;
            free(src);
        }
        arm(0);
    }
}
