// Independent tasks that share nothing: each must behave as if it ran alone,
// also while another one meets faults or is abandoned.
#include "nested.h"
enum Job { J_FLUSH, J_GROW, J_BUILD, J_READ, J_TREE_DATA, J_TREE_POOL, J_TREE_STREAM, J_FILE, J_PRINT, J_EXPECT, J_SESSION, J_N };
static const char* const job_name[] = {"flush-writer", "growable", "builder", "reader", "tree", "tree-pool", "tree-stream", "file", "print", "expect", "session"};
struct Worker {
    Proc* proc;
    Conn* c;
    Job job;
    uint32_t rounds;
    bool faulty;             // its allocations fail: any memory error is fine
    Val v;
    bytes_t enc;             // reference encoding
    bytes_t out;
    size_t pos;
    char path[16];
    std::vector<std::string> printed; // what printing alone gave
    std::string text;
    mpack_node_data_t pool[600];
    uint32_t errors;
};
static std::vector<Worker*> workers;

static void iso_fail(Worker* k, mpack_error_t e) {
    CHECK(e == mpack_error_memory && cur_alloc_failed() > 0, "net.isolation", "%s (%s): failed with %s although nothing of its own failed", k->proc->name, job_name[k->job], err_name(e));
    k->errors++;
}
static void iso_flush(mpack_writer_t* w, const char* d, size_t n) {
    Worker* k = (Worker*)mpack_writer_context(w);
    yield_point();
    k->out.insert(k->out.end(), d, d + n);
    yield_point();
}
static size_t iso_fill(mpack_reader_t* r, char* b, size_t n) {
    Worker* k = (Worker*)mpack_reader_context(r);
    yield_point();
    size_t left = k->enc.size() - k->pos;
    size_t m = n < left ? n : left;
    if (m > 1)
        m = 1 + draw((uint32_t)m);
    if (m)
        memcpy(b, k->enc.data() + k->pos, m);
    k->pos += m;
    yield_point();
    return m;
}
static size_t iso_read(mpack_tree_t* t, char* b, size_t n) {
    Worker* k = (Worker*)mpack_tree_context(t);
    yield_point();
    if (draw(4) == 3 && k->c->rmode == R_TRY)
        return 0;
    size_t left = k->enc.size() - k->pos;
    size_t m = n < left ? n : left;
    if (m > 1)
        m = 1 + draw((uint32_t)m);
    if (m)
        memcpy(b, k->enc.data() + k->pos, m);
    k->pos += m;
    yield_point();
    return m;
}
__attribute__((unused)) static void iso_print(void* ctx, const char* d, size_t n) {
    Worker* k = (Worker*)ctx;
    yield_point();
    k->text.append(d, n);
}
static void iso_bytes(Worker* k, const uint8_t* d, size_t n) {
    CHECK(n == k->enc.size() && (n == 0 || memcmp(d, k->enc.data(), n) == 0), "net.isolation", "%s (%s): wrote %lu bytes that differ from the %lu it writes alone", k->proc->name, job_name[k->job], (unsigned long)n, (unsigned long)k->enc.size());
}
static void iso_value(Worker* k) {
    CHECK(val_equal(k->c->cur, k->v), "net.isolation", "%s (%s): read a value that differs from the one it reads alone", k->proc->name, job_name[k->job]);
}
static void iso_round(Worker* k) {
    Conn* c = k->c;
    k->out.clear();
    k->pos = 0;
    mpack_error_t e = mpack_ok;
    switch (k->job) {
        case J_FLUSH: {
            mpack_writer_t w;
            mpack_writer_init(&w, c->wbuf, c->wsize);
            mpack_writer_set_context(&w, k);
            mpack_writer_set_flush(&w, iso_flush);
            put(&w, k->v, false);
            e = mpack_writer_destroy(&w);
            if (e == mpack_ok)
                iso_bytes(k, k->out.data(), k->out.size());
            break;
        }
        case J_GROW:
        case J_BUILD: {
            mpack_writer_t w;
            char* d = NULL;
            size_t n = 0;
            mpack_writer_init_growable(&w, &d, &n);
            put(&w, k->v, k->job == J_BUILD);
            e = mpack_writer_destroy(&w);
            yield_point();
            if (e == mpack_ok) {
                iso_bytes(k, (const uint8_t*)d, n);
                sim_free(d);
            }
            break;
        }
        case J_READ: {
            mpack_reader_t r;
            mpack_reader_init(&r, c->rbuf, c->rsize, 0);
            mpack_reader_set_context(&r, k);
            mpack_reader_set_fill(&r, iso_fill);
            bool ok = get(c, &r, c->cur, 0);
            e = mpack_reader_destroy(&r);
            CHECK(ok == (e == mpack_ok), "err.destroy-result", "%s: destroy returned %s", k->proc->name, err_name(e));
            if (ok)
                iso_value(k);
            break;
        }
        case J_TREE_DATA:
        case J_TREE_POOL:
        case J_TREE_STREAM: {
            mpack_tree_t t;
            if (k->job == J_TREE_DATA)
                mpack_tree_init_data(&t, (const char*)k->enc.data(), k->enc.size());
            else if (k->job == J_TREE_POOL)
                mpack_tree_init_pool(&t, (const char*)k->enc.data(), k->enc.size(), k->pool, 600);
            else
                mpack_tree_init_stream(&t, iso_read, k, 1u << 20, 1u << 16);
            if (k->job == J_TREE_STREAM && c->rmode == R_TRY) {
                while (!mpack_tree_try_parse(&t) && mpack_tree_error(&t) == mpack_ok)
                    yield_point();
            } else
                mpack_tree_parse(&t);
            if (mpack_tree_error(&t) == mpack_ok) {
                from_node(c, mpack_tree_root(&t), c->cur, 0);
                iso_value(k);
            }
            e = mpack_tree_destroy(&t);
            if (e == mpack_error_too_big && k->job == J_TREE_POOL && val_nodes(k->v) > 600)
                e = mpack_ok;
            break;
        }
        case J_FILE: {
            mpack_writer_t w;
            mpack_writer_init_filename(&w, k->path);
            put(&w, k->v, false);
            e = mpack_writer_destroy(&w);
            if (e != mpack_ok)
                break;
            SimFile* f = fs_file(k->path, false);
            CHECK(f != NULL, "net.isolation", "%s: no file", k->proc->name);
            iso_bytes(k, f->data.data(), f->data.size());
            yield_point();
            if (draw(2)) {
                mpack_reader_t r;
                mpack_reader_init_filename(&r, k->path);
                if (get(c, &r, c->cur, 0))
                    iso_value(k);
                e = mpack_reader_destroy(&r);
            } else {
                mpack_tree_t t;
                mpack_tree_init_filename(&t, k->path, 0);
                mpack_tree_parse(&t);
                if (mpack_tree_error(&t) == mpack_ok) {
                    from_node(c, mpack_tree_root(&t), c->cur, 0);
                    iso_value(k);
                }
                e = mpack_tree_destroy(&t);
            }
            break;
        }
        case J_PRINT: {
#if MPACK_DEBUG && MPACK_STDIO
            k->text.clear();
            mpack_print_data_to_callback((const char*)k->enc.data(), k->enc.size(), iso_print, k);
            if (!k->printed.empty()) {
                CHECK(k->faulty || k->text == k->printed[0], "net.isolation", "%s: printed a text that differs from the one it prints alone", k->proc->name);
            } else
                k->printed.push_back(k->text);
#endif
            break;
        }
        case J_SESSION:
            session_run("net.isolation", k->path, cur_alloc_failed, yield_point);
            break;
        default: {
            // [u16, str, {1: i32, "key": bool}]
            static const char str[] = "interleaved";
            k->out.clear();
            Val v;
            (void)v;
            mpack_reader_t r;
            mpack_reader_init(&r, c->rbuf, c->rsize, 0);
            mpack_reader_set_context(&r, k);
            mpack_reader_set_fill(&r, iso_fill);
            mpack_expect_array_match(&r, 3);
            uint16_t a = mpack_expect_u16(&r);
            yield_point();
            char b[32];
            mpack_expect_cstr(&r, b, sizeof(b));
            bool found[2] = {false, false}, flag = false;
            static const char* keys[] = {"number", "key"};
            int32_t num = 0;
            for (uint32_t n = mpack_expect_map_max(&r, 10); n > 0 && mpack_reader_error(&r) == mpack_ok; --n) {
                yield_point();
                switch (mpack_expect_key_cstr(&r, keys, found, 2)) {
                    case 0: num = mpack_expect_i32(&r); break;
                    case 1: flag = mpack_expect_bool(&r); break;
                    default: mpack_discard(&r); break;
                }
            }
            mpack_done_map(&r);
            mpack_done_array(&r);
            e = mpack_reader_destroy(&r);
            if (e == mpack_ok)
                CHECK(a == 777 && strcmp(b, str) == 0 && num == -70000 && flag && found[0] && found[1], "net.isolation", "%s: expected values arrived as %u \"%s\" %i %i", k->proc->name, a, b, (int)num, (int)flag);
            break;
        }
    }
    if (e != mpack_ok)
        iso_fail(k, e);
}
static void iso_expect_doc(Val& d) {
    auto mk = [](VK k, uint64_t u, const char* s) {
        Val v;
        v.k = k;
        v.u = u;
        v.i = (int64_t)u;
        if (s)
            v.data.assign(s, s + strlen(s));
        return v;
    };
    d = Val();
    d.k = K_ARR;
    d.kids.push_back(mk(K_UINT, 777, NULL));
    d.kids.push_back(mk(K_STR, 0, "interleaved"));
    Val m;
    m.k = K_MAP;
    m.kids.push_back(mk(K_STR, 0, "number"));
    m.kids.push_back(mk(K_INT, (uint64_t)(int64_t)-70000, NULL));
    m.kids.push_back(mk(K_STR, 0, "unknown"));
    m.kids.push_back(mk(K_STR, 0, "ignored value"));
    m.kids.push_back(mk(K_STR, 0, "key"));
    Val t;
    t.k = K_BOOL;
    t.b = true;
    m.kids.push_back(t);
    d.kids.push_back(m);
}
static bool iso_crashed;
static void iso_nemesis() {
    // abandons the faulty worker somewhere
    if (iso_crashed || !workers[0]->faulty || !coin(1, 60))
        return;
    iso_crashed = true;
    FAULT("task-abandoned");
    ev("%s is abandoned", workers[0]->proc->name);
    F.crashed = true;
    proc_kill(workers[0]->proc);
}
static void setup_isolate() {
    for (Worker* k : workers)
        delete k;
    workers.clear();
    iso_crashed = false;
    F.crashed = false;
    uint32_t n = 2 + draw(4);
    bool victim = draw(2);
    for (uint32_t i = 0; i < n; ++i) {
        Worker* k = new Worker();
        workers.push_back(k);
        k->proc = proc_new(nm("worker%u", i));
        k->c = conn_new(nm("worker%u", i), NULL, NULL);
        k->job = (Job)draw(J_N);
        k->rounds = 1 + draw(3);
        k->faulty = victim && i == 0;
        k->errors = 0;
        if (k->faulty)
            k->proc->alloc_rate = draw(2) ? 1 + draw(30) : 0;
        snprintf(k->path, sizeof(k->path), "w%u.mp", i);
        if (k->job == J_EXPECT)
            iso_expect_doc(k->v);
        else
            gen_payload(k->v);
        enc_canon(k->enc, k->v);
        if (k->job == J_PRINT && draw(2)) {
            // the printer's buffer is full inside the message about what follows
            size_t len = 1024 - 2 - draw(60), extra = 1 + draw(999);
            k->enc.assign(3, 0xda);
            k->enc[1] = (uint8_t)(len >> 8);
            k->enc[2] = (uint8_t)len;
            k->enc.insert(k->enc.end(), len, 'p');
            k->enc.insert(k->enc.end(), extra, 0);
        }
        if (k->job == J_PRINT) { // alone, before the others exist
            Task* cur = SC.cur;
            SC.cur = NULL;
            iso_round(k);
            SC.cur = cur;
        }
        ev("worker%u: %s x%u%s", i, job_name[k->job], k->rounds, k->faulty ? " with faults" : "");
        task_new(k->proc, job_name[k->job], [=] {
            for (uint32_t j = 0; j < k->rounds; ++j) {
                iso_round(k);
                yield_point();
            }
        });
    }
    SC.on_step = iso_nemesis;
}
static void finish_isolate() {
    for (Worker* k : workers)
        if (!k->faulty)
            CHECK(k->errors == 0, "net.isolation", "%s met an error", k->proc->name);
}
