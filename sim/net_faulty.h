// Clients with retries, a server with durable state, and a nemesis.
struct Link {
    Pipe* up;
    Pipe* down;
    bool broken, server_closed, client_closed, done;
};
struct ClientState {
    uint32_t n, next;         // next request to be acknowledged
    bool running;
    Proc* proc;
    uint64_t restart_at;
    std::vector<Val> msgs;
    std::vector<uint64_t> hashes;
    uint32_t conns;
};
static struct FaultyState {
    bool crashed, stop, stop_faults;
    uint32_t budget, rate;
    std::vector<Link*> links, accept;
    size_t accept_pos;
    std::vector<ClientState*> clients;
    Proc* server;
    bool server_up;
    uint64_t restart_at;
    uint32_t incarnation;
    // windows of persistent faults
    Proc* alloc_victim;
    uint64_t window_end;
    bool disk_bad;
    // what the server is writing
    bytes_t intended;
    bool writing;
    uint64_t acks, applied;
} F;

static uint64_t val_hash(const Val& v) {
    bytes_t b;
    Val c = v;
    enc_canon(b, c);
    uint64_t h = 7;
    for (uint8_t x : b)
        h = (h ^ x) * 0x100000001B3ull;
    return h;
}
static uint64_t fold(uint64_t sum, uint64_t h) { return hash64(sum, h); }

struct SrvState {            // the server's memory, harness-side
    uint64_t last[2], sum[2];
    bytes_t image;           // of the next snapshot, for comparison only
};
static SrvState SV;

// What the durable file says, by the reference decoder.
static bool disk_state(const char* path, uint64_t last[2], uint64_t sum[2]) {
    last[0] = last[1] = sum[0] = sum[1] = 0;
    SimFile* f = fs_file(path, false);
    if (!f)
        return false;
    Val v;
    size_t pos = 0;
    if (dec_val(f->data.data(), f->data.size(), pos, v, true) != DEC_OK || pos != f->data.size())
        violate("file.corrupt", "the durable file does not hold one complete value although its writer succeeded");
    CHECK(v.k == K_MAP && v.kids.size() == 4, "file.corrupt", "the durable file holds something that was not written");
    for (int i = 0; i < 2; ++i) {
        const Val& e = v.kids[2 * i + 1];
        CHECK(v.kids[2 * i].k == K_UINT && v.kids[2 * i].u == (uint64_t)i && e.k == K_ARR && e.kids.size() == 3 && e.kids[0].k == K_UINT && e.kids[1].k == K_UINT, "file.corrupt", "the durable file holds something that was not written");
        last[i] = e.kids[0].u;
        sum[i] = e.kids[1].u;
    }
    return true;
}

static bool link_dead(Link* l) { return l->broken || l->server_closed || l->client_closed; }

// Is this error of an endpoint explained by a fault that happened to it?
static void explain(Conn* c, Link* l, mpack_error_t e, const char* what) {
    if (e == mpack_error_memory) {
        CHECK(cur_alloc_failed() > 0, "net.spurious", "%s: %s failed with memory although no allocation failed", c->name, what);
        return;
    }
    CHECK(e == mpack_error_io, "net.wrong-error", "%s: %s failed with %s", c->name, what, err_name(e));
    CHECK(link_dead(l), "net.spurious", "%s: %s failed with io although the connection is up", c->name, what);
}

// ------------------------------------------------------------ server
struct SnapFile { mpack_writer_t w; };
static bool snapshot(const Val* payload) {
    // written by hand so that nothing here has a destructor
    static const char pad[] = "the quick brown fox jumps over the lazy dog";
    Val m;
    {
        Val img;
        img.k = K_MAP;
        for (int i = 0; i < 2; ++i) {
            Val k, e, x;
            k.k = K_UINT;
            k.u = i;
            img.kids.push_back(k);
            e.k = K_ARR;
            x.k = K_UINT;
            x.u = SV.last[i];
            e.kids.push_back(x);
            x.u = SV.sum[i];
            e.kids.push_back(x);
            x = Val();
            x.k = K_STR;
            x.data.assign(pad, pad + (SV.last[i] * 7) % sizeof(pad));
            e.kids.push_back(x);
            img.kids.push_back(e);
        }
        F.intended.clear();
        enc_canon(F.intended, img);
    }
    (void)payload;
    (void)m;
    return true;
}
static bool save() {
    static const char pad[] = "the quick brown fox jumps over the lazy dog";
    snapshot(NULL);
    F.writing = true;
    mpack_writer_t w;
    FILE* own = NULL;
    uint32_t how = draw(3);
    uint32_t opens_failed = g_fs.open_fail_fired;
    (void)opens_failed;
    if (how == 0)
        mpack_writer_init_filename(&w, "db.tmp");
    else {
        FILE* f = sim_fopen("db.tmp", "wb");
        if (!f)
            return false;
        mpack_writer_init_stdfile(&w, f, how == 1);
        if (how == 2)
            own = f;
    }
    bool build = draw(2) && MPACK_BUILDER;
    build ? mpack_build_map(&w) : mpack_start_map(&w, 2);
    for (int i = 0; i < 2; ++i) {
        mpack_write_u8(&w, (uint8_t)i);
        mpack_start_array(&w, 3);
        mpack_write_u64(&w, SV.last[i]);
        yield_point();
        mpack_write_u64(&w, SV.sum[i]);
        mpack_write_str(&w, pad, (uint32_t)((SV.last[i] * 7) % sizeof(pad)));
        mpack_finish_array(&w);
        yield_point();
    }
    if (mpack_writer_error(&w) == mpack_ok)
        build ? mpack_complete_map(&w) : mpack_finish_map(&w);
    yield_point();
    mpack_error_t e = mpack_writer_destroy(&w);
    if (own) {
        if (sim_fclose(own) != 0 && e == mpack_ok) {
            HIT("probe:net-own-close-failed");
            e = mpack_error_io;
        }
    }
    ev("snapshot: %s", err_name(e));
    if (e != mpack_ok) {
        if (e == mpack_error_memory)
            CHECK(cur_alloc_failed() > 0, "net.spurious", "snapshot failed with memory although no allocation failed");
        else {
            CHECK(e == mpack_error_io, "net.wrong-error", "snapshot failed with %s", err_name(e));
            CHECK(g_fs.write_err_fired || g_fs.close_fail_fired || g_fs.open_fail_fired, "net.spurious", "snapshot failed with io although the disk works");
        }
        return false;
    }
    SimFile* t = fs_file("db.tmp", false);
    CHECK(t && t->data == F.intended, "file.corrupt", "the writer reported success but the file is not what was written (%lu of %lu bytes)", (unsigned long)(t ? t->data.size() : 0), (unsigned long)F.intended.size());
    fs_file("db", true)->data = t->data; // rename
    t->data.clear();
    F.writing = false;
    return true;
}

// Loads a snapshot. -1: failed, 0: no usable content, 1: loaded
static int load(const char* path, uint64_t last[2], uint64_t sum[2], mpack_error_t* err) {
    bool good = false;
    if (draw(2)) {
        mpack_tree_t t;
        mpack_tree_init_filename(&t, path, 0);
        mpack_tree_parse(&t);
        mpack_node_t root = mpack_tree_root(&t);
        if (mpack_tree_error(&t) == mpack_ok) {
            for (int i = 0; i < 2; ++i) {
                mpack_node_t e = mpack_node_map_uint(root, (uint64_t)i);
                last[i] = mpack_node_u64(mpack_node_array_at(e, 0));
                sum[i] = mpack_node_u64(mpack_node_array_at(e, 1));
                yield_point();
            }
            good = mpack_tree_error(&t) == mpack_ok;
        }
        *err = mpack_tree_destroy(&t);
    } else {
        mpack_reader_t r;
        mpack_reader_init_filename(&r, path);
        mpack_expect_map_match(&r, 2);
        for (int i = 0; i < 2 && mpack_reader_error(&r) == mpack_ok; ++i) {
            uint32_t k = mpack_expect_uint_range(&r, 0, 1);
            mpack_expect_array_match(&r, 3);
            uint64_t a = mpack_expect_u64(&r), b = mpack_expect_u64(&r);
            yield_point();
            mpack_discard(&r);
            mpack_done_array(&r);
            last[k & 1] = a;
            sum[k & 1] = b;
        }
        mpack_done_map(&r);
        good = mpack_reader_error(&r) == mpack_ok;
        *err = mpack_reader_destroy(&r);
    }
    ev("load %s: %s", path, err_name(*err));
    if (good && *err == mpack_error_io && g_fs.close_fail_fired)
        good = false; // only closing failed
    CHECK(good == (*err == mpack_ok), "err.destroy-result", "loading %s: the error state and the result of destroy differ", path);
    return good ? 1 : 0;
}

static bool accept_ready(void*) { return F.stop || F.accept_pos < F.accept.size(); }
static void server_exit() {
    ev("server exits");
    F.server_up = false;
    F.restart_at = SC.now + 1 + draw(20);
    timer_at(F.restart_at);
}
static void serve(Link* l, Conn* c) {
    uint32_t seq = 0;
    for (;;) {
        if (!conn_recv(c, &seq, false)) {
            explain(c, l, c->rerr, "receiving a request");
            break;
        }
        uint32_t k = seq >> 16, i = seq & 0xffff;
        CHECK(k < F.clients.size() && i >= 1 && i <= F.clients[k]->n, "net.corrupt", "%s: received request #%u, which was never sent", c->name, seq);
        expect_same(c->name, seq, c->cur, F.clients[k]->msgs[i - 1]);
        if (i == SV.last[k] + 1) {
            SV.last[k] = i;
            SV.sum[k] = fold(SV.sum[k], val_hash(c->cur));
            F.applied++;
            if (!save()) {
                SV.last[k]--;
                c->out->wclosed = true;
                l->server_closed = true;
                break;
            }
        } else {
            CHECK(i <= SV.last[k], "net.order", "server: request #%u arrived before #%lu", i, (unsigned long)SV.last[k] + 1);
            HIT("probe:net-duplicate-request");
        }
        if (!conn_send(c, seq, c->cur, true)) {
            explain(c, l, c->werr, "sending a response");
            break;
        }
    }
    close_receiver(c);
    conn_send_close(c);
    c->in->rclosed = true;
    l->server_closed = true;
}
static void server_main() {
    memset(SV.last, 0, sizeof(SV.last));
    memset(SV.sum, 0, sizeof(SV.sum));
    mpack_error_t err = mpack_ok;
    SimFile* tmp = fs_file("db.tmp", false);
    if (tmp && F.writing) {
        // an unfinished snapshot: must not load, unless it is complete
        uint64_t a[2], b[2];
        size_t n = tmp->data.size();
        if (load("db.tmp", a, b, &err) == 1)
            CHECK(n == F.intended.size(), "file.truncated", "a snapshot torn after %lu of %lu bytes was loaded without error", (unsigned long)n, (unsigned long)F.intended.size());
        else {
            HIT("probe:net-torn-snapshot-refused");
            if (n == F.intended.size())
                CHECK((err == mpack_error_memory && cur_alloc_failed() > 0) || (err == mpack_error_io && g_fs.close_fail_fired), "net.spurious", "a complete snapshot was refused with %s", err_name(err));
        }
    }
    if (fs_file("db", false)) {
        uint64_t dl[2], ds[2];
        disk_state("db", dl, ds);
        if (load("db", SV.last, SV.sum, &err) != 1) {
            CHECK((err == mpack_error_memory && cur_alloc_failed() > 0) || (err == mpack_error_io && g_fs.close_fail_fired), "net.spurious", "loading the durable file failed with %s", err_name(err));
            server_exit();
            return;
        }
        for (int i = 0; i < 2; ++i)
            CHECK(SV.last[i] == dl[i] && SV.sum[i] == ds[i], "file.corrupt", "the durable file was loaded with other contents than it has");
    }
    for (;;) {
        block_until(accept_ready, NULL);
        if (F.accept_pos >= F.accept.size())
            break;
        Link* l = F.accept[F.accept_pos++];
        if (l->broken)
            continue;
        Conn* c = conn_new(nm("server.%u", F.incarnation), l->up, l->down);
        serve(l, c);
        if (c->rerr == mpack_ok && c->werr == mpack_ok) { // the snapshot failed
            server_exit();
            return;
        }
        if (c->werr == mpack_error_memory || c->rerr == mpack_error_memory)
            HIT("probe:net-server-oom");
    }
    F.server_up = false;
}
static void server_start() {
    F.server = proc_new("server");
    F.server_up = true;
    F.incarnation++;
    ev("server starts (#%u)", F.incarnation);
    task_new(F.server, "main", server_main);
}

// ------------------------------------------------------------ clients
static void client_main(uint32_t id) {
    ClientState* s = F.clients[id];
    while (s->next <= s->n) {
        Link* l = new Link();
        memset(l, 0, sizeof(*l));
        F.links.push_back(l);
        l->up = pipe_new(nm("c%u.%u->s", id, s->conns));
        l->down = pipe_new(nm("s->c%u.%u", id, s->conns));
        s->conns++;
        l->up->link_broken = l->down->link_broken = &l->broken;
        if (F.budget && draw(3) == 2) {
            F.budget--;
            (draw(2) ? l->up : l->down)->cut_at = 1 + draw(400);
        }
        F.accept.push_back(l);
        Conn* c = conn_new(nm("client%u.%u", id, s->conns), l->down, l->up);
        ev("client%u connects (%s/%s)", id, smode_name[c->smode], rmode_name[c->rmode]);
        while (s->next <= s->n) {
            uint32_t seq = id << 16 | s->next, got = 0;
            if (!conn_send(c, seq, s->msgs[s->next - 1], true)) {
                explain(c, l, c->werr, "sending a request");
                break;
            }
            if (!conn_recv(c, &got, false)) {
                explain(c, l, c->rerr, "receiving a response");
                break;
            }
            CHECK(got == seq, "net.order", "%s: response #%u arrived where #%u was expected", c->name, got, seq);
            expect_same(c->name, seq, c->cur, s->msgs[s->next - 1]);
            uint64_t last[2], sum[2];
            disk_state("db", last, sum);
            CHECK(last[id] >= s->next, "file.lost", "request #%u was acknowledged but is not in the durable file", s->next);
            s->next++;
            F.acks++;
        }
        close_receiver(c);
        conn_send_close(c);
        c->in->rclosed = true;
        l->client_closed = true;
        if (s->next <= s->n)
            sleep_for(1 + draw(30));
    }
    s->running = false;
}
static void client_start(uint32_t id) {
    ClientState* s = F.clients[id];
    s->proc = proc_new(nm("client%u", id));
    s->running = true;
    task_new(s->proc, "main", [=] { client_main(id); });
}

// ------------------------------------------------------------ nemesis
static void break_links_of(Proc* p) {
    bool server = p == F.server;
    for (Link* l : F.links) {
        // every connection has the server at one end; a client owns those with its number
        if (link_dead(l))
            continue;
        bool mine = server;
        if (!server)
            for (uint32_t id = 0; id < F.clients.size(); ++id)
                if (F.clients[id]->proc == p && l->up->name[1] == (char)('0' + id))
                    mine = true;
        if (mine) {
            pipe_break(*l->up);
            pipe_break(*l->down);
        }
    }
}
static void end_window() {
    if (F.alloc_victim) {
        F.alloc_victim->alloc_rate = 0;
        F.alloc_victim = NULL;
    }
    if (F.disk_bad) {
        F.disk_bad = false;
        g_fs.write_err_at = -1;
        g_fs.close_fail = false;
        ev("disk works again");
    }
    F.window_end = 0;
}
static void nemesis() {
    if (F.window_end && SC.steps >= F.window_end)
        end_window();
    if (!F.server_up && !F.stop && SC.now >= F.restart_at)
        server_start();
    bool all = true;
    for (ClientState* x : F.clients)
        all = all && x->next > x->n;
    if (all)
        F.stop = true;
    for (uint32_t id = 0; id < F.clients.size(); ++id) {
        ClientState* s = F.clients[id];
        if (!s->running && s->next <= s->n && SC.now >= s->restart_at)
            client_start(id);
    }
    if (!F.budget) {
        if (!F.stop_faults && !F.window_end) {
            F.stop_faults = true;
            SC.limit = SC.steps + 150000;
        }
        return;
    }
    if (!coin(1, F.rate))
        return;
    F.budget--;
    switch (draw(7)) {
        case 0:
        case 1:
            if (F.server_up) {
                FAULT("server-crash");
                ev("server crashes");
                F.crashed = true;
                break_links_of(F.server);
                proc_kill(F.server);
                F.server_up = false;
                F.restart_at = SC.now + 1 + draw(40);
                timer_at(F.restart_at);
                SimFile* t = fs_file("db.tmp", false);
                if (t && F.writing && t->data.size() && coin(1, 2)) {
                    t->data.resize(draw((uint32_t)t->data.size() + 1));
                    FAULT("lost-writes");
                    ev("db.tmp torn to %lu bytes", (unsigned long)t->data.size());
                }
            }
            break;
        case 2: {
            ClientState* s = F.clients[draw((uint32_t)F.clients.size())];
            if (s->running) {
                FAULT("client-crash");
                ev("%s crashes", s->proc->name);
                F.crashed = true;
                break_links_of(s->proc);
                proc_kill(s->proc);
                s->running = false;
                s->restart_at = SC.now + 1 + draw(40);
                timer_at(s->restart_at);
            }
            break;
        }
        case 3: {
            if (F.links.empty())
                break;
            Link* l = F.links.back();
            if (!link_dead(l)) {
                FAULT("connection-reset");
                ev("connection reset");
                pipe_break(*l->up);
                pipe_break(*l->down);
            }
            break;
        }
        case 4:
            if (!F.window_end) {
                Proc* p = draw(2) && F.server_up ? F.server : F.clients[0]->proc;
                p->alloc_rate = 1 + draw(24);
                F.alloc_victim = p;
                F.window_end = SC.steps + 1 + draw(60);
                ev("%s is short of memory", p->name);
            }
            break;
        case 5:
            if (!F.window_end) {
                if (draw(3) == 2)
                    g_fs.close_fail = true;
                else {
                    g_fs.write_err_at = (long)draw(60);
                    g_fs.write_err_nospc = draw(2);
                }
                F.disk_bad = true;
                F.window_end = SC.steps + 1 + draw(500);
                FAULT("disk-window");
                ev("disk fails");
            }
            break;
        default: {
            Task* t = SC.tasks[draw((uint32_t)SC.tasks.size())];
            if (t->st < TS_DONE) {
                FAULT("stall");
                t->wake = SC.now + 1 + draw(200);
                ev("%s/%s stalls", t->proc->name, t->name);
            }
        }
    }
}

static void setup_faulty() {
    for (Link* l : F.links)
        delete l;
    for (ClientState* s : F.clients)
        delete s;
    F = FaultyState();
    F.budget = draw(7);
    static const uint32_t rates[] = {6, 20, 60, 200};
    F.rate = rates[draw(4)];
    uint32_t nc = 1 + draw(2);
    for (uint32_t k = 0; k < nc; ++k) {
        ClientState* s = new ClientState();
        s->n = 1 + draw(5);
        s->next = 1;
        s->running = false;
        s->proc = NULL;
        s->restart_at = 0;
        s->conns = 0;
        s->msgs.resize(s->n);
        uint64_t sum = 0;
        for (Val& v : s->msgs) {
            gen_payload(v);
            sum = fold(sum, val_hash(v));
            s->hashes.push_back(sum);
        }
        F.clients.push_back(s);
    }
    server_start();
    for (uint32_t k = 0; k < nc; ++k)
        client_start(k);
    SC.on_step = nemesis;
    SC.pending = [] { return !F.stop; };
}
static void finish_faulty() {
    end_window();
    uint64_t last[2], sum[2];
    disk_state("db", last, sum);
    for (uint32_t k = 0; k < F.clients.size(); ++k) {
        ClientState* s = F.clients[k];
        CHECK(s->next == s->n + 1, "net.deadlock", "client%u ended early", k);
        CHECK(last[k] == s->n && sum[k] == s->hashes[s->n - 1], "file.lost", "the durable file does not hold every request exactly once, in order");
    }
    HIT_N("probe:net-acks", F.acks);
    if (F.crashed)
        HIT("probe:net-recovered-from-crash");
}
