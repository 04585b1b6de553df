// Simulated kernel: TCP sockets, epoll, eventfd, timerfd, name resolution. All faults of the network are decided here.
#include "core.h"
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <unistd.h>
#include <set>

namespace sim {

enum { FD_BASE = 200000, FD_MAX = 4096 };
enum Kind { K_SOCK, K_EPOLL, K_EVENT, K_TIMER };
struct Obj;
struct Item { Obj* ep; Obj* target; int fd; uint32_t events; uint64_t data; bool ready; bool disabled; };
struct Seg { int type; std::string data; };        // 0 data, 1 FIN, 2 RST
enum SockState { S_NEW, S_CONNECTING, S_ESTAB, S_LISTEN, S_DEAD };
struct Obj {
    Kind kind; int id; int node; int refs; bool nonblock; bool open; bool harness;
    std::vector<Item*> watchers;
    // epoll
    std::map<int, Item*> items; std::deque<Item*> rdy;
    // eventfd, timerfd
    uint64_t counter; ns_t t_next, t_int; uint32_t t_gen; bool sema;
    // socket
    SockState st; int lip, rip, lport, rport; int peer;   // addresses are node ids; peer: object id
    std::string rx; size_t rx_off; bool fin_in, fin_out, rd_shut; int so_error; bool rst; bool connect_failed;
    std::deque<Seg> out; int out_pending_events; ns_t last_arr; uint64_t inflight; uint32_t cap; bool nospace;
    ns_t lat; int backlog; std::deque<int> acceptq; bool linger0; uint32_t cid; int side; bool counted; bool orphan; bool bound;
    size_t rxn() const { return rx.size() - rx_off; }
};
static std::vector<Obj*>* g_fd;              // index fd-FD_BASE
static std::vector<Obj*>* g_obj;             // by id
static std::map<int, int>* g_eph;            // next ephemeral port per node
static std::map<std::string, int>* g_dns; static std::set<std::string>* g_dnsfail;
static std::set<std::pair<int, int> >* g_part;
struct Held { int a, b; std::function<void()>* fn; };
static std::vector<Held>* g_held;
static std::set<int>* g_down;                // crashed nodes
struct Cnt { int cur, max, total; std::vector<ns_t> ends; };
static std::map<std::pair<std::pair<int, int>, int>, Cnt>* g_cc;
static std::map<int, uint32_t>* g_sndbuf;
static std::map<int, uint64_t>* g_tx; static std::map<int, uint64_t>* g_rx; static std::map<int, ns_t>* g_rx_at;
static uint32_t g_cid;
static std::map<int, int>* g_peak;
static bool g_off; extern ns_t g_stalled;
struct Force { int node, err, count; };
static Force g_facc, g_fbind, g_flisten, g_fsock;
static int take(Force& f, int node) { if (f.count && f.node == node) { if (f.count > 0) f.count--; return f.err; } return 0; }

void kernel_reset() {
    g_fd = new std::vector<Obj*>(); g_obj = new std::vector<Obj*>(); g_eph = new std::map<int, int>();
    g_dns = new std::map<std::string, int>(); g_dnsfail = new std::set<std::string>();
    g_part = new std::set<std::pair<int, int> >(); g_held = new std::vector<Held>(); g_down = new std::set<int>();
    g_cc = new std::map<std::pair<std::pair<int, int>, int>, Cnt>(); g_sndbuf = new std::map<int, uint32_t>();
    g_tx = new std::map<int, uint64_t>(); g_rx = new std::map<int, uint64_t>(); g_rx_at = new std::map<int, ns_t>();
    g_peak = new std::map<int, int>(); g_cid = 0; g_off = false; memset(&g_facc, 0, sizeof g_facc); memset(&g_fbind, 0, sizeof g_fbind); memset(&g_flisten, 0, sizeof g_flisten); memset(&g_fsock, 0, sizeof g_fsock);
}
static Obj* O(int id) { return id >= 0 ? (*g_obj)[id] : NULL; }
static Obj* F(int fd) { int i = fd - FD_BASE; if (!g_run || i < 0 || i >= (int)g_fd->size()) return NULL; return (*g_fd)[i]; }
static Obj* mk(Kind k) {
    Obj* o = new Obj(); o->kind = k; o->id = g_obj->size(); o->node = g_cur->node; o->refs = 1; o->nonblock = false; o->open = true; o->harness = false;
    o->counter = 0; o->t_next = o->t_int = 0; o->t_gen = 0; o->sema = false;
    o->st = S_NEW; o->lip = o->rip = o->lport = o->rport = 0; o->peer = -1; o->rx_off = 0; o->fin_in = o->fin_out = o->rd_shut = o->rst = o->connect_failed = false; o->so_error = 0;
    o->out_pending_events = 0; o->last_arr = 0; o->inflight = 0; o->cap = 0; o->nospace = false; o->lat = 0; o->backlog = 0; o->linger0 = false; o->cid = 0; o->side = 0; o->counted = false; o->orphan = false; o->bound = false;
    g_obj->push_back(o); return o;
}
int open_fds(int node) { int n = 0; for (Obj* o : *g_fd) if (o && o->node == node && !o->harness) n++; return n; }
int peak_fds(int node) { return (*g_peak)[node]; }
static int newfd(Obj* o) {
    size_t i = 0; while (i < g_fd->size() && (*g_fd)[i]) i++;
    if (i < g_fd->size()) (*g_fd)[i] = o; else g_fd->push_back(o);
    int& p = (*g_peak)[o->node]; p = std::max(p, open_fds(o->node)); return FD_BASE + i;
}
static int err(int e) { errno = e; return -1; }

// ------------------------------------------------------------------ readiness
static uint32_t readiness(Obj* o) {
    uint32_t r = 0;
    switch (o->kind) {
    case K_EVENT: if (o->counter) r |= EPOLLIN; r |= EPOLLOUT; break;
    case K_TIMER: if (o->counter) r |= EPOLLIN; break;
    case K_SOCK:
        switch (o->st) {
        case S_NEW: r = EPOLLOUT | EPOLLHUP; break;
        case S_CONNECTING: break;
        case S_LISTEN: if (!o->acceptq.empty()) r |= EPOLLIN; break;
        case S_DEAD: r = EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLERR; break;
        case S_ESTAB:
            if (o->rxn() || o->fin_in || o->rst || o->rd_shut) r |= EPOLLIN;
            if (o->fin_in || o->rst) r |= EPOLLRDHUP;
            if (o->rst || o->fin_out) r |= EPOLLOUT;
            else if (o->inflight * 4 <= (uint64_t)o->cap * 3 || o->inflight == 0) { r |= EPOLLOUT; }
            if (o->so_error) r |= EPOLLERR;
            if (o->rst || (o->fin_in && o->fin_out)) r |= EPOLLHUP;
        }
        break;
    case K_EPOLL: for (Item* i : o->rdy) if (readiness(i->target) & (i->events | EPOLLERR | EPOLLHUP)) { r |= EPOLLIN; break; }
    }
    return r;
}
// a state change happened on o that concerns <mask>
static void notify(Obj* o, uint32_t mask) {
    for (Item* i : o->watchers) {
        if (i->disabled || !((i->events | EPOLLERR | EPOLLHUP) & mask)) continue;
        if (!i->ready) { i->ready = true; i->ep->rdy.push_back(i); }
        wake(i->ep, 1);
    }
    wake(o, -1);
}

// ------------------------------------------------------------------ links
static std::pair<int, int> pr(int a, int b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); }
static bool parted(int a, int b) { return g_part->count(pr(a, b)) != 0; }
static void over_link(int a, int b, ns_t t, std::function<void()> fn) {
    at(t, [a, b, fn] {
        if (parted(a, b)) { Held h = { a, b, new std::function<void()>(fn) }; g_held->push_back(h); return; }
        fn();
    });
}
void partition(int a, int b, bool on) {
    Core k; trace("partition %d-%d %s", a, b, on ? "on" : "off");
    if (on) { g_part->insert(pr(a, b)); count_fault(F_PARTITION); return; }
    g_part->erase(pr(a, b));
    std::vector<Held> h; h.swap(*g_held);
    ns_t d = 1 * MS;
    for (Held& x : h) { if (pr(x.a, x.b) == pr(a, b)) { auto f = *x.fn; delete x.fn; over_link(x.a, x.b, now() + d, f); } else g_held->push_back(x); }
}
static uint32_t dirid(Obj* o) { return o->cid * 2 + o->side; }
static void count_conn(Obj* o, bool up) {
    if (o->side != 0 || o->counted == up) return;
    o->counted = up; Cnt& c = (*g_cc)[std::make_pair(std::make_pair(o->node, o->rip), o->rport)];
    if (up) { c.cur++; c.total++; if (c.cur > c.max) c.max = c.cur; } else { c.cur--; c.ends.push_back(now()); }
}
static void got_rst(Obj* o, int e) {
    if (o->st != S_ESTAB || o->rst) return;
    o->rst = true; o->so_error = e; o->out.clear(); o->inflight = 0;
    count_conn(o, false);
    ev(20, dirid(o)); trace("conn %u/%d reset by peer", o->cid, o->side);
    notify(o, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP);
}
// the peer's kernel no longer knows the connection: answer with RST
static void bounce(Obj* from) { int id = from->id; over_link(from->rip, from->lip, now() + from->lat, [id] { got_rst(O(id), ECONNRESET); }); }

static void arrive(int from_id) {
    Obj* s = O(from_id);
    if (g_down->count(s->rip)) { over_link(s->lip, s->rip, now() + 1 * SEC, [from_id] { arrive(from_id); }); return; }   // silent node: retransmit
    if (s->out_pending_events > 0) s->out_pending_events--;
    if (s->out.empty()) return;
    Seg g; g.type = s->out.front().type; g.data.swap(s->out.front().data); s->out.pop_front();
    Obj* d = O(s->peer);
    if (!d || d->orphan || !d->open || d->st != S_ESTAB) {
        if (g.type == 0 && !s->rst) { if (!s->orphan) bounce(s); }
        s->inflight -= g.type == 0 ? g.data.size() : 0;
        return;
    }
    if (d->rst) { return; }
    if (g.type == 2) { got_rst(d, ECONNRESET); return; }
    if (g.type == 1) { d->fin_in = true; ev(21, dirid(s)); trace("conn %u/%d FIN arrives", d->cid, d->side); if (d->side == 0) count_conn(d, false); notify(d, EPOLLIN | EPOLLRDHUP | (d->fin_out ? EPOLLHUP : 0)); return; }
    if (d->rd_shut) { s->inflight -= g.data.size(); bounce(s); return; }   // data after the receiver gave up reading
    if (d->rx_off > 65536) { d->rx.erase(0, d->rx_off); d->rx_off = 0; }
    d->rx += g.data; ev(22, dirid(s), g.data.size());
    notify(d, EPOLLIN);
}
static void push_seg(Obj* s, int type, const std::string& data) {
    Seg g; g.type = type; g.data = data; s->out.push_back(g);
    ns_t t = now() + s->lat;
    if (net.lat_max > net.lat_min) t += (ns_t)choice(ST_NET, dirid(s), 64) * (net.lat_max - net.lat_min) / 64;
    if (!g_off && net.stall && chance(ST_NET, dirid(s), net.stall, 1000)) { ns_t d = choice_log(ST_NET, dirid(s), MS, net.stall_max); t += d; g_stalled += d; count_fault(F_STALL); trace("conn %u/%d stalls %.3f ms", s->cid, s->side, d / 1e6); }
    if (t < s->last_arr) t = s->last_arr;
    s->last_arr = t; s->out_pending_events++;
    int id = s->id;
    over_link(s->lip, s->rip, t, [id] { arrive(id); });
}
static void send_bytes(Obj* s, const char* p, size_t n) {
    s->inflight += n; (*g_tx)[s->node] += n;
    while (n) {
        size_t k = n;
        if (!g_off && net.segment && n > 1 && chance(ST_NET, dirid(s), net.segment, 1000)) {
            k = choice(ST_NET, dirid(s), 4) ? 1 + choice_log(ST_NET, dirid(s), 0, n - 2) : n - 1 - choice_log(ST_NET, dirid(s), 0, std::min<uint64_t>(n - 2, 30)); count_fault(F_SEGMENT);
        }
        push_seg(s, 0, std::string(p, k)); p += k; n -= k;
    }
}
static void do_rst(Obj* s) {    // reset both directions now
    if (s->st != S_ESTAB) return;
    int id = s->id, pid = s->peer;
    got_rst(s, ECONNRESET);
    if (pid >= 0) over_link(s->lip, s->rip, now() + s->lat, [pid] { got_rst(O(pid), ECONNRESET); });
    (void)id;
}
static void freed_space(Obj* d, size_t n) {      // receiver consumed n bytes: window opens at the sender after a while
    Obj* s = O(d->peer); if (!s) return;
    int id = s->id;
    over_link(d->lip, d->rip, now() + d->lat / 2, [id, n] {
        Obj* s = O(id); if (s->rst) return;
        s->inflight -= n < s->inflight ? n : s->inflight;
        if (s->nospace && (readiness(s) & EPOLLOUT)) { s->nospace = false; notify(s, EPOLLOUT); }
        else wake(s, -1);
    });
}
static void send_fin(Obj* s) { if (s->fin_out || s->rst || s->st != S_ESTAB) return; s->fin_out = true; push_seg(s, 1, ""); }

static int ip_to_node(uint32_t be) {
    uint32_t h = ntohl(be);
    if (h == 0) return 0;
    if ((h >> 24) == 127) return g_cur->node;
    if ((h >> 8) == 0x0a0000) return h & 255;
    return 255;                                   // no such host
}
static uint32_t node_to_ip(int n) { return n ? htonl(0x0a000000u | n) : 0; }
static Obj* find_listener(int node, int port) { for (Obj* o : *g_fd) if (o && o->kind == K_SOCK && o->st == S_LISTEN && o->node == node && o->lport == port) return o; return NULL; }
bool listening(int node, int port) { Core k; return find_listener(node, port) != NULL; }
static void conn_fail(int id, int e) {
    Obj* c = O(id); if (c->st != S_CONNECTING || !c->open) return;
    c->st = S_DEAD; c->so_error = e; c->connect_failed = true; if (c->side == 0) (*g_cc)[std::make_pair(std::make_pair(c->node, c->rip), c->rport)].ends.push_back(now()); ev(23, id, e); trace("connect %d -> %d:%d fails (%s)", c->lip, c->rip, c->rport, strerror(e));
    notify(c, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP);
}
static void syn(int id) {
    Obj* c = O(id);
    if (c->st != S_CONNECTING || !c->open) return;
    if (c->rip == 255) return;       // nobody answers; the connect timer of the kernel ends it
    if (g_down->count(c->rip)) { over_link(c->lip, c->rip, now() + 1 * SEC, [id] { syn(id); }); return; }   // retransmission
    if (!g_off && net.blackhole && chance(ST_FAULT, 910, net.blackhole, 1000)) { count_fault(F_CONN_BLACKHOLE); trace("SYN lost"); 
        over_link(c->lip, c->rip, now() + 1 * SEC, [id] { syn(id); }); return; }   // retransmitted by the kernel
    Obj* l = find_listener(c->rip, c->rport);
    bool refuse = !l;
    if (l && !g_off && net.refuse && chance(ST_FAULT, 911, net.refuse, 1000)) { refuse = true; count_fault(F_CONN_REFUSED); }
    if (refuse) { over_link(c->rip, c->lip, now() + c->lat, [id] { conn_fail(id, ECONNREFUSED); }); return; }
    if ((int)l->acceptq.size() > l->backlog) { over_link(c->lip, c->rip, now() + 1 * SEC, [id] { syn(id); }); return; }
    Obj* a = mk(K_SOCK); a->node = l->node; a->harness = l->harness; a->st = S_ESTAB; a->lip = c->rip; a->lport = c->rport; a->rip = c->lip; a->rport = c->lport;
    a->peer = c->id; c->peer = a->id; a->cid = c->cid; a->side = 1; a->lat = c->lat; a->cap = c->cap; a->refs = 0;
    l->acceptq.push_back(a->id); ev(24, c->cid);
    int aid = a->id;
    over_link(c->rip, c->lip, now() + c->lat, [id, aid] {
        Obj* c = O(id); if (c->st != S_CONNECTING || !c->open) { Obj* a = O(aid); got_rst(a, ECONNRESET); return; }
        c->st = S_ESTAB; count_conn(c, true); trace("conn %u established %d:%d -> %d:%d", c->cid, c->lip, c->lport, c->rip, c->rport); notify(c, EPOLLOUT);
    });
    notify(l, EPOLLIN);
}
static int do_connect(Obj* o, int node, int port) {
    if (o->st == S_CONNECTING) return EALREADY;
    if (o->st == S_ESTAB) return EISCONN;
    if (o->st != S_NEW) return ECONNABORTED;
    if (!o->lip) o->lip = g_cur->node;
    if (!o->lport) { int& e = (*g_eph)[o->node]; if (!e) e = 30000; o->lport = e++; }
    o->rip = node; o->rport = port; o->st = S_CONNECTING; o->cid = ++g_cid; o->side = 0;
    o->lat = net.lat_min; if (net.lat_max > net.lat_min) o->lat += (ns_t)choice(ST_NET, o->cid * 2, 64) * (net.lat_max - net.lat_min) / 64;
    uint32_t cap = net.sndbuf_min; if (net.sndbuf_max > net.sndbuf_min) cap = choice_log(ST_NET, o->cid * 2, net.sndbuf_min, net.sndbuf_max);
    auto i = g_sndbuf->find(o->node); if (i != g_sndbuf->end() && i->second) cap = i->second;
    i = g_sndbuf->find(node); if (i != g_sndbuf->end() && i->second) cap = i->second;
    o->cap = cap;
    ev(25, o->cid, node);
    trace("connect %d:%d -> %d:%d (conn %u)", o->lip, o->lport, node, port, o->cid);
    int id = o->id;
    over_link(o->lip, node, now() + o->lat, [id] { syn(id); });
    at(now() + 127 * SEC, [id] { conn_fail(id, ETIMEDOUT); });
    return EINPROGRESS;
}
// returns bytes or -errno
static ssize_t do_recv(Obj* o, const struct iovec* v, int n, int flags) {
    if (o->st == S_NEW || o->st == S_LISTEN) return -ENOTCONN;
    if (o->st == S_CONNECTING) return -EAGAIN;
    if (o->st == S_DEAD) { int e = o->so_error; o->so_error = 0; return e ? -e : 0; }
    if (o->rd_shut) return 0;
    if (!(flags & MSG_PEEK)) (*g_rx_at)[o->node] = now();
    size_t want = 0; for (int i = 0; i < n; i++) want += v[i].iov_len;
    if (o->rxn()) {
        size_t k = want < o->rxn() ? want : o->rxn();
        if (!o->harness && !g_off && k > 1 && net.short_read && chance(ST_NET, dirid(o), net.short_read, 1000)) { k = choice(ST_NET, dirid(o), 4) ? 1 + choice_log(ST_NET, dirid(o), 0, k - 2) : k - 1 - choice_log(ST_NET, dirid(o), 0, std::min<uint64_t>(k - 2, 30)); count_fault(F_SHORT_READ); }
        size_t left = k; const char* p = o->rx.data() + o->rx_off;
        for (int i = 0; i < n && left; i++) { size_t c = v[i].iov_len < left ? v[i].iov_len : left; check_mem(v[i].iov_base, c, true, "recv"); memcpy(v[i].iov_base, p, c); p += c; left -= c; }
        if (!(flags & MSG_PEEK)) { o->rx_off += k; if (o->rx_off == o->rx.size()) { o->rx.clear(); o->rx_off = 0; } freed_space(o, k); (*g_rx)[o->node] += k; }
        ev(26, dirid(o), k); trace("conn %u/%d recv %zu", o->cid, o->side, k);
        return k;
    }
    if (want == 0) return 0;
    if (o->rst) { int e = o->so_error; o->so_error = 0; return e ? -e : 0; }
    if (o->fin_in) return 0;
    return -EAGAIN;
}
// the send buffer counts as full until a later moment, when an edge is signalled (Linux never returns a short write otherwise)
static void space_later(Obj* o) {
    o->nospace = true; int id = o->id;
    at(now() + 20 * US + (ns_t)choice(ST_NET, dirid(o), 32) * 20 * US, [id] { Obj* o = O(id); if (o->nospace && o->st == S_ESTAB && (readiness(o) & EPOLLOUT)) { o->nospace = false; notify(o, EPOLLOUT); } });
}
static ssize_t do_send(Obj* o, const struct iovec* v, int n) {
    if (o->st == S_NEW || o->st == S_LISTEN || o->st == S_CONNECTING) return -ENOTCONN;
    if (o->st == S_DEAD) { int e = o->so_error; o->so_error = 0; return e ? -e : -EPIPE; }
    if (o->rst) { int e = o->so_error; o->so_error = 0; return e ? -e : -EPIPE; }
    if (o->fin_out) return -EPIPE;
    size_t want = 0; for (int i = 0; i < n; i++) want += v[i].iov_len;
    size_t space = o->inflight < o->cap ? o->cap - o->inflight : 0;
    if (!(readiness(o) & EPOLLOUT)) space = 0;
    if (space == 0) { o->nospace = true; trace("conn %u/%d send: EAGAIN, %lu in flight of %u", o->cid, o->side, (unsigned long)o->inflight, o->cap); return -EAGAIN; }
    if (!o->harness && !g_off && net.eagain && chance(ST_NET, dirid(o), net.eagain, 1000)) {
        count_fault(F_EAGAIN); space_later(o); return -EAGAIN; }
    size_t k = want < space ? want : space;
    if (k < want) { count_fault(F_SMALL_SNDBUF); o->nospace = true; }
    if (!o->harness && !g_off && k > 1 && net.short_write && chance(ST_NET, dirid(o), net.short_write, 1000)) { k = choice(ST_NET, dirid(o), 4) ? 1 + choice_log(ST_NET, dirid(o), 0, k - 2) : k - 1 - choice_log(ST_NET, dirid(o), 0, std::min<uint64_t>(k - 2, 30)); count_fault(F_SHORT_WRITE); space_later(o); }
    bool rst = !o->harness && !g_off && net.rst && chance(ST_FAULT, 912, net.rst, 1000);
    std::string b; size_t left = k;
    for (int i = 0; i < n && left; i++) { size_t c = v[i].iov_len < left ? v[i].iov_len : left; check_mem(v[i].iov_base, c, false, "send"); b.append((const char*)v[i].iov_base, c); left -= c; }
    ev(27, dirid(o), k); trace("conn %u/%d send %zu of %zu", o->cid, o->side, k, want);
    if (rst) {   // part of the data gets through, then the connection is reset in both directions
        size_t part = choice(ST_FAULT, 913, k + 1); count_fault(F_RST);
        if (part) send_bytes(o, b.data(), part);
        o->inflight += k - part;
        push_seg(o, 2, "");
        int id = o->id; at(o->last_arr + (ns_t)choice(ST_FAULT, 913, 64) * 20 * US, [id] { got_rst(O(id), ECONNRESET); });
        trace("conn %u/%d: reset injected after %zu of %zu bytes", o->cid, o->side, part, k);
    } else send_bytes(o, b.data(), k);
    return k;
}
static void drop_watch(Obj* o) {
    for (Item* i : o->watchers) { Obj* ep = i->ep; ep->items.erase(i->fd); for (auto r = ep->rdy.begin(); r != ep->rdy.end();) if (*r == i) r = ep->rdy.erase(r); else ++r; delete i; }
    o->watchers.clear();
}
static void close_obj(Obj* o) {
    if (--o->refs > 0) return;
    o->open = false;
    drop_watch(o);
    if (o->kind == K_EPOLL) { for (auto& p : o->items) { auto& w = p.second->target->watchers; for (auto i = w.begin(); i != w.end(); ++i) if (*i == p.second) { w.erase(i); break; } delete p.second; } o->items.clear(); o->rdy.clear(); }
    if (o->kind == K_TIMER) o->t_gen++;
    if (o->kind == K_SOCK) {
        ev(28, o->id);
        if (o->st == S_ESTAB) {
            count_conn(o, false);
            bool hard = o->rxn() > 0 || o->linger0;
            trace("conn %u/%d closed%s", o->cid, o->side, hard ? " with RST" : "");
            if (!o->rst) {
                if (hard) { o->out.clear(); o->orphan = true; int pid = o->peer; if (pid >= 0) over_link(o->lip, o->rip, now() + o->lat, [pid] { got_rst(O(pid), ECONNRESET); }); }
                else send_fin(o);
            }
            o->orphan = true; o->rx.clear(); o->rx_off = 0;
        } else if (o->st == S_LISTEN) {
            trace("listener %d:%d closed", o->node, o->lport);
            for (int id : o->acceptq) { Obj* a = O(id); a->open = false; a->orphan = true; Obj* c = O(a->peer); int cid = c ? c->id : -1; if (cid >= 0) over_link(a->lip, a->rip, now() + a->lat, [cid] { Obj* c = O(cid); if (c->st == S_CONNECTING) conn_fail(cid, ECONNREFUSED); else got_rst(c, ECONNRESET); }); }
            o->acceptq.clear();
        }
        if (o->st != S_ESTAB) o->st = S_DEAD;
    }
    wake(o, -1);
}
void kernel_node_crash(int node, bool silent) {
    for (size_t i = 0; i < g_fd->size(); i++) {
        Obj* o = (*g_fd)[i]; if (!o || o->node != node || o->harness) continue;
        (*g_fd)[i] = NULL;
        if (silent && o->kind == K_SOCK) {
            for (int id : o->acceptq) { O(id)->open = false; O(id)->orphan = true; }
            o->acceptq.clear(); o->out.clear(); drop_watch(o); count_conn(o, false); o->open = false; o->orphan = true; if (o->st != S_ESTAB) o->st = S_DEAD;
            o->rst = true;
        } else { o->linger0 = true; o->refs = 1; close_obj(o); }
    }
}
void node_crash(int node, bool silent) {
    Core k; count_fault(F_NODE_CRASH); trace("node %d crashes%s", node, silent ? " (silently)" : ""); ev(30, node, silent);
    freeze_node(node); kernel_node_crash(node, silent);
    if (silent) g_down->insert(node);
}
void node_up(int node) {
    Core k; g_down->erase(node);
    // what the crashed node had not read is retransmitted (or its window probed) by the senders; the restarted node answers with RST
    for (Obj* s : *g_fd) if (s && s->kind == K_SOCK && s->st == S_ESTAB && s->rip == node && s->inflight && !s->rst && s->peer >= 0 && O(s->peer)->orphan) { int id = s->id; over_link(s->lip, s->rip, now() + 200 * MS, [id] { Obj* s = O(id); if (s->open && !s->rst) bounce(s); }); }
    trace("node %d up", node); }
void reset_conns(int a, int b) {
    Core k;
    std::vector<int> ids; for (Obj* o : *g_fd) if (o && o->kind == K_SOCK && o->st == S_ESTAB && o->side == 0 && (a < 0 || o->lip == a) && (b < 0 || o->rip == b)) ids.push_back(o->id);
    for (int id : ids) { count_fault(F_LINK_RESET); do_rst(O(id)); }
}
void kernel_faults_on() { g_off = false; }
void kernel_faults_off() {
    g_off = true; g_facc.count = g_fbind.count = g_flisten.count = g_fsock.count = 0;
    while (!g_part->empty()) { auto p = *g_part->begin(); partition(p.first, p.second, false); }
    while (!g_down->empty()) node_up(*g_down->begin());
    g_dnsfail->clear();
    NetCfg n; memset(&n, 0, sizeof n); n.lat_min = net.lat_min < 2 * MS ? net.lat_min : 2 * MS; n.lat_max = net.lat_max < 2 * MS ? net.lat_max : 2 * MS; if (n.lat_max < n.lat_min) n.lat_max = n.lat_min;
    n.sndbuf_min = net.sndbuf_min; n.sndbuf_max = net.sndbuf_max; n.stall_max = net.stall_max; net = n;
}
void force_accept_fail(int n, int e, int c) { g_facc.node = n; g_facc.err = e; g_facc.count = c; if (c == 0) { Core k; for (Obj* o : *g_fd) if (o && o->kind == K_SOCK && o->st == S_LISTEN && o->node == n && !o->acceptq.empty()) {} } }
void force_bind_fail(int n, int e, int c) { g_fbind.node = n; g_fbind.err = e; g_fbind.count = c; }
void force_listen_fail(int n, int e, int c) { g_flisten.node = n; g_flisten.err = e; g_flisten.count = c; }
void force_socket_fail(int n, int e, int c) { g_fsock.node = n; g_fsock.err = e; g_fsock.count = c; }
void dns_add(const std::string& name, int node) { Core k; (*g_dns)[name.c_str()] = node; }
void dns_fail(const std::string& name, bool on) { Core k; if (on) { g_dnsfail->insert(name.c_str()); count_fault(F_DNS_FAIL); } else g_dnsfail->erase(name.c_str()); }
void set_sndbuf(int node, uint32_t b) { Core k; (*g_sndbuf)[node] = b; }
static Cnt cc(int a, int b, int p) { Cnt z = { 0, 0, 0, std::vector<ns_t>() }; auto i = g_cc->find(std::make_pair(std::make_pair(a, b), p)); return i == g_cc->end() ? z : i->second; }
int client_conns(int a, int b, int p) { Core k; return cc(a, b, p).cur; }
int max_client_conns(int a, int b, int p) { Core k; return cc(a, b, p).max; }
int total_connects(int a, int b, int p) { Core k; return cc(a, b, p).total; }
int conn_ends(int a, int b, int p, ns_t* t, int most) { Core k; Cnt c = cc(a, b, p); int n = std::min<int>(most, c.ends.size()); for (int i = 0; i < n; i++) t[i] = c.ends[i]; return n; }
int established(int a, int b, int p) {
    Core k; int n = 0; for (Obj* o : *g_fd) if (o && o->kind == K_SOCK && o->st == S_ESTAB && o->side == 1 && o->node == b && o->lport == p && (a < 0 || o->rip == a) && !o->rst) n++; return n;
}
uint64_t bytes_tx(int n) { Core k; return (*g_tx)[n]; }
uint64_t bytes_rx(int n) { Core k; return (*g_rx)[n]; }
ns_t last_rx(int n) { Core k; return (*g_rx_at)[n]; }

// ------------------------------------------------------------------ raw peers
int raw_connect(int node, int port, ns_t timeout) {
    Core k; Obj* o = mk(K_SOCK); o->harness = true; int fd = newfd(o);
    do_connect(o, node, port);
    ns_t end = now() + timeout;
    while (o->st == S_CONNECTING && now() < end) block_on(o, end);
    if (o->st != S_ESTAB) { (*g_fd)[fd - FD_BASE] = NULL; close_obj(o); return -1; }
    return fd;
}
int raw_listen(int port) { Core k; Obj* o = mk(K_SOCK); o->harness = true; o->lport = port; o->lip = g_cur->node; o->st = S_LISTEN; o->backlog = 128; return newfd(o); }
int raw_accept(int lfd, ns_t timeout) {
    Core k; Obj* l = F(lfd); if (!l) return -1;
    ns_t end = now() + timeout;
    while (l->acceptq.empty()) { if (now() >= end || !l->open) return -2; block_on(l, end); }
    Obj* a = O(l->acceptq.front()); l->acceptq.pop_front(); a->refs = 1; return newfd(a);
}
int raw_recv(int fd, void* buf, size_t n, ns_t timeout) {
    Core k; Obj* o = F(fd); if (!o) return -1;
    struct iovec v = { buf, n }; ns_t end = now() + timeout;
    for (;;) { ssize_t r = do_recv(o, &v, 1, 0); if (r >= 0) return r; if (r != -EAGAIN) return -1; if (now() >= end) return -2; block_on(o, end); }
}
bool raw_send(int fd, const void* buf, size_t n, ns_t timeout) {
    Core k; Obj* o = F(fd); if (!o) return false;
    const char* p = (const char*)buf; ns_t end = now() + timeout;
    while (n) { struct iovec v = { (void*)p, n }; ssize_t r = do_send(o, &v, 1); if (r > 0) { p += r; n -= r; continue; } if (r != -EAGAIN || now() >= end) return false; block_on(o, end); }
    return true;
}
void raw_close(int fd) { Core k; Obj* o = F(fd); if (!o) return; (*g_fd)[fd - FD_BASE] = NULL; close_obj(o); }
void raw_reset(int fd) { Core k; Obj* o = F(fd); if (!o) return; o->linger0 = true; (*g_fd)[fd - FD_BASE] = NULL; close_obj(o); }
void raw_shutdown_wr(int fd) { Core k; Obj* o = F(fd); if (o) send_fin(o); }
int raw_unread(int fd) { Core k; Obj* o = F(fd); return o ? (int)o->rxn() : -1; }
} // namespace sim

// =================================================================== system calls
using namespace sim;
#define P extern "C" __attribute__((visibility("default")))
#define SIMFD(fd) (g_run && (fd) >= FD_BASE)
#define GET(o, fd) Core _k; Obj* o = F(fd); if (!o) return err(EBADF)

P int socket(int dom, int type, int) noexcept {
    point(); Core k;
    if (!g_run) return err(EAFNOSUPPORT);
    if (dom != AF_INET) return err(EAFNOSUPPORT);
    int e = take(g_fsock, g_cur->node); if (e) { count_fault(F_SOCKET_EMFILE); trace("socket() fails: %s", strerror(e)); return err(e); }
    if (net.socket_emfile && !g_off && chance(ST_FAULT, 920, net.socket_emfile, 1000)) { count_fault(F_SOCKET_EMFILE); trace("socket() fails: EMFILE"); return err(EMFILE); }
    Obj* o = mk(K_SOCK); if (type & SOCK_NONBLOCK) o->nonblock = true; int fd = newfd(o); ev(40, o->id); return fd;
}
P int bind(int fd, const struct sockaddr* a, socklen_t) noexcept {
    point(); GET(o, fd);
    const struct sockaddr_in* s = (const struct sockaddr_in*)a; int port = ntohs(s->sin_port);
    int e = take(g_fbind, o->node); if (e) { count_fault(F_BIND_FAIL); return err(e); }
    if (port) { for (Obj* x : *g_fd) if (x && x != o && x->kind == K_SOCK && x->node == o->node && x->lport == port && (x->st == S_LISTEN || (x->bound && x->st == S_NEW))) return err(EADDRINUSE); }
    else { int& p = (*g_eph)[o->node]; if (!p) p = 30000; port = p++; }
    int n = ip_to_node(s->sin_addr.s_addr); if (n && n != o->node) return err(EADDRNOTAVAIL);
    o->lip = n; o->lport = port; o->bound = true; return 0;
}
P int listen(int fd, int backlog) noexcept {
    point(); GET(o, fd);
    int e = take(g_flisten, o->node); if (e) { count_fault(F_LISTEN_FAIL); return err(e); }
    o->st = S_LISTEN; o->backlog = backlog; if (!o->lip) o->lip = 0; ev(41, o->node, o->lport); trace("listening on %d:%d", o->node, o->lport); return 0;
}
static int do_accept(int fd, struct sockaddr* a, socklen_t* l, bool nb) {
    point(); GET(o, fd);
    if (o->st != S_LISTEN) return err(EINVAL);
    for (;;) {
        if (o->acceptq.empty()) { if (o->nonblock) return err(EAGAIN); block_on(o, -1); if (!o->open) return err(EBADF); continue; }
        break;
    }
    int e = take(g_facc, o->node); if (e) { count_fault(F_ACCEPT_EMFILE); trace("accept() fails: %s", strerror(e)); return err(e); }
    if (!g_off && net.accept_emfile && chance(ST_FAULT, 921, net.accept_emfile, 1000)) { count_fault(F_ACCEPT_EMFILE); trace("accept() fails: EMFILE"); return err(EMFILE); }
    Obj* x = O(o->acceptq.front()); o->acceptq.pop_front(); x->refs = 1; x->nonblock = nb;
    if (a && l) { struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(x->rport); s.sin_addr.s_addr = node_to_ip(x->rip); memcpy(a, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s; }
    int r = newfd(x); ev(42, x->cid); trace("accepted conn %u", x->cid);
    // the peer reset the connection while it waited in the backlog: accept() still returns it (Linux never returns ECONNABORTED for TCP)
    if (!g_off && net.accept_abort && x->st == S_ESTAB && chance(ST_FAULT, 922, net.accept_abort, 1000)) { count_fault(F_ACCEPT_ABORT); Obj* c = O(x->peer); got_rst(x, ECONNRESET); bounce(c); }
    return r;
}
P int accept(int fd, struct sockaddr* a, socklen_t* l) { return do_accept(fd, a, l, false); }
P int accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) { return do_accept(fd, a, l, fl & SOCK_NONBLOCK); }
P int connect(int fd, const struct sockaddr* a, socklen_t) {
    point(); GET(o, fd);
    const struct sockaddr_in* s = (const struct sockaddr_in*)a;
    int n = ip_to_node(s->sin_addr.s_addr); if (!n) n = o->node;
    int e = do_connect(o, n, ntohs(s->sin_port));
    if (e == EINPROGRESS && !o->nonblock) { while (o->st == S_CONNECTING) block_on(o, -1); if (o->st == S_ESTAB) return 0; return err(o->so_error ? o->so_error : ECONNREFUSED); }
    return e ? err(e) : 0;
}
static ssize_t recv_v(int fd, const struct iovec* v, int n, int fl) {
    point(); GET(o, fd);
    if (o->kind == K_EVENT) { if (!o->counter) return err(EAGAIN); uint64_t c = o->counter; o->counter = 0; memcpy(v[0].iov_base, &c, 8); return 8; }
    if (o->kind == K_TIMER) { if (!o->counter) return err(EAGAIN); uint64_t c = o->counter; o->counter = 0; memcpy(v[0].iov_base, &c, 8); return 8; }
    for (;;) { ssize_t r = do_recv(o, v, n, fl); if (r >= 0) return r; if (r == -EAGAIN && !o->nonblock) { block_on(o, -1); continue; } return err(-r); }
}
static ssize_t send_v(int fd, const struct iovec* v, int n) {
    point(); GET(o, fd);
    if (o->kind == K_EVENT) { uint64_t c; memcpy(&c, v[0].iov_base, 8); o->counter += c; notify(o, EPOLLIN); return 8; }
    for (;;) { ssize_t r = do_send(o, v, n); if (r >= 0) return r; if (r == -EAGAIN && !o->nonblock) { block_on(o, -1); continue; } return err(-r); }
}
P ssize_t recv(int fd, void* b, size_t n, int fl) { struct iovec v = { b, n }; return recv_v(fd, &v, 1, fl); }
P ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr*, socklen_t*) { struct iovec v = { b, n }; return recv_v(fd, &v, 1, fl); }
P ssize_t recvmsg(int fd, struct msghdr* m, int fl) { m->msg_flags = 0; return recv_v(fd, m->msg_iov, m->msg_iovlen, fl); }
P ssize_t send(int fd, const void* b, size_t n, int) { struct iovec v = { (void*)b, n }; return send_v(fd, &v, 1); }
P ssize_t sendto(int fd, const void* b, size_t n, int, const struct sockaddr*, socklen_t) { struct iovec v = { (void*)b, n }; return send_v(fd, &v, 1); }
P ssize_t sendmsg(int fd, const struct msghdr* m, int) { return send_v(fd, m->msg_iov, m->msg_iovlen); }
P ssize_t read(int fd, void* b, size_t n) { if (!SIMFD(fd)) return syscall(SYS_read, fd, b, n); struct iovec v = { b, n }; return recv_v(fd, &v, 1, 0); }
P ssize_t write(int fd, const void* b, size_t n) { if (!SIMFD(fd)) return syscall(SYS_write, fd, b, n); struct iovec v = { (void*)b, n }; return send_v(fd, &v, 1); }
P ssize_t readv(int fd, const struct iovec* v, int n) { if (!SIMFD(fd)) return syscall(SYS_readv, fd, v, n); return recv_v(fd, v, n, 0); }
P ssize_t writev(int fd, const struct iovec* v, int n) { if (!SIMFD(fd)) return syscall(SYS_writev, fd, v, n); return send_v(fd, v, n); }
P int close(int fd) {
    if (!SIMFD(fd)) return syscall(SYS_close, fd);
    point(); GET(o, fd); (*g_fd)[fd - FD_BASE] = NULL; close_obj(o); return 0;
}
P int shutdown(int fd, int how) noexcept {
    point(); GET(o, fd);
    if (o->st == S_CONNECTING) { conn_fail(o->id, ECONNRESET); return 0; }   // as Linux does in SYN_SENT
    if (o->st != S_ESTAB || o->rst) return err(ENOTCONN);
    if (how == SHUT_RD || how == SHUT_RDWR) o->rd_shut = true;
    if (how == SHUT_WR || how == SHUT_RDWR) { count_conn(o, false); send_fin(o); }
    ev(43, dirid(o), how); notify(o, EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLHUP); return 0;
}
P int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (!SIMFD(fd)) return syscall(SYS_fcntl, fd, cmd, arg);
    GET(o, fd);
    if (cmd == F_GETFL) return O_RDWR | (o->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { o->nonblock = arg & O_NONBLOCK; return 0; }
    return 0;
}
extern "C" int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
P int ioctl(int fd, unsigned long req, ...) noexcept {
    va_list ap; va_start(ap, req); void* arg = va_arg(ap, void*); va_end(ap);
    if (!SIMFD(fd)) return syscall(SYS_ioctl, fd, req, arg);
    GET(o, fd);
    if (req == FIONBIO) { o->nonblock = *(int*)arg != 0; return 0; }
    if (req == FIONREAD) { *(int*)arg = o->rxn(); return 0; }
    return err(EINVAL);
}
P int setsockopt(int fd, int lv, int nm, const void* v, socklen_t) noexcept {
    GET(o, fd);
    if (lv == SOL_SOCKET && nm == SO_LINGER) { const struct linger* l = (const struct linger*)v; o->linger0 = l->l_onoff && !l->l_linger; }
    return 0;
}
P int getsockopt(int fd, int lv, int nm, void* v, socklen_t* l) noexcept {
    GET(o, fd); int x = 0;
    if (lv == SOL_SOCKET && nm == SO_ERROR) { x = o->so_error; o->so_error = 0; }
    else if (lv == SOL_SOCKET && nm == SO_TYPE) x = SOCK_STREAM;
    else if (lv == SOL_SOCKET && (nm == SO_SNDBUF || nm == SO_RCVBUF)) x = o->cap;
    else if (lv == SOL_SOCKET && nm == SO_ACCEPTCONN) x = o->st == S_LISTEN;
    if (*l >= 4) { memcpy(v, &x, 4); *l = 4; } return 0;
}
static void put_addr(struct sockaddr* a, socklen_t* l, int node, int port) {
    struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = node_to_ip(node); memcpy(a, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s;
}
P int getsockname(int fd, struct sockaddr* a, socklen_t* l) noexcept { point(); GET(o, fd); put_addr(a, l, o->lip, o->lport); return 0; }
P int getpeername(int fd, struct sockaddr* a, socklen_t* l) noexcept {
    point(); GET(o, fd); if (o->st != S_ESTAB || o->rst) return err(ENOTCONN); put_addr(a, l, o->rip, o->rport); return 0;
}
P int epoll_create1(int) noexcept { if (!g_run) return err(ENOSYS); point(); Core k; Obj* o = mk(K_EPOLL); return newfd(o); }
P int epoll_create(int) noexcept { return epoll_create1(0); }
P int epoll_ctl(int ep, int op, int fd, struct epoll_event* e) noexcept {
    point(); GET(o, ep); Obj* t = F(fd); if (!t) return err(EBADF);
    auto it = o->items.find(fd);
    if (op == EPOLL_CTL_ADD) { if (it != o->items.end()) return err(EEXIST); Item* i = new Item(); i->ep = o; i->target = t; i->fd = fd; i->ready = false; i->disabled = false; i->events = e->events; i->data = e->data.u64; o->items[fd] = i; t->watchers.push_back(i); it = o->items.find(fd); }
    else if (it == o->items.end()) return err(ENOENT);
    else if (op == EPOLL_CTL_DEL) { Item* i = it->second; o->items.erase(it); for (auto w = t->watchers.begin(); w != t->watchers.end(); ++w) if (*w == i) { t->watchers.erase(w); break; } for (auto r = o->rdy.begin(); r != o->rdy.end();) if (*r == i) r = o->rdy.erase(r); else ++r; delete i; return 0; }
    else { it->second->events = e->events; it->second->data = e->data.u64; it->second->disabled = false; }
    Item* i = it->second;
    if (readiness(t) & (i->events | EPOLLERR | EPOLLHUP)) { if (!i->ready) { i->ready = true; o->rdy.push_back(i); } wake(o, 1); }
    return 0;
}
P int epoll_wait(int ep, struct epoll_event* evs, int max, int timeout) {
    point(); GET(o, ep);
    ns_t end = timeout < 0 ? -1 : now() + timeout * MS;
    for (;;) {
        int n = 0; std::deque<Item*> again;
        while (!o->rdy.empty() && n < max) {
            Item* i = o->rdy.front(); o->rdy.pop_front(); i->ready = false;
            uint32_t r = readiness(i->target) & (i->events | EPOLLERR | EPOLLHUP);
            if (!r) continue;
            evs[n].events = r; evs[n].data.u64 = i->data; n++;
            if (i->events & EPOLLONESHOT) i->disabled = true;
            else if (!(i->events & EPOLLET)) again.push_back(i);
        }
        for (Item* i : again) if (!i->ready) { i->ready = true; o->rdy.push_back(i); }
        if (n) { ev(44, o->id, n); trace("epoll_wait(%d) -> %d first events %x", o->id, n, evs[0].events); return n; }
        if (timeout == 0 || (end >= 0 && now() >= end)) return 0;
        if (sys.eintr && chance(ST_FAULT, 930, sys.eintr, 10000)) { count_fault(F_EINTR); return err(EINTR); }
        block_on(o, end);
        if (!o->open) return err(EBADF);
    }
}
P int eventfd(unsigned c, int fl) noexcept { if (!g_run) return err(ENOSYS); point(); Core k; Obj* o = mk(K_EVENT); o->counter = c; o->nonblock = fl & EFD_NONBLOCK; return newfd(o); }
P int timerfd_create(clockid_t, int) noexcept { if (!g_run) return err(ENOSYS); point(); Core k; Obj* o = mk(K_TIMER); o->nonblock = true; return newfd(o); }
static void tfire(int id, uint32_t gen) {
    Obj* o = O(id); if (!o->open || o->t_gen != gen) return;
    o->counter++; notify(o, EPOLLIN);
    if (o->t_int) { o->t_next = now() + o->t_int; at(o->t_next, [id, gen] { tfire(id, gen); }); } else o->t_next = 0;
}
P int timerfd_settime(int fd, int fl, const struct itimerspec* n, struct itimerspec* old) noexcept {
    point(); GET(o, fd);
    if (old) memset(old, 0, sizeof *old);
    o->t_gen++; o->counter = 0;
    ns_t v = n->it_value.tv_sec * SEC + n->it_value.tv_nsec; o->t_int = n->it_interval.tv_sec * SEC + n->it_interval.tv_nsec;
    if (!v) { o->t_next = 0; return 0; }
    o->t_next = (fl & TFD_TIMER_ABSTIME) ? v - 1000 * SEC : now() + v; if (o->t_next < now()) o->t_next = now();
    int id = o->id; uint32_t g = o->t_gen;
    if (o->t_next <= now()) tfire(id, g); else at(o->t_next, [id, g] { tfire(id, g); });
    return 0;
}
P int poll(struct pollfd* f, nfds_t n, int timeout) {
    if (!g_run) return syscall(SYS_poll, f, n, timeout);
    point(); Core k; ns_t end = timeout < 0 ? -1 : now() + timeout * MS;
    for (;;) {
        int c = 0; Obj* last = NULL;
        for (nfds_t i = 0; i < n; i++) { f[i].revents = 0; Obj* o = F(f[i].fd); if (!o) { f[i].revents = POLLNVAL; c++; continue; } last = o; uint32_t r = readiness(o) & (f[i].events | POLLERR | POLLHUP); f[i].revents = r; if (r) c++; }
        if (c || timeout == 0 || (end >= 0 && now() >= end)) return c;
        block_on(last, end);
    }
}
// name resolution
P int getaddrinfo(const char* node, const char* svc, const struct addrinfo* hints, struct addrinfo** res) {
    point(); Core k;
    int port = svc ? atoi(svc) : 0; uint32_t ip;
    if (svc && *svc) for (const char* c = svc; *c; c++) if (*c < '0' || *c > '9') return EAI_SERVICE;
    if (!node || !*node) ip = (hints && hints->ai_flags & AI_PASSIVE) ? 0 : htonl(0x7f000001);
    else {
        struct in_addr a;
        if (inet_pton(AF_INET, node, &a) == 1) ip = a.s_addr;
        else if (!strcmp(node, "localhost")) ip = htonl(0x7f000001);
        else { auto i = g_dns ? g_dns->find(node) : std::map<std::string, int>::iterator(); if (!g_dns || i == g_dns->end() || g_dnsfail->count(node)) { trace("getaddrinfo(%s) fails", node); return EAI_NONAME; } ip = node_to_ip(i->second); }
    }
    char* mem = (char*)calloc(1, sizeof(struct addrinfo) + sizeof(struct sockaddr_in));
    struct addrinfo* r = (struct addrinfo*)mem; struct sockaddr_in* s = (struct sockaddr_in*)(mem + sizeof *r);
    s->sin_family = AF_INET; s->sin_port = htons(port); s->sin_addr.s_addr = ip;
    r->ai_family = AF_INET; r->ai_socktype = SOCK_STREAM; r->ai_protocol = IPPROTO_TCP; r->ai_addrlen = sizeof *s; r->ai_addr = (struct sockaddr*)s;
    *res = r; return 0;
}
P void freeaddrinfo(struct addrinfo* a) noexcept { Core k; free(a); }
P struct hostent* gethostbyaddr(const void*, socklen_t, int) { return NULL; }
P struct hostent* gethostbyname(const char*) { return NULL; }
