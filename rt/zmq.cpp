// Model of the libzmq entry points FairMQ uses.  Messages follow libzmq's layout and ownership rules (small
// messages are stored inside zmq_msg_t, large ones are reference counted, the deallocation function is called by the
// last close); sockets are connected by queues whose high water mark counts whole messages; multipart messages
// become visible as a whole; blocking operations use the virtual clock of rt.cpp.
#include "rt.h"
#include "rtzmq.h"
#include <zmq.h>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>

namespace {
enum : uint8_t { VSM = 101, LMSG = 102, CMSG = 104 };
enum : uint8_t { MORE = 1, SHARED = 128 };
const size_t MAXVSM = 33;
struct Content { void* data; size_t size; zmq_free_fn* ffn; void* hint; uint32_t ref; };
struct M {
    void* metadata;
    union { uint8_t vsm[MAXVSM]; struct { Content* c; } l; struct { void* data; size_t size; } k; } u;
    uint8_t vsize, type, flags;
};
static_assert(sizeof(M) <= 64, "zmq_msg_t");
inline M* m(zmq_msg_t* x) { return (M*)x; }
inline M* m(const zmq_msg_t* x) { return (M*)x; }
bool valid(M* x) { return x->type == VSM || x->type == LMSG || x->type == CMSG; }
void initE(M* x) { x->metadata = nullptr; x->type = VSM; x->flags = 0; x->vsize = 0; }
int live_ = 0;                                     // message contents allocated and not yet deallocated
int closeM(M* x)
{
    if (!valid(x)) { errno = EFAULT; return -1; }
    if (x->type == LMSG) {
        Content* c = x->u.l.c;
        if (!(x->flags & SHARED) || --c->ref == 0) {
            --live_;
            if (c->ffn) { c->ffn(c->data, c->hint); free(c); } else free(c);
        }
    }
    x->type = 0;
    return 0;
}
// ---------------------------------------------------------------- sockets
struct Node { M msg; Node* next; };
struct Queue { Node *head, *tail; int whole; Node* visible; int cap; bool writerClosed, readerClosed; };  // frames; `whole` = complete messages
struct Sock;
struct Link { Sock* a; Sock* b; Queue ab, ba; char addr[128]; void* ctx; Link* next; bool bound; };
struct Bound { Sock* s; char addr[128]; void* ctx; Bound* next; bool on; };
struct Ctx { bool term; int open; };
struct Sock { Ctx* c; int type; bool open; int linger, sndtimeo, rcvtimeo, sndhwm, rcvhwm, sndbuf, rcvbuf; bool sub; Link* cur; bool inMsg; Queue* rcur; bool rmore; Sock* mon; int rr, frr; bool reqSent; Queue* repTo; Queue dropq; };
Link* links = nullptr; Bound* bounds = nullptr; int nsock = 0; int eintr = 0; int failSock = 0;
int key_;
Ctx* C(void* p) { return (Ctx*)p; }
Sock* S(void* p) { return (Sock*)p; }
bool canSend(int t) { return t != ZMQ_PULL && t != ZMQ_SUB; }
bool canRecv(int t) { return t != ZMQ_PUSH && t != ZMQ_PUB; }
Queue* outQ(Link* l, Sock* s) { return l->a == s ? &l->ab : l->b == s ? &l->ba : nullptr; }
Queue* inQ(Link* l, Sock* s) { return l->a == s ? &l->ba : l->b == s ? &l->ab : nullptr; }
Sock* peer(Link* l, Sock* s) { return l->a == s ? l->b : l->a; }
bool full(Queue* q) { return q->cap > 0 && q->whole >= q->cap; }
int cap(int snd, int rcv) { return snd <= 0 || rcv <= 0 ? 0 : snd + rcv; }
void push(Queue* q, M* x, bool more)
{
    Node* n = (Node*)malloc(sizeof(Node)); memcpy(&n->msg, x, sizeof(M)); n->next = nullptr;
    if (more) n->msg.flags |= MORE; else n->msg.flags &= (uint8_t)~MORE;
    if (q->tail) q->tail->next = n; else q->head = n;
    q->tail = n;
    if (!more) ++q->whole;
}
bool pop(Queue* q, M* x)
{
    Node* n = q->head; memcpy(x, &n->msg, sizeof(M)); q->head = n->next; if (!q->head) q->tail = nullptr; free(n);
    bool more = x->flags & MORE; if (!more) --q->whole; return more;
}
void drain(Queue* q) { M x; while (q->head) { Node* n = q->head; memcpy(&x, &n->msg, sizeof(M)); q->head = n->next; free(n); closeM(&x); } q->tail = nullptr; q->whole = 0; }
void event(Sock* s, uint16_t ev)
{
    if (!s->mon || !s->mon->open) return;
    M a; initE(&a); a.vsize = 6; memcpy(a.u.vsm, &ev, 2); memset(a.u.vsm + 2, 0, 4);
    M b; initE(&b);
    for (Link* l = links; l; l = l->next) if (Queue* q = outQ(l, s->mon)) { push(q, &a, true); push(q, &b, false); return; }
}
int block(Sock* s, int64_t ns, bool& to)
{
    if (eintr > 0 && sym_choice("zmq.eintr", 2)) { --eintr; errno = EINTR; return -1; }
    to = rt_wait(&key_, ns);
    return 0;
}
void joinLink(Link* l) { l->bound = true; if (l->a && l->a->open) event(l->a, ZMQ_EVENT_CONNECTED); if (l->b && l->b->open) event(l->b, ZMQ_EVENT_ACCEPTED); }
bool sameAddr(const char* a, void* ca, const char* b, void* cb) { return !strcmp(a, b) && (strncmp(a, "inproc", 6) || ca == cb); }
// the queue the next message of s goes to, or null when it would block
Queue* pickOut(Sock* s, bool& drop)
{
    drop = false;
    if (s->type == ZMQ_REP) return s->repTo;
    if (s->type == ZMQ_REQ && s->reqSent) return nullptr;
    Queue* c[16]; int n = 0;
    for (Link* l = links; l; l = l->next) { Queue* q = outQ(l, s); if (q && !q->readerClosed && !full(q)) { if (n < 16) c[n++] = q; } }
    if (!n) return nullptr;
    return c[s->rr % n];
}
Queue* pickIn(Sock* s)
{
    if (s->type == ZMQ_REQ && !s->reqSent) return nullptr;
    Queue* c[16]; int n = 0;
    for (Link* l = links; l; l = l->next) { Queue* q = inQ(l, s); if (q && q->whole > 0) { if (n < 16) c[n++] = q; } }
    if (!n) return nullptr;
    return c[s->frr % n];
}
bool readyIn(Sock* s) { return canRecv(s->type) && (s->rmore || pickIn(s)); }
bool readyOut(Sock* s) { if (!canSend(s->type)) return false; if (s->type == ZMQ_PUB) return true; bool d; return s->inMsg || pickOut(s, d); }
}
void rt_zmq_eintr(int n) { eintr = n; }
int rt_zmq_sockets() { return nsock; }
int rt_zmq_messages() { return live_; }
void rt_zmq_fail_socket(int n) { failSock = n; }

extern "C" {
void zmq_version(int* a, int* b, int* c) { *a = 4; *b = 3; *c = 5; }
int zmq_errno(void) { return errno; }
const char* zmq_strerror(int) { return "zmq error"; }
void* zmq_ctx_new(void) { Ctx* c = (Ctx*)malloc(sizeof(Ctx)); c->term = false; c->open = 0; return c; }
int zmq_ctx_set(void*, int, int) { return 0; }
int zmq_ctx_shutdown(void* p) { C(p)->term = true; rt_notify(&key_); return 0; }
int zmq_ctx_term(void* p)
{
    Ctx* c = C(p); c->term = true; rt_notify(&key_);
    while (c->open > 0) { bool to; if (block(nullptr, -1, to)) return -1; }
    Link** pl = &links;                                  // links without any socket left
    while (*pl) { Link* l = *pl; bool ao = l->a && l->a->open, bo = l->b && l->b->open; if (!ao && !bo) { drain(&l->ab); drain(&l->ba); *pl = l->next; free(l); } else pl = &l->next; }
    free(c);
    return 0;
}
int zmq_ctx_destroy(void* p) { return zmq_ctx_term(p); }
void* zmq_socket(void* p, int type)
{
    Ctx* c = C(p);
    if (c->term) { errno = ETERM; return nullptr; }
    if (failSock > 0 && --failSock == 0) { errno = EMFILE; return nullptr; }
    if (type < 0 || type > 11) { errno = EINVAL; return nullptr; }
    Sock* s = (Sock*)calloc(1, sizeof(Sock));
    s->c = c; s->type = type; s->open = true; s->linger = -1; s->sndtimeo = s->rcvtimeo = -1; s->sndhwm = s->rcvhwm = 1000; s->sndbuf = s->rcvbuf = -1;
    ++c->open; ++nsock;
    return s;
}
int zmq_close(void* p)
{
    Sock* s = S(p); if (!s || !s->open) { errno = ENOTSOCK; return -1; }
    if (s->mon && s->mon->open) { Sock* mn = s->mon; s->mon = nullptr; zmq_close(mn); }
    s->open = false; --s->c->open; --nsock;
    for (Bound** b = &bounds; *b;) { if ((*b)->s == s) { Bound* x = *b; *b = x->next; free(x); } else b = &(*b)->next; }
    Link** pl = &links;
    while (*pl) {
        Link* l = *pl; Queue* o = outQ(l, s); Queue* i = inQ(l, s);
        if (!o) { pl = &l->next; continue; }
        i->readerClosed = true; drain(i); o->writerClosed = true;
        if (s->inMsg && s->cur == l) { /* an incomplete message is never seen by the peer */ Node** n = &o->head; int w = o->whole; while (*n && w > 0) { if (!((*n)->msg.flags & MORE)) --w; n = &(*n)->next; } Node* x = *n; *n = nullptr; while (x) { Node* y = x->next; closeM(&x->msg); free(x); x = y; } o->tail = nullptr; for (Node* q = o->head; q; q = q->next) o->tail = q; }
        Sock* pr = peer(l, s);
        if (pr && pr->open) { if (pr->cur == l) { pr->cur = nullptr; } event(pr, ZMQ_EVENT_DISCONNECTED); }
        if (l->a == s) l->a = nullptr; else l->b = nullptr;
        bool pOpen = pr && pr->open;
        if (!pOpen && (l->bound || s->linger == 0)) { drain(&l->ab); drain(&l->ba); *pl = l->next; free(l); }
        else pl = &l->next;
    }
    free(s);
    rt_notify(&key_);
    return 0;
}
int zmq_bind(void* p, const char* addr)
{
    Sock* s = S(p); rt_checkpoint();
    if (s->c->term) { errno = ETERM; return -1; }
    if (!strstr(addr, "://") || strlen(addr) > 120) { errno = EINVAL; return -1; }
    for (Bound* b = bounds; b; b = b->next) if (sameAddr(b->addr, b->ctx, addr, s->c)) { errno = EADDRINUSE; return -1; }
    Bound* b = (Bound*)calloc(1, sizeof(Bound)); b->s = s; strcpy(b->addr, addr); b->ctx = s->c; b->next = bounds; bounds = b;
    for (Link* l = links; l; l = l->next) if (!l->bound && !l->b && sameAddr(l->addr, l->ctx, addr, s->c)) { l->b = s; int c = l->a ? cap(l->a->sndhwm, s->rcvhwm) : 0; l->ab.cap = c; l->ba.cap = l->a ? cap(s->sndhwm, l->a->rcvhwm) : 0; joinLink(l); }
    rt_notify(&key_);
    return 0;
}
int zmq_connect(void* p, const char* addr)
{
    Sock* s = S(p); rt_checkpoint();
    if (s->c->term) { errno = ETERM; return -1; }
    if (!strstr(addr, "://") || strlen(addr) > 120) { errno = EINVAL; return -1; }
    Link* l = (Link*)calloc(1, sizeof(Link)); l->a = s; strcpy(l->addr, addr); l->ctx = s->c;
    l->ab.cap = s->sndhwm > 0 ? s->sndhwm : 0;
    Link** e = &links; while (*e) e = &(*e)->next; *e = l;
    for (Bound* b = bounds; b; b = b->next) if (sameAddr(b->addr, b->ctx, addr, s->c)) { l->b = b->s; l->ab.cap = cap(s->sndhwm, b->s->rcvhwm); l->ba.cap = cap(b->s->sndhwm, s->rcvhwm); joinLink(l); break; }
    rt_notify(&key_);
    return 0;
}
int zmq_unbind(void* p, const char* addr) { for (Bound** b = &bounds; *b; b = &(*b)->next) if ((*b)->s == p && !strcmp((*b)->addr, addr)) { Bound* x = *b; *b = x->next; free(x); return 0; } errno = ENOENT; return -1; }
int zmq_disconnect(void*, const char*) { return 0; }
int zmq_setsockopt(void* p, int o, const void* v, size_t n)
{
    Sock* s = S(p);
    if (o == ZMQ_SUBSCRIBE) { if (s->type != ZMQ_SUB) { errno = EINVAL; return -1; } s->sub = true; return 0; }
    if (o == ZMQ_IDENTITY) { if (n > 255) { errno = EINVAL; return -1; } return 0; }
    if (n != sizeof(int)) { errno = EINVAL; return -1; }
    int x = *(const int*)v;
    switch (o) {
    case ZMQ_LINGER: if (x < -1) break; s->linger = x; return 0;
    case ZMQ_SNDTIMEO: if (x < -1) break; s->sndtimeo = x; return 0;
    case ZMQ_RCVTIMEO: if (x < -1) break; s->rcvtimeo = x; return 0;
    case ZMQ_SNDHWM: if (x < 0) break; s->sndhwm = x; return 0;
    case ZMQ_RCVHWM: if (x < 0) break; s->rcvhwm = x; return 0;
    case ZMQ_SNDBUF: if (x < -1) break; s->sndbuf = x; return 0;
    case ZMQ_RCVBUF: if (x < -1) break; s->rcvbuf = x; return 0;
    }
    errno = EINVAL; return -1;
}
int zmq_getsockopt(void* p, int o, void* v, size_t* n)
{
    Sock* s = S(p); int x;
    if (*n < sizeof(int)) { errno = EINVAL; return -1; }
    switch (o) {
    case ZMQ_LINGER: x = s->linger; break;
    case ZMQ_SNDTIMEO: x = s->sndtimeo; break;
    case ZMQ_RCVTIMEO: x = s->rcvtimeo; break;
    case ZMQ_SNDHWM: x = s->sndhwm; break;
    case ZMQ_RCVHWM: x = s->rcvhwm; break;
    case ZMQ_SNDBUF: x = s->sndbuf; break;
    case ZMQ_RCVBUF: x = s->rcvbuf; break;
    case ZMQ_RCVMORE: x = s->rmore; break;
    case ZMQ_TYPE: x = s->type; break;
    case ZMQ_EVENTS: if (s->c->term) { errno = ETERM; return -1; } x = (readyIn(s) ? ZMQ_POLLIN : 0) | (readyOut(s) ? ZMQ_POLLOUT : 0); break;
    case ZMQ_FD: x = 4242; break;
    default: errno = EINVAL; return -1;
    }
    *(int*)v = x; *n = sizeof(int); return 0;
}
// ---------------------------------------------------------------- messages
int zmq_msg_init(zmq_msg_t* x) { initE(m(x)); return 0; }
int zmq_msg_init_size(zmq_msg_t* x, size_t n)
{
    M* p = m(x);
    if (n <= MAXVSM) { p->metadata = nullptr; p->type = VSM; p->flags = 0; p->vsize = (uint8_t)n; return 0; }
    if (sizeof(Content) + n < n) { errno = ENOMEM; return -1; }
    Content* c = (Content*)malloc(sizeof(Content) + n);
    if (!c) { errno = ENOMEM; return -1; }
    c->data = c + 1; c->size = n; c->ffn = nullptr; c->hint = nullptr; c->ref = 0; ++live_;
    p->metadata = nullptr; p->u.l.c = c; p->type = LMSG; p->flags = 0;
    return 0;
}
int zmq_msg_init_data(zmq_msg_t* x, void* d, size_t n, zmq_free_fn* f, void* h)
{
    M* p = m(x);
    p->metadata = nullptr; p->flags = 0;
    if (!f) { p->type = CMSG; p->u.k.data = d; p->u.k.size = n; return 0; }
    Content* c = (Content*)malloc(sizeof(Content));
    if (!c) { errno = ENOMEM; return -1; }
    c->data = d; c->size = n; c->ffn = f; c->hint = h; c->ref = 0; ++live_;
    p->u.l.c = c; p->type = LMSG;
    return 0;
}
size_t zmq_msg_size(const zmq_msg_t* x) { M* p = m(x); if (p->type == LMSG) return p->u.l.c->size; if (p->type == CMSG) return p->u.k.size; if (p->type == VSM) return p->vsize; sym_fail("zmq_msg_size of a message that is not initialised (libzmq aborts)"); }
void* zmq_msg_data(zmq_msg_t* x) { M* p = m(x); if (p->type == LMSG) return p->u.l.c->data; if (p->type == CMSG) return p->u.k.data; if (p->type == VSM) return p->u.vsm; sym_fail("zmq_msg_data of a message that is not initialised (libzmq aborts)"); }
int zmq_msg_close(zmq_msg_t* x) { return closeM(m(x)); }
int zmq_msg_copy(zmq_msg_t* d, zmq_msg_t* s)
{
    M *a = m(d), *b = m(s);
    if (!valid(b)) { errno = EFAULT; return -1; }
    if (closeM(a)) return -1;
    if (b->type == LMSG) { if (b->flags & SHARED) ++b->u.l.c->ref; else { b->flags |= SHARED; b->u.l.c->ref = 2; } }
    memcpy(a, b, sizeof(M));
    return 0;
}
int zmq_msg_move(zmq_msg_t* d, zmq_msg_t* s)
{
    if (!valid(m(s))) { errno = EFAULT; return -1; }
    if (closeM(m(d))) return -1;
    memcpy(m(d), m(s), sizeof(M)); initE(m(s)); return 0;
}
int zmq_msg_more(const zmq_msg_t* x) { return (m(x)->flags & MORE) ? 1 : 0; }
static int sendM(Sock* s, M* x, int fl)
{
    if (!valid(x)) { errno = EFAULT; return -1; }
    if (s->c->term) { errno = ETERM; return -1; }
    if (!canSend(s->type)) { errno = ENOTSUP; return -1; }
    bool more = fl & ZMQ_SNDMORE;
    if (s->type == ZMQ_PUB) {
        if (!s->inMsg) rt_checkpoint();
        for (Link* l = links; l; l = l->next) {
            Queue* q = outQ(l, s); Sock* pr = peer(l, s);
            if (!q || q->readerClosed || !pr || !pr->open || !pr->sub) continue;
            if (!s->inMsg && full(q)) { continue; }
            if (s->inMsg && !(q->tail && (q->tail->msg.flags & MORE))) continue;   // the message was dropped for this subscriber
            M c; initE(&c); zmq_msg_copy((zmq_msg_t*)&c, (zmq_msg_t*)x); push(q, &c, more);
        }
        s->inMsg = more;
        closeM(x); initE(x);
        rt_notify(&key_);
        return 0;
    }
    if (s->inMsg) {                            // later parts never block
        Link* l = s->cur; Queue* q = l ? outQ(l, s) : nullptr;
        if (!q || q->readerClosed) { closeM(x); }   // the peer is gone: libzmq drops the rest of the message
        else push(q, x, more);
        initE(x);
        s->inMsg = more;
        if (!more) { ++s->rr; if (s->type == ZMQ_REQ) s->reqSent = true; if (s->type == ZMQ_REP) s->repTo = nullptr; rt_notify(&key_); }
        return 0;
    }
    rt_checkpoint();
    if (s->type == ZMQ_REQ && s->reqSent) { errno = EFSM; return -1; }
    if (s->type == ZMQ_REP && !s->repTo) { errno = EFSM; return -1; }
    int64_t end = s->sndtimeo < 0 ? -1 : rt_now() + (int64_t)s->sndtimeo * 1000000;
    bool d; Queue* q;
    while (!(q = pickOut(s, d))) {
        if (fl & ZMQ_DONTWAIT || s->sndtimeo == 0) { errno = EAGAIN; return -1; }
        int64_t left = end < 0 ? -1 : end - rt_now();
        if (end >= 0 && left <= 0) { errno = EAGAIN; return -1; }
        bool to = false;
        if (block(s, left, to)) return -1;
        if (s->c->term) { errno = ETERM; return -1; }
        if (to) { errno = EAGAIN; return -1; }
    }
    s->cur = nullptr; for (Link* l = links; l; l = l->next) if (outQ(l, s) == q) s->cur = l;
    push(q, x, more); initE(x);
    s->inMsg = more;
    if (!more) { ++s->rr; if (s->type == ZMQ_REQ) s->reqSent = true; if (s->type == ZMQ_REP) s->repTo = nullptr; rt_notify(&key_); }
    return 0;
}
static int recvM(Sock* s, M* x, int fl)
{
    if (!valid(x)) { errno = EFAULT; return -1; }
    if (s->c->term) { errno = ETERM; return -1; }
    if (!canRecv(s->type)) { errno = ENOTSUP; return -1; }
    if (s->rmore) { if (!s->rcur || !s->rcur->head) { errno = EAGAIN; return -1; } closeM(x); s->rmore = pop(s->rcur, x); if (!s->rmore) { ++s->frr; rt_notify(&key_); } return 0; }
    rt_checkpoint();
    if (s->type == ZMQ_REQ && !s->reqSent) { errno = EFSM; return -1; }
    if (s->type == ZMQ_REP && s->repTo) { errno = EFSM; return -1; }
    closeM(x); initE(x);                     // libzmq releases the old content before it looks for a message
    int64_t end = s->rcvtimeo < 0 ? -1 : rt_now() + (int64_t)s->rcvtimeo * 1000000;
    Queue* q;
    while (!(q = pickIn(s))) {
        if (fl & ZMQ_DONTWAIT || s->rcvtimeo == 0) { errno = EAGAIN; return -1; }
        int64_t left = end < 0 ? -1 : end - rt_now();
        if (end >= 0 && left <= 0) { errno = EAGAIN; return -1; }
        bool to = false;
        if (block(s, left, to)) return -1;
        if (s->c->term) { errno = ETERM; return -1; }
        if (to) { errno = EAGAIN; return -1; }
    }
    s->rcur = q; s->rmore = pop(q, x);
    if (s->type == ZMQ_REQ) s->reqSent = false;
    if (s->type == ZMQ_REP) for (Link* l = links; l; l = l->next) if (inQ(l, s) == q) s->repTo = outQ(l, s);
    if (!s->rmore) { ++s->frr; rt_notify(&key_); }
    return 0;
}
static int clip(size_t n) { return n > INT_MAX ? INT_MAX : (int)n; }
int zmq_msg_send(zmq_msg_t* x, void* p, int fl) { if (!p || !S(p)->open) { errno = ENOTSOCK; return -1; } if (!valid(m(x))) { errno = EFAULT; return -1; } size_t n = zmq_msg_size(x); if (sendM(S(p), m(x), fl)) return -1; return clip(n); }
int zmq_msg_recv(zmq_msg_t* x, void* p, int fl) { if (!p || !S(p)->open) { errno = ENOTSOCK; return -1; } if (recvM(S(p), m(x), fl)) return -1; return clip(zmq_msg_size(x)); }
int zmq_send(void* p, const void* d, size_t n, int fl) { zmq_msg_t x; if (zmq_msg_init_size(&x, n)) return -1; if (n) memcpy(zmq_msg_data(&x), d, n); int r = zmq_msg_send(&x, p, fl); if (r < 0) { int e = errno; zmq_msg_close(&x); errno = e; return -1; } return r; }
int zmq_recv(void* p, void* d, size_t n, int fl) { zmq_msg_t x; zmq_msg_init(&x); int r = zmq_msg_recv(&x, p, fl); if (r < 0) { int e = errno; zmq_msg_close(&x); errno = e; return -1; } size_t k = zmq_msg_size(&x); memcpy(d, zmq_msg_data(&x), k < n ? k : n); zmq_msg_close(&x); return r; }
int zmq_poll(zmq_pollitem_t* it, int n, long timeout)
{
    rt_checkpoint();
    int64_t end = timeout < 0 ? -1 : rt_now() + (int64_t)timeout * 1000000;
    while (true) {
        int c = 0;
        for (int i = 0; i < n; ++i) {
            Sock* s = S(it[i].socket); it[i].revents = 0;
            if (!s || !s->open) { errno = ENOTSOCK; return -1; }
            if (s->c->term) { errno = ETERM; return -1; }
            if ((it[i].events & ZMQ_POLLIN) && readyIn(s)) it[i].revents |= ZMQ_POLLIN;
            if ((it[i].events & ZMQ_POLLOUT) && readyOut(s)) it[i].revents |= ZMQ_POLLOUT;
            c += it[i].revents != 0;
        }
        if (c || timeout == 0) return c;
        int64_t left = end < 0 ? -1 : end - rt_now();
        if (end >= 0 && left <= 0) return 0;
        bool to = false;
        if (block(nullptr, left, to)) return -1;
        if (to) timeout = 0;
    }
}
int zmq_socket_monitor(void* p, const char* addr, int)
{
    Sock* s = S(p);
    Sock* mn = S(zmq_socket(s->c, ZMQ_PAIR)); if (!mn) return -1;
    mn->sndhwm = 0;
    if (zmq_bind(mn, addr)) { int e = errno; zmq_close(mn); errno = e; return -1; }
    s->mon = mn; return 0;
}
}
