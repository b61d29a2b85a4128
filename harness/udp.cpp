// UDP over IP and over unix-domain sockets: library sockets and raw sockets exchange datagrams, with unreachable destinations,
// over-limit sends, a peer that goes and comes back, sockets closed and opened again. Every datagram is accounted for.
#include "rig.h"
#include "include/ext/udp.h"
using namespace rig;

#ifdef UDP_UNIX
typedef boost::asio::local::datagram_protocol P;
#define UDP_SOCK st_asio_wrapper::udp::unix_socket_base
static const int WINDOW = 5; static const size_t TOO_BIG = 300000;
#else
typedef boost::asio::ip::udp P;
#define UDP_SOCK st_asio_wrapper::udp::socket_base
static const int WINDOW = 12; static const size_t TOO_BIG = 70000;
#endif
#ifndef UDP_PACKER
#define UDP_PACKER ext::packer<>
#define UDP_UNPACKER ext::udp_unpacker
#endif
typedef P::endpoint EP;
struct Sock; struct Net;

struct Addr {EP ep; S name; bool operator<(const Addr& o) const {return name < o.name;}};
static S key_of(const EP& e) {return S((const char*) e.data(), e.size());}
static S show(const EP& e)
{
#ifdef UDP_UNIX
	S p = e.path(); size_t k = p.rfind('/'); return k == S::npos ? p : p.substr(k + 1);
#else
	return e.address().to_string() + ":" + std::to_string(e.port());
#endif
}
enum Kind {LIB, CONN, RAW, DEAD};
struct UFlow {u32 id; int src, dst; bool ordered, strict, head; std::atomic<u32> next{0}; std::mutex mu; std::set<u32> open; std::atomic<u64> sent{0}, got{0}; long last = -1; std::atomic<bool> may_lose{false}; std::set<u32> told; long told_last = -1;};
struct Node {int i; Kind kind; EP ep; int fd = -1; std::atomic<int> inflight{0}; std::atomic<bool> lib_up{false}; std::mutex mu; std::map<S, int> junk; /* source + bytes */ std::atomic<int> in_cb{0}, closes{0}, errs{0}, recv_errs{0}; std::atomic<u64> got{0}; std::mutex emu; std::map<S, int> bad_out; /* what must be reported as not sent */ std::atomic<u64> junk_left{0}; int partner = -1; std::map<int, UFlow*> reply; std::atomic<int> budget{0};};
struct Net
{
	std::vector<std::unique_ptr<Node> > n; std::vector<std::unique_ptr<UFlow> > f; std::mutex fmu; std::map<S, int> by_addr; std::atomic<unsigned> refuse{0}, us{0};
	UFlow* flow(int s, int d, bool ordered, bool head) {std::lock_guard<std::mutex> l(fmu); f.emplace_back(new UFlow); UFlow& x = *f.back(); x.id = (u32) f.size(); x.src = s; x.dst = d; x.ordered = ordered; x.strict = true; x.head = head; return &x;}
	UFlow* find(u32 id) {std::lock_guard<std::mutex> l(fmu); return id >= 1 && id <= f.size() ? f[id - 1].get() : NULL;}
	// a datagram arrived at node d from address e
	UFlow* arrived(int d, const EP& e, const char* p, size_t len)
	{
		tick(); Node& me = *n[d]; ++me.got; u32 id, seq; size_t h = 0; UFlow* x = NULL;
		for (int t = 0; t < 2 && !x; ++t) {h = t ? ST_ASIO_HEAD_LEN : 0; if (len > h && !parse(p + h, len - h, id, seq)) {x = find(id); if (x && x->head != (1 == t)) x = NULL;}}
		auto it = by_addr.find(key_of(e)); int s = it == by_addr.end() ? -1 : it->second; S from = show(e);
		if (!x || (x->head && packed(S(p + h, len - h)) != S(p, len)))
		{
			S k = key_of(e) + "|" + S(p, len); std::lock_guard<std::mutex> l(me.mu); auto j = me.junk.find(k);
			if (j == me.junk.end() || 0 == j->second) {vh::violation("invented", fmt("%s received %zu bytes from %s which nobody sent so: ", show(me.ep).c_str(), len, from.c_str()) + vh::hex(S(p, len), 24)); return NULL;}
			--j->second; --me.inflight; --me.junk_left; vh::count("foreign_datagrams"); return NULL;
		}
		if (x->dst != d) {vh::violation("wrong-peer", fmt("a datagram for %s arrived at %s", show(n[x->dst]->ep).c_str(), show(me.ep).c_str())); return NULL;}
		if (s != x->src) {vh::violation("wrong-sender", fmt("a datagram of %s was received at %s with the address %s", show(n[x->src]->ep).c_str(), show(me.ep).c_str(), from.c_str())); return NULL;}
		{
			std::lock_guard<std::mutex> l(x->mu);
			if (0 == x->open.erase(seq)) vh::violation("duplicate", fmt("datagram %u from %s to %s was delivered again, or was never sent", seq, from.c_str(), show(me.ep).c_str()));
			if (x->ordered) {if ((long) seq <= x->last || (!x->may_lose && (long) seq != x->last + 1)) vh::violation("order", fmt("datagram %u from %s to %s was delivered after %ld", seq, from.c_str(), show(me.ep).c_str(), x->last)); x->last = seq;}
			++x->got;
		}
		if (!x->may_lose) --me.inflight; return x;
	}
	S missing() {S s; for (auto& x : f) if (!x->may_lose && x->got < x->sent) s += fmt("%llu of %llu from %s to %s (%s); ", x->got.load(), x->sent.load(), show(n[x->src]->ep).c_str(), show(n[x->dst]->ep).c_str(), x->ordered ? "in order" : "any order"); for (auto& x : n) if (x->junk_left > 0) s += fmt("%llu foreign ones to %s; ", x->junk_left.load(), show(x->ep).c_str()); return s;}
	bool all() {for (auto& x : f) if (!x->may_lose && x->got < x->sent) return false; for (auto& x : n) if (x->junk_left > 0) return false; return true;}
};
static std::shared_ptr<Net>& net() {static std::shared_ptr<Net> p; return p;}

typedef UDP_SOCK<UDP_PACKER, UDP_UNPACKER > base;
struct Sock : base
{
	Sock(boost::asio::io_context& c) : base(c), node(-1) {} Sock(i_matrix& m) : base(m), node(-1) {}
	std::atomic<int> node; std::shared_ptr<Net> keep;
	Node* me() {int i = node; return i < 0 ? NULL : keep->n[i].get();}
	void connect_to(const EP& l, const EP& p, bool c)
	{
#ifdef UDP_UNIX
		set_local_addr(l.path()); if (c) {set_peer_addr(p.path()); set_connect_mode();}
#else
		set_local_addr(l.port(), l.address().to_string()); if (c) {set_peer_addr(p.port(), p.address().to_string()); set_connect_mode();}
#endif
	}
	void take(out_msg_type& m)
	{
		Node* x = me(); if (!x) return;
		if (x->in_cb.fetch_add(1) > 0) vh::violation("overlap", "messages of one socket are handled concurrently"); if (!x->lib_up) vh::violation("after-close", show(x->ep) + ": a message is handled after the close notification");
		UFlow* f = keep->arrived(x->i, m.peer_addr, m.data(), m.size()); if (keep->us) usleep(vh::prnd() % keep->us);
		if (f) {auto it = x->reply.find(f->src); if (it != x->reply.end() && x->budget.fetch_sub(1) > 0) send_flow(*it->second, MIN_BODY + vh::prnd() % 100, 0, true, m.peer_addr);}
		--x->in_cb;
	}
	// sends the next datagram of a flow
	bool send_flow(UFlow& f, size_t len, unsigned how, bool over, const EP& to)
	{
		std::unique_lock<std::mutex> l(f.mu); u32 seq = f.next++; S b = body(f.id, seq, len); f.open.insert(seq); ++f.sent; if (!f.may_lose) ++keep->n[f.dst]->inflight; l.unlock();
		bool ok; Node* x = me(); bool prior = !f.ordered;
		const char* ps[3] = {b.data(), b.data() + b.size() / 3, b.data() + b.size() / 2}; size_t ls[3] = {b.size() / 3, b.size() / 2 - b.size() / 3, b.size() - b.size() / 2};
		bool implicit = CONN == x->kind && (how & 1); how >>= 1;
		if (f.head)
			switch (how % 4)
			{
			case 0: ok = implicit ? send_msg(b.data(), b.size(), over, prior) : send_msg(to, b.data(), b.size(), over, prior); break;
			case 1: ok = implicit ? send_msg(ps, ls, 3, over, prior) : send_msg(to, ps, ls, 3, over, prior); break;
			case 2: ok = implicit ? send_msg(b, over, prior) : send_msg(to, b, over, prior); break;
			default: ok = implicit ? safe_send_msg(b, over, prior) : safe_send_msg(to, b.data(), b.size(), over, prior);
			}
		else
			switch (how % 5)
			{
			case 0: ok = implicit ? send_native_msg(b.data(), b.size(), over, prior) : send_native_msg(to, b.data(), b.size(), over, prior); break;
			case 1: ok = implicit ? send_native_msg(ps, ls, 3, over, prior) : send_native_msg(to, ps, ls, 3, over, prior); break;
			case 2: ok = implicit ? safe_send_native_msg(b, over, prior) : safe_send_native_msg(to, b, over, prior); break;
			case 3: {in_msg_type m(to); rig::mk(m, b); ok = direct_send_msg(m, over, prior); break;}
			default: {list<in_msg_type> c; c.emplace_back(to); rig::mk(c.back(), b); ok = direct_send_msg(c, over, prior);}
			}
		if (!ok) {l.lock(); f.open.erase(seq); --f.sent; if (!f.may_lose) --keep->n[f.dst]->inflight; if (f.next == seq + 1) f.next = seq; else f.may_lose = true; l.unlock(); if (over) vh::violation("refused", "a send with overflow allowed was refused");}
		return ok;
	}
	void send_bad(const EP& to, const S& b) {Node* x = me(); {std::lock_guard<std::mutex> l(x->emu); ++x->bad_out[b];} in_msg_type m(to); rig::mk(m, b); direct_send_msg(m, true);}
	u64 sends_seen() {return 0;}
protected:
	virtual bool do_start() {Node* x = me(); if (x) x->lib_up = true; return base::do_start();}
	virtual void on_close() {Node* x = me(); if (x) {if (x->in_cb > 0) vh::violation("overlap-close", "a handler runs during the close notification"); if (!x->lib_up) vh::violation("closed-twice", "two close notifications"); x->lib_up = false; ++x->closes;} base::on_close(); tick();}
	virtual void on_recv_error(const boost::system::error_code& ec) {Node* x = me(); if (x) ++x->recv_errs; base::on_recv_error(ec);}
	virtual void on_send_error(const boost::system::error_code& ec, in_msg& m)
	{
		Node* x = me(); tick(); if (!x) return; ++x->errs; S b(m.data(), m.size()); u32 id, seq; size_t h = ST_ASIO_HEAD_LEN;
		{std::lock_guard<std::mutex> l(x->emu); auto it = x->bad_out.find(b); if (it != x->bad_out.end() && it->second > 0) {--it->second; vh::count("send_errors"); return;}}
		if (parse(b.data(), b.size(), id, seq) && (b.size() <= h || parse(b.data() + h, b.size() - h, id, seq))) {vh::violation("error-content", "a message nobody sent was reported as not sent: " + vh::hex(b, 24)); return;}
		UFlow* f = keep->find(id); if (!f || f->src != x->i) {vh::violation("error-content", "another socket's message was reported as not sent"); return;}
		if (!f->may_lose) vh::violation("send-failed", fmt("a datagram from %s to %s could not be sent: ", show(x->ep).c_str(), show(keep->n[f->dst]->ep).c_str()) + ec.message());
		std::lock_guard<std::mutex> l(f->mu); f->open.erase(seq); vh::count("send_errors");
	}
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	virtual void on_msg_send(in_msg_type& m)
	{
		S b(m.data(), m.size()); u32 id, seq; size_t h = ST_ASIO_HEAD_LEN; Node* x = me(); if (!x) return; UFlow* f = NULL; if (!parse(b.data(), b.size(), id, seq) || (b.size() > h && !parse(b.data() + h, b.size() - h, id, seq))) f = keep->find(id);
		if (!f) {if (b.size() > 100) vh::violation("notified", "a message nobody sent was reported as sent: " + vh::hex(b, 24)); return;} if (f->src != x->i) vh::violation("notified", "another socket's message was reported as sent"); vh::count("sent_notifications");
		std::lock_guard<std::mutex> l(f->mu); if (!f->told.insert(seq).second) vh::violation("notified", "a message was reported as sent twice"); if (f->ordered) {if ((long) seq <= f->told_last) vh::violation("notified", "messages were reported as sent out of order"); f->told_last = seq;}
	}
#endif
#ifdef ST_ASIO_SYNC_DISPATCH
	virtual size_t on_msg(list<out_msg_type>& can) {size_t n = 0; while (!can.empty()) {take(can.front()); can.pop_front(); ++n;} return n + 1;}
#endif
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	virtual size_t on_msg_handle(out_queue_type& q) {if (keep && keep->refuse && 0 == vh::prnd() % keep->refuse) return 0; size_t n = 0; out_msg m; while (n < 3 && q.try_dequeue(m)) {take(m); m.clear(); ++n;} return n;}
#else
#ifdef ST_ASIO_PASSIVE_RECV
	virtual bool on_msg_handle(out_msg_type& m) {if (keep && keep->refuse && 0 == vh::prnd() % keep->refuse) return false; if (m.empty()) vh::count("empty_messages"); else take(m); this->recv_msg(); return true;}
#else
	virtual bool on_msg_handle(out_msg_type& m) {if (keep && keep->refuse && 0 == vh::prnd() % keep->refuse) return false; take(m); return true;}
#endif
#endif
};
struct Matrix : udp::multi_socket_service_base<Sock> {typedef udp::multi_socket_service_base<Sock> super; Matrix(service_pump& sp) : super(sp) {} using super::add_object; using super::init_object;};

static int raw_open(const EP& e)
{
#ifdef UDP_UNIX
	::unlink(e.path().c_str()); int fd = ::socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0);
#else
	int fd = ::socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0); int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
#endif
	struct timeval tv = {0, 20000}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
	if (::bind(fd, (const struct sockaddr*) e.data(), (socklen_t) e.size())) {::close(fd); return -1;} return fd;
}
static bool raw_send(Net& w, UFlow& f, size_t len, int how)
{
	std::unique_lock<std::mutex> l(f.mu); u32 seq = f.next++; S b = body(f.id, seq, len); if (f.head) b = packed(b); f.open.insert(seq); ++f.sent; if (!f.may_lose) ++w.n[f.dst]->inflight; l.unlock(); (void) how;
	const EP& e = w.n[f.dst]->ep; ssize_t k; do k = ::sendto(w.n[f.src]->fd, b.data(), b.size(), 0, (const struct sockaddr*) e.data(), (socklen_t) e.size()); while (k < 0 && (ECONNREFUSED == errno || EINTR == errno));
	if (k != (ssize_t) b.size() && !f.may_lose) {vh::inconclusive(fmt("a raw socket cannot send: %s", strerror(errno)));} return true;
}

static void one_case(Rng& r)
{
	S desc = vh::pert_random(r); vh::pert().short_read = 0; std::shared_ptr<Net> w = std::make_shared<Net>(); net() = w; u64 h = vh::hash_str(desc); static int serial = 0; ++serial;
	char dir[64] = ""; int nlib = (int) r.range(1, 4), nraw = (int) r.range(1, 3), nconn = (int) r.below(3), ndead = (int) r.range(1, 2);
#ifdef UDP_UNIX
	snprintf(dir, sizeof dir, "/tmp/vh-udp.%d.XXXXXX", getpid()); if (!mkdtemp(dir)) {vh::inconclusive("no scratch directory"); return;}
#endif
	auto add = [&](Kind k) {Node* x = new Node; x->i = (int) w->n.size(); x->kind = k;
#ifdef UDP_UNIX
		x->ep = EP(S(dir) + "/" + "LCRD"[k] + std::to_string(x->i));
#else
		int p = getpid(); x->ep = EP(boost::asio::ip::address_v4(0x7f000000u | (unsigned) (1 + p / 62500 % 100) << 16 | (unsigned) (p / 250 % 250 + 1) << 8 | (unsigned) (p % 250 + 1)), (unsigned short) (10000 + (serial * 40 + x->i) % 20000));
#endif
		w->n.emplace_back(x); w->by_addr[key_of(x->ep)] = x->i; return x->i;};
	for (int i = 0; i < nlib; ++i) add(LIB); for (int i = 0; i < nraw; ++i) add(RAW); for (int i = 0; i < nconn; ++i) {int c = add(CONN), p = r.chance(1, 2) ? add(RAW) : (int) r.below(nlib); w->n[c]->partner = p;} for (int i = 0; i < ndead; ++i) add(DEAD);
	int total = (int) w->n.size(); if (r.chance(1, 2)) w->refuse = (unsigned) r.range(2, 8); if (r.chance(1, 3)) w->us = (unsigned) r.range(1, 80);
	int ctxs = r.chance(1, 3) ? 2 : 1, threads = (int) r.range(ctxs, 4), phases = (int) r.range(1, 3); size_t rbuf = r.chance(1, 2) ? (size_t) r.range(100, 5000) : 0, sbuf = r.chance(1, 2) ? (size_t) r.range(100, 5000) : 0; u64 datagrams = 0, down_datagrams = 0, reopened = 0;
	{
		service_pump sp; if (ctxs > 1) sp.set_io_context_num(ctxs); Matrix service(sp); std::map<int, boost::shared_ptr<Sock> > so; std::atomic<bool> halt(false); std::vector<std::thread> readers;
		auto open = [&](int i) {Node& x = *w->n[i]; boost::shared_ptr<Sock> s = service.create_object(); s->keep = w; s->node = i; x.closes = 0; s->connect_to(x.ep, CONN == x.kind ? w->n[x.partner]->ep : EP(), CONN == x.kind); if (rbuf) s->recv_buf_size(rbuf); if (sbuf) s->send_buf_size(sbuf); s->msg_resuming_interval((unsigned) r.range(1, 10)); s->msg_handling_interval((unsigned) r.range(1, 10)); so[i] = s; return service.add_socket(s);};
		auto reader = [&](int i) {int fd = w->n[i]->fd; readers.emplace_back([&, i, fd]() {
			std::vector<char> b(70000); Rng q(i * 77 + vh::g().case_seed); while (!halt && w->n[i]->fd == fd)
			{
				struct sockaddr_storage a; socklen_t l = sizeof a; ssize_t k = ::recvfrom(fd, b.data(), b.size(), 0, (struct sockaddr*) &a, &l); if (k < 0) continue; EP e; e.resize(l); memcpy(e.data(), &a, l);
				if (0 == k) {vh::violation("invented", "an empty datagram was sent"); continue;} UFlow* f = w->arrived(i, e, b.data(), (size_t) k);
				if (f) {auto it = w->n[i]->reply.find(f->src); if (it != w->n[i]->reply.end() && w->n[i]->budget.fetch_sub(1) > 0) raw_send(*w, *it->second, MIN_BODY + q.below(100), 0);}
			}});};
		for (auto& x : w->n) if (RAW == x->kind) {x->fd = raw_open(x->ep); if (x->fd < 0) {vh::inconclusive("cannot open a raw socket"); return;} reader(x->i);}
		bool early = r.chance(1, 2); if (early) for (auto& x : w->n) if (LIB == x->kind) open(x->i); // before the service is started
		sp.start_service(threads); if (!early) for (auto& x : w->n) if (LIB == x->kind) open(x->i); for (auto& x : w->n) if (CONN == x->kind) open(x->i);
		std::atomic<unsigned> rr(0); auto post = [&](std::function<void()> f) {auto it = so.begin(); std::advance(it, ++rr % so.size()); boost::asio::post(it->second->lowest_layer().get_executor(), f);};
		auto ready = [&]() {for (auto& x : so) if (!x.second->is_ready() || (CONN == w->n[x.first]->kind && !x.second->connected())) return false; return true;};
		vh::await(ready, post, "not-ready", []() {return S("sockets do not start");});
		auto reachable = [&](int s, int d) {const Node &a = *w->n[s], &b = *w->n[d]; if (s == d || DEAD == a.kind || DEAD == b.kind) return false; if (CONN == a.kind && a.partner != d) return false; if (CONN == b.kind && b.partner != s) return false; return true;};
		auto phase = [&](int n) {
			std::vector<std::function<void()> > jobs; std::vector<std::pair<int, int> > ways; for (int s = 0; s < total; ++s) for (int d = 0; d < total; ++d) if (reachable(s, d)) ways.push_back(std::make_pair(s, d)); if (ways.empty()) return;
			for (auto& x : w->n) {x->reply.clear(); x->budget = 0;}
			if (r.chance(1, 2)) for (auto& y : ways) if (r.chance(1, 2)) {Node& x = *w->n[y.first]; x.reply[y.second] = w->flow(y.first, y.second, true, LIB != x.kind || r.chance(1, 2)); x.budget = (int) r.below(40);}
			int nf = (int) r.range(1, 6); u64 sd = r.next();
			for (int k = 0; k < nf; ++k)
			{
				auto y = r.pick(ways); UFlow* f = w->flow(y.first, y.second, RAW == w->n[y.first]->kind || r.chance(3, 4), r.chance(1, 2)); size_t typical = r.chance(1, 2) ? 60 : 1000; u64 seed = vh::mix(sd + k); int fixed = r.chance(1, 3) ? (int) r.below(16) : -1; bool over = r.chance(1, 3);
				jobs.push_back([&, f, n, typical, seed, fixed, over]() {
					Rng q(seed); Node& dst = *w->n[f->dst]; bool lib = RAW != w->n[f->src]->kind; double stuck = vh::now();
					for (int i = 0; i < n && !vh::failed();)
					{
						if (dst.inflight >= WINDOW) {usleep(100); if (vh::now() - stuck > 20) return; continue;} stuck = vh::now();
						size_t len = q.chance(1, 10) ? ST_ASIO_MSG_BUFFER_SIZE - (f->head ? ST_ASIO_HEAD_LEN : 0) - q.below(3) : MIN_BODY + q.below(typical);
						if (!lib) raw_send(*w, *f, len, 0), ++i; else if (so[f->src]->send_flow(*f, len, fixed >= 0 ? (unsigned) fixed : (unsigned) q.next(), over, dst.ep)) ++i; else usleep(200);
					}});
			}
			// datagrams nobody can parse, empty ones
			jobs.push_back([&, n, sd]() {Rng q(sd ^ 99); for (int i = 0; i < n / 2 && !vh::failed(); ++i)
				{
					const auto& y = ways[q.below(ways.size())]; Node &s = *w->n[y.first], &d = *w->n[y.second]; if (RAW != s.kind || d.inflight >= WINDOW) {usleep(200); continue;}
					if (q.chance(1, 5) && RAW != d.kind) {::sendto(s.fd, "", 0, 0, (const struct sockaddr*) d.ep.data(), (socklen_t) d.ep.size()); vh::count("empty_datagrams"); continue;}
					S b = q.bytes(1 + q.below(q.chance(1, 5) ? 2000 : 13)); {std::lock_guard<std::mutex> l(d.mu); ++d.junk[key_of(s.ep) + "|" + b]; ++d.inflight; ++d.junk_left;}
					ssize_t k; do k = ::sendto(s.fd, b.data(), b.size(), 0, (const struct sockaddr*) d.ep.data(), (socklen_t) d.ep.size()); while (k < 0 && ECONNREFUSED == errno); if (k < 0) vh::inconclusive("a raw socket cannot send");
				}});
			// destinations which do not exist, messages which are too big
			jobs.push_back([&, n, sd]() {Rng q(sd ^ 98); for (int i = 0; i < n / 4 && !vh::failed(); ++i)
				{
					auto it = so.begin(); std::advance(it, q.below(so.size())); Sock& s = *it->second; Node& x = *w->n[it->first]; usleep((unsigned) q.below(300)); if (CONN == x.kind) continue; const EP* dead = NULL; for (auto& y : w->n) if (DEAD == y->kind) dead = &y->ep;
					switch (q.below(4))
					{
#ifdef UDP_UNIX
					case 0: s.send_bad(*dead, q.bytes(1 + q.below(100))); break; // the kernel says so at once
#else
					case 0: {S b = q.bytes(1 + q.below(100)); s.send_native_msg(*dead, b, true); vh::count("to_nowhere"); break;}
#endif
					case 1: s.send_bad(w->n[q.below(w->n.size())]->ep, S(TOO_BIG, 'x')); break;
					case 2: {S b(ST_ASIO_MSG_BUFFER_SIZE + 1 + q.below(3000), 'y'); s.send_native_msg(w->n[0]->ep, b, true); vh::count("over_limit"); break;} // arrives nowhere
					default: {S b(ST_ASIO_MSG_BUFFER_SIZE - ST_ASIO_HEAD_LEN + 1 + q.below(20), 'z'); s.send_msg(w->n[0]->ep, b, true); vh::count("over_limit"); break;}
					}
				}});
			std::vector<std::thread> th; for (auto& j : jobs) th.emplace_back(j); std::atomic<bool> joined(false); std::thread jn([&]() {for (auto& t : th) t.join(); joined = true;});
			vh::await([&]() {return joined || vh::failed();}, post, "stuck", [&]() {return "senders cannot go on, missing: " + w->missing() + desc;}); jn.join();
			if (!vh::failed()) vh::await([&]() {return w->all();}, post, "lost", [&]() {return "datagrams do not arrive: " + w->missing() + desc;});
			if (!vh::failed()) vh::await([&]() {for (auto& x : w->n) {std::lock_guard<std::mutex> l(x->emu); for (auto& b : x->bad_out) if (b.second > 0) return false;} return true;}, post, "no-error", [&]() {return "no error was reported for messages which cannot be sent; " + desc;});
		};
		for (int p = 0; p < phases && !vh::failed(); ++p)
		{
			phase((int) r.range(10, 60)); if (vh::failed()) break; h = vh::mix(h + p); usleep(r.chance(1, 3) ? 3000 : 0);
			if (p + 1 == phases) break;
			// between the phases: a raw peer goes and comes back, a library socket is closed and replaced, the whole service is stopped and started
			for (auto& x : w->n) {x->reply.clear(); x->budget = 0;}
			switch (r.below(3))
			{
			case 0:
				{
					int i = -1; for (auto& x : w->n) if (RAW == x->kind && (i < 0 || r.chance(1, 2))) i = x->i; Node& x = *w->n[i];
#ifdef UDP_UNIX
					bool has = false; for (auto& y : w->n) if (CONN == y->kind && y->partner == i) has = true; if (has) break; // connected unix-domain sockets stay connected to the old file
#endif
					int fd = x.fd; x.fd = -1; for (auto& t : readers) (void) t; usleep(45000); ::close(fd);
#ifdef UDP_UNIX
					::unlink(x.ep.path().c_str());
#endif
					for (auto& y : so) if (reachable(y.first, i)) {UFlow* f = w->flow(y.first, i, true, false); f->may_lose = true; int n = (int) r.range(1, 6); for (int k = 0; k < n; ++k) {y.second->send_flow(*f, MIN_BODY + r.below(50), (unsigned) r.below(4) & ~1u, true, x.ep); ++down_datagrams; if (r.chance(1, 2)) usleep((unsigned) r.below(1000));}}
					// everything sent to it has left before it comes back, so nothing of it may arrive then
					vh::await([&]() {for (auto& y : so) if (y.second->is_sending() || !y.second->is_send_buffer_available()) return false; return true;}, post, "stuck", [&]() {return "datagrams to a vanished peer are not sent; " + desc;}); usleep(2000);
					x.fd = raw_open(x.ep); if (x.fd < 0) {vh::inconclusive("cannot open a raw socket again"); break;} reader(i); ++reopened; break;
				}
			case 1:
				{
					auto it = so.begin(); std::advance(it, r.below(so.size())); int i = it->first; Node& x = *w->n[i]; boost::shared_ptr<Sock> s = it->second; int how = (int) r.below(3); int was = x.closes;
					if (0 == how) s->force_shutdown(); else if (1 == how) service.force_shutdown(s); else s->graceful_shutdown();
					boost::asio::io_context* any = NULL; (void) any; vh::await([&]() {return x.closes > was;}, post, "not-closed", [&]() {return "a socket that was shut down gets no close notification; " + desc;}); if (vh::failed()) break;
					if (x.closes != was + 1) vh::violation("closed-twice", "two close notifications");
					s.reset(); so.erase(i);
#ifdef UDP_UNIX
					::unlink(x.ep.path().c_str());
#endif
					open(i); ++reopened; vh::await(ready, post, "not-ready", []() {return S("a socket opened again does not start");}); break;
				}
			default:
				{
					bool con = false; sp.stop_service(); for (auto& x : so) {Node& y = *w->n[x.first]; if (y.lib_up || 1 != y.closes) vh::violation("not-closed", fmt("%d close notifications of a socket after the service stopped", y.closes.load())); (void) con;}
					so.clear();
#ifdef UDP_UNIX
					for (auto& x : w->n) if (LIB == x->kind || CONN == x->kind) ::unlink(x->ep.path().c_str());
#endif
					sp.start_service(threads); for (auto& x : w->n) if (LIB == x->kind) open(x->i); for (auto& x : w->n) if (CONN == x->kind) open(x->i); ++reopened; vh::await(ready, post, "not-ready", []() {return S("sockets do not start again");});
				}
			}
			// a connected unix-domain socket stays connected to the old socket file of its partner: it is opened again too
#ifdef UDP_UNIX
			for (auto& x : w->n) if (CONN == x->kind && so.count(x->i) && !vh::failed())
			{
				Node& y = *x; int was = y.closes; boost::shared_ptr<Sock> s = so[y.i]; so.erase(y.i); s->force_shutdown(); if (!so.empty()) vh::await([&]() {return y.closes > was;}, post, "not-closed"); else vh::wait_for([&]() {return y.closes > was;}, 20); s.reset(); ::unlink(y.ep.path().c_str()); open(y.i); vh::await(ready, post, "not-ready");
			}
#endif
		}
		// what was not to arrive may still be on its way
		if (!vh::failed()) usleep(2000);
		sp.stop_service(); halt = true; for (auto& t : readers) t.join(); so.clear(); for (auto& x : w->n) if (x->fd >= 0) ::close(x->fd);
		for (auto& f : w->f) datagrams += f->got;
	}
#ifdef UDP_UNIX
	for (auto& x : w->n) ::unlink(x->ep.path().c_str()); ::rmdir(dir);
#endif
	vh::pert_off(); net().reset(); vh::count("datagrams", datagrams); vh::count("while_peer_away", down_datagrams); vh::count("opened_again", reopened);
	vh::distinct(vh::mix(h) + total * 131 + phases); if (vh::want_sample()) vh::sample(fmt("%d library, %d raw, %d connected sockets, %d phases, %llu datagrams, ", nlib, nraw, nconn, phases, datagrams) + desc);
}
int main(int argc, char** argv) {vh::g().rule = "a case is one network of sockets and sequence of phases, distinct by sizes, phases and schedule perturbation"; return vh::main(argc, argv, one_case, 150);}
