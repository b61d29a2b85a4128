// Passive receiving: every read the socket starts is set against the requests for one, and every byte the peer wrote against
// what the handlers got from the unpacker installed at that time.
#ifndef ST_ASIO_PASSIVE_RECV
#define ST_ASIO_PASSIVE_RECV
#endif
#include <fcntl.h>
#include "raws.h"
using namespace rig;

static int dial(unsigned short port, unsigned& local)
{
	int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (0 != ::connect(fd, (struct sockaddr*) &a, sizeof a)) {::close(fd); return -1;}
	socklen_t n = sizeof a; getsockname(fd, (struct sockaddr*) &a, &n); local = ntohs(a.sin_port); fcntl(fd, F_SETFL, O_NONBLOCK); return fd;
}
enum Kind {K_LEN, K_FLEX, K_PS, K_STREAM, K_N};
static const char* kind_name[] = {"length", "flexible", "prefix-suffix", "stream"};
struct Phase {int kind; std::vector<S> msgs; S wire, all;};
// what is known about the reads of the link
struct Reads
{
	std::atomic<long> allowed, reads, parses, parsed; std::atomic<int> outstanding, current; std::atomic<bool> over; S what;
	Reads() : allowed(0), reads(0), parses(0), parsed(0), outstanding(0), current(0), over(false) {}
};
template<typename U> class watched : public U
{
public:
	watched(Reads& r_, int index_) : r(r_), index(index_) {}
	virtual typename U::buffer_type prepare_next_recv()
	{
		long n = ++r.reads, a = r.allowed; tick();
		if (!r.over)
		{
			if (n > a) bad("C26", "unrequested-read", fmt("read %ld starts, but only %ld were requested (the automatic one included); ", n, a) + r.what);
			if (r.outstanding.exchange(1)) bad("C26", "second-read", "a read starts while another one is outstanding; " + r.what);
			if (index != r.current) bad("C26", "old-unpacker", fmt("a read starts with unpacker %d, %d is installed; ", index, (int) r.current) + r.what);
		}
		return U::prepare_next_recv();
	}
	virtual bool parse_msg(size_t n, typename U::container_type& can)
	{
		if (!r.over && !r.outstanding.exchange(0)) bad("C26", "unknown-read", "data are parsed, but no read was outstanding; " + r.what);
		if (!r.over && index != r.current) bad("C26", "old-unpacker", fmt("data are parsed by unpacker %d, %d is installed; ", index, (int) r.current) + r.what);
		size_t before = can.size(); bool re = U::parse_msg(n, can); r.parsed += can.size() - before; ++r.parses; tick(); vh::count("reads");  if (can.size() == before) vh::count("reads_without_message");
		if (!re && !r.over) bad("C26", "unpack-error", fmt("unpacker %d rejects the stream; ", index) + r.what); // a byte was lost, duplicated or went to another one
		return re;
	}
private:
	Reads& r; int index;
};
typedef boost::shared_ptr<i_unpacker<std::string> > upk;
static upk make(int kind, Reads& r, int index)
{
	switch (kind)
	{
	case K_FLEX: return upk(new watched<ext::flexible_unpacker<std::string> >(r, index));
	case K_PS: {boost::shared_ptr<watched<ext::prefix_suffix_unpacker> > u(new watched<ext::prefix_suffix_unpacker>(r, index)); u->prefix_suffix("\x02#", "\r\n"); return u;}
	case K_STREAM: return upk(new watched<ext::stream_unpacker>(r, index));
	default: return upk(new watched<ext::unpacker<> >(r, index));
	}
}
static Phase phase(Rng& r, int index, int kind, int n)
{
	Phase p; p.kind = kind; bool beats = K_STREAM != kind && K_PS != kind && r.chance(1, 2); size_t cap = r.chance(1, 3) ? 3000 : r.chance(1, 2) ? 300 : 24;
	for (int i = 0; i < n; ++i)
	{
		S b = fmt("%d.%d:", index, i); size_t len = (size_t) r.range(0, (long) cap); for (size_t k = 0; k < len; ++k) b += (char) ('a' + r.below(26));
		if (beats && r.chance(1, 5)) {S h; ext::packer<> k; std::string m; k.pack_heartbeat(m); h = m; p.wire += h; vh::count("heartbeats");}
		std::string m; const char* pp = b.data(); size_t ll = b.size();
		switch (kind)
		{
		case K_LEN: case K_FLEX: {ext::packer<> k; k.pack_msg(m, &pp, &ll, 1); break;}
		case K_PS: m = "\x02#" + b + "\r\n"; break;
		default: m = b; break;
		}
		p.wire += m; p.msgs.push_back(b); p.all += b;
	}
	return p;
}

enum Mode {M_INLINE, M_THREAD, M_POST, M_EAGER, M_SPAM, M_N}; // who requests the next read
static const char* mode_name[] = {"in the handler", "another thread", "posted", "another thread, as soon as parsed", "everybody, greedily"};
struct Test
{
	std::vector<Phase> ph; Reads rd; Mode mode; std::atomic<int> cur; std::atomic<size_t> handled, handled_msgs; std::atomic<long> requests, empties; std::mutex mu; bool hold, owed; std::atomic<bool> want, finished; std::function<void()> ask, post_ask; std::function<void(upk)> install;
	Test() : mode(M_INLINE), cur(0), handled(0), handled_msgs(0), requests(0), empties(0), hold(false), owed(false), want(false), finished(false) {}
	void request() {++requests; ++rd.allowed; ask();}
	void chance()
	{
		if (M_SPAM == mode) {if (vh::prnd() % 2) request(); return;}
		if (M_EAGER == mode) return;
		if ((long) handled_msgs < rd.parsed) return; // the messages of this read are not all handled yet
		{std::lock_guard<std::mutex> l(mu); if (hold) {owed = true; return;}}
		next();
	}
	void next() {if (M_INLINE == mode) request(); else if (M_POST == mode) post_ask(); else want = true;}
	bool body(const S& b)
	{
		if (b.empty()) {++empties; vh::count("empty_messages"); chance(); return true;}
		++handled_msgs; vh::count("messages"); int c = cur; if (c >= (int) ph.size()) {bad("C26", "invented", "a message beyond the end of the stream: " + vh::hex(b, 40) + "; " + rd.what); return true;}
		Phase& p = ph[c]; bool end;
		if (K_STREAM == p.kind)
		{
			size_t at = handled; if (at + b.size() > p.all.size() || 0 != p.all.compare(at, b.size(), b)) {bad("C26", "stream", fmt("phase %d: %zu bytes at offset %zu are not the ones sent; ", c, b.size(), at) + rd.what); return true;}
			handled += b.size(); end = handled >= p.all.size();
		}
		else
		{
			size_t at = handled; if (at >= p.msgs.size() || p.msgs[at] != b) {bad("C26", "content", fmt("phase %d (%s): message %zu is not the one sent: ", c, kind_name[p.kind], at) + vh::hex(b, 40) + "; " + rd.what); return true;}
			end = ++handled >= p.msgs.size();
		}
		if (end)
		{
			if (c + 1 < (int) ph.size()) {handled = 0; rd.current = c + 1; install(make(ph[c + 1].kind, rd, c + 1)); vh::count("unpackers_changed"); cur = c + 1;}
			else {finished = true; ++cur;}
			tick();
		}
		chance(); return true;
	}
};

template<typename Sock> static void run(boost::shared_ptr<Sock> s, Test& t, Rng& r, RawServer& raw, vh::poster post)
{
	auto st = [&]() {boost::system::error_code ec; return t.rd.what + fmt("; phase %d of %zu, %zu of it handled; %ld reads started, %ld parsed, %ld allowed, reading %d, %zu messages handled of %ld, %ld empty ones, unread %zu, pending %zu, want %d, owed %d", (int) t.cur, t.ph.size(), (size_t) t.handled, (long) t.rd.reads, (long) t.rd.parses, (long) t.rd.allowed, s->is_reading(), (size_t) t.handled_msgs, (long) t.rd.parsed, (long) t.empties, (size_t) s->lowest_layer().available(ec), (size_t) s->get_pending_recv_msg_size(), (int) t.want, t.owed);};
	vh::g().on_hang = st; std::atomic<bool> quit(false); std::vector<std::thread> ts; u64 sd = r.next();
	ts.emplace_back([&]() { // the peer: writes one phase after the other, each only when the one before was handled
		Rng q(sd); int done = -1; size_t at = 0; bool slow = q.chance(1, 3);
		while (!quit)
		{
			int c = t.cur; if (c >= (int) t.ph.size()) break;
			if (c != done) {done = c; at = 0;}
			const S& w = t.ph[c].wire; size_t k = q.chance(1, 8) ? w.size() - at : std::min(w.size() - at, (size_t) q.range(1, q.chance(1, 3) ? 5000 : 40));
			if (k > 0) {std::lock_guard<std::mutex> l(raw.mu); raw.conns.back()->out += w.substr(at, k); at += k;}
			usleep((unsigned) q.below(slow ? 1500 : 200));
		}});
	if (M_THREAD == t.mode) ts.emplace_back([&, sd]() {Rng q(sd + 1); while (!quit) {if (t.want.exchange(false)) {if (q.chance(1, 4)) usleep((unsigned) q.below(500)); t.request();} else usleep(20);}});
	if (M_EAGER == t.mode) ts.emplace_back([&, sd]() {Rng q(sd + 2); long seen = 0; while (!quit) {long n = t.rd.parses; if (n != seen) {seen = n; if (q.chance(1, 6)) usleep((unsigned) q.below(300)); t.request();} else if (q.chance(1, 64)) usleep(10); else boost::this_thread::yield();}});
	if (M_SPAM == t.mode) for (int i = 0; i < 2; ++i) ts.emplace_back([&, sd, i]() {Rng q(sd + 3 + i); while (!quit) {t.request(); usleep((unsigned) q.below(q.chance(1, 5) ? 2000 : 60));}});
	if (t.mode < M_EAGER) ts.emplace_back([&, sd]() { // sometimes nobody asks for a while: no read may happen then
		Rng q(sd + 9); bool lazy = q.chance(1, 3);
		while (!quit)
		{
			usleep((unsigned) q.below(lazy ? 3000 : 30000)); if (quit) break; {std::lock_guard<std::mutex> l(t.mu); t.hold = true;} usleep((unsigned) q.below(q.chance(1, 4) ? 20000 : 2000)); bool o;
			{std::lock_guard<std::mutex> l(t.mu); t.hold = false; o = t.owed; t.owed = false;} if (o) {vh::count("held_back"); t.request();}
		}});
#ifdef ST_ASIO_SYNC_RECV
	if (M_SPAM != t.mode) t.request(); // there is no automatic one
#endif
	auto settled = [&]() {long p = t.rd.parses, n = t.rd.reads; return n == t.rd.allowed && n == p + 1;}; // one more was requested after the last one
	bool ok = vh::await([&]() {return t.finished.load();}, post, "passive-stall", st, 4.);
	if (ok && t.mode < M_SPAM && !vh::failed()) ok = vh::await([&]() {return settled() || t.owed;}, post, "request-lost", st, 4.);
	quit = true; for (auto& x : ts) x.join(); if (!ok) vh::die();
	if (t.mode < M_EAGER && !vh::failed())
	{
		bool owed = t.owed; t.owed = false; if (owed || t.want.exchange(false)) t.request();
		ok = vh::await(settled, post, "request-lost", st, 4.); if (!ok) vh::die();
		if (t.rd.reads != t.rd.allowed) bad("C26", "reads-number", st()); else if (!s->is_reading()) bad("C26", "reading-flag", "a read is outstanding, but is_reading() denies it; " + st()); else vh::count("exact");
	}
	// ---- the end of the link, which only a read can see
	t.rd.over = true; bool peer = r.chance(1, 2); if (peer) {{std::lock_guard<std::mutex> l(raw.mu); raw.cut(*raw.conns.back(), (int) r.below(2), S());} s->recv_msg(); vh::count("ended_by_peer");} else post([&]() {s->force_shutdown();});
	ok = vh::await([&]() {if (peer) s->recv_msg(); return !s->rec->up.load();}, post, "no-close", st, 4.); if (!ok) vh::die();
	S d = t.rd.what + fmt("; %ld reads, %ld empty messages", (long) t.rd.reads, (long) t.empties); vh::distinct(vh::hash_str(d)); vh::sample(d);
}

static void one_case(Rng& r)
{
	std::shared_ptr<Case> cas = std::make_shared<Case>(); cur() = cas; S desc = vh::pert_random(r); unsigned short port = free_port(); int threads = (int) r.range(1, 4); bool server_side = r.chance(1, 2);
	if (r.chance(1, 3)) cas->handle_us = (unsigned) r.below(80); if (r.chance(1, 3)) cas->refuse = (unsigned) r.range(2, 6); 
	Test t; t.mode = (Mode) r.below(M_N); cas->sync_mode = t.mode < M_EAGER ? (unsigned) r.below(3) : r.chance(1, 2) ? 0 : 2; // a synchronous handler may overtake the other one
	 int np = t.mode < M_EAGER ? (int) r.range(1, 5) : 1; desc += fmt("; %s side, %d threads, requests by: %s;", server_side ? "server" : "client", threads, mode_name[t.mode]); 
	for (int i = 0; i < np; ++i) {int k = (int) r.below(K_N), n = (int) r.range(1, t.mode < M_EAGER ? 40 : 250); t.ph.push_back(phase(r, i, k, n)); desc += fmt(" %d %s", n, kind_name[k]);}
	t.rd.what = desc; std::atomic<bool> up(false);
	{
		service_pump sp; RawServer raw(server_side ? (unsigned short) 0 : port); srv_ptr s; cli_ptr c; unsigned local = 0; vh::poster post;
		cas->on_connect_hook = [&](Rec&, void* me) {
#ifndef ST_ASIO_SYNC_RECV
			++t.rd.allowed;
#endif
			if (server_side) ((mon<raw_srv_sock>*) me)->unpacker(make(t.ph[0].kind, t.rd, 0)); else ((mon<raw_cli_sock>*) me)->unpacker(make(t.ph[0].kind, t.rd, 0)); up = true;};
		cas->on_body_hook = [&](Rec&, const S& b) {return t.body(b);}; cas->on_chance_hook = [&](Rec&) {++t.empties; vh::count("empty_reads"); t.chance();};
		if (server_side)
		{
			server_t server(sp); server.set_server_addr(port, "127.0.0.1"); post = [&](std::function<void()> g) {boost::asio::post(server.next_layer().get_executor(), g);}; sp.start_service(threads); int fd = -1;
			vh::wait_for([&]() {fd = dial(port, local); return fd >= 0;}, 10.); if (fd < 0) {vh::inconclusive("cannot connect"); sp.stop_service(); return;}
			raw.adopt(fd, local); vh::await([&]() {server.do_something_to_all([&](srv_ptr& x) {if (x->rec->up) s = x;}); return !!s && up;}, post, "setup", []() {return S("the link does not come up");});
			t.ask = [&]() {s->recv_msg();}; t.post_ask = [&]() {s->post([&]() {t.request();});}; t.install = [&](upk u) {s->unpacker(u);}; run(s, t, r, raw, post); sp.stop_service(); cas->unhook();
		}
		else
		{
			client_t client(sp); raw.up(); c = client.add_socket(port, "127.0.0.1"); c->set_reconnect(false); post = [&](std::function<void()> g) {boost::asio::post(c->lowest_layer().get_executor(), g);}; sp.start_service(threads);
			if (!vh::await([&]() {boost::system::error_code ec; return up && c->rec->up.load() && raw.has(c->lowest_layer().local_endpoint(ec).port());}, post, "setup", []() {return S("the link does not come up");})) {sp.stop_service(); return;}
			t.ask = [&]() {c->recv_msg();}; t.post_ask = [&]() {c->post([&]() {t.request();});}; t.install = [&](upk u) {c->unpacker(u);}; run(c, t, r, raw, post); sp.stop_service(); cas->unhook();
		}
	}
}

int main(int argc, char** argv) {vh::g().rule = "a case is a stream through one or more unpackers and the one who asks for its reads, distinct by these and the number of reads"; return vh::main(argc, argv, one_case, 100.);}
