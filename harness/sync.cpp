// Synchronous sending and receiving under timeouts, stalls, withdrawn messages, link loss of every kind and service stop.
// The peer is a plain socket, which sees the bytes; every result is judged against them and against what was done to the link.
#ifdef VH_RECV
#define ST_ASIO_SYNC_RECV
#else
#define ST_ASIO_SYNC_SEND
#endif
#include <fcntl.h>
#include "raws.h"
using namespace rig;

static int dial(unsigned short port, unsigned& local)
{
	int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (0 != ::connect(fd, (struct sockaddr*) &a, sizeof a)) {::close(fd); return -1;}
	socklen_t n = sizeof a; getsockname(fd, (struct sockaddr*) &a, &n); local = ntohs(a.sin_port); fcntl(fd, F_SETFL, O_NONBLOCK); return fd;
}
static const char* name_of(sync_call_result r) {switch (r) {case SUCCESS: return "success"; case NOT_APPLICABLE: return "not applicable"; case DUPLICATE: return "duplicate"; case TIMEOUT: return "timeout"; default: return "?";}}

enum End {E_NONE, E_PEER_CLOSE, E_PEER_RESET, E_FORCE, E_GRACEFUL, E_STOP, E_RECONNECT, E_NEVER, E_N};
static const char* end_name[] = {"none", "peer closes", "peer resets", "force_shutdown", "graceful_shutdown", "stop_service", "reconnections", "never connected"};
struct Shared
{
	std::atomic<bool> ending, popping, halt; std::atomic<int> active, calls; std::atomic<unsigned> unstable;
	Shared() : ending(false), popping(false), halt(false), active(0), calls(0), unstable(0) {}
};

#ifndef VH_RECV
// ------------------------------------------------------------------ synchronous sending
struct Sent {u32 seq; sync_call_result re;};
struct Worker {Flow* f; std::vector<Sent> log; std::thread t; u64 ok_bytes; Worker() : f(NULL), ok_bytes(0) {}};
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
static const bool shrinks = true;
#else
static const bool shrinks = false;
#endif
enum {Y_PTR, Y_REF, Y_LIST, Y_ARR, Y_NPTR, Y_DREF, Y_DCREF, Y_DLIST, Y_SPTR, Y_TWO, Y_BUF, Y_N};
static bool parts_of(unsigned a) {return Y_REF == a || Y_LIST == a || Y_DLIST == a || Y_TWO == a;}
template<typename Sock> static sync_call_result sync_by(Sock& s, Rng& r, unsigned a, const S& b, unsigned d, bool over)
{
	typedef typename Sock::in_msg_type M; typedef st_asio_wrapper::list<M> L; S p = packed(b);
	switch (a)
	{
	case Y_REF: {M m; mk(m, b); return s.sync_send_msg(m, d, over);}
	case Y_LIST: {auto v = cut(r, b, 1 + r.below(4)); L l; for (auto& t : v) mk(l.emplace_back(), t); return s.sync_send_msg(l, d, over);}
	case Y_ARR: {auto v = cut(r, b, 1 + r.below(4)); std::vector<const char*> ps; std::vector<size_t> ls; for (auto& t : v) {ps.push_back(t.data()); ls.push_back(t.size());} return s.sync_send_msg(ps.data(), ls.data(), ps.size(), d, over);}
	case Y_NPTR: return s.sync_send_native_msg(p.data(), p.size(), d, over);
	case Y_DREF: {M m; mk(m, p); return s.direct_sync_send_msg(m, d, over);}
	case Y_DCREF: {M m; mk(m, p); const M& c = m; return s.direct_sync_send_msg(c, d, over);}
	case Y_DLIST: {auto v = cut(r, p, 1 + r.below(4)); L l; for (auto& t : v) mk(l.emplace_back(), t); return s.direct_sync_send_msg(l, d, over);}
	case Y_SPTR: return s.sync_safe_send_msg(b.data(), b.size(), d, over);
	case Y_TWO: {auto v = cut(r, b, 2); M x, y; mk(x, v[0]); mk(y, v[1]); return s.sync_send_msg(x, y, d, over);}
	case Y_BUF: {std::vector<char> v(b.begin(), b.end()); return s.sync_send_msg(v, d, over);}
	default: return s.sync_send_msg(b.data(), b.size(), d, over);
	}
}
template<typename Sock> static void sender(boost::shared_ptr<Sock> s, Worker& w, Shared& sh, u64 seed, int n, bool alone, bool limited, bool single, int after)
{
	Rng r(seed); int late = 0;
	for (int i = 0; i < n && late <= after && !sh.halt && !vh::failed(); ++i)
	{
		unsigned a; do a = (unsigned) r.below(Y_N); while (single && parts_of(a)); bool over = shrinks ? r.chance(1, 8) : true;
		unsigned d = limited ? (r.chance(1, 4) ? 0 : (unsigned) r.range(1, r.chance(1, 4) ? 80 : 6)) : 0; u32 seq = w.f->next.fetch_add(1); S b = body(w.f->id, seq, pick_len(r, r.chance(1, 3) ? 900 : 100));
		bool was = sh.ending || sh.popping || sh.unstable; double t0 = vh::now(); sync_call_result re = sync_by(*s, r, a, b, d, over); double el = vh::now() - t0; ++sh.calls; tick();
		w.log.push_back(Sent{seq, re}); bool reason = was || sh.ending || sh.popping || sh.unstable;
		S who = fmt("%s: interface %u, message %u, time limit %u ms, took %.1f ms, result %s", s->rec->name().c_str(), a, seq, d, el * 1000, name_of(re));
		if (SUCCESS == re)
		{
			w.ok_bytes += packed(b).size(); vh::count("sync_ok");
			if (alone && !reason)
			{
				if (s->get_pending_send_msg_size() > 0) bad("C15", "success-pending", who + fmt(": %zu bytes are still in the send buffer, nobody else sends", (size_t) s->get_pending_send_msg_size()));
				u64 out = s->get_statistic().send_byte_sum; if (out < w.ok_bytes) bad("C15", "success-unsent", who + fmt(": only %llu bytes were written so far, of %llu", out, w.ok_bytes));
			}
		}
		else if (TIMEOUT == re)
		{
			vh::count("sync_timeout");
			if (0 == d) bad("C15", "timeout-unlimited", who);
			else if (el < d / 1000. - .001) bad("C15", "timeout-early", who);
		}
		else if (NOT_APPLICABLE == re)
		{
			vh::count("sync_failed"); if (sh.ending) {++late; vh::count("sync_failed_by_end");}
			if (!reason && !(shrinks && !over)) if (!shrinks) bad("C15", "failed-without-cause", who + ": the link is up and nothing was withdrawn");
			if (!sh.ending && r.chance(1, 4)) usleep(200);
		}
		else bad("C15", "strange-result", who);
		if (r.chance(1, 6)) usleep((unsigned) r.below(300));
	}
	--sh.active; tick();
}

template<typename Sock> static void judge(Case&, std::vector<std::unique_ptr<Worker> >& ws, RawServer& raw, bool whole, bool stable, bool pop, const S& story)
{
	std::map<u32, std::vector<u32> > got; {std::lock_guard<std::mutex> l(raw.mu); for (auto& c : raw.conns) {if (!c->error.empty()) bad("C15", "stream", "the peer received garbage: " + c->error + "; " + story); for (auto& x : c->got) got[x.first].push_back(x.second);}}
	for (auto& w : ws)
	{
		std::vector<u32>& g = got[w->f->id]; for (size_t i = 1; i < g.size(); ++i) if (g[i] <= g[i - 1]) {bad("C15", g[i] == g[i - 1] ? "duplicate" : "order", fmt("flow %u: the peer received message %u after %u; ", w->f->id, g[i], g[i - 1]) + story); return;}
		std::set<u32> in(g.begin(), g.end());
		for (auto& x : w->log)
		{
			bool have = in.count(x.seq) > 0; if (have) vh::count("sync_confirmed");
			if (SUCCESS == x.re && whole && !have) {bad("C15", "success-lost", fmt("flow %u: message %u was reported as sent, but the peer did not receive it; ", w->f->id, x.seq) + story); return;}
			if (TIMEOUT == x.re && stable && !shrinks && !pop && !have) {bad("C15", "timeout-lost", fmt("flow %u: message %u, whose sending lasted too long, never arrived; ", w->f->id, x.seq) + story); return;}
			if (NOT_APPLICABLE == x.re && stable && have) {bad("C15", "failed-sent", fmt("flow %u: message %u was reported as not sent, but the peer received it; ", w->f->id, x.seq) + story); return;}
		}
	}
}

template<typename Sock> static void run_senders(boost::shared_ptr<Sock> s, Case& cas, Shared& sh, Rng& r, service_pump& sp, RawServer& raw, int end, bool server_side, vh::poster post, const S& desc)
{
	std::vector<std::unique_ptr<Worker> > ws; int nw = (int) r.range(1, 4), n = (int) r.range(5, 150); bool alone = 1 == nw; bool limited = r.chance(2, 3), stall = r.chance(1, 2), pop = !shrinks && r.chance(1, 4) && E_NEVER != end;
	int after = (int) r.range(0, 3); bool pop_later = pop; (void) pop_later; S story = desc + fmt("; %s side, %d senders of %d messages%s%s%s, end: %s", server_side ? "server" : "client", nw, n, limited ? ", time limits" : "", stall ? ", stalls" : "", pop ? ", withdrawals" : "", end_name[end]);
	auto st = [&]() {S t = story + fmt("; %d senders left after %d calls; started %d, connected %d, pending %zu, sending %d, obsolete %d", (int) sh.active, (int) sh.calls, s->started(), s->is_connected(), (size_t) s->get_pending_send_msg_size(), s->is_sending(), s->obsoleted()); return t;};
	vh::g().on_hang = st;
	if (E_RECONNECT == end) sh.unstable = 1;
	for (int i = 0; i < nw; ++i) {ws.emplace_back(new Worker); ws.back()->f = cas.flow(true, NULL);}
	sh.active = nw; for (auto& w : ws) w->t = std::thread([&, p = w.get(), seed = r.next()]() {sender(s, *p, sh, seed, E_NONE == end ? n : E_RECONNECT == end ? n : 1000000, alone, limited, shrinks || pop, after);});
	// ---- what happens to the link
	std::atomic<bool> quit(false); u64 dseed = r.next();
	std::thread disturb([&]() {
		Rng q(dseed);
		while (!quit)
		{
			usleep((unsigned) q.range(100, 4000));
			if (stall && q.chance(1, 3)) {std::lock_guard<std::mutex> l(raw.mu); for (auto& c : raw.conns) c->stalled = q.chance(1, 2);}
			if (pop && !quit && q.chance(1, 3))
			{
				sh.popping = true; // messages may be withdrawn from now on
				if (q.chance(1, 2)) {typename Sock::in_msg m; int k = (int) q.range(1, 4); for (int i = 0; i < k; ++i) {s->pop_first_pending_send_msg(m); if (!m.empty()) vh::count("withdrawn");}}
				else {typename Sock::in_container_type c; s->pop_all_pending_send_msg(c); vh::count("withdrawn", c.size());}
			}
		}
		std::lock_guard<std::mutex> l(raw.mu); for (auto& c : raw.conns) c->stalled = false;
	});
	auto done = [&]() {return 0 == sh.active;}; auto calm = [&]() {quit = true; if (disturb.joinable()) disturb.join();};
	int at = (int) r.range(0, 60); bool ok = true;
	auto reach = [&]() {return vh::wait_for([&]() {return sh.calls >= at || done();}, .2);};
	double need = 4.;
	switch (end)
	{
	case E_NONE: vh::wait_for(done, .05 + (r.chance(1, 2) ? .2 : 0.)); calm(); ok = vh::await(done, post, "sync-send-hang", st, need); break;
	case E_NEVER: usleep((unsigned) r.below(30000)); sh.ending = true; break;
	case E_RECONNECT:
		for (int k = (int) r.range(1, 4); k > 0; --k) {reach(); at += (int) r.range(1, 40); usleep((unsigned) r.below(3000)); std::lock_guard<std::mutex> l(raw.mu); for (auto& c : raw.conns) if (c->fd >= 0) {raw.cut(*c, (int) (vh::prnd() % 2), S()); vh::count("cuts");}}
		calm(); ok = vh::await(done, post, "sync-send-hang", st, need); break;
	default: reach(); sh.ending = true; break;
	}
	bool local = E_FORCE == end || E_GRACEFUL == end || E_STOP == end;
	if (E_PEER_CLOSE == end || E_PEER_RESET == end) {std::lock_guard<std::mutex> l(raw.mu); for (auto& c : raw.conns) if (c->fd >= 0) raw.cut(*c, E_PEER_RESET == end, S());}
	else if (E_FORCE == end || E_NEVER == end) post([&]() {s->force_shutdown();});
	else if (E_GRACEFUL == end) post([&]() {s->graceful_shutdown();});
	if (E_STOP == end) {calm(); sp.stop_service(); for (int i = 0; i < 4000 && !done(); ++i) usleep(1000); if (!done() && !vh::failed()) {bad("C15", "sync-send-hang", "after the service was stopped: " + st()); vh::die();} vh::count("ended_by_stop");}
	else if (E_NONE != end && E_RECONNECT != end)
	{
		if (r.chance(1, 2)) usleep((unsigned) r.below(4000)); calm();
		ok = vh::await(done, post, "sync-send-hang", st, need); vh::count(local ? "ended_locally" : "ended_by_peer");
	}
	sh.halt = true; calm(); if (!ok) vh::die();
	for (auto& w : ws) w->t.join();
	// ---- everything the kernel got arrives, unless the peer itself cut the link
	bool whole = E_NONE == end || local; 
	if (whole && !vh::failed())
	{
		if (E_NONE == end)
		{
			ok = vh::await([&]() {return !s->is_sending() && 0 == s->get_pending_send_msg_size();}, post, "sync-send-rest", st, need); if (!ok) vh::die();
			sh.ending = true; post([&]() {s->force_shutdown();});
		}
		vh::wait_for([&]() {return 0 == raw.open_ones();}, 20.); if (raw.open_ones() > 0) {vh::inconclusive("the peer saw no end of the link"); whole = false;}
	}
	if (!vh::failed()) judge<Sock>(cas, ws, raw, whole, E_NONE == end, pop, story);
	u64 calls = 0; for (auto& w : ws) calls += w->log.size(); vh::count("sync_calls", calls); vh::count((S("end_") + end_name[end]).c_str()); vh::distinct(vh::hash_str(fmt("%d/%d/%d%d%d/%d", end, nw, limited, stall, pop, at / 8))); vh::sample(story + fmt("; %llu calls", calls));
}
#else
// ------------------------------------------------------------------ synchronous receiving
struct Item {u32 seq; int how;}; // 0: handler, else the number of the receiver
struct RecvLog {std::mutex mu; std::vector<Item> all; std::atomic<size_t> n; RecvLog() : n(0) {}};
struct Meter {std::atomic<u64> v; Meter() : v(0) {}}; // calls begun and calls being made, changed at once
template<typename Sock> static void receiver(boost::shared_ptr<Sock> s, int who, RecvLog& log, Meter& m, Shared& sh, u32 flow, u64 seed, bool limited, bool rests, int after)
{
	Rng r(seed); int late = 0; long last = -1;
	while (!sh.halt && late <= after && !vh::failed())
	{
		st_asio_wrapper::list<typename Sock::out_msg_type> can; unsigned d = limited ? (r.chance(1, 5) ? 0 : (unsigned) r.range(1, r.chance(1, 4) ? 60 : 5)) : 0;
		bool was = sh.ending || sh.unstable; u64 in = m.v.fetch_add((1ull << 32) | 1); double t0 = vh::now(); sync_call_result re = s->sync_recv_msg(can, d); double el = vh::now() - t0; u64 fin = m.v.fetch_sub(1); ++sh.calls; tick();
		bool reason = was || sh.ending || sh.unstable; S w = fmt("%s: receiver %d, time limit %u ms, took %.1f ms, result %s with %zu messages", s->rec->name().c_str(), who, d, el * 1000, name_of(re), (size_t) can.size());
		if (SUCCESS != re && !can.empty()) bad("C15", "unsuccessful-data", w);
		if (SUCCESS == re)
		{
			vh::count("sync_received", can.size()); vh::count(can.empty() ? "sync_recv_nothing" : "sync_recv_ok"); long prev = -1;
			for (auto& x : can)
			{
				u32 f = 0, q = 0; auto& u = s->unpacker(); const char* e = parse(u->raw_data(x), u->raw_data_len(x), f, q); if (e || f != flow) {bad("C15", "recv-content", w + ": " + (e ? e : "message of another link")); break;}
				if (prev >= 0 && (long) q != prev + 1) bad("C15", "recv-gap", w + fmt(": message %u follows %ld", q, prev));
				if ((long) q <= last) bad("C15", (long) q == last ? "recv-duplicate" : "recv-order", w + fmt(": message %u after %ld", q, last));
				prev = last = q; std::lock_guard<std::mutex> l(log.mu); log.all.push_back(Item{q, who}); ++log.n;
			}
		}
		else if (TIMEOUT == re)
		{
			vh::count("sync_recv_timeout"); if (0 == d) bad("C15", "timeout-unlimited", w); else if (el < d / 1000. - .001) bad("C15", "timeout-early", w);
		}
		else if (DUPLICATE == re) {vh::count("sync_recv_duplicate"); if (0 == (in & 0xffffffff) && (fin >> 32) == (in >> 32) + 1) bad("C15", "duplicate-alone", w + ": no other call is outstanding"); usleep(200);}
		else if (NOT_APPLICABLE == re)
		{
			vh::count("sync_recv_failed"); if (sh.ending) ++late; if (!reason) bad("C15", "failed-without-cause", w + ": the link is up"); usleep(200);
		}
		else bad("C15", "strange-result", w);
		if (rests && r.chance(1, 3)) usleep((unsigned) r.below(2000));
	}
	--sh.active; tick();
}
template<typename Sock> static void run_receivers(boost::shared_ptr<Sock> s, Case& cas, Shared& sh, Rng& r, service_pump& sp, RawServer& raw, int end, bool server_side, vh::poster post, const S& desc, RecvLog& log, Flow* f)
{
	Meter m; int nr = r.chance(1, 2) ? 1 : (int) r.range(2, 3), after = (int) r.range(0, 2); bool limited = r.chance(2, 3), rests = r.chance(1, 2); int vol = (int) r.range(5, 250); size_t typical = r.chance(1, 2) ? 60 : 700;
	S story = desc + fmt("; %s side, %d receivers%s%s, %d messages, end: %s", server_side ? "server" : "client", nr, limited ? ", time limits" : "", rests ? ", pauses" : "", vol, end_name[end]);
	auto more = [&]() {S t; boost::system::error_code ec; t = fmt("; unread %zu, parsed %llu bytes in %llu messages", (size_t) s->lowest_layer().available(ec), (u64) s->rec->arr->bytes, (u64) s->rec->arr->msgs);
#ifdef ST_ASIO_PASSIVE_RECV
		t += fmt(", reading %d", s->is_reading());
#endif
		return t;};
	auto st = [&]() {return story + fmt("; %d receivers left after %d calls, %zu messages received; started %d, connected %d, pending %zu", (int) sh.active, (int) sh.calls, log.n.load(), s->started(), s->is_connected(), (size_t) s->get_pending_recv_msg_size()) + more();};
	vh::g().on_hang = st; if (E_RECONNECT == end) sh.unstable = 1;
	sh.active = nr; std::vector<std::thread> ts; for (int i = 0; i < nr; ++i) ts.emplace_back([&, i, seed = r.next()]() {receiver(s, i + 1, log, m, sh, f->id, seed, limited, rests, after);});
	std::atomic<bool> quit(false); u64 dseed = r.next(); std::atomic<int> fed(0);
	std::thread feeder([&]() {
		Rng q(dseed);
		for (int i = 0; i < vol && !quit;)
		{
			S out; int k = (int) q.range(1, q.chance(1, 4) ? 12 : 2);
			{
				std::lock_guard<std::mutex> l(raw.mu); Conn* c = NULL; for (auto& x : raw.conns) if (x->fd >= 0 && !x->cut) c = x.get(); 
				if (c) for (; k > 0 && i < vol; --k, ++i) {u32 seq = f->next.fetch_add(1); c->out += packed(body(f->id, seq, pick_len(q, typical))); ++fed;}
			}
			usleep((unsigned) q.below(q.chance(1, 8) ? 9000 : 700));
		}
	});
	auto done = [&]() {return 0 == sh.active;}; auto calm = [&]() {quit = true; if (feeder.joinable()) feeder.join();}; double need = 4.; bool ok = true;
	int at = (int) r.range(0, 50); auto reach = [&]() {return vh::wait_for([&]() {return sh.calls >= at;}, .15);};
	switch (end)
	{
	case E_NONE: feeder.join(); ok = vh::await([&]() {return log.n.load() >= (size_t) fed;}, post, "sync-recv-stall", st, need); sh.ending = true; break;
	case E_NEVER: usleep((unsigned) r.below(30000)); sh.ending = true; break;
	case E_RECONNECT: for (int k = (int) r.range(1, 4); k > 0; --k) {reach(); at += (int) r.range(1, 30); usleep((unsigned) r.below(60000)); std::lock_guard<std::mutex> l(raw.mu); for (auto& c : raw.conns) if (c->fd >= 0) {raw.cut(*c, (int) (vh::prnd() % 2), S()); vh::count("cuts");}} sh.ending = true; break;
	default: reach(); sh.ending = true; break;
	}
	bool local = E_PEER_CLOSE != end && E_PEER_RESET != end;
	if (ok)
	{
		if (E_STOP == end) {calm(); sp.stop_service(); for (int i = 0; i < 4000 && !done(); ++i) usleep(1000); if (!done() && !vh::failed()) {bad("C15", "sync-recv-hang", "after the service was stopped: " + st()); vh::die();}}
		else
		{
			if (!local) {std::lock_guard<std::mutex> l(raw.mu); for (auto& c : raw.conns) if (c->fd >= 0) raw.cut(*c, E_PEER_RESET == end, S());}
			else if (E_GRACEFUL == end) post([&]() {s->graceful_shutdown();});
			else post([&]() {s->force_shutdown();});
			if (r.chance(1, 2)) usleep((unsigned) r.below(3000)); calm(); ok = vh::await(done, post, "sync-recv-hang", st, need);
		}
	}
	sh.halt = true; calm(); if (!ok) vh::die();
	for (auto& t : ts) t.join();
	if (vh::failed()) return;
	std::vector<Item> all; {std::lock_guard<std::mutex> l(log.mu); all = log.all;} std::map<u32, int> seen; std::set<int> hows; for (auto& x : all) {++seen[x.seq]; hows.insert(x.how);}
	for (auto& x : seen) if (x.second > 1) {bad("C15", "recv-twice", fmt("message %u was received %d times; ", x.first, x.second) + story); return;}
	if (E_NONE == end && seen.size() != (size_t) fed) {bad("C15", "recv-lost", fmt("%zu of %d messages were received; ", seen.size(), (int) fed) + story); return;}
	vh::count("sync_recv_calls", sh.calls); vh::count("recv_all", all.size()); if (hows.count(0) && hows.size() > 1) vh::count("both_ways"); vh::count((S("end_") + end_name[end]).c_str()); vh::distinct(vh::hash_str(fmt("%d/%d/%d%d/%d/%zu", end, nr, limited, rests, at / 8, hows.size()))); vh::sample(story + fmt("; %d calls", (int) sh.calls));
}
#endif

static void one_case(Rng& r)
{
	std::shared_ptr<Case> cas = std::make_shared<Case>(); cur() = cas; S desc = vh::pert_random(r); Shared sh; unsigned short port = free_port();
	int threads = (int) r.range(1, 4), end = r.chance(1, 4) ? E_NONE : (int) r.below(E_N); bool server_side = r.chance(1, 2); if (E_RECONNECT == end || E_NEVER == end) server_side = false;
	if (r.chance(1, 3)) cas->handle_us = (unsigned) r.below(80); cas->shrink_mode = (unsigned) r.below(5); cas->sync_mode = (unsigned) r.below(4);
#ifndef VH_RECV
	if (r.chance(1, 2)) cas->sndbuf = (int) r.range(4096, 16000);
#else
	if (r.chance(1, 3)) cas->refuse = (unsigned) r.range(2, 6); RecvLog log; Flow* f = cas->flow(true, NULL); long hlast[2] = {-1, -1};
	cas->on_body_hook = [&](Rec& rec, const S& b)
	{
		u32 fl = 0, q = 0; const char* e = parse(b.data(), b.size(), fl, q); if (e || fl != f->id) {bad("C15", "handler-content", rec.name() + ": a handler got a damaged message: " + (e ? e : "of another link")); return true;}
		std::lock_guard<std::mutex> l(log.mu); log.all.push_back(Item{q, 0}); ++log.n; vh::count("handled"); (void) hlast; return true;
	};
#endif
	size_t send_buf = 0;
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
	send_buf = (size_t) r.range(300, 4000);
#endif
	{
		service_pump sp; RawServer raw(server_side ? (unsigned short) 0 : port); raw.rcvbuf = r.chance(1, 2) ? (int) r.range(4096, 16000) : 0;
		if (server_side)
		{
			server_t server(sp); server.set_server_addr(port, "127.0.0.1"); sp.start_service(threads); unsigned local = 0; int fd = -1;
			vh::wait_for([&]() {fd = dial(port, local); return fd >= 0;}, 10.); if (fd < 0) {vh::inconclusive("cannot connect"); sp.stop_service(); return;}
			vh::poster post = [&](std::function<void()> g) {boost::asio::post(server.next_layer().get_executor(), g);};
			raw.adopt(fd, local); srv_ptr s; vh::await([&]() {server.do_something_to_all([&](srv_ptr& x) {if (x->rec->up) s = x;}); return !!s;}, post, "setup", []() {return S("the link does not come up");});
			if (!s) {sp.stop_service(); return;} if (send_buf) s->send_buf_size(send_buf);
#ifndef VH_RECV
			run_senders(s, *cas, sh, r, sp, raw, end, true, post, desc);
#else
			run_receivers(s, *cas, sh, r, sp, raw, end, true, post, desc, log, f);
#endif
			if (sp.is_running()) sp.stop_service(); cas->unhook(); return;
		}
		client_t client(sp); if (E_NEVER != end) raw.up(); cli_ptr c = client.add_socket(port, "127.0.0.1"); c->delay = (int) r.below(30); if (E_RECONNECT != end && E_NEVER != end) c->set_reconnect(false); if (send_buf) c->send_buf_size(send_buf);
		vh::poster post = [&](std::function<void()> g) {boost::asio::post(c->lowest_layer().get_executor(), g);};
		sp.start_service(threads); bool early = r.chance(1, 3);
#ifdef VH_RECV
		early = E_NEVER == end || E_RECONNECT == end ? early : false; if (E_NEVER == end) early = true; // before the link is up a receive may fail
		if (early) sh.unstable = 1;
#else
		if (E_NEVER == end) early = true;
		else if (E_PEER_CLOSE == end || E_PEER_RESET == end || E_RECONNECT == end) early = false; // or there may be nothing to cut yet
#endif
		if (!early && !vh::await([&]() {boost::system::error_code ec; return c->rec->up.load() && raw.has(c->lowest_layer().local_endpoint(ec).port());}, post, "setup", []() {return S("the link does not come up");})) {sp.stop_service(); return;}
#ifndef VH_RECV
		run_senders(c, *cas, sh, r, sp, raw, end, false, post, desc);
#else
		run_receivers(c, *cas, sh, r, sp, raw, end, false, post, desc, log, f);
#endif
		if (sp.is_running()) sp.stop_service(); cas->unhook();
	}
}

int main(int argc, char** argv) {vh::g().rule = "a case is a link, synchronous callers on it and what happens to it, distinct by these and the progress reached at the end"; return vh::main(argc, argv, one_case, 100);}
