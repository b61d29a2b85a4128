// Concurrent traffic over several links, all sending interfaces, random buffer sizes, handlers which refuse or are slow,
// fragmented reads, perturbed schedules. Judged: delivery (C04), progress (C05), handlers (C06), buffers (C07), counts (C17), notifications (C24).
#include "rig.h"
using namespace rig;

static bool allowed(unsigned a, bool single)
{
#ifndef RIG_COPYABLE
	if (A_CREF == a || A_CTWO == a || A_DCREF == a) return false;
#endif
	if (single && multi_item(a)) return false;
#ifdef RIG_FIXED
	if (A_LIST == a || A_DLIST == a || A_NLIST == a || A_TWO == a || A_CTWO == a || A_ARR == a || A_SARR == a) return A_ARR == a || A_SARR == a;
#endif
	return true;
}
static unsigned pick_api(Rng& r, bool single) {for (;;) {unsigned a = (unsigned) r.below(A_N); if (allowed(a, single)) return a;}}

struct Link {cli_ptr c; srv_ptr s;};
template<typename Sock> struct Job {boost::shared_ptr<Sock> s; Flow* f; int n; bool prior, over; u64 seed; size_t typical; int fixed_api;};

template<typename Sock> static void run_job(Job<Sock> j, std::atomic<u64>& refused)
{
	Rng r(j.seed); int tries = 0;
	for (int i = 0; i < j.n && ++tries < j.n * 200 && !vh::failed();)
	{
		unsigned a = j.fixed_api >= 0 ? (unsigned) j.fixed_api : pick_api(r, j.f->single); bool over = j.over || r.chance(1, 6);
		u64 before = j.s->get_pending_send_msg_size(); (void) before;
		if (send_next(*j.s, r, *j.f, a, pick_len(r, j.typical), over, j.prior)) {++i; tick();}
		else {++refused; if (over) {bad("C07 C04", "overflow-refused", j.f->dest.load() ? "a send with overflow allowed was refused by " + S(j.s->rec->name()) + fmt(", interface %u%s", a, j.s->is_connected() ? "" : " (not connected)") : S("a send with overflow allowed was refused")); return;} usleep(100 + r.below(400));}
	}
	if (tries >= j.n * 200 && on("C05")) vh::count("starved_senders");
}

static void one_case(Rng& r)
{
	std::shared_ptr<Case> cas = std::make_shared<Case>(); cur() = cas; S desc = vh::pert_random(r);
	// ---- behaviour of this case
	bool single = r.chance(2, 3); bool prior = single && r.chance(1, 3);
	const bool parts = NULL != getenv("VH_PARTS"); // several senders on each link, nearly all messages consist of several parts, many are big
	if (parts) {single = prior = false;}
#ifdef VH_SINGLE
	single = true; prior = r.chance(1, 3);
#endif
	if (!on("C07") && r.chance(1, 2)) cas->refuse = (unsigned) r.range(2, 9);
	if (r.chance(1, 3)) cas->handle_us = (unsigned) r.below(80);
	if (r.chance(1, 4)) cas->msg_us = (unsigned) r.below(60);
	cas->sync_mode = (unsigned) r.below(4); cas->batch_mode = (unsigned) r.below(2);
	if (r.chance(1, 2)) {cas->sndbuf = (int) r.range(4096, 20000); cas->rcvbuf = (int) r.range(4096, 20000);}
	size_t send_buf = r.chance(1, 2) ? (size_t) r.range(200, 6000) : 0, recv_buf = r.chance(1, 2) ? (size_t) r.range(100, 6000) : 0; unsigned resume = (unsigned) r.range(1, 20), handling = (unsigned) r.range(1, 10);
	int ctxs = r.chance(1, 3) ? 2 : 1, threads = (int) r.range(1, 5), nlinks = (int) r.range(1, 3); if (threads < ctxs) threads = ctxs;
	size_t typical = r.chance(1, 2) ? 60 : 700; int volume = (int) r.range(20, 260);
#if ST_ASIO_MSG_BUFFER_SIZE > 50000
	volume = volume / 3 + 5; send_buf *= 10; recv_buf *= 10; cas->sndbuf = cas->sndbuf * 10; cas->rcvbuf = cas->rcvbuf * 10;
#endif
	if (parts) {typical = max_body() / 3; volume = (int) r.range(60, 150); send_buf = 0; threads = (int) r.range(ctxs, 4); nlinks = (int) r.range(1, 2); cas->sndbuf = cas->rcvbuf = 0;}
	if (vh::g().thorough && r.chance(1, 4)) volume *= 4;
	auto tune = [&](auto& s) {if (send_buf) s.send_buf_size(send_buf); if (recv_buf) s.recv_buf_size(recv_buf); s.msg_resuming_interval(resume); s.msg_handling_interval(handling);};
	std::atomic<u64> refused(0);
	{
		service_pump sp; if (ctxs > 1) sp.set_io_context_num(ctxs);
		server_t server(sp); client_t client(sp); unsigned short port = free_port(); server.set_server_addr(port, "127.0.0.1");
		std::vector<Link> links; std::vector<Job<cli_sock> > cjobs, pre; std::vector<Job<srv_sock> > sjobs; std::map<Rec*, std::vector<Flow*> > to_srv, to_cli; // by the client's record
		cas->on_connect_hook = [&](Rec&, void*) {};
		for (int i = 0; i < nlinks; ++i) {Link l; l.c = client.add_socket(port, "127.0.0.1"); tune(*l.c); links.push_back(l);}
		// sends before the link is ready
		if (r.chance(1, 2))
			for (auto& l : links)
			{
				Flow* f = cas->flow(true, NULL); f->single = single; int n = (int) r.range(1, 12); to_srv[l.c->rec.get()].push_back(f);
				for (int i = 0; i < n; ++i) {unsigned a; do a = pick_api(r, single); while (A_SPTR == a || A_SREF == a || A_SARR == a); send_next(*l.c, r, *f, a, pick_len(r, typical), r.chance(1, 2), false);}
			}
		bool accepted_early = false; (void) accepted_early;
		std::atomic<unsigned> which(0);
		auto post_c = [&](std::function<void()> f) {boost::asio::post(links[++which % links.size()].c->lowest_layer().get_executor(), f);};
		sp.start_service(threads);
		auto recs_up = [&]() {std::lock_guard<std::mutex> l(cas->mu); int c = 0, s = 0; for (auto& x : cas->recs) if (x->up) ('c' == x->side[0] ? c : s)++; return c == nlinks && s == nlinks && (int) server.size() == nlinks;};
		bool go = vh::await(recs_up, post_c, on("C05") ? "connect" : "setup", []() {return S("the links do not come up");});
		if (!go) {sp.stop_service(); return;}
		for (auto& l : links)
			for (size_t i = 0; i < server.size(); ++i) {srv_ptr s = server.at(i); if (s->rec->rport == l.c->rec->lport) {l.s = s; tune(*s);}}
		for (auto& l : links) if (!l.s) {bad("C04 C27", "no-peer", l.c->rec->name() + ": no server socket has this peer"); sp.stop_service(); return;}
		for (auto& l : links) for (auto* f : to_srv[l.c->rec.get()]) f->dest = l.s->rec.get();
		// ---- flows
		std::map<Rec*, Flow*> reply; std::map<Rec*, std::atomic<int>*> budget; std::vector<std::unique_ptr<std::atomic<int> > > budgets; std::map<Rec*, std::shared_ptr<Rng> > rrng;
		auto arm = [&](Rec* from, Rec* to, std::map<Rec*, std::vector<Flow*> >& m, Rec* key, int n) {Flow* f = cas->flow(true, to); f->single = true; m[key].push_back(f); reply[from] = f; budgets.emplace_back(new std::atomic<int>(n)); budget[from] = budgets.back().get(); rrng[from] = std::make_shared<Rng>(r.next());};
		int hooks = (int) r.below(3), nsend = (int) (parts ? r.range(3, 6) : r.range(1, 3));
		auto part_api = [&]() {unsigned a; do a = pick_api(r, false); while (!multi_item(a)); return (int) a;};
		for (auto& l : links)
		{
			Rec *c = l.c->rec.get(), *s = l.s->rec.get();
			for (int i = 0; i < nsend; ++i)
			{
				bool p = prior && 0 == i; Flow* f = cas->flow(!p, s); f->single = single; to_srv[c].push_back(f);
				cjobs.push_back(Job<cli_sock>{l.c, f, volume / nsend + 1, p, parts || r.chance(1, 4), r.next(), typical, parts ? part_api() : r.chance(1, 4) ? (int) pick_api(r, single) : -1});
				if (r.chance(2, 3))
				{
					Flow* g = cas->flow(!p, c); g->single = single; to_cli[c].push_back(g);
					sjobs.push_back(Job<srv_sock>{l.s, g, volume / nsend + 1, p, parts || r.chance(1, 4), r.next(), typical, parts ? part_api() : r.chance(1, 4) ? (int) pick_api(r, single) : -1});
				}
			}
			if (hooks) {arm(s, c, to_cli, c, (int) r.below(60)); arm(c, s, to_srv, c, (int) r.below(60));}
		}
		auto answer = [&](Rec& rec, void* sock)
		{
			auto it = budget.find(&rec); if (it == budget.end() || it->second->fetch_sub(1) <= 0) return;
			Flow* f = reply[&rec]; Rng& q = *rrng[&rec];
			if ('c' == rec.side[0]) send_next(*(cli_sock*) (mon<raw_cli_sock>*) sock, q, *f, A_PTR, pick_len(q, 60), true, false); else send_next(*(srv_sock*) (mon<raw_srv_sock>*) sock, q, *f, A_PTR, pick_len(q, 60), true, false);
		};
		// set before any sender starts; the early messages may be on their way, so the hooks are published with a lock
		struct Gate {std::mutex mu; std::function<void(Rec&, void*)> f;}; static Gate gate; {std::lock_guard<std::mutex> l(gate.mu); gate.f = nullptr;}
		if (1 == hooks) cas->got_answer = answer;
#if defined(ST_ASIO_WANT_MSG_SEND_NOTIFY) || defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY) || defined(ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY)
		else if (2 == hooks) cas->sent_answer = answer;
#endif
		Flow* bc = NULL; int nbc = 0;
		if (r.chance(1, 2)) {bc = cas->flow(true, NULL); nbc = (int) r.range(1, 20);}
		cas->armed.store(true, std::memory_order_release);
		std::vector<std::thread> ts; std::atomic<int> active(0); std::atomic<bool> mon_stop(false);
		for (auto& j : cjobs) {++active; ts.emplace_back([&, j]() {run_job(j, refused); --active;});}
		for (auto& j : sjobs) {++active; ts.emplace_back([&, j]() {run_job(j, refused); --active;});}
		if (bc) {++active; u64 sd = r.next(); ts.emplace_back([&, sd]() {Rng q(sd); for (int i = 0; i < nbc; ++i)
		{
			u32 n = bc->next.fetch_add(1); S b = body(bc->id, n, pick_len(q, typical)); S p = packed(b);
			if (q.chance(1, 2)) server.broadcast_msg(b.data(), b.size(), true); else server.broadcast_native_msg(p.data(), p.size(), true); bc->accept(n); tick(); if (q.chance(1, 4)) usleep(q.below(300));
		} --active;});}
		// statistics never decrease while the link is up
		std::thread watcher([&]() {std::vector<u64> last(links.size() * 8, 0); while (!mon_stop)
		{
			for (size_t i = 0; i < links.size(); ++i) for (int k = 0; k < 2; ++k)
			{
				const statistic& st = k ? links[i].s->get_statistic() : links[i].c->get_statistic(); u64 v[4] = {(u64) st.send_msg_sum, (u64) st.send_byte_sum, (u64) st.recv_msg_sum, (u64) st.recv_byte_sum};
				for (int n = 0; n < 4; ++n) {u64& o = last[i * 8 + k * 4 + n]; if (v[n] < o) bad("C17", "decreased", fmt("statistics number %d went from %llu to %llu", n, o, v[n])); o = v[n];}
			}
			usleep(2000);
		}});
		auto st = [&]() {S s = desc; for (auto& l : links) s += fmt("; link: client sending %d pending %zu/%zu idle %d dispatching %d sent %llu got %llu, server sending %d pending %zu/%zu idle %d dispatching %d sent %llu got %llu", l.c->is_sending(), (size_t) l.c->get_pending_send_msg_size(), (size_t) l.c->get_pending_recv_msg_size(), l.c->is_recv_idle(), l.c->is_dispatching(), (u64) l.c->get_statistic().send_msg_sum, l.c->rec->got_n.load(), l.s->is_sending(), (size_t) l.s->get_pending_send_msg_size(), (size_t) l.s->get_pending_recv_msg_size(), l.s->is_recv_idle(), l.s->is_dispatching(), (u64) l.s->get_statistic().send_msg_sum, l.s->rec->got_n.load()); return s;};
		vh::g().on_hang = st;
		const char* prog = on("C05") ? "stalled" : on("C07") ? "stalled" : on("C04") ? "undelivered" : on("C06") ? "undelivered" : "setup-stalled";
		bool ok = vh::await([&]() {return 0 == active.load() || vh::failed();}, post_c, S(prog) + "/senders", st);
		for (auto& t : ts) if (ok) t.join(); else t.detach();
		if (!ok) {fprintf(stderr, "%s\n", st().c_str()); vh::die();}
		auto expected = [&](Rec* client_side, bool srv) {u64 n = 0; auto& m = srv ? to_srv : to_cli; for (auto* f : m[client_side]) n += f->n_accepted; if (!srv && bc) n += bc->n_accepted; return n;};
		auto all_there = [&]() {for (auto& l : links) {if (l.s->rec->arr->msgs != l.s->rec->got_n || l.c->rec->arr->msgs != l.c->rec->got_n || l.s->rec->got_n < expected(l.c->rec.get(), true) || l.c->rec->got_n < expected(l.c->rec.get(), false)) return false;
			if (l.c->get_pending_send_msg_size() || l.s->get_pending_send_msg_size() || l.c->is_sending() || l.s->is_sending() || l.c->get_pending_recv_msg_size() || l.s->get_pending_recv_msg_size()) return false;} return true;};
		auto idle = [&]() {for (auto& l : links) if (l.s->rec->in_any || l.c->rec->in_any) return false; return true;};
		auto total = [&]() {u64 n = 0; for (auto& l : links) n += l.s->rec->got_n + l.c->rec->got_n + expected(l.c->rec.get(), true) + expected(l.c->rec.get(), false); return n;};
		// an answer sent by a callback is counted as accepted only after the sending, so look twice, with no callback running in between
		auto done = [&]() {if (vh::failed()) return true; if (!all_there() || !idle()) return false; u64 n = total(); return idle() && all_there() && idle() && n == total();};
		ok = vh::await(done, post_c, S(prog) + "/traffic", st);
		u64 msgs = 0, bytes = 0; for (auto& l : links) {msgs += l.s->rec->got_n + l.c->rec->got_n; bytes += l.s->rec->got_bytes + l.c->rec->got_bytes;}
		// ---- one message at a time: every one is reported and empties the buffer
		int lone = 0;
		if (ok && !vh::failed() && (on("C24") || on("C05")) && r.chance(1, 2))
		{
			Link& l = links[r.below(links.size())]; Flow* f = cas->flow(true, l.s->rec.get()); f->single = true; to_srv[l.c->rec.get()].push_back(f); cas->armed = false;
			for (int n = (int) r.range(1, 20); lone < n && !vh::failed(); ++lone)
			{
				u64 a0 = l.c->rec->all_cb, m0 = l.c->rec->send_cb; 
				if (!send_next(*l.c, r, *f, A_PTR, pick_len(r, 100), false, false)) bad("C07", "refused-empty", "a send was refused although the send buffer is empty");
				if (!vh::await([&]() {return vh::failed() || (l.s->rec->got_n >= expected(l.c->rec.get(), true) && !l.c->is_sending());}, post_c, S(prog) + "/one", st)) break;
				u64 a1 = l.c->rec->all_cb, m1 = l.c->rec->send_cb; (void) a0; (void) a1; (void) m0; (void) m1;
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
				if (a1 - a0 != 1) bad("C24", "all-count", fmt("one message was sent alone, on_all_msg_send ran %llu times", a1 - a0));
#endif
#if defined(ST_ASIO_WANT_MSG_SEND_NOTIFY) || defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
				if (m1 - m0 != 1) bad("C24", "msg-count", fmt("one message was sent alone, on_msg_send reported %llu", m1 - m0));
#endif
			}
		}
		mon_stop = true; watcher.join();
		// ---- conservation at rest
		if (ok && !vh::failed())
			for (auto& l : links)
				for (int k = 0; k < 2; ++k)
				{
					const statistic& s = k ? l.s->get_statistic() : l.c->get_statistic(); const Rec& rec = k ? *l.s->rec : *l.c->rec; auto& m = k ? to_cli : to_srv; Rec* key = l.c->rec.get();
					u64 n = 0, b = 0; bool one = single; for (auto* f : m[key]) {n += f->n_accepted; b += f->bytes; one = one && f->single;}
					if (k && bc) {n += bc->n_accepted; std::lock_guard<std::mutex> lk(bc->mu); one = one && true; b = 0;}
					if (s.send_msg_sum < n || (one && s.send_msg_sum != n)) bad("C17", "sent-messages", rec.name() + fmt(": sent message count %llu, %llu were sent", (u64) s.send_msg_sum, n));
					if (!(k && bc) && s.send_byte_sum != b) bad("C17", "sent-bytes", rec.name() + fmt(": sent byte count %llu, %llu were sent", (u64) s.send_byte_sum, b));
					if (s.recv_msg_sum != rec.arr->msgs) bad("C17", "received-messages", rec.name() + fmt(": received message count %llu, the unpacker produced %llu", (u64) s.recv_msg_sum, rec.arr->msgs.load()));
					if (s.recv_byte_sum != rec.arr->bytes) bad("C17", "received-bytes", rec.name() + fmt(": received byte count %llu, the unpacker produced %llu", (u64) s.recv_byte_sum, rec.arr->bytes.load()));
					if (rec.arr->msgs != rec.got_n) bad("C04 C06 C17", "handled-count", rec.name() + fmt(": the unpacker produced %llu messages, the handlers got %llu", rec.arr->msgs.load(), rec.got_n.load()));
					for (u64 v : {(u64) (k ? l.s->send_buf_usage() : l.c->send_buf_usage()) * 1000, (u64) (k ? l.s->recv_buf_usage() : l.c->recv_buf_usage()) * 1000}) if (v) bad("C17 C07", "usage-at-rest", rec.name() + ": buffer usage is not zero although nothing is queued");
					if ((k ? l.s->send_buf_usage() : l.c->send_buf_usage()) != 0.f || (k ? l.s->recv_buf_usage() : l.c->recv_buf_usage()) != 0.f) bad("C17", "pending-bytes", rec.name() + ": queued bytes are not zero although nothing is queued");
				}
		if (ok && !vh::failed() && on("C17"))
		{
			statistic a = server.get_statistic(), b; for (size_t i = 0; i < server.size(); ++i) b += server.at(i)->get_statistic();
			if (a.send_msg_sum != b.send_msg_sum || a.send_byte_sum != b.send_byte_sum || a.recv_msg_sum != b.recv_msg_sum || a.recv_byte_sum != b.recv_byte_sum) bad("C17", "total", "the server's statistics differ from the sum over its sockets");
			statistic d = a + b; d -= b; if (d.send_msg_sum != a.send_msg_sum || d.send_byte_sum != a.send_byte_sum || d.recv_msg_sum != a.recv_msg_sum || d.recv_byte_sum != a.recv_byte_sum) bad("C17", "inverse", "subtracting what was added does not give the original statistics");
			d = a - b; if (d.send_msg_sum || d.recv_msg_sum || d.send_byte_sum || d.recv_byte_sum) bad("C17", "difference", "the difference of equal statistics is not zero");
		}
		vh::g().on_hang = nullptr;
		// ---- end
		vh::pert_off(); cas->armed = false; cas->hold = 0; cas->refuse = 0;
		sp.stop_service();
		for (auto& l : links)
		{
			for (auto* f : to_srv[l.c->rec.get()]) verify_flow(*f, *l.s->rec);
			for (auto* f : to_cli[l.c->rec.get()]) verify_flow(*f, *l.c->rec);
			if (bc) verify_flow(*bc, *l.c->rec);
#if defined(ST_ASIO_WANT_MSG_SEND_NOTIFY) || defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
			if (on("C24"))
				for (int k = 0; k < 2; ++k)
				{
					Rec& rec = k ? *l.s->rec : *l.c->rec; std::map<u32, std::vector<u32> > by; for (auto& x : rec.send_log) by[x.first].push_back(x.second);
					std::vector<Flow*> fl = k ? to_cli[l.c->rec.get()] : to_srv[l.c->rec.get()]; if (k && bc) fl.push_back(bc);
					for (auto* f : fl)
					{
						std::vector<u32> a = f->accepted, b = by[f->id]; if (!f->ordered) {std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());} by.erase(f->id);
						if (a != b) bad("C24", "not-each-once", rec.name() + fmt(": flow %u: %zu messages sent, on_msg_send reported %zu or in another order", f->id, a.size(), b.size()));
					}
					if (!by.empty()) bad("C24", "foreign", rec.name() + ": on_msg_send reported a message which was not sent here");
				}
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
			if (on("C24") && ok)
				for (int k = 0; k < 2; ++k)
				{
					Rec& rec = k ? *l.s->rec : *l.c->rec; std::lock_guard<std::mutex> lk(rec.mu);
					u64 n = 0; for (auto* f : k ? to_cli[l.c->rec.get()] : to_srv[l.c->rec.get()]) n += f->n_accepted;
					std::vector<Flow*> fl = k ? to_cli[l.c->rec.get()] : to_srv[l.c->rec.get()]; if (k && bc) fl.push_back(bc);
					if (single && 1 == fl.size() && fl[0]->ordered && fl[0]->single) // which message was the n-th one is known
						for (size_t i = 0; i < rec.all_log.size(); ++i)
						{
							u64 sum = rec.all_sum[i]; if (0 == sum || sum > fl[0]->accepted.size()) {bad("C24", "all-count", rec.name() + fmt(": on_all_msg_send after %llu of %zu messages", sum, fl[0]->accepted.size())); break;}
							if (rec.all_log[i].second != fl[0]->accepted[sum - 1]) {bad("C24", "all-other", rec.name() + fmt(": on_all_msg_send after %llu messages got message %u, the last one sent was %u", sum, rec.all_log[i].second, fl[0]->accepted[sum - 1])); break;}
							vh::count("all_sent_identified");
						}
					if (!rec.all_log.empty())
					{
						bool some = false; for (auto* f : fl) if (!f->accepted.empty() && f->id == rec.all_log.back().first && (!f->ordered || f->accepted.back() == rec.all_log.back().second)) some = true;
						if (!some) bad("C24", "all-final", rec.name() + fmt(": the last on_all_msg_send got message %u of flow %u, which is not the last one of its flow", rec.all_log.back().second, rec.all_log.back().first));
					}
					if (n && rec.all_cb == 0) bad("C24", "all-missing", rec.name() + ": everything was sent, on_all_msg_send never ran");
#if defined(ST_ASIO_WANT_MSG_SEND_NOTIFY) || defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
					if (!rec.send_log.empty() && !rec.all_log.empty() && rec.send_log.back() != rec.all_log.back()) bad("C24", "all-final", rec.name() + ": on_all_msg_send did not run after the last message");
#endif
				}
#endif
			for (auto* rec : {l.c->rec.get(), l.s->rec.get()})
			{
				vh::count("handler_calls", rec->handled_calls); vh::count("refused", rec->refused); vh::count("sync_handled", rec->sync_got); vh::count("send_notifications", rec->send_cb); vh::count("all_sent_notifications", rec->all_cb); vh::count("reads", rec->arr->parses);
			}
		}
		vh::count("messages", msgs); vh::count("bytes", bytes); vh::count("links", links.size()); vh::count("sends_refused", refused); vh::count("lone_messages", lone);
		vh::distinct(vh::mix(msgs * 31 + bytes) ^ vh::hash_str(desc)); if (vh::want_sample()) vh::sample(fmt("%d links, %d threads, %d contexts, %zu flows, %llu messages, %llu bytes, %llu refused, send buffer %zu, receive buffer %zu, %s", nlinks, threads, ctxs, cas->flows.size(), msgs, bytes, refused.load(), send_buf, recv_buf, desc.c_str()));
	}
	vh::count("delays", vh::pert().delays.exchange(0));
	cur().reset();
}

int main(int argc, char** argv) {vh::g().rule = "a case is one set of links with its traffic; distinct by message count, bytes and schedule perturbation"; return vh::main(argc, argv, one_case, getenv("VH_LIMIT") ? atof(getenv("VH_LIMIT")) : 200);}
