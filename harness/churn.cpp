// Links come and go for every reason at once: callbacks must be well-formed, nothing may run after a close notification, nothing may hang.
#include "world.h"
#include <arpa/inet.h>
using namespace rig;

// junk which the protocol cannot contain
static S junk(Rng& r) {return r.chance(1, 2) ? S("\x00\x00\x00\x00", 4) + r.bytes(r.below(50)) : S(3, '\0') + S(r.below(40), '\xff');}
template<typename Sock> static void user_work(std::shared_ptr<Case> cas, Rec& rec, Sock* s, Rng& r, std::atomic<u64>& posts, std::atomic<u64>& timers)
{
	Rec* rr = &rec; bool strict = cas->strict_close; if (!strict) return; // with delayed closing, the user may not rely on anything
	int n = (int) r.below(4);
	for (int i = 0; i < n; ++i)
	{
		if (r.chance(1, 2)) {unsigned us = (unsigned) r.below(2000); s->post([rr, us, &posts]() {InCb c(*rr, "posted", true); if (us) usleep(us); ++posts;});}
		else {unsigned us = (unsigned) r.below(1500); int left = (int) r.below(12); auto k = std::make_shared<int>(left); s->set_timer(Sock::TIMER_END + (unsigned short) r.below(3), (unsigned) r.range(1, 15), [rr, us, k, &timers](unsigned short) {InCb c(*rr, "timer", true); if (us) usleep(us); ++timers; return (*k)-- > 0;});}
	}
}
// a foreign client
static int raw_connect(unsigned short port)
{
	int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	struct timeval tv = {5, 0}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
	if (0 != ::connect(fd, (struct sockaddr*) &a, sizeof a)) {::close(fd); return -1;} return fd;
}

static void one_case(Rng& r)
{
	std::shared_ptr<Case> cas = std::make_shared<Case>(); cur() = cas; S desc = vh::pert_random(r);
	int clients = (int) r.range(1, 6), threads = (int) r.range(1, 5), ctxs = r.chance(1, 3) ? 2 : 1, rounds = (int) r.range(1, 2); unsigned span = (unsigned) r.range(80, 500); bool cap = r.chance(1, 4); bool may_mid = r.chance(1, 2); if (cap || may_mid) ctxs = 1; // links accepted on another context while it runs out: see down-two
	std::atomic<u64> posts(0), timers(0), ops(0), raws(0); u64 stops_mid = 0;
	cas->on_body_hook = [cas](Rec&, const S& b) {u32 f, q; const char* e = b.size() >= MIN_BODY ? parse(b.data(), b.size(), f, q) : NULL; (void) e; return true;};
	if (r.chance(1, 3)) cas->refuse = (unsigned) r.range(2, 6); if (r.chance(1, 3)) cas->handle_us = (unsigned) r.below(1500);
	cas->on_connect_hook = [&, cas](Rec& rec, void* p)
	{
		rec.arr->keep = false; {std::lock_guard<std::mutex> l(rec.mu); rec.refused_pending = false;} static thread_local Rng q(vh::mix(syscall(SYS_gettid)));
		if ('c' == rec.side[0]) {auto* s = (cli_sock*) (mon<raw_cli_sock>*) p; s->msg_handling_interval(3); s->msg_resuming_interval(3); user_work(cas, rec, s, q, posts, timers);} else {auto* s = (srv_sock*) (mon<raw_srv_sock>*) p; s->msg_handling_interval(3); s->msg_resuming_interval(3); user_work(cas, rec, s, q, posts, timers);}
	};
	cas->on_close_hook = [](Rec&, void*) {static thread_local Rng q(vh::mix(syscall(SYS_gettid) + 5)); if (q.chance(1, 3)) usleep((unsigned) q.below(2000));}; // something that runs on would be seen
	{
		World w(cas, ctxs); if (cap) w.server.max_size((size_t) r.range(1, 4));
		for (int i = 0; i < clients; ++i) {cli_ptr c = w.add(); c->delay = (int) r.below(6);}
		for (int round = 0; round < rounds && !vh::failed(); ++round)
		{
			if (round) for (auto& l : w.links) {l.c = w.client.add_socket(w.port, "127.0.0.1"); l.c->delay = (int) r.below(6);} // the former ones were given up by stopping
			w.sp.start_service(std::max(threads, ctxs)); vh::wait_for([&]() {for (auto& l : w.links) if (l.c->rec->up) return true; return vh::failed();}, 3);
			std::atomic<bool> halt(false), client_halt(false); std::atomic<int> client_ops(1); std::vector<std::thread> ts; u64 sd = r.next();
			// server side, any thread, the same sockets
			for (int t = 0; t < 2; ++t) ts.emplace_back([&, t, sd]()
			{
				Rng q(sd + t);
				while (!halt && !vh::failed())
				{
					std::vector<srv_ptr> v; w.server.do_something_to_all([&](srv_ptr& s) {v.push_back(s);});
					if (!v.empty())
					{
						srv_ptr s = v[q.below(v.size())]; ++ops;
						switch (q.below(8))
						{
						case 0: case 1: s->force_shutdown(); break;
						case 2: s->disconnect(); break;
						case 3: for (int i = 0; i < 3; ++i) s->force_shutdown(); break;
						case 4: if (0 == t) s->graceful_shutdown(); break;
						case 5: {S j = junk(q); s->send_native_msg(j.data(), j.size(), true); break;}
						case 6: if (q.chance(1, 4)) w.server.force_shutdown(); else if (0 == t && q.chance(1, 2)) w.server.graceful_shutdown(s); else w.server.force_shutdown(s); break;
						default: {S b = body(1, (u32) q.below(1000), 14 + q.below(600)); for (int i = 0; i < 5; ++i) w.server.broadcast_msg(b.data(), b.size(), false, false); break;}
						}
					}
					usleep((unsigned) q.below(8000));
				}
			});
			// client side: one thread, as documented
			ts.emplace_back([&, sd]()
			{
				Rng q(sd + 11);
				while (!halt && !client_halt && !vh::failed())
				{
					Link& l = w.links[q.below(w.links.size())]; ++ops;
					switch (q.below(8))
					{
					case 0: case 1: l.c->force_shutdown(true); break;
					case 2: l.c->graceful_shutdown(true); break;
					case 3: l.c->disconnect(true); l.c->graceful_shutdown(true); break;
					case 4: {S j = junk(q); l.c->send_native_msg(j.data(), j.size(), true); break;}
					case 5: if (q.chance(1, 8)) w.client.force_shutdown(true); break;
					default: {for (int i = 0; i < 8; ++i) {S b = body(1, (u32) q.below(1000), 14 + q.below(900)); l.c->send_msg(b.data(), b.size(), q.chance(1, 2), false);} break;}
					}
					usleep((unsigned) q.below(8000));
				}
				client_ops = 0;
			});
			// foreign clients
			ts.emplace_back([&, sd]()
			{
				Rng q(sd + 23); std::vector<int> open;
				while (!halt && !vh::failed())
				{
					int fd = raw_connect(w.port); if (fd < 0) {usleep(2000); continue;} ++raws; 
					if (q.chance(2, 3)) {S j = q.chance(1, 2) ? junk(q) : q.bytes(q.below(200)); if (q.chance(1, 3)) j = packed(body(1, 1, 50)).substr(0, 1 + q.below(40)); ::send(fd, j.data(), j.size(), MSG_NOSIGNAL);}
					switch (q.below(4))
					{
					case 0: {struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(fd); break;}
					case 1: ::shutdown(fd, SHUT_WR); open.push_back(fd); break;
					case 2: open.push_back(fd); break;
					default: ::close(fd);
					}
					while (open.size() > 6) {::close(open[0]); open.erase(open.begin());}
					usleep((unsigned) q.below(6000));
				}
				for (int f : open) ::close(f);
			});
			double until = vh::now() + span / 1000.; while (vh::now() < until && !vh::failed()) {usleep(2000); tick();}
			auto st = [&]() {S s = desc; for (auto& l : w.links) s += fmt("; %s up %d connects %d closes %d status %d started %d aci %ld delay_close %d connect timer %d delay timer %d reconnect %d sending %d pending %zu open %d", l.c->rec->name().c_str(), l.c->rec->up.load(), l.c->rec->connects.load(), l.c->rec->closes.load(), (int) l.c->get_link_status(), l.c->started(), l.c->get_aci_ref(), l.c->is_timer(cli_sock::TIMER_DELAY_CLOSE), l.c->is_timer(cli_sock::TIMER_CONNECT), l.c->is_timer(cli_sock::TIMER_CONNECT_DELAY), l.c->is_reconnect(), l.c->is_sending(), (size_t) l.c->get_pending_send_msg_size(), l.c->lowest_layer().is_open());
				std::lock_guard<std::mutex> l(cas->mu); for (auto& x : cas->recs) if ('s' == x->side[0] && x->up) {s += "; up: " + x->name(); if (x->sock) {srv_sock* k = (srv_sock*) (mon<raw_srv_sock>*) x->sock; s += fmt(" id %llu status %d started %d aci %ld delay_close %d async_shutdown %d sending %d pending %zu open %d", (u64) k->id(), (int) k->get_link_status(), k->started(), k->get_aci_ref(), k->is_timer(srv_sock::TIMER_DELAY_CLOSE), k->is_timer(srv_sock::TIMER_ASYNC_SHUTDOWN), k->is_sending(), (size_t) k->get_pending_send_msg_size(), k->lowest_layer().is_open());}} return s;}; vh::g().on_hang = st;
			bool mid = round == rounds - 1 && may_mid; // handlers left behind by a stopped pump would run at the next start
			if (!mid) {halt = true; for (auto& t : ts) t.join(); ts.clear();
				// everything recovers: every client is connected again, unless the server is full
				if (!cap) w.await([&]() {for (auto& l : w.links) if (!l.c->rec->up && !l.c->obsoleted() && l.c->is_reconnect()) return false; return true;}, "recover", st);
			}
			else ++stops_mid;
			if (ctxs > 1) {usleep(30000); vh::wait_for([&]() {return vh::all_asleep();}, 2); usleep(10000); vh::wait_for([&]() {return vh::all_asleep();}, 2);} // every foreign client has been accepted; for those accepted while a context is running out, see down-two
			client_halt = true; while (client_ops) usleep(300); // shutting a client down is documented as not thread safe
			std::atomic<bool> stopped(false); std::thread stopper([&]() {w.sp.stop_service(); stopped = true;}); if (mid) {usleep((unsigned) r.below(3000)); halt = true; for (auto& t : ts) t.join(); ts.clear();}
			double limit = 30; double b = vh::now(); u64 last = vh::g().progress; while (!stopped) {usleep(500); u64 n = vh::g().progress; (void) last; last = n; if (vh::now() - b > limit + 10 * ST_ASIO_DELAY_CLOSE) {
				if (vh::all_asleep()) {} bad("C14 C08", "stop-hang", "stopping does not end; " + st()); vh::die();}}
			stopper.join(); vh::g().on_hang = nullptr;
			// all links ended, once each
			std::lock_guard<std::mutex> l(cas->mu);
			for (auto& x : cas->recs)
			{
				if (x->up) bad("C08 C14", "not-closed", x->name() + fmt(" got no close notification by the end of the service (%d connected, %d closed)", x->connects.load(), x->closes.load()));
				if (x->connects != x->closes) bad("C08", "unbalanced", x->name() + fmt(": %d connected notifications, %d close notifications", x->connects.load(), x->closes.load()));
			}
		}
	}
	u64 con = 0, clo = 0, une = 0, rst = 0, rec_err = 0; {std::lock_guard<std::mutex> l(cas->mu); for (auto& x : cas->recs) {con += x->connects; clo += x->closes; une += x->unpack_errors; rst += x->resets; rec_err += x->recv_errors; if (x->alive) bad("C08 C09", "leaked", x->name() + " still exists after its server and client were destroyed");}}
	vh::pert_off(); vh::count("links_established", con); vh::count("close_notifications", clo); vh::count("unpack_errors", une); vh::count("receive_errors", rec_err); vh::count("shutdown_and_send_ops", ops); vh::count("foreign_clients", raws); vh::count("user_posts", posts); vh::count("user_timer_calls", timers); vh::count("objects_reused", rst); vh::count("stops_under_load", stops_mid); vh::count("delays", vh::pert().delays.exchange(0)); vh::distinct(vh::mix(con * 31 + une * 7 + ops) ^ vh::hash_str(desc));
	if (vh::want_sample()) vh::sample(fmt("%d clients, %d threads, %d contexts, %u ms, %d rounds: %llu links, %llu unpack errors, %s", clients, threads, ctxs, span, rounds, con, une, desc.c_str())); cas->unhook(); cur().reset();
}
int main(int argc, char** argv) {vh::g().rule = "a case is one run of clients, servers and foreign clients tearing links down, distinct by link, error and operation counts and schedule perturbation"; return vh::main(argc, argv, one_case, 200);}
