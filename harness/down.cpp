// Ways down: graceful shutdown loses nothing that was written, uncooperative peers are cut after the limit, stopping ends under load, restarting works.
#include "world.h"
#include <arpa/inet.h>
#include <poll.h>
using namespace rig;

static int raw_connect(unsigned short port)
{
	int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	struct timeval tv = {20, 0}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
	if (0 != ::connect(fd, (struct sockaddr*) &a, sizeof a)) {::close(fd); return -1;} return fd;
}
static unsigned raw_port(int fd) {struct sockaddr_in a; socklen_t l = sizeof a; getsockname(fd, (struct sockaddr*) &a, &l); return ntohs(a.sin_port);}
static S up_ones(Case& cas) {S s; std::lock_guard<std::mutex> l(cas.mu); for (auto& x : cas.recs) if (x->up) s += x->name() + fmt(" (%d connected, %d closed) ", x->connects.load(), x->closes.load()); return s;}
static void all_down(Case& cas, const char* when)
{
	std::lock_guard<std::mutex> l(cas.mu);
	for (auto& x : cas.recs) if (x->up || x->connects != x->closes) bad("C14 C11", "not-closed", x->name() + fmt(" got no close notification %s (%d connected, %d closed)", when, x->connects.load(), x->closes.load()));
}
static void stop(World& w, Case& cas)
{
	std::atomic<bool> done(false); std::thread st([&]() {w.sp.stop_service(); done = true;}); double b = vh::now();
	while (!done) {usleep(300); if (vh::now() - b > 25) {bad("C14 C11", "stop-hang", "stopping does not end; up: " + up_ones(cas)); vh::die();}}
	st.join(); all_down(cas, "by the end of the service");
}

// foreign and own clients keep connecting while the service is stopped; then it is started again
static void stop_race(Rng& r, std::shared_ptr<Case> cas)
{
	World w(cas, getenv("VH_CTX2") ? 2 : 1); int own = (int) r.below(5), th = (int) r.range(1, 4), rounds = (int) r.range(1, 3); u64 conns = 0;
	for (int round = 0; round < rounds && !vh::failed(); ++round)
	{
		w.links.clear(); for (int i = 0; i < own; ++i) {cli_ptr c = w.add(); c->delay = (int) r.below(4);}
		w.sp.start_service(std::max(th, w.nctx)); std::atomic<bool> halt(false); std::mutex mu; std::vector<int> fds; std::vector<std::thread> ts;
		for (int i = 0; i < 2; ++i) ts.emplace_back([&]() {while (!halt) {int fd = raw_connect(w.port); if (fd < 0) {usleep(500); continue;} std::lock_guard<std::mutex> l(mu); fds.push_back(fd); if (fds.size() > 60) {::close(fds.front()); fds.erase(fds.begin());}}});
		std::thread stopper; if (r.chance(3, 4)) usleep((unsigned) r.below(20000)); else vh::wait_for([&]() {return own == 0 || w.links[0].c->rec->up.load();}, 2);
		std::thread late([&]() {usleep(30000); halt = true;}); stop(w, *cas); late.join(); for (auto& t : ts) t.join(); conns += fds.size(); for (int f : fds) ::close(f);
		vh::count("stops_under_load");
	}
	if (!vh::failed()) // and works as before
	{
		w.links.clear(); int n = (int) r.range(1, 3); if (w.start(n, th, "restart-setup")) for (auto& l : w.links)
		{
			Flow* f = cas->flow(true, l.s->rec.get()); Flow* g = cas->flow(true, l.c->rec.get()); for (int i = 0; i < 20; ++i) {send_next(*l.c, r, *f, A_PTR, 60, true, false); send_next(*l.s, r, *g, A_PTR, 60, true, false);}
			w.await([&]() {return l.s->rec->got_n >= 20 && l.c->rec->got_n >= 20;}, "restart-traffic");
		}
		stop(w, *cas);
	}
	vh::count("foreign_connections", conns);
}

// graceful shutdown, idle or busy, of either side or both; what was written arrives
static void grace(Rng& r, std::shared_ptr<Case> cas)
{
	int n = (int) r.range(1, 5); World w(cas, r.chance(1, 4) ? 2 : 1); if (!w.start(n, (int) r.range(1, 5))) {stop(w, *cas); return;}
	for (auto& l : w.links) {l.c->set_reconnect(false); l.c->rec->arr->keep = l.s->rec->arr->keep = false;}
	if (r.chance(1, 3)) {cas->sndbuf = 8192;} std::vector<std::thread> ts; bool busy = r.chance(1, 2); size_t typ = r.chance(1, 3) ? 3000 : 200; int msgs = (int) r.range(1, 250); u64 sd = r.next();
	for (int i = 0; i < n; ++i)
	{
		Link l = w.links[i]; Flow* f = cas->flow(true, l.s->rec.get()); Flow* g = cas->flow(true, l.c->rec.get()); unsigned who = (unsigned) r.below(4); unsigned gap = (unsigned) r.below(400), when = (unsigned) r.below(8000); bool wait_c = !busy && r.chance(1, 2);
		ts.emplace_back([=, &w]()
		{
			Rng q(sd + i); for (int k = 0; k < msgs; ++k) {if (q.chance(2, 3)) send_next(*l.c, q, *f, A_PTR, pick_len(q, typ), true, false); if (q.chance(2, 3)) send_next(*l.s, q, *g, A_PTR, pick_len(q, typ), true, false); if (q.chance(1, 30)) usleep(gap);}
			if (busy) usleep(when); else vh::wait_for([&]() {return (!l.c->is_sending() && 0 == l.c->get_pending_send_msg_size() && (wait_c || (!l.s->is_sending() && 0 == l.s->get_pending_send_msg_size())));}, 10);
			if (0 == who || 2 == who) l.c->graceful_shutdown(false); if (1 == who || 2 == who) l.s->graceful_shutdown();
			if (3 == who) {l.s->graceful_shutdown(); usleep((unsigned) q.below(500)); l.s->graceful_shutdown(); l.c->graceful_shutdown(false); l.c->graceful_shutdown(false);}
		});
	}
	for (auto& t : ts) t.join();
	w.await([&]() {for (auto& l : w.links) if (l.c->rec->closes < 1 || l.s->rec->closes < 1) return false; return true;}, "graceful-closes", [&]() {return "up: " + up_ones(*cas);}, 4 + ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION);
	if (!vh::failed()) for (auto& l : w.links)
	{
		u64 ca = l.s->rec->arr->msgs, sa = l.c->rec->arr->msgs;
		if (ca < l.c->rec->send_cb) bad("C14", "written-lost", l.s->rec->name() + fmt(": received %llu messages, but its peer had reported %llu as sent before it shut down gracefully", ca, l.c->rec->send_cb.load()));
		if (sa < l.s->rec->send_cb) bad("C14", "written-lost", l.c->rec->name() + fmt(": received %llu messages, but its peer had reported %llu as sent before the graceful shutdown", sa, l.s->rec->send_cb.load()));
		vh::count("graceful_links"); vh::count("messages_before_close", ca + sa); vh::distinct(vh::mix(ca * 1000 + sa));
	}
	stop(w, *cas);
}

// a peer which does not close
static void stubborn(Rng& r, std::shared_ptr<Case> cas)
{
	World w(cas, 1); w.sp.start_service((int) r.range(1, 3)); int n = (int) r.range(1, 4); std::vector<std::thread> ts; u64 sd = r.next();
	for (int i = 0; i < n; ++i) ts.emplace_back([&, i]()
	{
		Rng q(sd + i); int fd = raw_connect(w.port); if (fd < 0) {vh::count("raw_failed"); return;} unsigned port = raw_port(fd); srv_ptr s;
		vh::wait_for([&]() {w.server.do_something_to_all([&](srv_ptr& x) {if (x->rec->up && x->rec->rport == port) s = x;}); return !!s;}, 20); if (!s) {bad("C27 C14", "not-accepted", "a foreign client is not served"); ::close(fd); return;}
		s->rec->arr->keep = false; int how = (int) q.below(5); u64 sent = 0; Flow* f = cas->flow(false, s->rec.get()); double b = vh::now();
		auto send_one = [&]() {u32 seq = f->next.fetch_add(1); S p = packed(body(f->id, seq, 14 + q.below(200))); if (::send(fd, p.data(), p.size(), MSG_NOSIGNAL) == (ssize_t) p.size()) ++sent;};
		bool cut = false; double lim = ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION;
		switch (how)
		{
		case 0: case 1: s->graceful_shutdown(); cut = true; break;          // it goes on sending, until it is cut off
		case 2: case 3: s->graceful_shutdown(); break;                      // it sends for a while, then closes
		default: s->force_shutdown(); if (q.chance(1, 2)) s->force_shutdown();
		}
		b = vh::now();
		if (cut || how <= 3) {int k = (int) q.range(1, 30); for (int j = 0; j < k; ++j) {send_one(); if (q.chance(1, 2)) usleep((unsigned) q.below(cut ? 30000 : 10000));}}
		double took = vh::now() - b; bool in_time = took < lim * 0.7;
		if (how == 2 || how == 3) {if (2 == how) ::shutdown(fd, SHUT_WR); char buf[256]; double rb = vh::now(); if (3 == how) {::shutdown(fd, SHUT_WR);} ssize_t g; while ((g = ::recv(fd, buf, sizeof buf, 0)) > 0); (void) rb;}
		if (!w.await([&]() {return s->rec->closes > 0;}, "stubborn-closes", [&]() {return fmt("%s, mode %d, status %d", s->rec->name().c_str(), how, (int) s->get_link_status());}, 4 + lim)) {::close(fd); return;}
		double d = vh::now() - b;
		if (cut && d < lim * 0.95) bad("C14", "cut-early", s->rec->name() + fmt(": closed %.2f s after the graceful shutdown, the limit is %.0f s", d, lim));
		if (how <= 3 && in_time && s->rec->arr->msgs < sent) bad("C14", "late-data-lost", s->rec->name() + fmt(": received %llu messages of the %llu which its peer sent during the graceful shutdown", s->rec->arr->msgs.load(), sent));
		char buf[256]; ssize_t g; struct timeval tv = {10, 0}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); while ((g = ::recv(fd, buf, sizeof buf, 0)) > 0); // the peer must see the end
		if (g < 0 && (EAGAIN == errno || EWOULDBLOCK == errno)) bad("C14", "peer-not-told", s->rec->name() + ": is closed, but the peer sees no end of the connection");
		::close(fd); vh::count("stubborn_peers"); vh::count("sent_during_shutdown", sent);
	});
	for (auto& t : ts) t.join(); stop(w, *cas);
}
// a foreign server which accepts and never closes, or never answers at all; a client shuts down
static void stubborn_server(Rng& r, std::shared_ptr<Case> cas)
{
	unsigned short port = free_port(); int ls = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); int one = 1; setsockopt(ls, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	if (0 != ::bind(ls, (struct sockaddr*) &a, sizeof a) || 0 != ::listen(ls, 50)) {::close(ls); vh::count("raw_failed"); return;}
	{
		World w(cas, 1); int n = (int) r.range(1, 4); std::vector<cli_ptr> cs; std::vector<int> how; std::vector<int> fds; for (int i = 0; i < n; ++i) {cs.push_back(w.client.add_socket(port, "127.0.0.1")); how.push_back((int) r.below(4));}
		w.sp.start_service((int) r.range(1, 3)); bool early = r.chance(1, 3); double b = 0;
		if (early) usleep((unsigned) r.range(30000, 80000)); // while connecting
		else w.await([&]() {for (auto& c : cs) if (!c->rec->up) return false; return true;}, "stubborn-setup");
		b = vh::now(); std::vector<RecP> rs; for (auto& c : cs) rs.push_back(c->rec);
		for (int i = 0; i < n && !vh::failed(); ++i) switch (how[i]) {case 0: cs[i]->graceful_shutdown(); break; case 1: cs[i]->force_shutdown(); break; case 2: cs[i]->graceful_shutdown(); cs[i]->force_shutdown(); break; default: cs[i]->disconnect(); cs[i]->graceful_shutdown();}
		w.await([&]() {for (auto& c : cs) if (c->started() || c->rec->up || c->rec->after_closes < 1) return false; return true;}, "client-shutdown", [&]() {S s; for (int i = 0; i < n; ++i) s += fmt("%s: mode %d up %d closes %d started %d status %d; ", rs[i]->name().c_str(), how[i], rs[i]->up.load(), rs[i]->closes.load(), cs[i]->started(), (int) cs[i]->get_link_status()); return s;}, 4 + ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION);
		double d = vh::now() - b; (void) d; if (!vh::failed()) {usleep(60000); for (auto& c : cs) if (c->rec->up) bad("C14 C10", "came-back", c->rec->name() + ": connected again after a shutdown which asked not to reconnect"); if (w.client.size() > 0) bad("C10 C14", "not-removed", fmt("%zu clients are still in their container after shutdowns without reconnecting", (size_t) w.client.size()));}
		cs.clear(); stop(w, *cas); vh::count("client_shutdowns", n); for (int f : fds) ::close(f);
	}
	::close(ls);
}
static void one_case(Rng& r)
{
	std::shared_ptr<Case> cas = std::make_shared<Case>(); cur() = cas; S desc = vh::pert_random(r); static const char* names[] = {"stop race", "graceful", "stubborn peer", "stubborn server"};
	int m; switch (r.below(10)) {case 0: case 1: case 2: case 3: m = 0; break; case 4: case 5: case 6: m = 1; break; case 7: m = 2; break; default: m = 3;}
	vh::g().on_hang = [cas]() {return "up: " + up_ones(*cas);};
	switch (m) {case 0: stop_race(r, cas); break; case 1: grace(r, cas); break; case 2: stubborn(r, cas); break; default: stubborn_server(r, cas);}
	vh::g().on_hang = nullptr; u64 con = 0; {std::lock_guard<std::mutex> l(cas->mu); for (auto& x : cas->recs) {con += x->connects; if (x->alive) bad("C14 C09", "leaked", x->name() + " still exists after its server and client were destroyed");}}
	vh::pert_off(); vh::count("links_closed", con); vh::count("delays", vh::pert().delays.exchange(0)); vh::count((S("cases: ") + names[m]).c_str()); vh::distinct(vh::mix(con * 7 + m) ^ vh::hash_str(desc)); if (vh::want_sample()) vh::sample(fmt("%s: %llu links; %s", names[m], con, desc.c_str()));
	cas->unhook(); cur().reset();
}
int main(int argc, char** argv) {vh::g().rule = "a case is one scenario of links going down (stop under load and restart, graceful with traffic, uncooperative peers), distinct by scenario, link and message counts and schedule perturbation"; return vh::main(argc, argv, one_case, 200);}
