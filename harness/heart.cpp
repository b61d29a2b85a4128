// Heartbeats: silent, live, congested and busy links on both sides at once, against what the plain peers sent and got and when.
#include <fcntl.h>
#include "raws.h"
using namespace rig;

static int dial(unsigned short port, unsigned& local)
{
	int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (0 != ::connect(fd, (struct sockaddr*) &a, sizeof a)) {::close(fd); return -1;}
	socklen_t n = sizeof a; getsockname(fd, (struct sockaddr*) &a, &n); local = ntohs(a.sin_port); fcntl(fd, F_SETFL, O_NONBLOCK); return fd;
}
enum Kind {L_SILENT, L_FALLS_SILENT, L_STALLED, L_HEARTBEATS, L_MESSAGES, L_MIXED, L_CONGESTED, L_N}; // what the plain peer does
static const char* kind_name[] = {"silent peer", "peer falls silent", "peer neither reads nor writes", "peer sends heartbeats", "peer sends messages", "peer sends both", "peer sends to one who does not read"};
static bool lives(int k) {return k >= L_HEARTBEATS;}
struct L
{
	int kind; bool server; unsigned lib_port, raw_port; Conn* conn; Rec* rec; Flow* in; Flow* out; double start, last, next, until, max_gap; bool judged, chatty, again; srv_ptr s; cli_ptr c;
	std::atomic<double> closed; std::atomic<int> errors;
	L() : kind(0), server(false), lib_port(0), raw_port(0), conn(NULL), rec(NULL), in(NULL), out(NULL), start(0), last(0), next(0), until(0), max_gap(0), judged(false), chatty(false), again(false), closed(0.), errors(0) {}
};
static S beat() {ext::packer<> k; std::string m; k.pack_heartbeat(m); return m;}

static void one_case(Rng& r)
{
	std::shared_ptr<Case> cas = std::make_shared<Case>(); cur() = cas; S desc = vh::pert_random(r); int threads = (int) r.range(2, 4), I = r.chance(3, 4) ? 1 : 2, M = 1 == I ? (int) r.range(2, 3) : 1 + (int) r.below(2), limit = I * M; bool congested = r.chance(1, 4);
	unsigned short port = free_port(), rport = free_port(); int n = congested ? 8 : (int) r.range(10, 20), pairs = limit >= 3 && M >= 3 && !congested ? 3 : 0; desc += fmt("; interval %d, absence %d, %d links, %d pairs", I, M, n, pairs);
#if ST_ASIO_HEARTBEAT_INTERVAL > 0
	I = ST_ASIO_HEARTBEAT_INTERVAL; M = ST_ASIO_HEARTBEAT_MAX_ABSENCE; limit = I * M; desc += ", automatic";
#else
	cas->on_connect_hook = [&](Rec& rec, void* me) {if ('s' == rec.side[0]) ((mon<raw_srv_sock>*) me)->start_heartbeat(I, M); else ((mon<raw_cli_sock>*) me)->start_heartbeat(I, M);};
#endif
	std::mutex lmu; std::map<Rec*, L*> of;
	cas->on_close_hook = [&](Rec& rec, void*) {std::lock_guard<std::mutex> l(lmu); auto i = of.find(&rec); if (of.end() != i && 0. == i->second->closed) {i->second->errors = (int) rec.hb_errors; i->second->closed = vh::now();}};
	double late = 0.; std::atomic<bool> quit(false);
	{
		service_pump sp; RawServer raw(rport); raw.up(); server_t server(sp); server.set_server_addr(port, "127.0.0.1"); client_t client(sp); std::vector<std::unique_ptr<L> > ls; vh::poster post = [&](std::function<void()> g) {boost::asio::post(server.next_layer().get_executor(), g);};
		for (int i = 0; i < n; ++i)
		{
			std::unique_ptr<L> l(new L); l->kind = congested ? L_CONGESTED : (int) r.below(L_CONGESTED); l->server = r.chance(1, 2); l->in = cas->flow(true, NULL); l->out = cas->flow(true, NULL); l->chatty = L_STALLED == l->kind || r.chance(1, 3);
			if (limit < 2 && lives(l->kind)) l->kind = (int) r.below(L_HEARTBEATS); if (!l->server) {l->c = client.add_socket(rport, "127.0.0.1"); l->again = L_SILENT == l->kind && r.chance(1, 2); l->c->delay = 20; l->c->set_reconnect(l->again);} ls.push_back(std::move(l));
		}
		std::vector<cli_ptr> pc; std::vector<Flow*> pf; for (int i = 0; i < pairs; ++i) pc.push_back(client.add_socket(port, "127.0.0.1"));
		sp.start_service(threads); double t0 = vh::now(); bool ok = true;
		for (auto& l : ls) {l->start = vh::now(); if (l->server) {int fd = -1; vh::wait_for([&]() {fd = dial(port, l->raw_port); return fd >= 0;}, 10.); if (fd < 0) {vh::inconclusive("cannot connect"); sp.stop_service(); cas->unhook(); return;} l->conn = raw.adopt(fd, l->raw_port);} else l->start = t0;}
		for (auto& l : ls)
		{
			L* p = l.get();
			if (p->server) ok = vh::await([&]() {server.do_something_to_all([&](srv_ptr& x) {if (x->rec->up && x->rec->rport == p->raw_port) p->s = x;}); return !!p->s;}, post, "setup", []() {return S("the links do not come up");});
			else ok = vh::await([&]() {if (!p->c->rec->up && !p->c->rec->closes) return false; std::lock_guard<std::mutex> g(raw.mu); for (auto& c : raw.conns) if (c->port == p->c->rec->lport) p->conn = c.get(); return NULL != p->conn;}, post, "setup", []() {return S("the links do not come up");});
			if (!ok) {sp.stop_service(); cas->unhook(); return;}
			p->rec = p->server ? p->s->rec.get() : p->c->rec.get(); {std::lock_guard<std::mutex> g(lmu); of[p->rec] = p;} p->last = p->start; p->next = 0;
			if (L_CONGESTED == p->kind) {if (p->server) p->s->recv_buf_size(3000); else p->c->recv_buf_size(3000);}
			double now = vh::now(); p->until = now + (L_FALLS_SILENT == p->kind ? r.range(100, 2500) / 1000. : L_SILENT == p->kind || L_STALLED == p->kind ? 0. : 1e15);
			if (L_STALLED == p->kind) {std::lock_guard<std::mutex> g(raw.mu); p->conn->stalled = true;}
		}
		if (congested) cas->hold = true; for (auto& c : pc) {ok = vh::await([&]() {return c->rec->up.load();}, post, "setup", []() {return S("the links do not come up");}); if (!ok) {sp.stop_service(); cas->unhook(); return;}}
		// ---- how late handlers run at all
		std::thread gauge([&]() {while (!quit) {std::atomic<bool> done(false); double a = vh::now(); post([&]() {done = true;}); while (!done && !quit) usleep(500); double d = vh::now() - a; if (d > late) late = d; for (int i = 0; i < 10 && !quit; ++i) usleep(1000); if (quit) {for (int i = 0; i < 3000 && !done; ++i) usleep(1000);}}});
		std::vector<std::thread> ts; u64 sd = r.next();
		ts.emplace_back([&]() { // the plain peers
			Rng q(sd); double margin = .35, most = std::max(.05, limit - 1 - margin);
			while (!quit)
			{
				double now = vh::now();
				for (auto& l : ls)
				{
					if (now > l->until || now < l->next) continue; S out; int k = l->kind;
					if (L_HEARTBEATS == k || ((L_MIXED == k || L_FALLS_SILENT == k) && q.chance(1, 2))) {out = beat(); vh::count("heartbeats_to_library");}
					else for (int j = (int) q.range(1, L_CONGESTED == k ? 6 : 2); j > 0; --j) {out += packed(body(l->in->id, l->in->next.fetch_add(1), pick_len(q, L_CONGESTED == k ? 700 : 60))); vh::count("messages_to_library");}
					l->max_gap = std::max(l->max_gap, now - l->last); l->last = now; {std::lock_guard<std::mutex> g(raw.mu); if (l->conn->fd >= 0) l->conn->out += out;}
					double most_ = L_CONGESTED == k ? .1 : most; l->next = now + (q.chance(1, 3) ? most_ : most_ * (int) q.below(100) / 100.);
				}
				usleep(3000);
			}});
		ts.emplace_back([&]() { // what the library side sends itself
			Rng q(sd + 1); std::map<Flow*, bool> x; std::vector<Flow*> f2, f3; for (size_t i = 0; i < pc.size(); ++i) {f2.push_back(cas->flow(true, NULL));}
			while (!quit)
			{
				for (auto& l : ls) if (l->chatty && 0. == l->closed && q.chance(1, L_STALLED == l->kind ? 2 : 40))
				{
					S b = body(l->out->id, 0, pick_len(q, L_STALLED == l->kind ? 900 : 100)); u32 seq = l->out->next.load(); b = body(l->out->id, seq, b.size());
					bool re = l->server ? l->s->send_msg(b.data(), b.size()) : l->c->send_msg(b.data(), b.size()); if (re) {++l->out->next; vh::count("messages_from_library");}
				}
				for (size_t i = 0; i < pc.size(); ++i) if (i > 0 && q.chance(1, 60)) {u32 seq = f2[i]->next.fetch_add(1); S b = body(f2[i]->id, seq, pick_len(q, 100)); pc[i]->send_msg(b.data(), b.size(), true);}
				usleep((unsigned) q.range(5000, 20000));
			}});
		// ---- the dead ones end, the others do not
		double slack = 8., horizon = 0; for (auto& l : ls) if (lives(l->kind)) horizon = std::max(horizon, vh::now() + limit * 2 + r.range(500, 2500) / 1000.); if (pairs) horizon = std::max(horizon, t0 + 2 * limit + 2.);
		auto who = [&](L& l) {return fmt("%s (%s side, %s%s): last written by the peer %.2f s after the start, limit %d s, ", l.rec->name().c_str(), l.server ? "server" : "client", kind_name[l.kind], l.chatty ? ", the library sends" : "", l.last - l.start, limit);};
		for (;;)
		{
			double now = vh::now(); bool wait = now < horizon; bool fail = vh::failed();
			for (auto& l : ls)
			{
				double closed = l->closed;
				if (lives(l->kind)) {if (closed > 0 && !l->judged) {l->judged = true; if (l->max_gap < limit - 1 - .2 && late < .12) bad("C13", "live-closed", who(*l) + fmt("never silent for more than %.2f s, but closed after %.2f s with %d heartbeat errors; ", l->max_gap, closed - l->start, (int) l->errors) + desc); else vh::count("disturbed");} continue;}
				if (closed > 0)
				{
					if (l->judged)
					{
						if (!l->again) continue; int k = (int) l->rec->closes; if (k > 1) {l->again = false; l->c->set_reconnect(false); vh::count("dead_closed_again"); if (l->rec->hb_errors != k) bad("C13", "error-reports", who(*l) + fmt("closed %d times with %d heartbeat errors reported; ", k, (int) l->rec->hb_errors) + desc);}
						else if (now > closed + limit + 2 * I + 2 + slack) {bad("C13", "dead-not-closed", who(*l) + fmt("connected %d times, the second link is not closed %.1f s after the end of the first; ", (int) l->rec->connects, now - closed) + desc); fail = true;} else wait = true;
						continue;
					}
					l->judged = true; vh::count("dead_closed");
					if (closed - l->last < limit - 1 - .05) bad("C13", "closed-early", who(*l) + fmt("closed %.2f s after that; ", closed - l->last) + desc);
					if (1 != l->errors) bad("C13", "error-reports", who(*l) + fmt("closed with %d heartbeat errors reported; ", (int) l->errors) + desc);
					continue;
				}
				if (now > std::max(l->last, l->until) + limit + 2 * I + 1 + slack) {bad("C13", "dead-not-closed", who(*l) + fmt("%.1f s ago, still not closed; ", now - l->last) + desc); fail = true; continue;}
				wait = true;
			}
			if (!wait || fail) break; tick(); usleep(20000);
		}
		quit = true; for (auto& t : ts) t.join(); gauge.join(); double end = vh::now();
		// ---- the live ones are still there and got heartbeats, too; messages arrived whole
		for (auto& l : ls)
		{
			std::unique_lock<std::mutex> g(raw.mu); Conn& c = *l->conn; if (!c.error.empty()) bad("C13", "stream", "the peer received garbage: " + c.error + "; " + who(*l) + desc);
			for (size_t i = 0; i < c.got.size(); ++i) if (c.got[i].first != l->out->id || c.got[i].second != i) {bad("C13", "sent-content", who(*l) + fmt("the peer got message %u of flow %u, expected %zu of %u; ", c.got[i].second, c.got[i].first, i, l->out->id) + desc); break;}
			if (L_STALLED == l->kind || 0. != l->closed || l->judged) continue;
			double gap = std::max(c.max_gap, end - (c.last_frame > 0 ? c.last_frame : c.since)), lasted = end - c.since; vh::count("live_links"); vh::count("heartbeats_from_library", c.beats);
			if (gap > 2 * I + 1 + slack / 2) bad("C13", "no-heartbeat", who(*l) + fmt("the peer got nothing for %.2f s (%ld heartbeats in %.1f s); ", gap, (long) c.beats, lasted) + desc);
			if (c.beats > lasted / I + 2) bad("C13", "too-many-heartbeats", who(*l) + fmt("%ld heartbeats in %.1f s; ", (long) c.beats, lasted) + desc);
		}
		if (late < .3) for (auto& c : pc) {vh::count("pairs"); if (c->rec->closes || c->rec->hb_errors) bad("C13", "live-closed", c->rec->name() + ": linked to a server, both send heartbeats, but closed or reported as dead; " + desc);}
		if (congested && !vh::failed())
		{
			cas->hold = false; for (auto& l : ls) if (0. == l->closed) {L* p = l.get(); ok = vh::await([&]() {std::lock_guard<std::mutex> g(p->rec->mu); return p->rec->got[p->in->id].size() >= p->in->next.load() || p->closed > 0;}, post, "congested-rest", [&]() {return who(*p) + desc;}, 4.); if (!ok) vh::die(); vh::count("congested_links");}
		}
		vh::count("latest_ms", (u64) (late * 1000)); sp.stop_service(); cas->unhook();
		vh::distinct(vh::hash_str(desc)); vh::sample(desc);
	}
}

int main(int argc, char** argv) {vh::g().rule = "a case is a set of links with their peers' behaviour, distinct by interval, absence, numbers and schedule perturbation"; return vh::main(argc, argv, one_case, 120.);}
