// Clients whose links break in every way: they come back as configured, what was not yet written survives whole and in order, nothing of the old link leaks into the new one.
// The peer is a plain socket server, which sees the bytes of every link.
#include "raws.h"
using namespace rig;

struct LinkLog {unsigned port; std::map<u32, size_t> done; bool closed; LinkLog() : port(0), closed(false) {}}; // done: messages written or failed so far, when the link was closed, by flow
struct Cl
{
	cli_ptr c; std::vector<Flow*> flows; std::mutex mu; std::vector<LinkLog> links; double last_prepare; int last_delay; size_t too_early; double worst;
	Cl() : last_prepare(0), last_delay(0), too_early(0), worst(0) {}
};

static void one_case(Rng& r)
{
	std::shared_ptr<Case> cas = std::make_shared<Case>(); cur() = cas; S desc = vh::pert_random(r);
	int ncl = (int) r.range(1, 3), threads = (int) r.range(1, 4), rounds = (int) r.range(1, 4), flows = (int) r.range(1, 2); unsigned short port = free_port(); if (r.chance(1, 2)) cas->refuse = (unsigned) r.range(1, 4) + 1;
	if (r.chance(1, 2)) {cas->sndbuf = (int) r.range(4096, 16000);}
	S story; u64 n_links = 0, n_prep = 0, n_msgs = 0, n_carried = 0, n_end = 0;
	{
		service_pump sp; client_t client(sp); RawServer srv(port); srv.rcvbuf = r.chance(1, 2) ? (int) r.range(4096, 16000) : 0; std::vector<std::unique_ptr<Cl> > cls; std::map<Rec*, Cl*> of; std::map<unsigned, Flow*> down_flows; // server to client, by port and connection
		std::atomic<bool> halt(false); bool early = r.chance(1, 3);
		if (!early) srv.up();
		for (int i = 0; i < ncl; ++i)
		{
			cls.emplace_back(new Cl); Cl& k = *cls.back(); k.c = client.add_socket(port, "127.0.0.1"); k.c->delay = (int) r.below(r.chance(1, 3) ? 150 : 20); of[k.c->rec.get()] = &k;
		}
		int choosing = r.chance(1, 3) ? (int) r.range(1, 160) : 0; // how long the user's prepare_reconnect takes
		cas->on_prepare_hook = [&](Rec& rec, int d)
		{
			Cl& k = *of[&rec]; std::unique_lock<std::mutex> l(k.mu); double n = vh::now();
			if (k.last_prepare > 0 && k.last_delay >= 0 && n - k.last_prepare < k.last_delay / 1000. - .002) {++k.too_early; k.worst = n - k.last_prepare;}
			k.last_prepare = n; k.last_delay = d; if (choosing) {int w = (int) (vh::prnd() % choosing); l.unlock(); std::this_thread::sleep_for(std::chrono::milliseconds(w));}
		};
		int binding = r.chance(1, 4) ? (int) r.range(1, 60) : 0; if (binding) cas->on_bind_hook = [binding]() {tick(); std::this_thread::sleep_for(std::chrono::milliseconds((int) (vh::prnd() % binding)));};
		unsigned handling = (unsigned) r.range(1, 8);
		cas->on_connect_hook = [&](Rec& rec, void* p)
		{
			auto* s = (cli_sock*) (mon<raw_cli_sock>*) p; s->msg_handling_interval(handling); s->msg_resuming_interval(3); Cl& k = *of[&rec]; std::lock_guard<std::mutex> l(k.mu); double n = vh::now();
			if (k.last_prepare > 0 && k.last_delay >= 0 && n - k.last_prepare < k.last_delay / 1000. - .002) {++k.too_early; k.worst = n - k.last_prepare;}
			k.last_prepare = 0; k.links.emplace_back(); k.links.back().port = rec.lport;
		};
		cas->on_close_hook = [&](Rec& rec, void*)
		{
			if (!rec.up) return; Cl& k = *of[&rec]; std::lock_guard<std::mutex> l(k.mu), m(rec.mu); if (k.links.empty()) return; LinkLog& g = k.links.back(); g.closed = true;
			for (auto& x : rec.send_log) ++g.done[x.first]; for (auto& x : rec.error_log) ++g.done[x.first];
		};
		// the server greets each link with messages of a flow of its own
		u64 gseed = r.next(); int greet = (int) r.below(30); std::map<int, std::pair<Flow*, int> > greets; // by connection
		srv.on_accept = [&](Conn& c) {Rng q(gseed + c.index); Flow* f = cas->flow(true, NULL); int n = greet ? (int) q.below(greet) : 0; for (int i = 0; i < n; ++i) {u32 s = f->next.fetch_add(1); c.out += packed(body(f->id, s, pick_len(q, 200)));} greets[c.index] = std::make_pair(f, n);};
		sp.start_service(threads);
		std::atomic<unsigned> turn(0); vh::poster post = [&](std::function<void()> f) {boost::asio::post(cls[++turn % cls.size()]->c->lowest_layer().get_executor(), f);};
		auto st = [&]() {S s = desc + " | " + story; for (auto& k : cls) s += fmt("; client %llu: started %d up %d pending %zu sending %d dispatching %d connects %d closes %d prepares %d reconnect %d", (u64) k->c->id(), k->c->started(), (int) k->c->rec->up, (size_t) k->c->get_pending_send_msg_size(), k->c->is_sending(), k->c->is_dispatching(), (int) k->c->rec->connects, (int) k->c->rec->closes, (int) k->c->prepares, k->c->is_reconnect()); return s;};
		vh::g().on_hang = st;
		std::vector<std::thread> ts; std::atomic<int> active(0); int volume = (int) r.range(5, 200); unsigned gap = (unsigned) r.below(800);
		auto feed = [&](int vol)
		{
			for (auto& k : cls) for (int i = 0; i < flows; ++i)
			{
				Flow* f = cas->flow(true, NULL); f->single = true; k->flows.push_back(f); ++active; u64 sd = r.next(); Cl* kk = k.get();
				ts.emplace_back([&, kk, f, sd, vol]() {Rng q(sd); static const unsigned apis[] = {A_PTR, A_ARR, A_BUF, A_NPTR, A_DREF}; for (int i = 0; i < vol && !vh::failed(); ++i) {send_next(*kk->c, q, *f, apis[q.below(5)], pick_len(q, 300), true, false); if (q.chance(1, 4)) usleep(q.below(gap + 1));} --active;});
			}
		};
		auto join = [&](const char* w) {bool ok = vh::await([&]() {return vh::failed() || 0 == active;}, post, w, st); for (auto& t : ts) if (ok) t.join(); else t.detach(); ts.clear(); if (!ok) vh::die();};
		auto all_up = [&](const char* key) {return vh::await([&]() {if (vh::failed()) return true; for (auto& k : cls) if (!k->c->rec->up) return false; std::lock_guard<std::mutex> l(srv.mu); for (auto& k : cls) {bool some = false; for (auto& c : srv.conns) if (!c->eof && !c->cut && c->port == k->c->rec->lport) some = true; if (!some) return false;} return true;}, post, key, st, 6.);};
		if (early) // not there yet
		{
			int want = (int) r.range(1, 3); story += "late server; ";
			vh::await([&]() {if (vh::failed()) return true; for (auto& k : cls) if (k->c->prepares < want) return false; return true;}, post, "no-retry", st, 6.); srv.up();
		}
		feed(volume);
		for (int round = 0; round < rounds && !vh::failed(); ++round)
		{
			if (r.chance(3, 4)) {if (!all_up("not-reconnected")) break; usleep((unsigned) r.below(8000));} else usleep((unsigned) r.below(60000));
			int kind = (int) r.below(9); S tail; {Rng q(r.next()); if (r.chance(2, 3)) {S m = packed(body(4000, 1, 100 + q.below(600))); tail = m.substr(0, 1 + q.below(m.size() - 1));}}
			story += fmt("round %d kind %d; ", round, kind); vh::count(("breaks_of_kind_" + std::to_string(kind)).c_str());
			if (kind < 4) {std::lock_guard<std::mutex> l(srv.mu); for (auto& c : srv.conns) if (!c->eof && !c->cut && r.chance(3, 4)) srv.cut(*c, kind, tail);}
			else if (4 == kind || 5 == kind) {for (auto& k : cls) if (r.chance(2, 3)) {cli_ptr c = k->c; bool g = 5 == kind; c->post([c, g]() {if (!c->rec->up) return; if (g) c->graceful_shutdown(true); else c->force_shutdown(true);});}} // by the user, to reconnect
			else if (6 == kind) {srv.drop_new = true; {std::lock_guard<std::mutex> l(srv.mu); for (auto& c : srv.conns) if (!c->eof) srv.cut(*c, 1, S());} usleep((unsigned) r.below(300000)); srv.drop_new = false;}
			else if (7 == kind) {{std::lock_guard<std::mutex> l(srv.mu); for (auto& c : srv.conns) if (!c->eof) c->stalled = true;} if (r.chance(1, 2)) feed((int) r.range(5, 120)); usleep((unsigned) r.below(30000)); std::lock_guard<std::mutex> l(srv.mu); for (auto& c : srv.conns) if (!c->eof) {c->stalled = false; srv.cut(*c, 1, tail);}}
			else
			{
				srv.down(); {std::lock_guard<std::mutex> l(srv.mu); for (auto& c : srv.conns) if (!c->eof) srv.cut(*c, r.chance(1, 2), tail);} std::vector<int> p0; for (auto& k : cls) p0.push_back(k->c->prepares); int want = (int) r.below(4);
				vh::await([&]() {if (vh::failed()) return true; for (size_t i = 0; i < cls.size(); ++i) if (cls[i]->c->prepares < p0[i] + want) return false; return true;}, post, "no-retry", st, 6.); srv.up();
			}
		}
		join("stalled/senders");
		if (!vh::failed() && all_up("not-reconnected"))
		{
			cas->refuse = 0; feed((int) r.range(1, 30)); join("stalled/senders");
			vh::await([&]() {if (vh::failed()) return true; for (auto& k : cls) if (k->c->get_pending_send_msg_size() || k->c->is_sending()) return false; return true;}, post, "unsent", st);
			// everything which was not written or reported before arrives on the last link
			auto final_of = [&](Cl& k) -> Conn* {Conn* z = NULL; for (auto& c : srv.conns) if (c->port == k.c->rec->lport && !c->eof) z = c.get(); return z;};
			vh::await([&]() {if (vh::failed()) return true; std::lock_guard<std::mutex> l(srv.mu); for (auto& k : cls)
			{
				Conn* c = final_of(*k); if (!c) return true; std::map<u32, size_t> base; {std::lock_guard<std::mutex> m(k->mu); for (auto& g : k->links) if (g.closed) base = g.done;}
				for (auto* f : k->flows) {size_t n = 0; for (auto& x : c->got) if (x.first == f->id) ++n; if (n + base[f->id] < f->n_accepted) return false;}
			} return true;}, post, "not-delivered", st);
			// and what the server sent on it is handled
			vh::await([&]() {if (vh::failed()) return true; std::lock_guard<std::mutex> l(srv.mu); for (auto& k : cls)
			{
				Conn* c = final_of(*k); if (!c) return true; auto& g = greets[c->index]; std::lock_guard<std::mutex> m(k->c->rec->mu); if ((int) k->c->rec->got[g.first->id].size() < g.second) return false;
			} return true;}, post, "not-handled", st);
		}
		// ---- the end of reconnecting
		int ending = (int) r.below(8);
		if (!vh::failed() && ending > 0 && ending < 7)
		{
			Cl& k = *cls[r.below(cls.size())]; cli_ptr c = k.c; bool is_down = false; story += fmt("ending %d; ", ending); vh::count(("endings_of_kind_" + std::to_string(ending)).c_str()); size_t size = client.size(); int want_prep = -1;
			switch (ending)
			{
			case 1: c->set_reconnect(false); {std::lock_guard<std::mutex> l(srv.mu); for (auto& x : srv.conns) if (!x->eof && x->port == c->rec->lport) srv.cut(*x, (int) r.below(4), S());} break;
			case 2: c->post([c]() {c->force_shutdown(false);}); break;
			case 3: c->post([c]() {c->graceful_shutdown(false);}); break;
			case 4: // gives up after some failures
				srv.down(); is_down = true; c->limit = c->prepares + (int) r.below(4); want_prep = c->limit + 1; {std::lock_guard<std::mutex> l(srv.mu); for (auto& x : srv.conns) if (!x->eof && x->port == c->rec->lport) srv.cut(*x, 1, S());} break;
			case 5: // ended while it tries
				srv.down(); is_down = true; {std::lock_guard<std::mutex> l(srv.mu); for (auto& x : srv.conns) if (!x->eof && x->port == c->rec->lport) srv.cut(*x, 1, S());}
				{int p0 = c->prepares; vh::await([&]() {return vh::failed() || c->prepares > p0;}, post, "no-retry", st, 6.); usleep((unsigned) r.below(120000)); if (r.chance(1, 2)) {srv.up(); is_down = false; usleep((unsigned) r.below(60000));}} c->post([c]() {c->force_shutdown(false);}); break;
			default: // ended while the link is coming back
				{std::lock_guard<std::mutex> l(srv.mu); for (auto& x : srv.conns) if (!x->eof && x->port == c->rec->lport) srv.cut(*x, 1, S());} usleep((unsigned) r.below(200000)); c->post([c]() {c->force_shutdown(false);}); break;
			}
			vh::await([&]() {return vh::failed() || (!c->started() && !c->rec->up && client.size() < size);}, post, "not-ended", st, 4. + (3 == ending ? ST_ASIO_GRACEFUL_SHUTDOWN_MAX_DURATION : 0));
			if (!vh::failed())
			{
				int p1 = c->prepares, n1 = c->rec->connects; if (is_down) srv.up(); size_t mine = 0; {std::lock_guard<std::mutex> l(srv.mu); mine = srv.conns.size();}
				if (want_prep >= 0 && p1 != want_prep) bad("C10", "attempts", fmt("the client was to give up at failure number %d, it had %d: ", want_prep, p1) + st());
				usleep(150000);
				if (c->prepares != p1 || c->rec->connects != n1) bad("C10", "attempt-after-end", fmt("reconnecting was ended (%d), but the client connected again (%d failures, %d links; then %d, %d)", ending, p1, n1, (int) c->prepares, (int) c->rec->connects));
				vh::await([&]() {if (vh::failed()) return true; std::lock_guard<std::mutex> l(srv.mu); size_t open = 0; for (auto& x : srv.conns) if (!x->eof && !x->cut) ++open; (void) mine; return open <= cls.size() - 1;}, post, "link-left", [&]() {return st() + fmt("; %zu links are open at the server", srv.open_ones());}, 4.);
				++n_end;
			}
		}
		cas->refuse = 0;
		if (!vh::failed() && 7 == ending) // the whole service stops while they come back
		{
			bool d = r.chance(1, 2); if (d) srv.down(); {std::lock_guard<std::mutex> l(srv.mu); for (auto& x : srv.conns) if (!x->eof) srv.cut(*x, 1, S());} usleep((unsigned) r.below(400000)); vh::count("endings_of_kind_7"); story += "service stops";
			std::atomic<bool> stopped(false); std::thread stopper([&]() {sp.stop_service(); stopped = true;}); if (d) {usleep((unsigned) r.below(30000)); srv.up();}
			double b = vh::now(); while (!stopped) {usleep(500); if (vh::now() - b > 30 + 5 * ST_ASIO_DELAY_CLOSE) {bad("C10", "stop-hang", "stopping does not end: " + st()); vh::die();}}
			stopper.join(); ++n_end; if (d) srv.up();
			usleep(20000); if (!vh::wait_for([&]() {return 0 == srv.open_ones();}, 20)) bad("C10", "link-left-by-stop", fmt("%zu links are open at the server after the service stopped: ", srv.open_ones()) + st());
		}
		vh::g().on_hang = nullptr; vh::pert_off(); if (sp.is_service_started()) sp.stop_service();
		// ---- judge
		std::lock_guard<std::mutex> l(srv.mu);
		for (auto& k : cls)
		{
			Rec& rec = *k->c->rec; n_prep += k->c->prepares; if (k->too_early) bad("C10", "too-early", rec.name() + fmt(": the next attempt came %.1f ms after a failure, the delay was %d ms", k->worst * 1000, k->last_delay));
			std::map<u32, size_t> base;
			for (auto& g : k->links)
			{
				++n_links; Conn* c = NULL; for (auto& x : srv.conns) if (x->port == g.port) c = x.get(); 
				size_t same = 0; for (auto& x : srv.conns) if (x->port == g.port) ++same; if (same > 1) {base = g.done; continue;} // the port was used again
				if (c && !c->error.empty()) bad("C10 C04", "link-content", rec.name() + fmt(": on the link from port %u: ", g.port) + c->error);
				for (auto* f : k->flows)
				{
					size_t b = base[f->id], e = g.closed ? g.done[f->id] : f->accepted.size(), n = 0;
					if (c) for (auto& x : c->got) if (x.first == f->id)
					{
						if (b + n >= f->accepted.size() || f->accepted[b + n] != x.second) {bad("C10", n ? "order" : "resumption", rec.name() + fmt(": flow %u on the link from port %u: message %zu is number %u, %s (messages before it were written or reported on earlier links: %zu of %zu)", f->id, g.port, n, x.second, b + n < f->accepted.size() ? fmt("expected %u", f->accepted[b + n]).c_str() : "expected none", b, f->accepted.size())); break;}
						++n;
					}
					if (g.closed && b + n > e) bad("C10", "unreported", rec.name() + fmt(": flow %u: %zu messages arrived on the link from port %u, only %zu were written or reported", f->id, n, g.port, e - b));
					if (b > 0 && n > 0) n_carried += n; n_msgs += n;
				}
				base = g.done;
			}
			// no gaps in what it received on each link
			for (auto& x : greets) {auto it = rec.got.find(x.second.first->id); if (it == rec.got.end()) continue; for (size_t i = 0; i < it->second.size(); ++i) if (it->second[i] != i) {bad("C10 C04", "gap", rec.name() + fmt(": of the messages of one link, number %zu is message %u", i, it->second[i])); break;}}
		}
	}
	vh::count("links", n_links); vh::count("failed_attempts", n_prep); vh::count("messages", n_msgs); vh::count("messages_on_later_links", n_carried); vh::count("reconnecting_ended", n_end); vh::count("delays", vh::pert().delays.exchange(0));
	vh::distinct(vh::hash_str(story) ^ vh::mix(n_links * 31 + n_msgs)); if (vh::want_sample()) vh::sample(fmt("%d clients, %d threads, %llu links, %llu failed attempts, %llu messages: %s%s", ncl, threads, n_links, n_prep, n_msgs, story.c_str(), desc.c_str()));
	cas->unhook(); cur().reset();
}
int main(int argc, char** argv) {vh::g().rule = "a case is a set of clients, a series of ways of breaking their links and an end, distinct by the series and the links and messages seen"; return vh::main(argc, argv, one_case, 200);}
