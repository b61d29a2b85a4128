// The service pump: started, changed while running, stopped and started again; nothing may run while it is stopped,
// everything must work after each start, references and threads must add up.
#include "world.h"
#include "include/single_service_pump.h"
#include <poll.h>
#include <arpa/inet.h>
using namespace rig;

static int tasks() {DIR* d = opendir("/proc/self/task"); int n = 0; struct dirent* e; while (d && (e = readdir(d))) if ('.' != e->d_name[0]) ++n; if (d) closedir(d); return n;}

struct Act {std::atomic<long> running{0}; std::atomic<u64> calls{0}; std::atomic<bool> allowed{false};};
struct InAct
{
	Act& a; InAct(Act& a_, const char* what) : a(a_) {++a.running; ++a.calls; tick(); check(what);}
	~InAct() {check("a callback"); --a.running;}
	void check(const char* what) {if (!a.allowed) vh::violation("runs-while-stopped", S(what) + " runs although the service pump is stopped");}
};

// a service of the user, with timers and posts of its own
class svc : public service_pump::i_service, public timer<executor>
{
public:
	svc(service_pump& sp, Act& a_, u64 seed) : svc(sp, sp.assign_io_context(), a_, seed) {}
	svc(service_pump& sp, boost::asio::io_context& c, Act& a_, u64 seed) : i_service(sp), timer<executor>(c), where(c), a(a_), rng(seed), fail(false), inits(0), uninits(0), finals(0), beats(0), want_beats(0) {}
	~svc() {clear_io_context_refs();}
	boost::asio::io_context& where; Act& a; Rng rng; std::atomic<bool> fail; std::atomic<int> inits, uninits, finals; std::atomic<u64> beats, want_beats;
	boost::asio::io_context& ctx() {return where;}
protected:
	virtual bool init()
	{
		if (inits != uninits) vh::violation("init-twice", fmt("a service was started %d times and stopped %d times when it is started again", inits.load(), uninits.load()));
		if (fail) return false;
		++inits; int n = (int) rng.range(1, 3);
		for (int i = 0; i < n; ++i) {unsigned us = (unsigned) rng.below(800); set_timer((unsigned short) (TIMER_END + i), (unsigned) rng.range(1, 10), [this, us](unsigned short) {InAct c(a, "a timer"); if (us) usleep(us); ++beats; return true;});}
		n = (int) rng.below(4); for (int i = 0; i < n; ++i) {unsigned us = (unsigned) rng.below(3000); post([this, us]() {InAct c(a, "a posted function"); if (us) usleep(us);});}
		return true;
	}
	virtual void uninit() {++uninits; stop_all_timer(); unsigned us = (unsigned) rng.below(3000); int n = (int) rng.below(4); for (int i = 0; i < n; ++i) post([this, us]() {InAct c(a, "a posted function"); if (us) usleep(us);});}
	virtual void finalize() {++finals; tick(); if (a.running > 0) vh::violation("finalize-busy", "a service is finalised while callbacks still run");}
private:
	virtual void attach_io_context(boost::asio::io_context& c, unsigned refs) {get_service_pump().assign_io_context(c, refs);}
	virtual void detach_io_context(boost::asio::io_context& c, unsigned refs) {get_service_pump().return_io_context(c, refs);}
};

static std::vector<u64> refs_of(service_pump& sp) {boost::container::list<unsigned> l; sp.get_io_context_refs(l); return std::vector<u64>(l.begin(), l.end());}
static S show(const std::vector<u64>& v) {S s; for (u64 x : v) s += fmt("%llu ", x); return s;}
// position of a context in the pump, learnt through the public interface (only while nothing changes references)
static int index_of(service_pump& sp, const boost::asio::execution_context& c)
{
	auto b = refs_of(sp); sp.assign_io_context(c, 1000); auto a = refs_of(sp); sp.return_io_context(c, 1000);
	for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (a[i] >= b[i] + 500) return (int) i;
	return -1;
}

static void one_case(Rng& r)
{
	std::shared_ptr<Case> cas = std::make_shared<Case>(); cur() = cas; S desc = vh::pert_random(r); Act act; 
	int ctxs = (int) r.range(1, 3), clients = (int) r.range(1, 4), rounds = (int) r.range(1, 3); ctxs = World::contexts(ctxs); int added_ctx = 0; u64 h = 0, thread_changes = 0, ctx_checks = 0, exceptions = 0, rearms = 0; bool track = ctxs > 1, blind = false;
	cas->on_connect_hook = [&](Rec& rec, void* p)
	{
		rec.arr->keep = false;
		if ('c' == rec.side[0]) {auto* s = (cli_sock*) (mon<raw_cli_sock>*) p; s->set_timer(cli_sock::TIMER_END, 3, [&act](unsigned short) {InAct c(act, "a socket's timer"); return true;});} else {auto* s = (srv_sock*) (mon<raw_srv_sock>*) p; s->set_timer(srv_sock::TIMER_END, 2, [&act](unsigned short) {InAct c(act, "a socket's timer"); return true;});}
	};
	cas->on_close_hook = [&](Rec&, void*) {if (!act.allowed) vh::violation("runs-while-stopped", "a close notification comes although the service pump is stopped");};
	const int base_tasks = tasks();
	{
		World w(cas, ctxs); service_pump& sp = w.sp; std::vector<std::unique_ptr<svc> > svcs, removed; u64 fs = r.next(); int ids = 0; std::map<cli_sock*, unsigned> extra;
		if (r.chance(1, 3)) w.server.max_size(100);
		auto new_svc = [&]() {svcs.emplace_back(new svc(sp, act, ++fs)); svcs.back()->id(100 + ++ids); if (r.chance(1, 6)) svcs.back()->fail = true;};
		for (int i = (int) r.range(1, 3); i > 0; --i) new_svc();
		auto add_client = [&]() {unsigned x = r.chance(1, 3) ? (unsigned) r.range(1, 4) : 0; Link l; l.c = w.client.add_socket(w.port, "127.0.0.1", x); if (l.c) {extra[l.c.get()] = x; l.c->delay = 5; w.links.push_back(l);} };
		// every context's references are those of the objects which live on it
		auto check_refs = [&](const char* when)
		{
			if (!track || blind) return; ++ctx_checks;
			auto sum = [&]()
			{
				std::map<const boost::asio::execution_context*, u64> m; m[&boost::asio::query(w.server.next_layer().get_executor(), boost::asio::execution::context)] += 1;
				std::lock_guard<std::mutex> l(cas->mu);
				for (auto& x : cas->recs) if (x->alive && x->sock)
				{
					if (x->connects && !x->up && x->resets < x->closes) continue; // ended (a reconnecting client is waited for before)
					if ('c' == x->side[0]) {cli_sock* k = (cli_sock*) (mon<raw_cli_sock>*) x->sock; if (x->closes && !k->is_reconnect() && x->resets < x->closes) continue; auto i = extra.find(k); m[&k->lowest_layer().get_executor().context()] += 1 + (i == extra.end() ? 0 : i->second);}
					else {srv_sock* k = (srv_sock*) (mon<raw_srv_sock>*) x->sock; m[&k->lowest_layer().get_executor().context()] += 1;}
				}
				for (auto& s : svcs) m[&s->ctx()] += 1; for (auto& s : removed) m[&s->ctx()] += 1;
				return m;
			};
			S why; static std::map<const boost::asio::execution_context*, int> where; where.clear(); auto good = [&]()
			{
				auto m = sum(); auto v = refs_of(sp); long rest = 0; why.clear(); std::vector<u64> want(v.size(), 0);
				for (auto& x : m) {auto i = where.find(x.first); if (i == where.end()) i = where.emplace(x.first, index_of(sp, *x.first)).first; if (i->second < 0 || i->second >= (int) v.size()) {why = "an object lives on an unknown context"; return false;} want[i->second] = x.second;}
				for (size_t i = 0; i < v.size(); ++i) {if (v[i] < want[i]) why = fmt("context %zu counts too few references; ", i); rest += (long) v[i] - (long) want[i];}
				if (rest != 2 || !why.empty()) {why += "counted: " + show(v) + ", objects and their additional references without the two pools' own: " + show(want); return false;} return true;
			};
			double t = vh::now(); bool ok; while (!(ok = good()) && vh::now() - t < 3) usleep(1000);
			if (!ok) {vh::violation("references", S(when) + ": " + why);}
		};
		auto stopped_clean = [&](u64 calls_before_ok)
		{
			(void) calls_before_ok; act.allowed = false; u64 c = act.calls, p = vh::g().progress; int n = tasks(); std::vector<u64> in;
			if (sp.is_service_started()) vh::violation("still-started", "the service pump says it is started after it was stopped");
			if (act.running > 0) vh::violation("runs-while-stopped", "a callback is still running after the service pump was stopped");
			{std::lock_guard<std::mutex> l(cas->mu); for (auto& x : cas->recs) if (x->in_any > 0 || x->in_close > 0) vh::violation("runs-while-stopped", "a callback of " + x->name() + " is still running after the service pump was stopped");}
			if (n > base_tasks) {double t = vh::now(); while ((n = tasks()) > base_tasks && vh::now() - t < 3) usleep(1000); if (n > base_tasks) vh::violation("threads-left", fmt("%d threads are left after the service pump was stopped", n - base_tasks));}
			usleep((unsigned) r.below(15000) + 1000);
			if (act.calls != c || vh::g().progress != p) vh::violation("runs-while-stopped", "callbacks were called although the service pump is stopped");
		};
		for (int round = 0; round < rounds && !vh::failed(); ++round)
		{
			int nctx = ctxs + added_ctx, threads = (int) r.range(nctx, nctx + 3); std::vector<int> fin; for (auto& s : svcs) fin.push_back(s->finals);
			if (w.links.empty() || r.chance(1, 2)) for (int i = 0; i < clients; ++i) add_client();
			size_t before = svcs.size(); bool blocking = r.chance(1, 3); act.allowed = true; std::thread runner; std::atomic<bool> run_done(false); int expect_threads = threads;
			if (blocking) {runner = std::thread([&, threads]() {sp.run_service(threads); run_done = true;}); if (!vh::wait_for([&]() {return sp.is_service_started();}, 20)) {vh::inconclusive("run_service does not start"); return;} usleep(3000);}
			else sp.start_service(threads);
			if (!sp.is_service_started() || !sp.is_running()) vh::violation("not-started", "the service pump says it is not started after it was started");
			if (round > 0) ++rearms;
			auto beating = [&]() {for (size_t i = 0; i < before; ++i) if (!svcs[i]->fail && svcs[i]->beats <= svcs[i]->want_beats) return false; return true;};
			for (auto& s : svcs) s->want_beats = s->beats.load() + 2;
			auto detail = [&]() {return fmt("round %d, %d threads, %d contexts, %s; ", round, threads, nctx, blocking ? "run_service" : "start_service") + desc;};
			w.await(beating, "service-dead", [&]() {return "after the start, a service's timer does not run; " + detail();});
			if (!w.pair_up("links-dead") || vh::failed()) {if (runner.joinable()) {sp.end_service(); runner.join();} break;}
			// traffic, both ways
			auto exchange = [&](const char* key) {
				std::vector<Flow*> fl; for (auto& l : w.links) {Flow* f = cas->flow(true, l.s->rec.get()); fl.push_back(f); for (int i = 0; i < 20; ++i) send_next(*l.c, r, *f, A_PTR, MIN_BODY + r.below(300), true, false); f = cas->flow(true, l.c->rec.get()); fl.push_back(f); for (int i = 0; i < 20; ++i) send_next(*l.s, r, *f, A_PTR, MIN_BODY + r.below(300), true, false);}
				auto all = [&]() {for (Flow* f : fl) {Rec* d = f->dest; std::lock_guard<std::mutex> l(d->mu); if (d->got[f->id].size() < f->accepted.size()) return false;} return true;};
				w.await(all, key, [&]() {return "messages do not arrive; " + detail();}); };
			exchange("traffic-dead"); check_refs("after the start");
			// changes while running
			int changes = (int) r.below(6);
			for (int k = 0; k < changes && !vh::failed(); ++k)
			{
				int op = (int) r.below(8); h = vh::mix(h * 13 + op);
				switch (op)
				{
				case 0: {int n = (int) r.range(1, 3); sp.add_service_thread(n); expect_threads += n; ++thread_changes; break;}
#ifndef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
#ifndef RIG_AUTO_STOP
				case 1: if (added_ctx < 2) {int n = (int) r.range(1, 2), t = (int) r.range(n, n + 1); auto b = refs_of(sp); if (ctxs + added_ctx == 1 && !track) track = true; sp.add_service_thread(t, false, n); expect_threads += t; added_ctx += n; ++thread_changes; if (sp.get_io_context_num() != ctxs + added_ctx) vh::violation("context-number", fmt("%d contexts instead of %d", sp.get_io_context_num(), ctxs + added_ctx)); check_refs("after contexts were added");} break;
#endif
#else
				case 1: {auto same = [&](const char* what) {w.await([&]() {return sp.service_thread_num() == expect_threads;}, "thread-number", [&]() {return fmt("%d service threads instead of %d after %s; ", sp.service_thread_num(), expect_threads, what) + detail();});};
					same("adding"); /* a request is dropped if only one thread runs when it is looked at */ int n = (int) r.range(1, 5); sp.del_service_thread(n); expect_threads = std::max(1, expect_threads - n); ++thread_changes;
					same("deleting"); /* until the last request has been looked at */ for (int i = 0; i < n; ++i) {auto d = std::make_shared<std::atomic<bool> >(false); w.post([d]() {*d = true;}); w.await([d]() {return d->load();}, "thread-number");} same("all requests"); break;}
#endif
				case 2: {auto s0 = refs_of(sp); size_t was = w.links.size(); if (was < 8) {add_client(); if (w.links.size() == was + 1) w.pair_up("links-dead"); check_refs("after a client was added");} break;}
				case 3: {new_svc(); svc& s = *svcs.back(); sp.start_service(&s); if (s.service_started() == s.fail) vh::violation("service-state", "a service added at run time is in the wrong state"); s.want_beats = s.beats + 1; if (!s.fail) w.await([&]() {return s.beats > s.want_beats;}, "service-dead", [&]() {return "a service added at run time does not run; " + detail();}); fin.push_back(s.finals); break;}
				case 4: if (svcs.size() > 1) // removed ones are stopped, and not touched any more
					{
						size_t i = r.below(svcs.size()); svc* s = svcs[i].get(); bool on = s->service_started(); int u = s->uninits; if (sp.find(s->id()) != s) vh::violation("find", "an attached service is not found by its id"); if (r.chance(1, 2)) sp.remove(s); else sp.remove(s->id());
						if (sp.find(s->id())) vh::violation("find", "a removed service is still found by its id"); if (s->service_started() || s->uninits != u + (on ? 1 : 0)) vh::violation("service-state", "removing a service does not stop it once");
						removed.push_back(std::move(svcs[i])); svcs.erase(svcs.begin() + i); fin.erase(fin.begin() + i);
					} break;
				case 5: // one service stopped and started again
					if (!svcs.empty()) {svc& s = *svcs[r.below(svcs.size())]; if (!s.fail) {sp.stop_service(&s); if (s.service_started()) vh::violation("service-state", "a stopped service says it is started"); usleep(12000); u64 x = s.beats; usleep(2000); (void) x; sp.start_service(&s); s.want_beats = s.beats + 1; w.await([&]() {return s.beats > s.want_beats;}, "service-dead", [&]() {return "a service stopped and started again does not run; " + detail();});}} break;
				case 6: // exceptions of handlers do not cost threads
					{int n = (int) r.range(1, 6); exceptions += n; std::shared_ptr<std::atomic<int> > left(new std::atomic<int>(n)); for (int i = 0; i < n; ++i) w.post([left, &act]() {InAct c(act, "a posted function"); --*left; throw std::runtime_error("thrown on purpose");}); w.await([left]() {return 0 == *left;}, "exception", [&]() {return "posted functions are not run after one threw; " + detail();}); break;}
				default: exchange("traffic-dead"); check_refs("while running"); break;
				}
			}
			if (!vh::failed())
			{
				// each thread runs handlers: as many of them can run at the same time
				std::shared_ptr<std::atomic<int> > in(new std::atomic<int>(0)), go(new std::atomic<int>(0)), top(new std::atomic<int>(0)), out(new std::atomic<int>(0));
				if (ctxs + added_ctx == 1 && !vh::failed())
				{
					int n = expect_threads + 3; for (int i = 0; i < n; ++i) w.post([in, go, top, out]() {int x = ++*in, t = *top; while (x > t && !top->compare_exchange_weak(t, x)); double e = vh::now() + 20; while (!*go && vh::now() < e) usleep(200); --*in; ++*out;});
					vh::wait_for([&]() {return *top >= expect_threads;}, 15); usleep(2000); int x = *top; *go = 1; w.await([&]() {return *out >= n;}, "thread-number");
					if (x != expect_threads) vh::violation("thread-number", fmt("%d functions run at the same time with %d service threads; ", x, expect_threads) + detail());
#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
					if (sp.service_thread_num() != expect_threads) vh::violation("thread-number", fmt("%d service threads are reported instead of %d; ", sp.service_thread_num(), expect_threads) + detail());
#endif
				}
				else {double t = vh::now(); int n = 0; while ((n = tasks() - base_tasks - (blocking ? 0 : 0)) != expect_threads && vh::now() - t < 5) usleep(2000); if (n != expect_threads) vh::violation("thread-number", fmt("%d threads run instead of %d; ", n, expect_threads) + detail());}
				// new objects go to a least loaded context
				if (track && !blind)
				{
					auto b = refs_of(sp); boost::asio::io_context& c = sp.assign_io_context(); auto a = refs_of(sp); int k = -1, n = 0; for (size_t i = 0; i < a.size() && a.size() == b.size(); ++i) if (a[i] != b[i]) {k = (int) i; ++n;}
					if (1 == n && a[k] == b[k] + 1) {if (b[k] != *std::min_element(b.begin(), b.end())) vh::violation("not-least-loaded", fmt("a new object went to context %d, references before: ", k) + show(b));}
					else if (0 == n) vh::violation("references", "assigning a context does not count a reference, " + show(a));
					sp.return_io_context(c);
				}
				exchange("traffic-dead");
			}
			// stopping, with work in flight
			if (r.chance(1, 2)) {std::vector<Flow*> fl; for (auto& l : w.links) {Flow* f = cas->flow(true, l.s->rec.get()); for (int i = 0; i < 60; ++i) send_next(*l.c, r, *f, A_PTR, MIN_BODY + r.below(900), true, false);} }
			if (ctxs + added_ctx > 1) {usleep(2000);}
			for (auto& s : svcs) s->want_beats = 0; std::vector<int> un; for (auto& s : svcs) un.push_back(s->uninits); std::vector<bool> was_on; for (auto& s : svcs) was_on.push_back(s->service_started());
			std::atomic<bool> done(false); std::thread stopper([&]() {if (blocking) {sp.end_service(); runner.join();} else sp.stop_service(); act.allowed = false; done = true;});
			double b = vh::now(); while (!done) {usleep(300); if (vh::now() - b > 40) {vh::violation("stop-hang", "stopping does not end; " + detail()); vh::die();}} stopper.join();
			stopped_clean(0);
			for (size_t i = 0; i < svcs.size(); ++i)
			{
				if (svcs[i]->finals != fin[i] + 1) vh::violation("finalize", fmt("a service was finalised %d times by one stop; ", svcs[i]->finals - fin[i]) + detail());
				if (svcs[i]->uninits != un[i] + (was_on[i] ? 1 : 0) || svcs[i]->service_started()) vh::violation("uninit", fmt("a service which %s was stopped %d times by one stop; ", was_on[i] ? "ran" : "did not run", svcs[i]->uninits - un[i]) + detail());
			}
			{std::lock_guard<std::mutex> l(cas->mu); for (auto& x : cas->recs) if (x->up || x->connects != x->closes) vh::violation("not-closed", x->name() + " got no close notification before the service pump was stopped; " + detail());}
			w.links.clear(); check_refs("after the stop");
		}
		act.allowed = true; // destruction
		for (auto& s : svcs) s.reset();
	}
	vh::pert_off(); vh::count("rounds", rounds); vh::count("callbacks", act.calls); vh::count("restarts", rearms); vh::count("thread_changes", thread_changes); vh::count("reference_checks", ctx_checks); vh::count("exceptions", exceptions); vh::count("messages", cas->total_got.load());
	vh::distinct(vh::mix(h ^ vh::hash_str(desc)) + ctxs * 31 + clients * 7 + rounds); if (vh::want_sample()) vh::sample(fmt("%d contexts, %d rounds, %llu callbacks, %s", ctxs, rounds, (u64) act.calls, desc.c_str()));
	cas->unhook(); cur().reset();
}

// ---- services which end by themselves: the pump runs out of work, and can be run again
class nat_sock : public mon<raw_cli_sock> {public: nat_sock(boost::asio::io_context& c) : mon<raw_cli_sock>(c, "client") {} };
template<typename S_> struct once : public S_ {once(service_pump& sp) : S_(sp), finals(0) {} std::atomic<int> finals; protected: virtual void finalize() {++finals; S_::finalize();} };
typedef once<st_asio_wrapper::tcp::single_client_base<nat_sock> > nat_client;

static void natural_case(Rng& r)
{
	std::shared_ptr<Case> cas = std::make_shared<Case>(); cur() = cas; S desc = vh::pert_random(r); Act act; act.allowed = true; unsigned short port = free_port(); int rounds = (int) r.range(2, 3); bool own = r.chance(1, 2); S log;
	cas->on_connect_hook = [&](Rec& rec, void*) {rec.arr->keep = false;}; const int base_tasks = tasks();
	{
		std::unique_ptr<service_pump> psp; std::unique_ptr<nat_client> pc; std::unique_ptr<single_service_pump<nat_client> > both; 
		if (own) {psp.reset(new service_pump); pc.reset(new nat_client(*psp));} else both.reset(new single_service_pump<nat_client>);
		service_pump& sp = own ? *psp : *both; nat_client& c = own ? *pc : *both; c.set_server_addr(port, "127.0.0.1"); c.set_reconnect(false); Rec& rec = *c.rec; u64 done_links = 0;
		for (int round = 0; round < rounds && !vh::failed(); ++round)
		{
			bool up = r.chance(3, 4), run = r.chance(2, 3); int n = (int) r.below(40), threads = (int) r.range(1, 3), fin = c.finals; log += fmt("%s, server %s, %d messages, %d threads; ", run ? "run_service" : "start_service", up ? "up" : "down", n, threads); int l = -1; Flow* f = cas->flow(true, &rec);
			S bytes; for (int i = 0; i < n; ++i) {S b = body(f->id, f->next.fetch_add(1), MIN_BODY + r.below(200)); f->accept((u32) i); bytes += packed(b);}
			std::thread server; std::atomic<bool> accepted(false), halt(false);
			if (up)
			{
				l = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); int one = 1; setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
				if (0 != ::bind(l, (struct sockaddr*) &a, sizeof a) || 0 != ::listen(l, 5)) {vh::inconclusive("cannot listen"); return;}
				server = std::thread([&, l]() {struct pollfd p = {l, POLLIN, 0}; while (!halt) {if (1 == ::poll(&p, 1, 20)) {int fd = ::accept(l, NULL, NULL); if (fd < 0) continue; accepted = true; size_t k = 0; while (k < bytes.size()) {ssize_t w = ::send(fd, bytes.data() + k, bytes.size() - k, MSG_NOSIGNAL); if (w <= 0) break; k += (size_t) w;} ::shutdown(fd, SHUT_WR); char buf[512]; while (::recv(fd, buf, sizeof buf, 0) > 0); ::close(fd); break;}}});
			}
			if (run)
			{
				std::atomic<bool> over(false); std::thread t([&]() {sp.run_service(threads); over = true;}); double b = vh::now();
				while (!over) {usleep(300); if (vh::now() - b > 25) {vh::violation("natural/hang", "the service pump does not end although nothing is left to do; " + log + desc); vh::die();}} t.join();
			}
			else {sp.start_service(threads); double b = vh::now(); while (sp.is_running()) {usleep(300); if (vh::now() - b > 25) {vh::violation("natural/hang", "the service pump does not end although nothing is left to do; " + log + desc); vh::die();}} sp.stop_service();}
			halt = true; if (server.joinable()) {if (!accepted) ::shutdown(l, SHUT_RDWR); server.join();} if (l >= 0) ::close(l);
			if (up && !accepted) vh::violation("natural/restart", "a client does not connect in a service pump that is run again; " + log);
			if (up) ++done_links; if (rec.connects != (int) done_links || rec.closes != (int) done_links) vh::violation("natural/links", fmt("%d connected and %d close notifications instead of %llu; ", rec.connects.load(), rec.closes.load(), done_links) + log);
			if (up) {std::lock_guard<std::mutex> g(rec.mu); if (rec.got[f->id].size() != (size_t) n) vh::violation("natural/traffic", fmt("%zu of %d messages were received; ", rec.got[f->id].size(), n) + log);}
			if (sp.is_service_started() || sp.is_running()) vh::violation("still-started", "the service pump says it is started after it ended");
			if (c.finals != fin + 1) vh::violation("finalize", fmt("a service was finalised %d times by one end; ", c.finals - fin) + log);
			int k; double t = vh::now(); while ((k = tasks()) > base_tasks && vh::now() - t < 3) usleep(1000); if (k > base_tasks) vh::violation("threads-left", fmt("%d threads are left after the service pump ended", k - base_tasks));
		}
	}
	vh::pert_off(); vh::count("natural_ends", rounds); vh::distinct(vh::hash_str(log + desc)); if (vh::want_sample()) vh::sample(log); cas->unhook(); cur().reset();
}
int main(int argc, char** argv) {vh::g().rule = "a case is one sequence of starts, run time changes and stops, distinct by operations, sizes and schedule perturbation"; return vh::main(argc, argv, getenv("VH_NATURAL") ? natural_case : one_case, 150);}
