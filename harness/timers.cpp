// Timers: a model of every timer, updated by every operation and compared with every callback.
#include "vh.h"
#include "perturb.h"
#include "include/base.h"
#include "include/tracked_executor.h"
#include "include/timer.h"
#include <memory>
using vh::Rng; using vh::fmt; typedef std::string S; typedef unsigned long long u64;
using namespace st_asio_wrapper;
#ifdef VH_TRACKED
typedef st_asio_wrapper::timer<tracked_executor> base_t;
#else
typedef st_asio_wrapper::timer<executor> base_t;
#endif
typedef base_t::timer_type::clock_type clk; typedef clk::time_point tp; typedef std::chrono::milliseconds ms;

struct Obj : base_t {Obj(boost::asio::io_context& c) : base_t(c) {} };
struct Tm
{
	bool created, has_cb, started, in_cb, restarted; unsigned interval; tp earliest; u64 version, fires;
	Tm() : created(false), has_cb(false), started(false), in_cb(false), restarted(false), interval(0), version(0), fires(0) {}
};
struct Model
{
	Rng& r; boost::asio::io_context& c; std::vector<std::unique_ptr<Obj> > objs; std::vector<std::vector<Tm> > t; bool quiet; u64 ver, hash, fires, stale_stops, early, stopped_hits; unsigned top, busy; std::thread::id owner;
	u64 sets, stops, restarts, in_cb_restarts, blocked;
	Model(Rng& r_, boost::asio::io_context& c_, int no, int nt) : r(r_), c(c_), quiet(false), ver(0), hash(0), fires(0), stale_stops(0), early(0), stopped_hits(0), top((unsigned) r.range(1, 9)), busy((unsigned) r.below(7)), sets(0), stops(0), restarts(0), in_cb_restarts(0), blocked(0)
		{for (int i = 0; i < no; ++i) {objs.emplace_back(new Obj(c)); t.emplace_back(nt);}}
	S name(size_t o, size_t i) {Tm& m = t[o][i]; return fmt("timer %zu of object %zu (interval %u, started %d, fired %llu times)", i, o, m.interval, (int) m.started, m.fires);}
	void note(u64 x) {hash = vh::mix(hash * 31 + x);}
	boost::function<bool (base_t::tid)> cb(size_t o, size_t i, u64 v) {Model* m = this; return [m, o, i, v](base_t::tid id) {return m->fire(o, i, v, id);};}
	void begin(Tm& m, tp before, unsigned interval) {m.started = true; m.restarted = true; m.earliest = before + ms(interval);}
	bool fire(size_t o, size_t i, u64 v, base_t::tid id)
	{
		tp e = clk::now(); vh::tick(); Tm& m = t[o][i]; ++fires; ++m.fires; note(o * 64 + i);
		if (id != i) vh::violation("timer-id", name(o, i) + fmt(": the callback got id %u", (unsigned) id));
		if (!m.started) vh::violation("fired-while-stopped", name(o, i) + " called its callback");
		else if (e < m.earliest) vh::violation("early", name(o, i) + fmt(": the callback came %.3f ms too early", std::chrono::duration<double, std::milli>(m.earliest - e).count()));
		if (v != m.version) vh::violation("old-callback", name(o, i) + fmt(": callback number %llu was called, the current one is %llu", v, m.version));
		if (m.in_cb) vh::violation("overlap", name(o, i) + ": the callback was called while it runs"); m.in_cb = true; m.restarted = false;
		if (!objs[o]->is_timer(id)) vh::violation("is-timer", name(o, i) + ": is_timer is false in the callback");
		tp prev = m.earliest; if (!quiet) {int n = (int) r.below(4); while (n-- > 0) {size_t a = r.chance(1, 2) ? o : r.below(objs.size()); op(a, a == o && r.chance(1, 2) ? i : r.below(t[a].size()));}}
		bool rv = !quiet && r.chance(2, 3);
		tp x = clk::now(); m.in_cb = false; if (m.restarted) ++in_cb_restarts;
		if (rv && m.started)
#ifdef ST_ASIO_ALIGNED_TIMER
			m.earliest = prev + ms(m.interval), (void) x;
#else
			m.earliest = x + ms(m.interval), (void) prev;
#endif
		else if (!rv && !m.restarted) m.started = false;
		m.restarted = false; return rv;
	}
	void check(size_t o, size_t i) {Tm& m = t[o][i]; bool b = objs[o]->is_timer((base_t::tid) i); if (b != m.started && !m.in_cb) vh::violation("is-timer", name(o, i) + fmt(": is_timer returned %d", (int) b)); }
	void op(size_t o, size_t i)
	{
		Tm& m = t[o][i]; Obj& b = *objs[o]; base_t::tid id = (base_t::tid) i; unsigned iv = r.chance(1, 6) ? 0 : (unsigned) r.below(top) + 1; tp n; bool ok; int k = (int) r.below(14); note(1000 + k); if (!m.in_cb) check(o, i);
		switch (k)
		{
		case 0: case 1: case 2: n = clk::now(); m.created = m.has_cb = true; m.interval = iv; m.version = ++ver; ++sets; if (m.started) ++restarts;
			if (k & 1) {boost::function<bool (base_t::tid)> f = cb(o, i, m.version); ok = b.set_timer(id, iv, f);} else ok = b.set_timer(id, iv, cb(o, i, m.version));
			if (!ok) vh::violation("set-failed", name(o, i)); begin(m, n, iv); break;
		case 3: n = clk::now(); ok = b.start_timer(id); if (ok != m.has_cb) vh::violation("start-result", name(o, i) + fmt(": start_timer returned %d", (int) ok)); if (m.has_cb) {if (m.started) ++restarts; begin(m, n, m.interval);} break;
		case 4: case 5: if (m.started) ++stops; b.stop_timer(id); m.started = false; break;
		case 6: b.stop_timer(id); n = clk::now(); ok = b.start_timer(id); if (ok != m.has_cb) vh::violation("start-result", name(o, i) + fmt(": start_timer after stop_timer returned %d", (int) ok)); m.started = false; if (m.has_cb) {++restarts; begin(m, n, m.interval);} break;
		case 7: if (!r.chance(1, 4)) break; b.stop_all_timer(); for (auto& x : t[o]) x.started = false; break;
		case 8: if (!r.chance(1, 4)) break; b.stop_all_timer(id); for (size_t j = 0; j < t[o].size(); ++j) if (j != i) t[o][j].started = false; break;
		case 9: ok = b.change_timer_interval(id, iv); if (ok != m.created) vh::violation("change-result", name(o, i)); if (m.created) m.interval = iv; break;
		case 10: {u64 v = ++ver; ok = b.change_timer_call_back(id, cb(o, i, v)); if (ok != m.created) vh::violation("change-result", name(o, i)); if (m.created) {m.version = v; m.has_cb = true;} break;}
		case 11: {bool st = r.chance(1, 3); n = clk::now(); m.created = m.has_cb = true; m.interval = iv; m.version = ++ver; if (!b.create_or_update_timer(id, iv, cb(o, i, m.version), st)) vh::violation("set-failed", name(o, i)); if (st) begin(m, n, iv); break;}
		case 12: {const base_t::timer_info* x = b.find_timer(id); if ((NULL != x) != m.created || (x && (x->id != id || x->interval_ms != m.interval))) vh::violation("find", name(o, i) + fmt(": find_timer gave interval %d", x ? (int) x->interval_ms : -1)); break;}
		default: if (busy) {++blocked; usleep((unsigned) r.below(busy * 1000));} // expiries pile up
		}
		if (!m.in_cb) check(o, i);
	}
};
static void one_case(Rng& r)
{
	boost::asio::io_context c; int no = (int) r.range(1, 3), nt = (int) r.range(1, 5); Model m(r, c, no, nt); auto guard = std::make_shared<boost::asio::executor_work_guard<boost::asio::io_context::executor_type> >(c.get_executor());
	std::atomic<bool> ended(false); std::thread th([&]() {c.run(); ended = true;}); vh::poster post = [&](std::function<void()> f) {boost::asio::post(c, f);};
	int rounds = (int) r.range(10, 60); std::atomic<int> left(rounds); u64 seed = r.next(); Rng q(seed);
	for (int i = 0; i < rounds && !vh::failed(); ++i)
	{
		boost::asio::post(c, [&]() {int n = (int) r.below(6) + 1; while (n-- > 0) {size_t o = r.below(m.objs.size()); m.op(o, r.below(m.t[o].size()));} --left;});
		if (q.chance(2, 3)) usleep((unsigned) q.below(5000));
	}
	vh::await([&]() {return vh::failed() || left <= 0;}, post, "not-run");
	std::atomic<bool> q_set(false); boost::asio::post(c, [&]() {m.quiet = true; q_set = true;}); vh::await([&]() {return q_set.load();}, post, "not-run");
	auto idle = [&]() {std::atomic<int> n(-1); boost::asio::post(c, [&]() {int k = 0; for (auto& o : m.t) for (auto& x : o) if (x.started) ++k; n = k;}); while (n < 0) usleep(200); return 0 == n;};
	vh::await([&]() {return vh::failed() || idle();}, post, "never-fires", [&]() {S s; for (size_t o = 0; o < m.t.size(); ++o) for (size_t i = 0; i < m.t[o].size(); ++i) if (m.t[o][i].started) s += m.name(o, i) + "; "; return s;});
	std::atomic<bool> checked(false); boost::asio::post(c, [&]() {for (size_t o = 0; o < m.t.size(); ++o) for (size_t i = 0; i < m.t[o].size(); ++i) m.check(o, i); checked = true;}); while (!checked) usleep(100);
	guard.reset(); if (!vh::wait_for([&]() {return ended.load();}, 30)) {vh::violation("left-over", "expiries are pending although no timer is started"); vh::die();}
	th.join();
#ifdef VH_TRACKED
	for (auto& o : m.objs) if (o->is_async_calling()) vh::violation("async-left", "is_async_calling() with nothing left");
#endif
	vh::count("callbacks", m.fires); vh::count("timers_set", m.sets); vh::count("restarts_of_started", m.restarts); vh::count("stops_of_started", m.stops); vh::count("restarts_in_callback", m.in_cb_restarts); vh::count("blocked_periods", m.blocked);
	vh::distinct(m.hash); if (vh::want_sample()) vh::sample(fmt("%d objects with %d timers, %d rounds: %llu callbacks, %llu restarts, %llu stops", no, nt, rounds, m.fires, m.restarts, m.stops));
}

// ---- many threads, each timer handled by its own callback only
struct Par {std::atomic<int> in; std::atomic<u64> fires; u64 want; int style; unsigned interval; tp earliest; std::atomic<bool> over; u64 series; Par() : in(0), fires(0), want(0), style(0), interval(0), over(false), series(0) {} };
static void par_case(Rng& r)
{
	S desc = vh::pert_random(r); boost::asio::io_context c; int no = (int) r.range(1, 3), nt = (int) r.range(1, 6), nth = (int) r.range(2, 6); std::vector<std::unique_ptr<Obj> > objs; std::vector<std::vector<std::unique_ptr<Par> > > ps(no);
	for (int o = 0; o < no; ++o) {objs.emplace_back(new Obj(c)); for (int i = 0; i < nt; ++i) {ps[o].emplace_back(new Par); Par& p = *ps[o].back(); p.want = r.below(40) + 1; p.style = (int) r.below(3); p.interval = (unsigned) r.below(4);}}
	std::function<bool (int, int)> fire; auto cb = [&](int o, int i) {return boost::function<bool (base_t::tid)>([&fire, o, i](base_t::tid id) {if ((int) id != i) vh::violation("timer-id", "wrong id"); return fire(o, i);});};
	fire = [&](int o, int i)
	{
		Par& p = *ps[o][i]; tp e = clk::now(); vh::tick(); if (1 != ++p.in) vh::violation("overlap", fmt("timer %d of object %d: two callbacks at once", i, o));
		if (p.over) vh::violation("fired-while-stopped", fmt("timer %d of object %d called its callback after the last one", i, o)); if (e < p.earliest) vh::violation("early", fmt("timer %d of object %d: %.3f ms too early", i, o, std::chrono::duration<double, std::milli>(p.earliest - e).count()));
		u64 n = ++p.fires; bool more = n < p.want; if (vh::prnd() % 8 == 0) usleep(vh::prnd() % 1500);
		if (!more) {p.over = true; --p.in; if (2 == p.style) objs[o]->stop_timer((base_t::tid) i); return 2 == p.style;} // stopped in the callback: true has no effect
#ifdef ST_ASIO_ALIGNED_TIMER
		tp next = p.earliest + ms(p.interval);
#else
		tp next = clk::now() + ms(p.interval);
#endif
		if (1 == p.style && n % 3 == 0) {p.earliest = clk::now() + ms(p.interval); --p.in; objs[o]->set_timer((base_t::tid) i, p.interval, cb(o, i)); return false;} // the restarting counts
		p.earliest = next; --p.in; return true;
	};
	auto guard = std::make_shared<boost::asio::executor_work_guard<boost::asio::io_context::executor_type> >(c.get_executor()); std::vector<std::thread> ts; std::atomic<int> up(0); for (int i = 0; i < nth; ++i) ts.emplace_back([&]() {++up; c.run(); --up;});
	std::vector<std::thread> st; int parts = (int) r.range(1, 3); for (int k = 0; k < parts; ++k) st.emplace_back([&, k]() {for (int o = 0; o < no; ++o) for (int i = 0; i < nt; ++i) if (i % parts == k) {Par& p = *ps[o][i]; p.earliest = clk::now() + ms(p.interval); if (!objs[o]->set_timer((base_t::tid) i, p.interval, cb(o, i))) vh::violation("set-failed", "set_timer");}});
	for (auto& t : st) t.join();
	vh::poster post = [&](std::function<void()> f) {boost::asio::post(c, f);};
	vh::await([&]() {if (vh::failed()) return true; for (auto& o : ps) for (auto& p : o) if (p->fires < p->want) return false; return true;}, post, "never-fires", [&]() {S s = desc; for (int o = 0; o < no; ++o) for (int i = 0; i < nt; ++i) s += fmt("; timer %d of object %d: %llu of %llu, is_timer %d", i, o, (u64) ps[o][i]->fires, ps[o][i]->want, (int) objs[o]->is_timer((base_t::tid) i)); return s;});
	guard.reset(); if (!vh::wait_for([&]() {return 0 == up;}, 30)) {vh::violation("left-over", "expiries are pending although no timer is started"); vh::die();}
	for (auto& t : ts) t.join(); vh::pert_off(); u64 f = 0, h = 0;
	for (int o = 0; o < no; ++o) for (int i = 0; i < nt; ++i) {Par& p = *ps[o][i]; f += p.fires; h = vh::mix(h * 31 + p.fires * 4 + p.style); if (p.fires != p.want && !vh::failed()) vh::violation("fires", fmt("timer %d of object %d fired %llu times instead of %llu", i, o, (u64) p.fires, p.want)); if (objs[o]->is_timer((base_t::tid) i)) vh::violation("is-timer", fmt("timer %d of object %d is still started", i, o));}
	vh::count("parallel_callbacks", f); vh::count("delays", vh::pert().delays.exchange(0)); vh::distinct(h ^ vh::hash_str(desc)); if (vh::want_sample()) vh::sample(fmt("%d threads, %d objects with %d timers: %llu callbacks, %s", nth, no, nt, f, desc.c_str()));
}
int main(int argc, char** argv) {vh::g().rule = "a case is a history of timer operations and callbacks, distinct by its sequence"; return vh::main(argc, argv, [](Rng& r) {if (getenv("VH_PARALLEL")) par_case(r); else one_case(r);}, 100);}
