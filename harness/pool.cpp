// Object pool: sequential histories against a model; concurrent ones with conservation and uniqueness checks.
#include "vh.h"
#include "include/base.h"
#include "include/object_pool.h"
#include <memory>
#include <set>
#include <list>
using vh::Rng; using vh::fmt; typedef std::string S; typedef unsigned long long u64; using namespace st_asio_wrapper;

static std::atomic<long> n_alive(0), n_made(0); static std::atomic<bool> strict(true); // strict: destroying a busy object is the pool's fault
class Obj
{
public:
	typedef S in_msg_type; typedef const S in_msg_ctype; typedef S out_msg_type; typedef const S out_msg_ctype;
	Obj(std::atomic<u64>& serials) : no(++serials), gone(false), resets(0), held(0), magic(0x5a5a1234), _id(-1) {++n_alive; ++n_made;}
	~Obj() {if (0x5a5a1234 != magic) vh::violation("destroyed-twice", "an object was destroyed twice"); magic = 0; if (held && strict) vh::violation("destroyed-in-use", fmt("object %llu destroyed while its asynchronous work is unfinished", no)); --n_alive;}
	boost::uint_fast64_t id() const {return _id;}
	bool is_equal_to(boost::uint_fast64_t i) const {return _id == i;}
	bool obsoleted() {return gone && 0 == held;}
	void reset() {++resets; gone = false;}
	const statistic& get_statistic() const {return stat;}
	void show_status() const {} void show_info(const char*, const char*) const {}
	const u64 no; std::atomic<bool> gone; std::atomic<int> resets, held; unsigned magic; statistic stat;
private:
	template<typename> friend class st_asio_wrapper::object_pool;
	void id(boost::uint_fast64_t i) {_id = i;}
	boost::uint_fast64_t _id;
};
typedef boost::shared_ptr<Obj> ptr;
struct Pool : object_pool<Obj>
{
	Pool(service_pump& sp) : object_pool<Obj>(sp), made(0) {}
	virtual bool init() {return true;} virtual void uninit() {}
	virtual void on_create(const ptr& p) {++made; last = p->id();}
	std::atomic<u64> serials{0}; std::atomic<u64> made; std::atomic<u64> last{0};
	ptr make() {return object_pool<Obj>::create_object(serials);}
	using object_pool<Obj>::add_object; using object_pool<Obj>::del_object; using object_pool<Obj>::init_object_id; using object_pool<Obj>::change_object_id; using object_pool<Obj>::finalize;
};
#if defined(ST_ASIO_REUSE_OBJECT) && !defined(ST_ASIO_RESTORE_OBJECT)
static const bool reuse = true;
#else
static const bool reuse = false;
#endif

static void seq_case(Rng& r)
{
	strict = false; 	service_pump sp; Pool p(sp); u64 base = r.chance(1, 2) ? ST_ASIO_START_OBJECT_ID : r.below(1000); if (base != ST_ASIO_START_OBJECT_ID) p.set_start_object_id(base); u64 next = base; size_t cap = r.below(12) + 1; p.max_size(cap); long alive0 = n_alive;
	struct E {u64 no; boost::weak_ptr<Obj> w; bool gone, held_async; int keep; int resets;}; std::map<u64, E> all; // by serial
	std::map<u64, u64> pool; std::list<u64> inv; std::vector<ptr> keep; std::map<u64, u64> id_of; u64 h = 0, ops = r.below(120) + 10, n_reuse = 0, n_chg = 0, n_free = 0, n_full = 0, frees = 0, expected_alive = 0; S log;
	auto E_of = [&](u64 no) -> E& {return all[no];};
	auto held = [&](u64 no) {for (auto& k : keep) if (k->no == no) return true; return false;};
	auto inpool = [&](u64 no) {for (auto& x : pool) if (x.second == no) return true; return false;};
	auto free_able = [&](u64 no) {return !held(no) && !inpool(no) && E_of(no).gone && !E_of(no).held_async && 1 == std::count(inv.begin(), inv.end(), no);};
	auto bad = [&](const char* k, const S& d) {vh::violation(k, d + " | " + log);};
	auto some = [&]() -> ptr {if (keep.empty()) return ptr(); return keep[r.below(keep.size())];};
	auto some_id = [&]() -> u64 {switch (r.below(3)) {case 0: if (!pool.empty()) {auto i = pool.begin(); std::advance(i, r.below(pool.size())); return i->first;} break; case 1: if (!inv.empty()) {auto i = inv.begin(); std::advance(i, r.below(inv.size())); return id_of[*i];} break; } return base + r.below(next - base + 2);};
	for (u64 k = 0; k < ops && !vh::failed(); ++k)
	{
		int op = (int) r.below(15); h = vh::mix(h * 31 + op); if (log.size() > 1500) log.erase(0, 500);
		switch (op)
		{
		case 0: case 1: case 2: // create (and add)
		{
			u64 expect = 0; if (reuse) for (u64 no : inv) if (free_able(no)) {expect = no; break;}
			int rs = expect ? E_of(expect).resets : 0; ptr o = p.make(); log += fmt("create->%llu/%llu ", o ? o->no : 0, o ? (u64) o->id() : 0); if (!o) {bad("create", "create_object failed"); break;}
			if (expect) {++n_reuse; if (o->no != expect) bad("reuse", fmt("object %llu was to be reused, got %llu", expect, o->no)); if (o->resets != rs + 1) bad("reuse-reset", fmt("a reused object was reset %d times", o->resets - rs)); inv.remove(expect); E_of(expect).resets = o->resets; E_of(expect).gone = false;}
			else {if (all.count(o->no)) bad("reuse", fmt("object %llu was reused though it could not be", o->no)); E e; e.no = o->no; e.w = o; e.gone = e.held_async = false; e.keep = 0; e.resets = 0; all[o->no] = e;}
			if (o->id() != next) bad("new-id", fmt("a new object got id %llu, expected %llu", (u64) o->id(), next)); if (p.last != o->id()) bad("on-create", "on_create did not see the final id"); id_of[o->no] = next++; keep.push_back(o);
			if (r.chance(3, 4)) {bool ok = p.add_object(o), want = pool.size() < cap; if (ok != want) bad("add", fmt("add_object returned %d with %zu of %zu objects", ok, pool.size(), cap)); if (ok) pool[o->id()] = o->no; else ++n_full; log += fmt("add=%d ", ok);}
			if (r.chance(2, 3)) keep.pop_back();
			break;
		}
		case 3: {ptr o = some(); if (!o) break; bool in_inv = std::count(inv.begin(), inv.end(), o->no) > 0; if (in_inv) break; bool want = pool.size() < cap && !pool.count(o->id()), ok = p.add_object(o); log += fmt("add %llu=%d ", o->no, ok); if (ok != want) bad("add", fmt("adding object %llu returned %d", o->no, ok)); if (ok) pool[o->id()] = o->no; break;}
		case 4: {u64 id = some_id(); bool want = pool.count(id) > 0, ok = p.del_object(id); log += fmt("del id %llu=%d ", id, ok); if (ok != want) bad("del", fmt("deleting id %llu returned %d", id, ok)); if (want) {inv.push_back(pool[id]); pool.erase(id);} break;}
		case 5: {ptr o = some(); if (!o) break; bool want = inpool(o->no); if (!want && pool.count(o->id())) break; bool ok = p.del_object(o); log += fmt("del %llu=%d ", o->no, ok); if (ok != want) bad("del", fmt("deleting object %llu returned %d", o->no, ok)); if (want) {pool.erase(o->id()); inv.push_back(o->no);} break;}
		case 6: {u64 id = some_id(); ptr o = p.find(id); bool ex = p.exist(id); u64 no = pool.count(id) ? pool[id] : 0; if ((o ? o->no : 0) != no || ex != (no > 0)) bad("find", fmt("id %llu: found object %llu (exist %d), expected %llu", id, o ? o->no : 0, ex, no)); if (o && r.chance(1, 4)) keep.push_back(o); break;}
		case 7: if (!keep.empty()) {size_t i = r.below(keep.size()); keep[i] = keep.back(); keep.pop_back();} break;
		case 8: {ptr o; u64 id = some_id(); o = p.find(id); if (!o) o = p.invalid_object_find(id); if (!o) o = some(); if (!o) break; bool g = r.chance(3, 4); o->gone = g; E_of(o->no).gone = g; bool a = r.chance(1, 5); o->held = a; E_of(o->no).held_async = a; log += fmt("object %llu gone %d busy %d ", o->no, g, a); break;}
		case 9: case 10: // another id
		{
			ptr o; bool from_keep = r.chance(1, 3); if (from_keep) o = some(); else if (!pool.empty()) {auto i = pool.begin(); std::advance(i, r.below(pool.size())); o = p.find(i->first);} if (!o) break; u64 id = some_id(), old = o->id(); bool member = inpool(o->no);
			if (9 == op)
			{
				bool want = o->is_equal_to(id) || (member && !pool.count(id)), ok = p.init_object_id(o, id); log += fmt("init_id %llu %llu->%llu=%d ", o->no, old, id, ok); if (ok != want) {bad("init-id", fmt("init_object_id of object %llu (member %d) from %llu to %llu returned %d", o->no, member, old, id, ok)); break;}
				if (ok && id != old) {pool.erase(old); pool[id] = o->no; id_of[o->no] = id; ++n_chg; if (id >= next) {p.set_start_object_id(id + 1); next = id + 1;}}
			}
			else
			{
				u64 cand = 0; for (u64 no : inv) if (id_of[no] == id) {cand = no; break;}
				bool want = cand && cand != o->no && free_able(cand) && (o->is_equal_to(id) || (member && !pool.count(id))); ptr got = p.change_object_id(o, id); log += fmt("change_id %llu %llu->%llu=%llu ", o->no, old, id, got ? got->no : 0);
				if ((got ? got->no : 0) != (want ? cand : 0)) {bad("change-id", fmt("change_object_id of object %llu (member %d) from %llu to %llu gave object %llu, expected %llu", o->no, member, old, id, got ? got->no : 0, want ? cand : 0)); break;}
				if (want) {inv.remove(cand); if (old != id) pool.erase(old); if (member) pool[id] = o->no; id_of[o->no] = id; ++n_chg; keep.push_back(got); if (r.chance(3, 4)) keep.pop_back();}
				else if (cand && free_able(cand)) {inv.remove(cand); inv.push_back(cand);} // looked at, put back
			}
			break;
		}
		case 11: {size_t want = 0; for (auto i = pool.begin(); i != pool.end();) if (E_of(i->second).gone && !E_of(i->second).held_async) {++want; ++i;} else ++i; std::vector<u64> moved; {for (auto i = pool.begin(); i != pool.end();) if (E_of(i->second).gone && !E_of(i->second).held_async) {moved.push_back(i->second); i = pool.erase(i);} else ++i;}
			strict = true; size_t n = p.clear_obsoleted_object(); strict = false; log += fmt("clear=%zu ", n); if (n != want) bad("clear", fmt("clear_obsoleted_object returned %zu, expected %zu", n, want));
			// their order in the set of invalid objects is not specified
			for (size_t i = inv.size(), e = p.invalid_object_size(); i < e; ++i) {ptr o = p.invalid_object_at(i); auto it = std::find(moved.begin(), moved.end(), o->no); if (it == moved.end()) bad("clear", fmt("object %llu became invalid", o->no)); else moved.erase(it); inv.push_back(o->no);} if (!moved.empty()) bad("clear", fmt("object %llu is neither valid nor invalid", moved[0])); break;}
		case 12: {size_t num = r.chance(1, 2) ? (size_t) -1 : r.below(4), want = 0; for (auto i = inv.begin(); i != inv.end() && want < num;) if (free_able(*i)) {++want; i = inv.erase(i);} else ++i; strict = true; size_t n = p.free_object(num); strict = false; log += fmt("free=%zu ", n); n_free += n; if (n != want) bad("free", fmt("free_object(%zd) returned %zu, expected %zu", (ssize_t) num, n, want)); ++frees; break;}
		case 13: {u64 id = some_id(); u64 cand = 0; if (r.chance(1, 2)) {for (u64 no : inv) if (id_of[no] == id) {cand = no; break;} u64 seen = cand; if (cand && !free_able(cand)) cand = 0; {ptr f = p.invalid_object_find(id); if ((f ? f->no : 0) != seen) bad("invalid-find", fmt("invalid_object_find(%llu) gave object %llu, expected %llu", id, f ? f->no : 0, seen));} ptr o = p.invalid_object_pop(id); if ((o ? o->no : 0) != cand) bad("invalid-pop", fmt("invalid_object_pop(%llu) gave object %llu, expected %llu", id, o ? o->no : 0, cand)); if (o) {inv.remove(cand); keep.push_back(o);} log += fmt("pop %llu=%llu ", id, cand);}
			else {for (u64 no : inv) if (free_able(no)) {cand = no; break;} ptr o = p.invalid_object_pop(); if ((o ? o->no : 0) != cand) bad("invalid-pop", fmt("invalid_object_pop() gave object %llu, expected %llu", o ? o->no : 0, cand)); if (o) {inv.remove(cand); keep.push_back(o);} log += fmt("pop=%llu ", cand);} break;}
		default: if (r.chance(1, 12)) {cap = r.below(12) + 1; p.max_size(cap);} if (r.chance(1, 25)) {p.finalize(); pool.clear(); log += "finalize ";}
		}
		// the whole state
		if (p.size() != pool.size()) bad("size", fmt("%zu objects, expected %zu", p.size(), pool.size())); if (p.invalid_object_size() != inv.size()) bad("invalid-size", fmt("%zu invalid objects, expected %zu", p.invalid_object_size(), inv.size()));
		if (vh::failed()) break;
		{std::map<u64, u64> seen; bool dup = false; p.do_something_to_all([&](const ptr& o) {if (!seen.emplace(o->id(), o->no).second) dup = true;}); if (dup || seen != pool) bad("traversal", "do_something_to_all did not visit exactly the members");}
		{std::map<u64, u64> seen; for (size_t i = 0; i < pool.size(); ++i) {ptr o = p.at(i); seen[o->id()] = o->no;} if (seen != pool) bad("at", "at() does not enumerate the members");}
		{size_t i = 0, stop = pool.empty() ? 0 : r.below(pool.size()), n = 0; p.do_something_to_one([&](const ptr&) {++n; return i++ == stop;}); if (n != (pool.empty() ? 0 : stop + 1)) bad("do-to-one", fmt("visited %zu objects", n));}
		size_t i = 0; for (u64 no : inv) {ptr o = p.invalid_object_at(i++); if (o->no != no) {bad("invalid-order", fmt("invalid object %zu is %llu, expected %llu", i - 1, o->no, no)); break;}}
		expected_alive = 0; for (auto& x : all) {bool want = inpool(x.first) || held(x.first) || std::count(inv.begin(), inv.end(), x.first); if (want != !x.second.w.expired()) {bad(want ? "destroyed" : "kept", fmt("object %llu %s", x.first, want ? "was destroyed while it is in the pool or held" : "still exists")); break;} if (want) ++expected_alive; else x.second.gone = false;}
		if ((u64) (n_alive - alive0) != expected_alive && !vh::failed()) bad("alive", fmt("%ld objects exist, expected %llu", n_alive - alive0, expected_alive));
	}
	vh::count("operations", ops); vh::count("objects", n_made.exchange(0)); vh::count("reused", n_reuse); vh::count("ids_changed", n_chg); vh::count("freed", n_free); vh::count("refused_full", n_full); vh::distinct(h); if (vh::want_sample()) vh::sample(fmt("%llu operations, capacity %zu: ", ops, cap) + log.substr(0, 400));
}

// ---- concurrent histories
static void con_case(Rng& r)
{
	service_pump sp; Pool p(sp); size_t cap = r.chance(1, 2) ? 4096 : r.below(20) + 2; p.max_size(cap); int nt = (int) r.range(2, 6), per = (int) r.range(100, 600); long alive0 = n_alive; n_made = 0;
	std::atomic<u64> adds(0), dels(0), cleared(0), freed(0), popped(0), changes(0), finds(0), walks(0), lost(0); std::atomic<u64> max_id(0); std::mutex mu; std::vector<u64> ids; std::vector<ptr> outside; std::vector<boost::weak_ptr<Obj> > busy;
	std::vector<std::thread> ts; std::atomic<int> go(0);
	for (int t = 0; t < nt; ++t)
	{
		u64 sd = r.next();
		ts.emplace_back([&, t, sd]()
		{
			Rng q(sd); std::vector<ptr> mine; std::vector<u64> my_ids; ++go; while (go < nt) sched_yield();
			for (int k = 0; k < per && !vh::failed(); ++k)
			{
				switch (q.below(12))
				{
				case 0: case 1: case 2: {ptr o = p.make(); if (!o) {vh::violation("create", "create_object failed"); break;} my_ids.push_back(o->id()); if (o->gone || o->held) vh::violation("reuse", "a new object is still in use"); {u64 m = max_id; while (o->id() > m && !max_id.compare_exchange_weak(m, o->id())) ;} if (p.add_object(o)) {++adds; mine.push_back(o);} else {if (cap > 4000) vh::violation("add", "add_object failed"); std::lock_guard<std::mutex> l(mu); outside.push_back(o);} break;}
				case 3: if (!mine.empty()) {size_t i = q.below(mine.size()); ptr o = mine[i]; mine[i] = mine.back(); mine.pop_back(); o->gone = true; if (p.del_object(o)) ++dels; break;} break;
				case 4: {u64 id = q.below(max_id + 1); ptr o = p.find(id); if (!o) break; o->gone = true; o.reset(); if (p.del_object(id)) ++dels; break;}
				case 5: {ptr o = p.find(q.below(max_id + 1)); if (o) {++finds; if (0x5a5a1234 != o->magic) vh::violation("dead-found", "a destroyed object was found"); if (q.chance(1, 3)) usleep(q.below(50));} break;}
				case 6: freed += p.free_object(q.chance(1, 2) ? (size_t) -1 : q.below(4)); break;
				case 7: if (q.chance(1, 4)) cleared += p.clear_obsoleted_object(); break;
				case 8: {++walks; size_t n = 0; std::set<u64> s; p.do_something_to_all([&](const ptr& o) {++n; if (!s.insert(o->id()).second) vh::violation("duplicate-id", fmt("two members have the id %llu", (u64) o->id())); if (0x5a5a1234 != o->magic) vh::violation("dead-member", "a destroyed object is a member");}); if (n > cap) vh::violation("too-many", fmt("%zu objects, the maximum is %zu", n, cap)); break;}
				case 9: if (!mine.empty()) // my object takes the id of an abandoned one
				{
					ptr o = mine[q.below(mine.size())]; u64 id = q.below(max_id + 1), old = o->id(); if (id == old) break; ptr x = p.change_object_id(o, id); if (!x) {if (o->id() != old) vh::violation("id-changed", "the id changed although change_object_id failed"); break;}
					++changes; if (o->id() != id || x->id() != id || x == o) vh::violation("change-id", "wrong object or id after change_object_id"); std::lock_guard<std::mutex> l(mu); outside.push_back(x); ids.push_back(old); break;
				} break;
				case 10: {ptr o = p.find(q.below(max_id + 1)); if (!o) break; if (q.chance(1, 2)) {if (0 == o->held++) {std::lock_guard<std::mutex> l(mu); busy.push_back(o);} else --o->held;} break;}
				default: {std::unique_lock<std::mutex> l(mu); if (busy.empty()) break; boost::weak_ptr<Obj> w = busy.back(); busy.pop_back(); l.unlock(); ptr o = w.lock(); if (o) --o->held;} if (mine.size() > 20) mine.erase(mine.begin(), mine.begin() + 10);
				}
			}
			std::lock_guard<std::mutex> l(mu); ids.insert(ids.end(), my_ids.begin(), my_ids.end());
		});
	}
	for (auto& t : ts) t.join();
	for (auto& w : busy) if (ptr o = w.lock()) --o->held;
	if (!vh::failed())
	{
		std::map<u64, u64> seen; std::set<u64> nos; p.do_something_to_all([&](const ptr& o) {if (!seen.emplace(o->id(), o->no).second) vh::violation("duplicate-id", fmt("two members have the id %llu", (u64) o->id())); if (!nos.insert(o->no).second) vh::violation("duplicate-member", fmt("object %llu is a member twice", o->no));});
		for (auto& x : seen) {ptr o = p.find(x.first); if (!o || o->no != x.second) vh::violation("wrong-key", fmt("object %llu is not found under its id %llu", x.second, x.first));}
		for (size_t i = 0, n = p.invalid_object_size(); i < n; ++i) {ptr o = p.invalid_object_at(i); if (!nos.insert(o->no).second) vh::violation("in-two-places", fmt("object %llu (id %llu) is invalid and valid or twice invalid", o->no, (u64) o->id()));}
		u64 reused = p.made - (u64) n_made; // created without a new object
		if (adds != p.size() + dels + cleared) vh::violation("conservation", fmt("%llu objects added, %zu are members, %llu were deleted, %llu kicked out", (u64) adds, p.size(), (u64) dels, (u64) cleared));
		u64 out_now = p.invalid_object_size() + freed + reused; u64 replaced = changes; if (dels + cleared != out_now + replaced) vh::violation("conservation", fmt("%llu objects left the pool, %zu are invalid, %llu freed, %llu reused, %llu replaced", (u64) (dels + cleared), p.invalid_object_size(), (u64) freed, reused, replaced));
		nos.clear(); for (auto& o : outside) nos.insert(o->no); p.do_something_to_all([&](const ptr& o) {nos.insert(o->no);}); for (size_t i = 0, n = p.invalid_object_size(); i < n; ++i) nos.insert(p.invalid_object_at(i)->no);
		if ((u64) (n_alive - alive0) != nos.size()) vh::violation("alive", fmt("%ld objects exist, %zu are held", n_alive - alive0, nos.size()));
		std::sort(ids.begin(), ids.end()); std::set<u64> u(ids.begin(), ids.end()); if (u.size() + changes < ids.size()) vh::violation("new-id", "an id was given to two new objects");
	}
	vh::count("objects_added", adds); vh::count("objects_deleted", dels); vh::count("kicked_out", cleared); vh::count("freed", freed); vh::count("ids_taken_over", changes); vh::count("found", finds); vh::count("traversals", walks); vh::distinct(vh::mix(adds * 1000003 + dels * 10007 + freed * 101 + changes * 7 + cleared)); if (vh::want_sample()) vh::sample(fmt("%d threads: %llu added, %llu deleted, %llu kicked out, %llu freed, %llu ids taken over", nt, (u64) adds, (u64) dels, (u64) cleared, (u64) freed, (u64) changes));
}
int main(int argc, char** argv) {vh::g().rule = "a case is a history of pool operations, sequential ones distinct by their sequence, concurrent ones by their outcome counts"; return vh::main(argc, argv, [](Rng& r) {if (getenv("VH_PARALLEL")) con_case(r); else seq_case(r);}, 100);}
