// C19: the message queue against a sequential deque; concurrent histories are checked for linearizability.
#include "vh.h"
#include "include/base.h"
#include "include/container.h"
#include <list>
#include <algorithm>
using namespace st_asio_wrapper;
using vh::Rng; using vh::violation; using vh::fmt;
typedef std::string S; typedef vh::u64 u64;

static thread_local unsigned yrng = 1;
static bool perturb = false;
static inline void maybe_yield()
{
	if (!perturb) return;
	yrng = yrng * 1664525u + 1013904223u; unsigned v = yrng >> 16;
	if (v % 4 == 0) sched_yield(); else if (v % 61 == 0) usleep(v % 30);
}
struct Item // the queue calls size(), swap() and the constructors; each of them may be preempted
{
	u64 id; size_t sz; S* body;
	Item() : id(0), sz(0), body(new S) {}
	Item(u64 i, size_t s) : id(i), sz(s), body(new S(std::to_string(i))) {}
	Item(const Item& o) : id(o.id), sz(o.sz), body(new S(*o.body)) {maybe_yield();}
	~Item() {delete body;}
	Item& operator=(const Item& o) {id = o.id; sz = o.sz; *body = *o.body; return *this;}
	size_t size() const {maybe_yield(); return sz;}
	bool empty() const {return 0 == sz;}
	const char* data() const {return body->data();}
	void swap(Item& o) {std::swap(id, o.id); maybe_yield(); std::swap(sz, o.sz); std::swap(body, o.body);}
	void clear() {id = 0; sz = 0; body->clear();}
	bool intact() const {return *body == (id ? std::to_string(id) : S());}
};
// a second container type, as the library allows users to supply one
template<typename T> class std_list : public std::list<T>
{
public:
	typename std::list<T>::reference emplace_back() {this->push_back(T()); return this->back();}
	template<typename A> typename std::list<T>::reference emplace_back(const A& a) {this->push_back(a); return this->back();}
	typename std::list<T>::reference emplace_front() {this->push_front(T()); return this->front();}
	template<typename A> typename std::list<T>::reference emplace_front(const A& a) {this->push_front(a); return this->front();}
};

typedef std::pair<u64, size_t> E; typedef std::vector<E> VE;
enum Kind {ENQ, ENQ_MOVE, ENQF, ENQF_MOVE, IN, INF, IN_SIZED, DEQ, OUT_ALL, OUT_N, OUT_BYTES, SWAP, CLEAR, EMPTY, EACH, ONE, NKIND};
static const char* KN[] = {"enqueue", "enqueue(move)", "enqueue_front", "enqueue_front(move)", "move_items_in", "move_items_in_front", "move_items_in(sized)", "try_dequeue", "move_items_out", "move_items_out(n)", "move_items_out(bytes)", "swap", "clear", "is_empty", "do_something_to_all", "do_something_to_one"};
struct Op {int kind; VE in, out; size_t arg; bool flag; u64 t0, t1; int thr; Op() : kind(0), arg(0), flag(false), t0(0), t1(0), thr(0) {}};

static VE ids(const VE& v) {return v;}
static S show(const Op& o)
{
	S s = fmt("t%d %s", o.thr, KN[o.kind]); if (o.kind == OUT_N || o.kind == OUT_BYTES || o.kind == ONE) s += fmt("(%zd)", (ssize_t) o.arg);
	s += " in["; for (auto& e : o.in) s += fmt("%llu:%zu ", e.first, e.second); s += "] out["; for (auto& e : o.out) s += fmt("%llu:%zu ", e.first, e.second); return s + fmt("] %d @%llu-%llu", (int) o.flag, o.t0, o.t1);
}
// the model; returns false if the recorded result is impossible in this state
static bool apply(std::deque<E>& d, const Op& o)
{
	switch (o.kind)
	{
	case ENQ: case ENQ_MOVE: if (!o.flag) return false; d.push_back(o.in[0]); return true;
	case ENQF: case ENQF_MOVE: if (!o.flag) return false; d.push_front(o.in[0]); return true;
	case IN: case IN_SIZED: d.insert(d.end(), o.in.begin(), o.in.end()); return true;
	case INF: d.insert(d.begin(), o.in.begin(), o.in.end()); return true;
	case DEQ: if (d.empty()) return !o.flag; if (!o.flag || o.out.size() != 1 || d.front() != o.out[0]) return false; d.pop_front(); return true;
	case OUT_ALL: case OUT_N: case OUT_BYTES: case SWAP:
		{
			size_t n = 0, b = 0;
			if (o.kind == OUT_ALL || o.kind == SWAP || o.arg == (size_t) -1) n = d.size();
			else if (o.kind == OUT_N) n = std::min(o.arg, d.size());
			else while (n < d.size()) {b += d[n++].second; if (b >= o.arg) break;}
			if (o.out.size() != n || !std::equal(o.out.begin(), o.out.end(), d.begin())) return false;
			d.erase(d.begin(), d.begin() + n); if (o.kind == SWAP) d.insert(d.end(), o.in.begin(), o.in.end()); return true;
		}
	case CLEAR: d.clear(); return true;
	case EMPTY: return o.flag == d.empty();
	case EACH: return o.out.size() == d.size() && std::equal(o.out.begin(), o.out.end(), d.begin());
	case ONE: {size_t n = std::min(o.arg, d.size()); return o.out.size() == n && std::equal(o.out.begin(), o.out.end(), d.begin());} // stops at the n-th
	}
	return false;
}
struct Collect {VE* v; size_t* left; bool operator()(const Item& i) const {if (!i.intact()) violation("torn-item", fmt("item %llu", i.id)); v->push_back(E(i.id, i.sz)); return left && 0 == --*left;}};

template<class Q, class C> struct Rig
{
	Q q;
	void fill(C& c, const VE& v) {for (auto& e : v) {Item i(e.first, e.second); c.emplace_back().swap(i);}}
	void take(C& c, VE& v) {for (auto it = c.begin(); it != c.end(); ++it) {if (!it->intact()) violation("torn-item", fmt("item %llu", it->id)); v.push_back(E(it->id, it->sz));}}
	void exec(Op& o, std::atomic<u64>& clk)
	{
		C c; Item it; size_t bytes = 0;
		if (o.kind <= ENQF_MOVE) {Item x(o.in[0].first, o.in[0].second); it.swap(x);}
		if (o.kind == IN || o.kind == INF || o.kind == SWAP || o.kind == IN_SIZED) fill(c, o.in);
		for (auto& e : o.in) bytes += e.second;
		VE before; if (o.kind >= OUT_ALL && o.kind <= OUT_BYTES) for (unsigned i = 0; i < (o.thr + o.in.size() + clk.load()) % 3; ++i) before.push_back(E(~(u64) i, 5 + i)); // the destination need not be empty
		fill(c, before);
		size_t left = o.arg; Collect each = {&o.out, NULL}, one = {&o.out, &left}; const Item& cit = it;
		o.t0 = clk.fetch_add(1);
		switch (o.kind)
		{
		case ENQ: o.flag = q.enqueue(cit); break;
		case ENQ_MOVE: o.flag = q.enqueue(it); break;
		case ENQF: o.flag = q.enqueue_front(cit); break;
		case ENQF_MOVE: o.flag = q.enqueue_front(it); break;
		case IN: q.move_items_in(c); break;
		case IN_SIZED: q.move_items_in(c, bytes); break;
		case INF: if (o.arg & 1) q.move_items_in_front(c); else q.move_items_in_front(c, bytes); break;
		case DEQ: o.flag = q.try_dequeue(it); break;
		case OUT_ALL: q.move_items_out(c); break;
		case OUT_N: q.move_items_out(c, o.arg); break;
		case OUT_BYTES: q.move_items_out(o.arg, c); break;
		case SWAP: q.swap(c); break;
		case CLEAR: q.clear(); break;
		case EMPTY: o.flag = q.is_empty(); break;
		case EACH: q.do_something_to_all(each); break;
		case ONE: q.do_something_to_one(one); break;
		}
		o.t1 = clk.fetch_add(1);
		if (o.kind == ENQ_MOVE || o.kind == ENQF_MOVE) {if (it.id) violation("not-moved", "the source of a moving enqueue still holds the item");}
		if (o.kind == IN || o.kind == INF || o.kind == IN_SIZED) {if (!c.empty()) violation("not-moved", "the source of move_items_in is not empty");}
		if (o.kind == DEQ && o.flag) {if (!it.intact()) violation("torn-item", fmt("item %llu", it.id)); o.out.push_back(E(it.id, it.sz));}
		if (o.kind >= OUT_ALL && o.kind <= SWAP) take(c, o.out);
		if (!before.empty())
		{
			if (o.out.size() < before.size() || !std::equal(before.begin(), before.end(), o.out.begin())) violation("destination-lost", fmt("the %zu items which were in the destination of a move before are not at its front any more", before.size()));
			else o.out.erase(o.out.begin(), o.out.begin() + before.size());
		}
	}
};

static Op gen(Rng& r, u64& next, int thr, bool rare)
{
	Op o; o.thr = thr; int k = (int) r.below(100);
	if (k < 16) o.kind = ENQ; else if (k < 30) o.kind = ENQ_MOVE; else if (k < 34) o.kind = ENQF; else if (k < 38) o.kind = ENQF_MOVE; else if (k < 44) o.kind = IN; else if (k < 48) o.kind = IN_SIZED; else if (k < 52) o.kind = INF;
	else if (k < 70) o.kind = DEQ; else if (k < 74) o.kind = OUT_ALL; else if (k < 80) o.kind = OUT_N; else if (k < 86) o.kind = OUT_BYTES; else if (k < 89) o.kind = SWAP; else if (k < 91) o.kind = CLEAR; else if (k < 95) o.kind = EMPTY; else if (k < 98) o.kind = EACH; else o.kind = ONE;
	size_t n = o.kind <= ENQF_MOVE ? 1 : o.kind == IN || o.kind == INF || o.kind == SWAP || o.kind == IN_SIZED ? r.below(4) : 0;
	if (o.kind == SWAP && !rare) n = r.below(2) * n;
	for (size_t i = 0; i < n; ++i) o.in.push_back(E(++next, r.chance(1, 6) ? 0 : r.below(20)));
	o.arg = o.kind == OUT_N ? (r.chance(1, 10) ? (size_t) -1 : r.below(5)) : o.kind == OUT_BYTES ? (r.chance(1, 10) ? (size_t) -1 : r.below(40)) : o.kind == ONE ? 1 + r.below(3) : r.next();
	return o;
}

// ---- sequential
template<class Q, class C> void seq_case(Rng& r)
{
	Rig<Q, C> rig; std::deque<E> d; std::atomic<u64> clk(0); u64 next = 0; u64 sig = 3; S tr;
	for (int i = 0; i < 60; ++i)
	{
		Op o = gen(r, next, 0, true); rig.exec(o, clk); if (tr.size() < 2500) tr += show(o) + "; "; sig = vh::hmix(sig, o.kind); sig = vh::hmix(sig, o.arg & 63);
		if (!apply(d, o)) {violation("sequential", tr); return;}
		size_t b = 0; for (auto& e : d) b += e.second;
		if (rig.q.size_in_byte() != b) {violation("bytes", fmt("reports %zu bytes, holds %zu after ", rig.q.size_in_byte(), b) + tr); return;}
		if (rig.q.size() != d.size() || rig.q.empty() != d.empty()) {violation("items", tr); return;}
		vh::count("sequential_ops"); if (vh::failed()) return;
	}
	vh::distinct(sig);
}

// ---- concurrent
static bool lin(std::vector<Op>& h, u64 done, const std::deque<E>& d, std::set<std::pair<u64, u64> >& seen, u64& steps)
{
	u64 all = (h.size() == 64 ? 0 : (1ULL << h.size())) - 1; if (done == all) return true;
	u64 hs = 99; for (auto& e : d) hs = vh::hmix(hs, e.first);
	if (!seen.insert(std::make_pair(done, hs)).second) return false;
	u64 minend = (u64) -1; for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) minend = std::min(minend, h[i].t1);
	for (size_t i = 0; i < h.size(); ++i)
		if (!(done >> i & 1) && h[i].t0 <= minend)
		{
			if (++steps > 3000000) return true; // undecided, counted
			std::deque<E> e(d); if (apply(e, h[i]) && lin(h, done | 1ULL << i, e, seen, steps)) return true;
		}
	return false;
}
struct Pool // persistent threads, started together
{
	std::vector<std::thread> th; std::atomic<int> gen_, done; std::function<void(int)> job; std::mutex m; int n;
	explicit Pool(int n_) : gen_(0), done(0), n(n_) {for (int i = 0; i < n; ++i) th.emplace_back([this, i]() {int g = 0; for (;;) {int x; int spin = 0; while ((x = gen_.load()) == g) if (++spin > 2000) usleep(20); g = x; if (g < 0) return; job(i); ++done;}});}
	void run(const std::function<void(int)>& f) {job = f; done = 0; ++gen_; while (done < n) sched_yield();}
	~Pool() {gen_ = -1; for (auto& t : th) t.join();}
};
template<class Q, class C> void conc_case(Rng& r)
{
	static Pool pool(4); static std::atomic<u64> clk(0);
	Rig<Q, C>* rig = new Rig<Q, C>; u64 next = 0; int nt = 2 + (int) r.below(3), per = 2 + (int) r.below(nt == 4 ? 4 : 5);
	std::vector<std::vector<Op> > plan(4); for (int t = 0; t < nt; ++t) for (int i = 0; i < per; ++i) plan[t].push_back(gen(r, next, t, false));
	std::vector<Op> h; int pre = (int) r.below(4);
	for (int i = 0; i < pre; ++i) {Op o; o.kind = ENQ; o.thr = 9; o.in.push_back(E(++next, r.below(20))); rig->exec(o, clk); h.push_back(o);}
	perturb = true; unsigned seed = (unsigned) r.next();
	pool.run([&](int t) {yrng = seed + t * 7919; for (auto& o : plan[t]) {maybe_yield(); rig->exec(o, clk);}});
	perturb = false;
	for (auto& p : plan) for (auto& o : p) h.push_back(o);
	size_t rep = rig->q.size_in_byte(); Op last; last.kind = OUT_ALL; last.thr = 9; rig->exec(last, clk); h.push_back(last);
	size_t b = 0; for (auto& e : last.out) b += e.second;
	S tr; for (auto& o : h) tr += "\n" + show(o);
	if (rep != b) {violation("bytes", fmt("reports %zu bytes at quiescence, holds %zu; history: ", rep, b) + tr); return;}
	if (rig->q.size_in_byte()) {violation("bytes", "not 0 when empty; history: " + tr); return;}
	delete rig;
	// exactly once, unless cleared
	std::map<u64, int> seen; bool cleared = false; for (auto& o : h) {if (o.kind == CLEAR) cleared = true; if (o.kind != EACH && o.kind != ONE) for (auto& e : o.out) ++seen[e.first];}
	for (auto& s : seen) if (s.second > 1) {violation("duplicated", fmt("item %llu came out %d times; history: ", s.first, s.second) + tr); return;}
	if (!cleared && seen.size() != next) {violation("lost", fmt("%llu items in, %zu out; history: ", next, seen.size()) + tr); return;}
	std::set<std::pair<u64, u64> > memo; u64 steps = 0; std::sort(h.begin(), h.end(), [](const Op& a, const Op& b) {return a.t0 < b.t0;});
	if (!lin(h, 0, std::deque<E>(), memo, steps)) {violation("not-linearizable", "no sequential order of these operations explains the results: " + tr); return;}
	vh::count("histories"); vh::count("concurrent_ops", h.size()); if (steps > 3000000) vh::count("undecided_histories");
	u64 sig = 5, overlaps = 0; for (size_t i = 0; i < h.size(); ++i) {sig = vh::hmix(sig, h[i].thr * 100 + h[i].kind); for (size_t j = i + 1; j < h.size(); ++j) if (h[j].t0 < h[i].t1) {++overlaps; sig = vh::hmix(sig, i * 64 + j);}}
	vh::count("overlapping_pairs", overlaps); if (overlaps) vh::distinct(sig);
	if (overlaps > 3 && vh::want_sample()) vh::sample(tr.substr(0, 500));
}
static void one(Rng& r)
{
	typedef list<Item> C1; typedef std_list<Item> C2;
#if VH_MODE == 1
	switch (r.below(4)) {case 0: seq_case<lock_queue<C1>, C1>(r); break; case 1: seq_case<non_lock_queue<C1>, C1>(r); break; case 2: seq_case<lock_queue<C2>, C2>(r); break; default: seq_case<non_lock_queue<C2>, C2>(r);}
#else
	if (r.chance(2, 3)) conc_case<lock_queue<C1>, C1>(r); else conc_case<lock_queue<C2>, C2>(r);
#endif
}
int main(int argc, char** argv)
{
	vh::g().rule = VH_MODE == 1 ? "60 random operations on each queue/container kind compared with a deque, bytes compared after each; distinct = operation sequence" : "2-4 threads x 2-6 random operations, preempted inside size()/swap(), history checked for linearizability; distinct = order and overlap pattern of a history with real overlap";
	return vh::main(argc, argv, one);
}
