// C18: buffers and message wrappers against plain byte strings.
#define ST_ASIO_SYNC_SEND
#define ST_ASIO_FULL_STATISTIC
#include "vh.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include "include/ext/ext.h"
using namespace st_asio_wrapper; using namespace st_asio_wrapper::ext;
using vh::Rng; using vh::violation; using vh::hex; using vh::fmt;
typedef std::string S;

static S str(const basic_buffer& b) {return S(b.data() ? b.data() : "", b.size());}
static S str(const S& b) {return b;}
struct Tr {std::string t; vh::u64 sig; Tr() : sig(7) {} void op(const S& o) {if (t.size() < 1500) t += o + "; "; sig = vh::hmix(sig, vh::hash_str(o.substr(0, o.find('('))));}};

static bool same(const basic_buffer& b, const S& m, Tr& t, const char* what)
{
	if (b.size() == m.size() && b.empty() == m.empty() && (m.empty() || 0 == memcmp(b.data(), m.data(), m.size())) && b.capacity() >= b.size()) return true;
	violation(S("buffer/") + what, fmt("size %zu (capacity %zu, empty %d) content %s, a byte string has size %zu content %s; ops: ", b.size(), b.capacity(), (int) b.empty(), hex(str(b)).c_str(), m.size(), hex(m).c_str()) + t.t);
	return false;
}
static size_t len(Rng& r) {switch (r.below(5)) {case 0: return r.below(4); case 1: return 14 + r.below(5); case 2: return 15 + 16 * r.below(8) + r.below(3); default: return r.below(200);}}
static S nz(Rng& r, size_t n) {S s = r.bytes(n); for (auto& c : s) if (!c) c = 'z'; return s;}

static void buffer_case(Rng& r)
{
	Tr t; const int N = 3; basic_buffer* b[N]; S m[N];
	for (int i = 0; i < N; ++i)
	{
		S x = r.bytes(len(r)); int k = (int) r.below(13); size_t p = r.below(x.size() + 4), l = r.chance(1, 8) ? (size_t) -1 - r.below(3) : r.below(x.size() + 4); char arr[6] = {'a', 'b', 0, 'c', 'd', 'e'}; const char carr[4] = {'x', 0, 'y', 'z'};
		S z = nz(r, r.below(40));
		t.op(fmt("#%d ctor%d(size %zu pos %zu len %zu)", i, k, x.size(), p, l));
		switch (k)
		{
		case 0: b[i] = new basic_buffer; break;
		case 1: b[i] = new basic_buffer((size_t) x.size()); m[i] = x; memcpy(b[i]->data() ? b[i]->data() : arr, x.data(), b[i]->data() ? x.size() : 0); break;
		case 2: {int n = (int) r.below(50) - 10; b[i] = new basic_buffer(n); m[i].assign(n > 0 ? n : 0, 'q'); if (n > 0) memset(b[i]->data(), 'q', n); break;}
		case 3: b[i] = new basic_buffer(x.size(), 'c'); m[i] = S(x.size(), 'c'); break;
		case 4: b[i] = new basic_buffer((char*) z.c_str()); m[i] = z; break;
		case 5: b[i] = new basic_buffer((const char*) z.c_str()); m[i] = z; break;
		case 6: b[i] = new basic_buffer((const char*) x.data(), x.size()); m[i] = x; break;
		case 7: {size_t n = r.below(9); b[i] = new basic_buffer(arr, n); m[i] = S(arr, std::min<size_t>(n, 6)); break;}
		case 8: {size_t n = r.below(5); b[i] = new basic_buffer(carr, n); m[i] = S(carr, std::min<size_t>(n, 4)); break;}
		case 9: if (i) {b[i] = new basic_buffer(*b[0]); m[i] = m[0];} else {b[i] = new basic_buffer(x); m[i] = x;} break;
		case 10: b[i] = new basic_buffer(x); m[i] = x; break;
		case 11: b[i] = new basic_buffer(x, p); m[i] = p < x.size() ? x.substr(p) : S(); break;
		default: b[i] = new basic_buffer(x, p, l); m[i] = p < x.size() ? x.substr(p, l) : S();
		}
		if (!same(*b[i], m[i], t, "construct")) return;
	}
	int ops = 5 + (int) r.below(40);
	for (int o = 0; o < ops; ++o)
	{
		int i = (int) r.below(N), j = (int) r.below(N); basic_buffer& B = *b[i]; S& M = m[i]; S x = r.bytes(len(r)), z = nz(r, r.below(60)); int k = (int) r.below(33); char c = (char) r.next();
		size_t p = r.below(M.size() + 3), l = r.chance(1, 6) ? (r.chance(1, 2) ? UINT_MAX : (size_t) -1) : r.below(M.size() + 3);
		t.op(fmt("op%d(#%d #%d size %zu pos %zu len %zu x %zu)", k, i, j, M.size(), p, l, x.size()));
		try
		{
			switch (k)
			{
			case 0: B.append(c); M += c; break;
			case 1: B.append(x.size(), c); M.append(x.size(), c); break;
			case 2: B.append(x); M += x; break;
			case 3: B.append((char*) z.c_str()); M += z; break;
			case 4: B.append(z.c_str()); M += z; break;
			case 5: B.append((const char*) x.data(), x.size()); M += x; break;
			case 6: B.append((const char*) NULL, x.size()); break;
			case 7: B += *b[j]; M += S(m[j]); break;
			case 8: B += c; M += c; break;
			case 9: B += z.c_str(); M += z; break;
			case 10: B = c; M = S(1, c); break;
			case 11: B = z.c_str(); M = z; break;
			case 12: B = (char*) z.c_str(); M = z; break;
			case 13: B = x; M = x; break;
			case 14: case 15: B = *b[j]; M = S(m[j]); break;
			case 16: case 17: if (p > M.size()) {bool th = false; try {B.erase(p, l);} catch (const std::out_of_range&) {th = true;} if (!th) violation("buffer/erase-range", "erase beyond the end did not throw; ops: " + t.t);} else {B.erase(p, l); M.erase(p, l);} break;
			case 18: if (r.chance(1, 4)) {B.erase(); M.erase();} else {p = std::min(p, M.size()); B.erase(p); M.erase(p);} break;
			case 19: case 20: {size_t n = r.below(300), old = M.size(); B.resize(n); M.resize(n); if (n > old) {memset(B.data() + old, 'R', n - old); memset(&M[old], 'R', n - old);} break;}
			case 21: B.assign((const char*) x.data(), x.size()); M = x; break;
			case 22: B.reserve(r.below(600)); break;
			case 23: B.shrink_to_fit(); break;
			case 24: B.clear(); M.clear(); break;
			case 25: B.clean(); M.clear(); break;
			case 26: if (i != j) {B.swap(*b[j]); M.swap(m[j]);} break;
			case 27: // append2 drops a trailing zero first
				if (!M.empty() && !M.back()) M.erase(M.size() - 1);
				if (r.chance(1, 2)) {B.append2((const char*) x.data(), x.size()); M += x;} else {B.append2(z.c_str()); M += z; M += '\0';} break;
			case 28: if (!M.empty()) {size_t q = r.below(M.size()), n = 1 + r.below(M.size() - q); B.append(B.data() + q, n); M += S(M, q, n);} break; // part of itself
			case 29: {basic_buffer tmp(B); S ms(M); tmp.append("x", 1); ms += 'x'; same(tmp, ms, t, "copy"); break;} // copies are independent
			case 30: // requests beyond the maximum throw and change nothing
				{
					int th = 0;
					try {B.reserve((size_t) UINT_MAX + 1 + r.below(9));} catch (const std::length_error&) {++th;}
					try {B.append(r.chance(1, 2) ? (size_t) -1 - r.below(3) : (size_t) UINT_MAX + 1, 'x');} catch (const std::length_error&) {++th;}
					try {if (M.empty()) ++th; else B.append((const char*) x.data(), (size_t) UINT_MAX);} catch (const std::length_error&) {++th; if (x.empty()) ++th, --th;}
					try {B.resize((size_t) UINT_MAX + 1 + r.below(1000));} catch (const std::length_error&) {++th;}
					if (th != 4) violation("buffer/too-big", fmt("%d of 4 oversized requests threw length_error; ops: ", th) + t.t);
					break;
				}
			case 31: {char arr[5] = {1, 0, 2, 3, 4}; size_t n = r.below(8); B.append(arr, n); M.append(arr, std::min<size_t>(n, 5)); break;}
			default: {size_t n = r.below(100), old = M.size(); B.assign(n); M.resize(n); if (n > old) {memset(B.data() + old, 'A', n - old); memset(&M[old], 'A', n - old);} break;}
			}
		}
		catch (const std::exception& e) {violation("buffer/throw", fmt("op %d threw %s; ops: ", k, e.what()) + t.t); return;}
		vh::count("buffer_ops");
		for (int q = 0; q < N; ++q) if (!same(*b[q], m[q], t, fmt("op%d", k).c_str())) return;
		if (vh::failed()) return;
	}
	vh::distinct(t.sig);
	if (vh::want_sample()) vh::sample(t.t.substr(0, 300));
	for (int i = 0; i < N; ++i) delete b[i];
}

// ---- pointer wrapping buffers
static std::atomic<long> live(0);
struct Counted : public i_buffer {S s; Counted(const S& x) : s(x) {++live;} ~Counted() {--live;} bool empty() const {return s.empty();} size_t size() const {return s.size();} const char* data() const {return s.data();}};
template<class B> void ptr_case(Rng& r, bool shared)
{
	{
		std::vector<std::unique_ptr<B> > b; std::vector<S> m; std::vector<Counted*> who; Tr t;
		for (int i = 0; i < 3; ++i) {if (r.chance(1, 2)) {b.emplace_back(new B); m.push_back(""); who.push_back(NULL);} else {S x = r.bytes(r.below(20)); Counted* c = new Counted(x); b.emplace_back(new B(c)); m.push_back(x); who.push_back(c);}}
		for (int o = 0; o < 30; ++o)
		{
			int i = (int) r.below(3), j = (int) r.below(3), k = (int) r.below(5); t.op(fmt("ptr%d(#%d #%d)", k, i, j));
			S x = r.bytes(r.below(20));
			if (0 == k) {Counted* c = new Counted(x); b[i]->raw_buffer(c); m[i] = x; who[i] = c;}
			else if (1 == k && i != j) {b[i]->swap(*b[j]); m[i].swap(m[j]); std::swap(who[i], who[j]);}
			else if (2 == k) {b[i]->clear(); m[i].clear(); who[i] = NULL;}
			else if (3 == k && i != j) {typename B::buffer_type tmp; const_cast<typename B::buffer_type&>(b[j]->raw_buffer()).swap(tmp); Counted* w = (Counted*) tmp.get(); b[i]->raw_buffer(tmp); m[i] = m[j]; who[i] = who[j]; m[j].clear(); who[j] = NULL; (void) w; if (tmp) violation("pointer/move", "moving a raw buffer in left the source owning it");}
			else if (4 == k) b[i]->raw_buffer((Counted*) NULL), m[i].clear(), who[i] = NULL;
			std::set<Counted*> own;
			for (int q = 0; q < 3; ++q)
			{
				if (who[q]) own.insert(who[q]);
				const B& c = *b[q];
				if (c.empty() != m[q].empty() || c.size() != m[q].size() || (c.size() && memcmp(c.data(), m[q].data(), m[q].size())) || (!who[q] && c.data()) || (Counted*) c.raw_buffer().get() != who[q])
					{violation("pointer/forward", fmt("size %zu empty %d, target has %zu; ops: ", c.size(), (int) c.empty(), m[q].size()) + t.t); return;}
			}
			if (live != (long) own.size()) {violation("pointer/ownership", fmt("%ld targets alive, %zu owned; ops: ", live.load(), own.size()) + t.t); return;}
			vh::count("pointer_ops");
		}
		vh::distinct(vh::hmix(t.sig, shared));
	}
	if (live) violation("pointer/leak", fmt("%ld targets alive after their owners died", live.load()));
}

// ---- wrappers: timestamp, promise, UDP address
template<class P> P mk(const S& s);
template<> S mk<S>(const S& s) {return s;}
template<> basic_buffer mk<basic_buffer>(const S& s) {return basic_buffer(s.data(), s.size());}
template<class T> bool eq(const T& a, const S& m) {return a.size() == m.size() && (m.empty() || !memcmp(a.data(), m.data(), m.size()));}
typedef boost::chrono::system_clock::time_point TP;

template<class P> void time_case(Rng& r)
{
	typedef obj_with_begin_time<P> W; W w[3]; S m[3]; TP tm[3]; Tr t;
	for (int o = 0; o < 40; ++o)
	{
		int i = (int) r.below(3), j = (int) r.below(3), k = (int) r.below(9); S x = r.bytes(len(r)); P p = mk<P>(x); const P& cp = p; bool fresh = false; TP t0 = statistic::now(); t.op(fmt("time%d(#%d #%d)", k, i, j));
		switch (k)
		{
		case 0: {W y(cp); fresh = y.begin_time >= t0; if (!fresh || !eq(y, x) || !eq(p, x)) violation("wrapper/copy-in", t.t); w[i].swap(y); m[i] = x; tm[i] = w[i].begin_time; break;}
		case 1: {W y(p); if (!(y.begin_time >= t0) || !eq(y, x) || !p.empty()) violation("wrapper/move-in", t.t); w[i].swap(y); m[i] = x; tm[i] = w[i].begin_time; break;}
		case 2: {W& q = w[i] = cp; if (&q != &w[i] || !eq(p, x)) violation("wrapper/assign", t.t); m[i] = x; if (w[i].begin_time < t0) violation("wrapper/restart", t.t); tm[i] = w[i].begin_time; break;}
		case 3: {w[i] = p; if (!p.empty()) violation("wrapper/move-assign", "source not emptied; " + t.t); m[i] = x; if (w[i].begin_time < t0) violation("wrapper/restart", t.t); tm[i] = w[i].begin_time; break;}
		case 4: {const W& cw = w[j]; W y(cw); if (!eq(y, m[j]) || y.begin_time != tm[j]) violation("wrapper/copy", t.t); if (i != j) {const W& cy = y; W& q = w[i] = cy; if (&q != &w[i]) violation("wrapper/assign-value", t.t); m[i] = m[j]; tm[i] = tm[j];} break;}
		case 5: {W y(w[j]); if (!eq(y, m[j]) || y.begin_time != tm[j] || !w[j].empty()) violation("wrapper/move", t.t); m[j].clear(); tm[j] = w[j].begin_time; if (i != j) {m[i] = str(y); tm[i] = y.begin_time; W& q = (w[i] = y); if (&q != &w[i]) violation("wrapper/assign-value", t.t); if (!y.empty()) violation("wrapper/move-assign", "source not emptied; " + t.t);} break;}
		case 6: if (i != j) {w[i].swap(w[j]); m[i].swap(m[j]); std::swap(tm[i], tm[j]);} break;
		case 7: {S old = m[i]; w[i].swap(p); m[i] = x; if (!eq(p, old)) violation("wrapper/swap", t.t); if (w[i].begin_time < t0) violation("wrapper/restart", t.t); tm[i] = w[i].begin_time; break;}
		default: w[i].clear(); m[i].clear(); tm[i] = w[i].begin_time; if (tm[i] != TP()) violation("wrapper/clear", t.t);
		}
		for (int q = 0; q < 3; ++q) if (!eq(w[q], m[q]) || w[q].begin_time != tm[q]) {violation("wrapper/time", fmt("slot %d payload of %zu bytes, expected %zu; ", q, w[q].size(), m[q].size()) + t.t); return;}
		vh::count("wrapper_ops"); if (vh::failed()) return;
	}
	vh::distinct(vh::hmix(t.sig, 11));
}
template<class P> void promise_case(Rng& r)
{
	typedef obj_with_begin_time_promise<P> W; typedef boost::promise<sync_call_result> PR; W w[3]; S m[3]; PR* pr[3] = {NULL, NULL, NULL}; Tr t;
	for (int o = 0; o < 40; ++o)
	{
		int i = (int) r.below(3), j = (int) r.below(3), k = (int) r.below(8); S x = r.bytes(len(r)); P p = mk<P>(x); const P& cp = p; bool need = r.chance(1, 2); t.op(fmt("prom%d(#%d #%d %d)", k, i, j, (int) need));
		switch (k)
		{
		case 0: {W y(p, need); if (!p.empty() || !eq(y, x) || need != !!y.p) violation("wrapper/promise-in", t.t); w[i].swap(y); m[i] = x; pr[i] = w[i].p.get(); break;}
		case 1: {W y(cp, need); if (!eq(p, x) || !eq(y, x) || need != !!y.p) violation("wrapper/promise-in", t.t); w[i].swap(y); m[i] = x; pr[i] = w[i].p.get(); break;}
		case 2: {const W& c = w[j]; W y(c); if (!eq(y, m[j]) || y.p.get() != pr[j]) violation("wrapper/promise-copy", t.t); if (i != j) {const W& cy = y; w[i] = cy; m[i] = m[j]; pr[i] = pr[j];} break;}
		case 3: {W y(w[j]); if (!eq(y, m[j]) || y.p.get() != pr[j] || w[j].p || !w[j].empty()) violation("wrapper/promise-move", t.t); m[j].clear(); pr[j] = NULL; if (i != j) {m[i] = str(y); pr[i] = y.p.get(); w[i] = y; if (y.p || !y.empty()) violation("wrapper/promise-move-assign", t.t);} break;}
		case 4: if (i != j) {w[i].swap(w[j]); m[i].swap(m[j]); std::swap(pr[i], pr[j]);} break;
		case 5: {PR* old = pr[i]; w[i].swap(p, need); m[i] = x; if (need != !!w[i].p || (need && old && w[i].p.get() != old)) violation("wrapper/promise-swap", t.t); pr[i] = w[i].p.get(); break;}
		case 6: {PR* old = pr[i]; w[i].check_and_create_promise(need); if (need != !!w[i].p || (need && old && w[i].p.get() != old)) violation("wrapper/promise-create", t.t); pr[i] = w[i].p.get(); break;}
		default: w[i].clear(); m[i].clear(); pr[i] = NULL;
		}
		for (int q = 0; q < 3; ++q) if (!eq(w[q], m[q]) || w[q].p.get() != pr[q]) {violation("wrapper/promise", fmt("slot %d payload %zu expected %zu, promise %d; ", q, w[q].size(), m[q].size(), w[q].p.get() == pr[q]) + t.t); return;}
		vh::count("wrapper_ops"); if (vh::failed()) return;
	}
	vh::distinct(vh::hmix(t.sig, 13));
}
template<class P> void udp_case(Rng& r)
{
	typedef udp::udp_msg<P> W; typedef boost::asio::ip::udp::endpoint EP; W w[3]; S m[3]; EP e[3]; Tr t;
	for (int o = 0; o < 40; ++o)
	{
		int i = (int) r.below(3), j = (int) r.below(3), k = (int) r.below(7); S x = r.bytes(len(r)); P p = mk<P>(x); const P& cp = p; EP ep(boost::asio::ip::address_v4((unsigned) r.next()), (unsigned short) r.next()); t.op(fmt("udp%d(#%d #%d)", k, i, j));
		switch (k)
		{
		case 0: {W y(ep, cp); if (!eq(y, x) || !eq(p, x) || y.peer_addr != ep) violation("wrapper/udp-in", t.t); w[i].swap(y); m[i] = x; e[i] = ep; break;}
		case 1: {W y(ep, p); if (!eq(y, x) || !p.empty() || y.peer_addr != ep) violation("wrapper/udp-move-in", t.t); w[i].swap(y); m[i] = x; e[i] = ep; break;}
		case 2: {const W& c = w[j]; W y(c); if (!eq(y, m[j]) || y.peer_addr != e[j] || !eq(w[j], m[j])) violation("wrapper/udp-copy", t.t); w[i].swap(y); if (i != j) {m[i] = m[j]; e[i] = e[j];} break;}
		case 3: {W y(w[j]); if (!eq(y, m[j]) || y.peer_addr != e[j] || !w[j].empty()) violation("wrapper/udp-move", t.t); w[j].swap(y); break;}
		case 4: if (i != j) {w[i].swap(w[j]); m[i].swap(m[j]); std::swap(e[i], e[j]);} break;
		case 5: {W y(ep); if (!y.empty() || y.peer_addr != ep) violation("wrapper/udp-addr", t.t); y.swap(p); if (!eq(y, x)) violation("wrapper/udp-swap", t.t); w[i].swap(y); m[i] = x; e[i] = ep; break;}
		default: w[i].clear(); m[i].clear();
		}
		for (int q = 0; q < 3; ++q) if (!eq(w[q], m[q]) || w[q].peer_addr != e[q]) {violation("wrapper/udp", fmt("slot %d payload %zu expected %zu; ", q, w[q].size(), m[q].size()) + t.t); return;}
		vh::count("wrapper_ops"); if (vh::failed()) return;
	}
	vh::distinct(vh::hmix(t.sig, 17));
}
static void one(Rng& r)
{
	switch (r.below(9))
	{
	case 0: ptr_case<unique_buffer<i_buffer> >(r, false); break;
	case 1: ptr_case<shared_buffer<i_buffer> >(r, true); break;
	case 2: time_case<S>(r); time_case<basic_buffer>(r); break;
	case 3: promise_case<S>(r); promise_case<basic_buffer>(r); break;
	case 4: udp_case<S>(r); udp_case<basic_buffer>(r); break;
	default: buffer_case(r);
	}
}
static void outer(Rng& r)
{
	// the same case twice: the second run must not leave more memory allocated than it found (the first one warms caches up)
	Rng a(r), b(r); one(a); if (vh::failed()) return;
	if (vh::g().case_idx % 8 == 0)
	{
		vh::u64 c = vh::g().distinct.size(); (void) c;
		size_t before = __sanitizer_get_current_allocated_bytes(); one(b); size_t after = __sanitizer_get_current_allocated_bytes();
		if (after > before + 64) {size_t b2 = after; Rng d(r); one(d); size_t a2 = __sanitizer_get_current_allocated_bytes(); if (a2 > b2 + 64 && a2 - b2 == after - before) violation("leak", fmt("%zu bytes stay allocated after every run of this case", after - before));}
		vh::count("leak_checks");
	}
}
int main(int argc, char** argv)
{
	vh::g().rule = "random operation sequences on basic_buffer, pointer buffers and message wrappers compared after every operation with byte-string models; distinct = operation sequence";
	return vh::main(argc, argv, outer);
}
