// TCP rig: observed sockets (server and client side), self-describing messages, flows, links, online monitors.
// The monitors report under the names of properties; a unit judges only those of its property (VH_PROP).
#ifndef VH_RIG_H_
#define VH_RIG_H_
#include "vh.h"
#include "perturb.h"
#include <stddef.h>
#include <sys/un.h>
#include <netinet/in.h>
#ifdef RIG_STDLIST
#include <list>
template<typename T> struct vhlist : std::list<T> {vhlist() {} vhlist(size_t n) : std::list<T>(n) {}};
#endif
#ifndef RIG_AUTO_STOP
#define ST_ASIO_AVOID_AUTO_STOP_SERVICE // required with several contexts
#endif
#include "include/ext/packer.h"
#include "include/ext/unpacker.h"
#ifndef RIG_PACKER
#define RIG_PACKER ext::packer<>
#endif
#ifndef RIG_UNPACKER
#define RIG_UNPACKER ext::unpacker<>
#endif
#include "include/ext/tcp.h"

namespace rig
{
using namespace st_asio_wrapper;
using vh::Rng; using vh::fmt; using vh::u64; using vh::tick;
typedef std::string S; typedef unsigned u32;

// ------------------------------------------------------------------ properties
inline const char* props() {static const char* p = getenv("VH_PROPS"); return p ? p : "C04";}
inline bool on(const char* p) {return NULL != strstr(props(), p);}
inline void bad(const char* props, const S& key, const S& detail) // props: "C04 C05": the properties this observation breaks
{
	const char* q = props;
	while (*q) {S p(q, 3); if (on(p.c_str())) {vh::violation(key, detail); return;} q += 3; while (*q == ' ') ++q;}
}

// ------------------------------------------------------------------ messages: flow, sequence, length, check, filler; printable
static const size_t MIN_BODY = 14;
inline void put64(char* p, u32 v, int n) {static const char* d = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz-_"; while (--n >= 0) {p[n] = d[v & 63]; v >>= 6;}}
inline long get64(const char* p, int n) {long v = 0; for (int i = 0; i < n; ++i) {char c = p[i]; int k = c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : c >= 'a' && c <= 'z' ? c - 'a' + 36 : c == '-' ? 62 : c == '_' ? 63 : -1; if (k < 0) return -1; v = v << 6 | k;} return v;}
inline void fill(char* p, size_t n, u32 flow, u32 seq) {u64 z = vh::mix(((u64) flow << 32) ^ seq); for (size_t i = 0; i < n; ++i) {if (0 == (i & 7)) z = vh::mix(z + i); p[i] = (char) ('a' + ((z >> (i & 7) * 8) & 255) % 26);}}
inline S body(u32 flow, u32 seq, size_t len)
{
	if (len < MIN_BODY) len = MIN_BODY;
	S s(len, 0); put64(&s[0], flow, 3); put64(&s[3], seq, 4); put64(&s[7], (u32) len, 4); put64(&s[11], (u32) (vh::mix(((u64) flow << 40) ^ ((u64) seq << 16) ^ len) & 0x3ffff), 3);
	fill(&s[MIN_BODY], len - MIN_BODY, flow, seq); return s;
}
inline const char* parse(const char* p, size_t n, u32& flow, u32& seq)
{
	if (n < MIN_BODY) return "too short";
	long f = get64(p, 3), q = get64(p + 3, 4), l = get64(p + 7, 4), c = get64(p + 11, 3);
	if (f < 0 || q < 0 || l < 0 || c < 0 || c != (long) (vh::mix(((u64) f << 40) ^ ((u64) q << 16) ^ (u64) l) & 0x3ffff)) return "damaged head";
	if ((size_t) l != n) return "wrong length";
	flow = (u32) f; seq = (u32) q; static thread_local S t; t.resize(n); fill(&t[0], n - MIN_BODY, flow, seq);
	return memcmp(t.data(), p + MIN_BODY, n - MIN_BODY) ? "damaged body" : NULL;
}

struct Rec;
struct Flow
{
	u32 id; bool ordered; std::atomic<Rec*> dest; // dest NULL: every socket of a set may get it
	bool single; // only interfaces which queue one item per message
	std::mutex mu; std::vector<u32> accepted; std::atomic<u64> n_accepted; std::atomic<u32> next;
	std::atomic<u64> bytes; // packed bytes accepted
	Flow(u32 i, bool o, Rec* d) : id(i), ordered(o), dest(d), single(false), n_accepted(0), next(0), bytes(0) {}
	void accept(u32 seq) {std::lock_guard<std::mutex> l(mu); accepted.push_back(seq); ++n_accepted;}
};

// what an unpacker produced, in order
struct Arrival
{
	std::mutex mu; std::deque<u64> q; std::atomic<u64> msgs, bytes; std::atomic<int> busy; std::atomic<u64> parses; bool keep; std::function<void()> before_parse;
	Arrival() : msgs(0), bytes(0), busy(0), parses(0), keep(true) {}
};

struct Rec // one socket object; outlives it
{
	const char* side; std::atomic<u64> id; std::shared_ptr<Arrival> arr;
	std::atomic<int> in_handle, in_msg, in_send, in_all, in_close, in_any;
	std::atomic<int> connects, closes, recv_errors, unpack_errors, send_errors, hb_errors, async_errors, after_closes, resets;
	std::atomic<bool> up, alive; std::atomic<unsigned> lport, rport;
	std::atomic<u64> got_n, got_bytes, handled_calls, refused, max_recv_buf, send_cb, all_cb, send_cb_bytes, sync_got;
	std::mutex mu; std::map<u32, std::vector<u32> > got; std::map<u32, long> last_of[2]; bool refused_pending; u64 refused_hash; std::deque<u64> left; // under mu
	std::vector<std::pair<u32, u32> > send_log, all_log, error_log, discard_log, pending_log; std::vector<u64> all_sum; // the messages reported as sent, not sent, discarded, under mu
	void* sock; Rng rng; // rng: only in the asynchronous handler
	std::atomic<u64> last_cb_thread;
	Rec(const char* s) : side(s), id(0), in_handle(0), in_msg(0), in_send(0), in_all(0), in_close(0), in_any(0), connects(0), closes(0), recv_errors(0), unpack_errors(0), send_errors(0), hb_errors(0), async_errors(0), after_closes(0), resets(0),
		up(false), alive(true), lport(0), rport(0), got_n(0), got_bytes(0), handled_calls(0), refused(0), max_recv_buf(0), send_cb(0), all_cb(0), send_cb_bytes(0), sync_got(0), refused_pending(false), refused_hash(0), sock(NULL), last_cb_thread(0) {}
	S name() const {return fmt("%s socket %llu (ports %u-%u)", side, id.load(), lport.load(), rport.load());}
};
typedef std::shared_ptr<Rec> RecP;

struct Case
{
	std::mutex mu; std::vector<RecP> recs; std::vector<std::unique_ptr<Flow> > flows;
	// behaviour of all sockets of the case
	std::atomic<unsigned> refuse; // one in n handler calls is refused; 0 never
	std::atomic<unsigned> hold;   // 1: all handler calls are refused
	std::atomic<unsigned> handle_us, msg_us; // handler duration
	std::atomic<unsigned> sync_mode; // synchronous handler: 0 takes all, 1 a random prefix, 2 nothing, 3 a random subset
	std::atomic<unsigned> shrink_mode; std::atomic<unsigned> batch_mode; // batch handler: 0 takes all, 1 a random prefix
	std::atomic<int> sndbuf, rcvbuf; std::atomic<bool> strict_close; // strict: only with delayed closing disabled
	std::function<void(Rec&, void*)> on_send_hook, on_all_hook, on_connect_hook, on_close_hook; std::function<bool(Rec&, const S&)> on_body_hook; std::function<void(Rec&)> on_chance_hook; std::function<void(Rec&, void*, u32, u32)> on_got_hook;
	std::function<void(Rec&, int)> on_prepare_hook; std::function<void()> on_bind_hook; std::function<void(Rec&, void*)> got_answer, sent_answer; std::atomic<bool> armed; // answers: used while armed
	std::atomic<u64> total_got;
	Case() : refuse(0), hold(0), handle_us(0), msg_us(0), sync_mode(0), shrink_mode(0), batch_mode(0), sndbuf(0), rcvbuf(0), strict_close(0 == ST_ASIO_DELAY_CLOSE), armed(false), total_got(0) {}
	void unhook() {on_send_hook = on_all_hook = on_connect_hook = on_close_hook = nullptr; on_prepare_hook = nullptr; on_bind_hook = nullptr; on_body_hook = nullptr; on_chance_hook = nullptr; on_got_hook = nullptr; got_answer = sent_answer = nullptr;} // the hooks may own the case
	Flow* flow(bool ordered, Rec* dest) {std::lock_guard<std::mutex> l(mu); flows.emplace_back(new Flow((u32) flows.size() + 1, ordered, dest)); return flows.back().get();}
	Flow* find(u32 id) {std::lock_guard<std::mutex> l(mu); return id >= 1 && id <= flows.size() ? flows[id - 1].get() : NULL;}
	RecP add(const char* side) {RecP r = std::make_shared<Rec>(side); r->rng = Rng(vh::mix(vh::g().case_seed + recs.size() + 77)); std::lock_guard<std::mutex> l(mu); recs.push_back(r); return r;}
};
inline std::shared_ptr<Case>& cur() {static std::shared_ptr<Case> c; return c;}

template<typename Msg> inline u64 hash_msg(const Msg& m) {return vh::hash_str(m.empty() ? "" : m.data(), m.size());}

struct Busy // at most one at a time
{
	std::atomic<int>& c; bool clash;
	Busy(std::atomic<int>& c_, const char* props, const char* key, Rec& r) : c(c_) {clash = c.fetch_add(1) > 0; if (clash) bad(props, key, r.name() + ": runs concurrently with itself");}
	~Busy() {c.fetch_sub(1);}
};
struct InCb // any callback of a socket: must not run while or after it is closed
{
	Rec& r;
	// early: another thread's messages may be reported before the connected notification, as soon as the link is ready
	InCb(Rec& r_, const char* what, bool strict, bool early = false) : r(r_)
	{
		++r.in_any; tick();
		if (strict && r.in_close.load() > 0) bad(0 == strcmp(what, "timer") ? "C08 C12" : "C08", S("overlap-close/") + what, r.name() + ": " + what + " runs concurrently with on_close");
		if (strict && !early && !r.up.load()) bad(0 == strcmp(what, "timer") ? "C08 C12" : "C08", S("not-up/") + what, r.name() + ": " + what + fmt(" runs on a link which is not up (%d connected, %d closed)", r.connects.load(), r.closes.load()));
	}
	~InCb() {--r.in_any;}
};

// ------------------------------------------------------------------ observed unpacker
template<typename U> class obs_unpacker : public U
{
public:
	std::shared_ptr<Arrival> arr;
	obs_unpacker() : arr(std::make_shared<Arrival>()) {}
	virtual bool parse_msg(size_t n, typename U::container_type& can)
	{
		if (arr->busy.fetch_add(1) > 0) bad("C04 C08 C26", "parse-overlap", "parse_msg runs concurrently with itself or with reset");
		if (arr->before_parse) arr->before_parse(); size_t before = can.size(); bool re = U::parse_msg(n, can); tick(); ++arr->parses;
		{
			std::lock_guard<std::mutex> l(arr->mu); size_t i = 0;
			for (auto it = can.begin(); it != can.end(); ++it, ++i) if (i >= before) {++arr->msgs; arr->bytes += it->size(); if (arr->keep) arr->q.push_back(hash_msg(*it));}
		}
		arr->busy.fetch_sub(1); return re;
	}
	virtual void reset() {if (arr && arr->busy.fetch_add(1) > 0) bad("C08 C26", "parse-overlap", "unpacker's reset runs concurrently with parse_msg"); U::reset(); if (arr) arr->busy.fetch_sub(1);}
};
#ifdef RIG_PS
static const char* PS_PREFIX = "\x02#"; static const char* PS_SUFFIX = "\r\n";
template<typename P, typename U> inline void setup_protocol(P& p, U& u)
{
	auto pp = boost::dynamic_pointer_cast<RIG_PACKER>(p); auto uu = boost::dynamic_pointer_cast<RIG_UNPACKER>(u);
	if (pp) pp->prefix_suffix(PS_PREFIX, PS_SUFFIX); if (uu) uu->prefix_suffix(PS_PREFIX, PS_SUFFIX);
}
#elif defined(RIG_FIXED)
template<typename P, typename U> inline void setup_protocol(P&, U& u) {auto uu = boost::dynamic_pointer_cast<RIG_UNPACKER>(u); if (uu) uu->fixed_length(RIG_FIXED);}
#else
template<typename P, typename U> inline void setup_protocol(P&, U&) {}
#endif

inline S packed(const S& b)
{
#ifdef RIG_PS
	return S(PS_PREFIX) + b + PS_SUFFIX;
#elif defined(RIG_FIXED)
	return b;
#else
	S r; ST_ASIO_HEAD_TYPE h = (ST_ASIO_HEAD_TYPE) ST_ASIO_HEAD_H2N((ST_ASIO_HEAD_TYPE) (b.size() + ST_ASIO_HEAD_LEN)); r.assign((const char*) &h, ST_ASIO_HEAD_LEN); return r + b;
#endif
}
inline bool unpack_item(const S& s, S& b)
{
#ifdef RIG_PS
	size_t p = strlen(PS_PREFIX), q = strlen(PS_SUFFIX); if (s.size() < p + q || s.substr(0, p) != PS_PREFIX || s.substr(s.size() - q) != PS_SUFFIX) return false; b = s.substr(p, s.size() - p - q); return true;
#elif defined(RIG_FIXED)
	b = s; return true;
#else
	if (s.size() < ST_ASIO_HEAD_LEN) return false; b = s.substr(ST_ASIO_HEAD_LEN); return packed(b) == s;
#endif
}

// ------------------------------------------------------------------ observed socket
template<typename Base> class mon : public Base
{
public:
	typedef typename Base::in_msg_type in_msg_type; typedef typename Base::out_msg_type out_msg_type;
	RecP rec; std::shared_ptr<Case> cas; std::shared_ptr<bool> self_alive;

	template<typename A> mon(A& a, const char* side) : Base(a), cas(cur()) {init(side);}
	void init(const char* side)
	{
		rec = cas->add(side); rec->sock = this; watch_unpacker(); setup_protocol(this->packer(), this->unpacker());
	}
	void watch_unpacker() {auto u = boost::dynamic_pointer_cast<obs_unpacker<RIG_UNPACKER> >(this->unpacker()); if (u) rec->arr = u->arr;}
	virtual ~mon() {rec->alive = false; if (rec->in_any.load() > 0) bad("C08", "destroyed-busy", rec->name() + " is destroyed while a callback of it runs"); rec->sock = NULL;}

	static void sleep_us(unsigned us) {if (us) usleep(us);}
	virtual void reset()
	{
		++rec->resets; Base::reset(); setup_protocol(this->packer(), this->unpacker());
		if (!on("C09")) return;
		vh::count("sockets_reused"); const statistic st = this->get_statistic();
		if (st.send_msg_sum || st.send_byte_sum || st.recv_msg_sum || st.recv_byte_sum) bad("C09", "reused-statistic", rec->name() + fmt(": reused with statistics of its former life (%llu sent, %llu received)", (unsigned long long) st.send_msg_sum, (unsigned long long) st.recv_msg_sum));
		if (this->get_pending_send_msg_size() || this->get_pending_recv_msg_size()) bad("C09", "reused-buffers", rec->name() + fmt(": reused with %zu bytes to send and %zu received of its former life", (size_t) this->get_pending_send_msg_size(), (size_t) this->get_pending_recv_msg_size()));
		if (this->is_sending() || this->is_dispatching() || this->is_connected()) bad("C09", "reused-busy", rec->name() + ": reused while working");
	}

	void account(const char* p, size_t n, bool sync) // a message reached a handler
	{
		u32 f = 0, q = 0; const char* e = parse(p, n, f, q); tick();
		if (cas->on_body_hook && cas->on_body_hook(*rec, S(p, n))) return;
		if (e) {bad("C04 C16 C22 C23", S("content/") + e, rec->name() + ": received " + vh::hex(S(p, n), 40) + fmt(" (%zu bytes): %s", n, e)); return;}
		Flow* fl = cas->find(f);
		if (!fl) {bad("C04", "invented", rec->name() + fmt(": message of unknown flow %u", f)); return;}
		Rec* de = fl->dest; if (de && de != rec.get()) bad("C04 C27", "wrong-link", rec->name() + fmt(": got message %u of flow %u, which was sent to ", q, f) + de->name());
		if (q >= fl->next.load()) bad("C04", "invented", rec->name() + fmt(": flow %u message %u was never sent", f, q));
		std::unique_lock<std::mutex> l(rec->mu); std::vector<u32>& v = rec->got[f];
		auto la = rec->last_of[sync].emplace(f, -1L).first; // the synchronous handler may overtake what it left to the asynchronous one
		if (fl->ordered && (long) q <= la->second) bad("C04 C06", q == la->second ? "duplicate" : "order", rec->name() + fmt(": flow %u message %u after %ld in the %s handler", f, q, la->second, sync ? "synchronous" : "asynchronous"));
		la->second = q; 		v.push_back(q); ++rec->got_n; rec->got_bytes += n; ++cas->total_got; l.unlock();
		if (cas->on_got_hook) cas->on_got_hook(*rec, this, f, q);
		if (!sync && cas->armed.load(std::memory_order_acquire) && cas->got_answer) cas->got_answer(*rec, this);
	}
	template<typename M> void account_msg(M& m, bool sync = false)
	{
		auto& u = this->unpacker(); account(u->raw_data(m), u->raw_data_len(m), sync);
	}

protected:
	virtual void on_connect()
	{
		tick(); rec->id = this->id(); boost::system::error_code ec; auto le = this->lowest_layer().local_endpoint(ec); if (!ec) rec->lport = le.port(); auto re = this->lowest_layer().remote_endpoint(ec); if (!ec) rec->rport = re.port();
		if (rec->up.exchange(true)) bad("C08", "connect-twice", rec->name() + ": connected notification without a close notification since the last one");
		if (rec->in_close.load() > 0) bad("C08", "connect-in-close", rec->name() + ": connected notification during the close notification");
		++rec->connects;
		if (cas->sndbuf) this->lowest_layer().set_option(boost::asio::socket_base::send_buffer_size(cas->sndbuf), ec);
		if (cas->rcvbuf) this->lowest_layer().set_option(boost::asio::socket_base::receive_buffer_size(cas->rcvbuf), ec);
		if (cas->on_connect_hook) cas->on_connect_hook(*rec, this);
		Base::on_connect();
	}
	virtual void on_recv_error(const boost::system::error_code& ec) {InCb c(*rec, "on_recv_error", cas->strict_close); ++rec->recv_errors; Base::on_recv_error(ec);}
	virtual void on_unpack_error() {InCb c(*rec, "on_unpack_error", cas->strict_close); ++rec->unpack_errors; Base::on_unpack_error();}
	virtual void on_async_shutdown_error() {InCb c(*rec, "on_async_shutdown_error", cas->strict_close); ++rec->async_errors; Base::on_async_shutdown_error();}
	virtual bool on_heartbeat_error() {InCb c(*rec, "on_heartbeat_error", cas->strict_close); ++rec->hb_errors; return Base::on_heartbeat_error();}
	virtual void on_close()
	{
		tick(); Busy b(rec->in_close, "C08", "close-overlap", *rec);
		if (cas->strict_close && rec->in_any.load() > 0) bad("C08", "close-busy", rec->name() + ": close notification while another callback of this socket runs");
		bool was = rec->up.load(); if (was) ++rec->closes; else if ('s' == rec->side[0]) bad("C08", "close-twice", rec->name() + fmt(": close notification of a link which is not up (%d connected, %d closed)", rec->connects.load(), rec->closes.load()));
		if (cas->on_close_hook) cas->on_close_hook(*rec, this);
		Base::on_close(); rec->up = false; // after on_close nothing may run, neither between
	}
	virtual void after_close() {tick(); ++rec->after_closes; Base::after_close();}

	void note_recv_buf() {u64 n = this->get_pending_recv_msg_size(); u64 o = rec->max_recv_buf.load(); while (n > o && !rec->max_recv_buf.compare_exchange_weak(o, n));}
	bool refuse_now() {unsigned n = cas->refuse; return cas->hold || (n && 0 == rec->rng.below(n));}
	void expect_arrival(u64 h, const char* who) // messages reach the handlers in the order the unpacker produced them
	{
		if (!rec->arr || !rec->arr->keep) return;
		std::lock_guard<std::mutex> l(rec->arr->mu); auto& q = rec->arr->q;
		if (q.empty()) bad("C04 C06", "handler/invented", rec->name() + ": " + who + " got a message more than was received");
		else {if (q.front() != h) bad("C06", "handler/order", rec->name() + ": " + who + " got another message than the next one received"); q.pop_front();}
	}
#ifdef ST_ASIO_SYNC_DISPATCH
	virtual size_t on_msg(st_asio_wrapper::list<out_msg_type>& can)
	{
		InCb c(*rec, "on_msg", cas->strict_close); Busy b(rec->in_msg, "C06", "on_msg-overlap", *rec); sleep_us(cas->msg_us); note_recv_buf();
		if (can.empty() && cas->on_chance_hook) cas->on_chance_hook(*rec);
		size_t n = can.size(), k = n; static thread_local Rng r(1); unsigned mode = cas->sync_mode;
		for (auto& m : can) expect_arrival(hash_msg(m), "on_msg");
		if (2 == mode) k = 0; else if (1 == mode) k = r.below(n + 1);
		size_t done = 0;
		for (auto it = can.begin(); it != can.end();)
		{
			if (3 == mode ? r.chance(1, 2) : done < k) {account_msg(*it, true); ++rec->sync_got; it = can.erase(it); ++done;}
			else {if (3 != mode && done >= k) break; ++it;}
		}
		std::lock_guard<std::mutex> l(rec->mu); for (auto& m : can) rec->left.push_back(hash_msg(m));
		return done;
	}
#endif
	void next_is(u64 h)
	{
#ifdef ST_ASIO_SYNC_DISPATCH
		std::lock_guard<std::mutex> l(rec->mu);
		if (rec->left.empty()) bad("C06", "handler/not-left", rec->name() + ": the asynchronous handler got a message which the synchronous one did not leave behind");
		else {if (rec->left.front() != h) bad("C06", "handler/left-order", rec->name() + ": the asynchronous handler got another message than the next one left behind"); rec->left.pop_front();}
#else
		expect_arrival(h, "on_msg_handle");
#endif
	}
	void offered(u64 h) // a refused message must be offered again, unchanged, before any other
	{
		std::lock_guard<std::mutex> l(rec->mu);
		if (rec->refused_pending && rec->refused_hash != h) bad("C06", "refused/changed", rec->name() + ": after a refusal another message was offered");
		rec->refused_pending = false;
	}
	void refuse_it(u64 h) {++rec->refused; std::lock_guard<std::mutex> l(rec->mu); rec->refused_pending = true; rec->refused_hash = h;}
	template<typename M> static u64 hash_of(const M& m) {return hash_msg(m);}
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	virtual size_t on_msg_handle(typename Base::out_queue_type& can)
	{
		InCb c(*rec, "on_msg_handle", cas->strict_close); Busy b(rec->in_handle, "C06", "on_msg_handle-overlap", *rec); note_recv_buf(); ++rec->handled_calls; sleep_us(cas->handle_us);
		u64 first = 0; bool any = false; can.do_something_to_one([&](const typename Base::out_msg& m) {first = hash_of(m); any = true; return true;});
		if (!any) {bad("C06", "handler/empty-batch", rec->name() + ": offered an empty batch"); return 1;}
		offered(first);
		if (refuse_now()) {refuse_it(first); return 0;}
		size_t n = 0, k = 1 == cas->batch_mode ? 1 + rec->rng.below(4) : (size_t) -1;
		if ((size_t) -1 == k) {typename Base::out_container_type t; can.swap(t); for (auto& m : t) {next_is(hash_of(m)); account_msg(m); ++n;}}
		else {typename Base::out_msg m; while (n < k && can.try_dequeue(m)) {next_is(hash_of(m)); account_msg(m); m.clear(); ++n;}}
		return n;
	}
#else
	virtual bool on_msg_handle(out_msg_type& m)
	{
#ifdef ST_ASIO_PASSIVE_RECV
		if (m.empty()) {if (cas->on_chance_hook) {if (refuse_now()) return false; cas->on_chance_hook(*rec);} return on_empty_msg();}
#endif
		InCb c(*rec, "on_msg_handle", cas->strict_close); Busy b(rec->in_handle, "C06", "on_msg_handle-overlap", *rec); note_recv_buf(); ++rec->handled_calls; sleep_us(cas->handle_us);
		u64 h = hash_of(m); offered(h);
		if (refuse_now()) {refuse_it(h); return false;}
		next_is(h); account_msg(m);
		return on_accepted_msg();
	}
	virtual bool on_empty_msg() {return true;}
	virtual bool on_accepted_msg() {return true;}
#endif
		template<typename M> std::pair<u32, u32> which(const M& m, const char* who) // a packed message
	{
		S s(m.empty() ? "" : m.data(), m.size()), b; u32 f = 0, q = 0; const char* e = unpack_item(s, b) ? parse(b.data(), b.size(), f, q) : "not a packed message";
		if (e) bad("C24 C25", S("notify-content/") + e, rec->name() + ": " + who + " got " + vh::hex(s, 40) + ": " + e);
		return std::make_pair(f, q);
	}
	bool not_broken() {return Base::BROKEN != this->get_link_status();}
	template<typename M> void note_sent(M& m)
	{
		++rec->send_cb; rec->send_cb_bytes += m.size(); if (!on("C24") && !on("C25") && !on("C10")) return;
		std::pair<u32, u32> w = which(m, "on_msg_send"); std::lock_guard<std::mutex> l(rec->mu); rec->send_log.push_back(w);
	}
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	virtual void on_msg_send(in_msg_type& m) {InCb c(*rec, "on_msg_send", cas->strict_close, not_broken()); Busy b(rec->in_send, "C24", "on_msg_send-overlap", *rec); note_sent(m); if (cas->on_send_hook) cas->on_send_hook(*rec, this); if (cas->armed.load(std::memory_order_acquire) && cas->sent_answer) cas->sent_answer(*rec, this);}
#elif defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
	virtual void on_msg_send(typename Base::in_container_type& can) {InCb c(*rec, "on_msg_send", cas->strict_close, not_broken()); Busy b(rec->in_send, "C24", "on_msg_send-overlap", *rec); for (auto& m : can) note_sent(m); if (cas->on_send_hook) cas->on_send_hook(*rec, this); if (cas->armed.load(std::memory_order_acquire) && cas->sent_answer) cas->sent_answer(*rec, this);}
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	virtual void on_all_msg_send(in_msg_type& m) 
	{
		InCb c(*rec, "on_all_msg_send", cas->strict_close, not_broken()); Busy b(rec->in_all, "C24", "on_all_msg_send-overlap", *rec); 
		if (on("C24") && !m.empty())
		{
			std::pair<u32, u32> w = which(m, "on_all_msg_send"); std::lock_guard<std::mutex> l(rec->mu); rec->all_log.push_back(w); rec->all_sum.push_back((u64) this->get_statistic().send_msg_sum);
#if defined(ST_ASIO_WANT_MSG_SEND_NOTIFY) || defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
			if (rec->send_log.empty() || rec->send_log.back() != w) bad("C24", "all-not-last", rec->name() + fmt(": on_all_msg_send got message %u of flow %u, which is not the last one reported as sent", w.second, w.first));
#endif
		}
		++rec->all_cb; if (cas->on_all_hook) cas->on_all_hook(*rec, this); if (cas->armed.load(std::memory_order_acquire) && cas->sent_answer) cas->sent_answer(*rec, this);
	}
#endif
	virtual void on_send_error(const boost::system::error_code& ec, typename Base::in_container_type& can)
	{
		InCb c(*rec, "on_send_error", cas->strict_close, not_broken()); ++rec->send_errors;
		if (on("C25") || on("C10")) {if (can.empty()) bad("C25", "empty-error", rec->name() + ": send error without messages"); for (auto& m : can) {std::pair<u32, u32> w = which(m, "on_send_error"); std::lock_guard<std::mutex> l(rec->mu); rec->error_log.push_back(w);}}
		Base::on_send_error(ec, can);
	}
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
	virtual size_t calc_shrink_size(size_t n) {switch (cas->shrink_mode) {case 0: return n / 3; case 1: return 1; case 2: return n; case 3: return 0; default: return n / 2;}}
	virtual void on_msg_discard(typename Base::in_container_type& can)
	{
		tick(); for (auto& m : can) {std::pair<u32, u32> w = which(m, "on_msg_discard"); std::lock_guard<std::mutex> l(rec->mu); rec->discard_log.push_back(w);}
	}
#endif
public:
	void pop_all_pending() // under no lock
	{
		typename Base::in_container_type can; this->pop_all_pending_send_msg(can); for (auto& m : can) {std::pair<u32, u32> w = which(m, "pop_all_pending_send_msg"); std::lock_guard<std::mutex> l(rec->mu); rec->pending_log.push_back(w);}
	}
};

#ifndef RIG_SERVER_BASE
typedef st_asio_wrapper::tcp::server_socket_base<RIG_PACKER, obs_unpacker<RIG_UNPACKER> > raw_srv_sock;
typedef st_asio_wrapper::tcp::client_socket_base<RIG_PACKER, obs_unpacker<RIG_UNPACKER> > raw_cli_sock;
#endif
template<typename B> class srv_sock_t : public mon<B> {public: srv_sock_t(st_asio_wrapper::tcp::i_server& s) : mon<B>(s, "server") {} };
template<typename B> class cli_sock_t : public mon<B>
{
public:
	cli_sock_t(st_asio_wrapper::i_matrix& m) : mon<B>(m, "client"), delay(ST_ASIO_RECONNECT_INTERVAL), prepares(0), limit(-1) {}
	std::atomic<int> delay, prepares, limit; // limit: number of retries before giving up
protected:
	virtual bool bind() {if (this->cas->on_bind_hook) this->cas->on_bind_hook(); return mon<B>::bind();}
	virtual int prepare_reconnect(const boost::system::error_code& ec) {tick(); ++prepares; int d = limit >= 0 && prepares > limit ? -1 : (int) delay; if (this->cas->on_prepare_hook) this->cas->on_prepare_hook(*this->rec, d); return d;}
};
typedef srv_sock_t<raw_srv_sock> srv_sock; typedef cli_sock_t<raw_cli_sock> cli_sock;
typedef st_asio_wrapper::tcp::server_base<srv_sock> server_t; typedef st_asio_wrapper::tcp::multi_client_base<cli_sock> client_t;
typedef boost::shared_ptr<srv_sock> srv_ptr; typedef boost::shared_ptr<cli_sock> cli_ptr;

// a free port: below the range the kernel hands out itself, so that no outgoing connection of the other runs can take it;
// reserved among the running units by binding an abstract unix-domain name
inline unsigned short free_port(int type = SOCK_STREAM)
{
	static std::mutex mu; static std::deque<int> held; static unsigned n = 0; std::lock_guard<std::mutex> l(mu);
	for (;;)
	{
		unsigned short p = (unsigned short) (10000 + (vh::mix(getpid()) + n++ * 7u) % 20000); if (p < 10000) continue;
		int k = ::socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0); struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; int len = snprintf(u.sun_path + 1, sizeof u.sun_path - 1, "vh-port-%u", p);
		if (0 != ::bind(k, (struct sockaddr*) &u, (socklen_t) (offsetof(struct sockaddr_un, sun_path) + 1 + len))) {::close(k); continue;}
		int fd = ::socket(AF_INET, type | SOCK_CLOEXEC, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(p); a.sin_addr.s_addr = htonl(INADDR_ANY);
		int one = 1; if (SOCK_STREAM == type) setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); bool good = 0 == ::bind(fd, (struct sockaddr*) &a, sizeof a) && (SOCK_STREAM != type || 0 == ::listen(fd, 1)); ::close(fd);
		if (good && 9527 != p && 9528 != p && 9628 != p && 9728 != p) {held.push_back(k); if (held.size() > 64) {::close(held.front()); held.pop_front();} return p;}
		::close(k);
	}
}

template<typename Sock> inline void probe(const Sock& s, const std::function<void()>& f) {boost::asio::post(s->lowest_layer().get_executor(), f);}

// ------------------------------------------------------------------ sending
inline void mk(S& m, const S& s) {m = s;}
inline ext::string_buffer* new_buf(const S& s) {ext::string_buffer* b = new ext::string_buffer; b->assign(s.data(), s.size()); return b;}
inline void mk(unique_buffer<i_buffer>& m, const S& s) {m.raw_buffer(new_buf(s));}
inline void mk(shared_buffer<i_buffer>& m, const S& s) {m.raw_buffer(new_buf(s));}
inline void mk(ext::basic_buffer& m, const S& s) {m.assign(s.data(), s.size());}
template<typename T> inline void mk(unique_buffer<T>& m, const S& s) {m.raw_buffer(new T(s.data(), s.size()));}
template<typename T> inline void mk(shared_buffer<T>& m, const S& s) {m.raw_buffer(new T(s.data(), s.size()));}
inline std::vector<S> cut(Rng& r, const S& s, size_t n) // n non-empty pieces
{
	std::vector<S> v; size_t p = 0; for (size_t i = 0; i < n; ++i) {size_t left = s.size() - p, must = n - 1 - i; size_t k = 0 == must ? left : 1 + r.below(left - must); v.push_back(s.substr(p, k)); p += k;} return v;
}
enum {A_PTR, A_CREF, A_REF, A_TWO, A_CTWO, A_LIST, A_ARR, A_BUF, A_NPTR, A_DREF, A_DCREF, A_DLIST, A_SPTR, A_SREF, A_SARR, A_NREF, A_NLIST, A_N};
// does this interface hand the message over as several items?
inline bool multi_item(unsigned a) {return A_CREF == a || A_REF == a || A_TWO == a || A_CTWO == a || A_LIST == a || A_DLIST == a || A_SREF == a || A_NLIST == a;}
template<typename Sock> inline bool send_by(Sock& s, Rng& r, unsigned a, const S& b, bool over, bool prior)
{
	typedef typename Sock::in_msg_type M; typedef st_asio_wrapper::list<M> L; S p = packed(b);
	switch (a)
	{
#ifdef RIG_COPYABLE
	case A_CREF: {M m; mk(m, b); const M& c = m; return s.send_msg(c, over, prior);}
	case A_CTWO: {auto v = cut(r, b, 2); M x, y; mk(x, v[0]); mk(y, v[1]); const M &cx = x, &cy = y; return s.send_msg(cx, cy, over, prior);}
	case A_DCREF: {M m; mk(m, p); const M& c = m; return s.direct_send_msg(c, over, prior);}
#endif
	case A_REF: {M m; mk(m, b); return s.send_msg(m, over, prior);}
	case A_TWO: {auto v = cut(r, b, 2); M x, y; mk(x, v[0]); mk(y, v[1]); return s.send_msg(x, y, over, prior);}
	case A_LIST: {auto v = cut(r, b, 1 + r.below(4)); L l; for (auto& t : v) mk(l.emplace_back(), t); return s.send_msg(l, over, prior);}
	case A_ARR: {auto v = cut(r, b, 1 + r.below(4)); std::vector<const char*> ps; std::vector<size_t> ls; for (auto& t : v) {ps.push_back(t.data()); ls.push_back(t.size());} return s.send_msg(ps.data(), ls.data(), ps.size(), over, prior);}
	case A_NPTR: return s.send_native_msg(p.data(), p.size(), over, prior);
	case A_NREF: {M m; mk(m, p); return s.send_native_msg(m, over, prior);}
	case A_DREF: {M m; mk(m, p); return s.direct_send_msg(m, over, prior);}
	case A_DLIST: {auto v = cut(r, p, 1 + r.below(4)); L l; for (auto& t : v) mk(l.emplace_back(), t); return s.direct_send_msg(l, over, prior);}
	case A_NLIST: {auto v = cut(r, p, 1 + r.below(4)); L l; for (auto& t : v) mk(l.emplace_back(), t); return s.send_native_msg(l, over, prior);}
	case A_SPTR: return s.safe_send_msg(b.data(), b.size(), over, prior);
	case A_SREF: {M m; mk(m, b); return s.safe_send_msg(m, over, prior);}
	case A_SARR: {auto v = cut(r, b, 1 + r.below(4)); std::vector<const char*> ps; std::vector<size_t> ls; for (auto& t : v) {ps.push_back(t.data()); ls.push_back(t.size());} return s.safe_send_msg(ps.data(), ls.data(), ps.size(), over, prior);}
	case A_BUF: {std::vector<char> v(b.begin(), b.end()); return s.send_msg(v, over, prior);}
	default: return s.send_msg(b.data(), b.size(), over, prior);
	}
}
inline size_t max_body()
{
#ifdef RIG_PS
	return ST_ASIO_MSG_BUFFER_SIZE - 4;
#elif defined(RIG_FIXED)
	return RIG_FIXED;
#else
	return ST_ASIO_MSG_BUFFER_SIZE - ST_ASIO_HEAD_LEN;
#endif
}
inline size_t pick_len(Rng& r, size_t typical)
{
#ifdef RIG_FIXED
	return RIG_FIXED;
#endif
	switch (r.below(12)) {case 0: return MIN_BODY; case 1: return max_body() - r.below(3); case 2: return MIN_BODY + r.below(max_body() - MIN_BODY); default: return MIN_BODY + r.below(typical);}
}
// sends the next message of a flow; true if accepted
template<typename Sock> inline bool send_next(Sock& s, Rng& r, Flow& f, unsigned a, size_t len, bool over, bool prior)
{
	u32 seq = f.next.fetch_add(1); S b = body(f.id, seq, len); bool re = send_by(s, r, a, b, over, prior);
	if (re) {f.accept(seq); f.bytes += packed(b).size();} return re;
}

// at the end: exactly what was accepted was received
inline void verify_flow(Flow& f, Rec& r)
{
	std::vector<u32> a, g; {std::lock_guard<std::mutex> l(f.mu); a = f.accepted;} {std::lock_guard<std::mutex> l(r.mu); auto it = r.got.find(f.id); if (it != r.got.end()) g = it->second;}
	bool o = f.ordered;
#ifdef ST_ASIO_SYNC_DISPATCH
	o = false;
#endif
	if (!o) {std::sort(a.begin(), a.end()); std::sort(g.begin(), g.end());}
	if (a == g || vh::failed()) return;
	std::vector<u32> sa = a, sg = g; std::sort(sa.begin(), sa.end()); std::sort(sg.begin(), sg.end()); std::vector<u32> lost, extra; std::set_difference(sa.begin(), sa.end(), sg.begin(), sg.end(), std::back_inserter(lost)); std::set_difference(sg.begin(), sg.end(), sa.begin(), sa.end(), std::back_inserter(extra));
	if (!lost.empty()) bad("C04", "lost", r.name() + fmt(": flow %u: %zu of %zu accepted messages did not arrive, first %u", f.id, lost.size(), a.size(), lost[0]));
	else if (!extra.empty()) bad("C04", "duplicate", r.name() + fmt(": flow %u: %zu messages arrived which were refused or had arrived before, first %u", f.id, extra.size(), extra[0]));
	else bad("C04", "order", r.name() + fmt(": flow %u arrived in another order than accepted", f.id));
}
} // namespace rig
#endif
