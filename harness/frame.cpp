// C01 C02 C03: packers and unpackers against an independent specification of each wire protocol.
// VH_MODE: 1 round trip, 2 hostile bytes, 3 packer boundaries
#include "vh.h"
#include <numeric>
#include <boost/asio.hpp>
#include "include/ext/packer.h"
#include "include/ext/unpacker.h"
using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
using vh::Rng; using vh::violation; using vh::hex; using vh::fmt;
typedef std::string S; typedef std::vector<S> VS;

static const size_t MAXL = ST_ASIO_MSG_BUFFER_SIZE, H = ST_ASIO_HEAD_LEN;
static const size_t HEADMAX = sizeof(ST_ASIO_HEAD_TYPE) == 2 ? 65535 : 0xffffffffULL;
static const size_t FRAMEMAX = MAXL < HEADMAX ? MAXL : HEADMAX;
enum Proto {LEN, FIXED, PSFX, STREAM};
struct Cfg {Proto p; size_t fixed; S pre, suf; bool stripped;};

// ------------------------------------------------------------ specification
static S head(size_t total) {S r; for (int i = (int) H - 1; i >= 0; --i) r += (char) (total >> (8 * i)); return r;}
struct Spec {VS msgs; bool error; size_t used; Spec() : error(false), used(0) {}};
static Spec decode(const Cfg& c, const S& s)
{
	Spec r; size_t p = 0;
	if (LEN == c.p)
		while (s.size() - p >= H)
		{
			size_t l = 0; for (size_t i = 0; i < H; ++i) l = l << 8 | (unsigned char) s[p + i];
			if (l < H || l > MAXL) {r.error = true; break;}
			if (s.size() - p < l) break;
			if (l > H) r.msgs.push_back(c.stripped ? s.substr(p + H, l - H) : s.substr(p, l));
			p += l;
		}
	else if (FIXED == c.p)
		for (; s.size() - p >= c.fixed; p += c.fixed) r.msgs.push_back(s.substr(p, c.fixed));
	else if (PSFX == c.p)
		for (;;)
		{
			if (s.size() - p < c.pre.size()) break;
			if (s.compare(p, c.pre.size(), c.pre)) {r.error = true; break;}
			size_t q = s.find(c.suf, p + c.pre.size());
			if (q == S::npos || q + c.suf.size() - p > MAXL) {r.error = s.size() - p >= MAXL; break;}
			size_t l = q + c.suf.size() - p;
			if (l > c.pre.size() + c.suf.size()) r.msgs.push_back(c.stripped ? s.substr(p + c.pre.size(), l - c.pre.size() - c.suf.size()) : s.substr(p, l));
			p += l;
		}
	r.used = p; return r;
}

// ------------------------------------------------------------ unpackers
enum End {WAIT, ERROR, ZERO};
struct IDec
{
	virtual ~IDec() {}
	virtual End feed(Rng& r, const S& stream, size_t& pos, VS& out, int chunkmode, bool eof) = 0; // returns when input is used up or an error was reported
	virtual void reset() = 0;
	virtual const char* name() = 0;
};
template<class U> void set_fixed(U&, const Cfg&) {}
inline void set_fixed(fixed_length_unpacker& u, const Cfg& c) {u.fixed_length(c.fixed);}
inline void set_fixed(prefix_suffix_unpacker& u, const Cfg& c) {u.prefix_suffix(c.pre, c.suf);}

template<class B> static boost::asio::mutable_buffer one_buffer(const B& b) {return *boost::asio::buffer_sequence_begin(b);}

template<class U> struct Dec : IDec
{
	void* mem; U* u; Cfg c; const char* n; vh::u64 reads;
	Dec(const char* n_, const Cfg& c_, Rng& r) : c(c_), n(n_), reads(0)
	{
		mem = malloc(sizeof(U)); unsigned char f = (unsigned char) r.next(); memset(mem, f, sizeof(U)); // whatever is exposed uninitialised is not the expected byte
		u = new(mem) U(); set_fixed(*u, c); u->stripped(c.stripped);
	}
	~Dec() {u->~U(); free(mem);}
	const char* name() {return n;}
	void reset() {u->reset();}
	void take(typename U::container_type& can, VS& out)
	{
		for (auto it = can.begin(); it != can.end(); ++it)
		{
			S m(it->data() ? it->data() : "", it->size());
			if (m.empty()) violation("empty-message", fmt("%s delivered an empty message", n));
			// the accessors have to designate the body
			S raw(u->raw_data(*it), u->raw_data_len(*it));
			S body = c.stripped || STREAM == c.p || FIXED == c.p ? m : LEN == c.p ? m.substr(H) : m.substr(c.pre.size(), m.size() - c.pre.size() - c.suf.size());
			if (raw != body) violation("raw-data", fmt("%s raw_data designates %s, the body is %s", n, hex(raw).c_str(), hex(body).c_str()));
			const typename U::msg_type& cm = *it; S raw2(u->raw_data(cm), u->raw_data_len(cm));
			if (raw2 != body) violation("raw-data", fmt("%s const raw_data designates %s, the body is %s", n, hex(raw2).c_str(), hex(body).c_str()));
			out.push_back(m);
		}
	}
	End feed(Rng& r, const S& s, size_t& pos, VS& out, int chunkmode, bool eof)
	{
		boost::system::error_code no;
		for (;;)
		{
			// one async_read of the library: a buffer, then reads until the completion condition says 0 or the buffer is full
			auto seq = u->prepare_next_recv(); boost::asio::mutable_buffer b = one_buffer(seq);
			char* p = (char*) b.data(); size_t cap = b.size(), tot = 0;
			if (0 == cap) {violation("zero-buffer", fmt("%s offers an empty receive buffer", n)); return ZERO;}
			if (cap <= 65536) for (size_t i = 0; i < cap; i += 1 + (cap > 300 ? cap / 300 : 0)) p[i] = (char) r.next(); else p[0] = p[cap - 1] = (char) r.next();
			size_t want = u->completion_condition(no, 0);
			if (0 == want) return ZERO; // the read completes with 0 bytes and no error: the library would stop receiving silently
			bool starved = false;
			while (want > 0 && tot < cap)
			{
				size_t avail = s.size() - pos; if (0 == avail) {starved = true; break;}
				size_t k = std::min(std::min(want, cap - tot), avail);
				switch (chunkmode) {case 0: k = 1; break; case 1: k = 1 + r.below(std::min<size_t>(k, 4)); break; case 2: k = 1 + r.below(k); break; case 3: if (r.chance(1, 3)) k = 1 + r.below(k); else if (k > 4096) k = 2048 + r.below(k - 2048); break; default: break;}
				memcpy(p + tot, s.data() + pos, k); pos += k; tot += k; ++reads;
				want = u->completion_condition(no, tot);
			}
			if (starved)
			{
				if (!eof) {if (0 == tot) return WAIT;} else if (0 == tot) return WAIT;
				if (eof)
				{
					// the link broke: the library parses what has arrived, then resets
					typename U::container_type can; bool ok = u->parse_msg(tot, can); (void) ok;
					take(can, out); u->reset(); return WAIT;
				}
				rest = tot; return WAIT;
			}
			typename U::container_type can; bool ok = u->parse_msg(tot, can); take(can, out);
			if (!ok) {u->dump_left_data(); u->reset(); return ERROR;}
		}
	}
	size_t rest;
};

static IDec* make_dec(int k, const Cfg& c, Rng& r)
{
#define D(i, n, ...) case i: return new Dec<__VA_ARGS__>(n, c, r);
	if (FIXED == c.p) return new Dec<fixed_length_unpacker>("fixed_length_unpacker", c, r);
	if (PSFX == c.p) return new Dec<prefix_suffix_unpacker>("prefix_suffix_unpacker", c, r);
	if (STREAM == c.p) return new Dec<stream_unpacker>("stream_unpacker", c, r);
	switch (k)
	{
	D(0, "unpacker<string>", unpacker<std::string>)
	D(1, "unpacker<basic_buffer>", unpacker<basic_buffer>)
	D(2, "flexible_unpacker<basic_buffer>", flexible_unpacker<basic_buffer>)
	D(3, "flexible_unpacker<string>", flexible_unpacker<std::string>)
	D(4, "unpacker2<shared,string,unpacker>", unpacker2<>)
	D(5, "unpacker2<unique,basic_buffer,flexible>", unpacker2<unique_buffer<basic_buffer>, basic_buffer, flexible_unpacker<basic_buffer> >)
	default: return new Dec<non_copy_unpacker>("non_copy_unpacker", c, r);
	}
#undef D
}
static const int NLEN = 7;

// ------------------------------------------------------------ packers
struct IPack {virtual ~IPack() {} virtual bool pack(Rng& r, const VS& pieces, int mode, S& out, bool native) = 0; virtual bool heartbeat(S& out) = 0; virtual const char* name() = 0;};
template<class M> void set_msg(M& m, const S& s) {m.append(s.data(), s.size());}
template<> void set_msg(unique_buffer<i_buffer>& m, const S& s) {string_buffer* b = new string_buffer; b->assign(s); m.raw_buffer(b);}
template<> void set_msg(shared_buffer<i_buffer>& m, const S& s) {string_buffer* b = new string_buffer; b->assign(s); m.raw_buffer(b);}
template<> void set_msg(unique_buffer<std::string>& m, const S& s) {m.raw_buffer(new std::string(s));}
template<> void set_msg(shared_buffer<basic_buffer>& m, const S& s) {m.raw_buffer(new basic_buffer(s.data(), s.size()));}
template<class P> void set_pre(P&, const Cfg&) {}
inline void set_pre(prefix_suffix_packer& p, const Cfg& c) {p.prefix_suffix(c.pre, c.suf);}
template<class M> S str(const M& m) {return S(m.data() ? m.data() : "", m.size());}

template<class P> struct Pack : IPack
{
	typedef typename P::msg_type M; typedef typename P::container_type C;
	P p; Cfg c; const char* n; Pack(const char* n_, const Cfg& c_) : c(c_), n(n_) {set_pre(p, c);}
	const char* name() {return n;}
	bool heartbeat(S& out) {M m; set_msg(m, "junk"); if (!p.pack_heartbeat(m)) return false; out += str(m); return true;}
	// mode 0: arrays of pieces, 1: one string, 2: message, 3: two messages, 4: container
	bool pack(Rng& r, const VS& pieces, int mode, S& out, bool native)
	{
		S body; for (auto& x : pieces) body += x;
		if (mode <= 1)
		{
			M m; set_msg(m, "old content"); bool ok; const char* ptr[8]; size_t len[8]; size_t k = 0;
			if (0 == mode) {for (auto& x : pieces) {if (k < 7 && r.chance(1, 5)) {ptr[k] = NULL; len[k++] = r.next();} if (k < 8) {ptr[k] = x.data(); len[k++] = x.size();}} 
				body.clear(); for (size_t i = 0; i < k; ++i) if (ptr[i]) body.append(ptr[i], len[i]);
				ok = p.pack_msg(m, ptr, len, k, native);}
			else ok = p.pack_msg(m, body, native);
			if (!ok) {if (!m.empty() && str(m) != "old content") violation("refused-not-clean", fmt("%s left %zu bytes in a refused message", n, m.size())); return false;}
			S o = str(m);
			if (!body.empty() && !native && FIXED != c.p && (P*) 0 == NULL)
			{
				S raw(p.raw_data(m), p.raw_data_len(m));
				if (raw != body) violation("raw-data", fmt("%s raw_data designates %s, the body is %s", n, hex(raw).c_str(), hex(body).c_str()));
				const M& cm = m; S raw2(p.raw_data(cm), p.raw_data_len(cm));
				if (raw2 != body) violation("raw-data", fmt("%s const raw_data differs from the body", n));
			}
			out += o; return true;
		}
		C can; S before; bool ok; size_t nb = 0;
		if (r.chance(1, 2) && FIXED != c.p) {can.emplace_back(); set_msg(can.back(), "before"); before = "before"; nb = 1;} // an output container need not be empty
		if (2 == mode) {M m; set_msg(m, body); ok = p.pack_msg(m, can); if (!ok && str(m) != body) violation("refused-not-clean", fmt("%s consumed a refused message", n));}
		else if (3 == mode)
		{
			size_t k = r.below(body.size() + 1); M a, b; set_msg(a, body.substr(0, k)); set_msg(b, body.substr(k)); ok = p.pack_msg(a, b, can);
			if (!ok && str(a) + str(b) != body) violation("refused-not-clean", fmt("%s consumed refused messages", n));
		}
		else
		{
			C in; for (auto& x : pieces) {in.emplace_back(); set_msg(in.back(), x);} ok = p.pack_msg(in, can);
			if (!ok) {S left; for (auto& x : in) left += str(x); if (left != body) violation("refused-not-clean", fmt("%s consumed a refused container", n));}
		}
		S o; for (auto& x : can) o += str(x);
		if (o.compare(0, before.size(), before)) violation("output-clobbered", fmt("%s damaged what the output container already held", n));
		else o.erase(0, before.size());
		if (!ok) {if (can.size() != nb || !o.empty()) violation("refused-not-clean", fmt("%s left %zu items in the output of a refused packing", n, can.size() - nb)); return false;}
		out += o; return true;
	}
};
static IPack* make_pack(int k, const Cfg& c)
{
#define D(i, n, ...) case i: return new Pack<__VA_ARGS__>(n, c);
	if (FIXED == c.p) return new Pack<fixed_length_packer>("fixed_length_packer", c);
	if (PSFX == c.p) return new Pack<prefix_suffix_packer>("prefix_suffix_packer", c);
	switch (k)
	{
	D(0, "packer<string>", packer<std::string>)
	D(1, "packer<basic_buffer>", packer<basic_buffer>)
	D(2, "packer2<unique<i_buffer>,string_buffer>", packer2<>)
	D(3, "packer2<shared<i_buffer>,string_buffer>", packer2<shared_buffer<i_buffer>, string_buffer>)
	D(4, "packer2<unique<string>,string>", packer2<unique_buffer<std::string>, std::string>)
	default: return new Pack<packer2<shared_buffer<basic_buffer>, basic_buffer, packer<basic_buffer> > >("packer2<shared<basic_buffer>,basic_buffer,packer<basic_buffer>>", c);
	}
#undef D
}
static const int NPACK = 6;

static Cfg make_cfg(Rng& r)
{
	Cfg c; int k = (int) r.below(10); c.p = k < 6 ? LEN : k < 7 ? FIXED : k < 9 ? PSFX : STREAM; c.stripped = r.chance(2, 3);
	c.fixed = 1 + r.below(std::min<size_t>(MAXL, r.chance(1, 2) ? 9 : 1500));
	size_t pl = r.below(4), sl = 1 + r.below(4);
	for (size_t i = 0; i < pl; ++i) c.pre += (char) ('p' + r.below(2));
	for (size_t i = 0; i < sl; ++i) c.suf += (char) (r.chance(1, 4) ? 0 : 's' + r.below(2));
	return c;
}
static size_t body_size(Rng& r, size_t maxb)
{
	switch (r.below(12))
	{
	case 0: return maxb;
	case 1: return maxb - std::min<size_t>(maxb - 1, r.below(4));
	case 2: return std::max<size_t>(1, std::min<size_t>(maxb, 3996 + r.below(8))); // around the flexible unpacker's own buffer
	case 3: case 4: return 1 + r.below(maxb);
	case 5: case 6: return 1 + r.below(std::min<size_t>(maxb, 200));
	default: return 1 + r.below(std::min<size_t>(maxb, 12));
	}
}
static S make_body(Rng& r, const Cfg& c, size_t n)
{
	S b = r.bytes(n);
	if (PSFX == c.p) // the suffix must not begin inside body + suffix before its end
	{
		for (auto& ch : b) if (r.chance(1, 2)) ch = (char) ('p' + r.below(4));
		for (int guard = 0; guard < 64; ++guard) {size_t q = (b + c.suf).find(c.suf); if (q == b.size()) break; b[std::min(q, b.size() - 1)] = 'a' + (char) r.below(8); if (guard == 63) for (auto& ch : b) ch = 'A';}
	}
	if (FIXED == c.p) b.resize(c.fixed, 'f');
	return b;
}
static VS split(Rng& r, const S& b) {VS v; size_t k = 1 + r.below(3), p = 0; for (size_t i = 0; i + 1 < k; ++i) {size_t q = p + r.below(b.size() - p + 1); v.push_back(b.substr(p, q - p)); p = q;} v.push_back(b.substr(p)); return v;}

static S diff(const VS& a, const VS& b)
{
	size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
	return fmt("delivered %zu, expected %zu, first difference at #%zu: got %s, expected %s", a.size(), b.size(), i, i < a.size() ? (hex(a[i]) + fmt(" (%zu bytes)", a[i].size())).c_str() : "nothing", i < b.size() ? (hex(b[i]) + fmt(" (%zu bytes)", b[i].size())).c_str() : "nothing");
}

static void run_stream(Rng& r, const Cfg& c, IDec& d, const S& stream, const VS* expect, const char* key, bool eof)
{
	VS got; size_t pos = 0; int cm = (int) r.below(5); if (cm < 2 && stream.size() > 30000) cm = 2; if (PSFX == c.p && stream.size() > 10000) cm = 3; End e = d.feed(r, stream, pos, got, cm, eof);
	if (vh::failed()) return;
	vh::count("reads", 1); vh::count("messages", got.size());
	Spec sp = decode(c, stream); vh::u64 sig = vh::hash_str(S(d.name())); sig = vh::hmix(sig, cm); sig = vh::hmix(sig, got.size()); sig = vh::hmix(sig, e); sig = vh::hmix(sig, vh::hash_str(stream));
	vh::distinct(sig);
	if (STREAM == c.p)
	{
		S all; for (auto& g : got) all += g;
		if (all != stream || e != WAIT) violation(S(key) + "/stream_unpacker", fmt("in %zu bytes, out %zu bytes, end %d", stream.size(), all.size(), e));
		return;
	}
	if (expect && (sp.error || sp.msgs != *expect)) {violation(S("harness/spec"), fmt("specification decodes %zu messages of %zu%s", sp.msgs.size(), expect->size(), sp.error ? " with error" : "")); return;}
	if (e == ZERO) {violation(S(key) + "/zero-read", fmt("%s: after %zu messages of %zu the unpacker asks for 0 bytes without having reported an error (spec: %s); chunk mode %d, stream %s", d.name(), got.size(), sp.msgs.size(), sp.error ? "malformed" : "fine", cm, hex(stream, 200).c_str())); return;}
	if (got != sp.msgs) {violation(S(key) + "/messages", fmt("%s (stripped %d, chunk mode %d): ", d.name(), (int) c.stripped, cm) + diff(got, sp.msgs) + fmt("; stream of %zu bytes", stream.size())); return;}
	if ((e == ERROR) != sp.error) {violation(S(key) + (sp.error ? "/error-missed" : "/error-invented"), fmt("%s: %zu messages delivered, spec says %s; chunk mode %d, stream %s", d.name(), got.size(), sp.error ? "malformed" : "fine", cm, hex(stream, 200).c_str())); return;}
	if (sp.error) vh::count("unpack_errors");
	for (auto& m : got) if (m.size() > MAXL) violation(S(key) + "/too-long", fmt("%s delivered %zu bytes", d.name(), m.size()));
}

static S good_stream(Rng& r, const Cfg& c, IPack* pk, VS& bodies, size_t n)
{
	S stream; size_t maxb = FIXED == c.p ? c.fixed : PSFX == c.p ? MAXL - c.pre.size() - c.suf.size() : FRAMEMAX - H;
	for (size_t i = 0; i < n; ++i)
	{
		if (LEN == c.p || PSFX == c.p) while (r.chance(1, 4)) {if (!pk->heartbeat(stream)) violation("heartbeat", "no heartbeat"); vh::count("heartbeats");}
		S b = make_body(r, c, body_size(r, maxb)); VS pieces = split(r, b); int mode = (int) r.below(5); S before = stream;
		if (!pk->pack(r, pieces, mode, stream, false)) {violation("pack-refused", fmt("%s refuses a body of %zu bytes (mode %d, maximum %zu)", pk->name(), b.size(), mode, maxb)); return stream;}
		S frame = stream.substr(before.size()), want = LEN == c.p ? head(b.size() + H) + b : PSFX == c.p ? c.pre + b + c.suf : b;
		if (frame != want) {violation("frame", fmt("%s mode %d packed %s, protocol prescribes %s", pk->name(), mode, hex(frame).c_str(), hex(want).c_str())); return stream;}
		bodies.push_back(c.stripped ? b : want);
	}
	return stream;
}

static void mode1(Rng& r)
{
	Cfg c = make_cfg(r); if (STREAM == c.p && r.chance(1, 2)) c.p = LEN;
	int dk = (int) r.below(NLEN); if (LEN == c.p && dk == 6) c.stripped = true; // non_copy supports stripped messages only
	if (FIXED == c.p) c.stripped = true;
	std::unique_ptr<IPack> pk(STREAM == c.p ? NULL : make_pack((int) r.below(NPACK), c)); std::unique_ptr<IDec> d(make_dec(dk, c, r));
	int rounds = 1 + (int) r.below(3);
	for (int k = 0; k < rounds && !vh::failed(); ++k)
	{
		VS bodies; S stream = STREAM == c.p ? r.bytes(r.size(3 * MAXL)) : good_stream(r, c, pk.get(), bodies, r.below(12));
		if (vh::failed()) return;
		if (vh::want_sample() && stream.size() > 20) vh::sample(fmt("%s -> %s, %zu messages, %zu bytes, prefix %s", pk ? pk->name() : "raw", d->name(), bodies.size(), stream.size(), hex(stream, 24).c_str()));
		bool eof = r.chance(1, 3); S cut = stream;
		if (STREAM != c.p && r.chance(1, 3) && !stream.empty()) {cut.resize(r.below(stream.size() + 1)); run_stream(r, c, *d, cut, NULL, "roundtrip", eof);}
		else run_stream(r, c, *d, stream, STREAM == c.p ? NULL : &bodies, "roundtrip", eof);
		d->reset(); vh::count("resets"); // from here on it has to behave like a fresh one
	}
}
static void mode2(Rng& r)
{
	Cfg c = make_cfg(r); int dk = (int) r.below(NLEN); if (LEN == c.p && dk == 6) c.stripped = true; if (FIXED == c.p) c.stripped = true;
	std::unique_ptr<IPack> pk(STREAM == c.p ? NULL : make_pack((int) r.below(NPACK), c)); std::unique_ptr<IDec> d(make_dec(dk, c, r));
	int rounds = 1 + (int) r.below(3);
	for (int k = 0; k < rounds && !vh::failed(); ++k)
	{
		VS bodies; S s = STREAM == c.p ? r.bytes(r.size(3 * MAXL)) : good_stream(r, c, pk.get(), bodies, r.below(8));
		switch (r.below(6))
		{
		case 0: s += r.bytes(r.size(2 * MAXL)); break; // garbage after good messages
		case 1: s = r.bytes(r.size(2 * MAXL)); break;
		case 2: for (int i = 0; i < 3 && !s.empty(); ++i) s[r.below(s.size())] ^= (char) (1 << r.below(8)); break;
		case 3: {size_t p = r.below(s.size() + 1); s.erase(p, r.below(9)); break;}
		case 4: {size_t p = r.below(s.size() + 1); s.insert(p, r.bytes(r.below(9))); break;}
		default: // heads at and around every boundary
			{
				static const size_t L[] = {0, 1, H - 1, H, H + 1, H + 2, MAXL - 1, MAXL, MAXL + 1, 3999, 4000, 4001, 4002, 4003, 65535, 0x7fffffff, 0xffffffff, 0x80000000, MAXL / 2};
				size_t l = L[r.below(sizeof L / sizeof *L)]; if (l > HEADMAX) l = HEADMAX;
				s += head(l) + r.bytes(r.chance(1, 2) ? (l > H && l <= MAXL ? l - H : 0) : r.size(2 * MAXL));
			}
		}
		if (PSFX == c.p) for (auto& ch : s) if (r.chance(1, 3)) ch = (char) ("pqst"[r.below(4)]); else if (r.chance(1, 30)) ch = 0;
		if (vh::want_sample() && s.size() > 20) vh::sample(fmt("%s, %zu bytes: %s", d->name(), s.size(), hex(s, 40).c_str()));
		run_stream(r, c, *d, s, NULL, "hostile", r.chance(1, 3));
		if (vh::failed()) return;
		d->reset();
		VS b2; S s2 = STREAM == c.p ? r.bytes(40) : good_stream(r, c, pk.get(), b2, 3); // and still works afterwards
		if (!vh::failed()) run_stream(r, c, *d, s2, STREAM == c.p ? NULL : &b2, "after-hostile", false);
		d->reset();
	}
}
static void mode3(Rng& r)
{
	Cfg c = make_cfg(r); c.stripped = true; if (STREAM == c.p || FIXED == c.p) c.p = LEN;
	std::unique_ptr<IPack> pk(make_pack((int) r.below(NPACK), c));
	size_t over = LEN == c.p ? H : c.pre.size() + c.suf.size(), maxb = (LEN == c.p ? FRAMEMAX : MAXL) - over;
	static const long Dv[] = {-2, -1, 0, 1, 2, 3, 4, 5, 8, 100, 70000};
	long dd = Dv[r.below(11)]; size_t n = r.chance(1, 3) ? body_size(r, maxb) : r.chance(1, 4) ? (size_t) std::max(0L, (long) HEADMAX - (long) H + dd) : (size_t) std::max(0L, (long) maxb + dd);
	if (HEADMAX > 100000000 && n > MAXL + 100000) n = maxb + 1;
	S b = make_body(r, c, n ? n : 1); b.resize(n); int mode = (int) r.below(5); bool native = mode <= 1 && r.chance(1, 4); VS pieces = split(r, b);
	S out; bool ok = pk->pack(r, pieces, mode, out, native); if (vh::failed()) return;
	bool fits = native ? n <= MAXL : n <= maxb;
	vh::distinct(vh::hmix(vh::hmix(vh::hash_str(S(pk->name())), n), mode * 2 + native));
	if (vh::want_sample()) vh::sample(fmt("%s mode %d native %d body %zu (max %zu): %s", pk->name(), mode, (int) native, n, maxb, ok ? "packed" : "refused"));
	vh::count(ok ? "packed" : "refused");
	if (ok && !fits) violation("oversize-accepted", fmt("%s mode %d packed a body of %zu bytes, at most %zu fit (header says %s, output %zu bytes)", pk->name(), mode, n, maxb, hex(out.substr(0, H)).c_str(), out.size()));
	else if (!ok && fits && n > 0) violation("fitting-refused", fmt("%s mode %d refused a body of %zu bytes, %zu fit", pk->name(), mode, n, maxb));
	else if (ok && native && out != b) violation("native-changed", fmt("%s native packing changed the bytes", pk->name()));
	else if (ok && !native && n > 0)
	{
		S want = LEN == c.p ? head(n + H) + b : c.pre + b + c.suf;
		if (out != want) violation("frame", fmt("%s mode %d packed %s, protocol prescribes %s", pk->name(), mode, hex(out).c_str(), hex(want).c_str()));
		else {VS e(1, b); std::unique_ptr<IDec> d(make_dec((int) r.below(NLEN), c, r)); run_stream(r, c, *d, out, &e, "packed-frame", false);}
	}
	else if (ok && !native && n == 0 && !out.empty() && out != (LEN == c.p ? head(H) : c.pre + c.suf)) violation("frame", fmt("%s mode %d packed an empty body as %s", pk->name(), mode, hex(out).c_str()));
	// unusual arrays: null arrays, lengths whose sum overflows; none of them may be read or accepted
	if (LEN == c.p)
	{
		packer<std::string> p; std::string m("x"); const char* ptr[3] = {"a", "b", "c"}; size_t len[3] = {1, (size_t) -1 - r.below(3), 1 + r.below(3)}; if (r.chance(1, 2)) len[1] = (size_t) -1 / 2, len[2] = (size_t) -1 / 2 + 2;
		bool nat = r.chance(1, 2);
		if (p.pack_msg(m, (const char* const*) NULL, len, 3, nat)) violation("null-accepted", "a null piece array was packed");
		if (p.pack_msg(m, ptr, (const size_t*) NULL, 3, nat)) violation("null-accepted", "a null length array was packed");
		if (p.pack_msg(m, ptr, len, 3, nat)) violation("overflow-accepted", fmt("lengths 1,%zu,%zu were packed", len[1], len[2]));
		if (!m.empty()) violation("refused-not-clean", "refused packing left output");
		prefix_suffix_packer q; q.prefix_suffix("<", ">"); if (q.pack_msg(m, ptr, len, 3, nat)) violation("overflow-accepted", fmt("prefix_suffix: lengths 1,%zu,%zu were packed", len[1], len[2]));
		fixed_length_packer f; if (f.pack_msg(m, ptr, len, 3, nat)) violation("overflow-accepted", "fixed_length: packed");
		packer2<> p2; unique_buffer<i_buffer> m2; if (p2.pack_msg(m2, ptr, len, 3, nat) || p2.pack_msg(m2, (const char* const*) NULL, len, 3, nat)) violation("overflow-accepted", "packer2: packed");
		vh::count("unusual_arrays", 7);
	}
}

int main(int argc, char** argv)
{
#if VH_MODE == 1
	vh::g().rule = "random packer/unpacker pair, 0-12 bodies (sizes biased to boundaries) packed by a random overload with heartbeats between, stream fed in 5 fragmentation styles, truncated or reset at random; distinct = (unpacker, fragmentation, outcome, stream)";
	return vh::main(argc, argv, mode1);
#elif VH_MODE == 2
	vh::g().rule = "good streams corrupted (bit flips, insertions, deletions, garbage, boundary heads) or random bytes, compared with the specification decoder; distinct = (unpacker, fragmentation, outcome, stream)";
	return vh::main(argc, argv, mode2);
#else
	vh::g().rule = "body sizes at and around every limit through every packing overload, null and overflowing piece arrays; distinct = (packer, size, overload)";
	return vh::main(argc, argv, mode3);
#endif
}
