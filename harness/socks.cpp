// SOCKS4 / SOCKS5 clients against proxies which grant, refuse, answer malformed or truncated, in any fragmentation, and then are transparent links.
#include <fcntl.h>
#include "raws.h"
using namespace rig;

typedef cli_sock_t<st_asio_wrapper::tcp::proxy::socks4::client_socket_base<RIG_PACKER, obs_unpacker<RIG_UNPACKER> > > sock4;
typedef cli_sock_t<st_asio_wrapper::tcp::proxy::socks5::client_socket_base<RIG_PACKER, obs_unpacker<RIG_UNPACKER> > > sock5;
typedef st_asio_wrapper::tcp::multi_client_base<sock4> client4; typedef st_asio_wrapper::tcp::multi_client_base<sock5> client5;

enum Out {GRANT, REFUSE, MALFORMED, TRUNCATE, SILENT, OUT_N};
static const char* out_name[] = {"grant", "refusal", "malformed answer", "truncated answer", "silence"};
static S rnd(Rng& r, size_t n) {S s; while (s.size() < n) s += (char) (r.chance(1, 4) ? 0xff : r.chance(1, 4) ? 0 : r.below(256)); return s;}
static S hex(const S& s) {S o; for (unsigned char c : s) o += fmt("%02x", c); return o;}
static S be(unsigned p) {S s; s += (char) (p >> 8); s += (char) p; return s;}

struct Proxy // one listening proxy for one client socket
{
	bool five, named; S target, user, pwd; unsigned tport; S raw_addr; bool v6; unsigned short port; Rng r; RawServer& raw; std::thread th; std::atomic<bool> halt, on; std::mutex mu; S desc, error, answered;
	std::vector<int> plan; std::atomic<int> done; std::vector<Conn*> conns; std::function<S()> first; int hold; S what; // done: negotiations finished; first: what the target sends at once
	Proxy(RawServer& w, unsigned short p, u64 sd) : five(false), named(false), tport(0), v6(false), port(p), r(sd), raw(w), halt(false), on(true), done(0), hold(-1) {}
	~Proxy() {halt = true; if (th.joinable()) th.join(); if (hold >= 0) ::close(hold);}
	void fail(const S& key, const S& s) {bad("C21", key.c_str(), (five ? S("socks5, ") : S("socks4, ")) + s + "; target " + target + fmt(":%u", tport) + ", " + desc);}
	bool wait(int fd, int ms) {double e = vh::now() + ms / 1000.; for (;;) {struct pollfd p = {fd, POLLIN, 0}; if (::poll(&p, 1, 5) > 0) return true; if (halt || vh::now() > e) return false;}}
	// exactly these bytes and nothing more before the answer; false: the link ended
	bool expect(int fd, const S& want, const char* step)
	{
		S got; char b[600]; while (got.size() < want.size()) {if (!wait(fd, 20000)) {if (!halt) fail("request-missing", fmt("%s: nothing but \"%s\" for 20 seconds", step, hex(got).c_str())); return false;} ssize_t n = ::recv(fd, b, want.size() - got.size(), 0); if (n <= 0) {fail("request-short", fmt("%s: the link ended after \"%s\", expected \"%s\"", step, hex(got).c_str(), hex(want).c_str())); return false;} got.append(b, n);}
		if (got != want) {fail("request", fmt("%s: sent \"%s\", the protocol wants \"%s\"", step, hex(got).c_str(), hex(want).c_str())); return false;}
		if (r.chance(1, 2)) usleep((unsigned) r.below(15000)); ssize_t n = ::recv(fd, b, sizeof b, MSG_PEEK | MSG_DONTWAIT); if (n > 0) {fail("early-data", fmt("%s: \"%s\" sent behind the request before it was answered", step, hex(S(b, n)).c_str())); return false;}
		vh::count("requests"); return true;
	}
	void answer(int fd, const S& s)
	{
		answered += hex(s) + " "; int k = (int) r.below(4); tick();
		for (size_t p = 0; p < s.size();) {size_t n = 0 == k ? s.size() : 1 == k ? 1 : (size_t) r.range(1, s.size()); n = std::min(n, s.size() - p); if (::send(fd, s.data() + p, n, MSG_NOSIGNAL) <= 0) return; p += n; if (p < s.size()) {vh::count("fragments"); if (s.size() < 60 || r.chance(1, 20)) usleep((unsigned) r.below(3000));}}
	}
	void cut(int fd, const S& s) {S t = s.substr(0, r.below(s.size())); answer(fd, t); if (r.chance(1, 2)) usleep((unsigned) r.below(20000)); if (r.chance(1, 3)) RawServer::rst(fd); else ::close(fd);}
	// returns what to do with the descriptor: true - keep (granted)
	bool negotiate(int fd, int out)
	{
		answered.clear(); what = out_name[out];
		if (!five)
		{
			if (!expect(fd, S("\4\1", 2) + be(tport) + raw_addr + S("st_asio", 8), "request")) {::close(fd); return false;}
			S good = S("\0\x5a", 2) + rnd(r, 6);
			if (GRANT == out) {grant(fd, good); return true;}
			if (REFUSE == out) {S b = good; b[1] = (char) r.range(91, 93); answer(fd, b);}
			else if (MALFORMED == out) {S b = good; if (r.chance(1, 2)) b[0] = (char) r.range(1, 255); else b[1] = (char) (90 + r.range(4, 200)); answer(fd, b);}
			else if (TRUNCATE == out) {cut(fd, good); return false;}
			return drop(fd);
		}
		bool auth = !user.empty(); int at = GRANT == out ? -1 : (int) r.below(3); bool ask = auth && (1 == at || r.chance(1, 2)); if (1 == at && !auth) at = 2; what += 0 == at ? " of the method" : 1 == at ? " of the authentication" : " of the request";
		if (!expect(fd, auth ? S("\5\2\0\2", 4) : S("\5\1\0", 3), "method")) {::close(fd); return false;}
		S good = S("\5") + (char) (ask ? 2 : 0);
		if (0 == at)
		{
			if (REFUSE == out) answer(fd, S("\5\xff")); else if (MALFORMED == out) {S b = good; int k = (int) r.below(3); if (0 == k) b[0] = (char) (5 + r.range(1, 255)); else if (1 == k && !auth) b[1] = 2; else b[1] = (char) r.range(3, 254); answer(fd, b);} else if (TRUNCATE == out) {cut(fd, good); return false;}
			return drop(fd);
		}
		answer(fd, good);
		if (ask)
		{
			if (!expect(fd, S("\1") + (char) user.size() + user + (char) pwd.size() + pwd, "authentication")) {::close(fd); return false;}
			good = S("\1\0", 2); if (1 == at) {if (REFUSE == out || MALFORMED == out) answer(fd, S("\1") + (char) r.range(1, 255)); else if (TRUNCATE == out) {cut(fd, good); return false;} return drop(fd);}
			answer(fd, good);
		}
		if (!expect(fd, S("\5\1\0", 3) + (char) (named ? 3 : v6 ? 4 : 1) + (named ? S(1, (char) target.size()) + target : raw_addr) + be(tport), "request")) {::close(fd); return false;}
		int ty = (int) r.below(3); good = S("\5\0\0", 3); size_t dl = r.chance(1, 3) ? r.below(4) : r.below(256);
		if (0 == ty) good += '\1' + rnd(r, 4); else if (1 == ty) good += '\4' + rnd(r, 16); else good += '\3' + S(1, (char) dl) + rnd(r, dl);
		good += rnd(r, 2);
		if (GRANT == out) {grant(fd, good); return true;}
		if (REFUSE == out) {S b = good; b[1] = (char) r.range(1, 255); answer(fd, b);}
		else if (MALFORMED == out) {S b = S("\5\0\0\1", 4) + rnd(r, r.range(6, 30)); if (r.chance(1, 2)) b[0] = (char) (5 + r.range(1, 255)); else {int a = (int) r.range(5, 255); if (r.chance(1, 3)) a = r.chance(1, 2) ? 0 : 2; b[3] = (char) a;} answer(fd, b);}
		else if (TRUNCATE == out) {cut(fd, good); return false;}
		return drop(fd);
	}
	bool drop(int fd) {std::lock_guard<std::mutex> l(mu); if (hold >= 0) ::close(hold); hold = fd; return false;} // stays open on this side
	void grant(int fd, const S& good) {S f = first(); if (f.empty() || r.chance(1, 2)) {answer(fd, good); answer(fd, f);} else {vh::count("coalesced"); answer(fd, good + f);}}
	void run()
	{
		int lfd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1; setsockopt(lfd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		if (r.chance(1, 3)) usleep((unsigned) r.below(250000)); // nobody is listening at first
		for (int i = 0; i < 100 && !halt; ++i) if (0 == ::bind(lfd, (struct sockaddr*) &a, sizeof a) && 0 == ::listen(lfd, 16)) break; else usleep(20000);
		for (size_t i = 0; i < plan.size() && !halt;)
		{
			if (!wait(lfd, 100)) continue; socklen_t n = sizeof a; int fd = ::accept4(lfd, (struct sockaddr*) &a, &n, SOCK_CLOEXEC); if (fd < 0) continue; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
			unsigned p = ntohs(a.sin_port); bool kept = negotiate(fd, plan[i]); if (kept) {fcntl(fd, F_SETFL, O_NONBLOCK); Conn* c = raw.adopt(fd, p); std::lock_guard<std::mutex> l(mu); conns.push_back(c);} ++i; ++done; tick();
		}
		::close(lfd);
	}
};
struct K {std::unique_ptr<Proxy> p; boost::shared_ptr<sock4> s4; boost::shared_ptr<sock5> s5; Rec* rec; Flow* out; std::vector<Flow*> in; int round; bool failed; K() : rec(NULL), out(NULL), round(0), failed(false) {}
	bool send(const S& b) {return s4 ? s4->send_msg(b.data(), b.size(), true) : s5->send_msg(b.data(), b.size(), true);}
	void shut() {if (s4) {auto s = s4; s->post([s]() {s->force_shutdown();});} else {auto s = s5; s->post([s]() {s->force_shutdown();});}}};

static void one_case(Rng& r)
{
	std::shared_ptr<Case> cas = std::make_shared<Case>(); cur() = cas; S desc = vh::pert_random(r); int n = (int) r.range(2, 6), threads = (int) r.range(1, 4);
	{
		service_pump sp; RawServer raw(0); client4 c4(sp); client5 c5(sp); std::vector<std::unique_ptr<K> > ks; boost::asio::io_context& ctx = sp.assign_io_context(false); vh::poster post = [&](std::function<void()> g) {boost::asio::post(ctx, g);};
		for (int i = 0; i < n; ++i)
		{
			std::unique_ptr<K> k(new K); k->p.reset(new Proxy(raw, free_port(), r.next())); Proxy& p = *k->p; p.five = r.chance(2, 3); p.tport = (unsigned) (r.chance(1, 4) ? r.range(1, 3) * 0x55 : r.range(1, 65535)); bool ok; K* kp = k.get();
			if (!p.five) {p.raw_addr = rnd(r, 4); p.target = fmt("%u.%u.%u.%u", (unsigned char) p.raw_addr[0], (unsigned char) p.raw_addr[1], (unsigned char) p.raw_addr[2], (unsigned char) p.raw_addr[3]); k->s4 = c4.add_socket(p.port, "127.0.0.1"); ok = k->s4->set_target_addr((unsigned short) p.tport, p.target);}
			else
			{
				k->s5 = c5.add_socket(p.port, "127.0.0.1"); int kind = (int) r.below(3); auto dom = [&]() {S s; size_t len = r.chance(1, 3) ? r.range(1, 57) : r.chance(1, 4) ? 57 : r.range(4, 30); while (s.size() < len) s += "abcdefghijklmnopqrstuvwxyz-0123456789"[r.below(s.empty() ? 26 : 37)]; return s;};
				if (r.chance(1, 4)) {k->s5->set_target_addr(80, r.chance(1, 2) ? dom() : S("1.2.3.4")); vh::count("retargeted");} // an earlier target must not matter
				if (0 == kind) {p.raw_addr = rnd(r, 4); p.target = fmt("%u.%u.%u.%u", (unsigned char) p.raw_addr[0], (unsigned char) p.raw_addr[1], (unsigned char) p.raw_addr[2], (unsigned char) p.raw_addr[3]);}
				else if (1 == kind) {p.v6 = true; p.raw_addr = rnd(r, 16); p.raw_addr[0] = 0x20; for (int j = 0; j < 16; j += 2) p.target += fmt("%s%02x%02x", j ? ":" : "", (unsigned char) p.raw_addr[j], (unsigned char) p.raw_addr[j + 1]);}
				else {p.named = true; p.target = dom();}
				ok = k->s5->set_target_addr((unsigned short) p.tport, p.target);
				if (r.chance(1, 2)) {p.user = rnd(r, r.range(1, 30)); p.pwd = rnd(r, r.range(1, 30)); ok = ok && k->s5->set_auth(p.user, p.pwd);}
			}
			if (!ok) p.fail("target-refused", "set_target_addr or set_auth refused a valid value");
			(k->s4 ? k->s4->delay : k->s5->delay) = 20; k->rec = k->s4 ? k->s4->rec.get() : k->s5->rec.get(); k->out = cas->flow(true, NULL);
			int grants = (int) r.below(4), end = grants > 0 && r.chance(1, 3) ? -1 : (int) r.range(REFUSE, SILENT); for (int j = 0; j < grants; ++j) {p.plan.push_back(GRANT); k->in.push_back(cas->flow(true, NULL));} if (end >= 0) p.plan.push_back(end);
			p.desc = fmt("%zu negotiations, the last: %s; ", p.plan.size(), out_name[p.plan.back()]) + desc; u64 sd = r.next(); auto round = std::make_shared<int>(0);
			p.first = [kp, sd, round]() {Rng q(sd + *round); Flow* f = kp->in[(*round)++]; S s; for (int j = (int) q.below(6); j > 0; --j) s += packed(body(f->id, f->next.fetch_add(1), pick_len(q, 700))); return s;};
			for (int j = (int) r.below(4); j > 0; --j) {u32 q = k->out->next.fetch_add(1); k->send(body(k->out->id, q, pick_len(r, 300)));} // must wait for the grant
			ks.push_back(std::move(k));
		}
		for (auto& k : ks) {Proxy* p = k->p.get(); p->th = std::thread([p]() {p->run();});}
		sp.start_service(threads); bool ok = true; S d2;
		auto say = [&](K& k) {std::lock_guard<std::mutex> l(k.p->mu); return (k.p->five ? S("socks5, ") : S("socks4, ")) + fmt("negotiation %d: %s; connected %d times, closed %d times; ", k.round, out_name[k.p->plan[k.round]], (int) k.rec->connects, (int) k.rec->after_closes) + k.p->desc;};
		for (int round = 0; round < 4 && ok; ++round)
			for (auto& kk : ks)
			{
				K& k = *kk; Proxy& p = *k.p; if (round >= (int) p.plan.size() || k.failed || !ok) continue; k.round = round; int out = p.plan[round];
				ok = vh::await([&]() {return p.done > round || vh::failed();}, post, "negotiation", [&]() {return "the client does not come through: " + say(k);}); if (!ok || vh::failed()) {ok = false; break;}
				if (GRANT == out)
				{
					ok = vh::await([&]() {return k.rec->connects > round;}, post, "not-connected", [&]() {return "granted, but not connected: " + say(k) + ", answers " + p.answered;}); if (!ok) break; vh::count(p.five ? "granted5" : "granted4");
					Conn* c; {std::lock_guard<std::mutex> l(p.mu); c = p.conns[round];} Flow* f = k.in[round]; S s; for (int j = (int) r.range(1, 20); j > 0; --j) s += packed(body(f->id, f->next.fetch_add(1), pick_len(r, 700))); {std::lock_guard<std::mutex> l(raw.mu); c->out += s;}
					for (int j = (int) r.range(1, 10); j > 0; --j) {u32 q = k.out->next.fetch_add(1); k.send(body(k.out->id, q, pick_len(r, 700)));}
					auto total = [&]() {size_t t = 0; std::lock_guard<std::mutex> l(p.mu); std::lock_guard<std::mutex> l2(raw.mu); for (Conn* x : p.conns) t += x->got.size(); return t;};
					ok = vh::await([&]() {{std::lock_guard<std::mutex> l(raw.mu); if (!c->error.empty() || c->eof) return true;} std::lock_guard<std::mutex> g(k.rec->mu); return k.rec->got[f->id].size() >= f->next.load() && total() >= k.out->next.load();}, post, "not-transparent", [&]() {return fmt("%zu of %u messages from the target and %zu of %u to the target: ", k.rec->got[f->id].size(), (u32) f->next, total(), (u32) k.out->next) + say(k);}); if (!ok) break;
					{std::lock_guard<std::mutex> l(raw.mu); if (!c->error.empty() || c->eof) {bad("C21", "link-content", (c->eof ? S("the link was closed by the client: ") : "the target got garbage: " + c->error + ": ") + say(k)); ok = false; break;} vh::count("messages_to_target", c->got.size());}
					if (k.rec->connects != round + 1) bad("C21", "connects", say(k)); vh::count("messages_from_target", f->next.load());
					if (round + 1 < (int) p.plan.size()) {std::lock_guard<std::mutex> l(raw.mu); raw.cut(*c, (int) r.below(2), S());}
				}
				else if (SILENT == out)
				{
					usleep(60000); if (k.rec->connects != round) bad("C21", "connected", "nothing answered, but reported as connected: " + say(k)); vh::count("silent");
					if (r.chance(1, 2)) {int before = k.rec->after_closes; k.shut(); ok = vh::await([&]() {return k.rec->after_closes > before;}, post, "not-closed", [&]() {return "shut down while negotiating, not closed: " + say(k);});} k.failed = true;
				}
				else
				{
					ok = vh::await([&]() {return k.rec->after_closes > round || k.rec->connects > round;}, post, "not-reported", [&]() {return p.what + ", neither connected nor closed: " + say(k) + ", answers " + p.answered;}); if (!ok) break; usleep(2000);
					if (k.rec->connects != round || k.rec->up) bad("C21", "connected", p.what + ", but connected: " + say(k) + ", answers " + p.answered); vh::count(REFUSE == out ? "refused" : MALFORMED == out ? "malformed" : "truncated"); k.failed = true;
				}
				vh::distinct(vh::hash_str(p.answered.substr(0, 40) + p.what));
			}
		// the target got every message in order, once
		for (auto& kk : ks) {size_t i = 0; std::lock_guard<std::mutex> l(kk->p->mu); std::lock_guard<std::mutex> l2(raw.mu); for (Conn* c : kk->p->conns) for (auto& g : c->got) {if (g.first != kk->out->id || g.second != i) {bad("C21", "link-order", fmt("the target got message %u of flow %u, expected %zu of %u; ", g.second, g.first, i, kk->out->id) + kk->p->desc); break;} ++i;}}
		if (!ok && !vh::failed()) vh::inconclusive("the case did not come through");
		for (auto& k : ks) k->p->halt = true; sp.stop_service(); cas->unhook();
		for (auto& k : ks) for (Flow* f : k->in) {std::lock_guard<std::mutex> g(k->rec->mu); auto& v = k->rec->got[f->id]; for (size_t i = 0; i < v.size(); ++i) if (v[i] != i) {bad("C21", "link-order", fmt("message %u of the target handled as the %zu-th one; ", (u32) v[i], i) + k->p->desc); break;}}
		vh::sample(desc);
	}
}

int main(int argc, char** argv) {vh::g().rule = "a case is 2 - 6 clients with their proxies' plans; distinct by answers given"; return vh::main(argc, argv, one_case, 60.);}
