// A listening server against good, surplus, misbehaving and refused clients, listening stopped and started again, failing accepts.
#include "world.h"
#include <arpa/inet.h>
#include <poll.h>
#include <netinet/tcp.h>
using namespace rig;

static std::atomic<int> fail_accepts, dialed;
extern "C" int __real_accept(int, struct sockaddr*, socklen_t*);
extern "C" int __wrap_accept(int fd, struct sockaddr* a, socklen_t* n) {for (int v = fail_accepts; v > 0;) if (fail_accepts.compare_exchange_weak(v, v - 1)) {errno = EMFILE; return -1;} return __real_accept(fd, a, n);}

struct srv : server_t
{
	srv(service_pump& sp) : server_t(sp), accepts(4), refuse(0), on_error(0), errors(0), refused(0), seen(0) {}
	int accepts; std::atomic<int> refuse, on_error, errors, refused, seen; // on_error: 0 default, 1 go on at once, 2 go on later
	virtual int async_accept_num() {return accepts;}
	virtual bool on_accept(object_ctype& s) {++seen; tick(); for (int v = refuse; v > 0;) if (refuse.compare_exchange_weak(v, v - 1)) {++refused; return false;} return true;}
	virtual bool on_accept_error(const boost::system::error_code& ec, object_ctype& s)
	{
		if (boost::asio::error::operation_aborted == ec || 0 == on_error) {if (boost::asio::error::operation_aborted != ec) ++errors; return server_t::on_accept_error(ec, s);}
		++errors; if (1 == on_error) return true; set_timer(TIMER_END + 1 + errors, 20, [this](tid) {start_next_accept(); return false;}); return false;
	}
};
struct Cl // a plain client
{
	int fd; int id; unsigned port; S out, want, got; size_t sent, msgs, bytes; bool ended, good; u32 seq; S error;
	Cl() : fd(-1), id(0), port(0), sent(0), msgs(0), bytes(0), ended(false), good(true), seq(0) {}
	~Cl() {if (fd >= 0) ::close(fd);}
	bool dial(unsigned short p)
	{
		fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(p); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		if (0 != ::connect(fd, (struct sockaddr*) &a, sizeof a)) {::close(fd); fd = -1; return false;} ++dialed; socklen_t n = sizeof a; ::getsockname(fd, (struct sockaddr*) &a, &n); port = ntohs(a.sin_port); return true;
	}
	void say(Rng& r, int n) {for (; n > 0; --n) {S b = fmt("client %d message %u ", id, seq++); b.append(r.below(300), (char) ('a' + seq % 26)); S p = packed(b); out += p; want += p; ++msgs; bytes += b.size();}}
	void work()
	{
		if (fd < 0 || ended) return;
		while (sent < out.size()) {ssize_t n = ::send(fd, out.data() + sent, out.size() - sent, MSG_NOSIGNAL | MSG_DONTWAIT); if (n <= 0) break; sent += n;}
		char b[8192]; for (;;) {ssize_t n = ::recv(fd, b, sizeof b, MSG_DONTWAIT); if (n > 0) {got.append(b, n); continue;} if (0 == n || (errno != EAGAIN && errno != EINTR)) ended = true; break;}
		if (got.size() > want.size() || 0 != want.compare(0, got.size(), got)) error = "got something it did not send: " + got.substr(0, 200);
	}
	bool served() const {return got.size() >= want.size();}
	void leave(bool rst) {if (fd < 0) return; if (rst) {struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);} ::close(fd); fd = -1;}
};

static void one_case(Rng& r)
{
	std::shared_ptr<Case> cas = std::make_shared<Case>(); cur() = cas; S desc = vh::pert_random(r); size_t max = (size_t) r.range(1, 10); int threads = (int) r.range(1, 4), an = (int) r.range(1, 20), ctxs = (int) r.range(1, 2);
	std::mutex mmu; std::map<Rec*, mon<raw_srv_sock>*> socks; fail_accepts = dialed = 0;
	cas->on_connect_hook = [&](Rec& rec, void* me) {std::lock_guard<std::mutex> l(mmu); socks[&rec] = (mon<raw_srv_sock>*) me;};
	cas->on_body_hook = [&](Rec& rec, const S& b) {mon<raw_srv_sock>* m; {std::lock_guard<std::mutex> l(mmu); m = socks[&rec];} if (m) m->send_msg(b.data(), b.size(), true); return true;};
	{
		service_pump sp;
#ifndef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
		if (ctxs > 1) sp.set_io_context_num(ctxs);
#endif
		srv server(sp); unsigned short port = free_port(); server.set_server_addr(port, "127.0.0.1"); server.accepts = an; server.max_size(max); server.on_error = (int) r.below(3); desc += fmt("; at most %zu clients, %d acceptances, error policy %d", max, an, (int) server.on_error);
		std::vector<std::unique_ptr<Cl> > cs; int ids = 0; vh::poster post = [&](std::function<void()> g) {boost::asio::post(server.next_layer().get_executor(), g);}; bool listening = true, ok = true; S did;
		auto work = [&]() {for (auto& c : cs) c->work();};
		auto say = [&](const S& s) {return s + fmt("; %zu clients, server has %zu of %zu; did", cs.size(), server.size(), max) + did + "; " + desc;};
		auto wait = [&](const char* key, const S& s, const std::function<bool()>& f) {ok = vh::await([&]() {work(); for (auto& c : cs) if (!c->error.empty() || c->ended) return true; return f();}, post, key, [&]() {return say(s);}); for (auto& c : cs) {if (!c->error.empty()) {bad("C27", "foreign", say(fmt("client %d ", c->id) + c->error)); ok = false;} else if (c->ended) {bad("C27", "disturbed", say(fmt("an established client (%d) was dropped", c->id))); ok = false;}} if (ok) usleep((unsigned) r.below(500)); return ok;};
		auto settled = [&]() {return wait("no-room", "the server does not get rid of ended links", [&]() {return server.size() == cs.size() && server.seen >= dialed;});};
		auto all_served = [&](const char* key, const S& s) {return wait(key, s, [&]() {for (auto& c : cs) if (!c->served()) return false; return server.size() == cs.size() && server.seen >= dialed;});};
		auto fresh = [&]() {std::unique_ptr<Cl> c(new Cl); c->id = ++ids; return c;};
		auto chat = [&]() {for (auto& c : cs) if (r.chance(1, 2)) c->say(r, (int) r.range(1, 4));};
		auto dropped = [&](std::vector<std::unique_ptr<Cl> >& x, size_t left, const char* key, const S& s) {return wait(key, s, [&]() {size_t n = 0; for (auto& c : x) {c->work(); if (!c->ended) ++n;} return n <= left && server.seen >= dialed;});};
		sp.start_service(std::max(threads, ctxs)); int steps = (int) r.range(6, 22);
		for (int i = 0; i < steps && ok; ++i)
		{
			chat(); int k = (int) r.below(listening ? 11 : 4); size_t room = max - cs.size(); tick();
			if (!listening)
			{
				if (k < 2) {Cl c; did += " closed-dial"; if (c.dial(port)) {c.work(); usleep(20000); c.work(); if (!c.ended) bad("C27", "accepted-unlistened", say("connected although listening was stopped"));} vh::count("refused_unlistened"); all_served("disturbed", "an established client is not served while listening is stopped"); continue;}
				did += " listen"; listening = server.start_listen(); if (!listening) {bad("C27", "listen-again", say("start_listen failed after stop_listen")); break;} if (r.chance(1, 3) && server.start_listen()) bad("C27", "listen-twice", say("start_listen succeeded twice")); vh::count("listened_again"); continue;
			}
			switch (k)
			{
			case 0: case 1: case 2: // new clients, as many as there is room for, or more
				{
					size_t n = r.chance(1, 2) ? 1 : (size_t) r.range(1, room + 3); std::vector<std::unique_ptr<Cl> > x; for (size_t j = 0; j < n; ++j) {auto c = fresh(); if (!c->dial(port)) {bad("C27", "not-accepted", say("a client cannot connect")); ok = false;} else {if (n <= room) c->say(r, (int) r.range(1, 5)); x.push_back(std::move(c));}}
					did += fmt(" +%zu", n); if (!ok) break;
					if (n <= room) {for (auto& c : x) cs.push_back(std::move(c)); if (all_served("not-served", fmt("%zu new clients are not served although there is room for %zu", n, room))) vh::count("served", n);}
					else
					{
						if (!dropped(x, room, "not-dropped", fmt("%zu new clients, but there is room for %zu only: the surplus is not dropped", n, room))) break;
						for (auto& c : x) if (!c->ended) {c->say(r, 2); cs.push_back(std::move(c));} vh::count("surplus", n - room); vh::count("served", room);
						if (cs.size() != max) bad("C27", "too-few", say(fmt("%zu new clients for %zu places, all but %zu were dropped", n, room, cs.size() - (max - room)))); all_served("not-served", "a client of the ones there was room for is not served");
					}
					break;
				}
			case 3: case 4: if (!cs.empty()) {size_t n = r.range(1, cs.size()); for (; n > 0; --n) {size_t j = r.below(cs.size()); cs[j]->leave(r.chance(1, 3)); cs.erase(cs.begin() + j);} did += " leave"; vh::count("left"); settled();} break;
			case 5: case 6: // misbehaving ones, they occupy a place for a while
				{
					int n = (int) r.range(1, 12); did += fmt(" %d misbehave", n);
					for (int j = 0; j < n; ++j)
					{
						Cl c; if (!c.dial(port)) {bad("C27", "not-accepted", say("a client cannot connect")); ok = false; break;} int w = (int) r.below(5); vh::count("misbehaving");
						if (1 == w) ::send(c.fd, "\0\1garbage", 9, MSG_NOSIGNAL); else if (2 == w) {S g; while (g.size() < 4000) g += (char) r.below(256); ::send(c.fd, g.data(), r.range(1, 4000), MSG_NOSIGNAL);} else if (3 == w) ::send(c.fd, "\0\x40part", 6, MSG_NOSIGNAL);
						if (r.chance(1, 3)) usleep((unsigned) r.below(3000)); c.leave(r.chance(1, 2));
					}
					if (ok && settled()) all_served("disturbed", "an established client is not served any more"); break;
				}
			case 7: // refused by the user
				{
					std::vector<std::unique_ptr<Cl> > x; int n = (int) r.range(1, 4), before = server.refused; server.refuse = n; for (int j = 0; j < n; ++j) {auto c = fresh(); if (c->dial(port)) x.push_back(std::move(c));} did += " refuse";
					if (dropped(x, 0, "not-dropped", "a client refused by on_accept is not dropped") && server.refused != before + n) bad("C27", "refusals", say("on_accept was not called once for each client")); server.refuse = 0; vh::count("refused", n); if (ok && settled()) all_served("disturbed", "an established client is not served any more"); break;
				}
			case 8: if (!settled()) break; did += " unlisten"; server.stop_listen(); listening = false; if (server.is_listening()) bad("C27", "listening", say("is_listening after stop_listen")); all_served("disturbed", "an established client is not served after stop_listen"); vh::count("unlistened"); break;
			case 9: // accepting fails for a while
				{
					if (!room) break; int f = 0 == server.on_error ? 1 : (int) r.range(1, an), before = server.errors; fail_accepts = f; auto c = fresh(); if (!c->dial(port)) {bad("C27", "not-accepted", say("a client cannot connect")); ok = false; break;} did += " fail"; vh::count("failed_accepts", f); c->say(r, 2);
					if (0 == server.on_error)
					{
						if (!wait("accept-error", "a failed acceptance is not reported", [&]() {return server.errors > before && !server.is_listening();})) break; fail_accepts = 0; c->leave(true); listening = false; usleep(3000); dialed = (int) server.seen; settled();
					}
					else {cs.push_back(std::move(c)); all_served("not-served", "a client is not served after failed acceptances which were to be ignored");}
					break;
				}
			case 10: if (r.chance(1, 3)) // the whole service again
				{
					for (auto& c : cs) c->leave(false); cs.clear(); did += " restart"; settled(); sp.stop_service(); if (server.size()) bad("C27", "left-over", say("links left after stop_service")); {Cl c; if (c.dial(port)) bad("C27", "accepted-unlistened", say("connected although the service is stopped"));} {std::lock_guard<std::mutex> l(mmu); socks.clear();} sp.start_service(std::max(threads, ctxs)); vh::count("service_again"); if (!server.is_listening()) {bad("C27", "listen-again", say("not listening after the service was started again")); ok = false;}
				}
				break;
			}
			// what the server knows about each client is about this client
			if (ok && !cs.empty() && all_served("not-served", "an established client is not served"))
			{
				std::set<u64> seen; size_t n = 0; std::map<unsigned, Cl*> by; for (auto& c : cs) by[c->port] = c.get();
				server.do_something_to_all([&](srv_ptr& s) {
					++n; if (!seen.insert(s->id()).second) bad("C27", "ids", say("two clients have the same id")); auto f = by.find(s->rec->rport); if (by.end() == f) {bad("C27", "foreign-link", say(fmt("the server has a link from port %u, which is none of the clients", (unsigned) s->rec->rport))); return;}
					auto st = s->get_statistic(); if (st.recv_msg_sum != f->second->msgs) bad("C27", "statistics", say(fmt("client %d sent %zu messages, its link counts %llu", f->second->id, f->second->msgs, (unsigned long long) st.recv_msg_sum)));});
				vh::count("compared", n); if (n != cs.size()) bad("C27", "members", say(fmt("%zu members", n)));
			}
			if (vh::failed()) break;
		}
		if (vh::failed()) ok = false; fail_accepts = 0; for (auto& c : cs) c->leave(false); sp.stop_service(); cas->unhook(); vh::distinct(vh::hash_str(desc + did)); vh::sample(desc + did);
	}
}

int main(int argc, char** argv) {vh::g().rule = "a case is a sequence of clients' and server's actions, distinct by the sequence"; return vh::main(argc, argv, one_case, 60.);}
