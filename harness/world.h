// A server, clients and their links, set up and taken down for one case.
#ifndef VH_WORLD_H_
#define VH_WORLD_H_
#include "rig.h"

namespace rig
{
struct Link {cli_ptr c; srv_ptr s;};
struct World
{
	std::shared_ptr<Case> cas; service_pump sp; server_t server; client_t client; unsigned short port; std::vector<Link> links; std::atomic<unsigned> turn; int nctx;
	static int contexts(int n)
	{
#if defined(RIG_AUTO_STOP) || defined(ST_ASIO_DECREASE_THREAD_AT_RUNTIME)
		return 1;
#else
		return n;
#endif
	}
	service_pump& pump(int ctxs)
	{
#ifndef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
		if (ctxs > 1) sp.set_io_context_num(ctxs);
#endif
		return sp;
	}
	World(std::shared_ptr<Case> c, int ctxs = 1) : cas(c), server(pump(contexts(ctxs))), client(sp), port(free_port()), turn(0), nctx(contexts(ctxs)) {server.set_server_addr(port, "127.0.0.1");}
	void post(const std::function<void()>& f) {if (links.empty()) boost::asio::post(server.next_layer().get_executor(), f); else boost::asio::post(links[++turn % links.size()].c->lowest_layer().get_executor(), f);}
	vh::poster poster() {return [this](std::function<void()> f) {post(f);};}
	cli_ptr add() {Link l; l.c = client.add_socket(port, "127.0.0.1"); links.push_back(l); return l.c;}
	bool await(const std::function<bool()>& cond, const S& key, const std::function<S()>& detail = std::function<S()>(), double quiet = 4.) {return vh::await(cond, poster(), key, detail, quiet);}
	srv_ptr peer(const cli_ptr& c) {srv_ptr r; server.do_something_to_all([&](srv_ptr& s) {if (s->rec->up && s->rec->rport == c->rec->lport) r = s;}); return r;}
	// n links, started
	bool start(int n, int threads, const char* key = "setup")
	{
		for (int i = 0; i < n; ++i) add();
		sp.start_service(std::max(threads, nctx)); return pair_up(key);
	}
	bool pair_up(const char* key)
	{
		auto all = [&]() {for (auto& l : links) {if (!l.c->rec->up) return false; if (!l.s || !l.s->rec->up) {l.s = peer(l.c); if (!l.s) return false;}} return true;};
		return await(all, key, []() {return S("the links do not come up");});
	}
};
} // namespace rig
#endif
