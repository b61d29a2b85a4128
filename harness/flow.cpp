// A peer which stops handling: both buffers must stop growing at their limits, waiting senders must wait, and everything must arrive once it goes on.
#include "world.h"
using namespace rig;

static void one_case(Rng& r)
{
	std::shared_ptr<Case> cas = std::make_shared<Case>(); cur() = cas; S desc = vh::pert_random(r); cas->hold = 1; u64 msgs = 0, refusals = 0, safe_n = 0; bool stalled = false;
	{cas->sndbuf = (int) r.range(4096, 16000); cas->rcvbuf = (int) r.range(4096, 16000);}
	size_t send_buf = (size_t) r.range(100, 20000), recv_buf = (size_t) r.range(50, 8000), typical = r.chance(1, 2) ? 60 : 900; unsigned resume = (unsigned) r.range(1, 10), handling = (unsigned) r.range(1, 10); int senders = r.chance(1, 2) ? 1 : (int) r.range(2, 4), safes = (int) r.below(4), rounds = (int) r.range(1, 3);
	cas->sync_mode = 2; // the synchronous handler leaves everything behind
	cas->on_connect_hook = [&](Rec& rec, void* p) {auto tune = [&](auto& s) {s.send_buf_size(send_buf); s.recv_buf_size(recv_buf); s.msg_resuming_interval(resume); s.msg_handling_interval(handling);}; if ('c' == rec.side[0]) tune(*(cli_sock*) (mon<raw_cli_sock>*) p); else tune(*(srv_sock*) (mon<raw_srv_sock>*) p);
		// a read is only started while there is room, and only reads add to the buffer
		if ('s' == rec.side[0]) {auto* s = (srv_sock*) (mon<raw_srv_sock>*) p; Rec* rr = &rec; rec.arr->before_parse = [s, rr, recv_buf]() {size_t n = s->get_pending_recv_msg_size(); if (n >= recv_buf) bad("C07", "read-while-full", rr->name() + fmt(": a read completed with %zu bytes waiting to be handled, the limit is %zu", n, recv_buf));};}
	};
	{
		World w(cas, r.chance(1, 3) ? 2 : 1); if (!w.start(1, (int) r.range(2, 5))) {w.sp.stop_service(); return;}
		Link& l = w.links[0]; std::atomic<bool> stop(false); std::atomic<u64> max_recv(0), max_send(0); std::atomic<bool> bounded(true);
		std::thread watch([&]() {while (!stop) {u64 n = l.s->get_pending_recv_msg_size(); if (n > max_recv) max_recv = n; n = l.c->get_pending_send_msg_size(); if (bounded && n > max_send) max_send = n; usleep(200);}});
		std::vector<Flow*> flows; for (int i = 0; i < senders + safes; ++i) {Flow* f = cas->flow(true, l.s->rec.get()); f->single = true; flows.push_back(f);}
		auto st = [&]() {return desc + fmt("; send buffer %zu/%zu, receive buffer %zu/%zu, sending %d idle %d dispatching %d", (size_t) l.c->get_pending_send_msg_size(), send_buf, (size_t) l.s->get_pending_recv_msg_size(), recv_buf, l.c->is_sending(), l.s->is_recv_idle(), l.s->is_dispatching());};
		vh::g().on_hang = st;
		for (int round = 0; round < rounds && !vh::failed(); ++round)
		{
			cas->hold = 1; if (0 == round) bounded = true; std::atomic<int> active(0); std::atomic<bool> halt(false); std::vector<std::thread> ts; std::vector<std::unique_ptr<std::atomic<u64> > > last; int quiet_ms = 0;
			for (int i = 0; i < senders; ++i)
			{
				++active; u64 sd = r.next(); ts.emplace_back([&, i, sd]()
				{
					Rng q(sd); Flow* f = flows[i];
					while (!halt && !vh::failed())
					{
						size_t b0 = l.c->get_pending_send_msg_size(), len = pick_len(q, typical); unsigned a = q.chance(1, 2) ? A_PTR : A_DREF; bool ok = send_next(*l.c, q, *f, a, len, false, false);
						if (1 == senders && 0 == safes)
						{
							if (!ok && b0 < send_buf && bounded) bad("C07", "refused-early", fmt("a send was refused with %zu bytes queued, the limit is %zu", b0, send_buf));
							size_t b1 = l.c->get_pending_send_msg_size(), sz = packed(body(0, 0, len)).size(); if (!bounded) {if (!ok) usleep(300); continue;} // the overflowing sends of the main thread are under way
							if (b1 >= send_buf + sz && b1 > b0) bad("C07", "too-much-queued", fmt("%zu bytes queued after a non-overflowing send of %zu bytes, the limit is %zu", b1, sz, send_buf));
							if (ok && b1 == b0 + sz && b0 >= send_buf) bad("C07", "accepted-late", fmt("a send was accepted with %zu bytes queued, the limit is %zu", b0, send_buf));
						}
						if (ok) tick(); else {std::lock_guard<std::mutex> lk(cas->mu); ++refusals; }
						if (!ok) usleep(300);
					}
					--active;
				});
			}
			std::atomic<int> in_safe(0), safe_done(0); std::atomic<bool> safe_go(false);
			for (int i = 0; i < safes; ++i) {++active; u64 sd = r.next(); ts.emplace_back([&, i, sd]() {Rng q(sd); while (!safe_go && !vh::failed()) usleep(300);
				if (!vh::failed()) {++in_safe; u32 seq = flows[senders + i]->next.fetch_add(1); S b = body(flows[senders + i]->id, seq, pick_len(q, typical)); bool ok; static const unsigned apis[3] = {A_SPTR, A_SREF, A_SARR}; ok = send_by(*l.c, q, q.chance(1, 3) && 0 == senders ? A_SPTR : A_SPTR, b, false, false); (void) apis;
				if (!ok) bad("C07", "safe-refused", "a safe send failed on a link which is up"); else {flows[senders + i]->accept(seq); flows[senders + i]->bytes += packed(b).size();} ++safe_done; tick();} --active;});}
			// until everything stands still: the receiver full, the sender full
			bool full = vh::wait_for([&]() {static thread_local u64 lastp = 0; u64 p = l.s->rec->arr->parses; if (p != lastp) {lastp = p; quiet_ms = 0;} return vh::failed() || ((size_t) l.s->get_pending_recv_msg_size() >= recv_buf && (size_t) l.c->get_pending_send_msg_size() >= send_buf && ++quiet_ms > 60);}, 20);
			if (full && !vh::failed())
			{
				stalled = true; safe_go = true; vh::wait_for([&]() {return in_safe == safes;}, 5); 
				// senders keep trying; none may get in now
				usleep(60000 + r.below(60000)); // senders keep trying
				bounded = false; usleep(1000);
				// overflow-allowed sends always get in
				Flow* f = cas->flow(true, l.s->rec.get()); f->single = true; flows.push_back(f); for (int i = 0; i < 3; ++i) if (!send_next(*l.c, r, *f, i ? A_PTR : A_DREF, pick_len(r, typical), true, false)) bad("C07", "overflow-refused", "a send with overflow allowed was refused");
			}
			safe_go = true; halt = true; cas->hold = 0; vh::count(full ? "stalls" : "not_stalled");
			bool ok = w.await([&]() {return 0 == active.load() || vh::failed();}, "stalled/senders", st); for (auto& t : ts) if (ok) t.join(); else t.detach();
			if (!ok) vh::die();
			safe_n += safe_done;
			auto expected = [&]() {u64 n = 0; for (auto* f : flows) n += f->n_accepted; return n;};
			if (!w.await([&]() {return vh::failed() || (l.s->rec->got_n >= expected() && 0 == l.c->get_pending_send_msg_size() && !l.c->is_sending() && 0 == l.s->get_pending_recv_msg_size());}, "stalled/after-release", st)) break;
		}
		stop = true; watch.join();
		if (max_recv >= recv_buf + ST_ASIO_MSG_BUFFER_SIZE) bad("C07", "receive-buffer-exceeded", fmt("%llu received bytes waited to be handled, the limit is %zu", max_recv.load(), recv_buf));
		if (max_send >= send_buf + (senders + safes) * (max_body() + 8)) bad("C07", "send-buffer-exceeded", fmt("%llu bytes were queued by %d non-overflowing senders, the limit is %zu", max_send.load(), senders + safes, send_buf));
		vh::g().on_hang = nullptr; vh::pert_off(); w.sp.stop_service();
		for (auto* f : flows) {std::vector<u32> a = f->accepted, g = l.s->rec->got[f->id]; if (!f->ordered) {} std::sort(a.begin(), a.end()); std::sort(g.begin(), g.end()); if (a != g && !vh::failed()) bad("C07 C04", "lost", fmt("flow %u: %zu messages accepted, %zu arrived", f->id, a.size(), g.size())); msgs += g.size();}
	}
	vh::count("messages", msgs); vh::count("refused_sends", refusals); vh::count("safe_sends", safe_n); vh::count("delays", vh::pert().delays.exchange(0)); vh::distinct(vh::mix(msgs * 7 + refusals) ^ vh::hash_str(desc));
	if (vh::want_sample()) vh::sample(fmt("%d senders, %d waiting senders, send buffer %zu, receive buffer %zu, %llu messages, %llu refusals, stalled %d, %s", senders, safes, send_buf, recv_buf, msgs, refusals, stalled, desc.c_str())); cur().reset();
}
int main(int argc, char** argv) {vh::g().rule = "a case is one link whose receiver stops and goes on, distinct by message and refusal counts and schedule perturbation"; return vh::main(argc, argv, one_case, 200);}
