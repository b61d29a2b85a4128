// Where every accepted message ends: written, reported as not sent, still pending, or discarded - exactly one of them, whenever the link breaks.
#include "world.h"
using namespace rig;

static void one_case(Rng& r)
{
	std::shared_ptr<Case> cas = std::make_shared<Case>(); cur() = cas; S desc = vh::pert_random(r); 
	bool hold = r.chance(2, 3); cas->hold = hold; cas->sndbuf = (int) r.range(4096, 16000); cas->rcvbuf = (int) r.range(4096, 16000); cas->shrink_mode = (unsigned) r.below(5);
	size_t send_buf = (size_t) r.range(100, 12000), recv_buf = (size_t) r.range(50, 4000), typical = r.chance(1, 2) ? 60 : 900; int senders = r.chance(1, 2) ? 1 : (int) r.range(2, 4), volume = (int) r.range(20, 300); unsigned handling = (unsigned) r.range(1, 8);
	int how = (int) r.below(5); // the end: everything delivered, cut by the peer, by this side, gracefully by this side, service stop
	u64 acc = 0, wr = 0, er = 0, pe = 0, di = 0;
	{
		World w(cas, r.chance(1, 3) ? 2 : 1);
		cas->on_connect_hook = [&](Rec& rec, void* p) {auto tune = [&](auto& s) {s.send_buf_size(send_buf); s.recv_buf_size(recv_buf); s.msg_resuming_interval(2); s.msg_handling_interval(handling);}; if ('c' == rec.side[0]) tune(*(cli_sock*) (mon<raw_cli_sock>*) p); else tune(*(srv_sock*) (mon<raw_srv_sock>*) p);};
		if (!w.start(1, (int) r.range(1, 5))) {w.sp.stop_service(); return;}
		Link& l = w.links[0]; l.c->set_reconnect(false); Rec& rec = *l.c->rec; std::vector<Flow*> flows; for (int i = 0; i < senders; ++i) {Flow* f = cas->flow(true, l.s->rec.get()); f->single = true; flows.push_back(f);}
		std::vector<std::thread> ts; std::atomic<int> active(0); std::atomic<bool> enough(false); std::vector<std::vector<u32> > mine(senders);
		for (int i = 0; i < senders; ++i)
		{
			++active; u64 sd = r.next(); ts.emplace_back([&, i, sd]() {Rng q(sd); int tries = 0; for (int k = 0; k < volume && !vh::failed() && ++tries < 4 * volume;) {static const unsigned apis[] = {A_PTR, A_ARR, A_BUF, A_NPTR, A_DREF}; if (send_next(*l.c, q, *flows[i], apis[q.below(5)], pick_len(q, typical), q.chance(1, 8), false)) ++k; else {if (enough) break; usleep(200);} if (q.chance(1, 16)) usleep(q.below(300));} --active;});
		}
		if (how && r.chance(3, 4)) {usleep(r.below(20000)); if (hold && r.chance(1, 2)) cas->hold = 0;}
		auto st = [&]() {return desc + fmt("; pending %zu/%zu sending %d, receiver %zu/%zu", (size_t) l.c->get_pending_send_msg_size(), send_buf, l.c->is_sending(), (size_t) l.s->get_pending_recv_msg_size(), recv_buf);}; vh::g().on_hang = st;
		switch (how) {case 1: l.s->force_shutdown(); break; case 2: l.c->force_shutdown(); break; case 3: l.c->graceful_shutdown(); break; default: break;}
		if (0 == how) {usleep(20000); cas->hold = 0;}
		enough = how > 0; 
		bool ok = w.await([&]() {return vh::failed() || 0 == active;}, "stalled/senders", st); for (auto& t : ts) if (ok) t.join(); else t.detach(); if (!ok) vh::die();
		if (0 == how) w.await([&]() {return vh::failed() || (0 == l.c->get_pending_send_msg_size() && !l.c->is_sending() && l.s->rec->got_n == l.s->rec->arr->msgs && l.c->get_statistic().send_msg_sum == (size_t) l.s->rec->got_n);}, "stalled/drain", st);
		else if (4 != how) w.await([&]() {return vh::failed() || rec.closes > 0;}, "stalled/close", st, 8.);
		cas->hold = 0; vh::g().on_hang = nullptr; vh::pert_off(); w.sp.stop_service();
		l.c->pop_all_pending();
		// ---- judge
		for (auto* f : flows)
		{
			auto pick = [&](const std::vector<std::pair<u32, u32> >& v) {std::vector<u32> o; for (auto& x : v) if (x.first == f->id) o.push_back(x.second); return o;};
			std::vector<u32> a = f->accepted, sent = pick(rec.send_log), err = pick(rec.error_log), pend = pick(rec.pending_log), disc = pick(rec.discard_log), got = l.s->rec->got[f->id], all; acc += a.size(); wr += sent.size(); er += err.size(); pe += pend.size(); di += disc.size(); 
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
			// written, then the one being written, then the pending ones
			std::vector<u32> seq = sent; seq.insert(seq.end(), err.begin(), err.end()); seq.insert(seq.end(), pend.begin(), pend.end());
			for (size_t i = 1; i < seq.size(); ++i) if (seq[i] <= seq[i - 1]) {bad("C25", "order", fmt("flow %u: message %u after %u in the sequence written, failed, pending", f->id, seq[i], seq[i - 1])); break;}
			all = seq; all.insert(all.end(), disc.begin(), disc.end()); std::sort(all.begin(), all.end()); std::vector<u32> sa = a; std::sort(sa.begin(), sa.end());
			if (all != sa) 
			{
				std::vector<u32> no, twice; std::set_difference(sa.begin(), sa.end(), all.begin(), all.end(), std::back_inserter(no)); for (size_t i = 1; i < all.size(); ++i) if (all[i] == all[i - 1]) twice.push_back(all[i]);
				bad("C25", no.empty() ? "twice" : "unaccounted", fmt("flow %u: %zu accepted, %zu written, %zu failed, %zu pending, %zu discarded; %zu of them nowhere (first %d), %zu twice (first %d)", f->id, a.size(), sent.size(), err.size(), pend.size(), disc.size(), no.size(), no.empty() ? -1 : (int) no[0], twice.size(), twice.empty() ? -1 : (int) twice[0]));
			}
			std::vector<u32> may = sent; may.insert(may.end(), err.begin(), err.end()); std::sort(may.begin(), may.end()); std::vector<u32> sg = got, odd; std::sort(sg.begin(), sg.end()); std::set_difference(sg.begin(), sg.end(), may.begin(), may.end(), std::back_inserter(odd)); if (!odd.empty()) bad("C25", "delivered-and-kept", fmt("flow %u: message %u was delivered, but is reported as pending or discarded", f->id, odd[0]));
#endif
			if (1 == senders) for (size_t i = 1; i < disc.size(); ++i) if (disc[i] <= disc[i - 1]) {bad("C25", "discard-order", fmt("message %u was discarded after %u", disc[i], disc[i - 1])); break;}
			for (size_t i = 0; i < disc.size(); ++i) if (std::find(got.begin(), got.end(), disc[i]) != got.end()) {bad("C25", "discarded-and-delivered", fmt("message %u of flow %u was discarded and delivered", disc[i], f->id)); break;}
			if (1 == senders && !disc.empty() && !got.empty() && 0 == how) {std::vector<u32> x = got; x.insert(x.end(), disc.begin(), disc.end()); std::sort(x.begin(), x.end()); if (x != a) bad("C25", "neither", fmt("%zu accepted, %zu delivered, %zu discarded", a.size(), got.size(), disc.size()));}
			// delivered messages are the oldest of those not discarded
			std::vector<u32> keep; std::vector<u32> sd = disc; std::sort(sd.begin(), sd.end()); for (u32 q : a) if (!std::binary_search(sd.begin(), sd.end(), q)) keep.push_back(q);
			std::vector<u32> sg2 = got; std::sort(sg2.begin(), sg2.end()); if (sg2.size() > keep.size() || !std::equal(sg2.begin(), sg2.end(), keep.begin())) bad("C25", "gap", fmt("flow %u: the %zu messages delivered are not the first of the %zu accepted and not discarded", f->id, got.size(), keep.size()));
			if (0 == how && got.size() != keep.size()) bad("C25", "neither", fmt("flow %u: %zu accepted, %zu discarded, %zu delivered on a link which stayed up", f->id, a.size(), disc.size(), got.size()));
		}
		u64 sum = l.c->get_statistic().send_msg_sum + rec.error_log.size() + rec.pending_log.size() + rec.discard_log.size();
		if (!vh::failed() && sum != acc) bad("C25", "count", fmt("%llu messages accepted; %llu written + %zu failed + %zu pending + %zu discarded", acc, (u64) l.c->get_statistic().send_msg_sum, rec.error_log.size(), rec.pending_log.size(), rec.discard_log.size()));
		if (rec.pending_log.size() && l.c->get_pending_send_msg_size()) bad("C25", "left-bytes", "the send buffer is not empty after everything was popped"); wr = l.c->get_statistic().send_msg_sum; er = rec.error_log.size();
		vh::count(0 == how ? "ends_delivered" : 1 == how ? "ends_cut_by_peer" : 2 == how ? "ends_forced" : 3 == how ? "ends_graceful" : "ends_stopped");
	}
	vh::count("accepted", acc); vh::count("written", wr); vh::count("failed", er); vh::count("pending", pe); vh::count("discarded", di); vh::count("delays", vh::pert().delays.exchange(0)); vh::distinct(vh::mix(acc * 7 + wr * 3 + er + di) ^ vh::hash_str(desc));
	if (vh::want_sample()) vh::sample(fmt("end %d, %d senders, send buffer %zu, accepted %llu written %llu failed %llu pending %llu discarded %llu, %s", how, senders, send_buf, acc, wr, er, pe, di, desc.c_str())); cur().reset();
}
int main(int argc, char** argv) {vh::g().rule = "a case is one link and its end, distinct by what became of the messages and schedule perturbation"; return vh::main(argc, argv, one_case, 200);}
