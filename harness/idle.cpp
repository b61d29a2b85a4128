// The send queue of a socket which is not connected, against a model: acceptance, sizes, priorities, popping, discarding.
#include "rig.h"
using namespace rig;

struct Item {S data; u32 msg;};
static std::vector<S> discarded_data; static int discard_calls = 0;
static size_t (*calc)(size_t) = NULL; static u64 calc_arg; static int calc_mode;
static size_t shrink_size(size_t cur) {return 0 == calc_mode ? cur / 3 : 1 == calc_mode ? 0 : 2 == calc_mode ? cur : 3 == calc_mode ? 1 : (size_t) (vh::mix(calc_arg + cur) % (cur + 1));}
class idle_sock : public raw_cli_sock
{
public:
	idle_sock(st_asio_wrapper::i_matrix& m) : raw_cli_sock(m) {setup_protocol(packer(), unpacker());}
protected:
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	virtual void on_msg_send(in_msg_type&) {}
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	virtual void on_all_msg_send(in_msg_type&) {}
#endif
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
	virtual size_t calc_shrink_size(size_t n) {return shrink_size(n);}
	virtual void on_msg_discard(in_container_type& can) {++discard_calls; for (auto& m : can) discarded_data.push_back(S(m.data(), m.size()));}
#endif
};
typedef st_asio_wrapper::tcp::multi_client_base<idle_sock> idle_client;

static void one_case(Rng& r)
{
	service_pump sp; idle_client client(sp); auto s = client.add_socket(1, "127.0.0.1"); std::deque<S> model; size_t bytes = 0; S hist; u64 h = 1;
	size_t limit = r.chance(1, 8) ? ST_ASIO_MAX_SEND_BUF : (size_t) r.range(1, 4000); if (ST_ASIO_MAX_SEND_BUF != limit || r.chance(1, 2)) s->send_buf_size(limit); if (s->send_buf_size() != limit) bad("C07", "limit", "the configured send buffer size is not kept");
	calc_mode = (int) r.below(5); calc_arg = r.next(); size_t typical = r.chance(1, 2) ? 40 : 900; int n = (int) r.range(4, 60); u32 seq = 0; u64 accepts = 0, refusals = 0, pops = 0, disc = 0;
	auto check = [&](const char* what)
	{
		if (s->get_pending_send_msg_size() != bytes) bad("C07 C17 C25", S("size/") + what, fmt("%zu bytes pending, the model has %zu after ", (size_t) s->get_pending_send_msg_size(), bytes) + hist);
		if (s->is_send_buffer_available() != (bytes < limit)) bad("C07", S("available/") + what, fmt("availability is wrong with %zu of %zu bytes after ", bytes, limit) + hist);
		float u = s->send_buf_usage(), e = (float) bytes / limit; if (u > e + e / 1000 || u < e - e / 1000) bad("C17", S("usage/") + what, fmt("usage %f, should be %f after ", u, e) + hist);
	};
	auto pop_model = [&](const S& d) {if (model.empty() || model.front() != d) return false; bytes -= d.size(); model.pop_front(); return true;};
	for (int i = 0; i < n && !vh::failed(); ++i)
	{
		unsigned k = (unsigned) r.below(20); if (hist.size() > 1500) hist.erase(0, 300);
		if (k == 0)
		{
			++pops; idle_sock::in_msg m; if (r.chance(1, 2)) {S junk = body(9, 9, 20); mk(m, junk);}
			s->pop_first_pending_send_msg(m); hist += " pop"; S d(m.empty() ? "" : m.data(), m.size());
			if (model.empty()) {if (!m.empty()) bad("C25", "pop/from-empty", "popping an empty queue returned a message after" + hist);}
			else if (!pop_model(d)) bad("C25", "pop/first", fmt("popping returned %zu bytes which are not the first message (%zu bytes) after", d.size(), model.front().size()) + hist);
			check("pop");
		}
		else if (k == 1 && r.chance(1, 2))
		{
			++pops; idle_sock::in_container_type can; if (r.chance(1, 2)) can.emplace_back(); s->pop_all_pending_send_msg(can); hist += " pop-all"; size_t c = 0; bool good = can.size() == model.size();
			for (auto& m : can) {good = good && c < model.size() && model[c] == S(m.empty() ? "" : m.data(), m.size()); ++c;}
			if (!good) bad("C25", "pop/all", fmt("popping everything returned %zu messages, %zu were pending, or others, after", can.size(), model.size()) + hist);
			model.clear(); bytes = 0; check("pop-all");
		}
		else
		{
			unsigned a; bool prior = r.chance(1, 6), over = r.chance(1, 4);
			for (;;)
			{
				a = (unsigned) r.below(A_N);
#ifndef RIG_COPYABLE
				if (A_CREF == a || A_CTWO == a || A_DCREF == a) continue;
#endif
				if (!multi_item(a) || r.chance(1, 3)) break;
			}
			size_t len = pick_len(r, typical); S b = body(1, seq++, len), p = packed(b);
			bool avail = bytes < limit; discarded_data.clear(); discard_calls = 0; size_t before = bytes; bool expect = over || avail; size_t want = 0;
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
			if (!over && !avail) {want = shrink_size(bytes); expect = want > 0;}
#endif
			hist += fmt(" send(api %u, %zu%s%s)", a, p.size(), over ? ", overflow" : "", prior ? ", prior" : "");
			bool re = send_by(*s, r, a, b, over, prior); (re ? accepts : refusals)++;
			if (re != expect) bad(avail || over ? "C07" : "C07 C25", over ? "overflow-refused" : re ? "accepted-when-full" : "refused-when-not-full", fmt("send %s with %zu of %zu bytes queued, after", re ? "accepted" : "refused", before, limit) + hist);
			// discarding: the oldest, at least the wanted bytes, no more items than needed
			if ((discard_calls > 0) != (want > 0 && re)) bad("C25", "discard/when", fmt("discard callback ran %d times with %zu of %zu bytes queued, after", discard_calls, before, limit) + hist);
			size_t got = 0; for (auto& d : discarded_data) {if (got >= want) bad("C25", "discard/too-many", "more was discarded than wanted, after" + hist); got += d.size(); ++disc; if (!pop_model(d)) {bad("C25", "discard/not-oldest", "what was discarded is not the oldest, after" + hist); break;}}
			if (want > 0 && re && got < want && !model.empty()) bad("C25", "discard/too-few", fmt("%zu bytes discarded, %zu wanted, after", got, want) + hist);
			if (re)
			{
				// the message now is at the end (or the front), whole; how many items it consists of is up to the packer
				bytes += p.size(); idle_sock::in_container_type can; 
				if (r.chance(1, 8) || multi_item(a))
				{
					s->pop_all_pending_send_msg(can); std::vector<S> v; for (auto& m : can) v.push_back(S(m.empty() ? "" : m.data(), m.size()));
					size_t extra = v.size() > model.size() ? v.size() - model.size() : 0; S joined; bool good = extra > 0; size_t off = prior ? 0 : model.size();
					for (size_t j = 0; good && j < v.size(); ++j) if (j >= off && j < off + extra) joined += v[j]; else good = v[j] == model[prior ? j - extra : j];
					if (!good || joined != p) bad("C25 C07", "queued", "the queued message is not at its place or not whole, after" + hist);
					model.assign(v.begin(), v.end()); list<idle_sock::in_msg_type> l; for (auto& m : can) l.emplace_back().swap(m); s->direct_send_msg(l, true, false);
				}
				else prior ? model.push_front(p) : model.push_back(p);
			}
			check(re ? "send" : "refused");
			if (!over && before < limit && re && bytes >= limit + p.size()) bad("C07", "beyond", fmt("%zu bytes queued, limit %zu, last message %zu, after", bytes, limit, p.size()) + hist);
		}
		h = vh::mix(h ^ (model.size() << 20) ^ bytes);
	}
	idle_sock::in_container_type can; s->pop_all_pending_send_msg(can); size_t c = 0; bool good = can.size() == model.size(); for (auto& m : can) {good = good && c < model.size() && model[c] == S(m.empty() ? "" : m.data(), m.size()); ++c;}
	if (!good) bad("C25 C07", "final", "the queue does not hold what the model holds after" + hist);
	vh::count("accepted", accepts); vh::count("refused_sends", refusals); vh::count("popped", pops); vh::count("discarded", disc); vh::distinct(h); if (vh::want_sample()) vh::sample(fmt("limit %zu:", limit) + hist);
}
int main(int argc, char** argv) {vh::g().rule = "a case is one random operation sequence on the send queue of a socket that is not connected; distinct by the sequence of queue states"; return vh::main(argc, argv, one_case, 100);}
