seed('flex-reset', 'C01', [('include/ext/unpacker.h', 'virtual void reset() {big_msg.clear(); cur_msg_len = -1; remain_len = 0;}', 'virtual void reset() {cur_msg_len = -1; remain_len = 0;}')],
 'a reset (link broken) while the flexible unpacker is in the middle of a message bigger than its fixed buffer',
 'after the reset the unpacker still is in big message mode, following messages are misparsed', r'''
#define ST_ASIO_MSG_BUFFER_SIZE 20000
#include "include/ext/packer.h"
#include "include/ext/unpacker.h"
using namespace st_asio_wrapper; using namespace st_asio_wrapper::ext;
static std::vector<std::string> feed(flexible_unpacker<>& u, const std::string& s, size_t step)
{
	std::vector<std::string> r; size_t pos = 0;
	while (pos < s.size())
	{
		auto b = u.prepare_next_recv(); size_t got = 0, want;
		while (pos < s.size() && (want = u.completion_condition(boost::system::error_code(), got)) > 0)
			{size_t n = std::min(std::min(want, step), std::min(s.size() - pos, b.size() - got)); if (0 == n) break; memcpy((char*) b.data() + got, s.data() + pos, n); got += n; pos += n;}
		if (pos >= s.size() && u.completion_condition(boost::system::error_code(), got) > 0 && got == 0) break;
		flexible_unpacker<>::container_type can; if (!u.parse_msg(got, can)) fail("unpack error");
		for (auto& m : can) r.push_back(std::string(m.data(), m.size()));
	}
	return r;
}
int main()
{
	packer<> p; std::string big(9000, 'b'), small("hello"), m1, m2; p.pack_msg(m1, big.data(), big.size()); p.pack_msg(m2, small.data(), small.size());
	flexible_unpacker<> u; if (feed(u, m1 + m2, 1000).size() != 2) fail("first session");
	{auto b = u.prepare_next_recv(); memcpy(b.data(), m1.data(), 4000); size_t n = 0; n = u.completion_condition(boost::system::error_code(), 4000); flexible_unpacker<>::container_type can; u.parse_msg(4000, can);}
	u.reset(); // the link was broken in the middle of the big message
	auto r = feed(u, m2 + m1 + m2, 700); if (r.size() != 3 || r[0] != small || r[1] != big || r[2] != small) fail("second session: %d messages", (int) r.size());
	done();
}
''')
seed('sticky-len1', 'C02', [('include/ext/unpacker.h', '''	unpacker() {reset();}
	size_t current_msg_length() const {return cur_msg_len;} //current msg's total length, -1 means not available

	bool parse_msg(pos_list& msg_can)
	{
		const char* pnext = raw_buff.begin();
		bool unpack_ok = true;
		while (unpack_ok) //considering sticky package problem, we need a loop
			if ((size_t) -1 != cur_msg_len)
			{
				if (cur_msg_len > ST_ASIO_MSG_BUFFER_SIZE || cur_msg_len < ST_ASIO_HEAD_LEN)''', '''	unpacker() {reset();}
	size_t current_msg_length() const {return cur_msg_len;} //current msg's total length, -1 means not available

	bool parse_msg(pos_list& msg_can)
	{
		const char* pnext = raw_buff.begin();
		bool unpack_ok = true;
		while (unpack_ok) //considering sticky package problem, we need a loop
			if ((size_t) -1 != cur_msg_len)
			{
				if (cur_msg_len > ST_ASIO_MSG_BUFFER_SIZE || 0 == cur_msg_len)''')],
 'a frame whose length is smaller than its head, coalesced behind a valid message',
 'the invalid frame is not reported, the unpacker skips one byte and invents messages', r'''
#include "include/ext/packer.h"
#include "include/ext/unpacker.h"
using namespace st_asio_wrapper; using namespace st_asio_wrapper::ext;
int main()
{
	packer<> p; std::string a("hello"), m; p.pack_msg(m, a.data(), a.size());
	std::string s = m + std::string("\0\1", 2) + std::string("\4AB", 3);
	unpacker<> u; auto b = u.prepare_next_recv(); memcpy(b.data(), s.data(), s.size()); u.completion_condition(boost::system::error_code(), s.size());
	unpacker<>::container_type can; bool ok = u.parse_msg(s.size(), can);
	if (can.empty() || std::string(can.front().data(), can.front().size()) != a) fail("valid message lost");
	if (ok) fail("invalid frame accepted"); if (can.size() != 1) fail("invented message");
	done();
}
''')
seed('ps-limit', 'C03', [('include/ext/packer.h', '''		size_t len = _prefix.size() + _suffix.size() + st_asio_wrapper::get_size_in_byte(in);
		if (len > ST_ASIO_MSG_BUFFER_SIZE) //not considered overflow
			return false;''', '''		size_t len = st_asio_wrapper::get_size_in_byte(in);
		if (len > ST_ASIO_MSG_BUFFER_SIZE) //not considered overflow
			return false;''')],
 'a message made of a list of buffers whose body fits the maximum only without prefix and suffix',
 'prefix_suffix_packer emits frames which exceed the maximum and cannot be parsed', r'''
#include "include/ext/packer.h"
#include "include/ext/unpacker.h"
using namespace st_asio_wrapper; using namespace st_asio_wrapper::ext;
int main()
{
	prefix_suffix_packer p; p.prefix_suffix("<b>", "</b>");
	for (int d = -8; d < 3; ++d)
	{
		prefix_suffix_packer::container_type in, out; in.emplace_back(std::string(ST_ASIO_MSG_BUFFER_SIZE + d - 100, 'x')); in.emplace_back(std::string(100, 'y'));
		bool ok = p.pack_msg(in, out), want = ST_ASIO_MSG_BUFFER_SIZE + d + 7 <= ST_ASIO_MSG_BUFFER_SIZE; size_t n = 0; for (auto& x : out) n += x.size();
		if (ok != want) fail("body of %d bytes was %s", ST_ASIO_MSG_BUFFER_SIZE + d, ok ? "accepted" : "refused"); if (!ok && n) fail("half packed"); if (ok && n > ST_ASIO_MSG_BUFFER_SIZE) fail("too long frame");
	}
	done();
}
''')
seed('split-items', 'C04', [('include/socket.h', '''			temp_buffer.emplace_back().swap(*iter); //with c++0x, this can be emplace_back(*iter)
		}
		prior ? send_buffer.move_items_in_front(temp_buffer, size_in_byte) : send_buffer.move_items_in(temp_buffer, size_in_byte);
		send_msg();

		return true;
	}

#ifdef ST_ASIO_SYNC_SEND
	sync_call_result do_direct_sync_send_msg(const InMsgType& msg''', '''			temp_buffer.emplace_back().swap(*iter); //with c++0x, this can be emplace_back(*iter)
			if (!prior && size_in_byte >= 16384) //do not hold too much memory
			{
				send_buffer.move_items_in(temp_buffer, size_in_byte);
				size_in_byte = 0;
			}
		}
		prior ? send_buffer.move_items_in_front(temp_buffer, size_in_byte) : send_buffer.move_items_in(temp_buffer, size_in_byte);
		send_msg();

		return true;
	}

#ifdef ST_ASIO_SYNC_SEND
	sync_call_result do_direct_sync_send_msg(const InMsgType& msg''')],
 'messages made of several big buffers, sent by two threads at once',
 'the buffers of different messages are interleaved on the wire', r'''
#define ST_ASIO_MSG_BUFFER_SIZE 100000
#define ST_ASIO_HUGE_MSG
//tcp
int main()
{
	service_pump sp; server_t server(sp); client_t client(sp); unsigned short port = free_port(); server.set_server_addr(port, "127.0.0.1");
	static std::atomic<int> got(0); S::handling() = [](S*, std::string& m) {if (m.size() != 30000) fail("message of %d bytes", (int) m.size()); for (char c : m) if (c != m[0]) fail("mixed message"); ++got; return true;};
	auto c = client.add_socket(port, "127.0.0.1"); sp.start_service(3); if (!wait_for([&]() {return c->up.load();}, 10)) fail("not connected");
	std::atomic<int> n(0); auto f = [&](char ch) {for (double e = now() + 8; now() < e;) {if (c->get_pending_send_msg_size() > 3000000) {usleep(500); continue;} st_asio_wrapper::list<std::string> l; for (int i = 0; i < 3; ++i) l.emplace_back(std::string(10000, ch)); if (c->send_msg(l, true)) ++n;}};
	std::vector<std::thread> v; for (char ch = 'a'; ch < 'e'; ++ch) v.emplace_back(f, ch); for (auto& t : v) t.join();
	if (!wait_for([&]() {return got == n;}, 30)) fail("%d of %d messages", (int) got, (int) n); done();
}
''')
seed('refusal-tail', 'C06', [('include/socket.h', '''				dispatching_msg.restart(end_time);
				set_timer(TIMER_DISPATCH_MSG''', '''				dispatching_msg.restart(end_time);
				if (!recv_buffer.is_empty() && dispatching_msg.size() < 64) //let the others go first, it is cheap to move a small one
				{
					out_msg other;
					if (recv_buffer.try_dequeue(other))
					{
						recv_buffer.enqueue_front(dispatching_msg);
						dispatching_msg.swap(other);
					}
				}
				set_timer(TIMER_DISPATCH_MSG''')],
 'the handler refuses a small message while further messages are waiting',
 'a refused message is overtaken by a later one', r'''
//tcp
int main()
{
	service_pump sp; server_t server(sp); client_t client(sp); unsigned short port = free_port(); server.set_server_addr(port, "127.0.0.1");
	std::mutex mu; std::vector<int> seen; int refused = 0;
	S::handling() = [&](S* s, std::string& m) {std::lock_guard<std::mutex> l(mu); int n = atoi(m.data()); if (n % 7 == 3 && refused++ < 40) return false; seen.push_back(n); return true;};
	S::opening() = [](S* s) {s->msg_handling_interval(3);};
	auto c = client.add_socket(port, "127.0.0.1"); sp.start_service(3); if (!wait_for([&]() {return c->up.load();}, 10)) fail("not connected");
	for (int i = 0; i < 200; ++i) {std::string m = std::to_string(i); c->safe_send_msg(m.data(), m.size(), false);}
	wait_for([&]() {std::lock_guard<std::mutex> l(mu); return seen.size() >= 200;}, 20);
	std::lock_guard<std::mutex> l(mu); for (size_t i = 0; i < seen.size(); ++i) if (seen[i] != (int) i) fail("message %d handled as number %d", seen[i], (int) i); if (seen.size() != 200) fail("%d messages", (int) seen.size());
	done();
}
''')
seed('recv-limit', 'C07', [('include/socket.h', '	bool check_receiving(bool raise_recv)\n	{\n		if (is_recv_buffer_available())', '	bool check_receiving(bool raise_recv)\n	{\n		if (is_recv_buffer_available() || (raise_recv && recv_buf_usage() < 1.5f)) //do not wait for too long')],
 'a handler slower than the peer, with the receive buffer only slightly above its limit when reception is polled',
 'reception resumes although the receive buffer has reached its size, so the limit is exceeded by more than one read', r'''
//tcp
int main()
{
	service_pump sp; server_t server(sp); client_t client(sp); unsigned short port = free_port(); server.set_server_addr(port, "127.0.0.1");
	std::atomic<S*> peer(NULL); S::opening() = [&](S* s) {s->recv_buf_size(100000); s->msg_resuming_interval(5); s->msg_handling_interval(50); peer = s;}; S::handling() = [](S*, std::string&) {return false;}; // nothing is ever handled
	auto c = client.add_socket(port, "127.0.0.1"); sp.start_service(2); if (!wait_for([&]() {return c->up && peer.load();}, 10)) fail("not connected");
	std::string m(1000, 'x'); double e = now() + 4; size_t most = 0;
	while (now() < e) {if (!c->send_msg(m.data(), m.size(), false)) usleep(1000); most = std::max(most, (size_t) peer.load()->get_pending_recv_msg_size());}
	if (most > 100000 + ST_ASIO_MSG_BUFFER_SIZE + 1000) fail("%d bytes received but not handled", (int) most);
	done();
}
''')
seed('last-call', 'C08', [('include/tracked_executor.h', '''		if (cur_ref > *aci)
			return 0;''', '''		if (cur_ref > *aci + 1)
			return 0;''')],
 'a link is closed while exactly one user-posted callback or timer of it is still running or queued',
 'the close notification is delivered while a callback of the socket is still running or still to come', r'''
//tcp
int main()
{
	service_pump sp; server_t server(sp); client_t client(sp); unsigned short port = free_port(); server.set_server_addr(port, "127.0.0.1");
	static std::atomic<int> running(0), bad(0);
	S::closing() = [](S* s) {if (running) ++bad;};
	S::opening() = [](S* s) {s->post([s]() {++running; usleep(400000); if (s->closed) ++bad; --running;});};
	C::opening() = [](C* c) {c->set_reconnect(false);};
	auto c = client.add_socket(port, "127.0.0.1"); sp.start_service(4); if (!wait_for([&]() {return c->up && 1 == running;}, 10)) fail("not connected");
	server.force_shutdown(); usleep(1500000);
	if (bad) fail("closed while a posted callback was running"); done();
}
''')
seed('graceful-both', 'C14', [('include/tcp/socket.h', 'ST_THIS lowest_layer().shutdown(boost::asio::socket_base::shutdown_send, ec);\n			if (ec) //graceful', 'ST_THIS lowest_layer().shutdown(ST_THIS is_dispatching() ? boost::asio::socket_base::shutdown_both : boost::asio::socket_base::shutdown_send, ec);\n			if (ec) //graceful')],
 'graceful shutdown while a message is being handled, with data of the peer still on its way',
 'graceful shutdown closes the receiving direction too, what the peer sends before closing its side is lost', r'''
//tcp
int main()
{
	service_pump sp; server_t server(sp); unsigned short port = free_port(); server.set_server_addr(port, "127.0.0.1");
	static std::atomic<int> got(0), closed(0); static std::atomic<bool> in(false);
	S::closing() = [](S*) {++closed;}; S::handling() = [](S* s, std::string& m) {if (0 == got++) {in = true; s->graceful_shutdown(); usleep(100000);} return true;};
	sp.start_service(3); usleep(100000); int fd = raw_connect(port); if (fd < 0) fail("not connected");
	char m[7] = {0, 7, 'h', 'e', 'l', 'l', 'o'}; send(fd, m, 7, MSG_NOSIGNAL); if (!wait_for([]() {return in.load();}, 5)) fail("nothing received");
	char b[10]; if (recv(fd, b, 10, 0) != 0) fail("the link was not shut down"); // the server has ended its direction
	for (int i = 0; i < 50; ++i) {send(fd, m, 7, MSG_NOSIGNAL); usleep(2000);} close(fd);
	if (!wait_for([]() {return closed == 1;}, 10)) fail("not closed"); if (got != 51) fail("%d of 51 messages received", (int) got);
	done();
}
''')
seed('shrink-small', 'C18', [('include/ext/ext.h', '''		else if (capacity < len)
			capacity = len;
		else if (0 == capacity)
			capacity = 16;''', '''		else if (0 == capacity)
			capacity = 16;
		else if (capacity < len)
			capacity = len;''')],
 'shrink_to_fit on a buffer which holds more than 16 bytes',
 'the memory becomes smaller than the contents, which are lost and overrun', r'''
#include "include/base.h"
#include "include/ext/ext.h"
using namespace st_asio_wrapper; using namespace st_asio_wrapper::ext;
int main()
{
	for (size_t n = 0; n < 100; ++n)
	{
		basic_buffer b; std::string s(n, 'q'); for (size_t i = 0; i < n; ++i) s[i] = char('a' + i % 26); b.append(s.data(), s.size()); b.append(s.data(), s.size()); b.erase(0, s.size()); b.shrink_to_fit();
		if (b.capacity() < b.size()) fail("capacity %d, size %d", (int) b.capacity(), (int) b.size()); if (b.size() != n || memcmp(b.data(), s.data(), n)) fail("contents");
	}
	done();
}
''')
seed('out-count', 'C19', [('include/container.h', 'for (; end_iter != ST_THIS end() && index++ < max_item_num; ++end_iter)\n				size += end_iter->size();', 'for (; end_iter != ST_THIS end() && index < max_item_num; ++end_iter, ++index)\n				size += end_iter->size();\n			if (index < max_item_num)\n				dest.clear(); //all items will be moved out')],
 'moving out more items than the queue holds into a container which is not empty',
 'items which were moved out before are lost', r'''
#include "include/base.h"
#include "include/container.h"
using namespace st_asio_wrapper;
int main()
{
	lock_queue<boost::container::list<std::string> > q; boost::container::list<std::string> c;
	for (int i = 0; i < 5; ++i) q.enqueue(std::string(1 + i, 'a')); q.move_items_out(c, 3); if (c.size() != 3 || q.size_in_byte() != 9) fail("3"); q.move_items_out(c, 2); if (c.size() != 5) fail("2");
	for (int i = 0; i < 2; ++i) q.enqueue(std::string(1 + i, 'b')); q.move_items_out(c, 10); if (c.size() != 7 || q.size_in_byte() != 0) fail("%d items instead of 7", (int) c.size());
	done();
}
''')
seed('error-quiet', 'C25', [('include/tcp/socket.h', '''			on_send_error(ec, sending_msgs);
			sending_msgs.clear(); //clear''', '''			if (!is_shutting_down()) //otherwise, errors are expected
				on_send_error(ec, sending_msgs);
			sending_msgs.clear(); //clear''')],
 'the link is shut down (or receiving fails first) while a batch is being written',
 'in-flight messages are not reported to on_send_error', r'''
//tcp
int main()
{
	service_pump sp; server_t server(sp); client_t client(sp); unsigned short port = free_port();
	int lf = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); int one = 1; setsockopt(lf, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); int sz = 8192; setsockopt(lf, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz);
	if (bind(lf, (sockaddr*) &a, sizeof a) || listen(lf, 5)) fail("listen");
	server.set_server_addr(free_port() + 1, "127.0.0.1"); static std::atomic<int> sent(0), failed(0), accepted(0); C::sent() = [](C*, std::string&) {++sent;}; C::send_failed() = [](C*, size_t n) {failed += n;};
	C::opening() = [](C* c) {c->set_reconnect(false); boost::system::error_code ec; c->lowest_layer().set_option(boost::asio::socket_base::send_buffer_size(8192), ec);};
	auto c = client.add_socket(port, "127.0.0.1"); sp.start_service(2); int fd = accept(lf, NULL, NULL); if (!wait_for([&]() {return c->up.load();}, 10)) fail("not connected");
	std::string m(ST_ASIO_MSG_BUFFER_SIZE - 10, 'x'); for (int i = 0; i < 400; ++i) if (c->send_msg(m.data(), m.size(), true)) ++accepted;
	usleep(400000); c->force_shutdown(false); usleep(300000); close(fd);
	if (!wait_for([&]() {return c->closed > 0;}, 10)) fail("not closed");
	size_t pending = c->get_pending_send_msg_size() / (m.size() + 2); if (sent + failed + (int) pending != accepted) fail("%d accepted, %d sent, %d failed, %d pending", (int) accepted, (int) sent, (int) failed, (int) pending);
	if (!failed) fail("nothing in flight");
	done();
}
''', flags='-DST_ASIO_WANT_MSG_SEND_NOTIFY')

seed('lost-wake', 'C05', [('include/tcp/socket.h', 'return send_buffer.is_empty() ? false : do_send_msg(); //send msg in sequence', 'return false; //send msg in sequence')],
 'a message enqueued by another thread between taking the (empty) send queue and clearing the sending flag',
 'the message stays in the send buffer until something else is sent', r'''
//tcp
int main()
{
	service_pump sp; server_t server(sp); client_t client(sp); unsigned short port = free_port(); server.set_server_addr(port, "127.0.0.1");
	static std::atomic<int> got(0); S::handling() = [](S*, std::string&) {++got; return true;};
	auto c = client.add_socket(port, "127.0.0.1"); sp.start_service(4); if (!wait_for([&]() {return c->up.load();}, 10)) fail("not connected");
	double e = now() + 60; int n = 0; unsigned x = 1;
	while (now() < e)
	{
		int k = 1 + (x = x * 1103515245 + 12345) / 65536 % 3;
		for (int i = 0; i < k; ++i) {c->send_msg("hello", 5, true); ++n; for (volatile unsigned j = (x = x * 1103515245 + 12345) / 65536 % 8000; j > 0; --j);}
		if (!wait_for([&]() {return c->get_pending_send_msg_size() == 0;}, 2)) fail("message %d stays in the send buffer", n);
	}
	if (!wait_for([&]() {return got == n;}, 5)) fail("%d of %d messages", (int) got, n); done();
}
''')
seed('sync-left', 'C17', [('include/socket.h', '''				size_in_byte = 0; //to re-calculate size_in_byte
				empty = temp_msg_can.empty();''', '''				empty = temp_msg_can.empty();
				if (empty) //otherwise, nothing has been consumed
					size_in_byte = 0;''')],
 'synchronous dispatch, the handler consumes some but not all messages of a batch',
 'the consumed messages still count as pending, so the pending size never returns to zero', r'''
//tcp
typedef st_asio_wrapper::tcp::server_socket_base<packer<>, unpacker<> > hsb;
struct HS : hsb
{
	HS(st_asio_wrapper::tcp::i_server& s) : hsb(s) {}
	static std::atomic<int>& got() {static std::atomic<int> n; return n;}
	virtual size_t on_msg(st_asio_wrapper::list<std::string>& can) {if (can.size() < 2) return 0; can.pop_front(); ++got(); return 1;}
	virtual bool on_msg_handle(std::string&) {++got(); return true;}
};
int main()
{
	service_pump sp; st_asio_wrapper::tcp::server_base<HS> server(sp); client_t client(sp); unsigned short port = free_port(); server.set_server_addr(port, "127.0.0.1");
	auto c = client.add_socket(port, "127.0.0.1"); for (int i = 0; i < 100; ++i) c->send_msg("hello", 5, true);
	sp.start_service(2); if (!wait_for([&]() {return HS::got() == 100;}, 20)) fail("%d of 100 messages handled", (int) HS::got());
	size_t left = 0; for (int i = 0; i < 100; ++i) {left = 0; server.do_something_to_all([&](boost::shared_ptr<HS>& s) {left += s->get_pending_recv_msg_size();}); if (0 == left) break; usleep(10000);}
	if (left > 0) fail("%d bytes pending", (int) left); done();
}
''', flags='-DNDEBUG -DST_ASIO_SYNC_DISPATCH')
seed('all-front', 'C24', [('include/tcp/socket.h', '''#if defined(ST_ASIO_WANT_MSG_SEND_NOTIFY) || !defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
				ST_THIS on_all_msg_send(sending_msgs.back());''', '''#if defined(ST_ASIO_WANT_MSG_SEND_NOTIFY) || !defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
				ST_THIS on_all_msg_send(sending_msgs.front());''')],
 'the send buffer is emptied by a batch of several messages, with on_all_msg_send but without on_msg_send',
 'on_all_msg_send gets the first message of the batch instead of the last one', r'''
//tcp
int main()
{
	service_pump sp; server_t server(sp); client_t client(sp); unsigned short port = free_port(); server.set_server_addr(port, "127.0.0.1");
	static std::mutex mu; static std::vector<std::string> all; C::all_sent() = [](C*, std::string& m) {std::lock_guard<std::mutex> l(mu); all.push_back(m.substr(2));};
	auto c = client.add_socket(port, "127.0.0.1"); for (int i = 0; i < 20; ++i) {std::string m = "message " + std::to_string(i); c->send_msg(m.data(), m.size(), true);}
	sp.start_service(2); if (!wait_for([]() {std::lock_guard<std::mutex> l(mu); return !all.empty();}, 10)) fail("no notification"); usleep(300000);
	std::lock_guard<std::mutex> l(mu); if (all.back() != "message 19") fail("last notification: %s", all.back().data()); done();
}
''', flags='-DST_ASIO_WANT_ALL_MSG_SEND_NOTIFY')
seed('dump-tail', 'C28', [('include/ext/unpacker.h', 'for (size_t i = 0; i < remain_len; ++i, ++data)', 'for (size_t i = 0; i + (remain_len > 24 && remain_len % 8 == 1) < remain_len; ++i, ++data)')],
 'dumping unparsed bytes whose last line would contain one byte only',
 'the last byte is not printed', r'''
#define DEMO_LOG
#include "include/base.h"
#include "include/ext/unpacker.h"
int main()
{
	for (size_t n = 1; n < 200; ++n)
	{
		std::string d; for (size_t i = 0; i < n; ++i) d += char(i * 7 + n); last_log().clear(); st_asio_wrapper::ext::unpacker_helper::dump_left_data(d.data(), 5, d.size());
		std::string s = last_log(), h, want; size_t p = s.find(":\n"); if (p == std::string::npos) fail("no output: %s", s.data());
		s = s.substr(p + 2); for (char c : s) if (isxdigit(c)) h += c; char b[3]; for (char c : d) {snprintf(b, 3, "%02x", (unsigned char) c); want += b;}
		if (h != want) fail("%d bytes: %s", (int) n, s.data());
	}
	done();
}
''')
seed('reuse-id', 'C09', [('include/object_pool.h', '			object_ptr->id(1 + cur_id.fetch_add(1, boost::memory_order_relaxed));', '			if (object_ptr->is_equal_to(-1)) object_ptr->id(1 + cur_id.fetch_add(1, boost::memory_order_relaxed));')],
 'object reusing: an object deleted from the pool is taken again by a later creation',
 'a reused object keeps its old id, so a holder of the old id reaches somebody else', r'''
//tcp
int main()
{
	service_pump sp; server_t server(sp); client_t client(sp); unsigned short port = free_port(); server.set_server_addr(port, "127.0.0.1"); sp.start_service(1);
	std::set<unsigned long long> ids;
	for (int i = 0; i < 4; ++i)
	{
		int before = 0; unsigned long long id = 0; {auto c = client.add_socket(port, "127.0.0.1"); if (!c) fail("no client"); id = c->id(); if (!ids.insert(id).second) fail("id %llu given again", id); if (!wait_for([&]() {return c->up.load();}, 10)) fail("not connected"); before = c->closed;
			c->post([c]() {c->force_shutdown();}); if (!wait_for([&]() {return c->closed > before && c->obsoleted();}, 10)) fail("not closed");}
		usleep(200000);
	}
	done();
}
''', flags='-DST_ASIO_REUSE_OBJECT')
seed('recon-zero', 'C10', [('include/tcp/client_socket.h', 'if (delay < 0)', 'if (delay <= 0)')],
 'prepare_reconnect returns zero (try again at once)',
 'the client gives up instead of trying again', r'''
//tcp
struct Z : C {template<typename A> Z(A& a) : C(a) {} virtual int prepare_reconnect(const boost::system::error_code&) {static int n; return ++n > 5 ? 0 : 20;}};
int main()
{
	service_pump sp; multi_client_base<Z> client(sp); unsigned short port = free_port();
	sp.start_service(2); auto c = client.add_socket(port, "127.0.0.1"); usleep(1500000);
	int l = ::socket(AF_INET, SOCK_STREAM, 0), on = 1; setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (::bind(l, (sockaddr*) &a, sizeof a) || ::listen(l, 5)) fail("listen");
	if (!wait_for([&]() {return c->up.load();}, 15)) fail("gave up"); done();
}
''', flags='-DST_ASIO_AVOID_AUTO_STOP_SERVICE')
seed('idle-context', 'C11', [('include/service_pump.h', '''#if BOOST_ASIO_VERSION > 101100
				(&iter->work)->~executor_work_guard();''', '''#if BOOST_ASIO_VERSION > 101100
				if (0 == iter->refs && iter != context_can.begin()) continue;
				(&iter->work)->~executor_work_guard();''')],
 'several contexts, the pump is started again while a context has no object',
 'that context runs out at once, whatever is assigned to it later never runs', r'''
#define ST_ASIO_AVOID_AUTO_STOP_SERVICE
//tcp
int main()
{
	service_pump sp; sp.set_io_context_num(3); client_t client(sp);
	for (int r = 0; r < 3; ++r)
	{
		sp.start_service(3); usleep(300000); static std::atomic<int> ran; ran = 0;
		std::vector<boost::asio::io_context*> cs; for (int i = 0; i < 3; ++i) {cs.push_back(&sp.assign_io_context()); boost::asio::post(*cs.back(), []() {++ran;});}
		bool ok = wait_for([]() {return 3 == ran;}, 5); for (auto c : cs) sp.return_io_context(*c);
		if (!ok) fail("round %d: %d of 3 contexts are running", r, (int) ran); sp.stop_service();
	}
	done();
}
''')
seed('timer-update', 'C12', [('include/timer.h', '		ti->interval_ms = interval;', '		if (!start || timer_info::TIMER_STARTED != ti->status) ti->interval_ms = interval;')],
 'set_timer for a timer which is running, with another interval',
 'the timer goes on with its old interval', r'''
//tcp
int main()
{
	service_pump sp; server_t server(sp); unsigned short port = free_port(); server.set_server_addr(port, "127.0.0.1"); sp.start_service(1);
	static std::atomic<int> n; static double t0; static std::atomic<bool> early(false);
	server.post([&server]() {server.set_timer(100, 100, [](size_t) {return ++n, true;});}); if (!wait_for([]() {return n >= 2;}, 5)) fail("not running");
	server.post([&server]() {t0 = now(); server.set_timer(100, 1500, [](size_t) {early = now() - t0 < 1.45; ++n; return false;});}); int was = n; if (!wait_for([&]() {return n > was;}, 8)) fail("never"); usleep(100000);
	if (early) fail("fired %.3f s after having been set to 1.5 s", now() - t0); done();
}
''', flags='-DST_ASIO_AVOID_AUTO_STOP_SERVICE')
seed('heart-quiet', 'C13', [('include/socket.h', 'if (now - stat.last_send_time >= interval && !is_sending())', 'if (now - stat.last_send_time >= interval && now - stat.last_recv_time >= interval && !is_sending())')],
 'a link on which this side only receives for long',
 'no heartbeat is sent as long as the peer sends something, so the peer takes this side for dead', r'''
#define ST_ASIO_HEARTBEAT_INTERVAL 2
#define ST_ASIO_HEARTBEAT_MAX_ABSENCE 3
//tcp
int main()
{
	service_pump sp; server_t server(sp); unsigned short port = free_port(); server.set_server_addr(port, "127.0.0.1"); sp.start_service(1); S::handling() = [](S*, std::string&) {return true;};
	packer<> p; std::string m; p.pack_msg(m, "hello", 5); int fd = raw_connect(port); if (fd < 0) fail("connect"); int beats = 0; double e = now() + 7;
	while (now() < e && beats < 2) {send(fd, m.data(), m.size(), 0); pollfd f = {fd, POLLIN, 0}; if (poll(&f, 1, 300) > 0) {char b[64]; int r = recv(fd, b, sizeof b, 0); if (r <= 0) fail("closed"); beats += r / 2;} else continue; usleep(200000);}
	if (beats < 2) fail("%d heartbeats in 7 seconds", beats); done();
}
''')
seed('sync-part', 'C15', [('include/tcp/socket.h', '''				if (iter->p)
					iter->p->set_value(NOT_APPLICABLE);
#endif
			on_send_error''', '''				if (iter->p)
					iter->p->set_value(bytes_transferred > 0 ? SUCCESS : NOT_APPLICABLE);
#endif
			on_send_error''')],
 'the link breaks while a synchronously sent message has been written partly',
 'the synchronous send returns success although the message was not handed to the kernel whole', r'''
#define ST_ASIO_SYNC_SEND
#define ST_ASIO_HUGE_MSG
#define ST_ASIO_MSG_BUFFER_SIZE 30000000
//tcp
int main()
{
	service_pump sp; server_t server(sp); unsigned short port = free_port(); server.set_server_addr(port, "127.0.0.1"); static std::atomic<S*> s(nullptr); S::opening() = [](S* x) {s = x;}; sp.start_service(2);
	int fd = ::socket(AF_INET, SOCK_STREAM, 0), small = 4096; setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &small, sizeof small); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (connect(fd, (sockaddr*) &a, sizeof a)) fail("connect"); if (!wait_for([]() {return s.load() && s.load()->up;}, 10)) fail("no link");
	static std::atomic<int> r(-1); static std::string big(20000000, 'x'); std::thread t([]() {r = s.load()->sync_send_msg(big.data(), big.size(), 0, true);});
	usleep(500000); if (r >= 0) fail("returned before"); linger lg = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); close(fd);
	if (!wait_for([]() {return r >= 0;}, 20)) fail("never returned"); if (SUCCESS == r) fail("success for a message which was sent partly"); t.join(); done();
}
''')
seed('udp-denied', 'C16', [('include/udp/socket.h', 'boost::asio::error::not_socket == ec ||', 'boost::asio::error::not_socket == ec || boost::asio::error::access_denied == ec ||')],
 'a datagram to a forbidden address (broadcast) with others queued behind it',
 'the datagrams behind stay in the send buffer until another one is sent', r'''
#include "include/ext/udp.h"
using namespace st_asio_wrapper; using namespace st_asio_wrapper::ext; using namespace st_asio_wrapper::udp; using namespace st_asio_wrapper::ext::udp;
typedef st_asio_wrapper::udp::socket_base<packer<>, udp_unpacker> base;
struct U : base
{
	template<typename A> U(A& a) : base(a), got(0) {} std::atomic<int> got;
	virtual bool on_msg_handle(out_msg_type&) {++got; return true;}
};
int main()
{
	service_pump sp; st_asio_wrapper::udp::multi_socket_service_base<U> us(sp); int p = 20000 + getpid() % 9000; auto a = us.create_object(); a->set_local_addr(p, "127.0.0.1"); us.add_socket(a, false); auto b = us.create_object(); b->set_local_addr(p + 1, "127.0.0.1"); us.add_socket(b, false);
	boost::asio::ip::udp::endpoint bad(boost::asio::ip::make_address("255.255.255.255"), 9), good(boost::asio::ip::make_address("127.0.0.1"), p + 1);
	for (int i = 0; i < 10; ++i) {a->safe_send_native_msg(good, "hello", 5, true); if (4 == i) a->safe_send_native_msg(bad, "bad", 3, true);}
	sp.start_service(1); if (!wait_for([&]() {return 10 == b->got;}, 10)) fail("%d of 10 datagrams", (int) b->got); done();
}
''')
seed('late-clear', 'C26', [('include/tcp/socket.h', '''		ST_THIS clear_reading(); //clear reading flag before calling handle_msg() to make sure that recv_msg() is available in on_msg() and on_msg_handle()
#endif
		if (bytes_transferred > 0)''', '''		if (!temp_msg_can.empty() || bytes_transferred < 100) ST_THIS clear_reading(); //clear reading flag before calling handle_msg() to make sure that recv_msg() is available in on_msg() and on_msg_handle()
#endif
		if (bytes_transferred > 0)'''), ('include/tcp/socket.h', '''			if (handle_msg() && !ec) //if macro ST_ASIO_PASSIVE_RECV been defined, handle_msg will always return false
				do_recv_msg(); //receive msg in sequence
''', '''			if (handle_msg() && !ec) //if macro ST_ASIO_PASSIVE_RECV been defined, handle_msg will always return false
				do_recv_msg(); //receive msg in sequence
#ifdef ST_ASIO_PASSIVE_RECV
			ST_THIS clear_reading();
#endif
''')],
 'passive receiving, the next read is requested from the handler of a read of 100 bytes or more',
 'the reading flag still is set then, the request is lost', r'''
#define ST_ASIO_PASSIVE_RECV
#define ST_ASIO_SYNC_DISPATCH
//tcp
struct P : S {template<typename A> P(A& a) : S(a) {} static std::atomic<int>& n() {static std::atomic<int> x; return x;}
	virtual size_t on_msg(st_asio_wrapper::list<out_msg_type>& l) {n() += (int) l.size(); size_t r = l.size(); l.clear(); recv_msg(); return r > 0 ? r : 1;}};
int main()
{
	service_pump sp; st_asio_wrapper::tcp::server_base<P> server(sp); unsigned short port = free_port(); server.set_server_addr(port, "127.0.0.1"); sp.start_service(1);
	int fd = raw_connect(port); if (fd < 0) fail("connect"); packer<> p; for (int i = 0; i < 30; ++i) {std::string m, b(i % 3 ? 10 : 500, 'x'); p.pack_msg(m, b.data(), b.size()); send(fd, m.data(), m.size(), 0); usleep(20000);}
	if (!wait_for([]() {return 30 == P::n();}, 10)) fail("%d of 30 messages", (int) P::n()); done();
}
''')
seed('long-domain', 'C21', [('include/tcp/proxy/socks.h', 'buff[4] = (char) std::min<size_t>(target_domain.size(), sizeof(buff) - 7);', 'buff[4] = (char) std::min<size_t>(target_domain.size(), sizeof(buff) / 2);')],
 'a target given as a domain name of more than 131 characters',
 'the domain in the socks5 request is truncated, the proxy connects to something else', r'''
//tcp
typedef obs<st_asio_wrapper::tcp::proxy::socks5::client_socket_base<packer<>, unpacker<> > > Q;
int main()
{
	service_pump sp; multi_client_base<Q> client(sp); int ls = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); ::bind(ls, (sockaddr*) &a, sizeof a); ::listen(ls, 4); socklen_t l = sizeof a; getsockname(ls, (sockaddr*) &a, &l);
	std::string d(200, 'd'); d += ".example"; auto c = client.create_object(); c->set_server_addr(ntohs(a.sin_port), "127.0.0.1"); if (!c->set_target_addr(1234, d)) fail("refused"); client.add_socket(c, false); sp.start_service(1);
	int fd = accept(ls, 0, 0); unsigned char b[600]; if (3 != recv(fd, b, 3, MSG_WAITALL)) fail("method"); send(fd, "\5\0", 2, 0); timeval t = {3, 0}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t);
	int n = recv(fd, b, 7 + d.size(), MSG_WAITALL); if (n != (int) (7 + d.size()) || b[4] != d.size() || d != std::string((char*) b + 5, d.size())) fail("%d bytes, domain of %d", n, b[4]); done();
}
''')
seed('full-stop', 'C27', [('include/tcp/server.h', 'virtual void start_next_accept() {boost::lock_guard<boost::mutex> lock(mutex); do_async_accept(create_object());}', 'virtual void start_next_accept() {boost::lock_guard<boost::mutex> lock(mutex); if (ST_THIS size() < ST_THIS max_size() || !is_listening()) do_async_accept(create_object());}')],
 'the server is full while as many clients as there are pre-created acceptances come, then some leave',
 'each connection accepted while the server is full takes away an acceptance, in the end nobody is accepted or refused any more', r'''
#define ST_ASIO_MAX_OBJECT_NUM 4
#define ST_ASIO_ASYNC_ACCEPT_NUM 3
//tcp
int main()
{
	service_pump sp; server_t server(sp); unsigned short port = free_port(); server.set_server_addr(port, "127.0.0.1"); sp.start_service(1); int fd[4];
	for (int i = 0; i < 4; ++i) fd[i] = raw_connect(port); if (!wait_for([&]() {return 4 == server.size();}, 5)) fail("not full");
	for (int i = 0; i < 6; ++i) {int x = raw_connect(port); char c; timeval t = {5, 0}; setsockopt(x, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t); int r = recv(x, &c, 1, 0); if (r < 0 && (EAGAIN == errno || EWOULDBLOCK == errno)) fail("client %d is neither served nor refused", 4 + i); close(x);}
	for (int i = 0; i < 4; ++i) close(fd[i]); if (!wait_for([&]() {return 0 == server.size();}, 8)) fail("still there");
	int x = raw_connect(port); if (x < 0 || !wait_for([&]() {return 1 == server.size();}, 5)) fail("not accepted"); done();
}
''')
