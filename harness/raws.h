// A plain socket peer: it reads and records the messages of every link, sends what it is told to, stalls and cuts links.
#ifndef VH_RAWS_H_
#define VH_RAWS_H_
#include "world.h"
#include <arpa/inet.h>
#include <poll.h>
#include <netinet/tcp.h>
namespace rig
{
struct Conn
{
	int fd; unsigned port; int index; S in, out; std::vector<std::pair<u32, u32> > got; S error; bool eof, cut, stalled; size_t bytes; double since; double last_frame, max_gap; long beats; // frames and heartbeats received
	Conn(int f, unsigned p, int i) : fd(f), port(p), index(i), eof(false), cut(false), stalled(false), bytes(0), since(vh::now()), last_frame(0), max_gap(0), beats(0) {}
};
struct RawServer
{
	std::mutex mu; std::vector<std::unique_ptr<Conn> > conns; int lfd; unsigned short port; std::atomic<bool> halt, drop_new; std::thread th; int rcvbuf;
	std::function<void(Conn&)> on_accept; // under mu
	RawServer(unsigned short p) : lfd(-1), port(p), halt(false), drop_new(false), rcvbuf(0) {th = std::thread([this]() {run();});}
	~RawServer() {halt = true; th.join(); for (auto& c : conns) if (c->fd >= 0) ::close(c->fd); if (lfd >= 0) ::close(lfd);}
	bool up()
	{
		std::lock_guard<std::mutex> l(mu); if (lfd >= 0) return true;
		int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0); int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
		struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		for (int i = 0; i < 100; ++i) if (0 == ::bind(fd, (struct sockaddr*) &a, sizeof a) && 0 == ::listen(fd, 64)) {lfd = fd; return true;} else usleep(20000);
		::close(fd); return false;
	}
	void down() {std::lock_guard<std::mutex> l(mu); if (lfd >= 0) ::close(lfd); lfd = -1;}
	static void rst(int fd) {struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(fd);}
	// kind: 0 close, 1 reset, 2 end of the sending direction, 3 garbage
	void cut(Conn& c, int kind, const S& tail)
	{
		if (c.fd < 0) return; if (3 != kind) c.out += tail; flush(c); c.cut = true;
		if (3 == kind) {c.out += S("\0\1xxxxxxxx", 10); flush(c); return;}
		if (2 == kind) {for (int i = 0; i < 2000 && !c.out.empty() && c.fd >= 0; ++i) {usleep(100); flush(c);} if (c.fd >= 0) ::shutdown(c.fd, SHUT_WR); return;}
		if (1 == kind) rst(c.fd); else ::close(c.fd); c.fd = -1; c.eof = true;
	}
	void flush(Conn& c) {while (c.fd >= 0 && !c.out.empty()) {ssize_t n = ::send(c.fd, c.out.data(), c.out.size(), MSG_NOSIGNAL | MSG_DONTWAIT); if (n <= 0) {if (errno != EAGAIN) c.out.clear(); break;} c.out.erase(0, n);}}
	void read(Conn& c)
	{
		char b[20000]; ssize_t n = ::recv(c.fd, b, sizeof b, MSG_DONTWAIT);
		if (n < 0 && (EAGAIN == errno || EINTR == errno)) return;
		if (n <= 0) {c.eof = true; ::close(c.fd); c.fd = -1; return;}
		c.bytes += n; c.in.append(b, n); tick();
		while (c.in.size() >= ST_ASIO_HEAD_LEN)
		{
			size_t len = ST_ASIO_HEAD_N2H(*(const ST_ASIO_HEAD_TYPE*) c.in.data()); if (len < ST_ASIO_HEAD_LEN || len > ST_ASIO_MSG_BUFFER_SIZE) {if (c.error.empty()) c.error = fmt("frame of length %zu at message %zu", len, c.got.size()); c.in.clear(); return;}
			if (c.in.size() < len) return; u32 f = 0, q = 0; double now = vh::now(); c.max_gap = std::max(c.max_gap, now - (c.last_frame > 0 ? c.last_frame : c.since)); c.last_frame = now; if (ST_ASIO_HEAD_LEN == len) ++c.beats;
			if (len > ST_ASIO_HEAD_LEN) {const char* e = parse(c.in.data() + ST_ASIO_HEAD_LEN, len - ST_ASIO_HEAD_LEN, f, q); if (e) {if (c.error.empty()) c.error = fmt("message %zu: %s", c.got.size(), e);} else c.got.push_back(std::make_pair(f, q));}
			c.in.erase(0, len);
		}
	}
	void run()
	{
		while (!halt)
		{
			std::vector<struct pollfd> p; std::vector<Conn*> w;
			{
				std::lock_guard<std::mutex> l(mu); if (lfd >= 0) {p.push_back({lfd, POLLIN, 0}); w.push_back(NULL);}
				for (auto& c : conns) if (c->fd >= 0) {flush(*c); if (!c->stalled) {p.push_back({c->fd, POLLIN, 0}); w.push_back(c.get());}}
			}
			::poll(p.data(), p.size(), 2);
			std::lock_guard<std::mutex> l(mu);
			for (size_t i = 0; i < p.size(); ++i)
				if (p[i].revents)
				{
					if (w[i]) {if (w[i]->fd == p[i].fd) read(*w[i]); continue;}
					if (lfd != p[i].fd) continue; struct sockaddr_in a; socklen_t n = sizeof a; int fd = ::accept4(lfd, (struct sockaddr*) &a, &n, SOCK_CLOEXEC | SOCK_NONBLOCK); if (fd < 0) continue;
					conns.emplace_back(new Conn(fd, ntohs(a.sin_port), (int) conns.size())); tick(); Conn& c = *conns.back();
					if (drop_new) {cut(c, 1 & (int) vh::prnd(), S()); continue;}
					if (on_accept) on_accept(c);
				}
		}
	}
	Conn* adopt(int fd, unsigned p) {std::lock_guard<std::mutex> l(mu); conns.emplace_back(new Conn(fd, p, (int) conns.size())); return conns.back().get();} // a connection made by ourselves
	size_t open_ones() {std::lock_guard<std::mutex> l(mu); size_t n = 0; for (auto& c : conns) if (!c->eof) ++n; return n;}
	bool has(unsigned p) {std::lock_guard<std::mutex> l(mu); for (auto& c : conns) if (p == c->port) return true; return false;} // has accepted the one from this port
	size_t count() {std::lock_guard<std::mutex> l(mu); return conns.size();}
};
} // namespace rig
#endif
