// observable TCP endpoints
#ifndef PACKER
#define PACKER packer<>
#define UNPACKER unpacker<>
#endif
#include "include/ext/tcp.h"
using namespace st_asio_wrapper; using namespace st_asio_wrapper::ext; using namespace st_asio_wrapper::tcp; using namespace st_asio_wrapper::ext::tcp;
template<typename B> struct obs : B
{
	template<typename A> obs(A& a) : B(a), up(false), opened(0), closed(0), id_(0) {}
	typedef typename B::in_msg_type in_t; typedef typename B::out_msg_type out_t;
	std::atomic<bool> up; std::atomic<int> opened, closed; int id_;
	static std::function<void(obs*)>& opening() {static std::function<void(obs*)> f; return f;}
	static std::function<void(obs*)>& closing() {static std::function<void(obs*)> f; return f;}
	static std::function<bool(obs*, out_t&)>& handling() {static std::function<bool(obs*, out_t&)> f; return f;}
	static std::function<void(obs*, in_t&)>& sent() {static std::function<void(obs*, in_t&)> f; return f;}
	static std::function<void(obs*, in_t&)>& all_sent() {static std::function<void(obs*, in_t&)> f; return f;}
	static std::function<void(obs*, size_t)>& send_failed() {static std::function<void(obs*, size_t)> f; return f;}
	virtual void on_connect() {B::on_connect(); ++opened; up = true; if (opening()) opening()(this);}
	virtual void on_close() {up = false; ++closed; if (closing()) closing()(this); B::on_close();}
#ifndef ST_ASIO_DISPATCH_BATCH_MSG
	virtual bool on_msg_handle(out_t& m) {return handling() ? handling()(this, m) : true;}
#endif
	virtual void on_send_error(const boost::system::error_code& ec, typename B::in_container_type& c) {if (send_failed()) send_failed()(this, c.size());}
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	virtual void on_msg_send(in_t& m) {if (sent()) sent()(this, m);}
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	virtual void on_all_msg_send(in_t& m) {if (all_sent()) all_sent()(this, m);}
#endif
};
typedef obs<server_socket_base<PACKER, UNPACKER> > S;
typedef obs<client_socket_base<PACKER, UNPACKER> > C;
typedef server_base<S> server_t; typedef multi_client_base<C> client_t;
