From 380283c7f0d58a962aff2af17c53fc2c609f855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 01/33] fix: prefix_suffix_unpacker must report invalid data
 which follows valid messages

Otherwise the next completion_condition returns 0 before any read, so the read
completes with 0 byte and no error, receiving then stops silently (or asserts)
without on_unpack_error.
---
 include/ext/unpacker.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ext/unpacker.h b/include/ext/unpacker.h
index d8163cd..ede9243 100644
--- a/include/ext/unpacker.h
+++ b/include/ext/unpacker.h
@@ -672,7 +672,8 @@ public:
 
 		const char* pnext = raw_buff.begin();
 		size_t min_len = _prefix.size() + _suffix.size();
-		while (0 == peek_msg(remain_len, pnext) && (size_t) -1 != cur_msg_len && 0 != cur_msg_len)
+		size_t hint = 0;
+		while (0 == (hint = peek_msg(remain_len, pnext)) && (size_t) -1 != cur_msg_len && 0 != cur_msg_len)
 		{
 			assert(cur_msg_len >= min_len);
 			if (cur_msg_len > min_len) //exclude heartbeat
@@ -692,7 +693,7 @@ public:
 		else if (remain_len > 0)
 			memmove(raw_buff.begin(), pnext, remain_len); //left behind unparsed msg
 
-		return true;
+		return 0 != hint; //0 means invalid data follows the last msg, without reporting it now, the next read would complete with 0 byte forever.
 	}
 
 	//a return value of 0 indicates that the read operation is complete. a non-zero value indicates the maximum number
-- 
2.43.0


From e2ddde7be75ce243e23e01247cd73081b44d5c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 02/33] fix: packer's container overloads must refuse messages
 which exceed the header's range

With ST_ASIO_MSG_BUFFER_SIZE > 65535 and without ST_ASIO_HUGE_MSG, they truncated
the length in the header (the pointer based overload refuses such messages).
---
 include/ext/packer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ext/packer.h b/include/ext/packer.h
index 969e1cc..8e7ca09 100644
--- a/include/ext/packer.h
+++ b/include/ext/packer.h
@@ -64,7 +64,9 @@ private:
 	typedef i_packer<T> super;
 
 public:
-	static size_t get_max_msg_size() {return ST_ASIO_MSG_BUFFER_SIZE - ST_ASIO_HEAD_LEN;}
+	//the header must be able to represent the total length too
+	static size_t get_max_msg_size()
+		{return ((size_t) ST_ASIO_MSG_BUFFER_SIZE > (size_t) (ST_ASIO_HEAD_TYPE) -1 ? (size_t) (ST_ASIO_HEAD_TYPE) -1 : (size_t) ST_ASIO_MSG_BUFFER_SIZE) - ST_ASIO_HEAD_LEN;}
 
 	packer() {ST_ASIO_HEAD_TYPE head_len = packer_helper::pack_header(0); heartbeat.assign((const char*) &head_len, ST_ASIO_HEAD_LEN);}
 
-- 
2.43.0


From 269bbad862c51fd69c19b7320e1f924cf040069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:17 +0000
Subject: [PATCH 03/33] fix: basic_buffer(other, pos, len) must copy the
 requested part of other

It appended other.size() + pos copies of the character (char) len.
---
 include/ext/ext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ext/ext.h b/include/ext/ext.h
index 4707bf4..b139116 100644
--- a/include/ext/ext.h
+++ b/include/ext/ext.h
@@ -88,7 +88,7 @@ public:
 	{
 		do_detach();
 		if (pos < other.size())
-			append(boost::next(other.size(), pos), pos + len > other.size() ? other.size() - pos : len);
+			append(boost::next(other.data(), pos), len > other.size() - pos ? other.size() - pos : len);
 	}
 
 	inline basic_buffer& operator=(char c) {resize(0); return operator+=(c);}
-- 
2.43.0


From 648bac3fc572bfddbd4fa014517f8cd3ec6ecb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:17 +0000
Subject: [PATCH 04/33] fix: basic_buffer must survive self assignment and self
 appending

Self assignment emptied the buffer, and appending (part of) itself read freed memory
if the appending needed more capacity.
---
 include/ext/ext.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ext/ext.h b/include/ext/ext.h
index b139116..a6422e1 100644
--- a/include/ext/ext.h
+++ b/include/ext/ext.h
@@ -94,7 +94,7 @@ public:
 	inline basic_buffer& operator=(char c) {resize(0); return operator+=(c);}
 	inline basic_buffer& operator=(char* buff) {resize(0); return operator+=(buff);}
 	inline basic_buffer& operator=(const char* buff) {resize(0); return operator+=(buff);}
-	inline basic_buffer& operator=(const basic_buffer& other) {resize(0); return operator+=(other);}
+	inline basic_buffer& operator=(const basic_buffer& other) {if (this != &other) {resize(0); operator+=(other);} return *this;}
 	template<typename Buff> inline basic_buffer& operator=(const Buff& other) {resize(0); return operator+=(other);}
 
 	inline basic_buffer& operator+=(char c) {return append(c);}
@@ -131,7 +131,13 @@ public:
 
 			size_t capacity = len + _len;
 			if (capacity > cap)
+			{
+				bool in_me = NULL != buff && !std::less<const char*>()(_buff, buff) && std::less<const char*>()(_buff, boost::next(buff, len));
+				size_t pos = in_me ? _buff - buff : 0;
 				reserve(capacity);
+				if (in_me) //appending (part of) myself, the old memory has gone
+					_buff = boost::next(buff, pos);
+			}
 
 			memcpy(boost::next(buff, len), _buff, _len);
 			len += (unsigned) _len;
-- 
2.43.0


From ea362e40d27a4514e0a37163977f8dc1ef07dde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:17 +0000
Subject: [PATCH 05/33] fix: basic_buffer::append2(buff) must drop the trailing
 '\0' before appending, as documented

---
 include/ext/ext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ext/ext.h b/include/ext/ext.h
index a6422e1..d337b41 100644
--- a/include/ext/ext.h
+++ b/include/ext/ext.h
@@ -166,7 +166,7 @@ public:
 		printf("%zu\n", bb.size()); //the final length of bb is 13, just include the last '\0' character, all middle '\0' characters have been deleted.
 	*/
 	//by the way, deleting the last character which is not '\0' before appending another string is very efficient, please use it freely.
-	basic_buffer& append2(const char* buff) {return append(buff, strlen(buff) + 1);} //include the '\0' character
+	basic_buffer& append2(const char* buff) {return append2(buff, strlen(buff) + 1);} //include the '\0' character
 	basic_buffer& append2(const char* _buff, size_t _len)
 	{
 		if (len > 0 && '\0' == *boost::next(buff, len - 1))
-- 
2.43.0


From 2450544d7eac66fe00fa4b603c147e6e27c39b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:17 +0000
Subject: [PATCH 06/33] fix: obj_with_begin_time's moving assignment must
 return a value

---
 include/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/base.h b/include/base.h
index c6dbbd0..d595310 100644
--- a/include/base.h
+++ b/include/base.h
@@ -551,7 +551,7 @@ template<typename T> struct obj_with_begin_time : public T
 	obj_with_begin_time(const obj_with_begin_time& other) : T(other), begin_time(other.begin_time) {}
 	obj_with_begin_time(obj_with_begin_time& other) {swap(other);} //after this call, other becomes empty, please note.
 	obj_with_begin_time& operator=(const obj_with_begin_time& other) {T::operator=(other); begin_time = other.begin_time; return *this;}
-	obj_with_begin_time& operator=(obj_with_begin_time& other) {clear(); swap(other);} //after this call, other becomes empty, please note.
+	obj_with_begin_time& operator=(obj_with_begin_time& other) {clear(); swap(other); return *this;} //after this call, other becomes empty, please note.
 
 	void restart() {restart(statistic::now());}
 	void restart(const typename statistic::stat_time& begin_time_) {begin_time = begin_time_;}
-- 
2.43.0


From 458ebf8310efb37faeb23d6154843d1178bde1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:21 +0000
Subject: [PATCH 07/33] fix: a timer's call_back could be destroyed or its
 status overwritten while it was being called

A call_back which makes other threads set the same timer again (TIMER_CHECK_RECV resumes the receiving, which can
suspend again at once), or which changes itself (TIMER_ASYNC_SHUTDOWN), destroyed the functor being executed, and
the status set by the new start_timer could be overwritten by the ending call_back, then the timer never fired.
---
 include/timer.h | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/timer.h b/include/timer.h
index 65957c7..fd63b6b 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -61,7 +61,7 @@ public:
 		timer_status status;
 		unsigned interval_ms;
 		timer_type timer;
-		boost::function<bool (tid)> call_back; //return true from call_back to continue the timer, or the timer will stop
+		boost::shared_ptr<boost::function<bool (tid)> > call_back; //return true from call_back to continue the timer, or the timer will stop
 
 		timer_info(tid id_, boost::asio::io_context& io_context_) : id(id_), seq(-1), status(TIMER_CREATED), interval_ms(0), timer(io_context_) {}
 		bool operator ==(const timer_info& other) {return id == other.id;}
@@ -109,7 +109,7 @@ public:
 		assert(NULL != ti);
 
 		ti->interval_ms = interval;
-		ti->call_back.swap(call_back);
+		change_call_back(*ti, call_back);
 
 		if (start)
 			start_timer(*ti);
@@ -123,7 +123,7 @@ public:
 	bool change_timer_interval(tid id, unsigned interval) {BOOST_AUTO(ti, find_timer(id)); return NULL != ti ? ti->interval_ms = interval, true : false;}
 
 	//after this call, call_back cannot be used again, please note.
-	bool change_timer_call_back(tid id, boost::function<bool(tid)>& call_back) {BOOST_AUTO(ti, find_timer(id)); return NULL != ti ? ti->call_back.swap(call_back), true : false;}
+	bool change_timer_call_back(tid id, boost::function<bool(tid)>& call_back) {BOOST_AUTO(ti, find_timer(id)); return NULL != ti ? change_call_back(*ti, call_back), true : false;}
 	bool change_timer_call_back(tid id, const boost::function<bool(tid)>& call_back) {BOOST_AUTO(unused, call_back); return change_timer_call_back(id, unused);}
 
 	//after this call, call_back cannot be used again, please note.
@@ -156,10 +156,14 @@ public:
 protected:
 	bool start_timer(timer_info& ti, unsigned interval_ms)
 	{
-		if (!ti.call_back)
+		boost::unique_lock<boost::mutex> lock(timer_info_mutex);
+		if (!ti.call_back || !*ti.call_back)
 			return false;
 
 		ti.status = timer_info::TIMER_STARTED;
+		unsigned char seq = ++ti.seq;
+		lock.unlock();
+
 #if BOOST_ASIO_VERSION >= 101100
 		ti.timer.expires_after(milliseconds(interval_ms));
 #else
@@ -167,18 +171,25 @@ protected:
 #endif
 
 		//if timer already started, this will cancel it first
-		ti.timer.async_wait(ST_THIS make_handler_error(boost::bind(&timer::timer_handler, this, boost::asio::placeholders::error, boost::ref(ti), ++ti.seq)));
+		ti.timer.async_wait(ST_THIS make_handler_error(boost::bind(&timer::timer_handler, this, boost::asio::placeholders::error, boost::ref(ti), seq)));
 		return true;
 	}
 	bool start_timer(timer_info& ti) {return start_timer(ti, ti.interval_ms);}
 
 	void timer_handler(const boost::system::error_code& ec, timer_info& ti, unsigned char prev_seq)
 	{
+		//call_back can be replaced while it's been called (by itself, or by other threads which triggered by it), so keep it alive.
+		boost::shared_ptr<boost::function<bool (tid)> > call_back;
+		{
+			boost::lock_guard<boost::mutex> lock(timer_info_mutex);
+			call_back = ti.call_back;
+		}
+
 		//the first 'timer_info::TIMER_STARTED == ti.status' judgement means stop_timer can also invalidate cumulative timer callbacks
 		//the second 'timer_info::TIMER_STARTED == ti.status' judgement is used to exclude a particular situation--stop the same timer in call_back and return true
 #ifdef ST_ASIO_ALIGNED_TIMER
 		BOOST_AUTO(begin_time, boost::chrono::system_clock::now());
-		if (timer_info::TIMER_STARTED == ti.status && !ec && ti.call_back(ti.id) && timer_info::TIMER_STARTED == ti.status)
+		if (timer_info::TIMER_STARTED == ti.status && !ec && (*call_back)(ti.id) && timer_info::TIMER_STARTED == ti.status)
 		{
 			unsigned elapsed_ms = (unsigned) boost::chrono::duration_cast<boost::chrono::milliseconds>(boost::chrono::system_clock::now() - begin_time).count();
 			if (elapsed_ms > ti.interval_ms)
@@ -187,11 +198,16 @@ protected:
 			start_timer(ti, ti.interval_ms - elapsed_ms);
 		}
 #else
-		if (timer_info::TIMER_STARTED == ti.status && !ec && ti.call_back(ti.id) && timer_info::TIMER_STARTED == ti.status)
+		if (timer_info::TIMER_STARTED == ti.status && !ec && (*call_back)(ti.id) && timer_info::TIMER_STARTED == ti.status)
 			start_timer(ti);
 #endif
-		else if (prev_seq == ti.seq) //exclude a particular situation--start the same timer in call_back and return false
-			ti.status = timer_info::TIMER_CANCELED;
+		else
+		{
+			//start_timer can be called in other threads which triggered by call_back, so the judgement and the modification must be atomic
+			boost::lock_guard<boost::mutex> lock(timer_info_mutex);
+			if (prev_seq == ti.seq) //exclude a particular situation--start the same timer in call_back and return false
+				ti.status = timer_info::TIMER_CANCELED;
+		}
 	}
 
 	void stop_timer(timer_info& ti)
@@ -208,10 +224,21 @@ protected:
 	virtual void attach_io_context(boost::asio::io_context& io_context_, unsigned refs) {}
 	virtual void detach_io_context(boost::asio::io_context& io_context_, unsigned refs) {}
 
+private:
+	void change_call_back(timer_info& ti, boost::function<bool (tid)>& call_back)
+	{
+		BOOST_AUTO(unused, boost::make_shared<boost::function<bool (tid)> >());
+		unused->swap(call_back);
+
+		boost::lock_guard<boost::mutex> lock(timer_info_mutex);
+		ti.call_back.swap(unused);
+	}
+
 private:
 	typedef boost::container::list<timer_info> container_type;
 	container_type timer_can;
 	boost::mutex timer_can_mutex;
+	boost::mutex timer_info_mutex; //for timer_info's call_back, seq and status
 
 	using Executor::io_context_;
 	unsigned io_context_refs;
-- 
2.43.0


From e9bf98c57d202518ea763dfde8e141807b201c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 08/33] fix: a link accepted while the server is being stopped
 must be closed, otherwise stopping never ends

---
 include/tcp/server.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tcp/server.h b/include/tcp/server.h
index 141d288..5f4165f 100644
--- a/include/tcp/server.h
+++ b/include/tcp/server.h
@@ -252,8 +252,8 @@ private:
 	{
 		if (!ec)
 		{
-			if (on_accept(socket_ptr))
-				add_socket(socket_ptr);
+			if (on_accept(socket_ptr) && add_socket(socket_ptr) && !is_listening())
+				socket_ptr->force_shutdown(); //stopped meanwhile, uninit() maybe has missed this link
 
 			if (is_listening())
 				start_next_accept();
-- 
2.43.0


From adff8a9dffb83811a089b951b025d5fc0c38943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 09/33] fix: a broken client link must not restore the
 reconnecting flag which has just been cleared, otherwise stopping never ends

---
 include/tcp/client_socket.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tcp/client_socket.h b/include/tcp/client_socket.h
index 643a33d..05998c5 100644
--- a/include/tcp/client_socket.h
+++ b/include/tcp/client_socket.h
@@ -148,10 +148,10 @@ protected:
 	//after how much time (ms), generic_client_socket will try to reconnect the server, negative value means give up.
 	virtual int prepare_reconnect(const boost::system::error_code& ec) {return ST_ASIO_RECONNECT_INTERVAL;}
 	virtual void on_connect() {unified_out::info_out(ST_ASIO_LLF " connecting success.", ST_THIS id());}
-	virtual void on_unpack_error() {unified_out::info_out(ST_ASIO_LLF " can not unpack msg.", ST_THIS id()); ST_THIS unpacker()->dump_left_data(); force_shutdown(need_reconnect);}
-	virtual void on_recv_error(const boost::system::error_code& ec) {ST_THIS show_info(ec, "client link:", "broken/been shut down"); force_shutdown(need_reconnect);}
-	virtual void on_async_shutdown_error() {force_shutdown(need_reconnect);}
-	virtual bool on_heartbeat_error() {ST_THIS show_info("client link:", "broke unexpectedly."); force_shutdown(need_reconnect); return false;}
+	virtual void on_unpack_error() {unified_out::info_out(ST_ASIO_LLF " can not unpack msg.", ST_THIS id()); ST_THIS unpacker()->dump_left_data(); super::force_shutdown();}
+	virtual void on_recv_error(const boost::system::error_code& ec) {ST_THIS show_info(ec, "client link:", "broken/been shut down"); super::force_shutdown();}
+	virtual void on_async_shutdown_error() {super::force_shutdown();}
+	virtual bool on_heartbeat_error() {ST_THIS show_info("client link:", "broke unexpectedly."); super::force_shutdown(); return false;}
 
 	virtual void on_close()
 	{
-- 
2.43.0


From ea9657ac647cb9c603d9e8ed72c3d2c9e5d1750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:40 +0000
Subject: [PATCH 10/33] fix: release the io_contexts only after all services
 have been stopped, otherwise a link accepted meanwhile is never closed

---
 include/service_pump.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index 59b0ddf..a4dcafb 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -312,11 +312,12 @@ public:
 	{
 		if (is_service_started())
 		{
+			do_something_to_all(boost::mem_fn(&i_service::stop_service));
 #ifdef ST_ASIO_AVOID_AUTO_STOP_SERVICE
+			//after all services have been stopped, otherwise, an io_context can run out while another one still start links on it
 			for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
 				iter->work.reset();
 #endif
-			do_something_to_all(boost::mem_fn(&i_service::stop_service));
 		}
 	}
 
-- 
2.43.0


From 7f245a9803b56a4d2cf3257c479a169c0169b722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:39 +0000
Subject: [PATCH 11/33] fix: do not shut down an accepted link which could not
 be started because the io_context has run out

---
 include/tcp/server.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tcp/server.h b/include/tcp/server.h
index 5f4165f..84a6462 100644
--- a/include/tcp/server.h
+++ b/include/tcp/server.h
@@ -252,7 +252,7 @@ private:
 	{
 		if (!ec)
 		{
-			if (on_accept(socket_ptr) && add_socket(socket_ptr) && !is_listening())
+			if (on_accept(socket_ptr) && add_socket(socket_ptr) && !is_listening() && socket_ptr->started())
 				socket_ptr->force_shutdown(); //stopped meanwhile, uninit() maybe has missed this link
 
 			if (is_listening())
-- 
2.43.0


From 91e0efaafc3373651c0cf3aebadc208854e4d3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:50 +0000
Subject: [PATCH 12/33] fix: do not start a writing on a link which is shutting
 down, it may never complete, then neither does the closing

---
 include/tcp/socket.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index 6452f5f..47794c5 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -383,8 +383,13 @@ private:
 
 	virtual bool do_send_msg(bool in_strand = false)
 	{
-		if (!in_strand && ST_THIS test_and_set_sending())
-			return true;
+		if (!in_strand)
+		{
+			if (!is_connected()) //the link began to shut down after send_msg() had queued this call, a new writing may never complete then
+				return false;
+			else if (ST_THIS test_and_set_sending())
+				return true;
+		}
 
 		BOOST_AUTO(end_time, statistic::now());
 		send_buffer.move_items_out(ST_THIS batch_msg_send_size(), sending_msgs);
-- 
2.43.0


From 3428f87272c4d9631579a637cbe8da1a0ecf342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:44 +0000
Subject: [PATCH 13/33] fix: object_pool::finalize must not clear the objects
 while other threads are iterating them

---
 include/object_pool.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/object_pool.h b/include/object_pool.h
index 25b7a84..2afb505 100644
--- a/include/object_pool.h
+++ b/include/object_pool.h
@@ -111,7 +111,14 @@ protected:
 	}
 
 	//from i_service
-	virtual void finalize() {object_can.clear();}
+	virtual void finalize()
+	{
+		container_type objects; //free them after the lock been released
+
+		boost::lock_guard<ST_ASIO_SHARED_MUTEX_TYPE> lock(object_can_mutex);
+		objects = object_can;
+		object_can.clear();
+	}
 
 	//you can do some statistic about object creations at here
 	virtual void on_create(object_ctype& object_ptr) {}
-- 
2.43.0


From 64baca52bc227d7fdb53ca30e2d87e15b19ea9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:24 +0000
Subject: [PATCH 14/33] fix: start() must not succeed while the closing
 procedure is running, otherwise the latter cancels the former's timers

---
 include/socket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/socket.h b/include/socket.h
index 7cb1e52..8938c80 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -152,7 +152,7 @@ public:
 		if (!started_ && !is_timer(TIMER_DELAY_CLOSE) && !stopped())
 		{
 			scope_atomic_lock lock(start_atomic);
-			if (!started_ && lock.locked())
+			if (!started_ && lock.locked() && !is_timer(TIMER_DELAY_CLOSE)) //close() may have begun since the first checking
 				started_ = do_start();
 			else
 				unified_out::error_out(ST_ASIO_LLF " starting failed.", id());
-- 
2.43.0


From 9d3e983b4440db1bbed3b71e62599cd7cbdd106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:25 +0000
Subject: [PATCH 15/33] fix: go on dispatching a held message after the link
 has been rebuilt

A message which on_msg_handle() cannot handle is held (dispatching == true) until TIMER_DISPATCH_MSG
expires, close() stops that timer, and after a reconnection nothing dispatches messages any more.
---
 include/socket.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/socket.h b/include/socket.h
index 8938c80..82b0ee2 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -326,6 +326,8 @@ protected:
 		start_heartbeat(ST_ASIO_HEARTBEAT_INTERVAL);
 #endif
 		send_msg(); //send buffer may have msgs, send them
+		if (dispatching) //TIMER_DISPATCH_MSG has been stopped with the previous link, go on with the held message
+			post_in_dis_strand(boost::bind(&socket::do_dispatch_msg, this));
 #if !defined(ST_ASIO_PASSIVE_RECV) || !defined(ST_ASIO_SYNC_RECV)
 		recv_msg();
 #endif
-- 
2.43.0


From 86906d12473546f0b8cfdeaadb830e9eb3b5ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:09 +0000
Subject: [PATCH 16/33] fix: a client shut down while prepare_reconnect() or a
 connecting is going on must not establish a link which nobody closes

close() stops the timers and closes the socket, but prepare_next_reconnect() could start TIMER_CONNECT afterwards, and connect_handler() started
the link although the closing procedure was running: the link then lived on with started() == false, on_close() was never called and the service could
never stop.
---
 include/tcp/client_socket.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/tcp/client_socket.h b/include/tcp/client_socket.h
index 05998c5..4b1f6b5 100644
--- a/include/tcp/client_socket.h
+++ b/include/tcp/client_socket.h
@@ -131,7 +131,15 @@ protected:
 	virtual void connect_handler(const boost::system::error_code& ec)
 	{
 		if (!ec) //already started, so cannot call start()
-			super::do_start();
+		{
+			if (!ST_THIS is_timer(super::TIMER_DELAY_CLOSE))
+				super::do_start();
+			else //has been shut down during the connecting, close() has finished its work, so nobody will close this link.
+			{
+				boost::system::error_code ec;
+				ST_THIS lowest_layer().close(ec);
+			}
+		}
 		else
 		{
 			BOOST_AUTO(connect_timer, TIMER_CONNECT);
@@ -206,7 +214,8 @@ private:
 			int delay = prepare_reconnect(ec);
 			if (delay < 0)
 				need_reconnect = false;
-			else if (ST_THIS set_timer(TIMER_CONNECT, delay, (boost::lambda::bind(&generic_client_socket::connect, this, false), false)))
+			else if (ST_THIS started() && //can be shut down during the calling of prepare_reconnect()
+				ST_THIS set_timer(TIMER_CONNECT, delay, (boost::lambda::bind(&generic_client_socket::connect, this, false), false)))
 				return true;
 		}
 
-- 
2.43.0


From 02390b48a823938bee4c9eef0181cf35ac574c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:09 +0000
Subject: [PATCH 17/33] fix: do not lose a force_shutdown(false) which comes
 between on_close() and the reconnecting in after_close()

---
 include/tcp/client_socket.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/tcp/client_socket.h b/include/tcp/client_socket.h
index 4b1f6b5..380f98e 100644
--- a/include/tcp/client_socket.h
+++ b/include/tcp/client_socket.h
@@ -177,7 +177,15 @@ protected:
 	//reconnect at here rather than in on_recv_error to make sure no async invocations performed on this socket before reconnecting.
 	//if you don't want to reconnect the server after link broken, rewrite this virtual function and do nothing in it or call set_reconnect(false).
 	//if you want to control the retry times and delay time after reconnecting failed, rewrite prepare_reconnect virtual function.
-	virtual void after_close() {if (need_reconnect) ST_THIS start();}
+	virtual void after_close()
+	{
+		if (need_reconnect)
+		{
+			ST_THIS start();
+			if (!need_reconnect) //force_shutdown(false) can be called just before the starting and then have had no effect
+				super::force_shutdown();
+		}
+	}
 
 	virtual bool bind() {return true;}
 
-- 
2.43.0


From 7f3e32f33f86b37622cfb522406cce5337793347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:47 +0000
Subject: [PATCH 18/33] fix: an expiry queued before its timer was restarted
 must not call the callback (too early)

---
 include/timer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/timer.h b/include/timer.h
index fd63b6b..cf05bf3 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -182,6 +182,8 @@ protected:
 		boost::shared_ptr<boost::function<bool (tid)> > call_back;
 		{
 			boost::lock_guard<boost::mutex> lock(timer_info_mutex);
+			if (prev_seq != ti.seq) //an expiry which had been queued before this timer was restarted, the new one will come
+				return;
 			call_back = ti.call_back;
 		}
 
-- 
2.43.0


From 9edbd21c4d9e6700a0584b636fbcfbbc9f8f7db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:47 +0000
Subject: [PATCH 19/33] fix: division by zero in aligned timers with an
 interval of 0

---
 include/timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/timer.h b/include/timer.h
index cf05bf3..dc7c948 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -195,7 +195,7 @@ protected:
 		{
 			unsigned elapsed_ms = (unsigned) boost::chrono::duration_cast<boost::chrono::milliseconds>(boost::chrono::system_clock::now() - begin_time).count();
 			if (elapsed_ms > ti.interval_ms)
-				elapsed_ms %= ti.interval_ms;
+				elapsed_ms = 0 == ti.interval_ms ? 0 : elapsed_ms % ti.interval_ms;
 
 			start_timer(ti, ti.interval_ms - elapsed_ms);
 		}
-- 
2.43.0


From 3f5adbbf06147d1ca058244f91a742113c8a63c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:51 +0000
Subject: [PATCH 20/33] fix: don't insert deleted objects into object_pool
 again when changing ids

---
 include/object_pool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/object_pool.h b/include/object_pool.h
index 2afb505..65ba0b9 100644
--- a/include/object_pool.h
+++ b/include/object_pool.h
@@ -142,7 +142,10 @@ protected:
 			return true;
 
 		boost::lock_guard<ST_ASIO_SHARED_MUTEX_TYPE> lock(object_can_mutex);
-		if (!object_can.emplace(id, object_ptr).second)
+		BOOST_AUTO(iter, object_can.find(object_ptr->id()));
+		if (iter == object_can.end() || iter->second != object_ptr) //has been deleted, most likely by another thread, must not be inserted again
+			return false;
+		else if (!object_can.emplace(id, object_ptr).second)
 			return false;
 
 		object_can.erase(object_ptr->id());
-- 
2.43.0


From 52b2756b14afec1b30f96e937b7b2de9ac9d86ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:51 +0000
Subject: [PATCH 21/33] fix: count io_context references with a single
 io_context too, more of them can be added at runtime

---
 include/service_pump.h | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index a4dcafb..900324c 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -154,11 +154,9 @@ public:
 	//according to the implementation, it picks the io_context who has the least references, so the return values are not consistent.
 	operator boost::asio::io_context& () {return assign_io_context();}
 
+	//references are also counted if there's only one context, because more contexts can be added (via add_service_thread) at runtime.
 	boost::asio::io_context& assign_io_context(bool increase_ref = true) //pick the context which has the least references
 	{
-		if (single_ctx)
-			return context_can.front().io_context;
-
 		context* ctx = NULL;
 		unsigned refs = 0;
 
@@ -188,29 +186,23 @@ public:
 
 	void return_io_context(const boost::asio::execution_context& io_context, unsigned refs = 1)
 	{
-		if (!single_ctx)
-		{
-			boost::lock_guard<boost::mutex> lock(context_can_mutex);
-			for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
-				if (&io_context == &iter->io_context)
-				{
-					iter->refs -= refs;
-					break;
-				}
-		}
+		boost::lock_guard<boost::mutex> lock(context_can_mutex);
+		for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
+			if (&io_context == &iter->io_context)
+			{
+				iter->refs -= refs;
+				break;
+			}
 	}
 	void assign_io_context(const boost::asio::execution_context& io_context, unsigned refs = 1)
 	{
-		if (!single_ctx)
-		{
-			boost::lock_guard<boost::mutex> lock(context_can_mutex);
-			for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
-				if (&io_context == &iter->io_context)
-				{
-					iter->refs += refs;
-					break;
-				}
-		}
+		boost::lock_guard<boost::mutex> lock(context_can_mutex);
+		for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
+			if (&io_context == &iter->io_context)
+			{
+				iter->refs += refs;
+				break;
+			}
 	}
 
 	object_type find(int id)
-- 
2.43.0


From 5cf9b78efdf84b15b102bf9478859fe47d4fc37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:51 +0000
Subject: [PATCH 22/33] fix: an exception must not end a service thread if
 on_exception wants to continue (ST_ASIO_DECREASE_THREAD_AT_RUNTIME)

---
 include/service_pump.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index 900324c..d35a1e6 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -467,7 +467,7 @@ protected:
 #ifdef ST_ASIO_NO_TRY_CATCH
 			this_n = ctx->io_context.run_one();
 #else
-			try {this_n = ctx->io_context.run_one();} catch (const std::exception& e) {if (!on_exception(e)) break;}
+			try {this_n = ctx->io_context.run_one();} catch (const std::exception& e) {if (on_exception(e)) continue;}
 #endif
 			if (this_n > 0)
 				n += this_n; //n can overflow, please note.
-- 
2.43.0


From 7a507058f8db42e79bfedbfdc302950424984f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:51 +0000
Subject: [PATCH 23/33] fix: stop services which ran out naturally, otherwise
 they cannot be started again nor freed safely

---
 include/service_pump.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/service_pump.h b/include/service_pump.h
index d35a1e6..c8ce105 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -411,6 +411,17 @@ protected:
 			iter->threads.join_all();
 			(&iter->threads)->~thread_group(); new (&iter->threads) boost::thread_group();
 		}
+		do_something_to_all(boost::mem_fn(&i_service::stop_service)); //if all services ran out naturally, otherwise they cannot be started again
+		//if io_contexts ran out before services stopped, finish what the stopping emitted, otherwise it will be performed after the next starting
+		for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
+		{
+#if BOOST_ASIO_VERSION >= 101100
+			iter->io_context.restart();
+#else
+			iter->io_context.reset();
+#endif
+			run(&*iter);
+		}
 		do_something_to_all(boost::mem_fn(&i_service::finalize));
 
 		started = first = false;
-- 
2.43.0


From d0b7d2c5f0dbd4a6472fbd577f4a91459d8cfa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:51 +0000
Subject: [PATCH 24/33] fix: add_service_thread blocked if run_service thread
 had been deleted (ST_ASIO_DECREASE_THREAD_AT_RUNTIME)

---
 include/service_pump.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/service_pump.h b/include/service_pump.h
index c8ce105..91a8e23 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -406,6 +406,11 @@ protected:
 
 	void wait_service()
 	{
+#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
+		//the thread which invoked run_service can be deleted too, don't join others (this blocks add_service_thread) before they end.
+		while (real_thread_num > 0)
+			boost::this_thread::sleep_for(boost::chrono::milliseconds(10));
+#endif
 		for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
 		{
 			iter->threads.join_all();
-- 
2.43.0


From 2f9091b8829de805d5c07b8bc8e58d61ba7cca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:51 +0000
Subject: [PATCH 25/33] fix: stopping a timer in another thread must not be
 overwritten by its restarting

---
 include/timer.h | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/include/timer.h b/include/timer.h
index dc7c948..720ab9b 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -154,15 +154,14 @@ public:
 	DO_SOMETHING_TO_ONE_MUTEX(timer_can, timer_can_mutex, boost::lock_guard<boost::mutex>)
 
 protected:
-	bool start_timer(timer_info& ti, unsigned interval_ms)
+	bool start_timer(timer_info& ti, unsigned interval_ms) {boost::lock_guard<boost::mutex> lock(timer_info_mutex); return do_start_timer(ti, interval_ms);}
+	bool do_start_timer(timer_info& ti, unsigned interval_ms) //timer_info_mutex must be locked
 	{
-		boost::unique_lock<boost::mutex> lock(timer_info_mutex);
 		if (!ti.call_back || !*ti.call_back)
 			return false;
 
 		ti.status = timer_info::TIMER_STARTED;
 		unsigned char seq = ++ti.seq;
-		lock.unlock();
 
 #if BOOST_ASIO_VERSION >= 101100
 		ti.timer.expires_after(milliseconds(interval_ms));
@@ -191,29 +190,28 @@ protected:
 		//the second 'timer_info::TIMER_STARTED == ti.status' judgement is used to exclude a particular situation--stop the same timer in call_back and return true
 #ifdef ST_ASIO_ALIGNED_TIMER
 		BOOST_AUTO(begin_time, boost::chrono::system_clock::now());
-		if (timer_info::TIMER_STARTED == ti.status && !ec && (*call_back)(ti.id) && timer_info::TIMER_STARTED == ti.status)
+#endif
+		bool need_restart = timer_info::TIMER_STARTED == ti.status && !ec && (*call_back)(ti.id);
+
+		//start_timer and stop_timer can be called in other threads, so the judgement and the modification must be atomic
+		boost::lock_guard<boost::mutex> lock(timer_info_mutex);
+		if (need_restart && timer_info::TIMER_STARTED == ti.status)
 		{
-			unsigned elapsed_ms = (unsigned) boost::chrono::duration_cast<boost::chrono::milliseconds>(boost::chrono::system_clock::now() - begin_time).count();
+			unsigned elapsed_ms = 0;
+#ifdef ST_ASIO_ALIGNED_TIMER
+			elapsed_ms = (unsigned) boost::chrono::duration_cast<boost::chrono::milliseconds>(boost::chrono::system_clock::now() - begin_time).count();
 			if (elapsed_ms > ti.interval_ms)
 				elapsed_ms = 0 == ti.interval_ms ? 0 : elapsed_ms % ti.interval_ms;
-
-			start_timer(ti, ti.interval_ms - elapsed_ms);
-		}
-#else
-		if (timer_info::TIMER_STARTED == ti.status && !ec && (*call_back)(ti.id) && timer_info::TIMER_STARTED == ti.status)
-			start_timer(ti);
 #endif
-		else
-		{
-			//start_timer can be called in other threads which triggered by call_back, so the judgement and the modification must be atomic
-			boost::lock_guard<boost::mutex> lock(timer_info_mutex);
-			if (prev_seq == ti.seq) //exclude a particular situation--start the same timer in call_back and return false
-				ti.status = timer_info::TIMER_CANCELED;
+			do_start_timer(ti, ti.interval_ms - elapsed_ms);
 		}
+		else if (prev_seq == ti.seq) //exclude a particular situation--start the same timer in call_back and return false
+			ti.status = timer_info::TIMER_CANCELED;
 	}
 
 	void stop_timer(timer_info& ti)
 	{
+		boost::lock_guard<boost::mutex> lock(timer_info_mutex);
 		if (timer_info::TIMER_STARTED == ti.status) //enable stopping timers that has been stopped
 		{
 			ti.status = timer_info::TIMER_CANCELED; //invalidate cumulative timer callbacks first
@@ -240,7 +238,7 @@ private:
 	typedef boost::container::list<timer_info> container_type;
 	container_type timer_can;
 	boost::mutex timer_can_mutex;
-	boost::mutex timer_info_mutex; //for timer_info's call_back, seq and status
+	boost::mutex timer_info_mutex; //for timer_info's call_back, seq, status and timer
 
 	using Executor::io_context_;
 	unsigned io_context_refs;
-- 
2.43.0


From 20e547ad94ead9ff607fb856e3cc6933f6eb94c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:56 +0000
Subject: [PATCH 26/33] fix: an unreachable UDP peer must not stop the
 receiving from all the others

---
 include/udp/socket.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/udp/socket.h b/include/udp/socket.h
index b615c46..b6de673 100644
--- a/include/udp/socket.h
+++ b/include/udp/socket.h
@@ -313,11 +313,8 @@ private:
 		}
 		else
 		{
-#ifdef _WIN32
+			//an unreachable peer (ICMP port unreachable) must not stop the receiving, it can come back
 			if (ec && boost::asio::error::connection_refused != ec && boost::asio::error::connection_reset != ec)
-#else
-			if (ec)
-#endif
 			{
 				handle_error();
 				on_recv_error(ec);
-- 
2.43.0


From 13e81e1a88d68c2f61af6c02577d514388256af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:56 +0000
Subject: [PATCH 27/33] fix: keep rw_strand associated with the handlers of TCP
 reading and writing

---
 include/tcp/socket.h              | 14 ++++++++------
 include/tcp/websocket/websocket.h | 12 +++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index 47794c5..95f965f 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -23,10 +23,10 @@ public:
 	reader_writer(boost::asio::io_context& io_context_) : Socket(io_context_) {}
 	template<typename Arg> reader_writer(boost::asio::io_context& io_context_, Arg& arg) : Socket(io_context_, arg) {}
 
-	typedef boost::function<void(const boost::system::error_code& ec, size_t bytes_transferred)> ReadWriteCallBack;
-
 protected:
-	bool async_read(const ReadWriteCallBack& call_back)
+	//pass call_back on as it is, a boost::function would drop its associated executor -- rw_strand
+	template<typename ReadWriteCallBack>
+	bool async_read(ReadWriteCallBack call_back)
 	{
 		BOOST_AUTO(recv_buff, ST_THIS unpacker()->prepare_next_recv());
 		assert(boost::asio::buffer_size(recv_buff) > 0);
@@ -37,7 +37,8 @@ protected:
 		}
 
 		boost::asio::async_read(ST_THIS next_layer(), recv_buff,
-			boost::bind(&reader_writer::completion_checker, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred), call_back);
+			boost::bind(&reader_writer::completion_checker, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred),
+			BOOST_ASIO_MOVE_CAST(ReadWriteCallBack)(call_back));
 		return true;
 	}
 	bool parse_msg(size_t bytes_transferred, list<OutMsgType>& msg_can) {return ST_THIS unpacker()->parse_msg(bytes_transferred, msg_can);}
@@ -50,8 +51,9 @@ protected:
 		return boost::asio::detail::default_max_transfer_size;
 #endif
 	}
-	template<typename Buffer>
-	void async_write(const Buffer& msg_can, const ReadWriteCallBack& call_back) {boost::asio::async_write(ST_THIS next_layer(), msg_can, call_back);}
+	template<typename Buffer, typename ReadWriteCallBack>
+	void async_write(const Buffer& msg_can, ReadWriteCallBack call_back)
+		{boost::asio::async_write(ST_THIS next_layer(), msg_can, BOOST_ASIO_MOVE_CAST(ReadWriteCallBack)(call_back));}
 
 private:
 	size_t completion_checker(const boost::system::error_code& ec, size_t bytes_transferred)
diff --git a/include/tcp/websocket/websocket.h b/include/tcp/websocket/websocket.h
index c6e13fa..dd22068 100644
--- a/include/tcp/websocket/websocket.h
+++ b/include/tcp/websocket/websocket.h
@@ -46,13 +46,11 @@ class stream : public LowestLayerGetter<boost::beast::websocket::stream<NextLaye
 private:
 	typedef LowestLayerGetter<boost::beast::websocket::stream<NextLayer>> super;
 
-public:
-	typedef boost::function<void(const boost::system::error_code& ec, size_t bytes_transferred)> ReadWriteCallBack;
-
 public:
 	template<class... Args> explicit stream(Args&&... args) : super(std::forward<Args>(args)...) {first_init();}
 
-	void async_read(const ReadWriteCallBack& call_back) {super::async_read(recv_buff, call_back);}
+	//pass call_back on as it is, a boost::function would drop its associated executor -- rw_strand
+	template<typename ReadWriteCallBack> void async_read(ReadWriteCallBack call_back) {super::async_read(recv_buff, std::move(call_back));}
 	template<typename OutMsgType> bool parse_msg(list<OutMsgType>& msg_can)
 	{
 #if BOOST_VERSION < 107000
@@ -65,7 +63,7 @@ public:
 
 		return re;
 	}
-	template<typename Buffer> void async_write(const Buffer& buff, const ReadWriteCallBack& call_back) {super::async_write(buff, call_back);}
+	template<typename Buffer, typename ReadWriteCallBack> void async_write(const Buffer& buff, ReadWriteCallBack call_back) {super::async_write(buff, std::move(call_back));}
 
 protected:
 	//helper function, just call it in constructor
@@ -82,11 +80,11 @@ public:
 	template<typename Arg> reader_writer(boost::asio::io_context& io_context_, Arg& arg) : Socket(io_context_, arg) {}
 
 protected:
-	template<typename CallBack> bool async_read(const CallBack& call_back) {this->next_layer().async_read(call_back); return true;}
+	template<typename CallBack> bool async_read(CallBack call_back) {this->next_layer().async_read(std::move(call_back)); return true;}
 	bool parse_msg(size_t bytes_transferred, list<OutMsgType>& msg_can) {return this->next_layer().parse_msg(msg_can);}
 
 	size_t batch_msg_send_size() const {return 0;}
-	template<typename Buffer, typename CallBack> void async_write(const Buffer& msg_can, const CallBack& call_back) {this->next_layer().async_write(msg_can, call_back);}
+	template<typename Buffer, typename CallBack> void async_write(const Buffer& msg_can, CallBack call_back) {this->next_layer().async_write(msg_can, std::move(call_back));}
 };
 
 template<typename Socket> class socket : public Socket
-- 
2.43.0


From 9e056aefc506e24f8f01681b3d685094aa4aaa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:56 +0000
Subject: [PATCH 28/33] fix: safe synchronous sending must not send a message
 again after a timeout

---
 include/base.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/base.h b/include/base.h
index d595310..ddcd0da 100644
--- a/include/base.h
+++ b/include/base.h
@@ -904,23 +904,23 @@ TCP_SYNC_SEND_MSG_CALL_SWITCH(FUNNAME, sync_call_result)
 //if can_overflow equal to false and the buffer is not available, will wait until it becomes available
 #define TCP_SYNC_SAFE_SEND_MSG(FUNNAME, SEND_FUNNAME) \
 sync_call_result FUNNAME(in_msg_type& msg, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(msg, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{sync_call_result re; while (NOT_APPLICABLE == (re = SEND_FUNNAME(msg, duration, can_overflow, prior))) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return re;} \
 sync_call_result FUNNAME(in_msg_ctype& msg, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(msg, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{sync_call_result re; while (NOT_APPLICABLE == (re = SEND_FUNNAME(msg, duration, can_overflow, prior))) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return re;} \
 sync_call_result FUNNAME(in_msg_type& msg1, in_msg_type& msg2, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(msg1, msg2, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{sync_call_result re; while (NOT_APPLICABLE == (re = SEND_FUNNAME(msg1, msg2, duration, can_overflow, prior))) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return re;} \
 sync_call_result FUNNAME(in_msg_ctype& msg1, in_msg_ctype& msg2, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(msg1, msg2, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{sync_call_result re; while (NOT_APPLICABLE == (re = SEND_FUNNAME(msg1, msg2, duration, can_overflow, prior))) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return re;} \
 sync_call_result FUNNAME(typename Packer::container_type& msg_can, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(msg_can, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{sync_call_result re; while (NOT_APPLICABLE == (re = SEND_FUNNAME(msg_can, duration, can_overflow, prior))) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return re;} \
 sync_call_result FUNNAME(const char* const pstr[], const size_t len[], size_t num, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(pstr, len, num, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{sync_call_result re; while (NOT_APPLICABLE == (re = SEND_FUNNAME(pstr, len, num, duration, can_overflow, prior))) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return re;} \
 TCP_SYNC_SEND_MSG_CALL_SWITCH(FUNNAME, sync_call_result)
 //TCP sync msg sending interface
 ///////////////////////////////////////////////////
@@ -1002,8 +1002,8 @@ sync_call_result FUNNAME(const char* const pstr[], const size_t len[], size_t nu
 	{return FUNNAME(peer_addr, pstr, len, num, duration, can_overflow, prior);} \
 sync_call_result FUNNAME(const typename Family::endpoint& peer_addr, \
 	const char* const pstr[], const size_t len[], size_t num, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(peer_addr, pstr, len, num, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{sync_call_result re; while (NOT_APPLICABLE == (re = SEND_FUNNAME(peer_addr, pstr, len, num, duration, can_overflow, prior))) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return re;} \
 UDP_SYNC_SEND_MSG_CALL_SWITCH(FUNNAME, sync_call_result)
 //UDP sync msg sending interface
 ///////////////////////////////////////////////////
-- 
2.43.0


From 465a9d76f646483e4fca57925d279e3b5d18a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:56 +0000
Subject: [PATCH 29/33] fix: a synchronous receive must not miss the closing of
 its socket

---
 include/socket.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/socket.h b/include/socket.h
index 82b0ee2..fc0945d 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -438,8 +438,12 @@ protected:
 		if (!started_)
 			return false;
 
+#ifdef ST_ASIO_SYNC_RECV
+		boost::unique_lock<boost::mutex> sync_recv_lock(sync_recv_mutex); //otherwise, the notification may come between the checking of started_ and the waiting
+#endif
 		started_ = false;
 #ifdef ST_ASIO_SYNC_RECV
+		sync_recv_lock.unlock();
 		sync_recv_cv.notify_all();
 #endif
 		stop_all_timer();
-- 
2.43.0


From 1706ec9dca94529788d135de3a4c0816ff73bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:56 +0000
Subject: [PATCH 30/33] fix: a synchronous send must end when its message is
 discarded or its link is down for good

---
 include/socket.h | 53 ++++++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/include/socket.h b/include/socket.h
index fc0945d..ffa5657 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -461,7 +461,11 @@ protected:
 			unpacker_->reset(); //very important, otherwise, the unpacker will never be able to parse any more messages if its buffer has legacy data
 			on_close();
 			after_close();
-			obsoleted_ = true;
+			obsoleted_ = !started_; //after_close() can start this socket again
+#ifdef ST_ASIO_SYNC_SEND
+			if (obsoleted_)
+				abandon_sync_sending();
+#endif
 		}
 		else
 		{
@@ -594,18 +598,13 @@ protected:
 		}
 
 		in_msg unused(msg, true);
-		BOOST_AUTO(p, unused.p);
 		typename in_msg::future f;
-		p->get_future().swap(f);
+		unused.p->get_future().swap(f);
 		if (!(prior ? send_buffer.enqueue_front(unused) : send_buffer.enqueue(unused)))
 			return NOT_APPLICABLE;
 
 		send_msg();
-#ifdef BOOST_THREAD_USES_CHRONO
-		return 0 == duration || boost::future_status::ready == f.wait_for(boost::chrono::milliseconds(duration)) ? f.get() : TIMEOUT;
-#else
-		return 0 == duration || f.timed_wait(boost::posix_time::milliseconds(duration)) ? f.get() : TIMEOUT;
-#endif
+		return sync_send_waiting(f, duration);
 	}
 
 	sync_call_result do_direct_sync_send_msg(InMsgType& msg, unsigned duration = 0, bool prior = false)
@@ -619,18 +618,13 @@ protected:
 		}
 
 		in_msg unused(msg, true);
-		BOOST_AUTO(p, unused.p);
 		typename in_msg::future f;
-		p->get_future().swap(f);
+		unused.p->get_future().swap(f);
 		if (!(prior ? send_buffer.enqueue_front(unused) : send_buffer.enqueue(unused)))
 			return NOT_APPLICABLE;
 
 		send_msg();
-#ifdef BOOST_THREAD_USES_CHRONO
-		return 0 == duration || boost::future_status::ready == f.wait_for(boost::chrono::milliseconds(duration)) ? f.get() : TIMEOUT;
-#else
-		return 0 == duration || f.timed_wait(boost::posix_time::milliseconds(duration)) ? f.get() : TIMEOUT;
-#endif
+		return sync_send_waiting(f, duration);
 	}
 
 	sync_call_result do_direct_sync_send_msg(list<InMsgType>& msg_can, unsigned duration = 0, bool prior = false)
@@ -649,18 +643,33 @@ protected:
 		}
 
 		temp_buffer.back().check_and_create_promise(true);
-		BOOST_AUTO(p, temp_buffer.back().p);
 		typename in_msg::future f;
-		p->get_future().swap(f);
+		temp_buffer.back().p->get_future().swap(f);
 		prior ? send_buffer.move_items_in_front(temp_buffer, size_in_byte) : send_buffer.move_items_in(temp_buffer, size_in_byte);
 
 		send_msg();
+		return sync_send_waiting(f, duration);
+	}
+
+	sync_call_result sync_send_waiting(typename in_msg::future& f, unsigned duration)
+	{
+		if (!started_ && obsoleted_)
+			abandon_sync_sending(); //this socket was closed after the checking of stopped() or even earlier
+
+		try
+		{
 #ifdef BOOST_THREAD_USES_CHRONO
-		return 0 == duration || boost::future_status::ready == f.wait_for(boost::chrono::milliseconds(duration)) ? f.get() : TIMEOUT;
+			return 0 == duration || boost::future_status::ready == f.wait_for(boost::chrono::milliseconds(duration)) ? f.get() : TIMEOUT;
 #else
-		return 0 == duration || f.timed_wait(boost::posix_time::milliseconds(duration)) ? f.get() : TIMEOUT;
+			return 0 == duration || f.timed_wait(boost::posix_time::milliseconds(duration)) ? f.get() : TIMEOUT;
 #endif
+		}
+		catch (const boost::broken_promise&) {return NOT_APPLICABLE;} //the message was discarded
 	}
+
+	//nobody will send the pending messages, so the callers of sync sending must not wait for them any more
+	void abandon_sync_sending() {send_buffer.do_something_to_all(boost::bind(&socket::abandon_promise, boost::placeholders::_1));}
+	static void abandon_promise(in_msg& msg) {if (msg.p) {msg.p->set_value(NOT_APPLICABLE); msg.p.reset();}}
 #endif
 
 private:
@@ -813,7 +822,11 @@ private:
 			change_timer_status(id, timer_info::TIMER_CANCELED);
 			after_close();
 			set_async_calling(false);
-			obsoleted_ = true;
+			obsoleted_ = !started_; //after_close() can start this socket again
+#ifdef ST_ASIO_SYNC_SEND
+			if (obsoleted_)
+				abandon_sync_sending();
+#endif
 			break;
 		default:
 			assert(false);
-- 
2.43.0


From 7b28b86990cbc32a8c3454e1abf1e14c3e59213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:37 +0000
Subject: [PATCH 31/33] fix: congestion of the receiving must not be regarded
 as the absence of the peer

---
 include/socket.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/socket.h b/include/socket.h
index ffa5657..cec9766 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -196,7 +196,7 @@ public:
 		if (stat.last_recv_time > 0 && is_ready()) //check of last_recv_time is essential, because user may call check_heartbeat before do_start
 		{
 			time_t now = time(NULL);
-			if (now - stat.last_recv_time >= interval * max_absence)
+			if (!recv_idle_began && now - stat.last_recv_time >= interval * max_absence) //congestion at here is not the absence of the peer
 				if (!on_heartbeat_error())
 					return false;
 
@@ -711,6 +711,7 @@ private:
 		{
 			if (recv_idle_began)
 			{
+				stat.last_recv_time = time(NULL); //nothing has been received because we didn't read
 				recv_idle_began = false;
 				stat.recv_idle_sum += statistic::now() - recv_idle_begin_time;
 			}
-- 
2.43.0


From d85b57ad279cbcaac85758058592ccc619c587db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:33 +0000
Subject: [PATCH 32/33] fix: socks4 must not overwrite its request with the
 response, nor accept a malformed response

---
 include/tcp/proxy/socks.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/tcp/proxy/socks.h b/include/tcp/proxy/socks.h
index 8ce3e13..b2dcc2f 100644
--- a/include/tcp/proxy/socks.h
+++ b/include/tcp/proxy/socks.h
@@ -42,7 +42,8 @@ public:
 
 		buff[0] = 4;
 		buff[1] = 1;
-		*((unsigned short*) boost::next(buff, 2)) = htons(target_addr.port());
+		unsigned short net_port = htons(target_addr.port());
+		memcpy(boost::next(buff, 2), &net_port, sizeof(net_port));
 #if BOOST_ASIO_VERSION == 101100
 		memcpy(boost::next(buff, 4), boost::asio::ip::address_cast<boost::asio::ip::address_v4>(target_addr.address()).to_bytes().data(), 4);
 #else
@@ -75,20 +76,20 @@ private:
 			ST_THIS force_shutdown(false);
 		}
 		else
-			boost::asio::async_read(ST_THIS next_layer(), boost::asio::buffer(buff, 8),
+			boost::asio::async_read(ST_THIS next_layer(), boost::asio::buffer(res_buff, sizeof(res_buff)), //keep the request, it will be sent again after reconnected
 				ST_THIS make_handler_error_size(boost::bind(&client_socket_base::recv_handler, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)));
 	}
 
 	void recv_handler(const boost::system::error_code& ec, size_t bytes_transferred)
 	{
-		if (ec || 8 != bytes_transferred)
+		if (ec || sizeof(res_buff) != bytes_transferred)
 		{
 			unified_out::error_out(ST_ASIO_LLF " socks4 read error", ST_THIS id());
 			ST_THIS force_shutdown(false);
 		}
-		else if (90 != buff[1])
+		else if (0 != res_buff[0] || 90 != res_buff[1])
 		{
-			unified_out::info_out(ST_ASIO_LLF " socks4 server error: %d", ST_THIS id(), (int) (unsigned char) buff[1]);
+			unified_out::info_out(ST_ASIO_LLF " socks4 server error: %d", ST_THIS id(), (int) (unsigned char) res_buff[1]);
 			ST_THIS force_shutdown(false);
 		}
 		else
@@ -96,7 +97,7 @@ private:
 	}
 
 private:
-	char buff[16];
+	char buff[16], res_buff[8];
 	size_t req_len;
 
 	boost::asio::ip::tcp::endpoint target_addr;
-- 
2.43.0


From 5ccc67417aa98efdfcabf812e0960fc705efe281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:33 +0000
Subject: [PATCH 33/33] fix: socks5 must validate the responses, leave the
 target's data alone and use the latest target

---
 include/tcp/proxy/socks.h | 111 ++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 64 deletions(-)

diff --git a/include/tcp/proxy/socks.h b/include/tcp/proxy/socks.h
index b2dcc2f..d1484b8 100644
--- a/include/tcp/proxy/socks.h
+++ b/include/tcp/proxy/socks.h
@@ -127,7 +127,14 @@ public:
 		step = -1;
 		if (0 == port || ip.empty())
 			return false;
-		else if (!super::set_addr(target_addr, port, ip))
+
+		boost::system::error_code ec;
+#if BOOST_ASIO_VERSION >= 101100
+		BOOST_AUTO(addr, boost::asio::ip::make_address(ip, ec));
+#else
+		BOOST_AUTO(addr, boost::asio::ip::address::from_string(ip, ec));
+#endif
+		if (ec) //not an IP address, must be a domain
 		{
 			if (ip.size() > sizeof(buff) - 7)
 			{
@@ -138,8 +145,11 @@ public:
 			target_domain = ip;
 			target_port = port;
 		}
-		else if (!target_addr.address().is_v4() && !target_addr.address().is_v6())
-			return false;
+		else
+		{
+			target_domain.clear();
+			target_addr = boost::asio::ip::tcp::endpoint(addr, port);
+		}
 
 		step = 0;
 		return true;
@@ -208,6 +218,7 @@ private:
 			ST_THIS make_handler_error_size(boost::bind(&client_socket_base::send_handler, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)));
 	}
 
+	void write_port(size_t pos, unsigned short port) {port = htons(port); memcpy(boost::next(buff, pos), &port, sizeof(port));}
 	void send_request()
 	{
 		res_len = 0;
@@ -219,9 +230,10 @@ private:
 		{
 			buff[3] = 3;
 			buff[4] = (char) std::min<size_t>(target_domain.size(), sizeof(buff) - 7);
-			memcpy(boost::next(buff, 5), target_domain.data(), (size_t) buff[4]);
-			*((unsigned short*) boost::next(buff, 5 + buff[4])) = htons(target_port);
-			req_len = 7 + buff[4];
+			size_t domain_len = (unsigned char) buff[4];
+			memcpy(boost::next(buff, 5), target_domain.data(), domain_len);
+			write_port(5 + domain_len, target_port);
+			req_len = 7 + domain_len;
 		}
 		else if (target_addr.address().is_v4())
 		{
@@ -231,7 +243,7 @@ private:
 #else
 			memcpy(boost::next(buff, 4), target_addr.address().to_v4().to_bytes().data(), 4);
 #endif
-			*((unsigned short*) boost::next(buff, 8)) = htons(target_addr.port());
+			write_port(8, target_addr.port());
 			req_len = 10;
 		}
 		else //ipv6
@@ -242,7 +254,7 @@ private:
 #else
 			memcpy(boost::next(buff, 4), target_addr.address().to_v6().to_bytes().data(), 16);
 #endif
-			*((unsigned short*) boost::next(buff, 20)) = htons(target_addr.port());
+			write_port(20, target_addr.port());
 			req_len = 22;
 		}
 
@@ -260,11 +272,17 @@ private:
 		else
 		{
 			++step;
-			ST_THIS next_layer().async_read_some(boost::asio::buffer(buff, sizeof(buff)),
-				ST_THIS make_handler_error_size(boost::bind(&client_socket_base::recv_handler, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)));
+			read_response(3 == step ? 5 : 2); //5 bytes are enough to know the length of the whole response
 		}
 	}
 
+	//never read more than what we need, the data behind the last response belongs to the target
+	void read_response(size_t len)
+	{
+		boost::asio::async_read(ST_THIS next_layer(), boost::asio::buffer(boost::next(buff, res_len), len - res_len),
+			ST_THIS make_handler_error_size(boost::bind(&client_socket_base::recv_handler, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)));
+	}
+
 	void recv_handler(const boost::system::error_code& ec, size_t bytes_transferred)
 	{
 		res_len += bytes_transferred;
@@ -276,12 +294,9 @@ private:
 		else
 		{
 			bool succ = true;
-			bool continue_read = false;
 			if (1 == step) //parse method
 			{
-				if (res_len < 2)
-					continue_read = true;
-				else if (res_len > 2)
+				if (5 != buff[0])
 				{
 					unified_out::info_out(ST_ASIO_LLF " socks5 server error", ST_THIS id());
 					succ = false;
@@ -291,7 +306,7 @@ private:
 					++step; //skip auth step
 					return send_request();
 				}
-				else if (2 == buff[1])
+				else if (2 == buff[1] && !username.empty())
 					return send_auth();
 				else
 				{
@@ -301,72 +316,40 @@ private:
 			}
 			else if (2 == step) //parse auth
 			{
-				if (res_len < 2)
-					continue_read = true;
-				else if (res_len > 2)
-				{
-					unified_out::info_out(ST_ASIO_LLF " socks5 server error", ST_THIS id());
-					succ = false;
-				}
-				else if (0 == buff[1])
+				if (0 == buff[1])
 					return send_request();
-				else
-				{
-					unified_out::error_out(ST_ASIO_LLF " socks5 auth error", ST_THIS id());
-					succ = false;
-				}
+
+				unified_out::error_out(ST_ASIO_LLF " socks5 auth error", ST_THIS id());
+				succ = false;
 			}
-			else if (3 == step) //parse request
+			else if (3 == step && 5 == buff[0] && 0 == buff[1] && (1 == buff[3] || 3 == buff[3] || 4 == buff[3])) //parse request
 			{
 				size_t len = 6;
-				if (res_len < len)
-					continue_read = true;
-				else if (0 == buff[1])
-				{
-					if (1 == buff[3])
-						len += 4;
-					else if (3 == buff[3])
-						len += 1 + buff[4];
-					else if (4 == buff[3])
-						len += 16;
-
-					if (res_len < len)
-						continue_read = true;
-					else if (res_len > len)
-					{
-						unified_out::info_out(ST_ASIO_LLF " socks5 server error", ST_THIS id());
-						succ = false;
-					}
-				}
+				if (1 == buff[3])
+					len += 4;
+				else if (3 == buff[3])
+					len += 1 + (unsigned char) buff[4];
 				else
-				{
-					unified_out::info_out(ST_ASIO_LLF " socks5 server error", ST_THIS id());
-					succ = false;
-				}
+					len += 16;
+
+				if (res_len < len)
+					return read_response(len);
 			}
 			else
 			{
-				unified_out::info_out(ST_ASIO_LLF " socks5 client error", ST_THIS id());
+				unified_out::info_out(ST_ASIO_LLF " socks5 server error", ST_THIS id());
 				succ = false;
 			}
 
-			if (!succ)
-				ST_THIS force_shutdown(false);
-			else if (!continue_read)
+			if (succ)
 				super::connect_handler(ec);
-			else if (res_len >= sizeof(buff))
-			{
-				unified_out::info_out(ST_ASIO_LLF " socks5 server error", ST_THIS id());
-				ST_THIS force_shutdown(false);
-			}
 			else
-				ST_THIS next_layer().async_read_some(boost::asio::buffer(boost::next(buff, res_len), sizeof(buff) - res_len),
-					ST_THIS make_handler_error_size(boost::bind(&client_socket_base::recv_handler, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)));
+				ST_THIS force_shutdown(false);
 		}
 	}
 
 private:
-	char buff[64];
+	char buff[262]; //the biggest request or response, whose address is a domain of 255 bytes
 	size_t req_len, res_len;
 	int step;
 
-- 
2.43.0

