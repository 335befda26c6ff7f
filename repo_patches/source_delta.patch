From 9632d438cfaf4b24cb6b6ba30a88c7abcf7470fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 001/101] fix: signal_event could lose a wakeup, release only
 one waiter, or time out early

signal() set the flag and signaled the condition without the mutex, so a waiter
that had tested the flag but was not yet waiting blocked for ever; only one of
several waiters was released; wait() returned on a spurious wakeup; and a timed
wait returned false at once when another thread was waiting.
---
 src/mg/core/thread.cpp | 54 ++++++++++++++++++++++--------------------
 src/mg/core/thread.h   |  1 +
 2 files changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/mg/core/thread.cpp b/src/mg/core/thread.cpp
index c783ffe..f23da81 100644
--- a/src/mg/core/thread.cpp
+++ b/src/mg/core/thread.cpp
@@ -85,7 +85,7 @@ critical_section::~critical_section()
 }
 
 
-signal_event::signal_event() :_signed(false)
+signal_event::signal_event() :_signed(false), _signal_count(0)
 {
 	int n = uv_cond_init(&_cond_t);
 	UVCHECK(n);
@@ -98,56 +98,58 @@ signal_event::~signal_event()
 
 void signal_event::signal()
 {
+	auto_lock l(_crit_sec);
+
 	if (_signed)
 		return;
 
 	_signed = true;
+	_signal_count++;
 	//free anyone waiting
-	uv_cond_signal(&_cond_t);
+	uv_cond_broadcast(&_cond_t);
 
 }
 
 void signal_event::reset()
 {
+	auto_lock l(_crit_sec);
+
 	_signed = false;
 }
 
 void signal_event::wait()
 {
-	if (_signed)
-		return;
-	
-	_crit_sec.lock();
-	uv_cond_wait(&_cond_t, &_crit_sec._mutex);
-	_crit_sec.unLock();
+	auto_lock l(_crit_sec);
+
+	//who is already waiting when the event is signaled is released even if the event is reset meanwhile
+	const uint32_t count = _signal_count;
+
+	while (!_signed && count == _signal_count)
+		uv_cond_wait(&_cond_t, &_crit_sec._mutex);
 }
 
 bool signal_event::wait(uint32_t millyseconds)
 {
-	if (_signed)
-	   return true;
+	auto_lock l(_crit_sec);
 
-	double t = millyseconds;
-	         t *= 1e6;
-	
-	
-	bool work = true;
+	const uint32_t count = _signal_count;
+	const uint64_t start = uv_hrtime();
+	const uint64_t t     = static_cast<uint64_t>(millyseconds) * 1000000;
 
-	
-	if(!_crit_sec.try_lock())
-		return false;
-	int n = uv_cond_timedwait(&_cond_t, &_crit_sec._mutex, (uint64_t)t);
-	_crit_sec.unLock();
-	if(0 == n)
-	  return (_signed);
+	while (!_signed && count == _signal_count)
+	{
+		const uint64_t elapsed = uv_hrtime() - start;
 
-	if(UV_ETIMEDOUT == n)
-	  return false;
+		if (elapsed >= t)
+			return false;
 
-	UVCHECK(n);
+		int n = uv_cond_timedwait(&_cond_t, &_crit_sec._mutex, t - elapsed);
 
-	return false;
+		if (UV_ETIMEDOUT != n)
+			UVCHECK(n);
+	}
 
+	return true;
 }
 
 bool signal_event::is_signaled()
diff --git a/src/mg/core/thread.h b/src/mg/core/thread.h
index 1d51ae9..74c1ca9 100644
--- a/src/mg/core/thread.h
+++ b/src/mg/core/thread.h
@@ -62,6 +62,7 @@ class signal_event
 private:
 	critical_section _crit_sec;
 	bool             _signed;
+	uint32_t         _signal_count; //how many times the event became signaled
 	uv_cond_t        _cond_t;
 public:
 
-- 
2.43.0


From ff25d1fc4344238ba72eca3e34428b9da4f1e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 002/101] fix: resource handle self-assignment and
 unsynchronised reference count

Assigning a handle to itself released the object before taking the new
reference, and the count was changed from the user's and the loop's thread
without synchronisation.
---
 src/mg/cresource.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mg/cresource.h b/src/mg/cresource.h
index 30e899d..b02ed85 100644
--- a/src/mg/cresource.h
+++ b/src/mg/cresource.h
@@ -23,6 +23,7 @@
 //#include "crtdbg.h"
 #include <new>
 
+#include <atomic>
 #include <functional>
 
 #pragma once
@@ -48,7 +49,7 @@ class CInternalResource
 private:
 
 	Type *m_pointer;
-	long m_iRefCnt;
+	std::atomic<long> m_iRefCnt; //handles can be copied and dropped on different threads
 
 	std::function<void(Type*)> _cleanup;
 	
@@ -76,8 +77,7 @@ private:
 
 	virtual void release()
 	{
-		m_iRefCnt--;
-		if (0 == m_iRefCnt)
+		if (0 == --m_iRefCnt)
 		{
 			if (_cleanup)
 				_cleanup(m_pointer);
@@ -120,9 +120,11 @@ public:
 	//underline pointer
 	const CResource& Assign(const CResource& res)
 	{
-		if(m_pInternalResource) m_pInternalResource->release();
+		//take the new reference first: it can be the resource we already hold
+		CInternalResource<Type> * previous = m_pInternalResource;
 		m_pInternalResource = res.m_pInternalResource;
 		if(m_pInternalResource) m_pInternalResource->addRef();	
+		if(previous) previous->release();
 		return res;
 	}
    	//assign the resource to another resource
-- 
2.43.0


From 5427739b8aee9392b8bfc5e2febed896e9340baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 003/101] fix: bit stream read and wrote past the end of its
 buffer

Bits are loaded and stored up to five bytes at a time, so the last bits of the
buffer touched up to four bytes after it; and buffers too small for 32 bits at
a bit offset could not be refilled.
---
 src/mg/core/bitstream.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 23aa4df..33c52e0 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -385,7 +385,9 @@ class bitstream_base : public Ibitstream_cb
 
 	void init(uint32_t buf_len, bool load = true)
 	{
-		_buf        = new unsigned char[buf_len];
+		//bits are read and written up to five bytes at a time
+		_buf        = new unsigned char[buf_len + 8];
+		::memset(_buf, 0, buf_len + 8);
 		_buf_size   = buf_len;
         _shadow_buf = new unsigned char[buf_len];
 		_shadow_len = 0;
@@ -535,7 +537,8 @@ public:
 		bool is_base_of_v = std::is_base_of<Ibitstream_storage, Type>::value;
 		_ASSERTE(is_base_of_v);
 
-		uint32_t x = size;
+		//32 bits at any bit offset must fit in the buffer
+		uint32_t x = (size < 8) ? 8 : size;
 
 		_load_event.signal(); //start in signal mode
 
-- 
2.43.0


From edc1dfdc47448dfaa3960e58c3073ce8bb38db05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 004/101] fix: bit stream returned wrong data near the end of
 the storage

What was left in the shadow buffer after a refill was looked for at its
beginning, where it had not been moved; a partial refill returned bits that do
not exist; and the end was reported while the last asynchronous read was still
on its way.
---
 src/mg/core/bitstream.h | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 33c52e0..6bc213d 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -569,9 +569,15 @@ public:
 	virtual bool atend()
 	{
 		if (_p_cb->eof())
+		{
+			//the last read can be still on its way
 			if(!_shadow_len)
-				if ((_buf_len << 3) <= _cur_bit)
+				wait();
+
+			if(!_shadow_len)
+				if ((static_cast<uint64_t>(_buf_len) << 3) <= _cur_bit)
 					return true;
+		}
 
 		return false;
 	}
@@ -580,7 +586,10 @@ public:
 	{
 		if (_p_cb->eof())
 		{
-			uint64_t available = (_buf_len << 3) - _cur_bit;
+			if(!_shadow_len)
+				wait();
+
+			uint64_t available = ((static_cast<uint64_t>(_buf_len) + _shadow_len) << 3) - _cur_bit;
 			//if (((_buf_len * 8 - _cur_bit) - nbit) >= 0)
 			if(available >= nbit)
 				return true;
@@ -1164,15 +1173,16 @@ public:
 
 template<class Type> void bitstream_base<Type>::fill_buf()
 {
+	//the storage can be at the end while its last read is still on its way
+	if (_shadow_len != _buf_size) {
+		wait();
+	}
+
 	if ((!_shadow_len) && _p_cb->eof())
 		throw EndOfData(_T(__FILE__), __LINE__);
 
 	_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
-	if (_shadow_len != _buf_size) {
-		wait();
-	}
-
 	{
 		auto_lock l(_load_lock);
 
@@ -1187,13 +1197,14 @@ template<class Type> void bitstream_base<Type>::fill_buf()
 
 		n = static_cast<uint32_t>(_cur_bit >> 3);
 
-		_ASSERTE(n > 0);
 		_ASSERTE(n <= _buf_size);
 
 		u = _buf_len - n;
 
 		// move unread contents to the beginning of the buffer
 		memmove(_buf, _buf + n, u);
+		// the rest of buf can be filled
+		n = _buf_size - u;
 		// clear the rest of buf
 		memset(_buf + u, 0, n);
 
@@ -1217,6 +1228,8 @@ template<class Type> void bitstream_base<Type>::fill_buf()
 				memcpy(_buf + u, _shadow_buf, n);
 				_shadow_len -= n;
 				_buf_len += n;
+				// what is left stays at the beginning of the shadow
+				memmove(_shadow_buf, _shadow_buf + n, _shadow_len);
 			}
 			else
 			{
@@ -1257,12 +1270,6 @@ template<class Type> void bitstream_base<Type>::read_cb(const unsigned char * p_
 			if (read)
 			{
 				
-				if (_shadow_len)
-				{
-					//copy end to beginning
-					memcpy(_shadow_buf, _shadow_buf + (_buf_size - _shadow_len), _shadow_len);
-				}
-
 				memcpy(_shadow_buf + _shadow_len, p_val, read);
 
 				_shadow_len += read;
@@ -1321,10 +1328,9 @@ template<class Type> uint32_t  bitstream_base<Type>::_nextbits(int n)
 	_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
 	// make sure we have enough data
-	if (_cur_bit + n >(_buf_len << 3))
+	while (_cur_bit + n > (static_cast<uint64_t>(_buf_len) << 3))
 	{
 		fill_buf();
-		_ASSERTE(_cur_bit == 0);
 	}
 
 	// starting byte in buffer
-- 
2.43.0


From 12c73bb61ba442879a05d744196cfb901ce3a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 005/101] fix: bulk read from a bit stream raised EndOfData
 close to the end

The read probed 32 bits to force a refill, which fails when less is left.
---
 src/mg/core/bitstream.h | 87 ++++++-----------------------------------
 1 file changed, 13 insertions(+), 74 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 6bc213d..e9aa8ce 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -978,95 +978,34 @@ protected:
 		}
 
 	}
-private:
-
-	virtual void __read(unsigned char * pbytes, uint32_t size, uint32_t * read)
-	{
-		uint32_t used = static_cast<uint32_t>((this->_cur_bit >> 3));
-		uint32_t available = this->_buf_len - used;
-
-		_ASSERTE((_cur_bit >> 3) <= _buf_size);
-		
-		
-		if (available > size)
-		{
-			(*read) = size;
-			
-			::memcpy(pbytes, this->_buf + used, size);
-
-			_ASSERTE((_cur_bit >> 3) <= _buf_size);
-			_ASSERTE(((_cur_bit >> 3) + size) <= _buf_size);
-
-			this->_cur_bit += (size << 3);
-			this->_tot_bits += (size << 3);
-
-			this->_nextbits(32); //reload buffer if needed
-		}
-		else /*if ((available + this->_shadow_len) > size)*/
-		{
-			
-			::memcpy(pbytes, this->_buf + used, available);
-
-			this->_cur_bit += (available << 3);
-			this->_tot_bits += (available << 3);
-
-			if(!this->atend())
-				this->_nextbits(32); //reload buffer if needed
-			else
-			{
-				//we are at the end
-				(*read) = available;
-				return;
-			}
-
-			uint32_t todo = size - available;
-
-			if (todo > this->_buf_len)
-			{
-				todo = this->_buf_len;
-			}
-
-			_ASSERTE(this->_buf_len >= todo);
-			_ASSERTE(0 == this->_cur_bit);
-
-			::memcpy(pbytes + available, this->_buf, todo);
-
-			this->_cur_bit += (todo << 3);
-			this->_tot_bits += (todo << 3);
-
-			if(!this->atend())
-				this->_nextbits(32); //reload buffer if needed
-			
-			(*read) = available + todo;
-
-		}
-	}
-
 protected:
 
 	virtual void _read(unsigned char * pbytes, uint32_t size, uint32_t * read)
 	{
 		uint32_t done(0);
-		unsigned char * pmybytes = pbytes;
-		uint32_t mysize = size;
 
 		_ASSERTE((_cur_bit >> 3) <= _buf_size);
 
 		while (done < size && (!this->atend()))
 		{
-			if(done)
-				wait();
+			uint32_t used = static_cast<uint32_t>((this->_cur_bit >> 3));
+			uint32_t working = this->_buf_len - used;
 
-			_ASSERTE((_cur_bit >> 3) <= _buf_size);
+			if (!working)
+			{
+				this->fill_buf();
+				continue;
+			}
 
-			uint32_t working(0);
-			__read(pmybytes, mysize, &working);
+			if (working > size - done)
+				working = size - done;
 
-			done += working;
-			pmybytes += working;
-			mysize -= working;
+			::memcpy(pbytes + done, this->_buf + used, working);
 
+			this->_cur_bit += (static_cast<uint64_t>(working) << 3);
+			this->_tot_bits += (static_cast<uint64_t>(working) << 3);
 
+			done += working;
 		}
 
 		(*read) = done;
-- 
2.43.0


From 9d53e56d7c3df8210cc10d0195ab0bf170ad5d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 006/101] fix: bit stream skip, seek and alignment

Skipping past the buffers added the distance twice, or lost what was in the
shadow buffer at the end of the storage, and waited for a read while holding
the lock that read needs; seeking computed the position of its buffers while a
read was on its way, left the sub-byte offset in place, and overran the buffer
past the end; aligning a stream that is being written did not terminate after a
flush.
---
 src/mg/core/bitstream.h | 237 +++++++++++-----------------------------
 1 file changed, 64 insertions(+), 173 deletions(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index e9aa8ce..ede15cf 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -711,135 +711,50 @@ public:
 	
 	virtual void _set_position_read(uint64_t rhs) {
 
-		bool do_reload = false;
-		{
-			if (0 == _shadow_len && ((!_p_cb->eof()) || _pending_read) )
-			{
-				wait();
-			}
-
-			mg::core::auto_lock l(_load_lock);
-			
-			//buffer start
-			uint64_t epos = _p_cb->get_position();
-            
-			uint64_t kpos  = epos;
-			kpos -= _buf_len;
-			kpos -= _shadow_len;
-			uint64_t pos = kpos + (_cur_bit >> 3);
-
-			_ASSERTE((_cur_bit >> 3) <= _buf_size);
-
-			FDBGC6(BITSTREAM_POSITION_DEBUG
-				, "SET-POSITION\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu32 "\t%" PRIu32 "\t%" PRIu32 ""
-				, rhs, epos, pos, _buf_len, _shadow_len, _buf_size);
-
-			if ((rhs < epos) //already read
-				&& (kpos <= rhs)
-				)
-			{
-
-
-
-				//we can move in buffer
-				uint64_t cur_ava = (_buf_len - (_cur_bit >> 3));
-				uint64_t advance = 0;
-				
-				if(rhs > pos)
-					advance = rhs - pos;
-
-				if (advance > cur_ava)
-				{
-					
-
-					_ASSERTE((advance - cur_ava) <= _shadow_len);
-
-					_cur_bit  += (cur_ava << 3);
-					_tot_bits += (cur_ava << 3);
-
-					//force buffer switch
-					this->_nextbits(32);
-
-					_ASSERTE(0 == _cur_bit);
-					//_ASSERTE(0 == _shadow_len);
-
-					uint64_t n = ((advance - cur_ava) << 3);
-
-					_ASSERTE(((_cur_bit + n) >> 3) <= _buf_len);
-
-					_cur_bit  += n;
-					_tot_bits += n;
-
-					_ASSERTE((_cur_bit >> 3) <= _buf_size);
-				}
-				else if ((rhs < pos) && rhs >= (kpos))
-				{
-					//move backward
-					uint64_t n = pos - rhs;
-
-					_ASSERTE((_cur_bit >> 3) >= n);
-					_ASSERTE((_tot_bits >> 3) >= n);
-
-					_cur_bit -= (n << 3);
-
-					if (_tot_bits < (n << 3))
-						_tot_bits = 0;
-					else
-						_tot_bits -= (n << 3);
-
-					_ASSERTE((_cur_bit >> 3) <= _buf_size);
-
-				}
-				else
-				{
-					//move in current buffer
-					uint64_t n = (advance << 3);
-
-					_ASSERTE(((_cur_bit + n) >> 3) <= _buf_len);
-
-					_cur_bit += n;
-					_tot_bits += n;
-
-					_ASSERTE((_cur_bit >> 3) <= _buf_size);
-
-				}
-			}
-            else if(_p_cb->eof() && epos < rhs)
-            {
-                //move to the end
-                if(pos < epos)
-                {
-                    uint64_t n = (epos - pos) << 3;
-                    _cur_bit += n;
-                    _tot_bits += n;
-
-                    _ASSERTE((_cur_bit >> 3) <= _buf_size);
-                }
-            }
-			else
-			{
-                
+		//the storage position includes what is still on its way
+		wait();
 
-				//reset
-                _p_cb->set_position(rhs);
-				_tot_bits = rhs << 3;
+		//first byte after our buffers
+		const uint64_t epos = _p_cb->get_position();
+		//first byte after the current buffer
+		const uint64_t bpos = epos - _shadow_len;
+		//first byte in the current buffer
+		const uint64_t kpos = bpos - _buf_len;
 
-				do_reload = true;
+		FDBGC5(BITSTREAM_POSITION_DEBUG
+			, "SET-POSITION\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu32 "\t%" PRIu32 "\t%" PRIu32 ""
+			, rhs, epos, _buf_len, _shadow_len, _buf_size);
 
-				FDBGC3(BITSTREAM_READ_DEBUG
-					, "SET-POSITION-RELOAD\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu64 ""
-					, rhs, epos, pos);
+		//there is nothing after the end
+		if (epos < rhs && _p_cb->eof())
+			rhs = epos;
 
-			}
+		if (kpos <= rhs && rhs <= bpos)
+		{
+			//move in the current buffer
+			_cur_bit  = (rhs - kpos) << 3;
+			_tot_bits = rhs << 3;
+		}
+		else if (bpos < rhs && rhs <= epos)
+		{
+			//move in the shadow buffer
+			_cur_bit  = static_cast<uint64_t>(_buf_len) << 3;
+			_tot_bits = bpos << 3;
 
+			_advance((rhs - bpos) << 3);
 		}
+		else
+		{
+			//reset
+			_p_cb->set_position(rhs);
+			_tot_bits = rhs << 3;
 
-		if(do_reload)
 			reload();
+		}
 
-		FDBGC5(BITSTREAM_POSITION_DEBUG
-			, "SET-POSITION-END\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu32 "\t%" PRIu32 "\t%d"
-			, rhs, _cur_bit, _shadow_len, _buf_len, do_reload);
+		FDBGC4(BITSTREAM_POSITION_DEBUG
+			, "SET-POSITION-END\t%" PRIu64 "\t%" PRIu64 "\t%" PRIu32 "\t%" PRIu32 ""
+			, rhs, _cur_bit, _shadow_len, _buf_len);
 
 	}
 
@@ -913,71 +828,47 @@ public:
 	
 protected:
 
-	virtual void _skipbits(uint16_t n)
+	//move forward in the data to read, up to the end
+	void _advance(uint64_t n)
 	{
-		//_getbits(n); 
-
-		mg::core::auto_lock l(_load_lock);
-
-		uint64_t bit_len = _buf_len << 3;
-
-        _ASSERTE(bit_len >= _cur_bit);
-
-		uint64_t bit_ava = bit_len - _cur_bit;
-
-		if (bit_ava < n)
+		while (n)
 		{
-			//we do not have enough bits
+			uint64_t bit_ava = (static_cast<uint64_t>(_buf_len) << 3) - _cur_bit;
 
-			uint64_t bit_sha = _shadow_len << 3;
-
-			if ((bit_ava + bit_sha) > n)
-			{
-				_cur_bit += bit_ava;
-				_nextbits(32); //move at the beginning of the _shadow and async reload shadow
-				_ASSERTE(_cur_bit == 0);
-				_ASSERTE((bit_sha >> 3) == _buf_len);
-				_ASSERTE((n - bit_ava) < (_buf_len << 3));
-				_cur_bit += (n - bit_ava);
-				_tot_bits += n;
-			}
-            else if(has_bits(n))
+			if (!bit_ava)
 			{
-				uint64_t pos = _getpos();
-				         pos += n;
-
-						 uint64_t remain = pos % 8;
-
-						 _set_position((pos + n) >> 3);
+				//we are at the end
+				if (atend())
+					return;
 
-						 _ASSERTE(_cur_bit == 0);
-
-                         _ASSERTE((_buf_len << 3) >= (_cur_bit + remain));
-
-						 _cur_bit += remain;
-						 _tot_bits += remain;
-						 
+				fill_buf();
+				continue;
 			}
-            else
-            {
-                //we are at the end
-                if(!atend())
-                {
-                    _cur_bit += bit_ava;
-				    _tot_bits += bit_ava; 
-                }
-
-                _ASSERTE(atend());
-            }
 
+			if (bit_ava > n)
+				bit_ava = n;
+
+			_cur_bit  += bit_ava;
+			_tot_bits += bit_ava;
+			n -= bit_ava;
 		}
-		else
+	}
+
+	virtual void _skipbits(uint16_t n)
+	{
+		if (_load)
 		{
-			_cur_bit += n;
-			_tot_bits += n;
+			_advance(n);
+			return;
 		}
 
+		//we are writing
+		for (; n > 32; n -= 32)
+			_putbits(0, 32);
+
+		_putbits(0, n);
 	}
+
 protected:
 
 	virtual void _read(unsigned char * pbytes, uint32_t size, uint32_t * read)
-- 
2.43.0


From 13b7705068160ac3b7d5cbc032a82d600c4c5b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 007/101] fix: bit position overflow after writing 512 MB or
 more at once

---
 src/mg/core/bitstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index ede15cf..7ff22a6 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -822,7 +822,7 @@ public:
 
 		_p_cb->write(pbyte, size, this); //fire and forget
 
-		_tot_bits += (size << 3);
+		_tot_bits += (static_cast<uint64_t>(size) << 3);
 	}
 	
 	
-- 
2.43.0


From 59dd86a4172033f7806723deeca1710203089092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 008/101] fix: file operation completed with the result of
 another one

When a completion made an earlier read deliverable, that read was given the
result of the operation that had just arrived.
---
 src/mg/core/file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index d7efaf5..4f9967d 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -134,6 +134,9 @@ void cfile::uv_file_cb(uv_fs_t* req)
 	(*fcb->_p_served)++;
 	
 	
+	//the operation served now can be a different one from the one that just arrived
+	req = fcb->_uv_fs_t;
+
 	if(0 > req->result)
 	{
 
-- 
2.43.0


From a16ddba0ea9064d989317b10b1fc026d472e7889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 009/101] fix: reads of a file could be delivered out of order

Other operations of the same file advanced the counter used to order reads.
---
 src/mg/core/file.cpp | 12 ++++++++----
 src/mg/core/file.h   | 10 ++++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 4f9967d..092e449 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -49,14 +49,14 @@ void cfile::uv_file_cb(uv_fs_t* req)
 
 #endif
 	
-	if (fcb->_sequence > (*fcb->_p_served)
+	if (fcb->_sequence > (*fcb->_p_read_served)
 		&& req->fs_type == UV_FS_READ
 		//&& 0 <= req->result
 		)
 	{
 		FDBGC2(NEXT_FRONT_DEBUG, "UNORDERED-READ-PUSH\t%u\t%u"
 			, fcb->_sequence
-			, (*fcb->_p_served)
+			, (*fcb->_p_read_served)
 		);
 		//unordered read operation
 		fcb->_p_forward->push_front(fcb);
@@ -64,7 +64,7 @@ void cfile::uv_file_cb(uv_fs_t* req)
 		std::forward_list<struct_file_cb *>::iterator it = fcb->_p_forward->begin();
 
 		while (it != fcb->_p_forward->end()
-			&& (*it.operator->())->_sequence > (*fcb->_p_served))
+			&& (*it.operator->())->_sequence > (*fcb->_p_read_served))
 		{
 			it++;
 
@@ -133,6 +133,8 @@ void cfile::uv_file_cb(uv_fs_t* req)
 	
 	(*fcb->_p_served)++;
 	
+	if (UV_FS_READ == fcb->_uv_fs_t->fs_type)
+		(*fcb->_p_read_served)++;
 	
 	//the operation served now can be a different one from the one that just arrived
 	req = fcb->_uv_fs_t;
@@ -171,6 +173,8 @@ cfile::cfile(::mg::uv::loopthread & loop)
 	, _position(0)
 	, _outstanding(0)
 	, _served(0)
+	, _read_outstanding(0)
+	, _read_served(0)
 {
 	::memset(&_file_stat, 0, sizeof(uv_stat_t));
 
@@ -453,7 +457,7 @@ CResource<CPromise<CBuffer<unsigned char>>> cfile::read(uint32_t size)
 			}
 		);
 
-		do_outstanding(cb);
+		do_outstanding(cb, true);
 
 		do {
 
diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index e565f53..187af3d 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -50,6 +50,7 @@ struct struct_file_cb: CPromise<uv_fs_t>
 #endif
 
 	uint32_t			* _p_served;
+	uint32_t			* _p_read_served;
 	//uint32_t            * _p_outstanding;
 
 	std::forward_list<struct_file_cb *> * _p_forward;
@@ -83,15 +84,20 @@ class cfile
 	uint32_t            _outstanding;
 	uint32_t            _served;
 
+	//reads are served in the order they were issued
+	uint32_t            _read_outstanding;
+	uint32_t            _read_served;
+
 	signal_event        _ended;
 
-	 void do_outstanding(struct_file_cb * fcb)
+	 void do_outstanding(struct_file_cb * fcb, bool read = false)
 	 {
 		 fcb->_p_served = &_served;
 		 //fcb->_p_outstanding = &_outstanding;
 
 		 //(*fcb->_p_outstanding)++;
-		 fcb->_sequence = _outstanding;
+		 fcb->_p_read_served = &_read_served;
+		 fcb->_sequence = (read) ? _read_outstanding++ : _outstanding;
 		 fcb->_p_forward = &_unordered_buffer;
 
 		 _outstanding++;
-- 
2.43.0


From 995ecd8a76a6f41e450c6231a02de68c33fae078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 010/101] fix: file closed or destroyed while one of its
 callbacks is running

An operation counted as served before its callback ran, so close could return,
and the file be destroyed, under the callback; destroying a file did not wait
for an open on its way; and close never returned once the loop's thread had
ended on an error.
---
 src/mg/core/file.cpp | 18 ++++++++++++++----
 src/mg/core/file.h   |  6 ++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 092e449..5cbda09 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -131,6 +131,10 @@ void cfile::uv_file_cb(uv_fs_t* req)
 	}
 
 	
+	//nobody can consider us done until our callback returned
+	CResource<critical_section> serving = fcb->_serving;
+	auto_lock l(serving.GetRef());
+
 	(*fcb->_p_served)++;
 	
 	if (UV_FS_READ == fcb->_uv_fs_t->fs_type)
@@ -175,6 +179,7 @@ cfile::cfile(::mg::uv::loopthread & loop)
 	, _served(0)
 	, _read_outstanding(0)
 	, _read_served(0)
+	, _serving(new critical_section)
 {
 	::memset(&_file_stat, 0, sizeof(uv_stat_t));
 
@@ -189,8 +194,7 @@ cfile::cfile(::mg::uv::loopthread & loop)
 
 cfile::~cfile()
 {
-	if (_file)
-		close(false);
+	close(false);
 }
 
 CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool async)
@@ -289,13 +293,19 @@ CResource<CPromise<uv_fs_t> > cfile::close(bool async)
 
 	while (this->_served != this->_outstanding)
 	{
+		//nothing will be served any more
+		if (_loop->is_done() && this->_served != this->_outstanding)
+			break;
+
 		_ended.wait(10);
 	}
 
+	do {
+		//wait for the last callback to return
+		auto_lock l(_serving.GetRef());
 
-	_ASSERTE(this->_served == this->_outstanding);
+	} while (0);
 
-	
 	//std::cout << _T("cfile::close 2\t") << _served << _T("\t") << _outstanding << std::endl;
 
 	if (0 == _file)
diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index 187af3d..8320afc 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -54,6 +54,8 @@ struct struct_file_cb: CPromise<uv_fs_t>
 	//uint32_t            * _p_outstanding;
 
 	std::forward_list<struct_file_cb *> * _p_forward;
+
+	CResource<critical_section> _serving;
 };
 
 class cfile
@@ -90,6 +92,9 @@ class cfile
 
 	signal_event        _ended;
 
+	//held while a callback runs, it can outlive us
+	CResource<critical_section> _serving;
+
 	 void do_outstanding(struct_file_cb * fcb, bool read = false)
 	 {
 		 fcb->_p_served = &_served;
@@ -99,6 +104,7 @@ class cfile
 		 fcb->_p_read_served = &_read_served;
 		 fcb->_sequence = (read) ? _read_outstanding++ : _outstanding;
 		 fcb->_p_forward = &_unordered_buffer;
+		 fcb->_serving = _serving;
 
 		 _outstanding++;
 		 //_ASSERTE(fcb->_p_outstanding >= 0);
-- 
2.43.0


From 80c92a8c437bfa65e2a82206b1d14ae8a57760f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 011/101] fix: size of a file being written followed the
 position back

---
 src/mg/core/file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 5cbda09..61150fd 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -415,6 +415,9 @@ CResource<CPromise<uv_fs_t>> cfile::write(const unsigned char * p_buffer, uint32
 	} while (0);
 
 	_position += size;
+
+	if (_position > _file_stat.st_size)
+		_file_stat.st_size = _position;
 	
 	return f;
 }
-- 
2.43.0


From b8b3449def543d6bd8159e9c09290e918baeb0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 012/101] fix: event loop thread could leave operations behind
 when stopped twice

A stop received while draining ended the drain; and destroying a loop thread
that was never started joined a thread that does not exist.
---
 src/mg/core/thread.cpp | 4 +++-
 src/mg/core/thread.h   | 3 ++-
 src/mg/core/uvbase.cpp | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mg/core/thread.cpp b/src/mg/core/thread.cpp
index f23da81..9220f6e 100644
--- a/src/mg/core/thread.cpp
+++ b/src/mg/core/thread.cpp
@@ -186,6 +186,8 @@ void cthread::start()
 {
 	int n = uv_thread_create(&_thread_t, startThread, this);
 	UVCHECK(n);
+
+	_started = true;
 }
 
 void cthread::stop()
@@ -195,7 +197,7 @@ void cthread::stop()
 
 void cthread::join()
 {
-	if (_joined)
+	if (!_started || _joined)
 		return;
 
 	int n = uv_thread_join(&_thread_t);
diff --git a/src/mg/core/thread.h b/src/mg/core/thread.h
index 74c1ca9..5722fba 100644
--- a/src/mg/core/thread.h
+++ b/src/mg/core/thread.h
@@ -98,6 +98,7 @@ class auto_lock
 class cthread
 {
 	uv_thread_t _thread_t;
+	bool _started;
 	bool _joined;
 private:
 
@@ -129,7 +130,7 @@ public:
 
 	void join();	
 
-	cthread() :_joined(false) {}
+	cthread() :_started(false), _joined(false) {}
 
 };
 
diff --git a/src/mg/core/uvbase.cpp b/src/mg/core/uvbase.cpp
index 39ceac4..e580471 100644
--- a/src/mg/core/uvbase.cpp
+++ b/src/mg/core/uvbase.cpp
@@ -61,7 +61,8 @@ void uvloopthread::run()
 				do {
 
 					MGCORE::auto_lock l(_cs);
-					if (_loop->alive())
+					//a further stop must not leave anything behind
+					while (_loop->alive())
 						_loop->run(UV_RUN_DEFAULT);
 
 				} while (0);
-- 
2.43.0


From de3f51c4d374f4ab70f7fad92496439f126d1db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 013/101] fix: copy_stream counters and life time raced with
 its callbacks

---
 src/mg/core/bitstream.cpp | 85 +++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 39 deletions(-)

diff --git a/src/mg/core/bitstream.cpp b/src/mg/core/bitstream.cpp
index 05920b3..2f551fe 100644
--- a/src/mg/core/bitstream.cpp
+++ b/src/mg/core/bitstream.cpp
@@ -45,6 +45,27 @@ class _ccopy_stream :public Ibitstream_cb
 
 	bool _wait_end;
 
+	//the callbacks arrive on the loop's thread
+	critical_section _cs;
+
+	bool too_many()
+	{
+		auto_lock l(_cs);
+		return _read - _write > _max_out;
+	}
+
+	bool all_written()
+	{
+		auto_lock l(_cs);
+		return done();
+	}
+
+	//the locking is up to the caller
+	bool done() const
+	{
+		return (_read == _write) && (0 == _traveling);
+	}
+
 	void wait(signal_event & ev) {
 
 		if (!ev.wait(TIMEOUT))
@@ -60,7 +81,7 @@ public:
 	
 	void wait_read()
 	{
-		while (_read - _write > _max_out)
+		while (too_many())
 		{
 			_read_event.reset();
 			FDBGC3(COPY_STREAM_WAIT, "wait-read\t%u\t%u\t%u", _read, _write, _traveling);
@@ -74,44 +95,19 @@ public:
 
 	void wait_end()
 	{
-		_wait_end = true;
+		do {
+			auto_lock l(_cs);
+			_wait_end = true;
+		} while (0);
 
-		if (_read == _write)
+		while (!all_written())
 		{
-			//wait for the last call to read_cb to end
-            //we do not want to wait in case the call is synchronous
-			if(!_write_event.wait(NO_WAIT))
-			{
-			   //_ASSERTE(false);
-		       //MGCHECK(E_TIMEOUT);
-			}
-
-			return;
-		}
-
-		while (!_write_event.wait(SMALL_WAIT))
-		{
-
 			FDBGC4(COPY_STREAM_DEBUG, "wait-end\t%u\t%u\t%u\t%u", _read, _write, _traveling, 0);
 
-			if (_read == _write)
-			{
-				//wait for the last call to read_cb to end
-				if (!_write_event.wait(SMALL_WAIT))
-				{
-					_ASSERTE(false);
-
-					MGCHECK(E_TIMEOUT);
-				}
-
-				return;
-			}
+			_destination.idle();
 
-			
+			_write_event.wait(SMALL_WAIT);
 		}
-
-		_write_event.wait();
-
 	}
 
 
@@ -130,8 +126,10 @@ public:
 	
 	void read(Ibitstream_storage & source, uint32_t chunk)
 	{
-		_read++;
-
+		do {
+			auto_lock l(_cs);
+			_read++;
+		} while (0);
 		
 		source.read(chunk, this);
 
@@ -144,19 +142,28 @@ public:
 		//DBGC0(_T("-COPY-WAIT-READ-SIGNAL"));
 		
 		
-		_traveling++;
-		
+		do {
+			auto_lock l(_cs);
+			_traveling++;
+		} while (0);
 
 		FDBGC3(COPY_STREAM_DEBUG, "read-cb\t%u\t%u\t%u", _read, _write, _traveling);
 
 				
 		_destination.write(const_cast<unsigned char*>(p_val), read, this);
 
-		//std::cout << "read_cb" << std::endl;
+		auto_lock l(_cs);
+
+		_traveling--;
+
+		if (_wait_end && done())
+			_write_event.signal();
 	}
 	
 	virtual void write_cb(uint32_t written) override
 	{	
+		//who is waiting cannot go on until we are done
+		auto_lock l(_cs);
 
 		_write++;
 		
@@ -170,7 +177,7 @@ public:
 
 		if (_wait_end)
 		{
-			if (_read == _write)
+			if (done())
 			{
 				FDBGC3(COPY_STREAM_WAIT, "write-signal\t%u\t%u\t%u", _read, _write, _traveling);
 				_write_event.signal();
-- 
2.43.0


From a5f107ba3e0dbd0876afe771ed881b227faa5741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 014/101] fix: aligning past the end of the data did not
 terminate

---
 src/mg/core/bitstream.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/core/bitstream.h b/src/mg/core/bitstream.h
index 7ff22a6..e646296 100644
--- a/src/mg/core/bitstream.h
+++ b/src/mg/core/bitstream.h
@@ -510,6 +510,10 @@ protected:
 			_skipbits(s);
 		}
 		while (_tot_bits % n) {
+			//we cannot go further
+			if (_load && atend())
+				throw EndOfData(__FILE__, __LINE__);
+
 			s += 8;
 			_skipbits(8);
 		}
-- 
2.43.0


From 46bd259175fa9d52b6b132eef1256dc112efc092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 015/101] fix: reading a buffer past its content returned what
 was not there

---
 src/mg/cbuffer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mg/cbuffer.h b/src/mg/cbuffer.h
index f6be9f3..41e91d4 100644
--- a/src/mg/cbuffer.h
+++ b/src/mg/cbuffer.h
@@ -154,10 +154,12 @@ public:
 	//READ A SPECIFIED NUMBER OF TYPES FROM THE SPECIFIED POSITION
 	bool ReadBuffer(type *buffer, unsigned long dwsize, unsigned long &dwread, sizetype position)
 	{
-				dwread = m_iCurrent - position;
-				if(0 > dwread) //did not have nothing to read
+				dwread = 0;
+				if(position > m_iCurrent) //did not have nothing to read
 					return false;
 
+				dwread = m_iCurrent - position;
+
 				if(dwsize < dwread) //we still have space
 					dwread = dwsize;
 
-- 
2.43.0


From 0c583214ed53a8de7bd3ded125433f23caafab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 016/101] fix: appending a buffer or a string to itself read
 freed memory

---
 src/mg/cbuffer.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mg/cbuffer.h b/src/mg/cbuffer.h
index 41e91d4..ae0f2df 100644
--- a/src/mg/cbuffer.h
+++ b/src/mg/cbuffer.h
@@ -97,8 +97,15 @@ public:
 		if(0 == size)
 			return;
 
+		//the source can be part of this buffer, which prepare can move
+		bool     own      = (source >= m_p && source < m_p + m_iSize);
+		sizetype position = own ? static_cast<sizetype>(source - m_p) : 0;
+
 		prepare(size);
 
+		if(own)
+			source = m_p + position;
+
 		//DOUBLE CHECK BUT THIS SHOULD NEVER HAPPEN SINCE PREPARE DOES THE SAME CHECK
 		if((m_iSize - m_iCurrent) < size)throw std::bad_alloc();
 		//----------------------------------//
-- 
2.43.0


From 8a599ae7d94aba89d53b71a345bccaf38b940bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 017/101] fix: splitting again kept the pieces of the previous
 text

---
 src/mg/splitter.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mg/splitter.h b/src/mg/splitter.h
index e93888f..1c50e38 100644
--- a/src/mg/splitter.h
+++ b/src/mg/splitter.h
@@ -55,6 +55,7 @@ public:
 			return;
 
 		m_str = scontent;
+		m_locator.clear();
 
 		TCHAR *pszbegin = scontent;
 		size_t nLen = _tcslen(sseparator);
-- 
2.43.0


From e34b00aaa92546b9f2e485c2e839f8fe394503b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 018/101] fix: sub string past the end of the text read past
 the end of the buffer

---
 src/mg/alxstring.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index a27027b..456783e 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -636,8 +636,9 @@ public:
 	CstringT subString(const size_t nbegin, size_t nLen) const
 	{
 		CstringT &s = const_cast<CstringT&>(*this);
-		//let see if the source buffer is big enough
-		nLen = ST_U32((s.m_str->getSize() - nbegin) < nLen?s.m_str->getSize():nLen);
+		//let see if there is enough text
+		size_t available = (s.m_str->getFull() > nbegin) ? s.m_str->getFull() - nbegin : 0;
+		nLen = ST_U32(available < nLen?available:nLen);
 			CResource<CBuffer<TCHAR> > tmp(new CBuffer<TCHAR>(nLen + 1));
 			const TCHAR *sz = s;
 			tmp->add(sz + nbegin, nLen);
-- 
2.43.0


From 4aac6f4ba5c707d69426bd7a91ad794bf0bc1189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 019/101] fix: formatted append printed its argument list
 instead of the arguments

---
 src/mg/alxstring.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/mg/alxstring.h b/src/mg/alxstring.h
index 456783e..f4aaa28 100644
--- a/src/mg/alxstring.h
+++ b/src/mg/alxstring.h
@@ -764,22 +764,36 @@ public:
 
 	void append_format(const TCHAR *pszFmtString, ...)
 	{	
-		TCHAR szLine[2048];
-                int retVal = 0;
+        int retVal = 0;
         
 		va_list args;
 		va_start( args, pszFmtString );
 #ifdef _WIN32
+		TCHAR szLine[2048];
 		retVal = StringCbVPrintf(szLine, sizeof(szLine), pszFmtString, args );
+
+		va_end( args );
+
+		MGBASECHECK(retVal);
+
+		operator+=(szLine);
 #else
-		retVal = sprintf(szLine, pszFmtString, args);
-#endif
-		
+		retVal = vsnprintf(NULL, 0, pszFmtString, args);
+
+		va_end( args );
+
 		MGBASECHECK(retVal);
 
+		CBuffer<TCHAR> line(retVal + 1);
+
+		va_start( args, pszFmtString );
+		retVal = vsnprintf(line.get(), retVal + 1, pszFmtString, args);
 		va_end( args );
 
-		operator+=(szLine);
+		MGBASECHECK(retVal);
+
+		operator+=(line.get());
+#endif
 	}
 
 
-- 
2.43.0


From 7c637b848633f764ceb3c8dad34f3e0485ac8589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 020/101] fix: an undeclared parameter could be reached by the
 shortcut 0

---
 src/mg/cmdline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/cmdline.h b/src/mg/cmdline.h
index f1cb7a9..d650048 100644
--- a/src/mg/cmdline.h
+++ b/src/mg/cmdline.h
@@ -482,7 +482,7 @@ public:
 
 					if(add)
 					{
-						console_item item = {type_string, false, _T("unclussified parameter"), '0'};
+						console_item item = {type_string, false, _T("unclussified parameter"), 0x0};
 						_commands[name] = item;
 					}
 				}				
-- 
2.43.0


From 613e0b7784ed72ba5cb0376c7197f031fa7661b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 021/101] fix: boolean parameter given by its shortcut had no
 value

---
 src/mg/cmdline.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mg/cmdline.h b/src/mg/cmdline.h
index d650048..0e61833 100644
--- a/src/mg/cmdline.h
+++ b/src/mg/cmdline.h
@@ -473,6 +473,11 @@ public:
 							{
 								name = it->first;
 								add = false;
+
+								//no args = true
+								if(x < 0 && it->second.t == type_bool)
+									value = _T("T");
+
 								break;
 							}
 
-- 
2.43.0


From 1bd29cdbb71965b618572d3ea73ecc8bbf9b5a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 022/101] fix: asking how often an unknown parameter was given
 declared it

---
 src/mg/cmdline.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mg/cmdline.h b/src/mg/cmdline.h
index 0e61833..996456a 100644
--- a/src/mg/cmdline.h
+++ b/src/mg/cmdline.h
@@ -560,7 +560,11 @@ public:
 	uint32_t get_command_count(const TCHAR * pszname)
 	{
 		//_ASSERTE(_commands.find(pszname) != _commands.end());
-		return ST_U32(_commands[pszname].psz_value.size());
+		std::map<Cstring, console_item>::const_iterator it = _commands.find(pszname);
+		if(_commands.end() == it)
+			return 0;
+
+		return ST_U32(it->second.psz_value.size());
 	}
 
 	Cstring get_help()
-- 
2.43.0


From 06e73370c8071e2986ca0eb5db436aa9f2ed85ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 023/101] fix: base 64 decoding of '{' read past the end of the
 table

---
 src/b64/src/cdecode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/b64/src/cdecode.cpp b/src/b64/src/cdecode.cpp
index 39a95d4..feeb8b7 100644
--- a/src/b64/src/cdecode.cpp
+++ b/src/b64/src/cdecode.cpp
@@ -34,7 +34,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From 957b664903a61d55f77023575e19c523cb95d64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 024/101] fix: report libuv error codes instead of an overflow
 of the unsigned conversion

---
 src/mg/core/file.cpp | 6 +++---
 src/mg/core/uvbase.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 61150fd..64c439c 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -146,11 +146,11 @@ void cfile::uv_file_cb(uv_fs_t* req)
 	if(0 > req->result)
 	{
 
-		std::cout << "!!!file async error " << uv_strerror(ST_U32(req->result))
+		std::cout << "!!!file async error " << uv_strerror(static_cast<int>(req->result))
 			<< _T("\t")
 			<< std::endl;
 
-		fcb->call_er(std::make_exception_ptr(MGCORE::mgexception(ST_U32(req->result), uv_strerror(ST_U32(req->result)), _T(__FILE__), __LINE__)));
+		fcb->call_er(std::make_exception_ptr(MGCORE::mgexception(static_cast<int>(req->result), uv_strerror(static_cast<int>(req->result)), _T(__FILE__), __LINE__)));
 	}
 	else
 	{
@@ -222,7 +222,7 @@ CResource<CPromise<uv_fs_t> > cfile::open(const TCHAR * path, int flags, bool as
 			CResource<CPromise<uv_fs_t> > prom;
 			                              prom.Create();
 
-										  prom->call_er(std::make_exception_ptr(::mg::core::mgexception(ST_U32(req.result), uv_strerror(ST_U32(req.result)), _T(__FILE__), __LINE__)));
+										  prom->call_er(std::make_exception_ptr(::mg::core::mgexception(static_cast<int>(req.result), uv_strerror(static_cast<int>(req.result)), _T(__FILE__), __LINE__)));
 
 										  return prom;
 
diff --git a/src/mg/core/uvbase.h b/src/mg/core/uvbase.h
index 1c570e4..365b221 100644
--- a/src/mg/core/uvbase.h
+++ b/src/mg/core/uvbase.h
@@ -33,7 +33,7 @@
 __UV_BEGIN_NAMESPACE
 
 
-#define UVCHECK(num){ if (num < 0){ throw MGCORE::mgexception(ST_U32(num), uv_strerror(ST_U32(num)), _T(__FILE__), __LINE__); } }
+#define UVCHECK(num){ if (num < 0){ throw MGCORE::mgexception(static_cast<int>(num), uv_strerror(static_cast<int>(num)), _T(__FILE__), __LINE__); } }
 
 
 
-- 
2.43.0


From 1cc81fe6a28671a8705f1a8393d1b752c0b39e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 025/101] fix: size of a file is its length wherever the
 position is

---
 src/mg/core/file.cpp | 4 +++-
 src/mg/core/file.h   | 4 ----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 64c439c..2e9dfe0 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -451,7 +451,9 @@ CResource<CPromise<CBuffer<unsigned char>>> cfile::read(uint32_t size)
 		uint64_t * ppos = &_position;
 		uint64_t    pos = _position;
 
-		if ((pos + size) > this->size())
+		if (pos >= this->size())
+			size = 0; //nothing left to read
+		else if ((pos + size) > this->size())
 			size = static_cast<uint32_t>(this->size() - pos);
 
 #ifdef _DEBUG
diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index 8320afc..22d3ec3 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -127,10 +127,6 @@ public:
 	CResource<CPromise<CBuffer< unsigned char  > > > read(uint32_t size);
 
 	uint64_t size() const { 
-		
-		if (_position >= _file_stat.st_size && 0 < _position) //we are writing
-			return _position /*+ 1*/;
-
 		return _file_stat.st_size; 
 	}
 
-- 
2.43.0


From 13b70f0a18f4cd2ad7b3e135b21d22e23cdc06f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 026/101] fix: a file closed asynchronously is not closed a
 second time

---
 src/mg/core/file.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mg/core/file.cpp b/src/mg/core/file.cpp
index 2e9dfe0..bfbb39a 100644
--- a/src/mg/core/file.cpp
+++ b/src/mg/core/file.cpp
@@ -321,13 +321,11 @@ CResource<CPromise<uv_fs_t> > cfile::close(bool async)
 
 		cb->set_er();
 
-		uv_file * pfile = &_file;
+		//the request owns the descriptor now: it must not be closed again when the loop cannot deliver
+		uv_file file = _file;
+		_file = 0;
 
-		cb->set_cb([ pfile ](CResource<uv_fs_t> & req) 
-		{
-			(*pfile) = 0; 
-		}
-		);
+		cb->set_cb([](CResource<uv_fs_t> &) {});
 
 		CResource<CPromise<uv_fs_t>> f = cb->forward();
 
@@ -337,7 +335,7 @@ CResource<CPromise<uv_fs_t> > cfile::close(bool async)
 		do {
 
 			auto_lock l(_loop->loop_lock());
-			int r = uv_fs_close(_loop->get_loop(), cb->_uv_fs_t, _file, uv_file_cb);
+			int r = uv_fs_close(_loop->get_loop(), cb->_uv_fs_t, file, uv_file_cb);
 			UVCHECK(r);
 
 		} while (0);
-- 
2.43.0


From 51d21d460fba0a1852675ff42258765ece8411fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:01 +0000
Subject: [PATCH 027/101] fix: copying a range stops at its end, not at the end
 of a chunk

---
 src/mg/core/bitstream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/bitstream.cpp b/src/mg/core/bitstream.cpp
index 2f551fe..7b30ffa 100644
--- a/src/mg/core/bitstream.cpp
+++ b/src/mg/core/bitstream.cpp
@@ -210,7 +210,13 @@ void copy_stream(
 		
 		FDBGC0(COPY_STREAM_DEBUG, "read");
 
-		ccs.read(source, chunk);
+		//the last chunk stops where the copy does
+		uint32_t size = chunk;
+
+		if (endpos != 0 && endpos - source.get_position() < size)
+			size = static_cast<uint32_t>(endpos - source.get_position());
+
+		ccs.read(source, size);
 		
 	}
 
-- 
2.43.0


From 13c8a6b701da1bd42ce0cc0b9695ff1bed57e498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:01 +0000
Subject: [PATCH 028/101] fix: a file can be positioned beyond four gigabytes

---
 src/mg/core/file.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/file.h b/src/mg/core/file.h
index 22d3ec3..f1fac6d 100644
--- a/src/mg/core/file.h
+++ b/src/mg/core/file.h
@@ -263,7 +263,11 @@ public:
 	virtual uint64_t get_position() const { return ::ftell(_f); }
 
 	virtual void     set_position(uint64_t rhs) {
-		::fseek(_f, static_cast<uint32_t>(rhs), SEEK_SET);
+#ifdef _WIN32
+		::_fseeki64(_f, static_cast<int64_t>(rhs), SEEK_SET);
+#else
+		::fseeko(_f, static_cast<off_t>(rhs), SEEK_SET);
+#endif
 	}
 
 	void close()
-- 
2.43.0


From 1f59ff06ca635d663ba0bd3a0e77efe9aa60cbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:01 +0000
Subject: [PATCH 029/101] fix: memory can be written to after reading from it

---
 src/mg/media/TBitstream.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/media/TBitstream.h b/src/mg/media/TBitstream.h
index 1e119db..a802325 100644
--- a/src/mg/media/TBitstream.h
+++ b/src/mg/media/TBitstream.h
@@ -144,6 +144,9 @@ public:
 		_current_pos += possible_read;
 		align_size();
 
+		//the buffer is filled up to the position
+		_buffer.updatePosition(possible_read);
+
 		//callback
 		pcb->read_cb(_buffer.get() + pos, possible_read);
 
-- 
2.43.0


From f59cf476718c552ab0514476ee899bdac1133f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 030/101] fix: skipping a box takes the size of its header into
 account

---
 src/mg/media/mp4parse.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 4844c4c..7808b2e 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -575,8 +575,14 @@ public:
 
 	void skip_current()
 	{
-		_ASSERTE(_current_box.get_size() > 8);
-		skipbytes(_current_box.get_size() - 8);
+		_ASSERTE(_current_box.get_size() >= 8);
+
+		uint64_t header = get_position() - _box_position; //8 bytes, or 16 with a 64 bits size
+
+		if(box_uuid == _current_box.get_type())
+			header -= 16; //get_size does not count the extended type
+
+		skipbytes(_current_box.get_size() - header);
 	}
 
 	const Box & get_box() const {return _current_box;}
-- 
2.43.0


From 3a7ddb7219388673ddcfd907de27350f4b8f4af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 031/101] fix: ordering samples by composition time stays
 within the table

---
 src/mg/media/mp4parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 7808b2e..c4f1645 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -977,7 +977,7 @@ class CMP4TimeManager
 				return;
 			}
 
-			while(n.composition_time < comp[idx - 1].composition_time)
+			while(0 < idx && n.composition_time < comp[idx - 1].composition_time)
 			{
 				stack.push(comp[--idx]);
 			}
-- 
2.43.0


From 2062640753e094d967bc2ea7023cb4def674c9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 032/101] fix: the decoding end time of a stream is that of its
 last sample

---
 src/mg/media/mp4parse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index c4f1645..568616c 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -2878,13 +2878,13 @@ public:
 	uint64_t get_decoding_end_time(const unsigned int stream_number) const
 	{
 		_ASSERTE(stream_number < _streams.size());
-		return _streams[stream_number]->get_decoding_time(_streams.size() - 1);
+		return _streams[stream_number]->get_decoding_time(_streams[stream_number]->get_sample_count() - 1);
 	}
 
 	uint64_t get_decoding_end_time_plus_duration(const unsigned int stream_number) const
 	{
 		_ASSERTE(stream_number < _streams.size());
-		return get_decoding_end_time(ST_U32(_streams.size() - 1)) + get_sample_duration(ST_U32(_streams.size() - 1));
+		return get_decoding_end_time(stream_number) + get_sample_duration(stream_number);
 	}
 
 
-- 
2.43.0


From c16b07c79f07983400cf2be04012b8edb456eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 033/101] fix: seeking to the time of a sample finds that
 sample whatever the time scale

---
 src/mg/media/mp4parse.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 568616c..8101549 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -2323,10 +2323,16 @@ public:
 		return (1000UL * 10000UL * duration) / _mdhd.get_timescale() ;
 
 	}
+	//the last tick whose time in hns is not after this one
+	uint64_t hns_to_ticks(const uint64_t time) const
+	{
+		return ((time + 1) * _mdhd.get_timescale() - 1) / (1000UL * 10000UL);
+	}
+
 	uint64_t get_IFrame_number(uint64_t time)
 	{	  
 
-		 uint64_t composition_time = time * _mdhd.get_timescale() / (1000UL * 10000UL);
+		 uint64_t composition_time = hns_to_ticks(time);
 
 		 return _time_manager.get_IFrame_number(composition_time);
 	}
@@ -2342,13 +2348,13 @@ public:
 
 	uint64_t get_decoding_sample_number(const uint64_t time) const
 	{
-		uint64_t dtime = time * _mdhd.get_timescale() / (1000UL * 10000UL);
+		uint64_t dtime = hns_to_ticks(time);
 		return _time_manager.get_decoding_sample_number(dtime);
 	}
 
 	uint64_t get_composition_sample_number(const uint64_t time) const
 	{
-		uint64_t dtime  = time * _mdhd.get_timescale() / (1000UL * 10000UL);
+		uint64_t dtime  = hns_to_ticks(time);
 		//uint64_t sample = _time_manager.get_decoding_sample_number(dtime);
 		uint64_t sample = _time_manager.get_composition_sample_number(dtime);
 
-- 
2.43.0


From 34a55e1b66346eeb8ca265e96d9a756a4bb42b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 034/101] fix: seeking by composition time follows the
 composition order

---
 src/mg/media/mp4parse.h | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 8101549..6998491 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1255,24 +1255,38 @@ public:
 			, comp_sample_comp);
 
 
-		bool found = (
-			    it != _composition_2sample.end()
-			 && time <= it->composition_time);
-
-		if(!found)
-			return 0;
-
-		if(it == _composition_2sample.begin())
+		if(_composition_2sample.empty())
 			return 0;
 
-		_ASSERTE(it != _composition_2sample.begin());
+		if(it == _composition_2sample.end()) //after the last one
+			return _composition_2sample.back().sample_number;
 
-		if(time < it->composition_time)
+		if(time < it->composition_time && it != _composition_2sample.begin())
 		   it--;
 
 		return it->sample_number;
 		  
 	  }
+
+	  //the sample shown after this one
+	  uint64_t get_next_composition_sample_number(const uint64_t sample_number) const
+	  {
+		  if(!_has_ctts)
+			  return sample_number + 1;
+
+		  composition_sample_number target = {get_composition_time(sample_number), 0};
+
+		  std::vector<composition_sample_number>::const_iterator it = 
+			std::upper_bound(_composition_2sample.begin()
+			, _composition_2sample.end()
+			, target
+			, comp_sample_comp);
+
+		  if(it == _composition_2sample.end())
+			  return sample_number;
+
+		  return it->sample_number;
+	  }
      
 
 	  //return the decoding time + the composition offset
@@ -2373,7 +2387,7 @@ public:
 		}
 
 		if(_time_manager.get_composition_time(sample) < dtime)
-			sample++;
+			sample = _time_manager.get_next_composition_sample_number(sample);
 
 		if(sample >= _time_manager.get_sample_count())
 		{
-- 
2.43.0


From 36b1f56b1bbfb452c9817cb1a8fa04f143a885d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 035/101] fix: playback starts at the random access point that
 was chosen

---
 src/mg/media/mp4parse.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 6998491..78ca82f 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -3079,6 +3079,10 @@ public:
 					_streams[i]->move_to_sample(sn);
 					
 				}
+				else if(stream == i)
+				{
+					_streams[i]->move_to_sample(sample_number);
+				}
 				else
 				{
 					_streams[i]->move(decoding_time);
-- 
2.43.0


From 005aca9c2ee5be80d20d0152416e8583cf50ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:34 +0000
Subject: [PATCH 036/101] fix: write the sizes of samples that all have the
 same size

---
 src/mg/media/mp4write.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index 3acccdd..aa35878 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -659,21 +659,22 @@ protected:
 		//if(!_samples.size() && _allow_empty_stream && !_has_size)
 		//	return;
 
+		//when all the samples have the same size it is written once
 		uint32_t sample_size(0);
+
+		if(!_has_size && _samples.size())
+			sample_size = static_cast<uint32_t>(_samples[0].size);
 		
 		FullBox stsz;
 
 		mp4w.open_box(box_stsz);
 		mp4w.write_box(stsz);
 
-		//if(_has_size)
-			mp4w.write_uint(0x00);	
-		//else
-		//	mp4w.write_uint(_samples[0].size);
+		mp4w.write_uint(sample_size);
 
 		mp4w.write_uint(ST_U32(_samples.size()));
 
-		if(_has_size)
+		if(!sample_size)
 		{
 			for(uint32_t i = 0; i < _samples.size(); i++)
 			{
-- 
2.43.0


From e21654ce1d943f363d79f7c84f3397f88b9e29b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:34 +0000
Subject: [PATCH 037/101] fix: count a single sample once in the time to sample
 table

---
 src/mg/media/mp4write.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index aa35878..c94726b 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -477,7 +477,8 @@ protected:
 
 		if(_samples.size() || !_allow_empty_stream)
 		{
-			current_count++;
+			if(1 != _samples.size()) //the last sample lasts as long as the one before
+				current_count++;
 
 			mp4w.write_uint(static_cast<uint32_t>(current_count));
 			mp4w.write_uint(sample_delta);
-- 
2.43.0


From 9fec4f81fff44ce609ec2ca2dc9ccc593437d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:34 +0000
Subject: [PATCH 038/101] fix: write the samples still waiting for other
 streams when a file ends

---
 src/mg/media/mp4mux.h   |  2 ++
 src/mg/media/mp4write.h | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/src/mg/media/mp4mux.h b/src/mg/media/mp4mux.h
index 1bf45e2..2704c1f 100644
--- a/src/mg/media/mp4mux.h
+++ b/src/mg/media/mp4mux.h
@@ -363,6 +363,8 @@ public:
 
 	virtual void end()
 	{
+		_write.write_queued_samples(_body);
+
 		_body.close();
 
 		_write.compute_auto_decoding_time();
diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index c94726b..a8c1312 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -1000,6 +1000,20 @@ public:
 		return last_time;
 	}
 
+	//time of the first sample still in the queue, NOWRITE if there are none
+	uint64_t get_queued_time(bool use_composition = true)
+	{
+		if(!_sample_queue.size())
+			return NOWRITE;
+
+		BYTE * p_body(NULL);
+		int body_size(0);
+
+		const media_sample * p_ms = _sample_queue.pick_next(&body_size, &p_body);
+
+		return static_cast<uint64_t>(use_composition ? p_ms->composition_time : p_ms->decoding_time);
+	}
+
 	
 	uint64_t get_start_time() const
 	{
@@ -2181,6 +2195,31 @@ public:
 
 	}
 
+	//write what is waiting for samples of other streams which will not come
+	virtual void write_queued_samples(CMP4W & mp4w)
+	{
+		for(;;)
+		{
+			uint64_t min(NOWRITE);
+
+			for(uint32_t i = 0; i < _streams.size(); i++)
+			{
+				uint64_t t = _streams[i]->get_queued_time(_use_composition_in_distance);
+
+				if(t < min)
+					min = t;
+			}
+
+			if(NOWRITE == min)
+				return;
+
+			bool stream_over;
+
+			for(uint32_t i = 0; i < _streams.size(); i++)
+				_streams[i]->write_samples(min, mp4w, stream_over, _use_composition_in_distance);
+		}
+	}
+
 	virtual void write_ftyp(CMP4W &mp4w, uint32_t type = box_ftyp)
 	{
 		mp4w.write_child_box(box_ftyp, _ftyp);
-- 
2.43.0


From 2370c2047e26d0b758494104a5e94c57803a478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:34 +0000
Subject: [PATCH 039/101] fix: align streams to the earliest decoding time of
 all of them

---
 src/mg/media/mp4write.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index a8c1312..e12fb15 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -2328,6 +2328,12 @@ public:
 
 		uint64_t start_less = _streams[stream]->get_decoding_start_time();
 
+		for(uint32_t i = 0; i < _streams.size(); i++)
+		{
+			if(_streams[i]->get_decoding_start_time() < start_less)
+				start_less = _streams[i]->get_decoding_start_time();
+		}
+
 		uint64_t min_diff = 0;//100000ui64;
 
 		for(uint32_t i = 0; i < _streams.size(); i++)
-- 
2.43.0


From f355f125c96f43519be0a1b474f33bed1c89cc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:34 +0000
Subject: [PATCH 040/101] fix: convert times to and from time scales without
 losing ticks

---
 src/mg/media/mp4write.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index e12fb15..a49b929 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -260,10 +260,9 @@ public:
 
 	static uint64_t time_scale(const uint64_t hnano, uint64_t timescale)
 	{
-		double seconds = (double)hnano / 10000000.0;
-		double t = seconds * (double)timescale;
+		uint64_t seconds = hnano / 10000000ULL;
 
-		return static_cast<uint64_t>(t);
+		return seconds * timescale + (hnano % 10000000ULL) * timescale / 10000000ULL;
 	}
 protected:
 
@@ -291,10 +290,9 @@ protected:
 	}
 	virtual uint64_t get_hnano(const uint64_t time_scaled) const
 	{
-		double seconds = (double)time_scaled / (double)get_timescale();
-		double hnano =  seconds * 10000000.0;
+		uint64_t seconds = time_scaled / get_timescale();
 
-		return static_cast<uint64_t>(hnano);
+		return seconds * 10000000ULL + (time_scaled % get_timescale()) * 10000000ULL / get_timescale();
 	}
 
 	virtual void register_chunk()
-- 
2.43.0


From 42e25068e1c1dbae494ada1564233835b3b906b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:34 +0000
Subject: [PATCH 041/101] fix: fill the compressor name and the profile
 compatibility of a video description

---
 src/mg/media/mp4parse.h | 1 +
 src/mg/media/mp4write.h | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index 78ca82f..af7699c 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -1730,6 +1730,7 @@ public:
         _visual.vertresolution = vertresolution;
         _visual.frame_count = 1;
         _visual.size = 0;
+		::memset(_visual.compressorname, 0, sizeof(_visual.compressorname));
 
 	/////////////////////////IOS 7////////////////////
 		_visual.depth = 0;
diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index a49b929..c35a2dd 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -1853,10 +1853,10 @@ public:
 		                               avcc.AVCProfileIndication  = sequence.profile_idc;
 									   avcc.profile_compatibility = 
 											  sequence.constraint_set0_flag << 7 
-										   || sequence.constraint_set1_flag << 6
-										   || sequence.constraint_set2_flag << 5
-										   || sequence.constraint_set3_flag << 4
-										   || sequence.reserved_zero_bits;
+										   | sequence.constraint_set1_flag << 6
+										   | sequence.constraint_set2_flag << 5
+										   | sequence.constraint_set3_flag << 4
+										   | sequence.reserved_zero_bits;
 									   avcc.AVCLevelIndication = sequence.level_idc;
 									   avcc.lengthSizeMinusOne = 3;
 
-- 
2.43.0


From dd506f2219b295096e1ffa52227503c34e94f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:34 +0000
Subject: [PATCH 042/101] fix: take fields and cropping into account in the
 picture size

---
 src/mg/media/mp4write.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4write.h b/src/mg/media/mp4write.h
index c35a2dd..3f9d714 100644
--- a/src/mg/media/mp4write.h
+++ b/src/mg/media/mp4write.h
@@ -1868,8 +1868,21 @@ public:
 						
 
 
+		 //a map unit of a sequence with fields covers two rows of macroblocks
+		 const uint32_t fields = sequence.frame_mbs_only_flag ? 1 : 2;
+
 		 width_i  = (16 * (sequence.pic_width_in_mbs_minus1 + 1));
-    	 height_i = (16 * (sequence.pic_height_in_map_units_minus1 + 1));
+    	 height_i = (16 * (sequence.pic_height_in_map_units_minus1 + 1)) * fields;
+
+		 if(sequence.frame_cropping_flag)
+		 {
+			 const uint32_t chroma = sequence.profile_idc >= 100 ? sequence.chroma_format_idc : 1;
+			 const uint32_t unit_x = (1 == chroma || 2 == chroma) ? 2 : 1;
+			 const uint32_t unit_y = ((1 == chroma) ? 2 : 1) * fields;
+
+			 width_i  -= unit_x * (sequence.frame_crop_left_offset + sequence.frame_crop_right_offset);
+			 height_i -= unit_y * (sequence.frame_crop_top_offset + sequence.frame_crop_bottom_offset);
+		 }
 
 		 avcc.put(var_bs);
 
-- 
2.43.0


From b1b7c17f091aeb5b672a7c8b3a3b8e007fe09a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:23 +0000
Subject: [PATCH 043/101] fix: the end of the closing point of a presentation,
 or of an unknown one, is refused instead of read from nowhere

---
 src/mg/media/mp4dynamicinfo.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index bce998b..997f83e 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -306,14 +306,20 @@ public:
 		int64_t orig = INT64_MAX;
 		int64_t comp = INT64_MAX;
 
-		_ASSERTE(_computed.end() != iter);
-		
-		//if(_computed.end() != iter)
-		//{
-			orig = iter->second;
-			comp = iter->first;
-			iter++;
-		//}
+		if(_computed.end() == iter)
+		{
+			ALXTHROW_LASTERR1(E_INVALIDARG );
+		}
+
+		orig = iter->second;
+		comp = iter->first;
+		iter++;
+
+		//the closing point has no end
+		if(_computed.end() == iter)
+		{
+			ALXTHROW_LASTERR1(E_INVALIDARG );
+		}
 		
         std::set<int64_t>::const_iterator ifilecross1 = _file_cross.upper_bound(comp);
         std::set<int64_t>::const_iterator ifilecross2 = _file_cross.upper_bound(iter->first);
@@ -347,6 +353,12 @@ public:
 			iter++;
 		}
 
+		//unknown times and the closing point have no end
+		if(_computed.end() == iter)
+		{
+			ALXTHROW_LASTERR1(E_INVALIDARG );
+		}
+
 		return iter->first;
 	}
 
-- 
2.43.0


From d1bbe666f32466bf49395abd34832b4734bb46a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:23 +0000
Subject: [PATCH 044/101] fix: a fragment before one that spans two files ends
 where that one begins

---
 src/mg/media/mp4dynamicinfo.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index 997f83e..5f025b4 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -338,6 +338,10 @@ public:
 
 		}
 
+		//the next fragment begins in this file and ends in another
+		if(CROSS_POINT_TIME == iter->second)
+			return get_cross_point(iter->first).composition;
+
 		return iter->second;
 	}
 
-- 
2.43.0


From 1cf06a216c050b4a0c4ed591a3bccfb265076492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:23 +0000
Subject: [PATCH 045/101] fix: rebasing a presentation moves the times inside
 its cross points too

---
 src/mg/media/mp4dynamicinfo.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index 5f025b4..9aa0c77 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -430,6 +430,8 @@ public:
 		for(icross = _computed_cross.begin(); icross != _computed_cross.end(); icross++ )
 		{
 			cross[icross->first + offset] = icross->second;
+			cross[icross->first + offset].computed_time   += offset;
+			cross[icross->first + offset].computed_time_2 += offset;
 		}
 
 		_computed_cross.clear();
-- 
2.43.0


From 32e39ae71706fbae9495fbe2ead8005b37b5404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:23 +0000
Subject: [PATCH 046/101] fix: asking a stream for a bit rate it has not does
 not add an empty one

---
 src/mg/media/mp4dynamicinfo.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index 9aa0c77..b271364 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -614,7 +614,13 @@ public:
 		
 	DynamicBitrate * get_bit_rate(uint64_t bit_rate)
 	{
-		return _bitrates[bit_rate];
+		std::map<uint64_t, DynamicBitrate *>::iterator iter = _bitrates.find(bit_rate);
+
+		//looking must not add it
+		if(_bitrates.end() == iter)
+			return NULL;
+
+		return iter->second;
 	}
 
 	/*void AddFile(const Cstring & path)
-- 
2.43.0


From 9299289fe0fc6b4b01d15a57a2c408c36ef2488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:23 +0000
Subject: [PATCH 047/101] fix: a manifest counts its fragments without the
 closing point

---
 src/mg/media/mp4dynamicinfo.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index b271364..288e1ed 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -683,7 +683,10 @@ public:
 		if(this->is_audio())
 			stype = stream_type::stream_audio;
 
-		renderer->begin_stream(name, _points.Count(), _bitrates.size(), stype);
+		//the last point only closes the last fragment
+		int fragments = (0 < _points.Count())?(_points.Count() - 1):0;
+
+		renderer->begin_stream(name, fragments, _bitrates.size(), stype);
 		render_type(renderer);
 
 		CBuffer<DynamicBitrate*> dinamic_bitrates(_bitrates.size());
-- 
2.43.0


From a11483c3c306140723c09cf8175f22a9495d0191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 048/101] fix: durations in DASH and HLS manifests have their
 whole fraction, with its leading zeros

---
 src/mg/media/hls_renderer.h   |  6 +-----
 src/mg/media/mp4dynamicinfo.h | 12 ++++++++++++
 src/mg/media/mpd_renderer.h   |  6 +-----
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/mg/media/hls_renderer.h b/src/mg/media/hls_renderer.h
index 4ff95ed..878b0f2 100644
--- a/src/mg/media/hls_renderer.h
+++ b/src/mg/media/hls_renderer.h
@@ -203,12 +203,8 @@ public:
 
 		//duration = duration / 10UL;
 
-		uint64_t TNANO = duration % 1000000UL;
-
 		_body += _T("#EXTINF:");
-		_body += duration / 10000000UL;
-		_body += _T(".");
-		_body += TNANO;
+		append_seconds(_body, duration);
 		_body += _T(",no-desc\r\n");
 		_body += _prefix;
 		_body += _T("_");
diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index 288e1ed..8260dd6 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -29,6 +29,18 @@
 
 enum stream_type{stream_video, stream_audio};
 
+//appends a time in 100ns units as seconds with all its seven decimals
+inline void append_seconds(Cstring & out, uint64_t duration)
+{
+	out += duration / 10000000UL;
+	out += _T(".");
+
+	uint64_t fraction = duration % 10000000UL;
+
+	for(uint64_t unit = 1000000UL; unit > 0; unit /= 10)
+		out += (fraction / unit) % 10;
+}
+
 class IDynamicRenderer
 {
 public:
diff --git a/src/mg/media/mpd_renderer.h b/src/mg/media/mpd_renderer.h
index 95cb3ac..9bbd9da 100644
--- a/src/mg/media/mpd_renderer.h
+++ b/src/mg/media/mpd_renderer.h
@@ -67,8 +67,6 @@ public:
 	
 	virtual void begin(uint64_t duration)
 	{	
-		uint64_t TNANO = duration % 1000000UL;
-	
 		_xml += _T("<MPD xmlns=\"urn:mpeg:dash:schema:mpd:2011\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" ");
 		_xml += _T("profiles=\"urn:mpeg:dash:profile:isoff-live:2011\" type=\"static\" ");
 
@@ -78,9 +76,7 @@ public:
 		}
 
         _xml += _T("mediaPresentationDuration=\"PT");
-		_xml += duration / 10000000UL;
-		_xml += _T(".");
-		_xml += TNANO;
+		append_seconds(_xml, duration);
 		_xml += _T("S\" minBufferTime=\"PT3S\">\r\n");
 
 		_xml += _T("\t<Period>\r\n");
-- 
2.43.0


From 6d40334d5bb8dbd81d6db54eddc95d37e2b5be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 049/101] fix: the codec string of a video bit rate carries the
 constraint flags of its parameter set

---
 src/mg/media/hls_renderer.h | 6 ------
 src/mg/media/mpd_renderer.h | 6 ------
 2 files changed, 12 deletions(-)

diff --git a/src/mg/media/hls_renderer.h b/src/mg/media/hls_renderer.h
index 878b0f2..aeded9f 100644
--- a/src/mg/media/hls_renderer.h
+++ b/src/mg/media/hls_renderer.h
@@ -123,12 +123,6 @@ public:
 		_video_codec.append_hex_buffer(codec_private_data + 3, 1);
 
 		unsigned char profile_compatibility = codec_private_data[4];
-		              profile_compatibility = 
-						                      (profile_compatibility & 0x80) >> 7
-										   || (profile_compatibility & 0x40) << 6
-										   || (profile_compatibility & 0x20) << 5
-										   || (profile_compatibility & 0x10) << 4
-										   ;
 
 	    _video_codec.append_hex_buffer(&profile_compatibility, 1);
 
diff --git a/src/mg/media/mpd_renderer.h b/src/mg/media/mpd_renderer.h
index 9bbd9da..f4e8972 100644
--- a/src/mg/media/mpd_renderer.h
+++ b/src/mg/media/mpd_renderer.h
@@ -139,12 +139,6 @@ public:
 		codecs.append_hex_buffer(codec_private_data + 3, 1);
 
 		unsigned char profile_compatibility = codec_private_data[4];
-		              profile_compatibility = 
-						                      (profile_compatibility & 0x80) >> 7
-										   || (profile_compatibility & 0x40) << 6
-										   || (profile_compatibility & 0x20) << 5
-										   || (profile_compatibility & 0x10) << 4
-										   ;
 
 		codecs.append_hex_buffer(&profile_compatibility, 1);
 
-- 
2.43.0


From 49ff46c1bb6760a970a01886be9fa5a02d80607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:08 +0000
Subject: [PATCH 050/101] fix: audio bit rates of a DASH manifest have
 different ids

---
 src/mg/media/mpd_renderer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/media/mpd_renderer.h b/src/mg/media/mpd_renderer.h
index f4e8972..3180c22 100644
--- a/src/mg/media/mpd_renderer.h
+++ b/src/mg/media/mpd_renderer.h
@@ -217,6 +217,9 @@ public:
 		_rappresentation_xml += _current_stream;
 		_rappresentation_xml += _T("_");
 		_rappresentation_xml += _group_id;
+#else
+		_rappresentation_xml += _T("_");
+		_rappresentation_xml += bit_rate;
 #endif
 		_rappresentation_xml += "\" bandwidth=\"";
 		_rappresentation_xml += bit_rate;
-- 
2.43.0


From ad82c575178bd5cc4da8626bb45b20adc11b71e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:08 +0000
Subject: [PATCH 051/101] fix: the largest picture of a DASH stream is not that
 of an earlier stream

---
 src/mg/media/mpd_renderer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/media/mpd_renderer.h b/src/mg/media/mpd_renderer.h
index 3180c22..adfbf66 100644
--- a/src/mg/media/mpd_renderer.h
+++ b/src/mg/media/mpd_renderer.h
@@ -90,6 +90,9 @@ public:
 		_rappresentation_xml = _T("");
 		_points_xml = _T("");
 
+		_maxWidth  = 0;
+		_maxHeight = 0;
+
 		_current_stream = psz_name;
 		_stype = stype;
 		_current_stream_time = 0;
-- 
2.43.0


From 0d8f102fb42ce2e5f5fb47bc4a362806ab897413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:08 +0000
Subject: [PATCH 052/101] fix: the target duration of an HLS playlist is that
 of its longest segment

---
 src/mg/media/hls_renderer.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/hls_renderer.h b/src/mg/media/hls_renderer.h
index aeded9f..f711778 100644
--- a/src/mg/media/hls_renderer.h
+++ b/src/mg/media/hls_renderer.h
@@ -53,6 +53,8 @@ class HLSRenderer: public IDynamicRenderer
 	 bool _begin_stream;
 	 bool _video_points;
 
+	 uint64_t _target_duration;
+
 	 int _audio_bit_rate;
 
 	 Cstring _prefix;
@@ -73,6 +75,7 @@ public:
 		, _body(10240)
 		, _begin_stream(false)
 		, _video_points(false)
+		, _target_duration(0)
 		, _prefix(_T("video"))
 		, _use_stream_name(true)
 		, _encrypted(false)
@@ -182,7 +185,7 @@ public:
 			_body += _T("#EXT-X-ALLOW-CACHE:NO\r\n");
 			_body += _T("#EXT-X-MEDIA-SEQUENCE:0\r\n");
 			_body += _T("#EXT-X-TARGETDURATION:");
-			_body += duration / 10000000UL;
+			_body += _T("$(TARGETDURATION)");
 			_body += "\r\n";
 			_body += _T("#EXT-X-PROGRAM-DATE-TIME:1970-01-01T00:00:00Z\r\n");
 
@@ -197,6 +200,12 @@ public:
 
 		//duration = duration / 10UL;
 
+		//no segment, rounded, may be longer
+		uint64_t seconds = (duration + 5000000UL) / 10000000UL;
+
+		if(_target_duration < seconds)
+			_target_duration = seconds;
+
 		_body += _T("#EXTINF:");
 		append_seconds(_body, duration);
 		_body += _T(",no-desc\r\n");
@@ -246,6 +255,14 @@ public:
 	{
 		Cstring body = _body.clone();
 
+		if(0 == body.size())
+			return body;
+
+		Cstring target;
+		        target += _target_duration;
+
+		body = replace(body, target, _T("$(TARGETDURATION)"));
+
 		return replace(body, bit_rate, _T("$(BITRATE)"));
 
 	}
-- 
2.43.0


From 3f05f223c49f88f4240afb75f7620f651b283ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:08 +0000
Subject: [PATCH 053/101] fix: an HLS playlist ends also when the video is not
 the last stream

---
 src/mg/media/hls_renderer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/hls_renderer.h b/src/mg/media/hls_renderer.h
index f711778..b7b09d6 100644
--- a/src/mg/media/hls_renderer.h
+++ b/src/mg/media/hls_renderer.h
@@ -235,7 +235,8 @@ public:
 	}
 	virtual void end()
 	{
-		if(!_video_points)
+		//the last stream need not be the video
+		if(0 == _body.size())
 			return;
 
 		_body += _T("#EXT-X-ENDLIST\r\n");
-- 
2.43.0


From 838436504e02f6b3eb4091fa00c406909a3c3de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:08 +0000
Subject: [PATCH 054/101] fix: paths in a smooth streaming index are escaped

---
 src/mg/media/mp4dynamicinfo.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index 8260dd6..590666b 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -1388,7 +1388,7 @@ public:
     virtual void add_point_info(const TCHAR * psz_path, uint64_t composition, uint64_t computed)
 	{
 		_ssf_xml += _T("<h p=\"");
-		_ssf_xml += psz_path;
+		append_path(psz_path);
 		_ssf_xml += _T("\" t=\"");
 		_ssf_xml += composition;
 		_ssf_xml += _T("\" c=\"");
@@ -1400,7 +1400,7 @@ public:
 	virtual void add_point_info_cross(const TCHAR * psz_path, uint64_t composition, uint64_t computed)
 	{
 		_ssf_xml += _T("<cp p=\"");
-		_ssf_xml += psz_path;
+		append_path(psz_path);
 		_ssf_xml += _T("\" t=\"");
 		_ssf_xml += composition;
 		_ssf_xml += _T("\" c=\"");
@@ -1425,6 +1425,17 @@ public:
 
 	Cstring & xml(){return _ssf_xml;}
 
+	void append_path(const TCHAR * psz_path)
+	{
+		Cstring path(psz_path);
+
+		path = replace(path, _T("&amp;"),  _T("&"));
+		path = replace(path, _T("&lt;"),   _T("<"));
+		path = replace(path, _T("&quot;"), _T("\""));
+
+		_ssf_xml += path;
+	}
+
 	void set_use_stream_name(bool rhs){ _use_stream_name = rhs; }
 };
 
-- 
2.43.0


From 286953a8faee6cb3372046c326b70451557a8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 055/101] fix: a fragment that spans two files ends where it
 ends in the second

---
 src/mg/media/mp4dynamicinfo.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index 590666b..f60fd1d 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -327,6 +327,15 @@ public:
 		comp = iter->first;
 		iter++;
 
+		//a fragment that spans two files ends in the second
+		if(CROSS_POINT_TIME == orig)
+		{
+			const CrossPoint & cp = get_cross_point(comp);
+
+			orig = cp.composition_2;
+			comp = cp.computed_time_2;
+		}
+
 		//the closing point has no end
 		if(_computed.end() == iter)
 		{
-- 
2.43.0


From d88fba9e13b554ebf6e9bd8ec7daeb578e2128ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:10 +0000
Subject: [PATCH 056/101] fix: write the earliest presentation time of a
 segment index with 64 bits

---
 src/mg/media/mp4fragmented.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index a94954e..d88b881 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -428,10 +428,11 @@ public:
             mp4w.write_child_box(box_STYP, ftyp);
 
             uint64_t sidx_referenced_size_position = mp4w.get_position();
-                     sidx_referenced_size_position += (12 + 16 + 4);
+                     sidx_referenced_size_position += (12 + 24 + 4);
 
             SegmentIndexBox sidx;
                             
+                            sidx.set_version(1); //64 bits times
                             sidx.reference_ID = _tfhd.track_ID;
                             sidx.timescale = U64_ST(_timescale);//1000UL * 10000UL;
                             sidx.set_earliest_presentation_time(
-- 
2.43.0


From 9873414e7564f786ff59ea422108a4b41f40d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:53 +0000
Subject: [PATCH 057/101] fix: scale composition offsets that are negative

---
 src/mg/media/mp4fragmented.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index d88b881..dc6bb91 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -344,7 +344,10 @@ public:
 		)
 	{
 
-		uint64_t comp_diff = TIMESCALE(composition_time - decoding_time, _timescale);
+		//samples can be presented before they are decoded
+		int64_t comp_diff = (composition_time < decoding_time)?
+			-static_cast<int64_t>(TIMESCALE((decoding_time - composition_time), _timescale)):
+			 static_cast<int64_t>(TIMESCALE((composition_time - decoding_time), _timescale));
 
 		unsigned int     comp_diff_flag = 0x000800 & _trun.get_flags();
 
@@ -435,8 +438,9 @@ public:
                             sidx.set_version(1); //64 bits times
                             sidx.reference_ID = _tfhd.track_ID;
                             sidx.timescale = U64_ST(_timescale);//1000UL * 10000UL;
+                            //the composition offset is signed
                             sidx.set_earliest_presentation_time(
-                                    _trun.get_item(0).sample_composition_time_offset + _baseMediaDecodeTime
+                                    static_cast<int>(_trun.get_item(0).sample_composition_time_offset) + _baseMediaDecodeTime
                             );
                             
                             sidx.set_first_offset(0);
-- 
2.43.0


From 25cfa7a24d50a1a0d6c5c16c83e780c67019e41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:40 +0000
Subject: [PATCH 058/101] fix: write a fragment that holds no sample

---
 src/mg/media/mp4/mp4_fragments.fl |  4 +++-
 src/mg/media/mp4fragmented.h      | 12 +++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mg/media/mp4/mp4_fragments.fl b/src/mg/media/mp4/mp4_fragments.fl
index 2154f06..2f982b6 100644
--- a/src/mg/media/mp4/mp4_fragments.fl
+++ b/src/mg/media/mp4/mp4_fragments.fl
@@ -125,7 +125,9 @@ private:
 public:
 
       TrackRunBox():_duration(0)
-      {}
+      {
+          sample_count = 0;
+      }
 
       uint64_t get_duration(){return _duration;}
      
diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index dc6bb91..c91debe 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -438,17 +438,19 @@ public:
                             sidx.set_version(1); //64 bits times
                             sidx.reference_ID = _tfhd.track_ID;
                             sidx.timescale = U64_ST(_timescale);//1000UL * 10000UL;
+                            //a fragment may be empty
+                            uint64_t earliest_presentation_time = (has_baseMediaDecodeTime())?_baseMediaDecodeTime:0;
+
                             //the composition offset is signed
-                            sidx.set_earliest_presentation_time(
-                                    static_cast<int>(_trun.get_item(0).sample_composition_time_offset) + _baseMediaDecodeTime
-                            );
+                            if(0 < _trun.get_sample_count())
+                                earliest_presentation_time += static_cast<int>(_trun.get_item(0).sample_composition_time_offset);
+
+                            sidx.set_earliest_presentation_time(earliest_presentation_time);
                             
                             sidx.set_first_offset(0);
 
                             sidx.reference_count = 1;
 
-                            uint32_t idx = _trun.get_sample_count() - 1;
-
                             //sidx.reference_type[0] = 0;
                             //sidx.referenced_size[0] = 0;
                             sidx.subsegment_duration[0] = U64_ST(_trun.get_duration());// +
-- 
2.43.0


From d6de050d5809567a291802714d86b58386009d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:40 +0000
Subject: [PATCH 059/101] fix: enter a stream where the first sample of the
 fragment is decoded

---
 src/mg/media/mp4fragmented.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index c91debe..51ed36d 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -603,7 +603,18 @@ public:
 
 		//////////////////////////////////////////////////////////////////////
 
-		reader.move(start_time, stream_id);
+		uint64_t entry_time = start_time;
+
+		//positioning is in decoding time: enter where the sample presented at the start is decoded
+		if(reader.has_random_access_point(stream_id))
+		{
+			entry_time = (start_time > stream_offset)?(start_time - stream_offset):0;
+			entry_time = reader.get_decoding_time(
+				  reader.get_composition_sample_number(entry_time, stream_id)
+				, stream_id);
+		}
+
+		reader.move(entry_time, stream_id);
 
 #ifdef _DEBUG
 		
-- 
2.43.0


From 92fdeb4949583fa99f043e3b5f7326679b35efd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:01 +0000
Subject: [PATCH 060/101] fix: write the duration of the fragments with 64 bits
 and in the movie time scale

---
 src/mg/media/mp4fragmented.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index 51ed36d..db15fb8 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -774,7 +774,9 @@ public:
 					output_stream.open_box(box_MVEX);
 
 						MovieExtendsHeaderBox mehd;
-											  mehd.set_fragment_duration(duration);
+											  mehd.set_version(1); //64 bits duration
+											  //in the time scale of the movie
+											  mehd.set_fragment_duration(TIMESCALE(duration, time_scale));
 
 											  output_stream.write_child_box(box_MEHD, mehd);
 
-- 
2.43.0


From 9707b1551ecdef48aea5774242747005712bc274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:27 +0000
Subject: [PATCH 061/101] fix: read each fragment afresh

---
 src/mg/media/MOOFReader.h | 60 ++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/src/mg/media/MOOFReader.h b/src/mg/media/MOOFReader.h
index 119c09c..c5802db 100644
--- a/src/mg/media/MOOFReader.h
+++ b/src/mg/media/MOOFReader.h
@@ -59,6 +59,44 @@ protected:
 	}
 
 private:
+	void clear_tfrf()
+	{
+		for(unsigned int i = 0; i < _TfrfBox.size(); i++)
+			delete _TfrfBox[i];
+
+		_TfrfBox.clear();
+	}
+
+	void reset()
+	{
+		_mdat_position = 0;
+		_moof_position = 0;
+
+		_has_bbox = false;
+		_has_tfxd = false;
+
+		clear_tfrf();
+
+		_tbox = TrackFragmentHeaderBox();
+
+		_trunbox.cleanup();
+		_trunbox.set_flags(0);
+		_trunbox.sample_count = 0;
+
+#ifdef CENC
+		_has_saio = false;
+		_has_saiz = false;
+		_has_tenc = false;
+		_has_senc = false;
+
+		_saio._samples_offset.clear();
+		_saiz._samples_info_size.clear();
+
+		_senc.cleanup();
+		_senc.sample_count = 0;
+#endif
+	}
+
 	void parse_boxes(CMP4 &mp4, bool strict = false)
 	{
 		Cstring g;
@@ -173,27 +211,21 @@ private:
 
 public:
 
-	MOOFReader():_has_bbox(false)
-		, _has_tfxd(false)
-#ifdef CENC
-		, _has_saio(false)
-		, _has_saiz(false)
-		, _has_tenc(false)
-		, _has_senc(false)
-#endif
+	MOOFReader()
 	{
+		reset();
 	}
 
 	~MOOFReader()
 	{
-		for(unsigned int i = 0; i < _TfrfBox.size(); i++)
-			delete _TfrfBox[i];
-
-		_TfrfBox.clear();
+		clear_tfrf();
 	}
 
 	void parse(CMP4 &mp4, bool strict = true)
 	{
+		//nothing is known of the next fragment
+		reset();
+
 		if(strict)
 		{
 			if(0 != mp4.get_position())
@@ -206,10 +238,6 @@ public:
 		{
 			MP4CHECK(box_MOOF);
 		}
-		else
-		{
-			_mdat_position = 0;
-		}
 
 		if(box)
 			parse_boxes(mp4, strict);
-- 
2.43.0


From bba22cc44c55ff21add3398f71115ac77832e9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:27 +0000
Subject: [PATCH 062/101] fix: read the times of live fragments that have 32
 bits

---
 src/mg/media/mp4/mp4_fragments.fl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/media/mp4/mp4_fragments.fl b/src/mg/media/mp4/mp4_fragments.fl
index 2f982b6..1e567ed 100644
--- a/src/mg/media/mp4/mp4_fragments.fl
+++ b/src/mg/media/mp4/mp4_fragments.fl
@@ -316,12 +316,12 @@ aligned(8) class SSFLIVE_BODY(unsigned int vers)
 		    version = vers;
 	 %g}
 	 
-	unsigned int(32)           FragmentAbsoluteTime_0;
 	if(1 == vers)
-		unsigned int(32)           FragmentAbsoluteTime;
-	unsigned int(32)           FragmentDuration_0;
+		unsigned int(32)           FragmentAbsoluteTime_0;
+	unsigned int(32)           FragmentAbsoluteTime;
 	if(1 == vers)
-		unsigned int(32)           FragmentDuration;
+		unsigned int(32)           FragmentDuration_0;
+	unsigned int(32)           FragmentDuration;
 %{
 
 	unsigned int version;
-- 
2.43.0


From 6db33041162d38f56f74e82497e23d7b3e8dc306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:10 +0000
Subject: [PATCH 063/101] fix: read the high part of an auxiliary information
 offset first

---
 src/mg/media/mp4/cenc.fl | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mg/media/mp4/cenc.fl b/src/mg/media/mp4/cenc.fl
index ce85cf6..e5fc1c0 100644
--- a/src/mg/media/mp4/cenc.fl
+++ b/src/mg/media/mp4/cenc.fl
@@ -270,13 +270,10 @@ aligned(8) class SampleAuxiliaryInformationOffsetsBox extends FullBox
 	   {
 			%p{ set_offset(_samples_offset[i]); %p}
 		    
-			unsigned int(32) offset;
-			if ( version == 0 ) {
-				
-			}
-			else {
+			if ( version != 0 ) {
 				unsigned int(32) offset_0;
 			}
+			unsigned int(32) offset;
 		
 			%g{_samples_offset.push_back(get_offset());%g}
 		}
-- 
2.43.0


From 91b27a92ee77d366f43a41375c25eafa58f2255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:42 +0000
Subject: [PATCH 064/101] fix: parts shorter than the look ahead can be joined

---
 src/mg/media/mp4edit.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index 367f938..9d2a5f1 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -313,7 +313,21 @@ void CMP4EditBase::do_edit_mux(
 		{
 			
 			if(!reader.next_file_chunks(ms))
-				ALXTHROW_T(_T("cannot check first sample info."));
+			{
+				//what is left may be shorter than the look ahead
+				for(size_t i = 0; i < reader.stream_count(); i++)
+				{
+					if(!reader.IsValidStream(i) || reader.IsLTC(i))
+						continue;
+
+					if(INT64_MAX == (info.map[i].video
+							? info.video_info[info.map[i].internal_index].next_composition
+							: info.audio_info[info.map[i].internal_index].next_composition))
+						ALXTHROW_T(_T("cannot check first sample info."));
+				}
+
+				break;
+			}
 
             if ((ms.composition_time + static_cast<int64_t>(reader.get_stream_offset(ms.stream))) < start && discard_pre_start) //<-- loose gop position
             {
-- 
2.43.0


From e569a48806727eb2c6ddf619d884ad8a8eefd015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 065/101] fix: join a reordered stream to one that is not

---
 src/mg/media/mp4edit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index 9d2a5f1..88ec3f9 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -70,7 +70,8 @@ void CMP4EditBase::do_edit_header_mux( MP4Reader &reader
 				, reader.get_visual_entry(0, i).get_entry().height
 				);
 
-			mp4w.set_auto_decoding_time(info.video_info[info.video_streams_count - 1].stream_id, reader.has_composition_time(i));
+			//a file joined later may have composition times even if this one does not
+			mp4w.set_auto_decoding_time(info.video_info[info.video_streams_count - 1].stream_id, true);
 
 			info.video_info[info.video_streams_count - 1].set_info(
 				  reader.get_visual_entry(0, i).get_avcc_header().get_nal_sequence(0)
-- 
2.43.0


From a3da5ffb5330acc28ea9a84d6c957a0248cdf48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:01 +0000
Subject: [PATCH 066/101] fix: files with picture parameter sets of different
 sizes are not joined

---
 src/mg/media/mp4edit.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index 88ec3f9..658ff76 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -242,11 +242,11 @@ void CMP4EditBase::do_edit_mux(
 					ALXTHROW_T(_T("The files do not have the same sequence"));
 				}
 
-				if(info.video_info[video_stream].sequence_size != 
-					reader.get_visual_entry(0, i).get_avcc_header().get_sequence_size()
+				if(info.video_info[video_stream].picture_size != 
+					reader.get_visual_entry(0, i).get_avcc_header().get_picture_size()
 					)
 				{
-					ALXTHROW_T(_T("The files do not have the same sequence size"));
+					ALXTHROW_T(_T("The files do not have the same picture size"));
 				}
 
 				if(memcmp(
-- 
2.43.0


From e70ed13b94eb4681aa88adbb3be776a87a745c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:56 +0000
Subject: [PATCH 067/101] fix: the last point of a stream is where its last
 sample ends

---
 src/mg/media/mp4dynamic.h     | 8 +++++---
 src/mg/media/mp4dynamicinfo.h | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4dynamic.h b/src/mg/media/mp4dynamic.h
index 902f192..309af77 100644
--- a/src/mg/media/mp4dynamic.h
+++ b/src/mg/media/mp4dynamic.h
@@ -107,7 +107,7 @@ public:
 		)
 	{
 		
-		if(_stream_end[stream_id] < composition_time)
+		if(_stream_end[stream_id] <= composition_time)
 		{
 			_stream_end[stream_id] = composition_time;
 			_stream_end_duration[stream_id] = duration;
@@ -199,9 +199,11 @@ protected:
 		, uint64_t total_stream_samples) const 
 	{
 		std::map<int, uint64_t> & stream_composition_end = *(const_cast<std::map<int, uint64_t> *>(&_stream_composition_end));
-		if(stream_composition_end[ms.stream] < static_cast<uint64_t>(ms.composition_time))
+		uint64_t composition_end = ms.composition_time + stream_offset + ms.duration;
+
+		if(stream_composition_end[ms.stream] < composition_end)
 		{
-			stream_composition_end[ms.stream] = ms.composition_time + ms.duration;
+			stream_composition_end[ms.stream] = composition_end;
 		}
 	}
 
diff --git a/src/mg/media/mp4dynamicinfo.h b/src/mg/media/mp4dynamicinfo.h
index f60fd1d..464fa99 100644
--- a/src/mg/media/mp4dynamicinfo.h
+++ b/src/mg/media/mp4dynamicinfo.h
@@ -1240,6 +1240,7 @@ public:
 		{		
 			_presentation.get_by_index(i)->AddPoint(
 					  get_stream_end(i)
+						+ this->_stream_start_offset[i]
 					, /*INT64_MAX //this is a closing point. it should never be used.
 						     //it's just there to allow computing the duration of
 						     //the real last one
-- 
2.43.0


From 5a1e9a298893bc914caf4475a5578f4e888748cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:56 +0000
Subject: [PATCH 068/101] fix: the points of a delayed stream are when its
 samples are presented

---
 src/mg/media/mp4dynamic.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index d8720ba..11d2ed1 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -59,12 +59,13 @@ void CMP4Dynamic::move_to_read(  uint64_t start
 			//publish_stream
 			//TODO: use decoding start instead of start
 			uint64_t composition      = reader.get_composition_time(reader.get_IFrame_number(start, idx), idx);
+			uint64_t off              = reader.get_stream_offset(idx);
 
 			if(UINT64_MAX == computed_start_time)
-				computed_start_time = composition;
+				computed_start_time = composition + off;
 			
 			
-			while(composition < _current_end
+			while((composition + off) < _current_end
 				&& (
 						   composition > t_composition 
 						|| UINT64_MAX == t_composition 
@@ -73,10 +74,10 @@ void CMP4Dynamic::move_to_read(  uint64_t start
 			{
 				
 				publish_composition(
-				    composition
+				    composition + off
 				  , computed_time(composition
 				                 , idx
-								 , reader.get_stream_offset(idx)
+								 , off
 								 )
 				  , idx
 				);
@@ -99,7 +100,8 @@ void CMP4Dynamic::move_to_read(  uint64_t start
 				{
 					if(!reader.IsLTC(idx) && reader.has_random_access_point(idx))
 					{
-						computed_start_time = reader.get_composition_time(reader.get_IFrame_number(start, idx), idx);
+						computed_start_time = reader.get_composition_time(reader.get_IFrame_number(start, idx), idx)
+							+ reader.get_stream_offset(idx);
 						break;
 					}
 				}
-- 
2.43.0


From 5a56d1c385d546fd192dc0a0b1ca1a2bf8862f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:14 +0000
Subject: [PATCH 069/101] fix: what is left of a file is joined to its own
 stream in the next

---
 src/mg/media/mp4dynamic.cpp | 32 ++++++++++++++++----------------
 src/mg/media/mp4dynamic.h   | 27 ++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index 11d2ed1..c127c2f 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -27,7 +27,7 @@ CMP4Dynamic::CMP4Dynamic(void)
 	_info.file_count = 0;
 
 	for(int i = 0; i < MAX_STREAM; i++)
-		_stream_start_offset[0];
+		_stream_start_offset[i] = 0;
 }
 
 CMP4Dynamic::~CMP4Dynamic(void)
@@ -344,25 +344,25 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 	}
 
 
-	if(UINT64_MAX != _reporting_start_time 
+	if(UINT64_MAX != _reporting_start_time[stream] 
 			&& _generate_only_full_fragment)
 	{
-		_ASSERTE(jump > _reporting_samples);
+		_ASSERTE(jump > _reporting_samples[stream]);
 		
-		uint64_t fill_jump = jump - _reporting_samples;
+		uint64_t fill_jump = jump - _reporting_samples[stream];
 
 		uint64_t t1 = computed_time(
-			                          (composition - off) - (_reporting_samples * d)
+			                          (composition - off) - (_reporting_samples[stream] * d)
 									 , stream
 									 , off
 									 );
 
-		//_ASSERTE(t1 >= _reporting_computed_start_time);
+		//_ASSERTE(t1 >= _reporting_computed_start_time[stream]);
 
-		t1 = _reporting_computed_start_time;
+		t1 = _reporting_computed_start_time[stream];
 
 
-		publish_segmented_composition_cross( _reporting_start_time
+		publish_segmented_composition_cross( _reporting_start_time[stream]
 			, t1
 			, composition
 			, computed_time(
@@ -384,7 +384,7 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 		composition += off;
 
 
-		_reporting_start_time = UINT64_MAX;
+		_reporting_start_time[stream] = UINT64_MAX;
 	}
 		
 
@@ -407,25 +407,25 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 		{
 			if(_generate_only_full_fragment)
 			{
-				_ASSERTE(UINT64_MAX == _reporting_start_time);
+				_ASSERTE(UINT64_MAX == _reporting_start_time[stream]);
 				 
-				_reporting_samples    = reader.get_sample_count(stream) - p;
+				_reporting_samples[stream]    = reader.get_sample_count(stream) - p;
 
-				uint64_t sn   = reader.get_sample_count(stream) - _reporting_samples;
+				uint64_t sn   = reader.get_sample_count(stream) - _reporting_samples[stream];
 
-				_reporting_start_time = reader.get_decoding_time(sn, stream);
+				_reporting_start_time[stream] = reader.get_decoding_time(sn, stream);
 
 				if(has_composition)
 				{
-					_reporting_start_time = reader.get_composition_time(sn, stream);
+					_reporting_start_time[stream] = reader.get_composition_time(sn, stream);
 				}
 		    				
-				_reporting_computed_start_time = computed_time(_reporting_start_time
+				_reporting_computed_start_time[stream] = computed_time(_reporting_start_time[stream]
 									 , stream
 									 , off
 									 );
 
-				_reporting_start_time += off;
+				_reporting_start_time[stream] += off;
 				
 				//p = reader.get_sample_count(stream); //get off
 				return;
diff --git a/src/mg/media/mp4dynamic.h b/src/mg/media/mp4dynamic.h
index 309af77..e29df50 100644
--- a/src/mg/media/mp4dynamic.h
+++ b/src/mg/media/mp4dynamic.h
@@ -349,13 +349,25 @@ public:
 class CMP4DynamicDiscreate : public CMP4Dynamic
 {
 	uint64_t _fragment_length;
-	uint64_t _last_fragment[64];
+	uint64_t _last_fragment[MAX_STREAM];
 	uint64_t _fragment_tolerance;
 
 	bool			 _generate_only_full_fragment; //if true we join an half fragment from one file to the following one
-    uint64_t _reporting_start_time;
-	uint64_t _reporting_computed_start_time;
-	uint64_t				 _reporting_samples;
+	//what is left of a file, by stream
+    uint64_t _reporting_start_time[MAX_STREAM];
+	uint64_t _reporting_computed_start_time[MAX_STREAM];
+	uint64_t				 _reporting_samples[MAX_STREAM];
+
+	void reset()
+	{
+		for(int i = 0; i < MAX_STREAM; i++)
+		{
+			_last_fragment[i]                 = UINT64_MAX;
+			_reporting_start_time[i]          = UINT64_MAX;
+			_reporting_computed_start_time[i] = UINT64_MAX;
+			_reporting_samples[i]             = 0;
+		}
+	}
 protected:
 	
 	virtual void begin_stream(int stream){_last_fragment[stream] = UINT64_MAX;}
@@ -399,12 +411,13 @@ public:
 		:_fragment_length(20000000)
 		, _fragment_tolerance(260000) //less than a frame
 		, _generate_only_full_fragment(true)
-		, _reporting_start_time(UINT64_MAX)
-	{}
+	{reset();}
 
 	CMP4DynamicDiscreate(uint64_t fragment_length)
 		:_fragment_length(fragment_length)
-	{}
+		, _fragment_tolerance(260000) //less than a frame
+		, _generate_only_full_fragment(true)
+	{reset();}
 
 	void set_fragment_length(uint64_t fragment_length)
 	{_fragment_length = fragment_length;}
-- 
2.43.0


From e4d6cfb867a84969305018ea55208bd0e8b0ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:14 +0000
Subject: [PATCH 070/101] fix: find the first sample to index, and do not index
 beyond the last

---
 src/mg/media/mp4dynamic.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index c127c2f..a474743 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -334,6 +334,9 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 
 	while(composition < start)
 	{
+		if(++p >= reader.get_sample_count(stream))
+			return; //nothing left from there
+
 		if(has_composition)
 			composition =  reader.get_composition_time(p, stream);
 		else
@@ -376,15 +379,17 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 		
 		p += fill_jump;
 
+		_reporting_start_time[stream] = UINT64_MAX;
+
+		if(p >= reader.get_sample_count(stream))
+			return; //all of it fills what was left
+
 		if(has_composition)
 			composition =  reader.get_composition_time(p, stream);
 		else
 		    composition = reader.get_decoding_time(p, stream);
 
 		composition += off;
-
-
-		_reporting_start_time[stream] = UINT64_MAX;
 	}
 		
 
-- 
2.43.0


From e17166decaea6bc2698b388225e37586c2113e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:14 +0000
Subject: [PATCH 071/101] fix: find the end of streams that end before the last
 group of pictures

---
 src/mg/media/mp4dynamic.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index a474743..105d949 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -38,9 +38,6 @@ void CMP4Dynamic::move_to_read(  uint64_t start
 			, MP4Reader &reader
 			)
 {
-	bool only_audio = !reader.HasVisual();
-	uint64_t last_composition = 0;
-
 	uint64_t computed_start_time = UINT64_MAX;
     
     size_t stream_count =  reader.stream_count();
@@ -117,12 +114,10 @@ void CMP4Dynamic::move_to_read(  uint64_t start
 		}
 
 		end_stream();
-
-		if(reader.IsVisual(idx) || only_audio)
-			last_composition = t_composition;
 	}
 
-	reader.move(last_composition);
+	//all of it: other streams may end before the last picture
+	reader.move(start);
 
 }
 
-- 
2.43.0


From 9c6fa19a84e6fe01c4ec06d3a27d1bca5517ecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:21 +0000
Subject: [PATCH 072/101] fix: index access points that are presented after the
 nominal duration

---
 src/mg/media/mp4dynamic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index 105d949..1b3d33e 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -241,7 +241,7 @@ void CMP4Dynamic::Add(/*MP4File*/CMP4 & mp4, MP4Reader & reader, uint64_t start,
 
 	if (0 == _current_end)
 	{
-		_current_end = reader.get_duration();
+		_current_end = UINT64_MAX; //reordered samples can be presented later than the duration
 	}
 
 	if (0 == _info.file_count)
-- 
2.43.0


From d4d6700cfdc3f7baef90820fdfd211e53b6686b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:47 +0000
Subject: [PATCH 073/101] fix: index sound from the picture where every picture
 is an access point

---
 src/mg/media/mp4dynamic.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index 1b3d33e..c8af6a2 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -104,6 +104,19 @@ void CMP4Dynamic::move_to_read(  uint64_t start
 				}
 			}
 
+			for(int idx = 0; idx < ST_I32(reader.stream_count()) && UINT64_MAX == computed_start_time; idx++)
+			{
+				//every picture is an I frame: as everywhere it begins with the picture
+				if(!reader.IsLTC(idx) && reader.IsVisual(idx))
+				{
+					uint64_t off    = reader.get_stream_offset(idx);
+					uint64_t sample = (start > off)?reader.get_composition_sample_number(start - off, idx):0;
+
+					computed_start_time = off + (reader.has_composition_time(idx)?
+						reader.get_composition_time(sample, idx):reader.get_decoding_time(sample, idx));
+				}
+			}
+
 			if(UINT64_MAX == computed_start_time) //we do not have an I frame stream
 			{
 				computed_start_time = start;
-- 
2.43.0


From 8053dc8488b59362008b03faa58907af7b52e7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:30 +0000
Subject: [PATCH 074/101] fix: dates are kept with the years and months of the
 calendar

---
 src/mg/core/nx/ctime.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 7409248..530626f 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -28,8 +28,8 @@ __ALX_BEGIN_NAMESPACE
 
 inline void tm_to_sm( tm & origin, SYSTEMTIME & sm )
 {
-	sm.wYear = origin.tm_year;
-	sm.wMonth = origin.tm_mon;
+	sm.wYear = origin.tm_year + 1900;
+	sm.wMonth = origin.tm_mon + 1;
 	sm.wDayOfWeek = origin.tm_wday;
 	sm.wDay = origin.tm_mday;
 	sm.wHour = origin.tm_hour;
@@ -42,8 +42,8 @@ inline void tm_to_sm( tm & origin, SYSTEMTIME & sm )
 
 inline void sm_to_tm(const SYSTEMTIME & origin, tm & tms)
 {
-	tms.tm_year = origin.wYear;
-	tms.tm_mon = origin.wMonth;
+	tms.tm_year = origin.wYear - 1900;
+	tms.tm_mon = origin.wMonth - 1;
 	tms.tm_wday = origin.wDayOfWeek;
 	tms.tm_mday = origin.wDay;
 	tms.tm_hour = origin.wHour;
-- 
2.43.0


From 916732647a4511f28698b613539e6d8715417716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:30 +0000
Subject: [PATCH 075/101] fix: a date parsed from text has the fields of the
 text and no others

---
 src/mg/core/ctime.h      | 2 +-
 src/mg/core/nx/ctime.cpp | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mg/core/ctime.h b/src/mg/core/ctime.h
index 575bdac..33052ae 100644
--- a/src/mg/core/ctime.h
+++ b/src/mg/core/ctime.h
@@ -84,7 +84,7 @@ public:
 
 	Ctime(const TCHAR* str_time
 		, bool local
-		,  const TCHAR * str_format = _T("%4d-%2d-%2d %2d:%2d:%2d.%3d"))
+		,  const TCHAR * str_format = _T("%4hu-%2hu-%2hu %2hu:%2hu:%2hu.%3hu"))
 		;
 	
 	int64_t MilliSeconds(const SYSTEMTIME * psysBase) const
diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 530626f..e2a9ed5 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -142,6 +142,9 @@ Ctime::Ctime(uint16_t wYear
 	_systime.wSecond = 0;
 	_systime.wMilliseconds = 0;
 	_systime.total_hnano = UINT64_MAX;
+
+	_local  = false;
+	_offset = 0;
 }
 
 
@@ -150,6 +153,10 @@ Ctime::Ctime(const TCHAR * str_time
 	, bool local
 	, const TCHAR * str_format)
 {
+	//what the text does not say
+	memset(&_systime, 0, sizeof(_systime));
+	_systime.wMonth = 1;
+	_systime.wDay   = 1;
 
 	//_stscanf(str_time
 	//TODO: _stscanf_s
@@ -164,6 +171,8 @@ Ctime::Ctime(const TCHAR * str_time
 		, &_systime.wMilliseconds
 	);
 
+	_systime.total_hnano = UINT64_MAX; //unknown, after anything sscanf wrote
+
 	_local = local;
 	_offset = 0;
 
-- 
2.43.0


From 18b8f225bb8d4868c01305e858011cdb63da087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:30 +0000
Subject: [PATCH 076/101] fix: differences to dates before others or before
 1970, and milliseconds

---
 src/mg/core/nx/ctime.cpp | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index e2a9ed5..39167cd 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -35,7 +35,7 @@ inline void tm_to_sm( tm & origin, SYSTEMTIME & sm )
 	sm.wHour = origin.tm_hour;
 	sm.wMinute = origin.tm_min;
 	sm.wSecond = origin.tm_sec;
-	sm.wMilliseconds = 0;
+	sm.wMilliseconds = 0; //a tm has none
 
 }
 
@@ -51,18 +51,18 @@ inline void sm_to_tm(const SYSTEMTIME & origin, tm & tms)
 	tms.tm_sec = origin.wSecond;
 	tms.tm_isdst = -1;
 }
-inline uint64_t total_seconds(const SYSTEMTIME & systime)
+inline int64_t total_seconds(const SYSTEMTIME & systime)
 {
 	tm tms;
 		sm_to_tm(systime, tms);
-		return mktime(&tms); 
+		return timegm(&tms); //differences do not depend on the time zone
 
 }
-inline uint64_t total_hnano(const SYSTEMTIME & systime)
+inline int64_t total_hnano(const SYSTEMTIME & systime)
 {
 	if(UINT64_MAX == systime.total_hnano)
 	{
-		return total_seconds(systime) * 10000000ULL;
+		return total_seconds(systime) * 10000000LL + systime.wMilliseconds * 10000LL;
 	}
 	else
 	{
@@ -118,6 +118,7 @@ void  Ctime::ResetToNow(bool local)
 
 
 	tm_to_sm(stm, _systime);	
+	_systime.wMilliseconds = ts.tv_nsec / 1000000;
 
 }
 
@@ -189,7 +190,7 @@ int64_t Ctime::MilliSeconds(const SYSTEMTIME * psysBase) const
 		   && UINT64_MAX != _systime.total_hnano)
 		   )
 		   {
-		   	return (total_hnano(_systime) - total_hnano((*psysBase))) / 10000UL;
+		   	return (total_hnano(_systime) - total_hnano((*psysBase))) / 10000LL;
 		   }
 		   else
 		   {
@@ -202,20 +203,11 @@ int64_t Ctime::MilliSeconds(const SYSTEMTIME * psysBase) const
 
 int64_t Ctime::TotalHNano() const
 {
-	if(UINT64_MAX == _systime.total_hnano)
-	{
-		tm tms;
-		sm_to_tm(_systime, tms);
-		return mktime(&tms) * 10000000ULL;
-	}
-	else
-	{
-		return _systime.total_hnano;
-	}
+	return total_hnano(_systime);
 }
 
 
-int64_t Ctime::TotalMilliseconds() const { return TotalHNano() / 10000ULL; }
+int64_t Ctime::TotalMilliseconds() const { return TotalHNano() / 10000LL; }
 int64_t Ctime::AddMilliSeconds(int64_t milly_to_add) const
 {
 
@@ -331,9 +323,7 @@ Cstring Ctime::get_MillisecondsString() const
 {
 	Cstring t(_T(""));
 	
-	uint64_t mx = total_hnano(_systime);
-		 mx %= 10000000ull; //find hnano
-		 mx /= 10000ull;    //transform to milly
+	uint64_t mx = _systime.wMilliseconds;
 
 	if (mx < 100)
 		t += _T("0");
-- 
2.43.0


From 873f1ef0a44892886be995ab483d1951ab6baf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:30 +0000
Subject: [PATCH 077/101] fix: the fields and the total of the present are of
 one moment

---
 src/mg/core/nx/ctime.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index 39167cd..e2ac94c 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -95,13 +95,13 @@ void  Ctime::ResetToNow(bool local)
 	_local = local;
 	_offset = 0;
 	
-	time_t tt = time(NULL);
-
 	timespec ts;
 
 	int r = clock_gettime(CLOCK_REALTIME, &ts);
 	MGCHECK(r);
 
+	time_t tt = ts.tv_sec; //the fields and the total are of one moment
+
 	_systime.total_hnano = ts.tv_sec * 10000000ull + ts.tv_nsec / 100ull;
 
 	tm stm;
-- 
2.43.0


From aae5d7600267265f4e0b85ad0392950c6d9e4510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:30 +0000
Subject: [PATCH 078/101] fix: the distance from UTC of a date in XML can be
 negative and have minutes

---
 src/mg/core/nx/ctime.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mg/core/nx/ctime.cpp b/src/mg/core/nx/ctime.cpp
index e2ac94c..cbaa679 100644
--- a/src/mg/core/nx/ctime.cpp
+++ b/src/mg/core/nx/ctime.cpp
@@ -360,7 +360,7 @@ Cstring Ctime::ToXml() const
 	tmp += _T(".");
 	tmp += get_MillisecondsString();
 
-	uint64_t offset = GetUTCOffset() / 60;
+	int64_t offset = GetUTCOffset(); //in minutes
 
 	if (!_local)
 		offset = 0;
@@ -376,12 +376,17 @@ Cstring Ctime::ToXml() const
 		}
 
 
-		if (offset < 10)
+		if (offset < 600)
 			tmp += _T("0");
 
-		tmp += offset;
+		tmp += offset / 60;
 
-		tmp += _T(":00");
+		tmp += _T(":");
+
+		if (offset % 60 < 10)
+			tmp += _T("0");
+
+		tmp += offset % 60;
 	}
 	else
 	{
-- 
2.43.0


From 4bf8a92742e3736d58e9b8de6288f694efecc193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:10 +0000
Subject: [PATCH 079/101] fix: access points that leave one byte of a transport
 packet unused

---
 src/mg/media/tswrite.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mg/media/tswrite.h b/src/mg/media/tswrite.h
index 7d9c5d5..859470b 100644
--- a/src/mg/media/tswrite.h
+++ b/src/mg/media/tswrite.h
@@ -474,20 +474,18 @@ public:
 
 			first_adaptation = true;
 
-			if(1 == diff)
+			if(random_access_indicator)
+			{
+				af.adaptation_field_length += (diff); //2 alredy removed before
+			}
+			else if(1 == diff)
 			{
 				af.adaptation_field_length = 0;
 				
 			}
 			else
 			{	
-				if(!random_access_indicator)
-				{
-					af.adaptation_field_length += (first_ts_packet - 2 - size); 
-				}
-				else
-					af.adaptation_field_length += (diff); //2 alredy removed before
-
+				af.adaptation_field_length += (first_ts_packet - 2 - size); 
 			}
 		}
 
-- 
2.43.0


From d344920b46e2dbde09d0036dd37f7f8016b5c235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:10 +0000
Subject: [PATCH 080/101] fix: the program map of streams that follow one of
 time codes

---
 src/mg/media/tsmux.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/tsmux.h b/src/mg/media/tsmux.h
index b55c626..6218630 100644
--- a/src/mg/media/tsmux.h
+++ b/src/mg/media/tsmux.h
@@ -364,6 +364,9 @@ class TSMux: public IMP4Mux2
 
 	int _repeat_pid;
 
+	//streams listed in the program map, the others have no packets
+	int _mapped_streams;
+
 	bool _use_memory;
 	bool _only_table_at_beginning;
 
@@ -396,6 +399,7 @@ class TSMux: public IMP4Mux2
 public:
 
 	TSMux():_pctsw(NULL), _repeat_pid(-1)
+		, _mapped_streams(0)
 		, _presentation_offset(2000000)
 		, _decoding_offset(0)
 		, _use_memory(false)
@@ -427,7 +431,7 @@ public:
 		p->set_pid(BASEPID + stream_idx);
 		
 
-		_tswrite.add_pam(p->get_pid(), STREAM_TYPE_VIDEO_H264, stream_idx);
+		_tswrite.add_pam(p->get_pid(), STREAM_TYPE_VIDEO_H264, _mapped_streams++);
 
 		if(-1 == _repeat_pid)
 		{
@@ -459,7 +463,7 @@ public:
 
 		p->set_pid(BASEPID + stream_idx);
 
-		_tswrite.add_pam(p->get_pid(), STREAM_TYPE_AUDIO_AAC, stream_idx);
+		_tswrite.add_pam(p->get_pid(), STREAM_TYPE_AUDIO_AAC, _mapped_streams++);
 
 	
 		return stream_idx;
-- 
2.43.0


From d050980f8b705a738fb5ded21001f1b66d326a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 081/101] fix: clock values of times before zero

---
 src/mg/media/mp4/mpeg2ts.fl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/mp4/mpeg2ts.fl b/src/mg/media/mp4/mpeg2ts.fl
index 1fca2e5..b5a3aa3 100644
--- a/src/mg/media/mp4/mpeg2ts.fl
+++ b/src/mg/media/mp4/mpeg2ts.fl
@@ -129,12 +129,13 @@ class MpegTime{
 		{
 			uint64_t system_clock_frequency = 27000;
 
-			time = time / 10000;
+			//a time before zero, as the decoding of the first pictures can be, wraps around like the clock
+			time = static_cast<uint64_t>(static_cast<int64_t>(time) / 10000);
 
 	
 
-			uint64_t pcr_base =  (time * system_clock_frequency)/300;//((system_clock_frequency * time)/300)%(2^33);
-			uint64_t pcr_ext  =  (time * system_clock_frequency)%300;//((system_clock_frequency * time)%(300*2^33)) - (pcr_base*300);
+			uint64_t pcr_base =  (time * (system_clock_frequency/300)) & 0x1FFFFFFFFULL;//((system_clock_frequency * time)/300)%(2^33);
+			uint64_t pcr_ext  =  0;//((system_clock_frequency * time)%(300*2^33)) - (pcr_base*300), time is in milliseconds
     
 			t32_30 = static_cast<uint32_t>( pcr_base >> 30 );
 			t29_15 = (pcr_base  >> 15) & 0x2FFFFFFF;
-- 
2.43.0


From 62213ec6d2bf99edce08bc9bc04ee2debbea9677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:11 +0000
Subject: [PATCH 082/101] fix: packets of streams whose length with its header
 exceeds 16 bits

---
 src/mg/media/tswrite.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/tswrite.h b/src/mg/media/tswrite.h
index 859470b..64c645c 100644
--- a/src/mg/media/tswrite.h
+++ b/src/mg/media/tswrite.h
@@ -157,10 +157,12 @@ protected:
 	void close_pes(PesData & pes, uint32_t body_size)
 	{
 		pes.PES_packet_length += pes.PES_header_data_length;
-		pes.PES_packet_length += body_size;
 
-		if(!body_size || MAX_PES_SIZE <= body_size)
+		//the length counts what follows it of the header too
+		if(!body_size || MAX_PES_SIZE <= body_size || MAX_PES_SIZE < pes.PES_packet_length + body_size)
 			pes.PES_packet_length = 0; //no length packet
+		else
+			pes.PES_packet_length += body_size;
 
 	}
 
-- 
2.43.0


From 60b0918ec0b274a4a6a901a331c1fd0ca8815fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:35 +0000
Subject: [PATCH 083/101] fix: parameter sets of transport streams: emulation
 prevention, split packets

---
 src/mg/media/ts.h      |  9 +++++++--
 src/mg/media/tsparse.h | 28 ++++++++++++++--------------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/mg/media/ts.h b/src/mg/media/ts.h
index ee90469..6115f8f 100644
--- a/src/mg/media/ts.h
+++ b/src/mg/media/ts.h
@@ -845,7 +845,7 @@ protected:
 	/**
 	Read the structure
 	*/
-	virtual void structure_get(IBitstream &ms)
+	virtual void structure_get(FixedMemoryBitstream &ms)
 	{
 		_stru.get(ms);
 	}
@@ -895,7 +895,12 @@ protected:
 		if(payload.size() >= getMinAnalyzeSize() && !_HasStruct)
 		{
 			payload.SetPosition(0);
-			UpdateLookUp(payload);
+
+			try{UpdateLookUp(payload);}
+			catch(EndOfData &)
+			{
+				//the rest of the structure is in the next packets
+			}
 		}
 
 		try{TSProgramElementaryStream<I>::process(ts, payload);}
diff --git a/src/mg/media/tsparse.h b/src/mg/media/tsparse.h
index c1da0f0..a622921 100644
--- a/src/mg/media/tsparse.h
+++ b/src/mg/media/tsparse.h
@@ -392,9 +392,6 @@ public:
 
 class TSProgramElementaryStreamAnalyzeH264: public TSProgramElementaryStreamAnalyze<H264Sequence>, public BaseProgramElementaryStreamData
 {
-	pic_parameter_set_rbsp _picture;
-	bool _has_picture;
-
 	CBufferRead _payload;
 
 
@@ -405,24 +402,27 @@ protected:
 		std::wcerr << L"Empty PES" << std::endl;
 	}
 
-	virtual void structure_get(IBitstream &ms)
+	virtual void structure_get(FixedMemoryBitstream &ms)
 	{
 		_ASSERTE(IsHim(ms));
-		ms.skipbits(32);
+		ms.skipbits(24);
 
-		TSProgramElementaryStreamAnalyze<H264Sequence>::structure_get(ms);
+		//the unit goes on up to the next start code
+		CBuffer<BYTE> unit(static_cast<uint32_t>(getMinAnalyzeSize()));
 
-		
-		unsigned int nextbits =  ms.nextbits(32);
-		if((0xFFFFFF1F & nextbits) == 0x00000108)
+		while(ms.has_bits(8) && !(ms.has_bits(24) && ms.nextbits(24) <= 0x000001))
 		{
-			ms.skipbits(32);
+			BYTE b = static_cast<BYTE>(ms.getbits(8));
+			unit.add(&b, 1);
+		}
 
-			_picture.get(ms);
+		//its fields do not include the emulation prevention bytes
+		H264Nal nal;
+		nal.decode_nal(U64_ST(unit.size()), unit.get());
 
-			_has_picture = true;
+		FixedMemoryBitstream body(nal.decoded_rbsp() + 1, nal.decoded_rbsp_size() - 1);
 
-		}
+		TSProgramElementaryStreamAnalyze<H264Sequence>::structure_get(body);
 	}
 
 	virtual bool IsHim(IBitstream &ms)
@@ -442,7 +442,7 @@ protected:
 	}
 public:
 
-	TSProgramElementaryStreamAnalyzeH264():_has_picture(false)
+	TSProgramElementaryStreamAnalyzeH264()
 	{
 		this->SetReceiver(this);
 	}
-- 
2.43.0


From 466bc74b1b5d58a62f0f26eddc7dbf8222efab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:35 +0000
Subject: [PATCH 084/101] fix: units whose last byte is 3

---
 src/mg/media/h264nal.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mg/media/h264nal.h b/src/mg/media/h264nal.h
index ef38584..6369033 100644
--- a/src/mg/media/h264nal.h
+++ b/src/mg/media/h264nal.h
@@ -76,9 +76,6 @@ protected:
 		{
 			_ASSERTE((idx + 1) >= NumBytesInRBSP);
 
-			if(idx + 1 == NumBytesInNALunit && 0x03 == bit_stream.nextbits(8))
-				break;
-			
 			if( (idx + 2) < NumBytesInNALunit  && 0x000003 == bit_stream.nextbits(24))
 			{
 				p_nal[NumBytesInRBSP++] = 0x00;
-- 
2.43.0


From 0e96a347d53bdf5aa3a2f644afea5fc1011b8cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:24 +0000
Subject: [PATCH 085/101] fix: tables that do not begin at once, continue in
 another packet or are damaged

---
 src/mg/media/ts.h | 50 +++++++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/src/mg/media/ts.h b/src/mg/media/ts.h
index 6115f8f..691c835 100644
--- a/src/mg/media/ts.h
+++ b/src/mg/media/ts.h
@@ -254,47 +254,37 @@ protected:
 	virtual void readTable(IBitstream &payload){};
 	virtual void process(Transport_Packet &ts, CBufferRead &payload)
 	{   
-		BaseSection s;
+		const BYTE * p = payload.get();
+		size_t size    = payload.size();
 
-		payload.SetPosition(0);
-		{
-		
-			fixed_memory_bitstream ms(payload.get()
-				, payload.size()
-			);
+		//the section begins where the pointer field says
+		size_t start = size ? 1 + p[0] : 1;
 
-		Pointer_Field f;
-		f.get(ms);
-		s.get(ms);
-		}
- 
-		
-		if(TABLE_ID == s.table_id || 0xFFFFFFFF == TABLE_ID)
+		if(start + 3 > size)
+			return;
+
+		//the section length does not include the first 3 bytes
+		size_t length = 3 + (((p[start + 1] & 0x0F) << 8) | p[start + 2]);
+
+		if(TABLE_ID == p[start] || 0xFFFFFFFF == TABLE_ID)
 		{
-			if(s.section_length > payload.size())
+			if(length > size - start)
 				return;
 			//OK we have the full table
 
-			
-			//+1 step over the pointer field
-			//the section length must add the first 3 byte not included and exclude the crc ending field
-			_CRC = _crc.crc_32(payload.get() + 1, s.section_length + 3 - 4);
-
-			payload.SetPosition(0);
-
-			{		
+			if(12 > length)
+				return;
 
-				fixed_memory_bitstream ms(payload.get()
-					, payload.size()
-				);
+			const BYTE * end = p + start + length - 4;
 
-			Pointer_Field f;
-		    f.get(ms);
+			_CRC = _crc.crc_32(p + start, static_cast<unsigned int>(length - 4));
 
+			if(_CRC != ((static_cast<unsigned int>(end[0]) << 24) | (end[1] << 16) | (end[2] << 8) | end[3]))
+				return;
 
+			fixed_memory_bitstream ms(p + start, length);
 
-			readTable(ms, s.table_id);
-			}
+			readTable(ms, p[start]);
 
 			//TODO:Check we have other tables following into the payload
 		}
-- 
2.43.0


From 587514bdbcf5df3bb6634e4b856c904245b8a738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:55 +0000
Subject: [PATCH 086/101] fix: units that began before the first packet

---
 src/mg/media/ts.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/media/ts.h b/src/mg/media/ts.h
index 691c835..6672968 100644
--- a/src/mg/media/ts.h
+++ b/src/mg/media/ts.h
@@ -140,6 +140,10 @@ public:
 		_pid = ts.PID;
         _last_packet_count = ts._packet_count;
 
+		//units can only be entered at their start
+		if(!_gotfirst && !ts.payload_unit_start_indicator)
+			return;
+
 		if(ts.payload_unit_start_indicator)
 		{
 			if(_gotfirst)
-- 
2.43.0


From f5bf5ed5a3e06d27347d48ff16458b8be6bd2a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:23 +0000
Subject: [PATCH 087/101] fix: packets that are sent twice or lost

---
 src/mg/media/ts.h | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/mg/media/ts.h b/src/mg/media/ts.h
index 6672968..bb7a7c0 100644
--- a/src/mg/media/ts.h
+++ b/src/mg/media/ts.h
@@ -73,6 +73,9 @@ class tspacket
 	bool _HasAdaptation;
 	bool _HasFirstAdaptation;
 
+	bool         _has_counter;
+	unsigned int _counter;
+
 	void CleanUp()
 	{
 		//if(NULL != _pAdaptation)
@@ -89,6 +92,8 @@ protected:
 		 , _HasFirstAdaptation(false)
 		 , _packet_count(0)
 		 , _adaptation_packet(0)		 
+		 , _has_counter(false)
+		 , _counter(0)
 	{}
 	virtual ~tspacket(){CleanUp();}
 
@@ -140,6 +145,30 @@ public:
 		_pid = ts.PID;
         _last_packet_count = ts._packet_count;
 
+		if(ts.payload_field)
+		{
+			bool announced = ts.adaptation_flag
+				&& ts.adaptation_field->adaptation_field_length
+				&& ts.adaptation_field->discontinuity_indicator;
+
+			if(_has_counter && !announced)
+			{
+				//packets can be sent twice
+				if(ts.continuity_counter == _counter)
+					return;
+
+				//the unit is not whole when packets are lost
+				if(ts.continuity_counter != ((_counter + 1) & 0x0F))
+				{
+					_payload.Reset();
+					_gotfirst = false;
+				}
+			}
+
+			_has_counter = true;
+			_counter     = ts.continuity_counter;
+		}
+
 		//units can only be entered at their start
 		if(!_gotfirst && !ts.payload_unit_start_indicator)
 			return;
-- 
2.43.0


From ad2cb8631722c8a7abaecb0cd176ec7bb9ad91a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:15 +0000
Subject: [PATCH 088/101] fix: pictures that are cut off behind a start code or
 have none

---
 src/mg/media/tsparse.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/tsparse.h b/src/mg/media/tsparse.h
index a622921..a0cdd26 100644
--- a/src/mg/media/tsparse.h
+++ b/src/mg/media/tsparse.h
@@ -474,7 +474,10 @@ public:
 					break;
 			}
 
-			if(!ms.atend())
+			//a unit starts only where something follows
+			if(!ms.has_bits(32))
+				break;
+
 			{
 
 				_ASSERTE(ms.nextbits(24) == 0x000001);
@@ -515,7 +518,7 @@ public:
 				//flush
 				if(!ms.has_bits(32))
 				{
-					while(!ms.atend())
+					while(!ms.atend() && !(ms.has_bits(24) && ms.nextbits(24) == 0x000001))
 					{
 						_ASSERTE(ms.has_bits(8));
 						 b = ms.getbits(8);
-- 
2.43.0


From 5e0e51fa28f3d921c6a131b0068fa035e19bf51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:05 +0000
Subject: [PATCH 089/101] fix: tables that are not valid yet

---
 src/mg/media/ts.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/media/ts.h b/src/mg/media/ts.h
index bb7a7c0..49365c7 100644
--- a/src/mg/media/ts.h
+++ b/src/mg/media/ts.h
@@ -315,6 +315,10 @@ protected:
 			if(_CRC != ((static_cast<unsigned int>(end[0]) << 24) | (end[1] << 16) | (end[2] << 8) | end[3]))
 				return;
 
+			//a table can be sent before it is valid
+			if(0 == (p[start + 5] & 0x01))
+				return;
+
 			fixed_memory_bitstream ms(p + start, length);
 
 			readTable(ms, p[start]);
-- 
2.43.0


From 2ca9fab685a9a02b485b35b5e83fe6e1c83aa78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:39 +0000
Subject: [PATCH 090/101] fix: keep in a fragment what is decoded behind a
 picture presented after its end

---
 src/mg/media/mp4fragmented.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/mp4fragmented.h b/src/mg/media/mp4fragmented.h
index db15fb8..a55da0c 100644
--- a/src/mg/media/mp4fragmented.h
+++ b/src/mg/media/mp4fragmented.h
@@ -624,12 +624,22 @@ public:
 
 		CBuffer<unsigned char> body(1024);
 
+		//how long the samples left out take, what follows them in the fragment is decoded that much before
+		uint64_t omitted = 0;
+
 		 while(reader.next_file_chunks(sample))
 				 {
 					 if(sample.stream == stream_id)
 					 {
 						 if( (sample.composition_time + stream_offset) >= end_time)
-							 break;
+						 {
+							 //with reordering what is decoded later can still be presented before the end
+							 if(sample.bIsSyncPoint || (sample.decoding_time + stream_offset) >= end_time)
+								break;
+
+							 omitted += sample.duration;
+							 continue;
+						 }
 
 						 body.prepare(static_cast<uint32_t>(sample.size));
 
@@ -644,6 +654,8 @@ public:
 						 {
 							decoding_time += reader.ctts_stream_offset(sample.stream);
 						 }
+
+						 decoding_time -= omitted;
 						 
 						 if( (composition_time + stream_offset) < start_time)
 						 {
-- 
2.43.0


From 0abaa5ae477f70f6192210cc4adae2c64c2c973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:32 +0000
Subject: [PATCH 091/101] fix: take a stream's sound only as far as the
 interval goes when it goes on in the next file

---
 src/mg/media/mp4dynamic.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index c8af6a2..0250e3f 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -334,6 +334,13 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 	uint64_t composition(reader.get_decoding_time(p, stream));
 
 	bool has_composition = reader.has_composition_time(stream);
+
+	//only what is presented before the end counts
+	uint64_t count = reader.get_sample_count(stream);
+
+	while(count > 0 && UINT64_MAX != end
+		&& off + (has_composition?reader.get_composition_time(count - 1, stream):reader.get_decoding_time(count - 1, stream)) >= end)
+		count--;
 	
 	if(has_composition)
 		composition =  reader.get_composition_time(p, stream);
@@ -342,7 +349,7 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 
 	while(composition < start)
 	{
-		if(++p >= reader.get_sample_count(stream))
+		if(++p >= count)
 			return; //nothing left from there
 
 		if(has_composition)
@@ -389,7 +396,7 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 
 		_reporting_start_time[stream] = UINT64_MAX;
 
-		if(p >= reader.get_sample_count(stream))
+		if(p >= count)
 			return; //all of it fills what was left
 
 		if(has_composition)
@@ -401,7 +408,7 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 	}
 		
 
-	while(composition < end && p < reader.get_sample_count(stream))
+	while(composition < end && p < count)
 	{
 		publish_segmented_composition(
 							  composition
@@ -413,18 +420,18 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 
 		p += jump;
 
-		if(p >= reader.get_sample_count(stream))
+		if(p >= count)
 			break;
 
-		if( (reader.get_sample_count(stream) - p) < jump  ) //last sample 
+		if( (count - p) < jump  ) //last sample 
 		{
 			if(_generate_only_full_fragment)
 			{
 				_ASSERTE(UINT64_MAX == _reporting_start_time[stream]);
 				 
-				_reporting_samples[stream]    = reader.get_sample_count(stream) - p;
+				_reporting_samples[stream]    = count - p;
 
-				uint64_t sn   = reader.get_sample_count(stream) - _reporting_samples[stream];
+				uint64_t sn   = count - _reporting_samples[stream];
 
 				_reporting_start_time[stream] = reader.get_decoding_time(sn, stream);
 
@@ -440,14 +447,14 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 
 				_reporting_start_time[stream] += off;
 				
-				//p = reader.get_sample_count(stream); //get off
+				//p = count; //get off
 				return;
 
 				
 			}
 			else
 			{
-				p = reader.get_sample_count(stream) - 1;
+				p = count - 1;
 			}
 		}
 
-- 
2.43.0


From 6300c596afdfb38fe81436e63a1ddb5bcc0cdee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:12 +0000
Subject: [PATCH 092/101] fix: a moment within the first sample of a stream is
 followed by the second, as within any other

---
 src/mg/media/mp4parse.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mg/media/mp4parse.h b/src/mg/media/mp4parse.h
index af7699c..13bed5a 100644
--- a/src/mg/media/mp4parse.h
+++ b/src/mg/media/mp4parse.h
@@ -2373,9 +2373,6 @@ public:
 		//uint64_t sample = _time_manager.get_decoding_sample_number(dtime);
 		uint64_t sample = _time_manager.get_composition_sample_number(dtime);
 
-		if(!sample)
-			return 0;
-
 		//while(dtime > _time_manager.get_composition_time(sample)
 		//	&& 0 < sample )
 		//{
-- 
2.43.0


From d86e144c2b465befdab65ccb16f431cbef6a8d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:29 +0000
Subject: [PATCH 093/101] fix: a segment begins with its first picture also if
 a sample of sound is stored before it

---
 src/mg/media/tsmux.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mg/media/tsmux.h b/src/mg/media/tsmux.h
index 6218630..8812eb7 100644
--- a/src/mg/media/tsmux.h
+++ b/src/mg/media/tsmux.h
@@ -693,11 +693,10 @@ public:
         
 		if(INT64_MAX == s.computed_offset)
 		{
-			s.computed_offset = s.base_time - composition_time;
+			//times begin at zero, with the earliest stream, which need not be that of the first sample
+			s.computed_offset = s.base_time;
 		    _composition_start_time[t_stream_id] = s;
 
-			_ASSERTE( (composition_time  + s.computed_offset) == s.base_time );
-
 			/*
 			DBGC4(L"FIRST SAMPLE %s %s %s %d\r\n"
 				, HNS(composition_time)
-- 
2.43.0


From eb01b5d13d664af76f28cb5e1bb1b5f40244ea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:11 +0000
Subject: [PATCH 094/101] fix: a stream that is over before a part begins, or
 begins after it, waits for the others instead of ending the edit

---
 src/mg/media/mp4edit.cpp | 49 ++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index 658ff76..7dbd404 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -316,17 +316,6 @@ void CMP4EditBase::do_edit_mux(
 			if(!reader.next_file_chunks(ms))
 			{
 				//what is left may be shorter than the look ahead
-				for(size_t i = 0; i < reader.stream_count(); i++)
-				{
-					if(!reader.IsValidStream(i) || reader.IsLTC(i))
-						continue;
-
-					if(INT64_MAX == (info.map[i].video
-							? info.video_info[info.map[i].internal_index].next_composition
-							: info.audio_info[info.map[i].internal_index].next_composition))
-						ALXTHROW_T(_T("cannot check first sample info."));
-				}
-
 				break;
 			}
 
@@ -411,8 +400,44 @@ void CMP4EditBase::do_edit_mux(
 
 		}//while work
 
+		//a stream that is over before the part begins waits for the others
+		stream_edit_info * earliest(0);
 
-		
+		for(size_t i = 0; i < reader.stream_count(); i++)
+		{
+			if(!reader.IsValidStream(i) || reader.IsLTC(i))
+				continue;
+
+			if(info.map[i].video)
+				ps = &info.video_info[info.map[i].internal_index];
+			else
+				ps = &info.audio_info[info.map[i].internal_index];
+
+			if(INT64_MAX != ps->next_composition
+				&& (!earliest || ps->next_composition < earliest->next_composition))
+				earliest = ps;
+		}
+
+		if(!earliest)
+			ALXTHROW_T(_T("cannot check first sample info."));
+
+		for(size_t i = 0; i < reader.stream_count(); i++)
+		{
+			if(!reader.IsValidStream(i) || reader.IsLTC(i))
+				continue;
+
+			if(info.map[i].video)
+				ps = &info.video_info[info.map[i].internal_index];
+			else
+				ps = &info.audio_info[info.map[i].internal_index];
+
+			if(INT64_MAX == ps->next_composition)
+			{
+				ps->next_composition = earliest->next_composition;
+				ps->next_duration    = 0;
+				ps->next_decoding    = earliest->next_decoding;
+			}
+		}
 
 		if(-1 < info.ltc 
 			&&
-- 
2.43.0


From 8209f94f727b903eec42fa08a9c78afe05f61599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:18 +0000
Subject: [PATCH 095/101] fix: enter a file where the first picture of the
 segment is decoded

---
 src/mg/media/mp4edit.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index 7dbd404..8793b99 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -306,7 +306,24 @@ void CMP4EditBase::do_edit_mux(
     
 		int current_look_head = 0;
 
-		reader.move(start);
+		uint64_t entry_time = start;
+
+		//positioning is in decoding time: enter where the picture presented at the start is decoded
+		for(unsigned int i = 0; i < reader.stream_count() && discard_pre_start; i++)
+		{
+			if(reader.IsVisual(i) && reader.has_random_access_point(i))
+			{
+				uint64_t offset = reader.get_stream_offset(i);
+
+				entry_time = (entry_time > offset)?(entry_time - offset):0;
+				entry_time = reader.get_decoding_time(
+					  reader.get_composition_sample_number(entry_time, i)
+					, i);
+				break;
+			}
+		}
+
+		reader.move(entry_time);
 
 		info.ltc_interpolated = false;
 
@@ -631,7 +648,7 @@ void CMP4EditBase::do_edit_mux(
 
 	////////////////////////
 	//reader.move(start);
-	move_to_read(start, reader);
+	move_to_read(entry_time, reader);
 	////////////////////////
 
 	work = true;
-- 
2.43.0


From 7692d5d37338eb1b0a24cb1c2b710f1ee65deb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:18 +0000
Subject: [PATCH 096/101] fix: pictures of a segment are decoded from its
 beginning on, wherever its sound begins

---
 src/mg/media/tsmux.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/tsmux.h b/src/mg/media/tsmux.h
index 8812eb7..3cd35e4 100644
--- a/src/mg/media/tsmux.h
+++ b/src/mg/media/tsmux.h
@@ -639,6 +639,8 @@ class HLSMux: public TSMux
 	{
 		uint64_t base_time;
 		         uint64_t computed_offset;
+		         int      base_stream;
+		         uint64_t base_decoding;
 	};
 
 
@@ -707,6 +709,18 @@ public:
 			*/
 		}
 
+		if(s.base_stream == stream_id)
+		{
+			//pictures are decoded from the beginning of the segment on, wherever the other streams begin
+			if(INT64_MAX == s.base_decoding)
+			{
+				s.base_decoding = decoding_time;
+				_composition_start_time[t_stream_id] = s;
+			}
+
+			decoding_offset += s.base_decoding;
+		}
+
 		_ASSERTE(
 			(composition_time  + s.computed_offset) >= s.base_time
 			);
@@ -741,7 +755,7 @@ public:
 		//ONLY USE ONE STREAM
 		t_stream_id = 0;
 
-		HLSSTREAM s = {composition_time, INT64_MAX};
+		HLSSTREAM s = {composition_time, INT64_MAX, stream_id, INT64_MAX};
 		_composition_start_time[t_stream_id] = s;
 
 		//set_presentation_offset(0);
-- 
2.43.0


From c6efecea847d8c8a26bfbd94bb94538b7c03b1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:18 +0000
Subject: [PATCH 097/101] fix: encrypt a segment under its own number, also
 behind the 255th

---
 src/mg/media/tsinfo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/tsinfo.cpp b/src/mg/media/tsinfo.cpp
index c22ada0..c74547e 100644
--- a/src/mg/media/tsinfo.cpp
+++ b/src/mg/media/tsinfo.cpp
@@ -983,7 +983,7 @@ int do_hls_mux(console_command &c, std::ostream & ost)
 					{
 
 						track_id++;
-						unsigned char sequence(0);
+						int sequence(0);
 
 						//*****Initialization Segment//
 
@@ -1063,7 +1063,7 @@ int do_hls_mux(console_command &c, std::ostream & ost)
 												   << static_cast<const TCHAR*>(s->get_path(bitrate->first, computed_time))
 												   << std::endl;
 
-										ts4edit.set_section_continuity(sequence++);
+										ts4edit.set_section_continuity(static_cast<unsigned char>(sequence));
 										ts4edit.start(out_chunk_file);
 										
 										if(false)//(!separated_audio)
@@ -1137,6 +1137,8 @@ int do_hls_mux(console_command &c, std::ostream & ost)
 											hls_encrypt(out_chunk_file, (sequence), pKey);
 								}
 
+								sequence++;
+
 
 							}
 
-- 
2.43.0


From 81dbcb41e076c2fe7dd45b0abb129c559c6924d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:18 +0000
Subject: [PATCH 098/101] fix: what a film leaves unfilled is a segment of its
 own when the next needs fewer pictures to fill one

---
 src/mg/media/mp4dynamic.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index 0250e3f..ae0dab1 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -362,11 +362,22 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 	}
 
 
+	if(UINT64_MAX != _reporting_start_time[stream] 
+			&& _generate_only_full_fragment
+			&& jump <= _reporting_samples[stream])
+	{
+		//longer samples: what was left is enough
+		publish_segmented_composition(
+							  _reporting_start_time[stream]
+							, _reporting_computed_start_time[stream]
+						    , stream);
+
+		_reporting_start_time[stream] = UINT64_MAX;
+	}
+
 	if(UINT64_MAX != _reporting_start_time[stream] 
 			&& _generate_only_full_fragment)
 	{
-		_ASSERTE(jump > _reporting_samples[stream]);
-		
 		uint64_t fill_jump = jump - _reporting_samples[stream];
 
 		uint64_t t1 = computed_time(
-- 
2.43.0


From c563b2efd4a4c1f63e7d7c0502b4628919078feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:23 +0000
Subject: [PATCH 099/101] fix: the time of a part that has a single sample
 counts in the edit

---
 src/mg/media/mp4edit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/media/mp4edit.cpp b/src/mg/media/mp4edit.cpp
index 8793b99..dfc0afa 100644
--- a/src/mg/media/mp4edit.cpp
+++ b/src/mg/media/mp4edit.cpp
@@ -796,7 +796,7 @@ void CMP4EditBase::do_edit_mux(
 			ps->last_duration = reader.get_sample_duration(ms.stream);
 			
 
-		if(last_composition[ms.stream] < ps->last_composition)
+		if(last_composition[ms.stream] <= ps->last_composition)
 		{
 			last_composition[ms.stream] = ps->last_composition;
 			last_duration[ms.stream]    = ps->last_duration;
-- 
2.43.0


From 697ef57ca94a6e5be23174c33fb688666779f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:43 +0000
Subject: [PATCH 100/101] fix: a segment of HTTP live streaming ends with its
 file

---
 src/mg/media/tsinfo.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/mg/media/tsinfo.cpp b/src/mg/media/tsinfo.cpp
index c74547e..a9944a9 100644
--- a/src/mg/media/tsinfo.cpp
+++ b/src/mg/media/tsinfo.cpp
@@ -713,6 +713,21 @@ int do_ts_mux(console_command &c, MP42TS & mp4edit, std::ostream & ost)
 
 
 
+//segments end with their file
+class CMP4DynamicInfoHls : public CMP4DynamicInfo
+{
+public:
+	virtual void publish_segmented_composition_cross(uint64_t composition_time,
+			uint64_t computed_time,
+			uint64_t composition_time_2,
+			uint64_t computed_time_2,
+			int stream)
+	{
+		publish_segmented_composition(composition_time, computed_time, stream);
+		publish_segmented_composition(composition_time_2, computed_time_2, stream);
+	}
+};
+
 int do_hls_mux(console_command &c, std::ostream & ost)
 {
 			unsigned int cnt = c.get_command_count(_T("input"));
@@ -765,7 +780,7 @@ int do_hls_mux(console_command &c, std::ostream & ost)
 
 			ost << _T("hls Operation ") << std::endl;
 
-			CMP4DynamicInfo mp4edit;
+			CMP4DynamicInfoHls mp4edit;
 			
 			uint64_t segment_size = 100000000;
 			uint64_t end_overflow =  20000000;
-- 
2.43.0


From ce5ff4badf58f0ce463d8b68a74b4e12130bde64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:56 +0000
Subject: [PATCH 101/101] fix: a segment length shorter than a picture makes
 segments of one picture, not an endless list

---
 src/mg/media/mp4dynamic.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mg/media/mp4dynamic.cpp b/src/mg/media/mp4dynamic.cpp
index ae0dab1..9330785 100644
--- a/src/mg/media/mp4dynamic.cpp
+++ b/src/mg/media/mp4dynamic.cpp
@@ -325,11 +325,12 @@ void CMP4DynamicDiscreate::publish_no_random_stream(
 
 	
 
-	_ASSERTE(_fragment_length > d);
-
 	//TODO: allow to use a predefined duration 
 	//for old file with invalid audio duration
 	uint64_t jump = _fragment_length / d;
+
+	if(0 == jump)
+		jump = 1; //no fragment is shorter than a sample
 	
 	uint64_t composition(reader.get_decoding_time(p, stream));
 
-- 
2.43.0

