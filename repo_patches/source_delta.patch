From a6056f9107b1acc3e5fc34aaeeec6f2089434b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 001/100] fix: Fifo index overflow for capacities just below a
 power of 256

---
 include/libstored/fifo.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 8394645..ec49990 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -569,9 +569,12 @@ public:
 		pointer rp = m_rp.load(std::memory_order_relaxed);
 		stored_assert(count <= available());
 
-		rp = (pointer)(rp + count);
-		if(wp < rp && rp >= m_buffer.size())
-			rp = (pointer)(rp - m_buffer.size());
+		// Compute with size_t, as the sum may not fit in pointer.
+		size_t rp_next = (size_t)rp + count;
+		if((size_t)wp < rp_next && rp_next >= m_buffer.size())
+			rp_next -= m_buffer.size();
+
+		rp = (pointer)rp_next;
 
 		if(!bounded() && wp == rp) {
 			// Reset to the start of the buffer, as it became empty.
@@ -713,9 +716,12 @@ protected:
 
 		if(bounded()) {
 			// Bounded buffer. Do wrap-around.
-			wp_next = (pointer)(wp + count);
-			if(wp_next >= m_buffer.size())
-				wp_next = (pointer)(wp_next - m_buffer.size());
+			// Compute with size_t, as the sum may not fit in pointer.
+			size_t next = (size_t)wp + count;
+			if(next >= m_buffer.size())
+				next -= m_buffer.size();
+
+			wp_next = (pointer)next;
 		} else {
 			// Unbounded buffer.
 			stored_assert(!ThreadSafe);
-- 
2.43.0


From cf83aa2f5d973fa76439a34a08ea69779aeb8869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 002/100] fix: Fifo compaction moved bytes instead of elements

---
 include/libstored/fifo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index ec49990..d1e4de9 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -37,13 +37,13 @@ struct buffer_ops {
 	static void set(B& buffer, pointer p, typename B::value_type const* x, size_t len) noexcept
 	{
 		if(len)
-			memcpy(&buffer[p], x, len);
+			memcpy(&buffer[p], x, len * sizeof(typename B::value_type));
 	}
 
 	static void move(B& buffer, pointer dst, pointer src, size_t len) noexcept
 	{
 		if(len)
-			memmove(&buffer[dst], &buffer[src], len);
+			memmove(&buffer[dst], &buffer[src], len * sizeof(typename B::value_type));
 	}
 };
 
-- 
2.43.0


From 1527983d9b31040b6d649563a6d1de1669449af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 003/100] fix: assert on moving data up to the end of an
 unbounded Buffer

---
 include/libstored/fifo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index d1e4de9..cb4565e 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -198,8 +198,8 @@ public:
 	{
 		stored_assert(dst + (pointer)len >= dst);
 		stored_assert(src + (pointer)len >= src);
-		stored_assert((size_t)dst + len < size());
-		stored_assert((size_t)src + len < size());
+		stored_assert((size_t)dst + len <= size());
+		stored_assert((size_t)src + len <= size());
 
 		impl::buffer_move(m_buffer, dst, src, len);
 	}
-- 
2.43.0


From 997ea965b8d657ceedc868d36bb2ac9111555714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 004/100] fix: empty messages corrupt the MessageFifo

---
 include/libstored/fifo.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index cb4565e..5115ec6 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -907,19 +907,26 @@ public:
 	const_type front() const noexcept
 	{
 		Msg const& msg = m_msg.front();
-		return const_type{&m_buffer[msg.first], msg.second};
+		// Empty messages don't have a valid position within the buffer.
+		return const_type{msg.second ? &m_buffer[msg.first] : "", msg.second};
 	}
 
 	type front() noexcept
 	{
 		Msg& msg = m_msg.front();
-		return type{&m_buffer[msg.first], msg.second};
+		// Empty messages don't have a valid position within the buffer.
+		return type{
+			msg.second ? &m_buffer[msg.first] : const_cast<char*>(""), msg.second};
 	}
 
 	void pop_front() noexcept
 	{
 		Msg const& msg = m_msg.front();
-		m_rp.store((buffer_pointer)(msg.first + msg.second), std::memory_order_relaxed);
+		// An empty message does not occupy the buffer, and the position may be reset already.
+		if(msg.second)
+			m_rp.store(
+				(buffer_pointer)(msg.first + msg.second),
+				std::memory_order_relaxed);
 		m_msg.pop_front();
 	}
 
-- 
2.43.0


From d38f83e9421e88140a38d5679150d1493e0e7d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 005/100] fix: FifoLoopback1 reports an MTU that never fits in
 the fifo

---
 include/libstored/fifo.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 5115ec6..4d6dacc 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -996,7 +996,7 @@ public:
 		stored_assert(wp_partial >= wp);
 		size_t partial = (size_t)(wp_partial - wp);
 
-		if(unlikely(Capacity > 0 && message.size() + partial > Capacity)) {
+		if(unlikely(Capacity > 0 && message.size() + partial > capacity())) {
 			// Will never fit.
 #    ifdef STORED_cpp_exceptions
 			throw std::bad_alloc();
@@ -1242,7 +1242,8 @@ public:
 	virtual size_t mtu() const override
 	{
 		size_t res = base::mtu();
-		return res ? std::min(Capacity, res) : Capacity;
+		size_t cap = m_fifo.capacity();
+		return res ? std::min<size_t>(cap, res) : cap;
 	}
 
 	constexpr bool bounded() const noexcept
-- 
2.43.0


From e379edbe973fd8bc2a092155286e48ec48b08285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 006/100] fix: empty MessageFifo refuses messages that fit
 after a dropped partial message

---
 include/libstored/fifo.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 4d6dacc..889c5f0 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -1005,15 +1005,19 @@ public:
 #    endif
 		}
 
-		if(wp == rp && partial == 0) {
+		if((wp == rp && partial == 0) || m_msg.empty()) {
 			// Note: Because of race conditions in a threaded
 			// environment, it might be the case that empty() is
 			// not yet true, as pop_front() first updates rp and
 			// then pops the message.
 
 			// When empty, the other side ignores the wp/rp, so we
-			// can safely tinker with it.
-			wp = m_wp_partial = wp_partial = 0;
+			// can safely tinker with it. Only the partial message
+			// occupies the buffer.
+			if(partial && wp)
+				m_buffer.move(0, wp, partial);
+			wp = 0;
+			m_wp_partial = wp_partial = (buffer_pointer)partial;
 			rp = 0;
 			m_wp.store(wp, std::memory_order_relaxed);
 			m_rp.store(rp, std::memory_order_relaxed);
-- 
2.43.0


From 15f16cb4d8b231bfb352ea30c9cd57bf57e0b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:41 +0000
Subject: [PATCH 007/100] fix: Crc16Layer reports an MTU of 256 above a layer
 that can only carry 257 bytes

---
 src/protocol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index f3d4606..207da2e 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1440,7 +1440,7 @@ uint16_t Crc16Layer::compute(uint8_t input, uint16_t crc)
 size_t Crc16Layer::mtu() const
 {
 	size_t mtu = base::mtu();
-	if(mtu == 0 || mtu > 256U)
+	if(mtu == 0 || mtu > 257U)
 		return 256U;
 	if(mtu <= 3U)
 		return 1U;
-- 
2.43.0


From 79a837469070540a5bd410eed76d282b1335bd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 008/100] fix: FifoLoopback1 mixes parts of dropped messages
 into others

---
 include/libstored/fifo.h | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 889c5f0..4a98c36 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -1188,14 +1188,26 @@ public:
 	 */
 	virtual void encode(void const* buffer, size_t len, bool last = true) override
 	{
-		bool res = false;
+		if(!m_drop) {
+			bool res = false;
+
+			do {
+				if(last)
+					res = m_fifo.push_back((char const*)buffer, len);
+				else
+					res = m_fifo.append_back((char const*)buffer, len);
+			} while(!res && overflow());
+
+			if(!res) {
+				// Drop the message as a whole, including what was
+				// accepted before, and what comes till the last part.
+				m_fifo.reset_back();
+				m_drop = true;
+			}
+		}
 
-		do {
-			if(last)
-				res = m_fifo.push_back((char const*)buffer, len);
-			else
-				res = m_fifo.append_back((char const*)buffer, len);
-		} while(!res && overflow());
+		if(last)
+			m_drop = false;
 
 		base::encode(buffer, len, last);
 	}
@@ -1283,6 +1295,8 @@ public:
 private:
 	Fifo_type m_fifo;
 	Callable<OverflowCallback>::type m_overflowCallback;
+	/*! \brief When set, the rest of the message that is being encoded is to be dropped. */
+	bool m_drop = false;
 };
 
 /*!
-- 
2.43.0


From 55c357566ac0fcf1461e1b5a4ebb9b042c243476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 009/100] fix: TerminalLayer misses a frame after an ESC

---
 src/protocol.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 207da2e..42fc5a0 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -245,7 +245,8 @@ void TerminalLayer::decode(void* buffer, size_t len)
 						i - nonDebugOffset - 1); // Also skip the ESC
 				m_decodeState = StateDebug;
 				nonDebugOffset = len;
-			} else
+			} else if(c != Esc)
+				// Otherwise, this ESC may be the start of a frame.
 				m_decodeState = StateNormal;
 			break;
 		case StateDebug:
-- 
2.43.0


From f972ebbe0cd9c2f69bf60a9942693ab6155e2333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 010/100] fix: ArqLayer peers keep on resetting each other

A reset that is repeated before the peer could answer it, is answered
more than once.  The second answer was handled as an unexpected reset,
which triggers the next one, ad infinitum, while messages are duplicated
every time.
---
 src/protocol.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 42fc5a0..1dc72e8 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -536,6 +536,14 @@ void ArqLayer::decode(void* buffer, size_t len)
 					reconnect = true;
 					base::connected();
 				}
+			} else if(unlikely((hdr & SeqMask) == 0)) {
+				// This reset has been acked before. When nothing was acked since
+				// then, the peer is in sync with us, so a reset that comes with
+				// this ack must not be answered by another one.
+				uint8_t seq = m_encodeQueue.empty()
+						      ? m_sendSeq
+						      : (uint8_t)(*m_encodeQueue.front())[0];
+				reconnect = (seq & SeqMask) == nextSeq(0);
 			}
 
 			buffer_++;
-- 
2.43.0


From 9f098604088b6f18da188d00d6e76a423d55bb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 011/100] fix: ArqLayer drops everything when an old ack is
 used after a reset

When an ack of a message before a reset is received after it, the peers
may disagree on the sequence number, and drop all messages from then on.
---
 include/libstored/protocol.h |  1 +
 src/protocol.cpp             | 51 ++++++++++++++++++++++--------------
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/include/libstored/protocol.h b/include/libstored/protocol.h
index 1a28795..646a2fd 100644
--- a/include/libstored/protocol.h
+++ b/include/libstored/protocol.h
@@ -627,6 +627,7 @@ protected:
 
 	static uint8_t nextSeq(uint8_t seq);
 
+	void injectReset();
 	void popEncodeQueue();
 	void pushEncodeQueue(void const* buffer, size_t len, bool back = true);
 	String::type& pushEncodeQueueRaw(bool back = true);
diff --git a/src/protocol.cpp b/src/protocol.cpp
index 1dc72e8..d321021 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -568,25 +568,8 @@ void ArqLayer::decode(void* buffer, size_t len)
 			resp[resplen++] = (uint8_t)AckFlag;
 
 			// Also reset our send seq.
-			if(!reconnect
-			   && (m_encodeQueueSize == 0
-			       || (*m_encodeQueue.front())[0] != (char)NopFlag)) {
-				// Inject reset message in queue.
-				String::type& s = pushEncodeQueueRaw(false);
-				s.push_back((char)NopFlag);
-				m_encodeQueueSize++;
-				m_sendSeq = nextSeq(0);
-
-				// Reencode existing outbound messages.
-				for(Deque<String::type*>::type::iterator it =
-					    ++m_encodeQueue.begin();
-				    it != m_encodeQueue.end(); ++it) {
-					(**it)[0] = (char)((uint8_t)((uint8_t)(**it)[0]
-								     & (uint8_t)~SeqMask)
-							   | m_sendSeq);
-					m_sendSeq = nextSeq(m_sendSeq);
-				}
-			}
+			if(!reconnect)
+				injectReset();
 
 			do_transmit = true;
 			buffer_++;
@@ -608,6 +591,12 @@ void ArqLayer::decode(void* buffer, size_t len)
 			// Drop.
 			len = 0;
 			do_transmit = true;
+
+			// When it is not the first message after a reset, the peer saw an ack of a
+			// message that we did not receive. Without another reset, we would drop
+			// everything from now on.
+			if(m_recvSeq == nextSeq(0))
+				injectReset();
 		}
 
 		if(do_decode) {
@@ -654,6 +643,30 @@ void ArqLayer::decode(void* buffer, size_t len)
 	}
 }
 
+/*!
+ * \brief Put a reset message at the front of the queue, if not there already.
+ *
+ * The messages in the queue are renumbered to follow the reset.
+ */
+void ArqLayer::injectReset()
+{
+	if(m_encodeQueueSize != 0 && (*m_encodeQueue.front())[0] == (char)NopFlag)
+		return;
+
+	// Inject reset message in queue.
+	String::type& s = pushEncodeQueueRaw(false);
+	s.push_back((char)NopFlag);
+	m_encodeQueueSize++;
+	m_sendSeq = nextSeq(0);
+
+	// Reencode existing outbound messages.
+	for(Deque<String::type*>::type::iterator it = ++m_encodeQueue.begin();
+	    it != m_encodeQueue.end(); ++it) {
+		(**it)[0] = (char)((uint8_t)((uint8_t)(**it)[0] & (uint8_t)~SeqMask) | m_sendSeq);
+		m_sendSeq = nextSeq(m_sendSeq);
+	}
+}
+
 /*!
  * \brief Checks if this layer is waiting for an ack.
  */
-- 
2.43.0


From 911ff9245f645a6a134aaa3b377d4245d0e99efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 012/100] fix: Synchronizer handles a Bye with id as if it was
 its own id

The id in a Bye is the one in the message it responds to, so the one the
receiver of the Bye uses for its updates. It was looked up in the ids of the
other direction, such that it was ignored or applied to another store.
---
 src/synchronizer.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 57e6691..3cbc87f 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -1231,14 +1231,17 @@ void SyncConnection::decode(void* buffer, size_t len)
 			if(!id)
 				break;
 
-			IdInMap::iterator it = m_idIn.find(id);
-			if(it == m_idIn.end())
+			// The id is the one the other party assigned, which we use for our updates.
+			StoreMap::iterator it = m_store.begin();
+			while(it != m_store.end() && it->second.idOut != id)
+				++it;
+
+			if(it == m_store.end())
 				break;
 
-			StoreInfo const& si = m_store[it->second];
-			if(si.source && si.idOut)
+			if(it->second.source)
 				// Hey, we need it!
-				helloAgain(*(it->second));
+				helloAgain(*it->first);
 			else
 				eraseOut(id);
 		} else {
-- 
2.43.0


From 5a2c8e37935fe37b55aa501641495335ee70374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 013/100] fix: Bye of a reset SyncConnection is merged into the
 next message

---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 3cbc87f..99be21f 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -837,7 +837,7 @@ SyncConnection::~SyncConnection()
 
 void SyncConnection::reset()
 {
-	encodeCmd(Bye);
+	encodeCmd(Bye, true);
 	flush();
 	dropNonSources();
 	base::reset();
-- 
2.43.0


From c00f5eb44f06555a289eee823da3e4478e3e604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 014/100] fix: Synchronizer does not pass on a full buffer it
 received

A node that is (re)connected to its source gets a Welcome with the full
buffer. Others that got their copy from this node were not told about it,
and missed everything that changed in the mean time.
---
 include/libstored/synchronizer.h |  3 ++
 src/synchronizer.cpp             | 61 +++++++++++++++++++++++---------
 2 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/include/libstored/synchronizer.h b/include/libstored/synchronizer.h
index a55fd96..4530951 100644
--- a/include/libstored/synchronizer.h
+++ b/include/libstored/synchronizer.h
@@ -554,6 +554,7 @@ public:
 	bool isSynchronizing(StoreJournal& store) const;
 
 	void source(StoreJournal& store);
+	void welcome(StoreJournal& store);
 	void drop(StoreJournal& store);
 	StoreJournal::Seq process(StoreJournal& store, void* encodeBuffer);
 	void decode(void* buffer, size_t len) override final;
@@ -695,6 +696,8 @@ public:
 	bool isSynchronizing(StoreJournal& j) const;
 	bool isSynchronizing(StoreJournal& j, SyncConnection& notOverConnection) const;
 
+	void welcome(StoreJournal& j, SyncConnection& notOverConnection);
+
 	/*!
 	 * \brief Return a buffer large enough to encode messages in.
 	 */
diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 99be21f..32ac566 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -898,6 +898,33 @@ void SyncConnection::source(StoreJournal& store)
 	encodeId(id, true);
 }
 
+/*!
+ * \brief Send a Welcome with the full buffer, if we are the source of the given store for the other
+ *	party.
+ */
+void SyncConnection::welcome(StoreJournal& store)
+{
+	StoreMap::iterator s = m_store.find(&store);
+	if(s == m_store.end() || s->second.source)
+		return;
+
+	encodeCmd(Welcome);
+	encodeId(s->second.idOut);
+
+	for(IdInMap::iterator it = m_idIn.begin(); it != m_idIn.end(); ++it)
+		if(it->second == &store) {
+			// Apparently, we already had a sync to this store. Replace it.
+			m_idIn.erase(it);
+			break;
+		}
+
+	Id id = nextId();
+	m_idIn[id] = &store;
+	encodeId(id, false);
+
+	s->second.seq = store.encodeBuffer(*this, true);
+}
+
 /*!
  * \brief Determine a unique ID for others to send store updates to us.
  */
@@ -1124,25 +1151,10 @@ void SyncConnection::decode(void* buffer, size_t len)
 			break;
 		}
 
-		encodeCmd(Welcome);
-		encodeId(id);
-
 		StoreInfo& si = m_store[j];
 		si.source = false;
 		si.idOut = id;
-
-		for(IdInMap::iterator it = m_idIn.begin(); it != m_idIn.end(); ++it)
-			if(it->second == j) {
-				// Apparently, we already had a sync to this store. Replace it.
-				m_idIn.erase(it);
-				break;
-			}
-
-		id = nextId();
-		m_idIn[id] = j;
-		encodeId(id, false);
-
-		si.seq = j->encodeBuffer(*this, true);
+		welcome(*j);
 		break;
 	}
 	case Welcome: {
@@ -1181,6 +1193,9 @@ void SyncConnection::decode(void* buffer, size_t len)
 
 		si.seq = seq;
 		si.idOut = welcome_id;
+
+		// Any object may have changed, so others need the full buffer too.
+		synchronizer().welcome(*j->second, *this);
 		break;
 	}
 	case Update: {
@@ -1493,6 +1508,20 @@ StoreJournal::Seq Synchronizer::process(ProtocolLayer& connection, StoreJournal&
 	return 0;
 }
 
+/*!
+ * \brief Send the full buffer of the given store over all other connections that got their copy from
+ *	here.
+ */
+void Synchronizer::welcome(StoreJournal& j, SyncConnection& notOverConnection)
+{
+	for(Connections::iterator it = m_connections.begin(); it != m_connections.end(); ++it) {
+		// NOLINTNEXTLINE(cppcoreguidelines-pro-type-static-cast-downcast)
+		SyncConnection* c = static_cast<SyncConnection*>(*it);
+		if(c != &notOverConnection)
+			c->welcome(j);
+	}
+}
+
 bool Synchronizer::isSynchronizing(StoreJournal& j) const
 {
 	for(Connections::iterator it = m_connections.begin(); it != m_connections.end(); ++it)
-- 
2.43.0


From 6f0ca3cba6672c69339d752d96b8000b909468d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 015/100] fix: stores of 64 KiB to 16 MiB cannot be
 synchronized

The journal used keys of one byte for stores that need three.
---
 src/synchronizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 32ac566..5c0f7a4 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -245,6 +245,7 @@ StoreJournal::StoreJournal(
 	case 2:
 		m_keyCodec = &impl::keyCodec2;
 		break;
+	case 3:
 	case 4:
 		m_keyCodec = &impl::keyCodec4;
 		break;
-- 
2.43.0


From c67636d6047c491fcaff44fb3f30327a3f3d03ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 016/100] fix: StoreJournal::clean() drops all changes of a
 fresh journal

---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 5c0f7a4..b3c5f31 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -518,7 +518,7 @@ void StoreJournal::iterateChanged(
 void StoreJournal::clean(StoreJournal::Seq oldest)
 {
 	if(oldest == 0)
-		oldest = seq() - SeqCleanThreshold;
+		oldest = seq() > SeqCleanThreshold ? seq() - SeqCleanThreshold : 0;
 
 	bool didErase = false;
 	for(size_t i = m_changes.size(); i > 0; i--)
-- 
2.43.0


From 5f57071d7c856be702963809406f2382aaa2a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 017/100] fix: out-of-bounds write when decoding a Synchronizer
 update

The check of the key and length may overflow, and was skipped for an update
without data.
---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index b3c5f31..cb58889 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -792,7 +792,7 @@ size_t StoreJournal::keySize() const
  */
 void* StoreJournal::keyToBuffer(StoreJournal::Key key, StoreJournal::Size len, bool* ok) const
 {
-	if(ok && len && key + len > bufferSize())
+	if(ok && (key >= bufferSize() || len > bufferSize() - key))
 		*ok = false;
 	return static_cast<char*>(m_buffer) + key;
 }
-- 
2.43.0


From 358cf0634d710f198b04c33101610ff0a34580da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 018/100] fix: StoreJournal may take an old change as a recent
 one

When not all old changes were moved at once, the lower bound was set too high,
and the short sequence number of the others could wrap.
---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index cb58889..8a86ba5 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -315,7 +315,7 @@ StoreJournal::Seq StoreJournal::bumpSeq(bool force)
 			Seq o_seq = toLong(o.seq);
 			if(m_seq - o_seq > safeRange) {
 				update(o.key, o.len, m_seqLower, 0, m_changes.size());
-				seqLower = m_seqLower;
+				seqLower = std::min(seqLower, m_seqLower);
 			} else
 				seqLower = std::min(seqLower, o_seq);
 		}
-- 
2.43.0


From 5bcf0eed22d8896ac8d088fddd9b4b0422a9649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 019/100] fix: Synchronizer overflows its encode buffer after
 bogus updates

Updates that are within the store, but do not match its objects, are recorded
as is. Passing them on to others may need a larger buffer than MaxMessageSize.
---
 include/libstored/synchronizer.h | 11 +++++++++++
 src/synchronizer.cpp             | 18 ++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/include/libstored/synchronizer.h b/include/libstored/synchronizer.h
index 4530951..697056d 100644
--- a/include/libstored/synchronizer.h
+++ b/include/libstored/synchronizer.h
@@ -158,6 +158,7 @@ public:
 	static void encodeHash(ProtocolLayer& p, char const* hash, bool last = false);
 	Seq encodeBuffer(ProtocolLayer& p, bool last = false);
 	Seq encodeUpdates(uint8_t*& buf, Seq sinceSeq);
+	size_t encodedSize(Seq sinceSeq) const;
 
 	static char const* decodeHash(void*& buffer, size_t& len);
 	Seq decodeBuffer(void*& buffer, size_t& len);
@@ -706,6 +707,16 @@ public:
 		return m_encodeBuffer.data();
 	}
 
+	/*!
+	 * \brief Return a buffer to encode messages in of at least the given size.
+	 */
+	void* encodeBuffer(size_t size)
+	{
+		if(size > m_encodeBuffer.size())
+			m_encodeBuffer.resize(size);
+		return m_encodeBuffer.data();
+	}
+
 protected:
 	SyncConnection* toConnection(ProtocolLayer& connection) const;
 
diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 8a86ba5..6f02862 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -634,6 +634,18 @@ StoreJournal::Seq StoreJournal::encodeUpdates(uint8_t*& buf, StoreJournal::Seq s
 	return bumpSeq();
 }
 
+/*!
+ * \brief Return the number of bytes #encodeUpdates() is going to use.
+ */
+size_t StoreJournal::encodedSize(StoreJournal::Seq sinceSeq) const
+{
+	size_t size = 0;
+	for(size_t i = 0; i < m_changes.size(); i++)
+		if(toLong(m_changes[i].seq) >= sinceSeq)
+			size += keySize() * 2U + m_changes[i].len;
+	return size;
+}
+
 /*!
  * \brief Implementation of #encodeUpdates().
  */
@@ -1101,6 +1113,12 @@ StoreJournal::Seq SyncConnection::process(StoreJournal& store, void* encodeBuffe
 		// No recent changes.
 		return 0;
 
+	// Normally, an update always fits. However, the other party may have sent updates that do not
+	// match the objects of the store.
+	if(encodeBuffer == synchronizer().encodeBuffer())
+		encodeBuffer = synchronizer().encodeBuffer(
+			1U /*cmd*/ + sizeof(Id) + store.encodedSize(s->second.seq));
+
 	uint8_t* encodeBuffer_ = static_cast<uint8_t*>(encodeBuffer);
 	encodeCmd(Update, encodeBuffer_);
 	encodeId(s->second.idOut, encodeBuffer_);
-- 
2.43.0


From 1d9ea0348629905f94e26e314b03e10b2149a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 020/100] fix: a Welcome in the wrong direction overwrites the
 store before it is refused

---
 src/synchronizer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 6f02862..df321f7 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -1197,15 +1197,15 @@ void SyncConnection::decode(void* buffer, size_t len)
 			break;
 		}
 
-		seq = j->second->decodeBuffer(buffer, len);
-		if(!seq) {
+		StoreInfo& si = m_store[j->second];
+		if(!si.source) {
+			// Wrong direction.
 			bye(id);
 			break;
 		}
 
-		StoreInfo& si = m_store[j->second];
-		if(!si.source) {
-			// Wrong direction.
+		seq = j->second->decodeBuffer(buffer, len);
+		if(!seq) {
 			bye(id);
 			break;
 		}
-- 
2.43.0


From 13ce51a52839ca380544f8552cf662804622ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 021/100] fix: write of more than 32 bytes of memory by the
 debugger skipped bytes

---
 src/debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 2f2888a..bda2a6a 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -714,7 +714,7 @@ void Debugger::process(void const* frame, size_t len, ProtocolLayer& response)
 			if(!decodeHex(Type::Blob, w, wlen))
 				goto error;
 			memcpy(addr, w, wlen);
-			addr += chunk;
+			addr += wlen;
 			p += chunk;
 			len -= chunk;
 		}
-- 
2.43.0


From 8c65051a52b904666d85a6ca16aa1addb5d8d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 022/100] fix: respond to a macro without commands

---
 src/debugger.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index bda2a6a..92adcbe 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -928,7 +928,9 @@ bool Debugger::runMacro(char m, ProtocolLayer& response)
 		// Macro is currently being executed. No recursive calls are allowed.
 		return false;
 	case 1:
-		// Expect the separator and at least one char to execute.  Nothing to do.
+		// Expect the separator and at least one char to execute.  Nothing to do,
+		// but every request must have a response.
+		response.encode();
 		return true;
 	default:;
 		// Go execute.
-- 
2.43.0


From caa9fef6062cf88385479c2dc9312175a5a15213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 023/100] fix: reject a trace decimation that does not fit,
 instead of truncating it

---
 src/debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 92adcbe..4382614 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -853,7 +853,7 @@ void Debugger::process(void const* frame, size_t len, ProtocolLayer& response)
 
 		if(len > 3) {
 			void const* d = &p[3];
-			size_t dlen = std::min<size_t>(8, len - 3); // at most 32-bit
+			size_t dlen = len - 3; // at most 32-bit
 			if(!decodeHex(Type::Uint, d, dlen))
 				goto error;
 
-- 
2.43.0


From df5a3ae11ef92a63ce4cf2d2eb6657485d231220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 024/100] fix: listing without prefix used the prefix of the
 previous listing

---
 src/directory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/directory.cpp b/src/directory.cpp
index 264c4af..7b02ac4 100644
--- a/src/directory.cpp
+++ b/src/directory.cpp
@@ -98,6 +98,9 @@ void list(
 
 	if(prefix)
 		name = prefix;
+	else
+		// Drop the prefix of a previous call.
+		name.clear();
 
 	list(container, buffer, directory, f, arg, &name);
 }
-- 
2.43.0


From 2d060e6f9305aef8beca554a3a7843639c7bdcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 025/100] fix: reject tracing to a stream named ?

---
 src/debugger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 4382614..038ac7a 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -846,6 +846,10 @@ void Debugger::process(void const* frame, size_t len, ProtocolLayer& response)
 		m_traceMacro = p[1];
 		m_traceStream = p[2];
 
+		if(m_traceStream == '?')
+			// Not a valid stream name, as it is ambiguous in the 's' command return.
+			goto error;
+
 		// Make sure the trace stream exists.
 		if(!stream(m_traceStream, true))
 			// Cannot allocate.
-- 
2.43.0


From dc3de4ccedd8c4dbca8e7fe3ff86b85fced6d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 026/100] fix: flush of an empty debugger stream blocked it,
 also after reuse by another stream

---
 include/libstored/debugger.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/libstored/debugger.h b/include/libstored/debugger.h
index c126fae..cff42b9 100644
--- a/include/libstored/debugger.h
+++ b/include/libstored/debugger.h
@@ -92,7 +92,11 @@ public:
 
 	bool flush() final
 	{
-		block();
+		// When there is nothing to be read out, nothing can be lost.
+		// An empty stream is also never listed, so would remain blocked.
+		if(!empty())
+			block();
+
 		return true;
 	}
 
-- 
2.43.0


From a19365c6204a652a7a5a6b0e191f3dc5c661cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 027/100] fix: data sent to a blocked debugger stream was
 dropped, but reported as being accepted

---
 include/libstored/debugger.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libstored/debugger.h b/include/libstored/debugger.h
index cff42b9..b037020 100644
--- a/include/libstored/debugger.h
+++ b/include/libstored/debugger.h
@@ -136,6 +136,9 @@ public:
 
 	size_t fits(size_t more) const noexcept
 	{
+		if(blocked())
+			return 0;
+
 		size_t const default_max = Config::DebuggerStreamBuffer;
 		size_t const real_max = default_max + Config::DebuggerStreamBufferOverflow;
 
@@ -247,6 +250,9 @@ public:
 
 	size_t fits(size_t more) const noexcept
 	{
+		if(blocked())
+			return 0;
+
 		// Use the overflow region only for unexpected compression output.
 		size_t const default_max = Config::DebuggerStreamBuffer;
 		more = std::min(more, default_max);
-- 
2.43.0


From 30e170e1cbe744c2ac333aa29ba4e7b7c6be4736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 028/100] fix: only do not block a debugger stream when there
 was nothing to flush

---
 include/libstored/debugger.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/libstored/debugger.h b/include/libstored/debugger.h
index b037020..70d2292 100644
--- a/include/libstored/debugger.h
+++ b/include/libstored/debugger.h
@@ -92,11 +92,7 @@ public:
 
 	bool flush() final
 	{
-		// When there is nothing to be read out, nothing can be lost.
-		// An empty stream is also never listed, so would remain blocked.
-		if(!empty())
-			block();
-
+		block();
 		return true;
 	}
 
@@ -200,6 +196,11 @@ public:
 
 	bool flush() final
 	{
+		if(empty())
+			// Nothing to flush. As an empty stream is never listed,
+			// nobody would read it, so it would remain blocked.
+			return true;
+
 		m_compress.encode();
 		return m_compress.flush();
 	}
@@ -216,11 +217,13 @@ public:
 
 	bool empty() const noexcept
 	{
+		// A blocked stream must be read out to start the next one, also when the
+		// last part that was flushed happens to have no data.
 		return
 #	ifdef STORED_HAVE_HEATSHRINK
 			m_compress.idle() &&
 #	endif
-			m_string.empty();
+			!blocked() && m_string.empty();
 	}
 
 	String::type const& buffer() const noexcept
-- 
2.43.0


From a5b506c77ce44400e6736b7ff047ac91c38e86f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 029/100] fix: roll back to a ScratchPad snapshot at the very
 end of a full buffer

---
 include/libstored/spm.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 98ef872..867f100 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -260,7 +260,7 @@ public:
 	 */
 	Snapshot snapshot() noexcept
 	{
-		return Snapshot(*this, empty() ? nullptr : &m_buffer[m_size], m_total);
+		return Snapshot(*this, empty() ? nullptr : m_buffer + m_size, m_total);
 	}
 
 private:
@@ -279,7 +279,8 @@ private:
 		char* snapshot_ = static_cast<char*>(snapshot);
 
 		// Find correct buffer.
-		while(!(snapshot_ >= m_buffer && snapshot_ < &m_buffer[bufferSize()])) {
+		// Note that the snapshot may be at the very end of a fully used buffer.
+		while(!(snapshot_ >= m_buffer && snapshot_ <= m_buffer + bufferSize())) {
 			m_size = 0; // Don't care, will be recovered later on.
 			bufferPop();
 			stored_assert(m_buffer);
@@ -289,7 +290,7 @@ private:
 		stored_assert(size <= m_total);
 		m_total = size;
 		size_t size_ = (size_t)(snapshot_ - m_buffer);
-		stored_assert(size_ < bufferSize());
+		stored_assert(size_ <= bufferSize());
 		m_size = (size_type)size_;
 
 		STORED_MAKE_MEM_NOACCESS(&m_buffer[m_size], bufferSize() - m_size);
-- 
2.43.0


From 60b647c1590f9163042d89fb41dd5bebe017927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 030/100] fix: do not reallocate a ScratchPad buffer that a
 snapshot may refer to

---
 include/libstored/spm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 867f100..4675ebd 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -463,8 +463,9 @@ public:
 		if(likely(new_cap <= bufferSize()))
 			return;
 
-		if(m_buffer && m_size == 0) {
+		if(m_buffer && empty()) {
 			// Grow (realloc) is fine, as nobody is using the current buffer (if any).
+			// When there are other buffers, a snapshot may refer to this one.
 			bufferGrow(new_cap);
 		} else {
 			// Grow (realloc) may move the buffer. So don't do that.
-- 
2.43.0


From f6d3bc8294ba2ba1bf8899cadfa02ea44b9ee02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 031/100] fix: refuse a ScratchPad allocation that does not fit
 the maximum size

---
 include/libstored/spm.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 4675ebd..6828e4b 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -530,8 +530,9 @@ public:
 		if(padding == align)
 			padding = 0;
 
-		if(unlikely(m_total + alloc_size + padding < m_total)) {
-			// Wrap around -> overflow.
+		if(unlikely(alloc_size > (size_t)maxSize
+			    || (size_t)m_total + alloc_size + padding > (size_t)maxSize)) {
+			// Our counters would overflow.
 #	ifdef STORED_cpp_exceptions
 			throw std::bad_alloc();
 #	else
-- 
2.43.0


From 26d0985d87a2352fc52b09d94b1e8743175d73be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 032/100] fix: forget the old ScratchPad buffer when growing it
 fails

---
 include/libstored/spm.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 6828e4b..75ec443 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -370,6 +370,8 @@ private:
 		// Standard allocators don't have realloc. So, deallocate first,
 		// and then allocate a new one.
 		chunkDeallocate(chunk(), bufferSize());
+		// The allocation may throw std::bad_alloc.
+		m_buffer = nullptr;
 		m_buffer = buffer(allocate<char>(size + chunkHeader));
 		setBufferSize(size);
 
-- 
2.43.0


From fc0e85f6d05a487c3144af1a0cae090e37df3012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 033/100] fix: allow a ScratchPad buffer with spare room beyond
 the maximum size

---
 include/libstored/spm.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 75ec443..42c9f2c 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -353,9 +353,8 @@ private:
 			// We don't know m_size. Assume that this is part of a rollback(), which
 			// will set it properly. Set it at worst-case now, such that the assert
 			// above may trigger.
-			size_t b = bufferSize();
-			stored_assert(b <= maxSize);
-			m_size = (size_type)b;
+			// The buffer may have spare room beyond the maximum size.
+			m_size = (size_type)std::min<size_t>(bufferSize(), maxSize);
 		}
 	}
 
-- 
2.43.0


From ce303e1697eb6448907d3cd9a828f0ff2ff9315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 034/100] fix: leave a Callable as is when it is moved to
 itself

---
 include/libstored/allocator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/libstored/allocator.h b/include/libstored/allocator.h
index 9b498e4..15510a4 100644
--- a/include/libstored/allocator.h
+++ b/include/libstored/allocator.h
@@ -446,9 +446,11 @@ public:
 
 	Callable& operator=(Callable&& c) noexcept
 	{
-		destroy();
-		c.get().move(m_buffer.data());
-		c = nullptr;
+		if(&c != this) {
+			destroy();
+			c.get().move(m_buffer.data());
+			c = nullptr;
+		}
 		return *this;
 	}
 
-- 
2.43.0


From b3c068e760fb581a5e8aef52bf5f035d0a9035f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 035/100] fix: only release the memory when constructing a
 function object in a Callable throws

---
 include/libstored/allocator.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/libstored/allocator.h b/include/libstored/allocator.h
index 15510a4..c9888e7 100644
--- a/include/libstored/allocator.h
+++ b/include/libstored/allocator.h
@@ -303,8 +303,19 @@ protected:
 				int>::type = 0>
 		// NOLINTNEXTLINE(misc-forwarding-reference-overload,bugprone-forwarding-reference-overload)
 		explicit Forwarder(F_&& f)
-			: m_w{new(allocate<Wrapper<F>>()) Wrapper<F>(std::forward<F_>(f))}
-		{}
+			: m_w{}
+		{
+			auto w = allocate<Wrapper<F>>();
+			try {
+				m_w = new(w) Wrapper<F>(std::forward<F_>(f));
+			} catch(...) {
+				// Not constructed, so only release the memory.
+				deallocate<Wrapper<F>>(w);
+#    ifdef STORED_cpp_exceptions
+				throw;
+#    endif
+			}
+		}
 
 		explicit Forwarder(Wrapper<F>& w) noexcept
 			: m_w{&w}
@@ -336,13 +347,15 @@ protected:
 				auto w = allocate<Wrapper<F>>();
 				try {
 					f.m_w->clone(w);
-					m_w = w;
 				} catch(...) {
-					cleanup(w);
+					// Not constructed, so only release the memory.
+					deallocate<Wrapper<F>>(w);
 #    ifdef STORED_cpp_exceptions
 					throw;
 #    endif
 				}
+				cleanup(m_w);
+				m_w = w;
 			}
 			return *this;
 		}
-- 
2.43.0


From d83dba8157193675fb3ac74a7daa534b4e423be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:21 +0000
Subject: [PATCH 036/100] fix: do not move function objects within a Callable
 that may throw

---
 include/libstored/allocator.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/libstored/allocator.h b/include/libstored/allocator.h
index c9888e7..f3b86d0 100644
--- a/include/libstored/allocator.h
+++ b/include/libstored/allocator.h
@@ -388,6 +388,19 @@ protected:
 		char, max(sizeof(Reset), sizeof(Forwarder<R (*)(Args...)>),
 			  sizeof(Wrapper<R (*)(Args...)>) + sizeof(void*))>;
 
+	/*!
+	 * \brief Check if the function object is to be stored in our buffer.
+	 *
+	 * Moving a Callable never throws. So, a function object of which the move may throw must
+	 * not be moved.
+	 */
+	template <typename F>
+	static constexpr bool isLocal() noexcept
+	{
+		return sizeof(Wrapper<F>) <= std::tuple_size<Buffer>::value
+		       && std::is_nothrow_move_constructible<F>::value;
+	}
+
 public:
 	explicit Callable()
 	{
@@ -481,7 +494,7 @@ protected:
 	}
 
 	template <typename G, typename F_ = typename CallableType<G>::type>
-	typename std::enable_if<(sizeof(Wrapper<F_>) > std::tuple_size<Buffer>::value)>::type
+	typename std::enable_if<!isLocal<F_>()>::type
 	/* void */
 	assign(G&& g)
 	{
@@ -489,7 +502,7 @@ protected:
 	}
 
 	template <typename G, typename F_ = typename CallableType<G>::type>
-	typename std::enable_if<(sizeof(Wrapper<F_>) <= std::tuple_size<Buffer>::value)>::type
+	typename std::enable_if<isLocal<F_>()>::type
 	/* void */
 	assign(G&& g)
 	{
-- 
2.43.0


From 505f520c0d7e4108b90d1dc889ada4c03b0e7243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 037/100] fix: pipes: moving an ExitValue moves the value that
 it holds

---
 include/libstored/pipes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 23d384a..19a957e 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -787,7 +787,7 @@ public:
 	ExitValue(ExitValue&& v) noexcept
 		: m_p{v.m_p}
 	{
-		if(m_p)
+		if(!m_p)
 			new(m_v.data()) type{std::move(v.value())};
 	}
 
-- 
2.43.0


From cf7d836b62eff2960f2dfb1827cfb446fd731e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 038/100] fix: pipes: comparing a value with an ExitValue keeps
 the order of the operands

---
 include/libstored/pipes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 19a957e..171e74e 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -827,7 +827,7 @@ public:
 		}                                                                \
 		friend bool operator op(type const& x, ExitValue<type> const& v) \
 		{                                                                \
-			return v.get() op x;                                     \
+			return x op v.get();                                     \
 		}
 
 	EXITVALUE_COMPARE_OP(==)
-- 
2.43.0


From a098020a647aa14f7ef9c3fdab2fb957ba289c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:42 +0000
Subject: [PATCH 039/100] fix: pipes: do not return a reference to a temporary
 from a pipe's entry_cast() and exit_cast()

---
 include/libstored/pipes.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 171e74e..5be80ca 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -561,14 +561,16 @@ public:
 
 	static constexpr bool has_extract = Init::has_extract || Last::has_extract;
 
-	decltype(auto) exit_cast(type_in x) const
+	// Return by value, as a reference may refer to the temporary returned by Init.
+	auto exit_cast(type_in x) const
 	{
 		return Last::exit_cast(Init::exit_cast(x));
 	}
 
 	static constexpr bool has_exit_cast = Init::has_exit_cast || Last::has_exit_cast;
 
-	decltype(auto) entry_cast(type_out x) const
+	// Return by value, as a reference may refer to the temporary returned by Last.
+	auto entry_cast(type_out x) const
 	{
 		return Init::entry_cast(Last::entry_cast(x));
 	}
-- 
2.43.0


From c7b22fd2df281c9ecee12770f27281fe3d33cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:42 +0000
Subject: [PATCH 040/100] fix: pipes: trigger a segment when the ones in front
 of it do not provide data

---
 include/libstored/pipes.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 5be80ca..81b62b3 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -612,7 +612,27 @@ private:
 		return Last_::exit_cast(Init::extract());
 	}
 
-	template <typename Init_, typename Last_, std::enable_if_t<Init_::has_trigger, int> = 0>
+	template <
+		typename Init_, typename Last_,
+		std::enable_if_t<Init_::has_trigger && Last_::has_trigger, int> = 0>
+	std::decay_t<type_out> trigger_helper(bool* triggered)
+	{
+		bool triggered_ = false;
+		decltype(auto) x = Init_::trigger(&triggered_);
+
+		if(!triggered_)
+			// Init did not provide any data, but Last may.
+			return Last_::trigger(triggered);
+
+		if(triggered)
+			*triggered = true;
+
+		return Last_::inject(x);
+	}
+
+	template <
+		typename Init_, typename Last_,
+		std::enable_if_t<Init_::has_trigger && !Last_::has_trigger, int> = 0>
 	decltype(auto) trigger_helper(bool* triggered)
 	{
 		bool triggered_ = false;
-- 
2.43.0


From 4f254211532690c3c24d2e14df4f6e3f8792e747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:20 +0000
Subject: [PATCH 041/100] fix: saturated_cast of floating point values that do
 not fit in a long long

---
 include/libstored/util.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/libstored/util.h b/include/libstored/util.h
index 7df7a4e..fb89f43 100644
--- a/include/libstored/util.h
+++ b/include/libstored/util.h
@@ -688,17 +688,33 @@ struct saturated_cast_helper {
 		return static_cast<R>(value);
 	}
 
+	template <typename F>
+	static R cast_float(F value, F (*round_)(F)) noexcept
+	{
+		// Check the bounds first, as rounding to an integer that does
+		// not fit has an unspecified result.
+		if(value >= static_cast<F>(std::numeric_limits<R>::max()))
+			return std::numeric_limits<R>::max();
+		if(value <= static_cast<F>(std::numeric_limits<R>::min()))
+			return std::numeric_limits<R>::min();
+		if(value != value)
+			// NaN
+			return 0;
+
+		return static_cast<R>(round_(value));
+	}
+
 	__attribute__((pure)) static R cast(float value) noexcept
 	{
-		return cast(llroundf(value));
+		return cast_float(value, &::roundf);
 	}
 	__attribute__((pure)) static R cast(double value) noexcept
 	{
-		return cast(llround(value));
+		return cast_float(value, &::round);
 	}
 	__attribute__((pure)) static R cast(long double value) noexcept
 	{
-		return cast(llroundl(value));
+		return cast_float(value, &::roundl);
 	}
 	__attribute__((pure)) static R cast(bool value) noexcept
 	{
-- 
2.43.0


From e35e79a87368a3c8eb1b901a08613cda288cb01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:20 +0000
Subject: [PATCH 042/100] fix: pipes: similar_to for integers with a magnitude,
 difference or margin that does not fit in the type

---
 include/libstored/pipes.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 81b62b3..fcb27a4 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -2036,9 +2036,13 @@ template <typename T, unsigned int order>
 struct similar_to<T, order, false> {
 	bool operator()(T const& a, T const& b) const
 	{
-		T margin = std::max(std::abs(a), std::abs(b))
-			   / static_cast<T>(impl::pow<10, order>::value);
-		T diff = std::abs(a - b);
+		// Use unsigned numbers, as the magnitude and difference may not fit in T.
+		using U = std::make_unsigned_t<T>;
+		U const ua = a < 0 ? static_cast<U>(U{} - static_cast<U>(a)) : static_cast<U>(a);
+		U const ub = b < 0 ? static_cast<U>(U{} - static_cast<U>(b)) : static_cast<U>(b);
+		auto const margin = std::max(ua, ub) / impl::pow<10, order>::value;
+		auto const diff = a < b ? static_cast<U>(static_cast<U>(b) - static_cast<U>(a))
+					: static_cast<U>(static_cast<U>(a) - static_cast<U>(b));
 		return diff <= margin;
 	}
 };
-- 
2.43.0


From 23718549ed18a43a7347fab5b6c59973fb51eefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 043/100] fix: let strncmp compare unsigned characters, like
 ::strncmp

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 0ea0867..34c148e 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -46,8 +46,8 @@ int strncmp(
 
 	size_t i = 0;
 	for(; i < len1 && i < len2; i++) {
-		char c1 = str1[i];
-		char c2 = str2[i];
+		unsigned char c1 = static_cast<unsigned char>(str1[i]);
+		unsigned char c2 = static_cast<unsigned char>(str2[i]);
 
 		if(c1 < c2)
 			return -1;
-- 
2.43.0


From 0ba5569bb445f81bd52a3a16048b49c0fe14c342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 044/100] fix: let memcmp_swap order by the bytes that it
 compares

---
 src/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index 34c148e..c015942 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -112,7 +112,7 @@ int memcmp_swap(void const* a, void const* b, size_t len) noexcept
 	return 0;
 
 diff:
-	return a_[i] < b_[i] ? -1 : 1;
+	return a_[i] < b_[len - i - 1] ? -1 : 1;
 }
 
 /*!
-- 
2.43.0


From 2bc8ce2e2a7398242738e00dc6e799d70cc8e9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 045/100] fix: CompressLayer: start decoding every message from
 scratch, like the encoder does

---
 src/compress.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compress.cpp b/src/compress.cpp
index 162648d..50e80ec 100644
--- a/src/compress.cpp
+++ b/src/compress.cpp
@@ -94,6 +94,9 @@ void CompressLayer::decode(void* buffer, size_t len)
 	while(heatshrink_decoder_finish(&decoder()) == HSDR_FINISH_MORE)
 		decoderPoll();
 
+	// The encoder starts every message from scratch.
+	heatshrink_decoder_reset(&decoder());
+
 	base::decode(m_decodeBuffer.data(), m_decodeBufferSize);
 	m_state &= (uint8_t) ~(uint8_t)FlagDecoding;
 }
-- 
2.43.0


From dfc2f316a20e3cfebfc816cb438735b11fc222ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 046/100] fix: python TerminalLayer.mtu: NameError on any stack
 with an MTU

---
 python/libstored/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index c6a04df..3900902 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -219,7 +219,7 @@ class TerminalLayer(ProtocolLayer):
         m = super().mtu
         if m == 0:
             return 0
-        return max(1, m - len(start) - len(end))
+        return max(1, m - len(self.start) - len(self.end))
 
 class PubTerminalLayer(TerminalLayer):
     """
-- 
2.43.0


From 276e6f2f221e2548f004f9f852520cd8a18ecdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 047/100] fix: python Crc16Layer.mtu: leave room for both bytes
 of the CRC

---
 python/libstored/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index 3900902..c0bde53 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -507,7 +507,7 @@ class Crc16Layer(ProtocolLayer):
         m = super().mtu
         if m == 0:
             return 256
-        return min(256, max(1, m - 1))
+        return min(256, max(1, m - 2))
 
 class ProtocolStack(ProtocolLayer):
     name = 'stack'
-- 
2.43.0


From 3c655d560306cde6969e51fb3ca30612a820461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 048/100] fix: python SegmentationLayer.encode: send an empty
 message too, also when there is an MTU

---
 python/libstored/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index c0bde53..6dd7632 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -274,7 +274,7 @@ class SegmentationLayer(ProtocolLayer):
             super().encode(data + self.end)
         else:
             mtu = max(1, mtu - 1)
-            for i in range(0, len(data), mtu):
+            for i in range(0, max(1, len(data)), mtu):
                 if i + mtu >= len(data):
                     super().encode(data[i:i+mtu] + self.end)
                 else:
-- 
2.43.0


From 8ed97f0e132585a266e9b2a0bb26e7faddfbb5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 049/100] fix: python DebugArqLayer: the acknowledge of a reset
 is not the start of the response

When the first response after a reset got lost, its retransmit was dropped
forever.
---
 python/libstored/protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index 6dd7632..20fbc2f 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -312,8 +312,8 @@ class DebugArqLayer(ProtocolLayer):
         if data[0] & self.reset_flag:
             self._decode_seq = seq
 
-        if self._req:
-            # We got a response, so the request should be finished now.
+        if self._req and not (self._syncing and data[0] == self.reset_flag):
+            # We got a response (not only the ack of our reset), so the request should be finished now.
             self._req = False
             # This is the first part of the response.
             self._decode_seq_start = self._decode_seq
-- 
2.43.0


From 1e556d084c58f75daef261142722f2e2793d60f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 050/100] fix: pass the value to (not from) the function when
 calling it with an unaligned buffer

---
 include/libstored/types.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 775fbe6..d40f899 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -946,14 +946,14 @@ public:
 		   && ((uintptr_t)buffer & (std::min(sizeof(void*), sizeof(type)) - 1U))) {
 			// Unaligned access, do the callback on a local buffer.
 			stored_assert(len >= sizeof(type));
-			type v;
+			type v = type();
 
 			if(set) {
+				memcpy(&v, buffer, sizeof(v));
 				container().callback(true, &v, sizeof(v), id());
-				memcpy(buffer, &v, sizeof(v));
 			} else {
-				memcpy(&v, buffer, sizeof(v));
 				container().callback(false, &v, sizeof(v), id());
+				memcpy(buffer, &v, sizeof(v));
 			}
 
 			return sizeof(v);
@@ -1465,11 +1465,11 @@ public:
 			uint64_t v = 0;
 
 			if(set) {
+				memcpy(&v, buffer, size_);
 				container().callback(true, &v, size_, (unsigned int)m_f);
-				memcpy(buffer, &v, size_);
 			} else {
-				memcpy(&v, buffer, size_);
 				container().callback(false, &v, size_, (unsigned int)m_f);
+				memcpy(buffer, &v, size_);
 			}
 
 			return size_;
-- 
2.43.0


From 14f1fda8f0bb0949375f20dc9cb524ef7b9c08df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 051/100] fix: let function handles be converted to Variants
 and back; arrays of functions did not compile

---
 include/libstored/types.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index d40f899..f5caf19 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1273,7 +1273,7 @@ public:
 		: m_container(f.valid() ? &f.container() : nullptr)
 		, m_f(f.valid() ? f.id() : 0)
 		, m_len(sizeof(T))
-		, m_type(f.type())
+		, m_type((uint8_t)(toType<T>::type | Type::FlagFunction))
 #  ifdef _DEBUG
 		, m_entry()
 #  endif
@@ -1777,7 +1777,7 @@ public:
 	typename Container::Key key() const noexcept
 	{
 		stored_assert(isVariable());
-		return container()->bufferToKey(m_buffer);
+		return container().bufferToKey(m_buffer);
 	}
 
 	/*!
@@ -1966,7 +1966,7 @@ public:
 	 * \brief Get the typed function corresponding to this variant.
 	 */
 	template <typename T, typename Container>
-	Variable<T, Container> function(Container& container) const noexcept
+	Function<T, Container> function(Container& container) const noexcept
 	{
 		return apply<Container>(container).template function<T>();
 	}
-- 
2.43.0


From b6975cdcb1e5372b83d85d02a455140cbead8904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 052/100] fix: Variant::get<T>() and set<T>() asserted for
 functions

---
 include/libstored/types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index f5caf19..52723a4 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1329,7 +1329,7 @@ public:
 	T get() const
 	{
 		stored_assert(Type::isFixed(type()));
-		stored_assert(toType<T>::type == type());
+		stored_assert(toType<T>::type == (type() & ~Type::FlagFunction));
 		stored_assert(sizeof(T) == size());
 		T data;
 		size_t len = get(&data, sizeof(T));
@@ -1423,7 +1423,7 @@ public:
 	void set(T value)
 	{
 		stored_assert(Type::isFixed(type()));
-		stored_assert(toType<T>::type == type());
+		stored_assert(toType<T>::type == (type() & ~Type::FlagFunction));
 		stored_assert(sizeof(T) == size());
 		set(&value, sizeof(T));
 	}
-- 
2.43.0


From e254f065c4fc4f815496bfcd322d5a5771bb3717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 053/100] fix: terminate the string when copying Variants; the
 tail of a longer string remained

---
 include/libstored/types.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 52723a4..298e9f3 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1827,10 +1827,12 @@ public:
 		stored_assert(isVariable() && other.isVariable());
 
 		size_t len = size();
+		// The byte after the buffer of a string is reserved for the \0.
+		size_t changed_len = type() == Type::String ? len + 1U : len;
 		bool changed = true;
 
 		other.entryRO(len);
-		entryX(len);
+		entryX(changed_len);
 
 		if(type() == Type::String) {
 			if(Config::EnableHooks)
@@ -1838,9 +1840,11 @@ public:
 						  static_cast<char*>(buffer()),
 						  static_cast<char const*>(other.buffer()), len)
 					  != 0;
-			if(changed)
-				strncpy(static_cast<char*>(buffer()),
-					static_cast<char const*>(other.buffer()), len);
+			if(changed) {
+				char* buffer_ = static_cast<char*>(buffer());
+				buffer_[strncpy(
+					buffer_, static_cast<char const*>(other.buffer()), len)] = '\0';
+			}
 		} else {
 			if(Config::EnableHooks)
 				changed = memcmp(buffer(), other.buffer(), len) != 0;
@@ -1848,7 +1852,7 @@ public:
 				memcpy(buffer(), other.buffer(), len);
 		}
 
-		exitX(changed, len);
+		exitX(changed, changed_len);
 		other.exitRO(len);
 	}
 
-- 
2.43.0


From 71891c5ae392612b60253a37f112a063377fe740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 054/100] fix: assertion on accessing a blob at the end of the
 store

---
 include/libstored/store.h.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/store.h.tmpl b/include/libstored/store.h.tmpl
index 7a5c849..1358ffe 100644
--- a/include/libstored/store.h.tmpl
+++ b/include/libstored/store.h.tmpl
@@ -449,7 +449,7 @@ private:
 	 */
 	Variant<Implementation> _variantv(Type::type type, size_t offset, size_t len) noexcept
 	{
-		stored_assert(offset + len < sizeof(m_data.buffer));
+		stored_assert(offset + len <= sizeof(m_data.buffer));
 		stored_assert(!Type::isFunction(type));
 		return Variant<Implementation>(implementation(), type, &buffer()[offset], len);
 	}
-- 
2.43.0


From 96c84a7e18c92fed8612337c1dd7fcb098745a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 055/100] fix: variable<T>(name) and function<T>(name) of a
 store did not compile

---
 include/libstored/store.h.tmpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/store.h.tmpl b/include/libstored/store.h.tmpl
index 1358ffe..c6da1bb 100644
--- a/include/libstored/store.h.tmpl
+++ b/include/libstored/store.h.tmpl
@@ -915,7 +915,7 @@ public:
 	Variable<T,Implementation> variable(char const* name,
 		size_t len = std::numeric_limits<size_t>::max()) noexcept
 	{
-		return freeVariable(name, len).apply(*this);
+		return freeVariable<T>(name, len).apply(implementation());
 	}
 
 	/*!
@@ -942,7 +942,7 @@ public:
 	Function<T,Implementation>
 	function(char const* name, size_t len = std::numeric_limits<size_t>::max()) noexcept
 	{
-		return freeFunction(name, len).apply(*this);
+		return freeFunction<T>(name, len).apply(implementation());
 	}
 
 	/*!
-- 
2.43.0


From edf9b5d2477447586b5af6a42fdc38e515378799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 056/100] fix: Variant::get of a string ended the read of
 another length than it started

---
 include/libstored/types.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 298e9f3..02543c0 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1302,6 +1302,7 @@ public:
 		if(Type::isFunction(type())) {
 			len = callback(false, dst, len);
 		} else {
+			size_t res = len;
 			entryRO(len);
 			if(unlikely(type() == Type::String)) {
 				char* dst_ = static_cast<char*>(dst);
@@ -1309,7 +1310,7 @@ public:
 				size_t len_ = strncpy(dst_, buffer_, len);
 				if(len > len_)
 					dst_[len_] = '\0';
-				len = len_;
+				res = len_;
 			} else {
 				if(Type::isStoreSwapped(type()))
 					memcpy_swap(dst, m_buffer, len);
@@ -1317,6 +1318,7 @@ public:
 					memcpy(dst, m_buffer, len);
 			}
 			exitRO(len);
+			len = res;
 		}
 		return len;
 	}
-- 
2.43.0


From 90b21d24c44cf5fefe6cf7a41fea9eda75b8e9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 057/100] fix: find objects and scopes with the same name in
 the directory

When an object has the same name as a scope, the end of the name could be
selected as pivot to compare to, but that is the marker of the end of the
directory. So, these objects could not be found.
---
 python/libstored/generator/dsl/types.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index ff64c0b..4e4646b 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -222,14 +222,17 @@ class Directory(object):
                 skip -= s
             return res + self.generateDict(h[names[0]])
         else:
-            # Choose pivot to compare to
-            pivot = int(len(names) / 2)
-            if names[pivot] == '/':
-                if pivot > 0:
-                    pivot -= 1
-                else:
-                    pivot += 1
-            assert(names[pivot] != '/')
+            # Choose pivot to compare to. The end of the name and the separator
+            # cannot be compared to, as they are special markers in the directory.
+            candidates = [i for i in range(0, len(names)) if not names[i] in ['\x00', '/']]
+            if candidates == []:
+                # An object and a scope with the same name. Distinguish between
+                # them by an (absent) character in between.
+                names.insert(1, '.')
+                h = dict(h)
+                h['.'] = {}
+                candidates = [1]
+            pivot = min(candidates, key=lambda i: abs(i - int(len(names) / 2)))
             expr = self.generateDict(h[names[pivot]])
 
             # Elements less than pivot
-- 
2.43.0


From ac3c9cbd2789ab7013fe270d0cb2a7c07a9a4424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 058/100] fix: give empty blobs their own key

Multiple empty blobs got the same offset in the buffer, such that the
generated store did not compile.
---
 python/libstored/generator/dsl/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index 4e4646b..d9b2ecd 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -367,7 +367,8 @@ class Buffer(object):
         self.size = self.align(len(self.init), 8)
         for v in defaultvars:
             size = v.buffersize()
-            alignedsize = self.align(size)
+            # Empty blobs also need their own place, as the offset is the object's key.
+            alignedsize = max(1, self.align(size))
             v.offset = self.size
             self.size += alignedsize
 
-- 
2.43.0


From 2af2601b25eb6c672e0ff71463d530c24862d57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 059/100] fix: do not encode non-ASCII string initializers
 twice

---
 python/libstored/generator/dsl/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index d9b2ecd..fc1dc65 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -608,7 +608,7 @@ class Variable(Object):
             self.size = type.blob.size
             self.init = None
             if self.type == 'string' and type.init is not None:
-                self.init = bytes(str(type.init), "utf-8").decode("unicode_escape")
+                self.init = str(type.init).encode('latin-1', 'backslashreplace').decode('unicode_escape')
                 l = len(self.init.encode())
                 if self.size < l:
                     sys.exit(f'String initializer is too long')
-- 
2.43.0


From 058e4dfcbb7a6d357d4fba414279ebb47fda99eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 060/100] fix: check all indices in array accessors

When the remaining part of the (multi-dimensional) array only had one element,
the index was ignored and that element was returned for any index. Moreover,
names like a[0]b and a[0]b[1] were mixed up, and indices like 08 did not
compile.
---
 python/libstored/generator/dsl/types.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index fc1dc65..16fc7e6 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -380,9 +380,6 @@ class ArrayLookup(object):
         # All objects should have the same name, but only differ in their array index.
         self.objects = objects
 
-        # Create a tree structure based on the part of the name.
-        self.tree = self._tree(objects)
-
         if len(objects) == 0:
             self._placeholders = 0
         elif objects[0].name_index[-1][1] == None:
@@ -390,6 +387,9 @@ class ArrayLookup(object):
         else:
             self._placeholders = len(objects[0].name_index)
 
+        # Create a tree structure based on the part of the name.
+        self.tree = self._tree(objects)
+
         if len(objects) > 0:
             self.name = ''
             for i in range(0, len(objects[0].name_index)):
@@ -409,7 +409,8 @@ class ArrayLookup(object):
     def _tree(self, objects, index = 0):
         if len(objects) == 0:
             return None
-        if len(objects) == 1:
+        if index >= self._placeholders:
+            # All indices have been checked.
             return objects[0]
 
         res = {}
@@ -417,7 +418,7 @@ class ArrayLookup(object):
         groups = {}
         # Group on subscript within this part of the name.
         for o in objects:
-            subscript = o.name_index[index][1]
+            subscript = int(o.name_index[index][1])
             if not subscript in groups:
                 groups[subscript] = []
             groups[subscript].append(o)
@@ -542,7 +543,8 @@ class Store(object):
         for o in split_objects:
             key = []
             for i in range(0, len(o.name_index)):
-                key.append(o.name_index[i][0])
+                # Names that end with an index differ from those that do not.
+                key.append((o.name_index[i][0], o.name_index[i][1] is None))
             # Make hashable
             key = tuple(key)
             if not key in grouped_objects:
-- 
2.43.0


From 91d23f7c392e587b8416080ae80cbe9b2fa217d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 061/100] fix: do not let names of objects clash with members
 of the store

Objects that are called name, data, find, list, etc. led to a store that did
not compile.
---
 python/libstored/generator/dsl/types.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index 16fc7e6..a094806 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -38,6 +38,14 @@ def is_reserved_name(s):
         'unsigned', 'void', 'volatile', 'while', '_Alignas', '_Alignof',
         '_Atomic', '_Bool', '_Complex', '_Generic', '_Imaginary', '_Noreturn',
         '_Static_assert', '_Thread_local',
+        # Members of the generated store
+        'Base', 'BufferSize', 'Data', 'Function', 'FunctionCount',
+        'Implementation', 'Key', 'ObjectCount', 'Objects', 'Variable',
+        'VariableCount', 'Variant', 'buffer', 'bufferToKey', 'bufferToType',
+        'callback', 'data', 'find', 'freeFunction', 'freeVariable', 'function',
+        'hash', 'hookChanged', 'hookEntryRO', 'hookEntryX', 'hookExitRO',
+        'hookExitX', 'implementation', 'list', 'longDirectory', 'm_data',
+        'm_locked', 'name', 'root', 'self', 'shortDirectory', 'variable',
     ]
 
 def cname(s):
-- 
2.43.0


From a8f32cfc089f136af428250cfb62a874da22bd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 062/100] fix: generate proper C names for names without
 letters

Names like '1' or '-' led to an empty C name.
---
 python/libstored/generator/dsl/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index a094806..72983be 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -58,7 +58,7 @@ def cname(s):
     c = re.sub(r'^[^A-Za-z]_*', '_', c)
     c = re.sub(r'_+$', '', c)
 
-    if s == '':
+    if c == '':
         c = 'obj'
 
     if is_reserved_name(c):
-- 
2.43.0


From 41ba1cf723367dd5a6b471af375dd964e42551f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 063/100] fix: escape names in comments of the generated store

Object names may contain */, or end with a backslash, which broke the
comment.
---
 include/libstored/store.h.tmpl         | 20 ++++++++++----------
 python/libstored/generator/__main__.py |  6 ++++++
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/libstored/store.h.tmpl b/include/libstored/store.h.tmpl
index c6da1bb..d4f890a 100644
--- a/include/libstored/store.h.tmpl
+++ b/include/libstored/store.h.tmpl
@@ -171,7 +171,7 @@ struct {{store.name}}FunctionMap {};
 {%   if o is function %}
 {%     if not o is blob %}
 
-// {{o}}
+// {{o|ccomment}}
 template <typename Implementation>
 struct {{store.name}}FunctionMap<Implementation,{{o.f}}> {
 	typedef {{o|ctype}} type;
@@ -222,18 +222,18 @@ public:
 {% for o in store.objects %}
 {%   if o is blob %}
 {%     if o is variable %}
-		/*! \brief {{o}} */
+		/*! \brief {{o|ccomment}} */
 		impl::StoreVariantV<Base,Implementation,{{o|stype}},{{o.offset}}u,{{o.size}}u> {{o.cname}};
 {%     elif o is function %}
-		/*! \brief {{o}} */
+		/*! \brief {{o|ccomment}} */
 		impl::StoreVariantF<Base,Implementation,{{o|stype}},{{o.f}}u,{{o.size}}u> {{o.cname}};
 {%     endif %}
 {%   else %}
 {%     if o is variable %}
-		/*! \brief {{o}} */
+		/*! \brief {{o|ccomment}} */
 		impl::StoreVariable<Base,Implementation,{{o|ctype}},{{o.offset}}u,{{o.size}}> {{o.cname}};
 {%     elif o is function %}
-		/*! \brief {{o}} */
+		/*! \brief {{o|ccomment}} */
 		impl::StoreFunction<Base,Implementation,{{store.name}}FunctionMap,{{o.f}}u> {{o.cname}};
 {%     endif %}
 {%   endif %}
@@ -499,7 +499,7 @@ protected:
 		switch(f) {
 {%   for o in store.objects %}
 {%     if o is function %}
-		case {{o.f}}: // {{o}}
+		case {{o.f}}: // {{o|ccomment}}
 {%       if o is blob %}
 			return implementation().__{{o.cname}}(set,
 				static_cast<{{o|ctype}}*>(buffer), len);
@@ -529,7 +529,7 @@ public:
 {%   for o in store.objects %}
 {%     if o is function %}
 {%       if o is blob %}
-	/*! \brief Callback for {{o}} */
+	/*! \brief Callback for {{o|ccomment}} */
 	size_t __{{o.cname}}(bool set, {{o|ctype}}* value, size_t len)
 #	ifdef STORED_DEFAULT_FUNCTION_CALLBACK
 	{
@@ -542,7 +542,7 @@ public:
 	;
 #	endif
 {%       else %}
-	/*! \brief Callback for {{o}} */
+	/*! \brief Callback for {{o|ccomment}} */
 	void __{{o.cname}}(bool set, {{o|ctype}}& value)
 #	ifdef STORED_DEFAULT_FUNCTION_CALLBACK
 	{
@@ -789,7 +789,7 @@ protected:
 {% for o in store.objects|select('variable') %}
 
 	/*!
-	 * \brief Callback when {{o.name}} has changed.
+	 * \brief Callback when {{o.name|ccomment}} has changed.
 	 * \details Default implementation does nothing. Override in subclass.
 	 */
 	void __{{o.cname}}__changed() noexcept {}
@@ -856,7 +856,7 @@ protected:
 public:
 {% for a in store.arrays %}
 	/*!
-	 * \brief Array-lookup accessor for {{a.name}}
+	 * \brief Array-lookup accessor for {{a.name|ccomment}}
 	 */
 	Variant<Implementation> {{a.c_decl()}} noexcept
 	{
diff --git a/python/libstored/generator/__main__.py b/python/libstored/generator/__main__.py
index 5693252..590db5b 100644
--- a/python/libstored/generator/__main__.py
+++ b/python/libstored/generator/__main__.py
@@ -208,6 +208,11 @@ def escapebs(s):
 def rtfstring(s):
     return re.sub(r'([\\{}])', r'\\\1', s)
 
+def ccomment(s):
+    # Prevent ending the comment, or continuing it at the next line.
+    s = str(s).replace('*/', '* /')
+    return f'"{s}"' if s.endswith('\\') else s
+
 def csvstring(s):
     needEscape = False
     for c in ['\r','\n','"',',']:
@@ -350,6 +355,7 @@ def generate_store(model_file, output_dir, littleEndian=True):
     jenv.filters['len'] = len
     jenv.filters['hasfunction'] = has_function
     jenv.filters['rtfstring'] = rtfstring
+    jenv.filters['ccomment'] = ccomment
     jenv.filters['csvstring'] = csvstring
     jenv.filters['pystring'] = pystring
     jenv.filters['pyliteral'] = pyliteral
-- 
2.43.0


From a775c29f1c204ed4c0ea1d9d908df0dfbea41c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 064/100] fix: let free functions hold the ID of every function
 of the store

Function IDs start at 1, and continued counting when multiple stores were
generated in one run. So, with (together) 256 functions or more, the ID did
not fit in the type that is used for free functions.
---
 include/libstored/types.h               | 6 +++---
 python/libstored/generator/dsl/types.py | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 02543c0..c612ce4 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1118,8 +1118,8 @@ public:
 #  ifdef DOXYGEN
 	typedef unsigned int f_type;
 #  else
-	typedef typename value_type<static_cast<uintmax_t>(
-		Container::FunctionCount > 0 ? Container::FunctionCount - 1 : 0)>::type f_type;
+	// Function IDs start at 1; 0 is an invalid function.
+	typedef typename value_type<static_cast<uintmax_t>(Container::FunctionCount)>::type f_type;
 #  endif
 
 	/*! \brief Constructor for an invalid variable. */
@@ -1137,7 +1137,7 @@ protected:
 	{
 #  if STORED_cplusplus < 201103L || STORED_cplusplus >= 201402L
 		// For C++11, the body must be empty.
-		stored_assert(f < std::numeric_limits<f_type>::max());
+		stored_assert(f <= std::numeric_limits<f_type>::max());
 #  endif
 	}
 
diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index 72983be..374d659 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -518,6 +518,9 @@ class Store(object):
                 sys.exit(f'Empty scope name in "{o.name}"')
 
     def generateBuffer(self):
+        # Function IDs are unique within the store.
+        Function.f = 1
+
         initvars = []
         defaultvars = []
         for o in self.objects:
-- 
2.43.0


From daae091153e0f6c8ca34f5b21f3770a18bd4ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 065/100] fix: put the function ID in the proper column of the
 CSV documentation

The ID was put in the column of the initial value, and rows did not have the
same number of columns as the header.
---
 doc/store.csv.tmpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doc/store.csv.tmpl b/doc/store.csv.tmpl
index c0204bf..be6775d 100644
--- a/doc/store.csv.tmpl
+++ b/doc/store.csv.tmpl
@@ -8,10 +8,10 @@ Name,C,Type,Init,Offset / function,AXI,Size
 {% for o in store.objects -%}
 {{o.name|csvstring}},{{o.cname}},
 {%-    if o is function -%}
-({{o.type}}{% if o is blob %}:{{o.size}}{% endif %}),{{o.f}},,
+({{o.type}}{% if o is blob %}:{{o.size}}{% endif %}),,{{o.f}},,{{o.size}}
 {%    else -%}
 {{o.type}}{% if o is blob %}:{{o.size}}{% endif %},
 {%- if o.init == None %}0{% else %}{{o.init}}{% endif %},{{o.offset}},
-{%- if o.axi != None %}{{o.axi}}{% endif %},{{o.size}},
+{%- if o.axi != None %}{{o.axi}}{% endif %},{{o.size}}
 {%   endif -%}
 {%- endfor -%}
-- 
2.43.0


From bbba0f260559f6b10899250ecc654491751044d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 066/100] fix: escape initial values in the CSV documentation

Initial values of strings may contain commas, quotes and newlines.
---
 doc/store.csv.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc/store.csv.tmpl b/doc/store.csv.tmpl
index be6775d..f16d6f5 100644
--- a/doc/store.csv.tmpl
+++ b/doc/store.csv.tmpl
@@ -11,7 +11,7 @@ Name,C,Type,Init,Offset / function,AXI,Size
 ({{o.type}}{% if o is blob %}:{{o.size}}{% endif %}),,{{o.f}},,{{o.size}}
 {%    else -%}
 {{o.type}}{% if o is blob %}:{{o.size}}{% endif %},
-{%- if o.init == None %}0{% else %}{{o.init}}{% endif %},{{o.offset}},
+{%- if o.init == None %}0{% else %}{{o.init|string|csvstring}}{% endif %},{{o.offset}},
 {%- if o.axi != None %}{{o.axi}}{% endif %},{{o.size}}
 {%   endif -%}
 {%- endfor -%}
-- 
2.43.0


From db62795b25f5dff15a6d927d8476be582607d55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 067/100] fix: proper memory ordering between the producer and
 consumer of a thread-safe FIFO

The indices were accessed relaxed by the other side, which allows reading elements
before they were written, and overwriting elements that are still being read.
---
 include/libstored/fifo.h | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 4a98c36..339460b 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -473,6 +473,13 @@ class Fifo {
 
 	typedef Buffer<T, Capacity == 0 ? 0 : Capacity + 1> Buffer_type;
 
+	// Memory order to get to know what the other side did...
+	static constexpr std::memory_order memory_order_load =
+		ThreadSafe ? std::memory_order_acquire : std::memory_order_relaxed;
+	// ...and to let the other side know.
+	static constexpr std::memory_order memory_order_store =
+		ThreadSafe ? std::memory_order_release : std::memory_order_relaxed;
+
 public:
 	typedef T type;
 	typedef typename Buffer_type::pointer pointer;
@@ -494,7 +501,7 @@ public:
 
 	bool empty() const noexcept
 	{
-		return m_wp.load(std::memory_order_relaxed) == m_rp.load(std::memory_order_relaxed);
+		return m_wp.load(memory_order_load) == m_rp.load(memory_order_load);
 	}
 
 	bool full() const noexcept
@@ -504,15 +511,15 @@ public:
 
 	size_t available() const noexcept
 	{
-		pointer wp = m_wp.load(std::memory_order_relaxed);
-		pointer rp = m_rp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(memory_order_load);
+		pointer rp = m_rp.load(memory_order_load);
 		return wp >= rp ? wp - rp : wp + m_buffer.size() - rp;
 	}
 
 	size_t available_chunk() const noexcept
 	{
-		pointer wp = m_wp.load(std::memory_order_relaxed);
-		pointer rp = m_rp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(memory_order_load);
+		pointer rp = m_rp.load(memory_order_load);
 		return wp >= rp ? wp - rp : m_buffer.size() - rp;
 	}
 
@@ -582,7 +589,7 @@ public:
 			m_wp.store(0, std::memory_order_relaxed);
 			m_rp.store(0, std::memory_order_relaxed);
 		} else {
-			m_rp.store(rp, std::memory_order_relaxed);
+			m_rp.store(rp, memory_order_store);
 		}
 	}
 
@@ -683,7 +690,7 @@ public:
 			m_wp.store(0, std::memory_order_relaxed);
 			m_rp.store(0, std::memory_order_relaxed);
 		} else {
-			m_rp.store(m_wp.load(std::memory_order_relaxed), std::memory_order_relaxed);
+			m_rp.store(m_wp.load(memory_order_load), memory_order_store);
 		}
 	}
 
@@ -693,7 +700,7 @@ public:
 	{
 		pointer rp = m_rp.load(
 			ThreadSafe ? std::memory_order_consume : std::memory_order_relaxed);
-		pointer wp = m_wp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(memory_order_load);
 		return View{m_buffer, rp, wp};
 	}
 
@@ -926,7 +933,8 @@ public:
 		if(msg.second)
 			m_rp.store(
 				(buffer_pointer)(msg.first + msg.second),
-				std::memory_order_relaxed);
+				ThreadSafe ? std::memory_order_release
+					   : std::memory_order_relaxed);
 		m_msg.pop_front();
 	}
 
@@ -990,7 +998,8 @@ public:
 		if(!message.size())
 			return true;
 
-		buffer_pointer rp = m_rp.load(std::memory_order_relaxed);
+		buffer_pointer rp = m_rp.load(
+			ThreadSafe ? std::memory_order_acquire : std::memory_order_relaxed);
 		buffer_pointer wp = m_wp.load(std::memory_order_relaxed);
 		buffer_pointer wp_partial = m_wp_partial;
 		stored_assert(wp_partial >= wp);
-- 
2.43.0


From 4232d37750ab97efbd1af15d69dd196b42842863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 068/100] fix: let the deprecated Poller interface modify and
 remove ZeroMQ sockets

---
 include/libstored/poller.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index 7a5c528..8e9cec4 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1169,8 +1169,7 @@ public:
 	struct compare_socket {
 		bool operator()(PollableZmqSocket const& p, void* socket) const
 		{
-			// NOLINTNEXTLINE(bugprone-multi-level-implicit-pointer-conversion)
-			return p.socket == (void*)&socket;
+			return p.socket == socket;
 		}
 	};
 
-- 
2.43.0


From b305ca2f9de230f9837feb210fce00971a32c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 069/100] fix: drop the replaced pollable in the deprecated
 Poller::modify()

Otherwise, a next modify() or remove() finds the stale one, and the modified one
cannot be removed anymore.
---
 include/libstored/poller.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index 8e9cec4..c8c0df9 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1251,7 +1251,11 @@ private:
 		T* p = static_cast<T*>(*it);
 		stored_assert(p);
 		void* user_data = p->user_data;
-		remove(*p);
+
+		int res = remove<T, A, C>(a, c);
+		if(res)
+			return res;
+
 		return add<T, A>(a, user_data, events);
 	}
 
-- 
2.43.0


From 67e4c833745d4425eedd38014b2677904beef749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 070/100] fix: let a poll clear the revents of items that have
 no event anymore

---
 src/poller.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/poller.cpp b/src/poller.cpp
index 46aee9e..24a989e 100644
--- a/src/poller.cpp
+++ b/src/poller.cpp
@@ -375,13 +375,11 @@ int ZmqPoller::doPoll(int timeout_ms, PollItemList& items) noexcept
 		// Error.
 		return errno;
 
-	for(size_t i = 0; res > 0 && i < items.size(); i++) {
+	for(size_t i = 0; i < items.size(); i++) {
 		zmq_pollitem_t& item = items[i];
 		Pollable::Events revents = 0;
 
 		if(item.revents) {
-			res--;
-
 			try {
 				if(item.revents & ZMQ_POLLIN) // NOLINT(hicpp-signed-bitwise)
 					revents.set(Pollable::PollInIndex);
@@ -448,13 +446,11 @@ int PollPoller::doPoll(int timeout_ms, PollItemList& items) noexcept
 		// Error.
 		return errno;
 
-	for(size_t i = 0; res > 0 && i < items.size(); i++) {
+	for(size_t i = 0; i < items.size(); i++) {
 		struct pollfd& item = items[i];
 		Pollable::Events revents = 0;
 
 		if(item.revents) {
-			res--;
-
 			try {
 				if(item.revents & POLLIN) // NOLINT(hicpp-signed-bitwise)
 					revents.set(Pollable::PollInIndex);
@@ -548,6 +544,7 @@ int LoopPoller::doPoll(int timeout_ms, PollItemList& items) noexcept
 				event(revents, i);
 				break;
 			case EAGAIN:
+				event(0, i);
 				break;
 			default:
 				if(!res)
-- 
2.43.0


From d742a2cf2b64a56594c56e902de975b87f56f54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 071/100] fix: retry interrupted reads and writes of a
 FileLayer, instead of closing it

---
 src/protocol.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index d321021..451579f 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -2059,6 +2059,9 @@ done:
 				// We should be able to write more now. Retry.
 				continue;
 			}
+			case EINTR:
+				// Interrupted before anything was written. Retry.
+				continue;
 			default:
 				goto error;
 			}
@@ -2131,6 +2134,9 @@ again:
 			if(block(fd_r(), true, timeout_us))
 				return lastError();
 
+			goto again;
+		case EINTR:
+			// Interrupted before anything was read. Retry.
 			goto again;
 		default:
 			close();
-- 
2.43.0


From 730656d2a18e7d0717997a3b30e7de58faf3a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 072/100] fix: let FileLayer report the error of the failing
 call, instead of the one of closing the file

---
 src/protocol.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 451579f..cfb9af4 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -2079,11 +2079,13 @@ done:
 	setLastError(0);
 	goto done;
 
-error:
-	close();
-	setLastError(errno ? errno : EIO);
+error: {
+	int e = errno;
+	close(); // May change errno.
+	setLastError(e ? e : EIO);
 	goto done;
 }
+}
 
 /*!
  * \brief Returns the file descriptor to be used by a #stored::Poller in order to call #recv().
@@ -2138,9 +2140,11 @@ again:
 		case EINTR:
 			// Interrupted before anything was read. Retry.
 			goto again;
-		default:
-			close();
-			return setLastError(errno);
+		default: {
+			int e = errno;
+			close(); // May change errno.
+			return setLastError(e ? e : EIO);
+		}
 		}
 	} else if(cnt == 0) {
 		// EOF
-- 
2.43.0


From cc618d907bbd95947ef7d2e0aa11cc48e3289f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 073/100] fix: block indefinitely when requested, instead of
 closing the file with EINVAL

The timeout of -1 us was rounded to 0 ms, such that writing to a full pipe and recv(-1)
without data failed.
---
 src/protocol.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index cfb9af4..11ae40b 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1801,7 +1801,10 @@ int PolledFileLayer::block(
 	}
 
 	while(true) {
-		Poller::Result const& pres = poller.poll((int)(timeout_us / 1000L));
+		// Round up, to wait at least for the given time.
+		Poller::Result const& pres = poller.poll(
+			timeout_us < 0 ? -1
+				       : (int)(timeout_us / 1000L + (timeout_us % 1000L > 0)));
 
 		if(pres.empty()) {
 			if(timeout_us <= 0 && errno == EINTR)
-- 
2.43.0


From 7de5d52196ae319d0283cc5331e00b95e789d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 074/100] fix: do not leave an outbound NamedPipeLayer half
 open when opening it fails

---
 src/protocol.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 11ae40b..5d7f83d 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -3124,9 +3124,12 @@ void NamedPipeLayer::reopen()
 		open(name().c_str(), O_WRONLY | O_NONBLOCK | O_APPEND); // May exit with ENXIO when
 									// no read is open yet.
 
-	if(fd_w == -1) {
+	if(fd_r == -1 || fd_w == -1) {
 		int e = errno;
-		::close(fd_r);
+		if(fd_r != -1)
+			::close(fd_r);
+		if(fd_w != -1)
+			::close(fd_w);
 		setLastError(e ? e : EBADF);
 		return;
 	}
-- 
2.43.0


From 17b14d4c8ca00ebf27c53dff20f7d4eb68682453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 075/100] fix: report the error when SerialLayer's auto baud
 closes the port

---
 src/protocol.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 5d7f83d..b08af33 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -3801,7 +3801,9 @@ SerialLayer::SerialLayer(
 	}
 
 	resetAutoBaud();
-	setLastError(0);
+	// Ignore auto baud errors, unless it is closed because of that.
+	if(isOpen())
+		setLastError(0);
 }
 
 int SerialLayer::resetAutoBaud()
-- 
2.43.0


From 30374054e7550f07ec6e1ec287ba5de1e795e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 076/100] fix: do not leave an inbound NamedPipeLayer half open
 when opening it fails

---
 src/protocol.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index b08af33..df01bb4 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -3047,7 +3047,19 @@ NamedPipeLayer::NamedPipeLayer(
 
 	if(openMode == Inbound) {
 		int fd_r = open(name, O_RDONLY | O_NONBLOCK);
+		if(fd_r == -1) {
+			setLastError(errno ? errno : EBADF);
+			return;
+		}
+
 		int fd_w = open("/dev/null", O_WRONLY);
+		if(fd_w == -1) {
+			int e = errno;
+			::close(fd_r);
+			setLastError(e ? e : EBADF);
+			return;
+		}
+
 		init(fd_r, fd_w);
 	} else {
 #    ifdef STORED_OS_OSX
-- 
2.43.0


From 64abaceb436b9abf7b5d9a9621eb1e67bd428ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:26 +0000
Subject: [PATCH 077/100] fix: PinIn without an input object computes the pin
 state

---
 include/libstored/components.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index e5d6e0c..d85055b 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -1807,7 +1807,7 @@ public:
 	 * \brief Return the last computed \c input value, or compute the pin state when the object
 	 *	is not available.
 	 */
-	template <char I = 'i', std::enable_if_t<Bound::template has<I>(), int> = 0>
+	template <char I = 'i', std::enable_if_t<Bound::template valid<I>(), int> = 0>
 	bool input() const noexcept
 	{
 		return inputObject().get();
@@ -1817,7 +1817,7 @@ public:
 	 * \brief Return the last computed \c input value, or compute the pin state when the object
 	 *	is not available.
 	 */
-	template <char I = 'i', std::enable_if_t<!Bound::template has<I>(), int> = 0>
+	template <char I = 'i', std::enable_if_t<!Bound::template valid<I>(), int> = 0>
 	bool input() noexcept
 	{
 		return (*this)();
-- 
2.43.0


From 45ecfa92ef30807c17fc8dc24e8eb2a8bc9e991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:26 +0000
Subject: [PATCH 078/100] fix: Amplifier of a type without NaN is not always
 overridden

---
 include/libstored/components.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index d85055b..8fb0541 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -1635,12 +1635,16 @@ protected:
 	{
 		type output = override_();
 
-		if(!std::isnan(output)) {
+		// Without an override object, types without NaN can't tell it by the value.
+		decltype(auto) fo = overrideObject();
+		bool overridden = fo.valid() && !std::isnan(output);
+
+		if(overridden) {
 			// Keep override value.
 		} else {
 			if(!enabled())
 				output = input;
-			else if(std::isnan(output))
+			else
 				output = input * gain() + offset();
 
 			output = std::min(std::max(low(), output), high());
-- 
2.43.0


From d42a4cded3b800485020ebad6d273fa0a0e404c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:26 +0000
Subject: [PATCH 079/100] fix: PID computes its coefficients in the first run

---
 include/libstored/components.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 8fb0541..7d8dc17 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -2644,10 +2644,11 @@ protected:
 					doReset = true;
 					reset_o = false;
 				}
-			} else if(unlikely(std::isnan(m_y_prev))) {
-				doReset = true;
 			}
 
+			if(unlikely(std::isnan(m_y_prev)))
+				doReset = true;
+
 			type sp = setpoint();
 			type e = sp - y;
 
-- 
2.43.0


From cb38e2f4bc9f4154b9fd2dca8451203e373347d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:26 +0000
Subject: [PATCH 080/100] fix: PID with a negative Ki can be healthy

---
 include/libstored/components.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 7d8dc17..009213f 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -2619,6 +2619,7 @@ public:
 
 		auto e = epsilon();
 		auto i = std::fabs(int_());
+		k = std::fabs(k);
 
 		// If the result is true, the integrator is not too
 		// large, such that smallest error can still reduce it.
-- 
2.43.0


From 34cc117f103bb52f0446e6b624eab35efe7212e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 081/100] fix: PulseWave handles negative phases and a phase
 beyond the period

---
 include/libstored/components.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 009213f..eef2be9 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -3337,11 +3337,11 @@ public:
 				type t = m_t;
 				decltype(auto) po = phaseObject();
 				if(po.valid())
-					t = std::fmod(
-						t
-							+ phase() * ((type)1 / ((type)2 * pi<type>))
-								  * period,
-						period);
+					t += phase() * ((type)1 / ((type)2 * pi<type>)) * period;
+
+				t = std::fmod(t, period);
+				if(t < 0)
+					t += period;
 
 				if(t < pulse)
 					output = amplitude();
-- 
2.43.0


From b859f52c3374f9ff3aad130adf8c97acb046d945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 082/100] fix: HighPass starts without doubling the first input

---
 include/libstored/components.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index eef2be9..7d69ec0 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -3709,7 +3709,7 @@ protected:
 
 				if(unlikely(std::isnan(m_alpha))) {
 					doReset = true;
-					m_prev_output = input;
+					m_prev_output = m_prev_input = input;
 				}
 
 				if(unlikely(doReset)) {
-- 
2.43.0


From 4b29e5c64a8affcfce11107adc376dc207026cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 083/100] fix: Ramp limits the acceleration when there is no
 speed limit

---
 include/libstored/components.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 7d69ec0..a3a51c0 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4106,7 +4106,13 @@ protected:
 				if(a == std::numeric_limits<type>::infinity()) {
 					// No speed and acceleration limit. Disable ramping.
 					a = 0;
-				} else if(a > 0) {
+				}
+
+				// Prevent overflow of the steps and the distance to stop.
+				sl = std::min(
+					sl, a * (type)((type_)1 << (sizeof(type_) * 4U - 2U)));
+
+				if(a > 0) {
 					auto v_steps = std::lround(sl / a);
 					a = sl / (type)v_steps;
 				}
-- 
2.43.0


From 1ac1718942bbd449d4ff611b9153609d151db9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 084/100] fix: Ramp does not exceed the acceleration limit by
 rounding

---
 include/libstored/components.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index a3a51c0..c7298eb 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4113,7 +4113,8 @@ protected:
 					sl, a * (type)((type_)1 << (sizeof(type_) * 4U - 2U)));
 
 				if(a > 0) {
-					auto v_steps = std::lround(sl / a);
+					// Round up, but do not add a step because of precision.
+					auto v_steps = std::lround(std::ceil(sl / a - (type)1e-3));
 					a = sl / (type)v_steps;
 				}
 
-- 
2.43.0


From 3b6efb6c4f07c2ac7a657fb332f061d7670acb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 085/100] fix: Ramp keeps its speed when the limits change

---
 include/libstored/components.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index c7298eb..5126bf2 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4119,7 +4119,7 @@ protected:
 				}
 
 				m_adt = a * dt;
-				m_v_ = a > 0 ? (type_)std::lround(v / a) : 0;
+				m_v_ = m_adt > 0 ? (type_)std::lround(v / m_adt) : 0;
 				m_v_max_ =
 					a > 0 ? std::max<type_>(1, (type_)std::lround(sl / a)) : 0;
 				m_x_ = 0;
-- 
2.43.0


From af5c9ee2eafe38ae5f2d8d7eb2d7d450336401b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 086/100] fix: Ramp slows down to a decreased speed limit

---
 include/libstored/components.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 5126bf2..f0396ca 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4152,6 +4152,9 @@ protected:
 							x_stop_ += v_++;
 						else
 							x_stop_ -= ++v_;
+					} else if(v_ > m_v_max_) {
+						// Slow down to speed limit.
+						x_stop_ -= --v_;
 					}
 
 					if(m_v_ > 0 && err < (type)(x_stop_ + v_ + 1) * m_adt) {
@@ -4174,6 +4177,9 @@ protected:
 							x_stop_ += v_--;
 						else
 							x_stop_ -= --v_;
+					} else if(v_ < -m_v_max_) {
+						// Slow down to speed limit.
+						x_stop_ -= ++v_;
 					}
 
 					if(m_v_ < 0 && err > (type)(x_stop_ + v_ - 1) * m_adt) {
-- 
2.43.0


From 82deb0f24194f3f38a0a0cf995d83d66522b74ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 087/100] fix: ZmqLayer reports the result of the second
 attempt to send properly

---
 src/zmq.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zmq.cpp b/src/zmq.cpp
index 1de8a22..67ed233 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -296,7 +296,7 @@ void ZmqLayer::encode(void const* buffer, size_t len, bool last)
 		// Socket should be writable now. This is a blocking call,
 		// but it should not block anymore.
 		// NOLINTNEXTLINE(cppcoreguidelines-pro-type-cstyle-cast)
-		if(zmq_send(m_socket, (void*)buffer, len, last ? 0 : ZMQ_SNDMORE) != -1)
+		if(zmq_send(m_socket, (void*)buffer, len, last ? 0 : ZMQ_SNDMORE) == -1)
 			// Some error.
 			setLastError(errno);
 		else
-- 
2.43.0


From af4f5cc7cf7bae99152114e36277da224e89e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 088/100] fix: ZmqLayer::recv() blocks indefinitely for -1

---
 src/zmq.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zmq.cpp b/src/zmq.cpp
index 67ed233..ece69b5 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -134,7 +134,8 @@ int ZmqLayer::block(bool forReading, long timeout_us, bool suspend)
 	}
 
 	while(true) {
-		Poller::Result const& pres = poller.poll((int)(timeout_us / 1000L));
+		Poller::Result const& pres =
+			poller.poll(timeout_us < 0 ? -1 : (int)(timeout_us / 1000L));
 
 		if(pres.empty()) {
 			err = errno;
@@ -290,8 +291,8 @@ void ZmqLayer::encode(void const* buffer, size_t len, bool last)
 		setLastError(0);
 	} else if(setLastError(errno) != EAGAIN) { // NOLINT(bugprone-branch-clone)
 						   // Some other error occurred.
-	} else if(block(false)) {
-		// Socket is not writable, and blocking failed.
+	} else if(block(false, 0)) {
+		// Socket is not writable. Do not wait, as there may not be a peer at all.
 	} else {
 		// Socket should be writable now. This is a blocking call,
 		// but it should not block anymore.
-- 
2.43.0


From 9af8bfd39fa6855d009f8278863d35553ada7905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 089/100] fix: ZmqLayer does not send the rest of a message
 when the first part could not be sent

---
 include/libstored/zmq.h |  2 ++
 src/zmq.cpp             | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/libstored/zmq.h b/include/libstored/zmq.h
index e4c3a7d..e55b1ce 100644
--- a/include/libstored/zmq.h
+++ b/include/libstored/zmq.h
@@ -64,6 +64,8 @@ private:
 	size_t m_bufferSize;
 	/*! \brief The REP socket. */
 	void* m_socket;
+	/*! \brief Flag to indicate that the rest of the message being encoded is to be dropped. */
+	bool m_encodeDrop;
 };
 
 /*!
diff --git a/src/zmq.cpp b/src/zmq.cpp
index ece69b5..3de1789 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -42,6 +42,7 @@ ZmqLayer::ZmqLayer(void* context, int type, ProtocolLayer* up, ProtocolLayer* do
 	, m_bufferCapacity()
 	, m_bufferSize()
 	, m_socket(zmq_socket(this->context(), type))
+	, m_encodeDrop()
 {
 	if(!m_socket)
 		setLastError(errno);
@@ -283,6 +284,16 @@ int ZmqLayer::recv(long timeout_us)
  */
 void ZmqLayer::encode(void const* buffer, size_t len, bool last)
 {
+	if(unlikely(m_encodeDrop)) {
+		// A previous part of this message is lost. Do not send a truncated one.
+		if(last)
+			m_encodeDrop = false;
+
+		setLastError(EAGAIN);
+		base::encode(buffer, len, last);
+		return;
+	}
+
 	// First try, assume we are writable.
 	// NOLINTNEXTLINE(hicpp-signed-bitwise,cppcoreguidelines-pro-type-cstyle-cast)
 	if(likely(zmq_send(m_socket, (void*)buffer, len, ZMQ_DONTWAIT | (last ? 0 : ZMQ_SNDMORE))
@@ -305,6 +316,9 @@ void ZmqLayer::encode(void const* buffer, size_t len, bool last)
 			setLastError(0);
 	}
 
+	if(unlikely(lastError() == EAGAIN && !last))
+		m_encodeDrop = true;
+
 	base::encode(buffer, len, last);
 }
 
-- 
2.43.0


From 285d6bfec2d40757ceb418bec5733e629b14945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 090/100] fix: ZmqClient returns the proper object for every
 attribute, also with multiple clients

---
 python/libstored/zmq_client.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index 7c44f99..ec7f1d3 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -1112,6 +1112,7 @@ class ZmqClient(QObject):
         self._availableMacros = None
         self._usedMacros = []
         self._objects = None
+        self._pynames = {}
         self._fastPollMacro = None
         self._fastPollTimer = None
         if csv is None:
@@ -1493,11 +1494,18 @@ class ZmqClient(QObject):
             if not obj is None:
                 res.append(obj)
                 pyname = self.pyname(obj.name)
-                wobj = weakref.ref(obj)
-                setattr(ZmqClient, pyname, _Property(Object, lambda s, wobj=wobj: obj, constant=True))
+                self._pynames[pyname] = weakref.ref(obj)
 
         self._objects = res
 
+    # Make all objects available as attribute by their pyname().
+    def __getattr__(self, name):
+        wobj = self.__dict__.get('_pynames', {}).get(name)
+        obj = None if wobj is None else wobj()
+        if obj is None:
+            raise AttributeError(f"'{type(self).__name__}' object has no attribute '{name}'")
+        return obj
+
     def find(self, name, all=False):
         chunks = name.split('/')
         obj1 = set()
-- 
2.43.0


From a6bd00c7f19b4fd3de33fc86ba9d458046f52f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 091/100] fix: accept the hex format of a negative int64 in the
 Python client

---
 python/libstored/zmq_client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index ec7f1d3..28ccb8d 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -410,6 +410,8 @@ class Object(QObject):
             elif not self.isInt():
                 return None
             elif self.isSigned():
+                if value >= 1 << 63:
+                    value -= 1 << 64
                 return self._encodeHex(struct.pack('>q', value)[-self._size:], True)
             else:
                 if value < 0:
-- 
2.43.0


From ab7bd55a97ef17815fae27d63351776db9911950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 092/100] fix: ZmqClient.readMem() passes the size in hex, as
 the debugger expects

---
 python/libstored/zmq_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index 28ccb8d..fc9d2c7 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -1622,7 +1622,7 @@ class ZmqClient(QObject):
         return self.req(b'v').decode()
 
     def readMem(self, pointer, size):
-        rep = self.req(('R%x %d' % (pointer, size)).encode()).decode()
+        rep = self.req(('R%x %x' % (pointer, size)).encode()).decode()
 
         if rep == '?':
             return None
-- 
2.43.0


From 34f5ed7a54e8cbfb09738b77da441141299191fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 093/100] fix: drop samples of the previous layout when the
 objects to be traced change

---
 python/libstored/zmq_client.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index fc9d2c7..9e565a5 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -833,6 +833,13 @@ class Stream(object):
             self.client.reqAsync(b's' + self.name.encode(), lambda x: None)
             self._reset()
 
+    # Drop all data that is in the stream now.
+    def drop(self):
+        if self._compressed:
+            self.reset()
+        else:
+            self.client.reqAsync(b's' + self.name.encode(), lambda x: None)
+
     def _reset(self):
         if self._compressed:
             self._decoder = HeatshrinkDecoder()
@@ -996,7 +1003,8 @@ class Tracing(Macro):
     def _update(self):
         super()._update()
         # Remove existing samples from buffer, as the layout is changing.
-        self._stream.reset()
+        self._stream.drop()
+        self._partial = b''
         self._updateTracing()
 
     def _updateTracing(self, force=False):
-- 
2.43.0


From aa22c4d0571595411ee5b0f179802e47f27a7aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:31 +0000
Subject: [PATCH 094/100] fix: Object.write() leaves the written value, even
 when async requests were pending

---
 python/libstored/zmq_client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index 9e565a5..eee2fc8 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -343,7 +343,12 @@ class Object(QObject):
     def write(self, value = None):
         if not value is None:
             self.set(value)
-        return self._write(value)
+        res = self._write(value)
+        if res and not value is None:
+            # Pending async requests may have overwritten our value,
+            # before the write was sent.  Set it here again.
+            self.set(value)
+        return res
 
     @Slot(object)
     def asyncWrite(self, value = None):
-- 
2.43.0


From 1f271e95a3a34875d0929752fb0573cdccdda1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:31 +0000
Subject: [PATCH 095/100] fix: Object.write() without a value writes the value
 that was set before

---
 python/libstored/zmq_client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index eee2fc8..6c9a96c 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -367,6 +367,10 @@ class Object(QObject):
         if self._client is None:
             return False
 
+        if value is None:
+            # Write what was set() before.
+            value = self._value
+
         dtype = self.type & ~self.FlagFunction
 
         data = self._encode(value)
@@ -398,6 +402,8 @@ class Object(QObject):
         try:
             if dtype == self.Void:
                 return b''
+            elif value is None:
+                return None
             elif dtype == self.Blob:
                 return self._encodeHex(value)
             elif dtype == self.String:
-- 
2.43.0


From d8861e391ca0299ec7830eb768c2421b8b7cfb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 096/100] fix: CSV export writes samples only below the header
 they belong to

---
 python/libstored/csv.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/python/libstored/csv.py b/python/libstored/csv.py
index 03bda4d..4d918a8 100644
--- a/python/libstored/csv.py
+++ b/python/libstored/csv.py
@@ -120,7 +120,7 @@ class CsvExport(QObject):
         self._autoFlushed = time.time()
         self._thread = None
         self._queue = None
-        self._dropNext = False
+        self._generation = 0
         self._lock = threading.RLock()
         self._paused = False
         self._postponedAutoRestart = False
@@ -140,17 +140,6 @@ class CsvExport(QObject):
     def __del__(self):
         self.close()
 
-    def _clear(self):
-        if self._queue is None:
-            return
-
-        try:
-            self._queue.get(False)
-        except queue.Empty:
-            pass
-
-        self._dropNext = True
-
     def add(self, o):
         if o in self._objects:
             return
@@ -185,7 +174,8 @@ class CsvExport(QObject):
 
             objList = sorted(self._objects, key=lambda x: x.name)
             self._objValues = [lambda x=x: x._value for x in objList]
-            self._clear()
+            # Let the worker drop all samples of before this moment.
+            self._generation += 1
 
             if not self._filename is None:
                 f = open(self._filename, 'w', newline='')
@@ -234,16 +224,16 @@ class CsvExport(QObject):
         if t is None:
             t = now
 
-        data = [t]
-        data.extend(map(lambda x: x(), self._objValues))
-
         if self._postponedAutoRestart:
             self.restart()
 
+        data = [t]
+        data.extend(map(lambda x: x(), self._objValues))
+
         if self._queue is None:
             self._write(data)
         else:
-            self._queue.put(data)
+            self._queue.put((self._generation, data))
 
     def close(self):
         if not self._queue is None:
@@ -279,10 +269,9 @@ class CsvExport(QObject):
                 return
             self._lock.acquire()
             try:
-                if self._dropNext:
-                    self._dropNext = False
-                else:
-                    self._write(d)
+                generation, data = d
+                if generation == self._generation:
+                    self._write(data)
             finally:
                 self._lock.release()
 
-- 
2.43.0


From 44abc98e00be33524d3ff8c32b213f32ed350e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 097/100] fix: a macro that the target does not accept, is not
 added

---
 python/libstored/zmq_client.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index 6c9a96c..38c0cfa 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -894,7 +894,11 @@ class Macro(object):
         if isinstance(cmd, str):
             cmd = cmd.encode()
         self._cmds[key] = (cmd, cb)
-        self._update()
+
+        if not self._update():
+            # The target does not accept the macro. Rollback.
+            self.remove(key)
+            return False
 
         # Check if it still works...
         if cb is None:
@@ -919,7 +923,7 @@ class Macro(object):
 
     def _update(self):
         if self._macro is None:
-            return
+            return True
 
         cmds = []
         for c in self._cmds.values():
@@ -927,7 +931,7 @@ class Macro(object):
                 cmds.append(b'e' + self._repsep)
             cmds.append(c[0])
 
-        self._client.assignMacro(self._macro, cmds, self._reqsep)
+        return self._client.assignMacro(self._macro, cmds, self._reqsep)
 
     def run(self, asyncDecode=False):
         if not self._macro is None:
@@ -990,17 +994,18 @@ class Tracing(Macro):
         self._stream = self._client.stream(stream, raw=True)
 
         # Start with sample separator.
-        self.add('e\n', None, 'e')
+        added = self.add('e\n', None, 'e')
 
         # We must have a macro, not a simulated Macro instance.
-        if self.macro is None:
+        if self.macro is None or not added:
             raise ValueError('Cannot get macro for tracing')
 
         t = self.client.time()
         if t is None:
             raise ValueError('Cannot determine time stamp variable')
 
-        self.add(f'r{t.shortName()}', None, 't')
+        if not self.add(f'r{t.shortName()}', None, 't'):
+            raise ValueError('Cannot get macro for tracing')
         self._enabled = False
         self._updateTracing(True);
 
@@ -1012,11 +1017,12 @@ class Tracing(Macro):
             pass
 
     def _update(self):
-        super()._update()
+        res = super()._update()
         # Remove existing samples from buffer, as the layout is changing.
         self._stream.drop()
         self._partial = b''
         self._updateTracing()
+        return res
 
     def _updateTracing(self, force=False):
         if self._enabled is None:
-- 
2.43.0


From a8ed22ea3f9669ffd69dcc3bb0256a9aafe4797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 098/100] fix: Tracing.decimate can be set, so
 ZmqClient.traceDecimate() works

---
 python/libstored/zmq_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index 38c0cfa..ca2a516 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -1047,7 +1047,7 @@ class Tracing(Macro):
         return self._decimate
 
     @decimate.setter
-    def _decimate_set(self, decimate):
+    def decimate(self, decimate):
         if not isinstance(decimate, int):
             return
 
-- 
2.43.0


From 815d399ac3219153e9b91848d07559a2a60b139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:15 +0000
Subject: [PATCH 099/100] fix: polling a stream that does not exist (yet) does
 not give ? as its data

---
 python/libstored/zmq_client.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index ca2a516..406eef6 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -778,6 +778,8 @@ class Object(QObject):
             return ''
 
 class Stream(object):
+    _terminator = b'\n'
+
     def __init__(self, client, name, raw=False):
         self._client = client
         self._raw = raw
@@ -810,13 +812,19 @@ class Stream(object):
         return self._raw
 
     def poll(self, suffix='', callback=None):
-        req = b's' + (self.name + suffix).encode()
+        # The error response, when the stream does not exist (yet), does not have the terminator.
+        req = b's' + (self.name + suffix).encode() + self._terminator
         if callback is None:
             return self._decode(self.client.req(req))
         else:
             return self.client.reqAsync(req, lambda x: callback(self._decode(x)))
 
     def _decode(self, x):
+        if x.endswith(self._terminator):
+            x = x[:-len(self._terminator)]
+        else:
+            x = b''
+
         if not self._decoder is None:
             x = self._decoder.fill(x)
             if self._finishing:
-- 
2.43.0


From db92865c290d04576af26583e037a0c2506946d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:27 +0000
Subject: [PATCH 100/100] fix: ids of a Synchronizer are not reused by a next
 connection for another store

---
 include/libstored/synchronizer.h | 20 +++++++++++++++++---
 src/synchronizer.cpp             |  3 +--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/libstored/synchronizer.h b/include/libstored/synchronizer.h
index 697056d..1e0dece 100644
--- a/include/libstored/synchronizer.h
+++ b/include/libstored/synchronizer.h
@@ -605,8 +605,6 @@ private:
 	// Id determined by this class (set in Hello message)
 	typedef Map<Id, StoreJournal*>::type IdInMap;
 	IdInMap m_idIn;
-
-	Id m_idInNext;
 };
 
 /*!
@@ -621,7 +619,10 @@ public:
 	/*!
 	 * \brief Ctor.
 	 */
-	Synchronizer() is_default
+	Synchronizer()
+		: m_nextId()
+	{}
+
 	~Synchronizer();
 
 	/*!
@@ -717,6 +718,17 @@ public:
 		return m_encodeBuffer.data();
 	}
 
+	/*!
+	 * \brief Return a new id for a store.
+	 *
+	 * As successive connections get different ids, messages for a previous
+	 * connection are not mistaken for the ones of another store.
+	 */
+	SyncConnection::Id nextId()
+	{
+		return ++m_nextId;
+	}
+
 protected:
 	SyncConnection* toConnection(ProtocolLayer& connection) const;
 
@@ -739,6 +751,8 @@ private:
 
 	typedef Vector<uint8_t>::type EncodeBuffer;
 	EncodeBuffer m_encodeBuffer;
+
+	SyncConnection::Id m_nextId;
 };
 
 } // namespace stored
diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index df321f7..c0d5855 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -835,7 +835,6 @@ StoreJournal::StoreCallback::~StoreCallback() is_default
  */
 SyncConnection::SyncConnection(Synchronizer& synchronizer, ProtocolLayer& connection)
 	: m_synchronizer(&synchronizer)
-	, m_idInNext(1)
 {
 	connection.wrap(*this);
 }
@@ -946,7 +945,7 @@ SyncConnection::Id SyncConnection::nextId()
 	stored_assert(m_idIn.size() < std::numeric_limits<Id>::max() / 2U);
 
 	while(true) {
-		Id id = m_idInNext++;
+		Id id = synchronizer().nextId();
 
 		if(id == 0)
 			continue;
-- 
2.43.0

