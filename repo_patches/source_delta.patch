From 906acc324a8e38ff1a1d6634150d286069796eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 01/54] fix: ChunkListWriteFd reports errors, never overruns
 and keeps order

A would-block or error of the single-chunk write came back as a huge
length with no error set; with more than IOV_MAX chunks every batch used
all iovecs and walked past the list; a short write was followed by later
chunks.
---
 kanon/linux/net/chunk_list.cc | 51 ++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/kanon/linux/net/chunk_list.cc b/kanon/linux/net/chunk_list.cc
index f8ef9f2..128424a 100644
--- a/kanon/linux/net/chunk_list.cc
+++ b/kanon/linux/net/chunk_list.cc
@@ -12,42 +12,51 @@ static constexpr unsigned IOVEC_MAX = IOV_MAX;
 static constexpr unsigned IOVEC_MAX = 1024;
 #endif
 
-static size_t RoundUpDivideIn2(size_t x, size_t y) KANON_NOEXCEPT
-{
-  return (x == 0) ? 0 : ((x - 1) / y + 1);
-}
-
 ChunkList::SizeType kanon::ChunkListWriteFd(ChunkList &buffer, FdType fd,
                                             int &saved_errno) KANON_NOEXCEPT
 {
+  ChunkList::SizeType ret = 0;
+
   if (buffer.GetChunkSize() == 1) {
     auto first_chunk = buffer.GetFirstChunk();
-    return (ChunkList::SizeType)sock::Write(
-        fd, buffer.GetFirstChunk()->GetReadBegin(),
-        first_chunk->GetReadableSize());
+    auto n = sock::Write(fd, first_chunk->GetReadBegin(),
+                         first_chunk->GetReadableSize());
+    if (n >= 0) {
+      ret = (ChunkList::SizeType)n;
+    } else {
+      saved_errno = errno;
+    }
+    return ret;
   }
 
-  FixedVector<struct iovec> iovecs(buffer.GetChunkSize());
-  auto first_chunk = buffer.begin();
-  auto cnt = RoundUpDivideIn2(buffer.GetChunkSize(), IOVEC_MAX);
+  FixedVector<struct iovec> iovecs(
+      buffer.GetChunkSize() < IOVEC_MAX ? buffer.GetChunkSize() : IOVEC_MAX);
+  auto chunk = buffer.begin();
+  auto remaining = buffer.GetChunkSize();
 
-  ChunkList::SizeType ret = 0;
+  while (remaining > 0) {
+    // At most IOVEC_MAX chunks can be written at once
+    const size_t cnt = remaining < IOVEC_MAX ? remaining : IOVEC_MAX;
+    size_t batch_size = 0;
 
-  while (cnt--) {
-    for (auto &x : iovecs) {
-      x.iov_base = first_chunk->GetReadBegin();
-      x.iov_len = first_chunk->GetReadableSize();
-      ++first_chunk;
+    for (size_t i = 0; i < cnt; ++i) {
+      iovecs[i].iov_base = chunk->GetReadBegin();
+      iovecs[i].iov_len = chunk->GetReadableSize();
+      batch_size += chunk->GetReadableSize();
+      ++chunk;
     }
 
-    auto n = ::writev(fd, iovecs.data(), (int)iovecs.size());
+    auto n = ::writev(fd, iovecs.data(), (int)cnt);
 
-    if (n >= 0) {
-      ret += (ChunkList::SizeType)n;
-    } else {
+    if (n < 0) {
       saved_errno = errno;
       break;
     }
+
+    ret += (ChunkList::SizeType)n;
+    // The chunks that follow can't be written before the rest of this batch
+    if ((size_t)n < batch_size) break;
+    remaining -= cnt;
   }
 
   return ret;
-- 
2.43.0


From 7a186d368c0e7ec3c3aae346ab0c5014393026b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 02/54] fix: connection send, half-close and close paths keep
 their promises

- a would-block direct write (all three forms) dropped the message, left it
  without write interest, or let a chunk list overtake pending bytes
- ShutdownWrite() from another thread made the loop drop messages accepted
  before; with pending output the end of stream was never sent (LT), and
  could be sent before them or repeatedly (ET)
- the write-complete handler disabled writing though newer data was pending
- HandleEtWrite()/HandleEtRead() could loop forever or call the message
  callback after close/disable
- force-closing twice or racing with a peer close aborted; a half-closed
  connection aborted when its server was destroyed; state_ was a data race
---
 .../linux/net/connection/connection_base.inl  | 143 +++++++-----------
 kanon/net/connection/connection_base.cc       |  99 +++++++-----
 kanon/net/connection/connection_base.h        |  10 +-
 3 files changed, 124 insertions(+), 128 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 0435bc0..40ad62a 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -23,7 +23,6 @@ void ConnectionBase<D>::HandleWrite()
   // 2. ConnectionDestoryed() is called when connection is active
   //    (e.g. TcpServer desctroyed)
   if (!channel_->IsWriting()) {
-    assert(state_ == kDisconnected);
     LOG_TRACE_KANON << "This Connection: " << name_ << " is down";
     return;
   }
@@ -41,116 +40,80 @@ void ConnectionBase<D>::SendInLoopForBuf(InputBuffer &buffer)
   LOG_TRACE_KANON << "Connection: [" << name_
                   << "], fd = " << channel_->GetFd();
 
-  if (state_ != kConnected) {
+  SendInLoop(buffer.ToStringView());
+}
+
+template <typename D>
+void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
+{
+  /* Fix 1.7.5
+   * In the formal implementation of this function is ill-formed.
+   * It is should be allowed for user to call this when output_buffer_ is not
+   * empty.
+   */
+
+  // KANON_ASSERT(
+  //     !output_buffer_.HasReadable(),
+  //     "The Send() for ChunkList must be called when output_buffer_ is
+  //     empty");
+
+  if (state_ == kDisconnected || shutdown_pending_) {
     LOG_WARN_KANON << "This connection[" << name_
                    << "] is not connected, don't send any message";
     return;
   }
 
-  // if (!channel_->IsWriting() && !output_buffer_.HasReadable()) {
-  if (!output_buffer_.HasReadable()) {
-    // output_buffer_.swap(buffer);
-
-    // auto n = sock::Write(
-    //   channel_->GetFd(),
-    //   output_buffer_.ToStringView().data(),
-    //   output_buffer_.GetReadableSize());
+  const auto pending_len = output_buffer_.GetReadableSize();
 
-    output_buffer_.Append(buffer.ToStringView());
+  // The pending message must be written first
+  if (pending_len == 0) {
     int saved_errno = 0;
-    auto n = ChunkListWriteFd(output_buffer_, channel_->GetFd(), saved_errno);
+    auto write_n = ChunkListWriteFd(buffer, channel_->GetFd(), saved_errno);
 
     if (saved_errno && saved_errno != EAGAIN) {
       LOG_SYSERROR_KANON << "write unexpected error occurred";
+      return;
     }
 
-    if (n > 0) {
-      LOG_TRACE_KANON << "Write length = " << n;
-      output_buffer_.AdvanceRead(n);
-      if (output_buffer_.HasReadable()) {
-#ifdef PRINT_REMAIN
-        LOG_TRACE_KANON << "Remaining length = "
-                        << output_buffer_.GetReadableSize();
-#endif
-
-        if (output_buffer_.GetReadableSize() >= high_water_mark_ &&
-            high_water_mark_callback_)
-        {
-          loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                       this->shared_from_this(),
-                                       output_buffer_.GetReadableSize()));
-        }
-        channel_->EnableWriting();
-      } else {
+    if (write_n > 0) {
+      LOG_DEBUG_KANON << "Write " << write_n << " bytes";
+      buffer.AdvanceRead(write_n);
+
+      if (!buffer.HasReadable()) {
+        LOG_DEBUG_KANON << "Write complete";
         if (write_complete_callback_) {
           loop_->QueueToLoop(
-              std::bind(write_complete_callback_, this->shared_from_this()));
+              std::bind(&ConnectionBase::CallWriteCompleteCallback,
+                        this->shared_from_this()));
         }
 
         if (channel_->IsWriting()) {
           channel_->DisableWriting();
         }
+        return;
       }
     }
-  } else {
-    SendInLoop(buffer.ToStringView());
   }
-}
 
-template <typename D>
-void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
-{
-  /* Fix 1.7.5
-   * In the formal implementation of this function is ill-formed.
-   * It is should be allowed for user to call this when output_buffer_ is not
-   * empty.
-   */
+  const auto remaining = buffer.GetReadableSize();
+  if (remaining == 0) return;
 
-  // KANON_ASSERT(
-  //     !output_buffer_.HasReadable(),
-  //     "The Send() for ChunkList must be called when output_buffer_ is
-  //     empty");
-
-  int saved_errno = 0;
-  auto write_n = ChunkListWriteFd(buffer, channel_->GetFd(), saved_errno);
-
-  if (saved_errno && saved_errno != EAGAIN) {
-    LOG_SYSERROR_KANON << "write unexpected error occurred";
+  if (high_water_mark_callback_ && pending_len < high_water_mark_ &&
+      pending_len + remaining >= high_water_mark_)
+  {
+    loop_->QueueToLoop(std::bind(high_water_mark_callback_,
+                                 this->shared_from_this(),
+                                 pending_len + remaining));
   }
 
-  if (write_n > 0) {
-    LOG_DEBUG_KANON << "Write " << write_n << " bytes";
-    buffer.AdvanceRead(write_n);
-
-    if (buffer.HasReadable()) {
-      if (high_water_mark_callback_ &&
-          buffer.GetReadableSize() > high_water_mark_)
-      {
-        loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                     this->shared_from_this(),
-                                     high_water_mark_));
-      }
-
-#if 1
-      if (output_buffer_.HasReadable()) {
-        output_buffer_.AppendChunkList(&buffer);
-      } else {
-        output_buffer_.swap(buffer);
-      }
-#else
-      output_buffer_.swap(buffer);
-#endif
-    } else {
-      LOG_DEBUG_KANON << "Write complete";
-      if (write_complete_callback_) {
-        loop_->QueueToLoop(std::bind(&ConnectionBase::CallWriteCompleteCallback,
-                                     this->shared_from_this()));
-      }
+  if (output_buffer_.HasReadable()) {
+    output_buffer_.AppendChunkList(&buffer);
+  } else {
+    output_buffer_.swap(buffer);
+  }
 
-      if (channel_->IsWriting()) {
-        channel_->DisableWriting();
-      }
-    }
+  if (!channel_->IsWriting()) {
+    channel_->EnableWriting();
   }
 }
 
@@ -165,7 +128,10 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
   // Although Send() has checked state_ is kConnected
   // But connection also can be closed in the phase 2
   // when this is called in phase 3
-  if (state_ != kConnected) {
+  //
+  // A message accepted before ShutdownWrite() must be sent although state_ is
+  // kDisconnecting, but nothing after the shutdown
+  if (state_ == kDisconnected || shutdown_pending_) {
     LOG_WARN_KANON << "This connection [" << name_
                    << "] is not connected, don't send any message";
     return;
@@ -257,9 +223,12 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
         return;
       }
     } else {
-      if (errno != EAGAIN) // EWOULDBLOCK
+      if (errno != EAGAIN) { // EWOULDBLOCK
         LOG_SYSERROR_KANON << "write unexpected error occurred";
-      return;
+        return;
+      }
+      // The message is written when the fd is writable
+      n = 0;
     }
   }
 
diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 103e481..c332458 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -25,6 +25,7 @@ ConnectionBase<D>::ConnectionBase(EventLoop *loop, std::string const &name,
   , channel_(new Channel(loop_, sockfd))
   , high_water_mark_{kDefaultHighWatermark}
   , state_{kConnecting}
+  , shutdown_pending_{false}
 {
   // Pass raw pointer is safe here since
   // will disable all events when connection
@@ -77,7 +78,7 @@ void ConnectionBase<D>::ConnectionDestroyed()
                   << " destoryed";
   // This may be called by TcpServer dtor or close_callback_(see TcpServer)
   // if close_callback_ has be called, just remove channel;
-  if (state_ == kConnected) {
+  if (state_ == kConnected || state_ == kDisconnecting) {
     channel_->DisableAll();
     state_ = kDisconnected;
 
@@ -152,9 +153,11 @@ void ConnectionBase<D>::HandleEtRead(TimeStamp recv_time)
   // 4. The message length is equal to 0, it dicates that peer close this
   // connection
   //    then call HandleClose() since this is passive close
-  int saved_errno = 0;
-
-  for (;;) {
+  //
+  // The message_callback_ may close the connection or disable reading,
+  // don't continue read then
+  while (channel_->IsReading()) {
+    int saved_errno = 0;
     auto readn =
         BufferReadFromFd(input_buffer_, channel_->GetFd(), saved_errno);
 
@@ -162,9 +165,9 @@ void ConnectionBase<D>::HandleEtRead(TimeStamp recv_time)
       if (saved_errno != EAGAIN) {
         LOG_SYSERROR_KANON << "Read event handle error";
         HandleError();
-      } else {
-        break;
+        HandleClose();
       }
+      break;
     }
 
     LOG_DEBUG_KANON << "Read " << readn << " bytes from [Connection: " << name_
@@ -253,8 +256,8 @@ void ConnectionBase<D>::HandleLtWrite()
       // Disconnecting is set in ShutdownWrite(). Because there are some message
       // need write(channel_->IsWriting()) to kernel space, delay the shutdown()
       // to here
-      if (state_ == kDisconnecting) {
-        ShutdownWrite();
+      if (shutdown_pending_) {
+        ShutdownWriteInLoop();
       }
     }
   }
@@ -266,7 +269,8 @@ void ConnectionBase<D>::CallWriteCompleteCallback()
   if (write_complete_callback_(this->shared_from_this())) {
     LOG_TRACE_KANON << "Last chunk in the pipeline write";
     // The write_complete_callback_ maybe disable writing in the SendInLoop()
-    if (channel_->IsWriting()) {
+    // Also, the message sent since the completion may be still pending
+    if (channel_->IsWriting() && !output_buffer_.HasReadable()) {
       channel_->DisableWriting();
     }
   } else {
@@ -281,7 +285,10 @@ void ConnectionBase<D>::HandleEtWrite()
   // The event occurred only in the:
   // 1. buffer high-watermark to low-watermark(writable)
 
-  while (true) {
+  // Nothing is pending, the writing is not disabled only
+  if (!output_buffer_.HasReadable()) return;
+
+  while (output_buffer_.HasReadable()) {
     // auto writen = sock::Write(
     // channel_->GetFd(),
     // output_buffer_.GetReadBegin(),
@@ -291,19 +298,17 @@ void ConnectionBase<D>::HandleEtWrite()
     auto writen =
         ChunkListWriteFd(output_buffer_, channel_->GetFd(), saved_errno);
 
-    if (saved_errno) {
-      if (saved_errno != EAGAIN) {
-        LOG_SYSERROR_KANON << "Write event handle error";
-        HandleError();
-      }
-    }
-
     LOG_TRACE_KANON << "Write " << writen << " bytes to [Connection: " << name_
                     << ", fd: " << channel_->GetFd() << "]";
 
     output_buffer_.AdvanceRead(writen);
 
-    if (!output_buffer_.HasReadable() && saved_errno == EAGAIN) {
+    if (saved_errno) {
+      if (saved_errno != EAGAIN) {
+        LOG_SYSERROR_KANON << "Write event handle error";
+        HandleError();
+        return;
+      }
       break;
     }
   }
@@ -321,8 +326,8 @@ void ConnectionBase<D>::HandleEtWrite()
                     this->shared_from_this()));
     }
 
-    if (state_ == kDisconnecting) {
-      socket_->ShutdownWrite();
+    if (shutdown_pending_) {
+      ShutdownWriteInLoop();
     }
   }
 }
@@ -344,7 +349,8 @@ void ConnectionBase<D>::HandleClose()
   loop_->AssertInThread();
   // Connected ==> read event handling
   // Disconnecting ==> call ForceClose()
-  assert(state_ == kConnected || state_ == kDisconnecting);
+  // Disconnected ==> closed by other way already
+  if (state_ == kDisconnected) return;
   state_ = kDisconnected;
 
   LOG_DEBUG_KANON << "The connection [" << name_ << "] is disconnected";
@@ -368,18 +374,26 @@ void ConnectionBase<D>::HandleClose()
 template <typename D>
 void ConnectionBase<D>::ShutdownWrite() KANON_NOEXCEPT
 {
-  if (state_ == kConnected) {
-    state_ = kDisconnecting;
-
-    // Pass raw pointer is safe.
-    loop_->RunInLoop([this]() {
-      // If channel is writing state, we need write all message to
-      // the buffer in kernel space, in case peer half-close can
-      // also receive message
-      if (!channel_->IsWriting() || loop_->IsEdgeTriggerMode()) {
-        socket_->ShutdownWrite();
-      }
-    });
+  State expected = kConnected;
+  if (state_.compare_exchange_strong(expected, kDisconnecting)) {
+    // The messages accepted before may be still in the queue of loop
+    // (sent by other threads), don't overtake them.
+    loop_->QueueToLoop(std::bind(&ConnectionBase<D>::ShutdownWriteInLoop,
+                                 this->shared_from_this()));
+  }
+}
+
+template <typename D>
+void ConnectionBase<D>::ShutdownWriteInLoop()
+{
+  if (state_ == kDisconnected) return;
+
+  // If there are some message pending, we need write all message to
+  // the buffer in kernel space, in case peer half-close can
+  // also receive message
+  shutdown_pending_ = true;
+  if (!output_buffer_.HasReadable()) {
+    socket_->ShutdownWrite();
   }
 }
 
@@ -389,11 +403,12 @@ void ConnectionBase<D>::ForceClose() KANON_NOEXCEPT
   // If connection is not established or
   // disconnected,
   // ForceClose() do nothing.
-  if (state_ == kConnected || state_ == kDisconnecting) {
-    state_ = kDisconnecting;
-
-    loop_->RunInLoop(
-        std::bind(&ConnectionBase<D>::HandleClose, this->shared_from_this()));
+  State expected = kConnected;
+  if (state_.compare_exchange_strong(expected, kDisconnecting) ||
+      expected == kDisconnecting)
+  {
+    loop_->RunInLoop(std::bind(&ConnectionBase<D>::HandleClose,
+                               this->shared_from_this()));
   }
 }
 
@@ -487,7 +502,9 @@ void ConnectionBase<D>::SendInLoop(StringView data)
 template <typename D>
 void ConnectionBase<D>::DisbaleRead()
 {
-  if (state_ == kConnected && channel_->IsReading()) {
+  if ((state_ == kConnected || state_ == kDisconnecting) &&
+      channel_->IsReading())
+  {
     channel_->DisableReading();
   }
 }
@@ -495,7 +512,9 @@ void ConnectionBase<D>::DisbaleRead()
 template <typename D>
 void ConnectionBase<D>::EnableRead()
 {
-  if (state_ == kConnected && !channel_->IsReading()) {
+  if ((state_ == kConnected || state_ == kDisconnecting) &&
+      !channel_->IsReading())
+  {
     channel_->EnableReading();
   }
 }
diff --git a/kanon/net/connection/connection_base.h b/kanon/net/connection/connection_base.h
index e25cac7..4547e39 100644
--- a/kanon/net/connection/connection_base.h
+++ b/kanon/net/connection/connection_base.h
@@ -1,6 +1,7 @@
 #ifndef KANON_NET_CONNECTION_BASE_H
 #define KANON_NET_CONNECTION_BASE_H
 
+#include <atomic>
 #include <memory>
 
 #include "kanon/util/noncopyable.h"
@@ -237,6 +238,7 @@ class ConnectionBase
   void HandleClose();
 
   void CallWriteCompleteCallback();
+  void ShutdownWriteInLoop();
   void SendInLoop(void const *data, size_t len);
   void SendInLoop(StringView data);
   void SendInLoopForStr(std::string &data);
@@ -302,7 +304,13 @@ class ConnectionBase
    * about a specific connnection(So, it named context)
    */
   RawAny context_;
-  State state_; //!< Internal useage
+  std::atomic<State> state_; //!< Internal useage
+
+  /**
+   * ShutdownWrite() has been processed by the loop: the write direction is
+   * closed once output_buffer_ is drained
+   */
+  bool shutdown_pending_;
 
 #ifdef KANON_ON_WIN
  public:
-- 
2.43.0


From 9a3788626d6eef2ca825f402bc870b060d3b761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 03/54] fix: dispatch only events the channel is still
 interested in

A read/write callback ran although its interest had been withdrawn earlier
in the same round; epoll aborted on hang-up of a channel without interest;
poll lost the descriptor when interest was withdrawn twice or restored, and
removed the wrong entry for a channel without interest.
---
 kanon/linux/net/channel.cc |  6 ++++--
 kanon/linux/net/epoller.cc |  3 ++-
 kanon/linux/net/poller.cc  | 18 ++++++++++--------
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/kanon/linux/net/channel.cc b/kanon/linux/net/channel.cc
index 7d5cc0c..758f587 100644
--- a/kanon/linux/net/channel.cc
+++ b/kanon/linux/net/channel.cc
@@ -97,11 +97,13 @@ void Channel::HandleEvents(TimeStamp receive_time)
   // When revents_ == POLLIN, process message except FIN or RST
   // RDHUP indicates peer half-close in write direction(but we don't
   // distinguish, also close) So, we can continue receive message
-  if (revents_ & (POLLIN | POLLPRI | POLLRDHUP)) {
+  //
+  // The interest may be withdrawn by a callback called before in this round
+  if ((revents_ & (POLLIN | POLLPRI | POLLRDHUP)) && IsReading()) {
     if (read_callback_) read_callback_(receive_time);
   }
 
-  if (revents_ & POLLOUT) {
+  if ((revents_ & POLLOUT) && IsWriting()) {
     if (write_callback_) write_callback_();
   }
 
diff --git a/kanon/linux/net/epoller.cc b/kanon/linux/net/epoller.cc
index 88f5c2b..79948de 100644
--- a/kanon/linux/net/epoller.cc
+++ b/kanon/linux/net/epoller.cc
@@ -85,7 +85,8 @@ void Epoller::FillActiveChannels(int ev_nums,
   for (int i = 0; i < ev_nums; ++i) {
     // we use the data.ptr so that no need to look up in channels_map_
     auto channel = reinterpret_cast<Channel *>(events_[i].data.ptr);
-    assert(!channel->IsNoneEvent());
+    // Don't assume there is an interested event here:
+    // EPOLLHUP and EPOLLERR are always reported
 
     int fd = channel->GetFd();
     KANON_UNUSED(fd);
diff --git a/kanon/linux/net/poller.cc b/kanon/linux/net/poller.cc
index 721fd45..18eca7c 100644
--- a/kanon/linux/net/poller.cc
+++ b/kanon/linux/net/poller.cc
@@ -26,6 +26,7 @@ TimeStamp Poller::Poll(int ms, ChannelVec &active_channels) KANON_NOEXCEPT
 
   auto ret = ::poll(pollfds_.data(), static_cast<nfds_t>(pollfds_.size()), ms);
 
+  int saved_errno = errno;
   TimeStamp now{TimeStamp::Now()};
 
   if (ret > 0) {
@@ -54,7 +55,8 @@ TimeStamp Poller::Poll(int ms, ChannelVec &active_channels) KANON_NOEXCEPT
   } else if (ret == 0) {
     LOG_TRACE_KANON << "none events are ready";
   } else {
-    if (ret != EINTR) {
+    if (saved_errno != EINTR) {
+      errno = saved_errno;
       LOG_SYSERROR_KANON << "Poll() error occurred";
     }
   }
@@ -94,11 +96,11 @@ void Poller::UpdateChannel(Channel *ch)
     assert(index != -1 && index <= static_cast<int>(pollfds_.size()));
     auto &now_pollfd = pollfds_[index];
 
-    assert(now_pollfd.fd == ch->GetFd());
+    assert(now_pollfd.fd == ch->GetFd() ||
+           now_pollfd.fd == -ch->GetFd() - 1);
 
-    if (ch->IsNoneEvent()) {
-      now_pollfd.fd = -now_pollfd.fd - 1;
-    }
+    // Ignore the fd while there is no interested event
+    now_pollfd.fd = ch->IsNoneEvent() ? -ch->GetFd() - 1 : ch->GetFd();
 
     now_pollfd.events = static_cast<short>(ch->GetEvents());
     now_pollfd.revents = 0;
@@ -112,9 +114,7 @@ void Poller::RemoveChannel(Channel *ch)
   auto it = channels_map_.find(ch->GetFd());
 
   if (it != channels_map_.end()) {
-    auto channel = it->second;
-
-    if (channel->GetFd() == pollfds_.back().fd) {
+    if (ch->GetIndex() == static_cast<int>(pollfds_.size()) - 1) {
       // ch is the last pollfd
       // just pop back
       pollfds_.pop_back();
@@ -149,6 +149,8 @@ void Poller::RemoveChannel(Channel *ch)
     }
 
     channels_map_.erase(it);
+    // The channel can be added again
+    ch->SetIndex(-1);
   }
 }
 
-- 
2.43.0


From bc5531aebc0d58ee88a8775373a52fb6e3ec1f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 04/54] fix: chunk list keeps its content in every prepend,
 append and read

Prepend() with less than its size of headroom underflowed, the readable
size assumed full middle chunks, AppendChunkList() dereferenced end(),
integers could not be read across chunks, empty appends/prepends left or
required a chunk, and Clone()/CopyAssign() copied no bytes.
---
 kanon/buffer/chunk_list.cc | 61 ++++++++++++++++++++++----------------
 kanon/buffer/chunk_list.h  | 42 ++++++++++++++++++--------
 2 files changed, 66 insertions(+), 37 deletions(-)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index 29fce37..781d760 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -36,16 +36,40 @@ ChunkList::~ChunkList() KANON_NOEXCEPT
 
 auto ChunkList::Prepend(void const *data, size_t len) -> void
 {
+  if (len == 0) return;
+
   if (buffers_.empty()) {
     auto chunk = AddChunk();
     KANON_UNUSED(chunk);
   }
 
-  buffers_.begin()->Prepend(data, len);
+  // Fill the space before the first chunk,
+  // then push new chunk to the front if it is not enough
+  auto buf = reinterpret_cast<char const *>(data);
+  for (;;) {
+    auto first_chunk = buffers_.begin();
+    const auto n = len < first_chunk->read_index_
+                       ? len
+                       : static_cast<size_t>(first_chunk->read_index_);
+    first_chunk->Prepend(buf + (len - n), n);
+    len -= n;
+    if (len == 0) return;
+
+    if (!free_buffers_.empty()) {
+      buffers_.push_front(free_buffers_.extract_front());
+    } else {
+      buffers_.push_front(buffers_.create_node_size(CHUNK_SIZE));
+    }
+    first_chunk = buffers_.begin();
+    first_chunk->read_index_ = first_chunk->write_index_ =
+        first_chunk->GetMaxSize();
+  }
 }
 
 void ChunkList::Append(void const *data, size_t len)
 {
+  if (len == 0) return;
+
   auto buf = reinterpret_cast<char const *>(data);
 
   /* Allow user append data even though the size header
@@ -125,30 +149,13 @@ buffers_.size() > 0.
 
 auto ChunkList::GetReadableSize() const KANON_NOEXCEPT->SizeType
 {
-  if (IsEmpty()) {
-    return 0;
-  } else {
-    auto first_chunk = buffers_.begin();
-    if (buffers_.size() == 1) {
-      return first_chunk->GetReadableSize();
-    } else if (buffers_.size() == 2) {
-      return first_chunk->GetReadableSize() +
-             first_chunk.next()->GetReadableSize();
-    }
-
-    auto last_chunk = buffers_.before_end();
-    // return first_chunk->GetMaxSize() != 4096
-    //            ? first_chunk->GetReadableSize() +
-    //                  first_chunk.next()->GetReadableSize() +
-    //                  (GetChunkSize() - 3) * CHUNK_SIZE +
-    //                  last_chunk->GetReadableSize()
-    //            : first_chunk->GetReadableSize() +
-    //                  (GetChunkSize() - 2) * CHUNK_SIZE +
-    //                  last_chunk->GetReadableSize();
-    return first_chunk->GetReadableSize() +
-           first_chunk.next()->GetReadableSize() +
-           (GetChunkSize() - 3) * CHUNK_SIZE + last_chunk->GetReadableSize();
+  // The chunks in the middle may be not full(see Prepend() and
+  // AppendChunkList())
+  SizeType ret = 0;
+  for (auto const &chunk : buffers_) {
+    ret += chunk.GetReadableSize();
   }
+  return ret;
 }
 
 bool ChunkList::PutToFreeChunk() KANON_NOEXCEPT
@@ -232,7 +239,11 @@ auto ChunkList::GetFreeChunk() KANON_NOEXCEPT->ListType::Iterator
 
 auto ChunkList::AppendChunkList(ChunkList *rhs) -> void
 {
-  buffers_.splice_after(buffers_.end(), rhs->buffers_);
+  if (buffers_.empty()) {
+    buffers_.swap(rhs->buffers_);
+  } else {
+    buffers_.splice_after(buffers_.before_end(), rhs->buffers_);
+  }
 }
 
 auto ChunkList::DebugPrint() -> void
diff --git a/kanon/buffer/chunk_list.h b/kanon/buffer/chunk_list.h
index f19978b..f45fe48 100644
--- a/kanon/buffer/chunk_list.h
+++ b/kanon/buffer/chunk_list.h
@@ -96,11 +96,9 @@ class KANON_CORE_NO_API Chunk {
 
   void Prepend(void const *data, size_t len) KANON_NOEXCEPT
   {
-    assert(read_index_ >= sizeof(size_t));
-    assert(write_index_ >= sizeof(size_t));
-    assert(len <= sizeof(size_t));
+    assert(len <= read_index_);
 
-    read_index_ -= len;
+    read_index_ -= static_cast<size_type>(len);
     memcpy(GetReadBegin(), data, len);
   }
 
@@ -181,16 +179,19 @@ class ChunkList final {
   ChunkList Clone()
   {
     ChunkList ret;
-    new (&ret.buffers_) ListType(buffers_);
-    new (&ret.free_buffers_) ListType(free_buffers_);
+    for (auto const &chunk : buffers_) {
+      ret.Append(chunk.ToStringView());
+    }
     return ret;
   }
 
   void CopyAssign(ChunkList const &rhs)
   {
-    buffers_ = rhs.buffers_;
-    free_buffers_ = rhs.free_buffers_;
-    *this = rhs;
+    if (this == &rhs) return;
+    AdvanceReadAll();
+    for (auto const &chunk : rhs.buffers_) {
+      Append(chunk.ToStringView());
+    }
   }
 
   // Disable implicit copy
@@ -245,9 +246,9 @@ class ChunkList final {
 #define KANON_CHUNK_LIST_GET_READ_BEGIN_UINT(size)                             \
   uint##size##_t GetReadBegin##size() KANON_NOEXCEPT                           \
   {                                                                            \
-    assert(buffers_.front().GetReadableSize() >= sizeof(uint##size##_t));      \
-    return sock::ToHostByteOrder##size(                                        \
-        *reinterpret_cast<uint##size##_t *>(buffers_.front().GetReadBegin())); \
+    uint##size##_t ni;                                                         \
+    CopyFront(&ni, sizeof ni);                                                 \
+    return sock::ToHostByteOrder##size(ni);                                    \
   }
 
   uint8_t GetReadBegin8() KANON_NOEXCEPT
@@ -333,6 +334,23 @@ class ChunkList final {
 
  private:
   bool PutToFreeChunk() KANON_NOEXCEPT;
+
+  /**
+   * Copy the first \p len readable bytes, they may be stored in many chunks
+   */
+  void CopyFront(void *data, size_t len) KANON_NOEXCEPT
+  {
+    auto buf = static_cast<char *>(data);
+    for (auto const &chunk : buffers_) {
+      if (len == 0) break;
+      const size_t n =
+          len < chunk.GetReadableSize() ? len : chunk.GetReadableSize();
+      ::memcpy(buf, chunk.GetReadBegin(), n);
+      buf += n;
+      len -= n;
+    }
+    assert(len == 0 && "The readable bytes are not enough");
+  }
   ListType::Iterator GetFreeChunk() KANON_NOEXCEPT;
 
   void PushHeader()
-- 
2.43.0


From ac37d939d6b51e564f660ec1584456a90c9e80cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 05/54] fix: forward list sequence operations at their
 boundaries

assign(count) never shrank, == read past the shorter list, splicing a
range reversed it, splicing an element after itself broke the chain,
self-assignment used destroyed elements, sort() was not stable, resize(n)
and free swap() did not compile.
---
 kanon/algo/forward_list.h                   |  2 +-
 kanon/algo/forward_list/forward_list_impl.h | 26 +++++++++++----------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/kanon/algo/forward_list.h b/kanon/algo/forward_list.h
index 96def31..4ddc0d1 100644
--- a/kanon/algo/forward_list.h
+++ b/kanon/algo/forward_list.h
@@ -182,7 +182,7 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
 
   KANON_INLINE void resize(SizeType n)
   {
-    resize_impl<ValueType>(n, ValueType{});
+    resize(n, ValueType{});
   }
   void resize(SizeType n, ValueType const &val);
 
diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index ee70a53..a88f1db 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -53,8 +53,8 @@ void FORWARD_LIST_TEMPLATE::assign(SizeType count, ValueType const &value)
     while (count--) {
       push_front(value);
     }
-  } else if (count < 0) {
-    // count < size()
+  } else {
+    // count <= size()
     while (beg.next() != end()) {
       erase_after(beg);
     }
@@ -89,7 +89,7 @@ void FORWARD_LIST_TEMPLATE::assign(InputIterator first, InputIterator last)
 FORWARD_LIST_TEMPLATE_LIST
 auto FORWARD_LIST_TEMPLATE::operator=(Self const &other) -> Self &
 {
-  assign(other.begin(), other.end());
+  if (this != &other) assign(other.begin(), other.end());
   return *this;
 }
 
@@ -324,6 +324,9 @@ FORWARD_LIST_TEMPLATE_LIST
 void FORWARD_LIST_TEMPLATE::splice_after(ConstIterator pos, Self &list,
                                          ConstIterator it)
 {
+  // The element is in the position already
+  if (pos == it || pos == it.next()) return;
+
   insert_after(pos, list.extract_after(it));
 }
 
@@ -335,6 +338,7 @@ void FORWARD_LIST_TEMPLATE::splice_after(ConstIterator pos, Self &list,
   // (first, last)
   while (first.next() != last) {
     insert_after(pos, list.extract_after(first));
+    ++pos;
   }
 }
 
@@ -433,12 +437,10 @@ void FORWARD_LIST_TEMPLATE::sort(Compare cmp)
         break;
       } else {
         // Merge non-empty list
-        // larger list merge shorter list
-        if (lists[i].size() > list.size()) {
-          lists[i].merge(list, cmp);
-          list.swap(lists[i]);
-        } else
-          list.merge(lists[i], cmp);
+        // The elements in lists[i] are in front of the elements in list,
+        // so list must be merged to lists[i] to keep stable
+        lists[i].merge(list, cmp);
+        list.swap(lists[i]);
       }
     }
   }
@@ -504,8 +506,8 @@ void FORWARD_LIST_TEMPLATE::swap(Self &other) KANON_NOEXCEPT
 }
 
 FORWARD_LIST_TEMPLATE_LIST
-KANON_INLINE void swap(ForwardList<T, A> const &x, ForwardList<T, A> const &y)
-    KANON_NOEXCEPT_OP(KANON_NOEXCEPT_OP(x.swap(y)))
+KANON_INLINE void swap(ForwardList<T, A> &x, ForwardList<T, A> &y)
+    KANON_NOEXCEPT
 {
   x.swap(y);
 }
@@ -529,7 +531,7 @@ FORWARD_LIST_TEMPLATE_LIST
 KANON_INLINE bool operator==(ForwardList<T, A> const &x,
                              ForwardList<T, A> const &y)
 {
-  return std::equal(x.begin(), x.end(), y.begin());
+  return x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin());
 }
 
 FORWARD_LIST_TEMPLATE_LIST
-- 
2.43.0


From ac29c975eab2695b4bc58032c8df74f99c09e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 06/54] fix: a loop recognises its thread although nothing
 cached the thread id before

---
 kanon/net/event_loop.cc | 6 +++---
 kanon/net/event_loop.h  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index fdbd520..462606c 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -88,9 +88,9 @@ EventLoop::EventLoop()
 
 EventLoop::EventLoop(bool is_poller)
 #if KANON___THREAD_DEFINED
-  : owner_thread_id_{(PId)CurrentThread::t_tid}
+  : owner_thread_id_{(PId)CurrentThread::tid()}
 #else
-  : owner_thread_id_{(PId)CurrentThread::GetTid()}
+  : owner_thread_id_{(PId)CurrentThread::tid()}
 #endif
   , looping_{false}
   , quit_{false}
@@ -363,7 +363,7 @@ bool EventLoop::IsEdgeTriggerMode() const KANON_NOEXCEPT
 #if !KANON___THREAD_DEFINED
 bool EventLoop::IsLoopInThread() KANON_NOEXCEPT
 {
-  return CurrentThread::GetTid() == owner_thread_id_;
+  return CurrentThread::tid() == owner_thread_id_;
 }
 #endif
 
diff --git a/kanon/net/event_loop.h b/kanon/net/event_loop.h
index d9e6b27..144e90f 100644
--- a/kanon/net/event_loop.h
+++ b/kanon/net/event_loop.h
@@ -192,7 +192,7 @@ class EventLoop : noncopyable {
 #if KANON___THREAD_DEFINED
   KANON_INLINE bool IsLoopInThread() KANON_NOEXCEPT
   {
-    return CurrentThread::t_tid == owner_thread_id_;
+    return CurrentThread::tid() == owner_thread_id_;
   }
 #else
   KANON_NET_API bool IsLoopInThread() KANON_NOEXCEPT;
-- 
2.43.0


From 260823c8c478b07c578fc807edb53822962bb162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 07/54] fix: a loop runs the tasks queued before start or quit
 and closes its descriptor

---
 kanon/net/event_loop.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 462606c..d2e07a7 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -148,6 +148,10 @@ EventLoop::~EventLoop()
   //     BUT! The assertion will make effect at first, and the exception
   //     information is messing.
   // assert(!looping_);
+
+#ifdef KANON_ON_UNIX
+  ::close(ev_channel_->GetFd());
+#endif
 }
 
 void EventLoop::StartLoop()
@@ -173,6 +177,9 @@ void EventLoop::StartLoop()
     activeChannels.clear();
   }
 
+  // The functors queued before Quit() must be called also
+  CallFunctors();
+
   LOG_TRACE_KANON << "EventLoop " << this << " loop stop";
 
   looping_ = false;
@@ -225,7 +232,9 @@ void EventLoop::QueueToLoop(FunctorCallback cb)
   // ConnectionCallback) then WriteCompleteCallback continue write and register
   // it if not complete, but this is in the phase3, if we don't Wakeup(), the
   // next loop must be blocked. \see example/file_transfer/client.cc
-  if (!IsLoopInThread() || calling_functors_) {
+  //
+  // The loop maybe not start also, then the first poll must not block.
+  if (!IsLoopInThread() || calling_functors_ || !looping_) {
     Wakeup();
   }
 }
@@ -236,10 +245,6 @@ void EventLoop::RemoveChannel(Channel *ch) { poller_->RemoveChannel(ch); }
 
 void EventLoop::CallFunctors()
 {
-  if (quit_) {
-    return;
-  }
-
   decltype(functors_) functors;
   {
     MutexGuard dummy{lock_};
-- 
2.43.0


From b78ee51e03be965b2f1cd75fae2a5cc125a7f423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 08/54] fix: cancelling a timer is exact and safe, whatever
 became of it

---
 kanon/linux/net/timer/timer_queue.cc | 44 ++++++++++++++++++----------
 kanon/linux/net/timer/timer_queue.h  | 19 +++++-------
 kanon/net/timer/timer_id.h           |  6 ++--
 3 files changed, 39 insertions(+), 30 deletions(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 8bd68c6..5edca4e 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -128,12 +128,16 @@ TimerQueue::~TimerQueue() KANON_NOEXCEPT
   for (auto &timer_seq : timers_) {
     delete timer_seq.first;
   }
+
+  ::close(timer_channel_->GetFd());
 }
 
 TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
                              double interval)
 {
   Timer *timer = new Timer(std::move(cb), time, interval);
+  // The timer maybe expired and deleted by the loop after RunInLoop()
+  const TimerId id(timer);
   loop_->RunInLoop([this, timer]() {
     loop_->AssertInThread();
 
@@ -144,7 +148,7 @@ TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
     }
   });
 
-  return timer;
+  return id;
 }
 
 void TimerQueue::CancelTimer(TimerId id)
@@ -154,14 +158,21 @@ void TimerQueue::CancelTimer(TimerId id)
   loop_->RunInLoop([this, id]() {
     loop_->AssertInThread();
 
-    const auto active_timer_iter = timers_.find({id.timer_, id.seq_});
+    // The timer maybe has been deleted, then timer_ can't be dereferenced
+    const auto active_timer_iter = active_timers_.find(id.seq_);
+    if (active_timer_iter == active_timers_.end() ||
+        active_timer_iter->second != id.timer_)
+    {
+      return;
+    }
 
-    if (timers_.end() != active_timer_iter) {
-      timers_.erase(active_timer_iter);
+    if (timers_.erase({id.timer_, id.seq_}) > 0) {
+      active_timers_.erase(active_timer_iter);
+      delete id.timer_;
     } else if (calling_timer_) {
-      // Self-cancel
+      // The timer has expired in this round: don't call and don't reset it
       // \see ProcessAllExpiredTimers()
-      canceling_timers_.emplace(id.timer_, id.seq_);
+      canceling_timers_.emplace(id.seq_);
     }
   });
 }
@@ -178,6 +189,7 @@ bool TimerQueue::Emplace(Timer *timer)
   }
 
   timers_.emplace(timer, timer->sequence());
+  active_timers_.emplace(timer->sequence(), timer);
   LOG_TRACE_KANON << "Now total timer count = " << timers_.size();
   return ret;
 }
@@ -207,6 +219,9 @@ void TimerQueue::ProcessAllExpiredTimers(TimeStamp recv_time)
   calling_timer_ = true;
 
   for (auto const &timer : expired_timers) {
+    // Canceled by the timer called before
+    if (canceling_timers_.count(timer->sequence()) > 0) continue;
+
     try {
       timer->run();
     }
@@ -263,17 +278,14 @@ void TimerQueue::ResetTimers(TimerVector &expireds, TimeStamp now)
   Timer *next_expire{nullptr};
 
   for (auto &timer : expireds) {
-    if (timer->repeat()) {
-      // If timer is repeat, we should restart it
-      // but if it in such case as self-cancel,
-      // we shouldn't restart it and do nothing.
-      if (canceling_timers_.find({timer, timer->sequence()}) ==
-          canceling_timers_.end())
-      {
-        timer->restart(now);
-        Emplace(timer);
-      }
+    // If timer is repeat, we should restart it
+    // but if it in such case as self-cancel,
+    // we shouldn't restart it.
+    if (timer->repeat() && canceling_timers_.count(timer->sequence()) == 0) {
+      timer->restart(now);
+      Emplace(timer);
     } else {
+      active_timers_.erase(timer->sequence());
       delete timer;
     }
   }
diff --git a/kanon/linux/net/timer/timer_queue.h b/kanon/linux/net/timer/timer_queue.h
index 909db52..2264e7c 100644
--- a/kanon/linux/net/timer/timer_queue.h
+++ b/kanon/linux/net/timer/timer_queue.h
@@ -4,13 +4,12 @@
 #include "kanon/net/timer/itimer_queue_platform.h"
 
 #include <set>
+#include <unordered_map>
 #include <unordered_set>
 #include "kanon/util/ptr.h"
 #include "kanon/util/time_stamp.h"
 #include "kanon/net/channel.h"
 
-#include <third-party/xxHash/xxhash.h>
-
 namespace kanon {
 
 class TimerQueue : public ITimerQueuePlatform {
@@ -178,16 +177,14 @@ class TimerQueue : public ITimerQueuePlatform {
    * The all timers are not reset, and before the next phase of
    * calling callback will be cleared.
    */
-  struct TimerEntryHash {
-    KANON_INLINE uint64_t operator()(TimerEntry const &x) const KANON_NOEXCEPT
-    {
-      return XXH64(&x.first, sizeof x.first, time(NULL)) ^
-             (XXH64(&x.second, sizeof x.second, time(NULL)) << 1);
-    }
-  };
-
-  std::unordered_set<TimerEntry, TimerEntryHash>
+  std::unordered_set<uint64_t>
       canceling_timers_; //!< Store the self-cancel timer to avoid reset
+
+  /**
+   * All the timers that are not deleted, i.e. in timers_ or expired in this
+   * round. The sequence is unique but the address of timer is not.
+   */
+  std::unordered_map<uint64_t, TimerPtr> active_timers_;
 };
 } // namespace kanon
 
diff --git a/kanon/net/timer/timer_id.h b/kanon/net/timer/timer_id.h
index 083557e..b51c4ac 100644
--- a/kanon/net/timer/timer_id.h
+++ b/kanon/net/timer/timer_id.h
@@ -36,9 +36,9 @@ class KANON_NET_NO_API TimerId {
   KANON_INLINE ~TimerId() = default;
 
  private:
-  Timer *timer_;
-  uint64_t seq_;
-  void *ctx_;
+  Timer *timer_ = nullptr;
+  uint64_t seq_ = 0;
+  void *ctx_ = nullptr;
 };
 
 //!@}
-- 
2.43.0


From 48aa041c534788ac115d1258b98a4b534e4c1f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 09/54] fix: a loop thread is joined even if its loop has quit
 by itself

---
 kanon/net/event_loop_pool.cc   |  2 +-
 kanon/net/event_loop_thread.cc | 37 ++++++++++++++++++++++++++--------
 kanon/net/event_loop_thread.h  | 15 +++++++-------
 3 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/kanon/net/event_loop_pool.cc b/kanon/net/event_loop_pool.cc
index 3a1db11..ec08de8 100644
--- a/kanon/net/event_loop_pool.cc
+++ b/kanon/net/event_loop_pool.cc
@@ -19,7 +19,7 @@ EventLoopPool::EventLoopPool(EventLoop *base_loop, std::string const &name)
 {
 }
 
-EventLoopPool::~EventLoopPool() KANON_NOEXCEPT { assert(started_); }
+EventLoopPool::~EventLoopPool() KANON_NOEXCEPT {}
 
 void EventLoopPool::StartRun(ThreadInitCallback const &cb)
 {
diff --git a/kanon/net/event_loop_thread.cc b/kanon/net/event_loop_thread.cc
index c4407be..7b382ec 100644
--- a/kanon/net/event_loop_thread.cc
+++ b/kanon/net/event_loop_thread.cc
@@ -6,6 +6,8 @@ using namespace kanon;
 
 EventLoopThread::EventLoopThread(std::string const &name)
   : loop_{nullptr}
+  , running_{false}
+  , quited_{false}
   , mutex_{}
   , cond_{mutex_}
   , thr_{name}
@@ -16,28 +18,44 @@ EventLoopThread::~EventLoopThread() KANON_NOEXCEPT
 {
   // if Quit() is not called through pointer return from StartRun()
   // we should call quit explicitly
-  if (loop_ != nullptr) {
-    loop_->Quit();
+  if (running_) {
+    {
+      // The loop is not destroyed until the background thread reset loop_
+      MutexGuard guard{mutex_};
+      if (loop_ != nullptr) loop_->Quit();
+    }
     thr_.Join(); // wait loop quiting
   }
 }
 
 EventLoop *EventLoopThread::StartRun(ThreadInitCallback const &init_cb)
 {
+  running_ = true;
   thr_.StartRun(
       std::bind(&EventLoopThread::BackGroundStartLoop, this,
                 std::reference_wrapper<ThreadInitCallback const>(init_cb)));
 
-  {
-    MutexGuard guard{mutex_};
-    while (loop_ == nullptr) {
-      cond_.Wait();
-    }
+  // The loop maybe has quited when this thread is waken
+  MutexGuard guard{mutex_};
+  while (loop_ == nullptr && !quited_) {
+    cond_.Wait();
   }
 
   return loop_;
 }
 
+EventLoop *EventLoopThread::GetLoop() KANON_NOEXCEPT
+{
+  MutexGuard guard{mutex_};
+  return loop_;
+}
+
+EventLoop const *EventLoopThread::GetLoop() const KANON_NOEXCEPT
+{
+  MutexGuard guard{mutex_};
+  return loop_;
+}
+
 void EventLoopThread::BackGroundStartLoop(ThreadInitCallback const &init_cb)
 {
   // Called in IO thread
@@ -51,7 +69,10 @@ void EventLoopThread::BackGroundStartLoop(ThreadInitCallback const &init_cb)
 
   // Maybe quit before StartLoop() be called,
   // but it is harmless.
-  loop_->StartLoop();
+  loop.StartLoop();
 
+  MutexGuard guard{mutex_};
   loop_ = nullptr;
+  quited_ = true;
+  cond_.Notify();
 }
diff --git a/kanon/net/event_loop_thread.h b/kanon/net/event_loop_thread.h
index 33a52c5..270ed1e 100644
--- a/kanon/net/event_loop_thread.h
+++ b/kanon/net/event_loop_thread.h
@@ -35,19 +35,20 @@ class EventLoopThread : noncopyable {
   KANON_INLINE EventLoop *StartRun() { return StartRun({}); }
 
   KANON_NET_API EventLoop *StartRun(ThreadInitCallback const &init_cb);
-  KANON_NET_API EventLoop *GetLoop() KANON_NOEXCEPT { return loop_; }
-  KANON_NET_API EventLoop const *GetLoop() const KANON_NOEXCEPT
-  {
-    return loop_;
-  }
+
+  //! Get the loop, nullptr if it is not running(not start or has quited)
+  KANON_NET_API EventLoop *GetLoop() KANON_NOEXCEPT;
+  KANON_NET_API EventLoop const *GetLoop() const KANON_NOEXCEPT;
 
  private:
   // Start loop in background thread(IO thread usually)
   KANON_NET_NO_API void BackGroundStartLoop(ThreadInitCallback const &init_cb);
 
-  EventLoop *loop_;
+  EventLoop *loop_; //!< nullptr if the loop is not running
+  bool running_;    //!< Whether StartRun() has been called
+  bool quited_;     //!< Whether the loop has quited
 
-  MutexLock mutex_;
+  mutable MutexLock mutex_;
   Condition cond_ GUARDED_BY(mutex_);
 
   Thread thr_;
-- 
2.43.0


From d4591824b16a5aeb417a10da5bdf01a5d35c3931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 10/54] fix: a mutex records its holder only while it is held

---
 kanon/thread/mutex_lock.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kanon/thread/mutex_lock.h b/kanon/thread/mutex_lock.h
index 72496f8..f2bf9ed 100644
--- a/kanon/thread/mutex_lock.h
+++ b/kanon/thread/mutex_lock.h
@@ -87,6 +87,7 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 
  public:
   MutexLock()
+    : holder_{0}
   {
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_init(&mutex_, NULL));
@@ -106,12 +107,12 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 
   void Lock() ACQUIRE()
   {
-    assignHolder();
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_lock(&mutex_));
 #else
     mutex_.lock();
 #endif
+    assignHolder();
   }
 
   /**
@@ -132,18 +133,19 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 #else
     success = mutex_.try_lock();
 #endif
-    if (success) unassignHolder();
+    if (success) assignHolder();
     return success;
   }
 
   void Unlock() RELEASE()
   {
+    // The mutex maybe locked or even destroyed by others after unlock
+    unassignHolder();
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_unlock(&mutex_));
 #else
     mutex_.unlock();
 #endif
-    unassignHolder();
   }
 
   // TODO Implement this
-- 
2.43.0


From 341b6f549d40ca049de65127c93c98490b654db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 11/54] fix: waking a loop up never touches a loop that is gone

---
 kanon/net/event_loop.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index d2e07a7..7e50aba 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -209,10 +209,10 @@ void EventLoop::RunInLoop(FunctorCallback cb)
 
 void EventLoop::QueueToLoop(FunctorCallback cb)
 {
-  {
-    MutexGuard dummy(lock_);
-    functors_.emplace_back(std::move(cb));
-  }
+  // Once unlocked, the functor maybe make the loop quit and be destroyed,
+  // so Wakeup() is called with lock.
+  MutexGuard dummy(lock_);
+  functors_.emplace_back(std::move(cb));
 
   // If not in IO thread(async), and not event occurred, then block.
   // That's wrong, since it is expected to be called immediately.
@@ -297,10 +297,14 @@ void EventLoop::Wakeup() KANON_NOEXCEPT
 void EventLoop::Quit() KANON_NOEXCEPT
 {
   if (quit_) return;
-  quit_ = true;
 
   LOG_DEBUG_KANON << "EventLoop is quiting";
 
+  // The loop may be destroyed once it see quit_, but it must lock before exit
+  // StartLoop()
+  MutexGuard dummy(lock_);
+  quit_ = true;
+
   // If in the IO thread, call Wakeup() in Quit() is not necessary,
   // because it only few cases can call Quit() successfully
   // * In the loop, the only choice is timer event, but it is not blocking
-- 
2.43.0


From 91a11b1a3fcbee4423933564f7097c81e4a59aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 12/54] fix: a timer added by another thread can be cancelled
 before the loop inserts it

---
 kanon/linux/net/timer/timer_queue.cc | 22 +++++++++++++++++++++-
 kanon/linux/net/timer/timer_queue.h  |  8 ++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 5edca4e..07c636e 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -138,9 +138,24 @@ TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
   Timer *timer = new Timer(std::move(cb), time, interval);
   // The timer maybe expired and deleted by the loop after RunInLoop()
   const TimerId id(timer);
-  loop_->RunInLoop([this, timer]() {
+  const bool in_loop = loop_->IsLoopInThread();
+  if (!in_loop) {
+    MutexGuard guard{lock_};
+    adding_timers_.emplace(id.seq_);
+  }
+
+  loop_->RunInLoop([this, timer, in_loop]() {
     loop_->AssertInThread();
 
+    if (!in_loop) {
+      MutexGuard guard{lock_};
+      // Canceled by the loop thread before be added
+      if (adding_timers_.erase(timer->sequence()) == 0) {
+        delete timer;
+        return;
+      }
+    }
+
     bool earliest_update = Emplace(timer);
 
     if (earliest_update) {
@@ -158,6 +173,11 @@ void TimerQueue::CancelTimer(TimerId id)
   loop_->RunInLoop([this, id]() {
     loop_->AssertInThread();
 
+    {
+      MutexGuard guard{lock_};
+      if (adding_timers_.erase(id.seq_) > 0) return;
+    }
+
     // The timer maybe has been deleted, then timer_ can't be dereferenced
     const auto active_timer_iter = active_timers_.find(id.seq_);
     if (active_timer_iter == active_timers_.end() ||
diff --git a/kanon/linux/net/timer/timer_queue.h b/kanon/linux/net/timer/timer_queue.h
index 2264e7c..00de69a 100644
--- a/kanon/linux/net/timer/timer_queue.h
+++ b/kanon/linux/net/timer/timer_queue.h
@@ -6,6 +6,7 @@
 #include <set>
 #include <unordered_map>
 #include <unordered_set>
+#include "kanon/thread/mutex_lock.h"
 #include "kanon/util/ptr.h"
 #include "kanon/util/time_stamp.h"
 #include "kanon/net/channel.h"
@@ -185,6 +186,13 @@ class TimerQueue : public ITimerQueuePlatform {
    * round. The sequence is unique but the address of timer is not.
    */
   std::unordered_map<uint64_t, TimerPtr> active_timers_;
+
+  MutexLock lock_; //!< Protect adding_timers_
+  /**
+   * The sequences of timers that other threads are adding, i.e. the loop
+   * thread has not put them to timers_
+   */
+  std::unordered_set<uint64_t> adding_timers_ GUARDED_BY(lock_);
 };
 } // namespace kanon
 
-- 
2.43.0


From 44bd1e9a91dc39d38a9480ef50f5f9171d85bc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 13/54] fix: a connector survives being released, restarted or
 stopped while it is connecting

---
 kanon/net/connector.cc | 64 +++++++++++++++++++++++++++++++-----------
 kanon/net/connector.h  |  3 ++
 2 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index 4d5a919..6015c6a 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -30,12 +30,13 @@ Connector::~Connector() KANON_NOEXCEPT
 
 void Connector::StartRun()
 {
-  loop_->RunInLoop([this]() {
-    loop_->AssertInThread();
+  auto self = shared_from_this();
+  loop_->RunInLoop([self]() {
+    self->loop_->AssertInThread();
 
-    assert(state_ == kDisconnected);
-    if (connect_) {
-      Connect();
+    // Connect() does nothing if has been connecting or connected
+    if (self->connect_) {
+      self->Connect();
     }
   });
 }
@@ -61,7 +62,17 @@ void Connector::StopInLoop()
   LOG_TRACE_KANON << "Connector is stopping";
 
   connect_ = false;
-  if (timer_) loop_->CancelTimer(*timer_);
+  Interrupt();
+}
+
+void Connector::Interrupt()
+{
+  loop_->AssertInThread();
+
+  if (timer_) {
+    loop_->CancelTimer(*timer_);
+    timer_ = kanon::optional<TimerId>();
+  }
 
   if (state_ == State::kConnecting) {
     // Only be called when connecting,
@@ -75,22 +86,26 @@ void Connector::StopInLoop()
 
 void Connector::Restrat()
 {
-  loop_->RunInLoop([this]() {
-    connect_ = true;
+  auto self = shared_from_this();
+  loop_->RunInLoop([self]() {
+    self->connect_ = true;
+
+    // There is only one attempt at the same time
+    self->Interrupt();
 
     /*
      * Can't distinguish passive close and active close
      * e.g. Connector is destroyed and restart shouldn't be thinked to close
      *      if connection is not established.
      */
-    if (state_ != kConnected) {
+    if (self->state_ != kConnected) {
       // LOG_WARN_KANON << "Restart() must be used for reconnecting when passive
       // closed by peer";
     }
-    SetState(State::kDisconnected);
-    retry_interval_ = INIT_RETRY_INTERVAL;
+    self->SetState(State::kDisconnected);
+    self->retry_interval_ = INIT_RETRY_INTERVAL;
 
-    StartRun();
+    self->StartRun();
   });
 }
 
@@ -107,13 +122,18 @@ void Connector::Retry(FdType sockfd)
     LOG_TRACE_KANON << "Client will reconnect to " << serv_addr_.ToIpPort()
                     << " after " << delay_sec << " seconds";
 
+    // The connector maybe destroyed before the timer is expired
+    std::weak_ptr<Connector> wself = shared_from_this();
     timer_ = loop_->RunAfter(
-        [this]() {
-          StartRun();
+        [wself]() {
+          auto self = wself.lock();
+          if (self) self->StartRun();
         },
         delay_sec);
 
-    retry_interval_ *= 2;
+    // Don't overflow
+    retry_interval_ =
+        std::min<uint32_t>(retry_interval_ * 2, MAX_RETRY_INTERVAL);
   }
 }
 
@@ -129,7 +149,17 @@ void Connector::ResetChannel()
   // \warning
   // In event handle phase now if called in phase2
   // So, you can't call it immediately
-  loop_->QueueToLoop([this]() {
-    channel_.reset();
+  //
+  // The connector may be destroyed or connect again before the functor is called
+#ifdef KANON_ON_WIN
+  auto self = shared_from_this();
+  loop_->QueueToLoop([self]() {
+    self->channel_.reset();
+  });
+#else
+  std::shared_ptr<Channel> channel(std::move(channel_));
+  loop_->QueueToLoop([channel]() {
+    KANON_UNUSED(channel);
   });
+#endif
 }
diff --git a/kanon/net/connector.h b/kanon/net/connector.h
index 4f17a92..2656373 100644
--- a/kanon/net/connector.h
+++ b/kanon/net/connector.h
@@ -140,6 +140,9 @@ class KANON_NET_NO_API Connector
 
   void StopInLoop();
 
+  /** Abandon the pending retry or the attempt in progress */
+  void Interrupt();
+
   EventLoop *loop_;
   InetAddr serv_addr_;
   uint32_t retry_interval_; //!< Time interval of retry connect
-- 
2.43.0


From bd367215c9054184a5e927fdc023a87b9d9196d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 14/54] fix: a client never leaks or forgets a connection it
 does not keep

---
 kanon/net/tcp_client.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index 89a5e61..e00781d 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -110,7 +110,10 @@ void TcpClient::NewConnection(FdType sockfd, InetAddr const &serv_addr,
   /* Avoid reference cycle */
   auto cli = wcli.lock();
 
-  if (!cli || cli->conn_) return;
+  if (!cli || cli->conn_) {
+    sock::Close(sockfd);
+    return;
+  }
 
   LOG_DEBUG_KANON << "cli sc = " << cli.use_count();
 
@@ -174,6 +177,13 @@ TcpClientPtr kanon::NewTcpClient(EventLoop *loop, InetAddr const &serv_addr,
 void TcpClient::CloseConnectionHandler(std::weak_ptr<TcpClient> const &wp_cli,
                                        TcpConnectionPtr const &conn)
 {
+  // ! In event handling phase, don't remove channel(disable is allowed)
+  // ! conn must be copied(\see TcoConnection::HandleClose())
+  conn->GetLoop()->QueueToLoop([conn]() {
+    conn->ConnectionDestroyed();
+  });
+
+  // The connection may outlive the client
   auto cli = wp_cli.lock();
   if (!cli) {
     return;
@@ -191,12 +201,6 @@ void TcpClient::CloseConnectionHandler(std::weak_ptr<TcpClient> const &wp_cli,
     LOG_INFO_KANON << conn->GetName() << " has removed";
   }
 
-  // ! In event handling phase, don't remove channel(disable is allowed)
-  // ! conn must be copied(\see TcoConnection::HandleClose())
-  cli->loop_->QueueToLoop([conn]() {
-    conn->ConnectionDestroyed();
-  });
-
   // If user does not call Disconnect() and
   // support restart when passive close occurred
   if (cli->retry_) {
-- 
2.43.0


From 3673e399291ca1db805771d0d233e3d204959596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 15/54] fix: a connector started again while it waits has a
 single retry in progress

---
 kanon/net/connector.cc | 15 +++++++++++----
 kanon/net/connector.h  |  2 ++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index 6015c6a..1176185 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -36,6 +36,8 @@ void Connector::StartRun()
 
     // Connect() does nothing if has been connecting or connected
     if (self->connect_) {
+      // Otherwise, there will be multiple retries in progress
+      self->CancelRetry();
       self->Connect();
     }
   });
@@ -69,10 +71,7 @@ void Connector::Interrupt()
 {
   loop_->AssertInThread();
 
-  if (timer_) {
-    loop_->CancelTimer(*timer_);
-    timer_ = kanon::optional<TimerId>();
-  }
+  CancelRetry();
 
   if (state_ == State::kConnecting) {
     // Only be called when connecting,
@@ -84,6 +83,14 @@ void Connector::Interrupt()
   }
 }
 
+void Connector::CancelRetry()
+{
+  if (timer_) {
+    loop_->CancelTimer(*timer_);
+    timer_ = kanon::optional<TimerId>();
+  }
+}
+
 void Connector::Restrat()
 {
   auto self = shared_from_this();
diff --git a/kanon/net/connector.h b/kanon/net/connector.h
index 2656373..5972ef1 100644
--- a/kanon/net/connector.h
+++ b/kanon/net/connector.h
@@ -143,6 +143,8 @@ class KANON_NET_NO_API Connector
   /** Abandon the pending retry or the attempt in progress */
   void Interrupt();
 
+  void CancelRetry();
+
   EventLoop *loop_;
   InetAddr serv_addr_;
   uint32_t retry_interval_; //!< Time interval of retry connect
-- 
2.43.0


From 0aa472633f4ea7cb3bee7045269ba1af20a9b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 16/54] fix: a channel removed during a round gets no further
 event of that round

---
 kanon/linux/net/channel.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/linux/net/channel.cc b/kanon/linux/net/channel.cc
index 758f587..a079c07 100644
--- a/kanon/linux/net/channel.cc
+++ b/kanon/linux/net/channel.cc
@@ -46,6 +46,8 @@ void Channel::Update()
 void Channel::Remove() KANON_NOEXCEPT
 {
   loop_->RemoveChannel(this);
+  // The events of this round aren't interested also
+  revents_ = 0;
 }
 
 void Channel::HandleEvents(TimeStamp receive_time)
-- 
2.43.0


From 7a905bb61316c3022a748f6fc871d3db82a0ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 17/54] fix: a task queued while finished tasks are released
 wakes the loop up

---
 kanon/net/event_loop.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 7e50aba..a02d1d9 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -271,6 +271,8 @@ void EventLoop::CallFunctors()
     }
   }
 
+  // To release a functor may queue another one also
+  functors.clear();
   calling_functors_ = false;
 }
 
-- 
2.43.0


From afec74741bd472e237ab30d3f50b6fe1007ab1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 18/54] fix: a client's connection is closed by its last user,
 whichever thread lets go

---
 kanon/net/connection/connection_base.cc | 43 +++++++++++++++++++++----
 kanon/net/connection/connection_base.h  | 12 +++++++
 kanon/net/tcp_client.cc                 | 26 +++------------
 3 files changed, 53 insertions(+), 28 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index c332458..2cfee72 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -44,6 +44,33 @@ ConnectionBase<D>::~ConnectionBase()
   LOG_TRACE_KANON << "~ConnectionBase()";
 }
 
+template <typename D>
+typename ConnectionBase<D>::ConnectionPtr
+ConnectionBase<D>::NewHandle(ConnectionPtr conn)
+{
+  struct Closer {
+    ConnectionPtr conn;
+
+    void operator()(D *)
+    {
+      auto closing = std::move(conn);
+      closing->ForceClose();
+    }
+  };
+
+  auto raw = conn.get();
+  ConnectionPtr handle(raw, Closer{std::move(conn)});
+  raw->handle_ = handle;
+  return handle;
+}
+
+template <typename D>
+typename ConnectionBase<D>::ConnectionPtr ConnectionBase<D>::GetHandle()
+{
+  auto handle = handle_.lock();
+  return handle ? handle : this->shared_from_this();
+}
+
 template <typename D>
 void ConnectionBase<D>::ConnectionEstablished()
 {
@@ -65,7 +92,7 @@ void ConnectionBase<D>::ConnectionEstablished()
   LOG_TRACE_KANON << "Connection [" << name_ << "] is established";
 
   assert(connection_callback_);
-  connection_callback_(this->shared_from_this());
+  connection_callback_(GetHandle());
 }
 
 template <typename D>
@@ -85,7 +112,7 @@ void ConnectionBase<D>::ConnectionDestroyed()
     LOG_TRACE_KANON << "Connection [" << name_ << "] has destroyed";
     // Because ConnectionDestroyed maybe async call
     // Don't pass raw pointer
-    connection_callback_(this->shared_from_this());
+    connection_callback_(GetHandle());
   }
 
   assert(state_ == kDisconnected);
@@ -125,7 +152,7 @@ void ConnectionBase<D>::HandleLtRead(TimeStamp recv_time)
                     << ", fd: " << channel_->GetFd() << "]";
 
     if (message_callback_) {
-      message_callback_(this->shared_from_this(), input_buffer_, recv_time);
+      message_callback_(GetHandle(), input_buffer_, recv_time);
     } else {
       input_buffer_.AdvanceAll();
       LOG_WARN_KANON << "If user want to process message from peer, should set "
@@ -181,7 +208,7 @@ void ConnectionBase<D>::HandleEtRead(TimeStamp recv_time)
     // FIXME
     // message_callback_ should be called here?
     if (message_callback_) {
-      message_callback_(this->shared_from_this(), input_buffer_, recv_time);
+      message_callback_(GetHandle(), input_buffer_, recv_time);
     } else {
       input_buffer_.AdvanceAll();
       LOG_WARN_KANON << "If user want to process message from peer, should set "
@@ -266,7 +293,7 @@ void ConnectionBase<D>::HandleLtWrite()
 template <typename D>
 void ConnectionBase<D>::CallWriteCompleteCallback()
 {
-  if (write_complete_callback_(this->shared_from_this())) {
+  if (write_complete_callback_(GetHandle())) {
     LOG_TRACE_KANON << "Last chunk in the pipeline write";
     // The write_complete_callback_ maybe disable writing in the SendInLoop()
     // Also, the message sent since the completion may be still pending
@@ -351,6 +378,9 @@ void ConnectionBase<D>::HandleClose()
   // Disconnecting ==> call ForceClose()
   // Disconnected ==> closed by other way already
   if (state_ == kDisconnected) return;
+
+  // Once disconnected, other threads may release the connection immediately
+  const auto guard = this->shared_from_this();
   state_ = kDisconnected;
 
   LOG_DEBUG_KANON << "The connection [" << name_ << "] is disconnected";
@@ -362,8 +392,7 @@ void ConnectionBase<D>::HandleClose()
   // Prevent connection to be removed from TcpServer immediately(since
   // close_callback_) TcpServer::RemoveConnection need to call
   // ConnectionBase<D>::ConnectionDestroyed Therefore, we must guard here
-  const auto guard = this->shared_from_this();
-  connection_callback_(guard);
+  connection_callback_(GetHandle());
 
   // TcpServer remove connection from its connections_
   if (close_callback_) {
diff --git a/kanon/net/connection/connection_base.h b/kanon/net/connection/connection_base.h
index 4547e39..88d3f1c 100644
--- a/kanon/net/connection/connection_base.h
+++ b/kanon/net/connection/connection_base.h
@@ -210,6 +210,14 @@ class ConnectionBase
   OutputBuffer *GetOutputBuffer() KANON_NOEXCEPT { return &output_buffer_; }
   //!@}
 
+  /**
+   * \brief Create a handle of \p conn, passed to the callbacks from now on
+   *
+   * The connection is closed when the last handle of it is released, in
+   * contrast with the internal references(e.g. of the functors in the loop)
+   */
+  KANON_NET_NO_API static ConnectionPtr NewHandle(ConnectionPtr conn);
+
   void SetCloseCallback(CloseCallback cb) { close_callback_ = std::move(cb); }
 
   // When TcpServer accept a new connection in newConnectionCallback
@@ -247,6 +255,8 @@ class ConnectionBase
 
   char const *State2String() const KANON_NOEXCEPT;
 
+  ConnectionPtr GetHandle();
+
   // OVERLAPPED overlapped_;
 
   EventLoop *loop_;
@@ -306,6 +316,8 @@ class ConnectionBase
   RawAny context_;
   std::atomic<State> state_; //!< Internal useage
 
+  std::weak_ptr<D> handle_; //!< Empty if the owner don't use handle
+
   /**
    * ShutdownWrite() has been processed by the loop: the write direction is
    * closed once output_buffer_ is drained
diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index e00781d..eed396e 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -39,33 +39,16 @@ TcpClient::~TcpClient() KANON_NOEXCEPT
   LOG_TRACE_KANON << "TcpClient-[" << name_ << "]"
                   << " is destructed";
 
-  bool is_unique = false;
   TcpConnectionPtr conn;
   {
     MutexGuard guard{mutex_};
-
-    is_unique = (conn_.use_count() == 1); // not atomic
-
-    // To write or read conn_ is not thread-safe,
-    // we can copy it first, for the duplication,
-    // it is thread-safe.
-    // Because conn_ if is not released, conn also.
-    // In the following operations, it is also alive
-    // since ref count is not 0(i.e. pinned). Otherwise,
-    // conn is released. we can't access it.
-    conn = conn_;
+    conn = std::move(conn_);
   }
 
-  LOG_INFO << "is_unique: " << is_unique;
-
   // Has established new connection
+  // If it isn't hold by user, it is closed when conn is released
   if (conn) {
     assert(conn->GetLoop() == loop_);
-    // Should not use old close callback
-    // may be other thread using it
-    if (is_unique) {
-      conn->ForceClose();
-    }
   } else {
     // Disable the connector
     connector_->Stop();
@@ -80,7 +63,8 @@ void TcpClient::Disconnect()
   // FIXME use weak callback?
   MutexGuard guard{mutex_};
   if (conn_) {
-    conn_->ShutdownWrite();
+    // The connection may be not announced to user yet
+    loop_->RunInLoop(std::bind(&TcpConnection::ShutdownWrite, conn_));
   }
 }
 
@@ -134,7 +118,7 @@ void TcpClient::NewConnection(FdType sockfd, InetAddr const &serv_addr,
   // that is dangerous! we may be get a half-completed connection.
   {
     MutexGuard guard{cli->mutex_};
-    cli->conn_ = std::move(new_conn);
+    cli->conn_ = TcpConnection::NewHandle(std::move(new_conn));
   }
 
   // RemoveConnection
-- 
2.43.0


From c20ccacf9fbf6552bb9f0f0fcdf1a256581a0203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 19/54] fix: running out of resources in accept() doesn't abort
 the server

---
 kanon/linux/net/sock_api.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/kanon/linux/net/sock_api.cc b/kanon/linux/net/sock_api.cc
index 5fe07b3..de079a6 100644
--- a/kanon/linux/net/sock_api.cc
+++ b/kanon/linux/net/sock_api.cc
@@ -47,28 +47,38 @@ FdType sock::Accept(FdType fd, sockaddr_in6 *addr) KANON_NOEXCEPT
       ::accept4(fd, sock::to_sockaddr(addr), &socklen, O_NONBLOCK | O_CLOEXEC);
 #endif
   if (cli_sock < 0) {
+    const int saved_errno = errno;
     switch (errno) {
       case EAGAIN: // In linux, EAGAIN = EWOULDBLOCK
       case ECONNABORTED:
       case EINTR:
       case EMFILE: // per-process limit on the number of open fd has been
                    // reached
+      case ENFILE: // system-wide limit
+      case ENOBUFS:
+      case ENOMEM:
+      case EPROTO: // Already-pending network errors of the new socket
+      case EPERM:
+      case ENETDOWN:
+      case ENETUNREACH:
+      case EHOSTDOWN:
+      case EHOSTUNREACH:
+      case ENONET:
+      case ENOPROTOOPT:
         LOG_SYSERROR_KANON << "accept() expected error occurred";
         break;
       case EFAULT:
       case EINVAL:
-      case ENFILE:
       case ENOTSOCK:
       case EOPNOTSUPP:
-      case EPROTO:
-      case ENOBUFS:
-      case ENOMEM:
         LOG_SYSFATAL << "accept() unexpected error occurred";
         break;
       default:
         LOG_SYSFATAL << "accept() unknown error occurred";
         break;
     }
+    // The caller checks it, logging may have changed it
+    errno = saved_errno;
   }
   return cli_sock;
 }
-- 
2.43.0


From f28963cb4d5cbb1d64b8096c575f1ef8f4341850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 20/54] fix: an acceptor takes every waiting client in edge
 trigger mode

---
 kanon/net/acceptor.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/kanon/net/acceptor.cc b/kanon/net/acceptor.cc
index 7aa0192..7a3f4ab 100644
--- a/kanon/net/acceptor.cc
+++ b/kanon/net/acceptor.cc
@@ -22,8 +22,8 @@ Acceptor::Acceptor(EventLoop *loop, InetAddr const &addr, bool reuseport)
 
   // set listen channel read callback(accept peer end)
   // and start observing the read event
-  channel_.SetReadCallback([this](TimeStamp stamp) {
-    KANON_UNUSED(stamp);
+  // Return false if there are no more clients(or can't accept them now)
+  auto accept_next = [this]() -> bool {
     loop_->AssertInThread();
 
     InetAddr cli_addr;
@@ -36,6 +36,7 @@ Acceptor::Acceptor(EventLoop *loop, InetAddr const &addr, bool reuseport)
       } else {
         sock::Close(cli_fd);
       }
+      return true;
     } else {
       // if process limited open fd has reached,
       // os also accept this fd and put to wait queue
@@ -48,14 +49,27 @@ Acceptor::Acceptor(EventLoop *loop, InetAddr const &addr, bool reuseport)
         ::close(dummyfd_);
         // accept the fd
         dummyfd_ = ::accept(socket_.GetFd(), NULL, NULL);
+        const bool accepted = dummyfd_ >= 0;
+        if (accepted)
         ::close(dummyfd_);
         // create new dummy fd to use after
         dummyfd_ = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
+        return accepted;
 #endif
       }
 
       // We don't handle error since sock::Accept() has handled
+      return errno != EAGAIN && errno != ENFILE && errno != ENOBUFS &&
+             errno != ENOMEM;
     }
+  };
+
+  channel_.SetReadCallback([this, accept_next](TimeStamp stamp) {
+    KANON_UNUSED(stamp);
+
+    // In edge trigger mode, all clients waiting must be accepted at once
+    while (accept_next() && loop_->IsEdgeTriggerMode())
+      ;
   });
 
   // Can't call Channel::EnableReading() in the ctor
-- 
2.43.0


From 83d7851172cd60259a1017721a878f29ed4b9793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 21/54] fix: a server destroyed while connections end waits for
 its loops

---
 kanon/net/tcp_server.cc | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 6324dfc..1bebba3 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -141,7 +141,8 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
                             << connections_.size();
           }
 
-          assert(n == 1);
+          // The server is being destroyed, it calls the ConnectionDestroyed()
+          if (n == 0) return;
 
           // !Must call QueueToLoop() here,
           // we can't destroy the channel_ in the handling events phase,
@@ -172,8 +173,14 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
 
 TcpServer::~TcpServer() KANON_NOEXCEPT
 {
-  //
-  for (auto &conn_pair : connections_) {
+  // The connections in the other loops may be closing
+  ConnectionMap connections;
+  {
+    MutexGuard guard(lock_conn_);
+    connections.swap(connections_);
+  }
+
+  for (auto &conn_pair : connections) {
     auto conn = conn_pair.second;
     conn_pair.second.reset();
 
@@ -182,6 +189,9 @@ TcpServer::~TcpServer() KANON_NOEXCEPT
       conn->ConnectionDestroyed();
     });
   }
+
+  // The callbacks use the server until the loops quit
+  pool_.reset();
 }
 
 void TcpServer::SetLoopNum(int num) KANON_NOEXCEPT { pool_->SetLoopNum(num); }
@@ -193,7 +203,7 @@ void TcpServer::StartRun() KANON_NOEXCEPT
   // If the other thread also call this function,
   // may be call this more than once.
   // EventLoopPool::StartRun() can only be called once
-  if (!start_once_) {
+  if (!start_once_.exchange(true)) {
     // start IO loop
     loop_->RunInLoop([this]() {
       // Boot the loop pool in the binded loop
@@ -213,7 +223,6 @@ void TcpServer::StartRun() KANON_NOEXCEPT
       pool_->StartRun(init_cb_);
       LOG_INFO_KANON << name_ << " is listening in " << ip_port_;
       acceptor_->Listen();
-      start_once_ = true;
     });
   }
 }
@@ -222,8 +231,14 @@ bool TcpServer::IsRunning() KANON_NOEXCEPT { return acceptor_->Listening(); }
 
 void TcpServer::ApplyAllPeers(ConnApplyCb cb)
 {
-  MutexGuard gaurd(lock_conn_);
-  for (auto &name_conn : connections_) {
+  // The callback may close the connection(i.e. erase it)
+  ConnectionMap connections;
+  {
+    MutexGuard gaurd(lock_conn_);
+    connections = connections_;
+  }
+
+  for (auto &name_conn : connections) {
     cb(name_conn.second);
   }
 }
-- 
2.43.0


From c9ecd1edbade87258ac78b8352fe6429e4e23e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 22/54] fix: the connection pool of a server is shared with its
 loops safely

---
 kanon/net/tcp_server.cc | 43 +++++++++++++++++++++++++++++++++++++----
 kanon/net/tcp_server.h  | 15 ++++++++++++--
 2 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 1bebba3..1a08698 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -18,6 +18,41 @@ using namespace kanon;
 
 static EventLoop *g_loop = nullptr;
 
+template <typename T>
+struct TcpServer::ConnAllocator {
+  using value_type = T;
+
+  template <typename U>
+  struct rebind {
+    using other = ConnAllocator<U>;
+  };
+
+  explicit ConnAllocator(std::shared_ptr<ConnPool> p)
+    : pool(std::move(p))
+  {
+  }
+
+  template <typename U>
+  ConnAllocator(ConnAllocator<U> const &rhs)
+    : pool(rhs.pool)
+  {
+  }
+
+  T *allocate(size_t n)
+  {
+    MutexGuard guard(pool->lock);
+    return ObjectPoolAllocator<T>(pool->chunks).allocate(n);
+  }
+
+  void deallocate(T *p, size_t n) KANON_NOEXCEPT
+  {
+    MutexGuard guard(pool->lock);
+    ObjectPoolAllocator<T>(pool->chunks).deallocate(p, n);
+  }
+
+  std::shared_ptr<ConnPool> pool;
+};
+
 KANON_INLINE void SignalHandler(int signo, int expected,
                                 char const *msg) KANON_NOEXCEPT
 {
@@ -68,7 +103,7 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
                                             static_cast<char const *>(name))}
   , start_once_{false}
   , enable_pool_{false}
-  , conn_pool_{10}
+  , conn_pool_{std::make_shared<ConnPool>(10)}
 {
   g_loop = loop_;
   ::signal(SIGINT, &SigIntHandler);
@@ -105,9 +140,9 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
       conn = TcpConnection::NewTcpConnection(io_loop, conn_name, cli_sock, local_addr, cli_addr);  
     }
 #else
-        LOG_TRACE_KANON << "Pool block num = " << conn_pool_.GetBlockNum();
+        LOG_TRACE_KANON << "Pool block num = " << conn_pool_->chunks.GetBlockNum();
         LOG_TRACE_KANON << "Pool usage = "
-                        << conn_pool_.GetUsage(sizeof(TcpConnection));
+                        << conn_pool_->chunks.GetUsage(sizeof(TcpConnection));
         LOG_TRACE_KANON << "The number of alive connections: "
                         << connections_.size();
 
@@ -115,7 +150,7 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
             enable_pool_
                 ? TcpConnection::NewTcpConnection(
                       io_loop, conn_name, cli_sock, local_addr, cli_addr,
-                      ObjectPoolAllocator<void>(conn_pool_))
+                      ConnAllocator<TcpConnection>(conn_pool_))
                 : TcpConnection::NewTcpConnection(io_loop, conn_name, cli_sock,
                                                   local_addr, cli_addr);
 #endif
diff --git a/kanon/net/tcp_server.h b/kanon/net/tcp_server.h
index 08704b8..c5c77c1 100644
--- a/kanon/net/tcp_server.h
+++ b/kanon/net/tcp_server.h
@@ -123,7 +123,7 @@ class TcpServer : noncopyable {
 
   void SetChunkPerBlock(size_t n) KANON_NOEXCEPT
   {
-    conn_pool_.SetChunkPerBlock(n);
+    conn_pool_->chunks.SetChunkPerBlock(n);
   }
 
   //!@}
@@ -230,7 +230,18 @@ class TcpServer : noncopyable {
    * Fixed chunk memory pool.
    * The chunk size is sizeof(TcpConnection).
    */
-  FixedChunkMemoryPool conn_pool_;
+  struct ConnPool {
+    MutexLock lock;
+    FixedChunkMemoryPool chunks;
+
+    explicit ConnPool(size_t n) : lock(), chunks(n) {}
+  };
+
+  template <typename T>
+  struct ConnAllocator;
+
+  /** The connections are released in their loops, maybe after the server */
+  std::shared_ptr<ConnPool> conn_pool_;
 };
 
 //!@}
-- 
2.43.0


From 79d6af7dbd8255401059b721508becdfdc554f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 23/54] fix: Buffer::Shrink keeps the readable bytes; reserving
 after a prepend

---
 kanon/buffer/buffer.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kanon/buffer/buffer.cc b/kanon/buffer/buffer.cc
index 3d24d36..e3d23f0 100644
--- a/kanon/buffer/buffer.cc
+++ b/kanon/buffer/buffer.cc
@@ -19,9 +19,14 @@ void Buffer::Shrink(size_type n)
   // tmp.ReserveWriteSpace(GetReadableSize() + n);
   // tmp.Append(ToStringView());
   // swap(tmp);
-  if (read_index_ != BUFFER_PREFIX_SIZE) {
+  // (If there is a prepended header, the readable region can't move backward)
+  if (read_index_ > BUFFER_PREFIX_SIZE) {
+    auto readable = GetReadableSize();
+
     std::copy(offset(read_index_), offset(write_index_),
               offset(BUFFER_PREFIX_SIZE));
+    read_index_ = BUFFER_PREFIX_SIZE;
+    write_index_ = read_index_ + readable;
   }
 
 #ifndef NDEBUG
@@ -30,7 +35,7 @@ void Buffer::Shrink(size_type n)
   }
 #endif
 
-  data_.Shrink(GetReadableSize() + n);
+  data_.Shrink(write_index_ + n);
 }
 
 void Buffer::ReserveWriteSpace(size_type len) KANON_NOEXCEPT
@@ -52,7 +57,8 @@ void Buffer::ReserveWriteSpace(size_type len) KANON_NOEXCEPT
   // | | |                        |
   // +-+-+------------------------+
   //
-  if (len > GetPrependableSize() - BUFFER_PREFIX_SIZE + GetWritableSize()) {
+  // (The prependable size is less than prefix size if header has prepended)
+  if (len + BUFFER_PREFIX_SIZE > GetPrependableSize() + GetWritableSize()) {
     // FIXME Need copy [readable region] to the BUFFER_PREFIX_SIZE?
 #if 0
     size_t at_least_size = write_index_ + len;
-- 
2.43.0


From 72ca32b3c35df432a7f933372a779bc099f41537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 24/54] fix: ReservedArray destroys the elements it moved from
 or drops

---
 kanon/algo/reserved_array.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/kanon/algo/reserved_array.h b/kanon/algo/reserved_array.h
index 9d5a9b5..c21084d 100644
--- a/kanon/algo/reserved_array.h
+++ b/kanon/algo/reserved_array.h
@@ -272,6 +272,7 @@ class ReservedArray : protected Alloc {
       throw;
     }
 
+    zstl::DestroyRange(data_, end_);
     AllocTraits::deallocate(*this, data_, GetSize());
     data_ = new_data;
     end_ = new_end;
@@ -316,7 +317,7 @@ class ReservedArray : protected Alloc {
       throw;
     }
 
-    for (auto beg = data_ + n; beg != end_; ++beg) {
+    for (auto beg = data_; beg != end_; ++beg) {
       AllocTraits::destroy(*this, beg);
     }
 
@@ -351,8 +352,21 @@ class ReservedArray : protected Alloc {
   template <typename U, typename = zstl::enable_if_t<cond<U>::value>>
   void CopyAssignmentForSizeNotEqual(ReservedArray const &other)
   {
+    // The elements that are left over must be destroyed before their storage
+    // is given back
+    if (other.size() < size()) {
+      zstl::DestroyRange(data_ + other.size(), end_);
+      end_ = data_ + other.size();
+    }
+
     auto tmp = this->reallocate(data_, other.size());
 
+    // realloc(p, 0) just free p
+    if (tmp == NULL && other.empty()) {
+      data_ = end_ = nullptr;
+      return;
+    }
+
     if (tmp == NULL) {
       throw std::bad_alloc{};
     }
@@ -363,7 +377,6 @@ class ReservedArray : protected Alloc {
                               tmp + size());
     } else {
       std::copy(other.begin(), other.end(), tmp);
-      zstl::DestroyRange(tmp + other.size(), tmp + size());
     }
 
     data_ = tmp;
-- 
2.43.0


From b72ca683e84df249819fa29b655a1deeb778da6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 25/54] fix: FixedVector of non-trivial elements compiles
 (construct through addressof)

---
 kanon/algo/construct.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/algo/construct.h b/kanon/algo/construct.h
index e2f3385..13233c4 100644
--- a/kanon/algo/construct.h
+++ b/kanon/algo/construct.h
@@ -1,6 +1,7 @@
 #ifndef KANON_ALGO_CONSTRUCT_H
 #define KANON_ALGO_CONSTRUCT_H
 
+#include <memory>      // std::addressof
 #include <utility>     // std::forward
 #include <type_traits> // std::is_trivially_destructible
 #include <iterator>    // std::iterator_traits
@@ -48,7 +49,7 @@ template <typename FI>
 KANON_INLINE void destroyRange(FI first, FI last, std::false_type)
 {
   for (; first != last; ++first) {
-    destroy(addressof(*first));
+    destroy(std::addressof(*first));
   }
 }
 
-- 
2.43.0


From abb0ece76670954f653093daf5f16e3fd3ba9014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 26/54] fix: FixedChunkMemoryPool::Shrink frees exactly the
 free blocks

---
 kanon/mem/fixed_chunk_memory_pool.cc | 59 +++++++++++++++++++---------
 kanon/mem/fixed_chunk_memory_pool.h  |  3 ++
 2 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/kanon/mem/fixed_chunk_memory_pool.cc b/kanon/mem/fixed_chunk_memory_pool.cc
index 17c6f83..05f173b 100644
--- a/kanon/mem/fixed_chunk_memory_pool.cc
+++ b/kanon/mem/fixed_chunk_memory_pool.cc
@@ -10,7 +10,7 @@ using namespace kanon;
 // #define ROUNDUP8(x) (((((x) - 1) >> 3) + 1) << 3)
 
 #define CHUNK_NEXT_OFFSET (offsetof(Chunk, next))
-#define BLOCK_SPACE(sz) (sizeof(Block) + (CHUNK_NEXT_OFFSET + sz) * chunk_per_block_)
+#define BLOCK_SPACE(sz, n) (sizeof(Block) + (CHUNK_NEXT_OFFSET + sz) * (n))
 #define ALIGN_SIZE(sz) ((sz < chunk_next_space) ? chunk_next_space : sz)
 #define CHECK_ALIGNED(sz) (sz >= 8)
 
@@ -73,29 +73,51 @@ void FixedChunkMemoryPool::Shrink(size_t sz)
   sz = ALIGN_SIZE(sz);
   /* Check the block whether it can be freed */
   Block *tmp_next = nullptr;
+  Block *free_blocks = nullptr;
+
+  /* First, take the free blocks out of the chain */
+  for (auto block_iter = &block_chain_; *block_iter != nullptr; ) {
+    auto block = *block_iter;
+    if (!IsBlockFree(block, sz)) {
+      block_iter = &block->next;
+      continue;
+    }
 
-  /* First, Check the block header whether can free */
-  while (IsBlockFree(block_chain_, sz)) {
-    tmp_next = block_chain_->next;
-    free(block_chain_);
-    block_chain_ = tmp_next;
+    *block_iter = block->next;
     block_count_--;
+
+    block->next = free_blocks;
+    free_blocks = block;
+    auto chunk = reinterpret_cast<char*>(block) + sizeof(Block);
+    for (size_t i = 0; i < block->chunk_num; ++i) {
+      reinterpret_cast<Chunk*>(chunk)->status = RELEASED;
+      chunk += CHUNK_NEXT_OFFSET + sz;
+    }
   }
-  
-  /* The first block is allocated, we can redirect the next don't care it */
-  for (auto block_iter = block_chain_; block_iter->next != nullptr; block_iter = block_iter->next) {
-    tmp_next = block_iter->next;
-    if (IsBlockFree(tmp_next, sz)) {
-      block_iter->next = tmp_next->next;
-      free(tmp_next);
-      block_count_--;
+
+  /* Their chunks must not be allocated any more */
+  for (auto chunk_iter = &free_chunk_header_; *chunk_iter != nullptr; ) {
+    if ((*chunk_iter)->status == RELEASED) {
+      *chunk_iter = (*chunk_iter)->next;
+    } else {
+      chunk_iter = &(*chunk_iter)->next;
     }
   }
+
+  while (free_blocks) {
+    tmp_next = free_blocks->next;
+    free(free_blocks);
+    free_blocks = tmp_next;
+  }
 }
 
 size_t FixedChunkMemoryPool::GetUsage(size_t sz) const KANON_NOEXCEPT
 {
-  return BLOCK_SPACE(ALIGN_SIZE(sz)) * block_count_;
+  size_t ret = 0;
+  for (auto block_iter = block_chain_; block_iter != nullptr; block_iter = block_iter->next) {
+    ret += BLOCK_SPACE(ALIGN_SIZE(sz), block_iter->chunk_num);
+  }
+  return ret;
 }
 
 size_t FixedChunkMemoryPool::GetFreeChunkNum(size_t sz) const KANON_NOEXCEPT
@@ -112,11 +134,12 @@ size_t FixedChunkMemoryPool::GetFreeChunkNum(size_t sz) const KANON_NOEXCEPT
 auto FixedChunkMemoryPool::AllocBlock(size_t sz) -> Chunk*
 {
   assert(CHECK_ALIGNED(sz));
-  auto header = reinterpret_cast<Block*>(malloc(BLOCK_SPACE(sz)));
+  auto header = reinterpret_cast<Block*>(malloc(BLOCK_SPACE(sz, chunk_per_block_)));
   if (!header) return nullptr;
   
   /* Link the block */
   header->next = block_chain_;
+  header->chunk_num = chunk_per_block_;
   block_chain_ = header;
 
   free_chunk_header_ = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(header)+sizeof(Block));
@@ -142,7 +165,7 @@ bool FixedChunkMemoryPool::IsBlockFree(Block *block, size_t sz)
 #else
   assert(CHECK_ALIGNED(sz));
   auto chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(block) + sizeof(Block));
-  for (size_t i = 0; i < chunk_per_block_; ++i) {
+  for (size_t i = 0; i < block->chunk_num; ++i) {
     if (chunk_iter->status == ALLOCATED)
       return false;
     chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(chunk_iter) + CHUNK_NEXT_OFFSET + sz);
@@ -156,7 +179,7 @@ size_t FixedChunkMemoryPool::GetFreeChunkNumInBlock(Block *block, size_t sz) con
   assert(CHECK_ALIGNED(sz));
   auto chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(block) + sizeof(Block));
   size_t ret = 0;
-  for (size_t i = 0; i < chunk_per_block_; ++i) {
+  for (size_t i = 0; i < block->chunk_num; ++i) {
     if (chunk_iter->status == FREE)
       ret++;
     chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(chunk_iter) + CHUNK_NEXT_OFFSET + sz);
diff --git a/kanon/mem/fixed_chunk_memory_pool.h b/kanon/mem/fixed_chunk_memory_pool.h
index c389d66..038a4ae 100644
--- a/kanon/mem/fixed_chunk_memory_pool.h
+++ b/kanon/mem/fixed_chunk_memory_pool.h
@@ -39,6 +39,7 @@ class FixedChunkMemoryPool {
   enum ChunkStatus : size_t {
     ALLOCATED = 0,
     FREE,
+    RELEASED, /* In a block that is being freed */
   };
 
   struct Chunk {
@@ -48,6 +49,8 @@ class FixedChunkMemoryPool {
 
   struct Block {
     Block *next;
+    size_t chunk_num; /* chunk_per_block_ may change later */
+    size_t padding;   /* Keep the first chunk aligned */
   };
 
   static KANON_CORE_NO_API constexpr size_t chunk_next_space =
-- 
2.43.0


From 5ba63c2d25d0390204b239c6457a12c0323b581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 27/54] fix: LinearFixedMemoryPool::Reserve keeps allocated
 objects in place

---
 kanon/mem/linear_fixed_memory_pool.h | 44 +++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/kanon/mem/linear_fixed_memory_pool.h b/kanon/mem/linear_fixed_memory_pool.h
index f7c0f85..603b8ac 100644
--- a/kanon/mem/linear_fixed_memory_pool.h
+++ b/kanon/mem/linear_fixed_memory_pool.h
@@ -6,7 +6,8 @@
 
 #include <stdexcept>
 #include <unordered_set>
-// #include <vector>
+#include <utility>
+#include <vector>
 
 namespace kanon {
 
@@ -22,6 +23,7 @@ class LinearFixedMemoryPool {
  public:
   explicit LinearFixedMemoryPool(size_t size)
     : pool_(static_cast<T*>(malloc(size * BLOCK_SIZE)))
+    , pool_size_(size)
     , size_(size)
   {
     if (pool_ == nullptr) {
@@ -29,12 +31,14 @@ class LinearFixedMemoryPool {
     }
 
     for (size_t i = 0; i < size; ++i)
-      free_hset_.insert(i);
+      free_hset_.insert(pool_ + i);
   }
   
   ~LinearFixedMemoryPool() KANON_NOEXCEPT
   {
     free(pool_);
+    for (auto &extension : extensions_)
+      free(extension.first);
     size_ = 0;
   }
 
@@ -50,17 +54,24 @@ class LinearFixedMemoryPool {
     if (free_hset_.empty()) return (T*)malloc(BLOCK_SIZE);
     auto ret = *free_hset_.begin();
     free_hset_.erase(free_hset_.begin());
-    return pool_+ret;
+    return ret;
   }
   
   void Reserve(size_t sz)
   {
     if (size_ >= sz) return;
 
-    pool_ = static_cast<T*>(reallocarray(pool_, sz, BLOCK_SIZE));
+    // The allocated objects must not be moved
+    const auto n = sz - size_;
+    extensions_.reserve(extensions_.size() + 1);
+    auto extension = static_cast<T*>(malloc(n * BLOCK_SIZE));
+    if (extension == nullptr) {
+      throw std::bad_alloc{};
+    }
+    extensions_.emplace_back(extension, n);
 
-    for (size_t i = size_; i < sz; ++i) {
-      free_hset_.insert(i);
+    for (size_t i = 0; i < n; ++i) {
+      free_hset_.insert(extension + i);
     }
     size_ = sz;
   }
@@ -69,18 +80,29 @@ class LinearFixedMemoryPool {
   {
     // assert(CHECK_BIT(*((char*)ptr-1), 0));
     // RESET_BIT(*((char*)ptr-1), 0);
-    if (ptr >= pool_ && ptr < pool_ + size_) {
-      free_hset_.insert(ptr-pool_);
-    } else {
-      free(ptr);
+    if (ptr >= pool_ && ptr < pool_ + pool_size_) {
+      free_hset_.insert(ptr);
+      return;
     }
+
+    for (auto const &extension : extensions_) {
+      if (ptr >= extension.first && ptr < extension.first + extension.second) {
+        free_hset_.insert(ptr);
+        return;
+      }
+    }
+
+    free(ptr);
   }
   
   size_t size() const KANON_NOEXCEPT { return size_; }
   size_t freesize() const KANON_NOEXCEPT { return free_hset_.size(); }
  private:
   T *pool_;
-  std::unordered_set<size_t> free_hset_;
+  size_t pool_size_;
+  // The spaces that are added by Reserve()
+  std::vector<std::pair<T*, size_t>> extensions_;
+  std::unordered_set<T*> free_hset_;
   size_t size_;
 };
 
-- 
2.43.0


From da77a1b1beec3434fc3306e428cfb9808f5787e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 28/54] fix: ForwardList range splice at its own position is a
 no-op

---
 kanon/algo/forward_list/forward_list_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index a88f1db..9cc08c1 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -335,6 +335,9 @@ void FORWARD_LIST_TEMPLATE::splice_after(ConstIterator pos, Self &list,
                                          ConstIterator first,
                                          ConstIterator last)
 {
+  // The elements are in the position already
+  if (pos == first) return;
+
   // (first, last)
   while (first.next() != last) {
     insert_after(pos, list.extract_after(first));
-- 
2.43.0


From 71e348f7329539be45df02eb593b180f18d7d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 29/54] fix: MutexLock::AssertLocked aborts only when the mutex
 is not held

---
 kanon/thread/mutex_lock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/thread/mutex_lock.h b/kanon/thread/mutex_lock.h
index f2bf9ed..87314b5 100644
--- a/kanon/thread/mutex_lock.h
+++ b/kanon/thread/mutex_lock.h
@@ -103,7 +103,7 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 
   bool IsLockedInThisThread() { return holder_ == CurrentThread::tid(); }
 
-  void AssertLocked() { ASSERT(IsLockedInThisThread()); }
+  void AssertLocked() { ASSERT(IsLockedInThisThread() ? 0 : EPERM); }
 
   void Lock() ACQUIRE()
   {
-- 
2.43.0


From 5da5abfd4ec7cb650534c9640b08bdc4b90db3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 30/54] fix: CountDownLatch waits until the count reaches zero
 and every decrease wakes the waiters

---
 kanon/thread/count_down_latch.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/kanon/thread/count_down_latch.h b/kanon/thread/count_down_latch.h
index 6d26b77..4c27780 100644
--- a/kanon/thread/count_down_latch.h
+++ b/kanon/thread/count_down_latch.h
@@ -30,13 +30,15 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ = count;
+    if (count_ <= 0) cond_.NotifyAll();
   }
 
   void ResetAndWait(int count) KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     count_ = count;
-    if (count_ > 0) cond_.Wait();
+    if (count_ <= 0) cond_.NotifyAll();
+    while (count_ > 0) cond_.Wait();
   }
 
   void Add(int count) KANON_NOEXCEPT
@@ -49,7 +51,7 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ += count;
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0) cond_.Wait();
   }
 
   void Incr() KANON_NOEXCEPT
@@ -62,19 +64,21 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     ++count_;
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0) cond_.Wait();
   }
 
   KANON_DEPRECATED_ATTR void Minus(int count) KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     count_ -= count;
+    if (count_ <= 0) cond_.NotifyAll();
   }
 
   KANON_DEPRECATED_ATTR void Decr() KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     --count_;
+    if (count_ <= 0) cond_.NotifyAll();
   }
 
   int GetCount() const KANON_NOEXCEPT
@@ -86,14 +90,14 @@ class CountDownLatch : noncopyable {
   void Wait()
   {
     MutexGuard guard(mutex_);
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0) cond_.Wait();
   }
 
   void Countdown() KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     --count_;
-    if (count_ == 0) {
+    if (count_ <= 0) {
       cond_.NotifyAll();
     }
   }
-- 
2.43.0


From a32966cee3b020637d7ec649b1e7d1725fedb6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 31/54] fix: ThreadPool workers run tasks until the pool is
 destroyed

---
 kanon/thread/thread_pool.cc | 21 ++++++++++++++++++---
 kanon/thread/thread_pool.h  | 10 ++++++++++
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/kanon/thread/thread_pool.cc b/kanon/thread/thread_pool.cc
index 556529e..4572d3d 100644
--- a/kanon/thread/thread_pool.cc
+++ b/kanon/thread/thread_pool.cc
@@ -10,10 +10,18 @@ ThreadPool::ThreadPool(int max_queue_size,
   , not_full_{ mutex_ }
   , not_empty_{ mutex_ }
   , max_queue_size_{ max_queue_size }
+  , quit_{ false }
   , name_{ name }
 { }
 
 ThreadPool::~ThreadPool() KANON_NOEXCEPT {
+  {
+    MutexGuard guard{ mutex_ };
+    quit_ = true;
+    not_empty_.NotifyAll();
+    not_full_.NotifyAll();
+  }
+
   for (auto& thr : threads_) {
     thr->Join();
   }
@@ -24,9 +32,11 @@ void ThreadPool::StartRun(int thread_num) {
 
   for (int i = 0; i != thread_num; ++i) {
     auto up_thr = kanon::make_unique<Thread>([this]() {
-      auto task = Pop();
+      for (;;) {
+        auto task = Pop();
+
+        if (!task) break;
 
-      if (task) {
         // Exception is handled by Thread
         task();
       }
@@ -39,9 +49,13 @@ void ThreadPool::StartRun(int thread_num) {
 }
 
 void ThreadPool::Push(Task task) {
+  // Empty task indicates the end of worker
+  if (!task) return;
+
   MutexGuard guard{ mutex_ };
 
-  while (static_cast<int>(tasks_.size()) == max_queue_size_) {
+  while (static_cast<int>(tasks_.size()) >= max_queue_size_) {
+    if (quit_) return;
     not_full_.Wait();
   }
 
@@ -54,6 +68,7 @@ auto ThreadPool::Pop() -> Task
   MutexGuard guard{ mutex_ };
 
   while (tasks_.size() == 0) {
+    if (quit_) return Task();
     not_empty_.Wait();
   }
 
diff --git a/kanon/thread/thread_pool.h b/kanon/thread/thread_pool.h
index 6a85d64..a4829cc 100644
--- a/kanon/thread/thread_pool.h
+++ b/kanon/thread/thread_pool.h
@@ -30,6 +30,8 @@ class ThreadPool : noncopyable {
 
   /**
    * \brief join all thread to reclaim their resource
+   * \note
+   *   The tasks accepted before are finished first.
    */
   KANON_CORE_API ~ThreadPool() KANON_NOEXCEPT;
 
@@ -41,18 +43,25 @@ class ThreadPool : noncopyable {
 
   /**
    * \brief push task to task queue and then notify Pop() to consume it
+   * \note
+   *   Wait while the queue is full.
+   *   The task is discarded if the queue is full when the pool is destroying
    */
   KANON_CORE_API void Push(Task task);
 
   void SetMaxQueueSize(int num) KANON_NOEXCEPT
   {
+    MutexGuard guard{mutex_};
     if (num > 0) max_queue_size_ = num;
+    not_full_.NotifyAll();
   }
 
  private:
   /**
    * \brief pop the task from queue, and notify Push() to produce which can
    * produce more task
+   * \return
+   *   empty task indicates the pool is destroying and no task remains
    */
   Task Pop();
 
@@ -61,6 +70,7 @@ class ThreadPool : noncopyable {
   Condition not_empty_ GUARDED_BY(mutex_);
 
   int max_queue_size_;
+  bool quit_;
 
   std::vector<std::unique_ptr<kanon::Thread>> threads_;
   std::queue<Task> tasks_;
-- 
2.43.0


From 5f93e55939eff6d5437698139bd949faeef75a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 32/54] fix: LengthHeaderCodec hands out one whole message per
 callback

---
 example/length_codec/codec.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/example/length_codec/codec.cc b/example/length_codec/codec.cc
index 4d99216..aa0fa1e 100644
--- a/example/length_codec/codec.cc
+++ b/example/length_codec/codec.cc
@@ -32,7 +32,7 @@ void LengthHeaderCodec::Send(TcpConnectionPtr const& conn, OutputBuffer& buffer)
 
   LOG_DEBUG << "length = " << len;
   buffer.Prepend32(len);
-  assert(buffer.Read32() == len);
+  assert(buffer.GetReadBegin32() == len);
   conn->Send(buffer);
 }
 
@@ -54,10 +54,15 @@ void LengthHeaderCodec::OnMessage(TcpConnectionPtr const& conn,
       conn->ShutdownWrite();
       break; 
       
-    } else if (buf.GetReadableSize() >= (kHeaderLength + message_len)) {
+    } else if (buf.GetReadableSize() - kHeaderLength >= message_len) {
       buf.AdvanceRead(kHeaderLength);
 
-      message_callback_(conn, buf, receive_time);
+      // The following messages may be in the buf already
+      Buffer message;
+      message.Append(buf.GetReadBegin(), message_len);
+      buf.AdvanceRead(message_len);
+
+      message_callback_(conn, message, receive_time);
     } else {
       // if not a complete packet, just exit loop.
       LOG_DEBUG << "Not a complete message";
-- 
2.43.0


From b3904726918f44a1491e652418d0e61d0b27a777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:03 +0000
Subject: [PATCH 33/54] fix: LengthHeaderCodec hands out no message after the
 connection is down

---
 example/length_codec/codec.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/example/length_codec/codec.cc b/example/length_codec/codec.cc
index aa0fa1e..c135ca1 100644
--- a/example/length_codec/codec.cc
+++ b/example/length_codec/codec.cc
@@ -63,6 +63,9 @@ void LengthHeaderCodec::OnMessage(TcpConnectionPtr const& conn,
       buf.AdvanceRead(message_len);
 
       message_callback_(conn, message, receive_time);
+
+      // The callback may have closed the connection
+      if (conn->IsDisconnected()) break;
     } else {
       // if not a complete packet, just exit loop.
       LOG_DEBUG << "Not a complete message";
-- 
2.43.0


From b3f484dcb06c06a3af4da81b9ab8bdb6f71f2600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 34/54] fix: AsyncLog::Stop writes what was appended before it
 and cannot be missed

---
 kanon/log/async_log.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/kanon/log/async_log.cc b/kanon/log/async_log.cc
index 89e1e0f..297aa30 100644
--- a/kanon/log/async_log.cc
+++ b/kanon/log/async_log.cc
@@ -65,7 +65,8 @@ void AsyncLog::StartRun()
                      roll_interval_, flush_interval_);
 
     // back thread do long loop
-    while (running_) {
+    bool running = true;
+    while (running) {
       assert(buffer1 && buffer1->len() == 0);
       assert(buffer2 && buffer2->len() == 0);
       assert(buffers_dup_.empty());
@@ -80,7 +81,7 @@ void AsyncLog::StartRun()
         // \note
         //   This is not a classic use,
         //   but there is one cosumer, use if here is safe
-        if (buffers_.empty()) {
+        if (running_ && buffers_.empty()) {
           // If front thread log message is so short,
           // we also awake and write
           // To ensure real time message
@@ -88,6 +89,10 @@ void AsyncLog::StartRun()
           // not_empty_.Wait();
         }
 
+        // The messages appended before Stop() are in the buffers taken now,
+        // so this is the last round if it is called.
+        running = running_;
+
         // Although current_buffer_ have space to fill
         // we also push it to buffers_
         buffers_.emplace_back(std::move(current_buffer_));
@@ -152,8 +157,11 @@ void AsyncLog::Stop() KANON_NOEXCEPT
 {
   assert(running_);
 
+  // The back thread must not miss it between checking and waiting
+  mutex_.Lock();
   running_ = false;
   not_empty_.Notify();
+  mutex_.Unlock();
   back_thr_.Join();
 }
 
-- 
2.43.0


From f61683ddbd33de3ed0837a2bd519344183796720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 35/54] fix: LogFile hands old files to its remover under the
 lock and the remover always terminates

---
 kanon/log/log_file.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/kanon/log/log_file.cc b/kanon/log/log_file.cc
index e0507b3..fa1908f 100644
--- a/kanon/log/log_file.cc
+++ b/kanon/log/log_file.cc
@@ -26,19 +26,22 @@ LogFile<T>::LogFile(StringView basename, size_t roll_size, StringView prefix,
 
   if (log_file_num_ != UINT_MAX) {
     remove_thr_.StartRun([this]() {
-      while (!quit_remove_thr_) {
+      std::vector<std::string> files;
+      bool quit = false;
+      while (!quit) {
         {
           MutexGuard guard(remove_mtx_);
-          // There is one consumer only, don't use while is also ok
-          if (log_files_dup_.size() < log_file_num_ - 1) {
+          while (log_files_dup_.empty() && !quit_remove_thr_) {
             remove_cond_.Wait();
           }
+          files.swap(log_files_dup_);
+          quit = quit_remove_thr_;
         }
 
-        for (auto log_file : log_files_dup_) {
+        for (auto const &log_file : files) {
           ::remove(log_file.c_str());
         }
-        log_files_dup_.clear();
+        files.clear();
       }
     });
   }
@@ -48,8 +51,10 @@ template <bool T>
 KANON_INLINE LogFile<T>::~LogFile() KANON_NOEXCEPT
 {
   if (log_file_num_ != UINT_MAX) {
+    remove_mtx_.Lock();
     quit_remove_thr_ = true;
     remove_cond_.Notify();
+    remove_mtx_.Unlock();
 
     remove_thr_.Join();
   }
@@ -87,10 +92,11 @@ void LogFile<T>::Append(char const *data, size_t num) KANON_NOEXCEPT
     auto last_file = std::move(log_files_.back());
     log_files_.pop_back();
 
-    log_files_dup_.swap(log_files_);
-    log_files_.emplace_back(std::move(last_file));
-
     KANON_MUTEX_GUARD(remove_mtx_);
+    log_files_dup_.insert(log_files_dup_.end(), log_files_.begin(),
+                          log_files_.end());
+    log_files_.clear();
+    log_files_.emplace_back(std::move(last_file));
     remove_cond_.Notify();
   }
 }
-- 
2.43.0


From 834ea8a544769834c998317c2d1441a632fa62e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 36/54] fix: AppendFile creates a directory its owner can use

---
 kanon/log/append_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/log/append_file.cc b/kanon/log/append_file.cc
index 81300ee..eca6d41 100644
--- a/kanon/log/append_file.cc
+++ b/kanon/log/append_file.cc
@@ -29,7 +29,8 @@ AppendFile::AppendFile(StringArg filename)
     auto ret = 0;
 
 #ifdef KANON_ON_UNIX
-    ret = ::mkdir(dir.data(), S_IRUSR);
+    ret = ::mkdir(dir.data(),
+                  S_IRWXU | S_IRGRP | S_IXGRP | S_IROTH | S_IXOTH);
 #elif defined(KANON_ON_WIN)
     ret = ::_mkdir(dir.data());
 #else
-- 
2.43.0


From 83dc66d0672443132614a73197230a8d939001e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:13 +0000
Subject: [PATCH 37/54] fix: EnableAllLog turns all log statements off and on

---
 kanon/log/logger.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kanon/log/logger.h b/kanon/log/logger.h
index 9d9f316..28a206b 100644
--- a/kanon/log/logger.h
+++ b/kanon/log/logger.h
@@ -131,6 +131,7 @@ class Logger : noncopyable {
   KANON_INLINE static void SetColor(bool c) KANON_NOEXCEPT { need_color_ = c; }
   KANON_INLINE static LogLevel GetLogLevel() KANON_NOEXCEPT
   {
+    if (!g_all_log) return KANON_LL_OFF;
     return log_level_;
   }
   KANON_INLINE static void SetLogLevel(LogLevel level) KANON_NOEXCEPT
-- 
2.43.0


From 5d2f649482ff5a5f1122885b73ab33de9a35d6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:13 +0000
Subject: [PATCH 38/54] fix: a log record always ends with its location and
 newline

---
 kanon/log/logger.cc         | 8 ++++++++
 kanon/string/fixed_buffer.h | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index 89b7b74..50b11d8 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -82,6 +82,8 @@ Logger::FlushCallback Logger::flush_callback_ = &DefaultFlush;
 
 #define ERRNO_BUFFER_SIZE 1124
 #define TIME_BUFFER_SIZE  64
+// " - ", ":", line number and "\n"
+#define TAIL_NUMBER_SIZE  64
 
 KANON_TLS char t_errorBuf[ERRNO_BUFFER_SIZE];
 KANON_TLS char t_lastErrorBuf[ERRNO_BUFFER_SIZE];
@@ -156,6 +158,12 @@ Logger::Logger(SourceFile basefile, size_t line, LogLevel level, bool is_sys)
 
 Logger::~Logger() KANON_NOEXCEPT
 {
+  // Leave room for the tail so that a record always ends with a newline
+  auto const tail_size = basename_.size() + TAIL_NUMBER_SIZE;
+  if (stream_.buffer().avali() < tail_size) {
+    stream_.buffer().Truncate(
+        (unsigned)(stream_.maxsize() - tail_size));
+  }
   stream_ << " - " << basename_ << ":" << line_ << "\n";
   output_callback_(stream_.data(), stream_.size());
 
diff --git a/kanon/string/fixed_buffer.h b/kanon/string/fixed_buffer.h
index 105a06f..ecb0b1e 100644
--- a/kanon/string/fixed_buffer.h
+++ b/kanon/string/fixed_buffer.h
@@ -144,6 +144,15 @@ class FixedBuffer {
     len_ = 0;
   }
 
+  // Drop the contents after the first len bytes
+  void Truncate(unsigned len) KANON_NOEXCEPT
+  {
+    if (len < len_) {
+      len_ = len;
+      *cur() = 0;
+    }
+  }
+
   void AdvanceRead(unsigned diff) KANON_NOEXCEPT
   {
     len_ += diff;
-- 
2.43.0


From 84944d63b7f7bf7444dd91f57132130c546d42d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:13 +0000
Subject: [PATCH 39/54] fix: system error records carry the statement's errno
 and its message

---
 kanon/log/logger.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index 50b11d8..cdb6a4c 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -88,16 +88,28 @@ Logger::FlushCallback Logger::flush_callback_ = &DefaultFlush;
 KANON_TLS char t_errorBuf[ERRNO_BUFFER_SIZE];
 KANON_TLS char t_lastErrorBuf[ERRNO_BUFFER_SIZE];
 
+#ifdef KANON_ON_UNIX
+static KANON_INLINE char const *StrErrorResult(char const *ret) { return ret; }
+
+static KANON_INLINE char const *StrErrorResult(int ret)
+{
+  KANON_UNUSED(ret);
+  return t_errorBuf;
+}
+#endif
+
 // tl = thread local
 char const *strerror_tl(int savedErrno)
 {
 #ifdef KANON_ON_UNIX
+  // The GNU version returns the message and needn't use the buffer
   auto ret = ::strerror_r(savedErrno, t_errorBuf, ERRNO_BUFFER_SIZE);
+  return StrErrorResult(ret);
 #else
   auto ret = ::strerror_s(t_errorBuf, ERRNO_BUFFER_SIZE, savedErrno);
-#endif
   KANON_UNUSED(ret);
   return t_errorBuf;
+#endif
 }
 
 #ifdef KANON_ON_WIN
@@ -139,6 +151,7 @@ Logger::Logger(SourceFile basefile, size_t line, LogLevel level, bool is_sys)
   // dummy parameter
   KANON_UNUSED(is_sys);
   char error_buf[4096];
+  error_buf[0] = 0;
 #ifdef KANON_ON_UNIX
   auto savedErrno = errno;
   if (savedErrno) {
@@ -176,6 +189,8 @@ Logger::~Logger() KANON_NOEXCEPT
 
 void Logger::FormatTime() KANON_NOEXCEPT
 {
+  // The time functions can modify errno, but it belongs to the user
+  auto saved_errno = errno;
   struct timeval tv;
   kanon::GetTimeOfDay(&tv, NULL);
 
@@ -213,6 +228,7 @@ void Logger::FormatTime() KANON_NOEXCEPT
     }
     stream_ << ' ';
   }
+  errno = saved_errno;
 }
 
 } // namespace kanon
-- 
2.43.0


From 64c16ff8d67ac56f7c125dae929e3e3d23d1a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 40/54] fix: FixedBuffer doesn't write a pointer past its end

---
 kanon/string/fixed_buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/string/fixed_buffer.h b/kanon/string/fixed_buffer.h
index ecb0b1e..e224b56 100644
--- a/kanon/string/fixed_buffer.h
+++ b/kanon/string/fixed_buffer.h
@@ -123,7 +123,7 @@ class FixedBuffer {
 
     if (!p && avali() > 6) {
       Append("(null)", 6);
-    } else if (avali() > 10) {
+    } else if (avali() > kMaxPtrSize) {
       cur[0] = '0';
       cur[1] = 'x';
 
@@ -173,6 +173,7 @@ class FixedBuffer {
  private:
   static constexpr unsigned kMaxIntSize = 32;
   static constexpr unsigned kMaxFloatingSize = 324;
+  static constexpr unsigned kMaxPtrSize = 2 + 16;
 
   char data_[SZ];
   unsigned len_;
-- 
2.43.0


From b7f4f8dab6a44c71ea0bb9bf88a1813723165f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 41/54] fix: FmtStream prints C strings instead of their
 address

---
 kanon/string/fmt_stream.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kanon/string/fmt_stream.h b/kanon/string/fmt_stream.h
index 878e595..a98934b 100644
--- a/kanon/string/fmt_stream.h
+++ b/kanon/string/fmt_stream.h
@@ -2,6 +2,7 @@
 #define KANON_STRING_FMT_STREAM_H
 
 #include <assert.h>
+#include <cstddef>
 
 #include "kanon/string/stream_common.h"
 #include "kanon/string/fixed_buffer.h"
@@ -65,6 +66,14 @@ class FmtStream {
 
   void SerializeOne(bool arg) KANON_NOEXCEPT { stream_.appendBool(arg); }
   void SerializeOne(void const *p) KANON_NOEXCEPT { stream_.appendPtr(p); }
+  void SerializeOne(std::nullptr_t) KANON_NOEXCEPT
+  {
+    stream_.appendPtr(nullptr);
+  }
+  void SerializeOne(char const *s) KANON_NOEXCEPT
+  {
+    stream_.Append(StringView(s));
+  }
   void SerializeOne(char c) KANON_NOEXCEPT { stream_.appendChar(c); }
   void SerializeOne(std::string const &s) KANON_NOEXCEPT
   {
-- 
2.43.0


From 73f40a3cfb7b87cc6d0d5982bb8940993377fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:48 +0000
Subject: [PATCH 42/54] Revert "fix: LengthHeaderCodec hands out no message
 after the connection is down"

This reverts commit b3904726918f44a1491e652418d0e61d0b27a777.
---
 example/length_codec/codec.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/example/length_codec/codec.cc b/example/length_codec/codec.cc
index c135ca1..aa0fa1e 100644
--- a/example/length_codec/codec.cc
+++ b/example/length_codec/codec.cc
@@ -63,9 +63,6 @@ void LengthHeaderCodec::OnMessage(TcpConnectionPtr const& conn,
       buf.AdvanceRead(message_len);
 
       message_callback_(conn, message, receive_time);
-
-      // The callback may have closed the connection
-      if (conn->IsDisconnected()) break;
     } else {
       // if not a complete packet, just exit loop.
       LOG_DEBUG << "Not a complete message";
-- 
2.43.0


From 66d9cdcdd406a3696ad79474cab9e38e9a5cd73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:48 +0000
Subject: [PATCH 43/54] Revert "fix: LengthHeaderCodec hands out one whole
 message per callback"

This reverts commit 5f93e55939eff6d5437698139bd949faeef75a69.
---
 example/length_codec/codec.cc | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/example/length_codec/codec.cc b/example/length_codec/codec.cc
index aa0fa1e..4d99216 100644
--- a/example/length_codec/codec.cc
+++ b/example/length_codec/codec.cc
@@ -32,7 +32,7 @@ void LengthHeaderCodec::Send(TcpConnectionPtr const& conn, OutputBuffer& buffer)
 
   LOG_DEBUG << "length = " << len;
   buffer.Prepend32(len);
-  assert(buffer.GetReadBegin32() == len);
+  assert(buffer.Read32() == len);
   conn->Send(buffer);
 }
 
@@ -54,15 +54,10 @@ void LengthHeaderCodec::OnMessage(TcpConnectionPtr const& conn,
       conn->ShutdownWrite();
       break; 
       
-    } else if (buf.GetReadableSize() - kHeaderLength >= message_len) {
+    } else if (buf.GetReadableSize() >= (kHeaderLength + message_len)) {
       buf.AdvanceRead(kHeaderLength);
 
-      // The following messages may be in the buf already
-      Buffer message;
-      message.Append(buf.GetReadBegin(), message_len);
-      buf.AdvanceRead(message_len);
-
-      message_callback_(conn, message, receive_time);
+      message_callback_(conn, buf, receive_time);
     } else {
       // if not a complete packet, just exit loop.
       LOG_DEBUG << "Not a complete message";
-- 
2.43.0


From 5f740b8d5e9bb0fdd3f6b7b6446076bbee95e677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:16 +0000
Subject: [PATCH 44/54] fix: a thread that was moved is joined or detached once

---
 kanon/thread/thread.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kanon/thread/thread.h b/kanon/thread/thread.h
index 1d83727..050b510 100644
--- a/kanon/thread/thread.h
+++ b/kanon/thread/thread.h
@@ -62,10 +62,16 @@ class Thread : noncopyable {
     , name_{std::move(rhs.name_)}
   {
     rhs.pthreadId_ = 0;
+    // Only one of them joins or detaches it
+    rhs.is_started_ = rhs.is_joined_ = false;
   }
 
   Thread &operator=(Thread &&rhs) KANON_NOEXCEPT
   {
+    if (this == &rhs) return *this;
+
+    // A thread that isn't joined is detached
+    Thread old(std::move(*this));
     func_ = std::move(rhs.func_);
     is_started_ = rhs.is_started_;
     is_joined_ = rhs.is_joined_;
@@ -74,6 +80,7 @@ class Thread : noncopyable {
 
     rhs.pthreadId_ = 0;
     rhs.is_started_ = false;
+    rhs.is_joined_ = false;
 
     return *this;
   }
-- 
2.43.0


From ee3d8cde870fc30acb6670c3a80456c71c69614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:16 +0000
Subject: [PATCH 45/54] fix: a running thread does not need its Thread object

---
 kanon/thread/thread.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/kanon/thread/thread.cc b/kanon/thread/thread.cc
index 77c73b1..76b8178 100644
--- a/kanon/thread/thread.cc
+++ b/kanon/thread/thread.cc
@@ -24,6 +24,23 @@ using namespace std;
 
 namespace kanon {
 
+namespace detail {
+
+// What the running thread needs: the Thread object may be moved or destroyed
+// (i.e. detached) before the thread finishes.
+struct ThreadData : noncopyable {
+  ThreadData(Thread::Threadfunc &&f, string const &n)
+    : func_{std::move(f)}
+    , name_{n}
+  {
+  }
+
+  Thread::Threadfunc func_;
+  string name_;
+};
+
+} // namespace detail
+
 AtomicCounter32 Thread::numCreated_{};
 
 Thread::Thread(std::string const &name)
@@ -58,10 +75,10 @@ void Thread::StartRun()
   assert(!is_started_);
   is_started_ = false;
 
-  // auto data = new detail::ThreadData{ func_, name_ };
+  auto data = new detail::ThreadData{std::move(func_), name_};
 #ifdef KANON_ON_UNIX
   int err = 0;
-  err = pthread_create(&pthreadId_, NULL, &detail::Run, this);
+  err = pthread_create(&pthreadId_, NULL, &detail::Run, data);
   if (err != 0) {
     char buf[128];
     auto ret = ::strerror_r(errno, buf, sizeof buf);
@@ -74,7 +91,7 @@ void Thread::StartRun()
   }
 #else
   try {
-    std::thread thr(&detail::Run, this);
+    std::thread thr(&detail::Run, data);
 #ifdef KANON_ON_UNIX
     pthreadId_ = thr.native_handle();
 #else
@@ -132,7 +149,7 @@ namespace detail {
 void *Run(void *arg)
 {
   CurrentThread::cacheTid();
-  auto thread = reinterpret_cast<Thread *>(arg);
+  std::unique_ptr<ThreadData> thread(reinterpret_cast<ThreadData *>(arg));
   CurrentThread::t_name =
       thread->name_.empty() ? "KanonThread" : thread->name_.c_str();
 
-- 
2.43.0


From c5eb010b1131e120405387060696f1e0093a227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:40 +0000
Subject: [PATCH 46/54] fix: a timer the loop never inserts is freed with it

---
 kanon/linux/net/timer/timer_queue.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 07c636e..f5d442e 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -1,5 +1,6 @@
 #include "kanon/linux/net/timer/timer_queue.h"
 
+#include <memory>
 #include <unistd.h>
 #include <sys/timerfd.h>
 
@@ -136,6 +137,8 @@ TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
                              double interval)
 {
   Timer *timer = new Timer(std::move(cb), time, interval);
+  // Free the timer also if the loop has no chance to insert it
+  auto holder = std::make_shared<std::unique_ptr<Timer>>(timer);
   // The timer maybe expired and deleted by the loop after RunInLoop()
   const TimerId id(timer);
   const bool in_loop = loop_->IsLoopInThread();
@@ -144,18 +147,18 @@ TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
     adding_timers_.emplace(id.seq_);
   }
 
-  loop_->RunInLoop([this, timer, in_loop]() {
+  loop_->RunInLoop([this, timer, holder, in_loop]() {
     loop_->AssertInThread();
 
     if (!in_loop) {
       MutexGuard guard{lock_};
       // Canceled by the loop thread before be added
       if (adding_timers_.erase(timer->sequence()) == 0) {
-        delete timer;
         return;
       }
     }
 
+    holder->release();
     bool earliest_update = Emplace(timer);
 
     if (earliest_update) {
-- 
2.43.0


From b43bfa29f571ee4db86c0688b8b1ffa10b43e940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:19 +0000
Subject: [PATCH 47/54] fix: searching a string view backwards ends and reaches
 the first character

---
 kanon/string/string_view.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 05b0b79..a8a5b83 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -263,7 +263,7 @@ class StringView {
    */
   size_type rfind(StringView v, size_type pos = npos) const KANON_NOEXCEPT
   {
-    if (!v.empty()) {
+    if (!v.empty() && len_ != 0) {
       auto len = std::min(len_ - 1, pos);
 
       // Avoid --len == size_type(-1)
@@ -281,6 +281,8 @@ class StringView {
 
   size_type rfind(char c, size_type pos = npos) const KANON_NOEXCEPT
   {
+    if (KANON_UNLIKELY(len_ == 0)) return npos;
+
     auto len = std::min(len_ - 1, pos);
     for (;; --len) {
       if (data_[len] == c) {
@@ -359,7 +361,7 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0;) {
+    for (;; --i) {
       if (charInRange(data_[i], v)) return i;
       if (i == 0) break;
     }
@@ -372,8 +374,8 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
-      if (data_[i] == c) return pos;
+    for (;; --i) {
+      if (data_[i] == c) return i;
       if (i == 0) break;
     }
 
@@ -403,7 +405,7 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
+    for (;; --i) {
       if (!charInRange(data_[i], v)) return i;
       if (i == 0) break;
     }
@@ -416,8 +418,8 @@ class StringView {
     if (KANON_UNLIKELY((len_ == 0))) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
-      if (data_[i] == c) return i;
+    for (;; --i) {
+      if (data_[i] != c) return i;
       if (i == 0) break;
     }
 
-- 
2.43.0


From 5e1911b974c129c7f162ac8a3e82c4b5956542e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:19 +0000
Subject: [PATCH 48/54] fix: a zero byte does not end a search or a comparison
 of string views

---
 kanon/string/string_view.h | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index a8a5b83..102bc2d 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -237,7 +237,7 @@ class StringView {
     if (v.size() <= len_) {
       size_type n = len_ - v.size() + 1;
       for (size_type i = pos; i < n; ++i) {
-        if (!::strncmp(data_ + i, v.data(), v.size())) {
+        if (!::memcmp(data_ + i, v.data(), v.size())) {
           return i;
         }
       }
@@ -428,8 +428,11 @@ class StringView {
 
   int caseCompare(StringView v) const KANON_NOEXCEPT
   {
-    int r = kanon::StrNCaseCompare(data_, v.data(),
-                                   len_ < v.size() ? len_ : v.size());
+    int r = 0;
+
+    for (size_type i = 0; r == 0 && i < len_ && i < v.size(); ++i) {
+      r = lowerOf(data_[i]) - lowerOf(v[i]);
+    }
 
     if (r == 0) {
       if (len_ < v.size())
@@ -443,14 +446,7 @@ class StringView {
 
   int caseCompare(char c) const KANON_NOEXCEPT
   {
-    auto data_0 = ::toupper(data_[0]);
-    auto _c = ::toupper(c);
-
-    if (len_ < 1 || data_0 < _c) return -1;
-
-    if (data_0 > _c) return 1;
-
-    return (data_0 == c && len_ == 1) ? 0 : 1;
+    return caseCompare(StringView(&c, 1));
   }
 
   // lexicographic compare
@@ -470,11 +466,7 @@ class StringView {
 
   int compare(char c) const KANON_NOEXCEPT
   {
-    if (len_ < 1 || data_[0] < c) return -1;
-
-    if (data_[0] > c) return 1;
-
-    return (data_[0] == c && len_ == 1) ? 0 : 1;
+    return compare(StringView(&c, 1));
   }
 
   KANON_CORE_API std::vector<std::string> split(StringView spliter = " ") const;
@@ -500,6 +492,11 @@ class StringView {
   }
 
  private:
+  static int lowerOf(char c) KANON_NOEXCEPT
+  {
+    return ::tolower((unsigned char)c);
+  }
+
   // helper
   // complexity O(sv.size())
   bool charInRange(char c, StringView const &sv) const KANON_NOEXCEPT
-- 
2.43.0


From 0f7e7477e5f87061a4c3cf791e44ff1a72b25af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:19 +0000
Subject: [PATCH 49/54] fix: copying out of a string view stops at its end

---
 kanon/string/string_view.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 102bc2d..084f423 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -205,6 +205,7 @@ class StringView {
       throw std::out_of_range{"Given position over length of StringView"};
     }
 
+    count = std::min(count, len_ - pos);
     ::memcpy(dst, data_ + pos, count);
     return count;
   }
-- 
2.43.0


From 0e14a8e2a0b4040f32766d44edfe5558fdcb4744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:19 +0000
Subject: [PATCH 50/54] fix: a floating point number fits into the streams it
 is short enough for

---
 kanon/string/fixed_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/string/fixed_buffer.h b/kanon/string/fixed_buffer.h
index e224b56..cfa3846 100644
--- a/kanon/string/fixed_buffer.h
+++ b/kanon/string/fixed_buffer.h
@@ -172,7 +172,7 @@ class FixedBuffer {
 
  private:
   static constexpr unsigned kMaxIntSize = 32;
-  static constexpr unsigned kMaxFloatingSize = 324;
+  static constexpr unsigned kMaxFloatingSize = 32;
   static constexpr unsigned kMaxPtrSize = 2 + 16;
 
   char data_[SZ];
-- 
2.43.0


From 088ccacc7f4055ba9942fa48be87dd3cf9029156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:19 +0000
Subject: [PATCH 51/54] fix: a placeholder at the end of a format does not look
 beyond it

---
 kanon/string/fmt_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/string/fmt_stream.h b/kanon/string/fmt_stream.h
index a98934b..46139ef 100644
--- a/kanon/string/fmt_stream.h
+++ b/kanon/string/fmt_stream.h
@@ -143,7 +143,7 @@ void FMT_STREAM_TEMPLATE::ParseAndSerializeSingle(StringView fmt, Arg arg,
   stream_.Append(fmt.data(), pos == StringView::npos ? fmt.size() : pos);
 
   if (pos < fmt.size()) {
-    if (fmt[pos + 1] == '%') {
+    if (pos + 1 < fmt.size() && fmt[pos + 1] == '%') {
       stream_.Append("%");
       ParseAndSerialize(fmt.substr(pos + 2), arg, args...);
     } else {
-- 
2.43.0


From 6890ffc5e03414e0ea9f6f61996ced79bc7a43d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:19 +0000
Subject: [PATCH 52/54] fix: an optional without a value converts to one
 without a value

---
 kanon/util/optional.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kanon/util/optional.h b/kanon/util/optional.h
index 67f7e77..c922cba 100644
--- a/kanon/util/optional.h
+++ b/kanon/util/optional.h
@@ -81,13 +81,14 @@ class optional {
   //
   template <typename U>
   optional(optional<U> const &other)
-    : opt_{Rep{other.has_value(), other.value()}}
+    : opt_{other.has_value() ? Rep{true, other.value()} : Rep{false, T{}}}
   {
   }
 
   template <typename U>
   optional(optional<U> &&other) KANON_NOEXCEPT
-    : opt_{Rep{other.has_value(), std::move(other.value())}}
+    : opt_{other.has_value() ? Rep{true, std::move(other.value())}
+                             : Rep{false, T{}}}
   {
   }
 
@@ -97,7 +98,7 @@ class optional {
   template <typename U>
   optional &operator=(optional<U> const &other)
   {
-    opt_ = Rep{other.has_value(), other.value()};
+    opt_ = other.has_value() ? Rep{true, other.value()} : Rep{false, T{}};
 
     return *this;
   }
-- 
2.43.0


From 7d3c9906cdba4a3eefff720c68930462779df20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:24 +0000
Subject: [PATCH 53/54] fix: casting an empty any gives nothing

---
 kanon/util/any.h        | 2 +-
 kanon/util/unique_any.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/util/any.h b/kanon/util/any.h
index e05eb19..2f793af 100644
--- a/kanon/util/any.h
+++ b/kanon/util/any.h
@@ -199,7 +199,7 @@ KANON_INLINE V *SafeAnyCast(Any const &from)
   static_assert(!std::is_reference<V>::value,
                 "The type to cast must not be reference");
 
-  if (from.type() == typeid(V)) {
+  if (!from.empty() && from.type() == typeid(V)) {
     return std::addressof(static_cast<Any::Holder<V> *>(from.holder_)->holder_);
   }
 
diff --git a/kanon/util/unique_any.h b/kanon/util/unique_any.h
index 058a7a0..c54e097 100644
--- a/kanon/util/unique_any.h
+++ b/kanon/util/unique_any.h
@@ -154,7 +154,7 @@ KANON_INLINE V *SafeUniqueAnyCast(UniqueAny const &from)
   static_assert(!std::is_reference<V>::value,
                 "The type to cast must not be reference");
 
-  if (from.type() == typeid(V)) {
+  if (!from.empty() && from.type() == typeid(V)) {
     return std::addressof(
         static_cast<UniqueAny::Holder<V> *>(from.holder_)->holder_);
   }
-- 
2.43.0


From 7cf7700fdddde992316922c547d6304e454da59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:24 +0000
Subject: [PATCH 54/54] fix: adding more than 35 minutes to a time stamp does
 not overflow

---
 kanon/util/time_stamp.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kanon/util/time_stamp.h b/kanon/util/time_stamp.h
index d2f8752..3c1f10b 100644
--- a/kanon/util/time_stamp.h
+++ b/kanon/util/time_stamp.h
@@ -148,12 +148,13 @@ class TimeStamp
 
   TimeStamp operator+(MilliSecond ms) const KANON_NOEXCEPT
   {
-    return *this + Microsecond(ms.count * 1000);
+    return TimeStamp(microseconds_ + static_cast<int64_t>(ms.count) * 1000);
   }
 
   TimeStamp operator+(Second sec) const KANON_NOEXCEPT
   {
-    return *this + Microsecond(sec.count * 1000000);
+    return TimeStamp(microseconds_ +
+                     static_cast<int64_t>(sec.count) * kMicrosecondsPerSeconds_);
   }
 
   TimeStamp operator-(double seconds) const KANON_NOEXCEPT
-- 
2.43.0

