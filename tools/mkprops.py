#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d={"id":id,"title":title,"statement":" ".join(statement.split()),
       "quantifier":{"over":over,"text":" ".join(qtext.split())},
       "why_tests_cant":" ".join(why.split()),
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],
                  "observe_at":observe,"hook_needed":hook}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)
CB="kanon/net/connection/connection_base.cc"; CI="kanon/linux/net/connection/connection_base.inl"; CH="kanon/net/connection/connection_base.h"
CL="kanon/linux/net/chunk_list.cc"

prop("P01","Sent bytes reach the peer in order, exactly once, never interleaved",
"""While a connection stays up, the byte stream the peer receives is exactly the concatenation of the messages accepted by the connection's send operations (raw bytes, string, input buffer or output buffer form, from the loop thread or any other thread), in the order of acceptance, with no byte lost, duplicated, reordered or interleaved inside a message.
Messages sent by one thread keep that thread's order, and pending bytes keep being written as the kernel accepts them, whatever mixture of short writes and would-block results it returns, without further sends being needed.
After the peer resets the connection or a write fails for good, what was delivered is a prefix of that stream.""",
["schedules","inputs","fault_sequences"],
"All interleavings of sends from several threads with the loop; all message forms and sizes (including sizes spanning many buffer chunks); all sequences of kernel write results (full, short, would-block, reset); level- and edge-triggered loops; both pollers.",
"The repository has no test of the send path that forces short writes or would-block; its TCP tests are manual programs that send tiny messages over an idle loopback socket.",
[CB,CI,CH,CL,"kanon/buffer/chunk_list.cc"],
[("direct write when nothing is pending, remainder buffered and write interest enabled","SendInLoop / SendInLoopForBuf / SendInLoopForChunkList in "+CI),
 ("cross-thread sends queued to the loop with the data moved","ConnectionBase::Send in "+CB),
 ("drain on writable","HandleLtWrite/HandleEtWrite in "+CB),
 ("gathered write of a chunk list","ChunkListWriteFd in "+CL)],
["bytes passed to write/writev on the connection's descriptor, in order","bytes the peer reads"],
[("output_buffer_","bytes accepted but not yet taken by the kernel",CH)])

prop("P02","Received bytes are delivered in order, exactly once, on the loop thread",
"""Every byte that arrives on a connection is offered to the message callback, on the connection's loop thread, in arrival order with no loss or duplication: each callback sees the unconsumed bytes of earlier callbacks followed by at least one new byte, and bytes it does not consume stay available unchanged.
Bytes that arrived before the peer's orderly end of stream are delivered before the connection is reported down, unless the user disabled reading or closed the connection itself.
While reading is disabled no message callback runs and no byte is lost; after reading is enabled again delivery resumes by itself, in level-triggered and edge-triggered mode alike.""",
["schedules","inputs","fault_sequences"],
"All segmentations of the incoming stream by the kernel (short reads, would-block, data plus end-of-stream together), all consumption patterns of the callback, all placements of disable/enable reading; both trigger modes and both pollers.",
"Existing tests only echo small messages by hand; none controls segmentation, partial consumption or read pauses.",
[CB,CI,CH,"kanon/linux/net/buffer.cc","kanon/buffer/buffer.cc"],
[("scatter read into buffer plus stack extension","BufferReadFromFd in kanon/linux/net/buffer.cc"),
 ("level/edge read loops","HandleLtRead/HandleEtRead in "+CB),
 ("read interest switch","DisbaleRead/EnableRead in "+CB)],
["message callback arguments (buffer content, thread)","connection callback on disconnection"],
[("input_buffer_","received bytes the user has not consumed",CH)])

prop("P03","Graceful half-close flushes accepted data, then ends the stream once",
"""After a graceful write-shutdown is requested on a connection, every message accepted before the request still reaches the peer in full and is followed by exactly one end-of-stream, however slowly the kernel takes the data and from whichever thread the request comes.
Sends issued after the request are refused: none of their bytes ever appear on the wire.
The receive direction keeps working until the peer closes, and repeating the request or racing it with a close has no further effect.""",
["schedules","fault_sequences","histories"],
"All interleavings of sends, shutdown requests, closes and writable events; all kernel write-result sequences; shutdown requested from the loop thread, from callbacks and from other threads; both trigger modes.",
"No test shuts a connection down with data still pending.",
[CB,CI,CH],
[("shutdown deferred while output is pending","ShutdownWrite and HandleLtWrite/HandleEtWrite in "+CB)],
["shutdown(SHUT_WR) and writes on the connection's descriptor"],
[("state_","connecting/connected/disconnecting/disconnected",CH)])

prop("P04","Connection lifecycle: one up, one down, nothing after, closed once",
"""For every connection the connection callback runs exactly once with the connection up and, once the peer closes, the connection fails, it is force-closed or its owner is torn down, exactly once with the connection down, both on the connection's loop thread, and every message callback runs strictly between the two.
Closing is idempotent: any number of force-closes from any threads, racing with peer close, errors, half-close or sends, yields the single down notification and no crash.
The descriptor is closed exactly once, after the down notification, and never used afterwards; it stays open while the user holds the connection.""",
["schedules","fault_sequences","histories"],
"All interleavings of user calls from any thread with peer FIN/RST, socket errors and owner teardown; any number and placement of ForceClose; user references retained past the close.",
"The tests that open connections never race closes, and a double close or a close during a callback is not exercised at all.",
[CB,CI,CH,"kanon/net/connection/tcp_connection.cc","kanon/linux/net/channel.cc","kanon/net/socket.cc"],
[("state machine","ConnectionEstablished/HandleClose/ConnectionDestroyed in "+CB),
 ("shared ownership tie between channel and connection","Channel::HandleEvents in kanon/linux/net/channel.cc")],
["connection/message callbacks","close() and later use of the descriptor"],
[("state_","lifecycle state",CH)])

prop("P05","Write-complete and high-water-mark callbacks are truthful",
"""The write-complete callback runs, on the loop thread, once for each time all accepted data has been handed to the kernel (an accepted send that is written at once, or the draining of pending data), and never while it has not happened since the previous one.
The high-water-mark callback runs whenever an accepted send makes the amount of pending data reach the mark from below, with the pending amount as its argument, and at no other time.
Neither callback runs for a send that was refused.""",
["schedules","inputs","fault_sequences"],
"All sequences of sends (every form) and kernel write results, all marks, all interleavings of cross-thread sends.",
"No test sets either callback under partial writes.",
[CB,CI,CH],
[("callbacks queued after the write that drains or exceeds the mark","SendInLoop*, HandleLtWrite, HandleEtWrite, CallWriteCompleteCallback")],
["the two callbacks, relative to write results on the descriptor"])

EL="kanon/net/event_loop.cc"; EH="kanon/net/event_loop.h"
prop("P06","Loop tasks run exactly once, on the loop thread, in order, promptly",
"""Every callable handed to an event loop that keeps running is executed exactly once, on the loop's thread, and tasks queued by one thread execute in the order that thread queued them.
A call made on the loop's own thread in the run-now form executes before the call returns; a task queued from any thread, from inside a callback or another task, or before the loop starts, executes without waiting for unrelated I/O or timer activity.
Tasks queued while tasks are being executed run in a later round, so events and timers are not starved.""",
["schedules","histories"],
"All interleavings of producers with the loop's poll / dispatch / task phases, including tasks queued before start, from within tasks and from I/O and timer callbacks; both pollers.",
"The loop tests check a single cross-thread call after a sleep; lost wake-ups and ordering windows between swap, drain and poll are never forced.",
[EL,EH],
[("functor queue swapped under lock","CallFunctors/QueueToLoop in "+EL),
 ("eventfd wake-up when called from another thread or while draining","QueueToLoop/Wakeup/EvRead in "+EL)],
["order, thread and number of task executions; virtual time at which they run"],
[("functors_","queued tasks",EH),("calling_functors_","tasks are being drained",EH)])

prop("P07","Loop quit is prompt, safe from any thread, and drains queued tasks",
"""Once quit is requested on a running event loop - from its own thread inside a callback or task, or from any other thread - the loop call returns without waiting for further I/O or timer activity, and no request is lost whatever the loop is doing at the time.
Tasks that were queued before the quit request are executed before the loop call returns.
A loop whose quit was never requested does not return.""",
["schedules","histories"],
"All placements of the quit request relative to polling, dispatch, task execution and loop start, from every thread.",
"Tests quit only from a timer in an idle loop.",
[EL,EH,"kanon/net/event_loop_thread.cc"],
[("quit flag plus wake-up","EventLoop::Quit, StartLoop in "+EL)],
["return of the loop call; tasks executed before it"],
[("quit_","quit requested",EH)])

prop("P08","Event dispatch follows each channel's registered interest, on both pollers",
"""With either polling backend, a callback registered on a channel runs if and only if the channel currently is registered for that kind of event and its descriptor has it pending (readable or writable; hang-up and error are always watched while any interest is held), on the loop's thread, with read delivered before write for one channel.
After interest in an event is withdrawn, or the channel is removed, its callback for that event does not run again until interest is restored - including when this happens inside a callback of the same poll round - and interest that is restored takes effect again at the next round.
Interest changes and removals of any channels in any order, with descriptors reused by later channels, never make another channel lose or gain events.""",
["histories","inputs","schedules"],
"All histories of enabling/disabling read and write, disabling all, removing and adding channels, from outside and inside callbacks, over several channels whose descriptors become ready in any combination; epoll and poll; level and edge trigger.",
"No test drives a channel or poller directly; they are only used with one descriptor at a time through higher layers.",
["kanon/linux/net/channel.cc","kanon/linux/net/channel.h","kanon/linux/net/epoller.cc","kanon/linux/net/poller.cc","kanon/net/poll/epoller.h","kanon/net/poll/poller.h"],
[("interest bookkeeping","Channel::Enable*/Disable*/Remove and Epoller/Poller::UpdateChannel/RemoveChannel"),
 ("event decoding","Channel::HandleEvents")],
["channel callbacks per poll round; interest actually held by the kernel object"],
[("channelfds_/channels_map_","registered descriptors","kanon/linux/net/poller.cc, kanon/linux/net/epoller.cc")])

TQ="kanon/linux/net/timer/timer_queue.cc"; TH="kanon/linux/net/timer/timer_queue.h"
prop("P09","Timers fire on the loop thread, never early, in deadline order, as set",
"""A one-shot timer's callback runs exactly once, on the loop's thread and never before its deadline; a repeating timer runs again and again with each run scheduled one interval after the previous expiry was processed, until cancelled.
Callbacks of timers that are due in the same round run in deadline order, with equal deadlines in the order they were set.
While the loop is idle every due timer fires without delay whatever other timers are added, cancelled or expire meanwhile, from whichever thread they are set - including from inside timer callbacks and with deadlines already past.""",
["schedules","inputs","histories"],
"All histories of timer additions (at/after/every, any deadlines incl. past and equal), from any thread and from callbacks, interleaved with expirations at any clock values.",
"The timer tests print output for eyeball inspection with fixed delays of seconds and assert nothing about order or count.",
[TQ,TH,"kanon/net/timer/timer.h",EL],
[("ordered set of deadlines and one timerfd armed for the earliest","AddTimer/ProcessAllExpiredTimers/ResetTimers in "+TQ)],
["timer callbacks with (virtual) time and thread"],
[("timers_","pending timers ordered by deadline",TH)])

prop("P10","Timer cancellation is effective, exact and always safe",
"""Once a cancel of a timer has taken effect on the loop thread, its callback does not run again, even if the timer had already become due in the current round, and cancelling from inside the timer's own callback stops its repetition.
Cancelling affects only the timer that the handle was returned for: other timers keep firing as set, and cancelling a timer that already fired, was already cancelled, or whose storage has since been reused has no effect and never crashes.
Cancels may come from any thread; a cancel issued by a thread after it received the handle always takes effect.""",
["schedules","histories"],
"All histories of additions, expirations, repetitions and cancels (own callback, other callback in the same batch, other thread, stale handles, repeated cancels), at any clock values including cancels that straddle a wall-clock second.",
"One manual test cancels one pending timer.",
[TQ,TH,"kanon/net/timer/timer_id.h",EL],
[("handle = address + sequence","TimerId in kanon/net/timer/timer_id.h"),("self-cancel set consulted before re-arming","CancelTimer/ResetTimers in "+TQ)],
["timer callbacks after a cancel; process integrity"],
[("canceling_timers_","timers cancelled while their batch runs",TH)])

TS="kanon/net/tcp_server.cc"; TSH="kanon/net/tcp_server.h"
prop("P11","Server: every accepted connection is owned, announced and torn down once",
"""Every connection the server accepts is given a name unique in the server's life, is assigned to one of the server's loops (the base loop when there are no I/O threads, otherwise the I/O loops in strict rotation), is announced up exactly once on that loop, and is announced down and released exactly once when it ends.
Accept failures and descriptor exhaustion neither stop the server from accepting later clients nor disturb existing connections.
Destroying the server at any moment when none of its connections is in use elsewhere announces down and closes every remaining connection exactly once and leaves no descriptor open.""",
["schedules","fault_sequences","histories","configurations"],
"All interleavings of client arrivals, closes, resets, accept errors and server destruction with 0..n I/O loops; all numbers of connections.",
"Server tests are manual programs with a single client; no test destroys a server with live connections or injects accept errors.",
[TS,TSH,"kanon/net/acceptor.cc","kanon/net/event_loop_pool.cc"],
[("connection registry and two-step removal","NewConnection/RemoveConnection/~TcpServer in "+TS),
 ("reserve descriptor for exhaustion","Acceptor in kanon/net/acceptor.cc"),("round robin","EventLoopPool::GetNextLoop")],
["connection callbacks (name, loop thread, up/down)","accepted descriptors and their close"],
[("connections_","live connections by name",TSH)])

CN="kanon/net/connector.cc"; CNL="kanon/linux/net/connector.cc"
prop("P12","Connector retries with bounded back-off until connected or stopped",
"""After start, a connector repeats connection attempts while they fail transiently - the n-th wait being the initial delay doubled n times and capped at the maximum - until one succeeds, and then reports success exactly once with the connected descriptor; it never has two attempts in flight.
A self-connection counts as a failure, a fatal error ends the attempts, and every descriptor of an unsuccessful attempt is closed exactly once.
After stop takes effect no attempt is started and no success is reported, and a restart begins afresh with the initial delay.""",
["schedules","fault_sequences","histories"],
"All sequences of connect results (immediate, in progress then success / error / refused / self-connect, transient and fatal errno values) interleaved with start, stop and restart from any thread at any (virtual) time.",
"The connector test connects once to a fixed address and asserts nothing.",
[CN,CNL,"kanon/net/connector.h"],
[("retry timer with doubling delay","Retry in "+CN),("completion on writability, SO_ERROR and self-connect check","CompleteConnect in "+CNL)],
["socket/connect/close system calls and their times; success notification"],
[("state_","connect phase","kanon/net/connector.h"),("retry_delay_","current back-off","kanon/net/connector.h")])

TC="kanon/net/tcp_client.cc"; TCH="kanon/net/tcp_client.h"
prop("P13","Client: at most one connection; disconnect, stop and retry mean what they say",
"""A client has at most one live connection at any time, and every connection it makes is announced up once and down once on the client's loop.
When retry is enabled and a connection is lost, a new attempt is made; when it is not enabled, or after the user has disconnected or stopped, none is.
A disconnect issued by the user half-closes the current connection gracefully, a stop prevents any further connection, and both, like destruction of the client, are safe in every phase - connecting, waiting to retry, connected, closing.""",
["schedules","fault_sequences","histories"],
"All interleavings of connect, disconnect, stop, enable-retry, destruction with attempt results, peer closes and loop activity.",
"The client test is a manual interactive program.",
[TC,TCH,CN],
[("connection slot under lock; reconnection on close","NewConnection/close callback in "+TC)],
["connection callbacks and connect attempts"],
[("conn_","current connection",TCH)])

prop("P14","Loop threads and loop pools start ready, rotate fairly and stop cleanly",
"""Starting a loop thread returns a loop that is already accepting work on its own new thread, after the initialisation callback has run exactly once on that thread; destroying it makes that loop return and joins the thread, whatever the loop is doing and even if the loop already quit by itself.
A pool of n loop threads hands out its n loops in strict rotation (the base loop when n is zero) and runs the initialisation callback once per loop.
No combination of start, use, quit and destruction hangs, crashes or leaves a thread running.""",
["schedules","histories","configurations"],
"All interleavings of start, tasks, quit (own thread, other thread, inside the initialisation callback) and destruction; pools of 0..n threads.",
"One test starts a single loop thread and sleeps.",
["kanon/net/event_loop_thread.cc","kanon/net/event_loop_thread.h","kanon/net/event_loop_pool.cc","kanon/net/event_loop_pool.h"],
[("condition-variable hand-over of the loop pointer","EventLoopThread::StartRun"),("rotation counter","EventLoopPool::GetNextLoop")],
["loop returned, init callback, thread exit"],
[("loop_","the thread's loop while it runs","kanon/net/event_loop_thread.h")])

prop("P15","Buffer is a byte queue with cheap prepend",
"""After any sequence of operations, the readable content of a network buffer equals that of a byte sequence on which appends add at the back, prepends add at the front and reads, peeks, advances and find operations act on the front with exactly the values and lengths returned, for all sizes, and integers of every width round-trip through network byte order.
Growth, shrinking, moves, swaps and internal compaction never change the readable content, and reserving space for a length guarantees that many bytes can be written in place.
Reading from a descriptor appends exactly the bytes the kernel returned. A buffer that is destroyed gives back all its memory.""",
["inputs","histories"],
"All operation sequences and sizes, including those that force compaction, growth, header use and reads larger than the free space.",
"The buffer test covers a handful of appends with fixed sizes.",
["kanon/buffer/buffer.h","kanon/buffer/buffer.cc","kanon/linux/net/buffer.cc","kanon/algo/reserved_array.h"],
[("read/write indices over a growing array with reserved header","kanon/buffer/buffer.h")],
["public accessors after each operation"])

prop("P16","Chunk list is a byte queue whose writes match what the kernel took",
"""After any sequence of operations, the content of a chunk list equals that of a byte sequence on which appends (raw, integers, whole chunk lists) add at the back, prepends add at the front and reads and advances remove from the front, for all sizes across chunk boundaries.
Readable size, chunk views and per-chunk traversal always agree with that sequence; drained lists and lists a new list was move-constructed from are empty, and every list stays usable.
Writing it to a descriptor sends bytes from the front in order, never more than it holds, reports exactly how many were taken over any mixture of short writes and errors, and reports would-block and errors as such. Lists that are destroyed give back all their chunks.""",
["inputs","histories","fault_sequences"],
"All operation sequences with sizes below, at and above the chunk size, list transfers, and all sequences of kernel write results, including lists with more chunks than one gathered write may carry.",
"There is no chunk-list test except a protobuf one that is not built.",
["kanon/buffer/chunk_list.h","kanon/buffer/chunk_list.cc",CL,"kanon/algo/forward_list/forward_list.h"],
[("linked 4 KiB chunks and free list","kanon/buffer/chunk_list.h"),("gathered write","ChunkListWriteFd in "+CL)],
["public accessors after each operation; writev arguments"])

prop("P17","Asynchronous log writes every accepted record once, whole and in order",
"""Every record (that fits one buffer) appended to a running asynchronous log is written to its sink exactly once, whole, with the records of one thread in the order it appended them and records never interleaved; only when the backlog exceeds the documented limit may records be dropped, whole buffers at a time and with a notice written instead.
Stopping or destroying the log returns only after every record accepted before the stop has been written and flushed.
Records are written without further appends within the flush interval, and appenders never wait for the disk.""",
["schedules","histories"],
"All interleavings of appenders, the background thread's swap/write phases, the periodic flush and stop, with record sizes that do and do not fit the current buffer.",
"The async log tests only produce output files for benchmarking.",
["kanon/log/async_log.cc","kanon/log/async_log.h"],
[("double buffering under lock with background writer","AsyncLog::Append/ThreadFunc-like loop in kanon/log/async_log.cc")],
["content of the sink after stop"],
[("current_buffer_/buffers_","records not yet handed to the writer","kanon/log/async_log.h")])

prop("P18","Log files roll by size and period, lose nothing, and only old ones are removed",
"""Records appended to a rolling log file are written, in order and each exactly once and whole, to the file that is current, and a new file is begun exactly when an append finds the roll size exceeded or the roll period (a day by default) changed, at most one per second.
A record is on disk at the latest after the first append that finds the flush interval passed, after an explicit flush, and after the log is destroyed; a missing log directory is created usable.
When a limit on the number of files is set, reaching it removes the older files this log created, never the current one or any other file, and destruction terminates with these removals done.""",
["histories","inputs","schedules","configurations"],
"All record-size sequences, clock advances (within a day, across midnight), roll sizes, flush intervals and file limits; all interleavings with the background remover.",
"The log file test writes many lines and asserts nothing about the files.",
["kanon/log/log_file.cc","kanon/log/log_file.h","kanon/log/append_file.cc","kanon/log/append_file.h"],
[("roll decision","LogFile::AppendUnlocked/RollFile"),("old-file removal thread","LogFile remover in kanon/log/log_file.cc")],
["directory contents after each step"])

prop("P19","Logger emits exactly the enabled records, whole and well-formed",
"""A log statement produces output if and only if its level is enabled by the configured threshold (and all logging, respectively the library's own logging, is enabled; fatal statements always are), evaluating its arguments only then, and each produces exactly one output call carrying one complete line with time, thread, level, message and location, plus the function for trace and debug and the errno and its text for system errors.
Messages longer than the line limit are cut, never split, merged or overrun, and each record still ends with its location and newline.
A fatal record is output and flushed before the process aborts.""",
["inputs","configurations","schedules"],
"All thresholds, levels and enable switches, message lengths around the internal limit, concurrent threads logging.",
"The logger tests print to the terminal for inspection.",
["kanon/log/logger.cc","kanon/log/logger.h","kanon/log/log_stream.h","kanon/string/fixed_buffer.h"],
[("level guard in the logging macros and one output call in the record's destructor","kanon/log/logger.h, Logger::~Logger")],
["calls to the configured output and flush functions"])

prop("P20","Reader-writer lock: writers exclude everyone, readers share, none is stuck",
"""At any moment the lock is held by any number of readers or by exactly one writer, never both.
Writes made under the lock are visible to later holders.
Every release wakes the waiters that may then proceed, so no thread waits forever while the lock is free.""",
["schedules"],
"All interleavings of lock and unlock in both modes by several threads.",
"The single rw-lock test runs a few threads under the OS scheduler and checks one counter.",
["kanon/thread/rw_lock.cc","kanon/thread/rw_lock.h"],
[("state word and condition waits","kanon/thread/rw_lock.cc")],
["entry to and exit from critical sections"])

prop("P21","Mutex, condition and count-down latch keep their blocking contracts",
"""A mutex admits one thread at a time into its critical section, a try-lock on a held mutex fails without blocking, and the query whether the current thread holds it is true exactly for the holder.
A condition wait releases and reacquires the mutex, returns when notified, and a timed wait reports a timeout when, and only when, its interval has really passed.
A latch created with n releases all its waiters, present and future, once n count-downs have happened and never before - spurious wake-ups notwithstanding.""",
["schedules","fault_sequences"],
"All interleavings of several threads, spurious wake-ups, latch counts incl. zero and more count-downs than the count.",
"The mutex test increments a counter under the OS scheduler; spurious wake-ups cannot be provoked there.",
["kanon/thread/mutex_lock.h","kanon/thread/condition.h","kanon/thread/condition.cc","kanon/thread/count_down_latch.h"],
[("holder bookkeeping","MutexLock in kanon/thread/mutex_lock.h"),("counter guarded by the mutex","CountDownLatch")],
["returns of the blocking calls"])

prop("P22","Thread pool runs every accepted task once and stops without hanging",
"""Every task pushed to a running pool is executed exactly once by one of its worker threads, in submission order of starting, with at most as many tasks running at once as there are workers; idle workers take waiting tasks without further pushes.
Pushing blocks only while the bounded queue is full and resumes as soon as there is room.
Stopping or destroying the pool terminates and joins all workers whatever the number of tasks, and releases blocked pushers.""",
["schedules","configurations"],
"All interleavings of pushers, workers and stop; any numbers of workers, tasks and queue bound, including tasks that push further tasks.",
"The pool test submits few tasks and sleeps.",
["kanon/thread/thread_pool.cc","kanon/thread/thread_pool.h"],
[("bounded task queue with two conditions","ThreadPool::Push/Pop/RunInThread")],
["task executions, returns of push and stop"])

prop("P23","Memory pools never hand out overlapping or moving live memory",
"""Chunks handed out by a pool are at least as large as configured, properly usable, disjoint from every other live chunk and inside memory the pool owns; their contents are never changed by other pool operations and they do not move.
A released chunk may be handed out again, but never while it is live, and shrinking or growing the pool never affects live chunks or corrupts later allocations.
Object pools construct and destroy each object exactly once, and the allocator adaptors satisfy standard containers.""",
["histories","inputs","configurations"],
"All sequences of allocate, release, shrink, clear and growth-policy changes over several chunk sizes.",
"One object-pool test allocates a few objects.",
["kanon/mem/fixed_chunk_memory_pool.h","kanon/mem/fixed_chunk_memory_pool.cc","kanon/mem/linear_fixed_memory_pool.h","kanon/mem/object_memory_pool.h","kanon/mem/object_pool_allocator.h"],
[("intrusive free list over blocks","kanon/mem/fixed_chunk_memory_pool.cc")],
["addresses returned and memory contents after every operation"])

prop("P24","Forward list behaves as the sequence its operations describe",
"""After any sequence of operations - insertion, removal, assignment, splicing between lists, merging, reversing, sorting, uniquing, resizing, swapping, copying, moving - each list contains exactly the elements, in the order, that the documented sequence semantics give, returned iterators designate the right elements, and comparisons agree with the sequences.
Each element is constructed and destroyed exactly once, and its node freed.
Every listed operation is correct at the boundaries: empty lists, one element, whole-list ranges and end positions.""",
["histories","inputs"],
"All operation sequences over several lists with small element domains.",
"The forward-list test checks a few fixed calls.",
["kanon/algo/forward_list/forward_list.h","kanon/algo/forward_list/forward_list_impl.h","kanon/algo/forward_list/forward_list_algo.h"],
[("singly linked nodes with before-begin header","kanon/algo/forward_list")],
["traversal after every operation"])

prop("P25","Growable arrays keep their contents through growth and shrink",
"""After any sequence of operations a reserved array or fixed vector holds exactly the elements the operations wrote, at the indices they were written, with size and capacity consistent with every reserve, grow and shrink request.
Reallocation preserves existing elements, never reads or writes outside the owned storage, and copies and moves yield equal respectively transferred contents.
A fixed vector whose elements have all been constructed has exactly its requested size, holds what was written, and destroys each element once. All storage is freed with its owner.""",
["histories","inputs"],
"All operation sequences and sizes over element types with trivial and non-trivial copy.",
"The reserved-array tests check a few resizes.",
["kanon/algo/reserved_array.h","kanon/algo/fixed_vector.h","kanon/algo/libc_allocator_with_realloc.h"],
[("realloc-style growth","kanon/algo/reserved_array.h")],
["elements, sizes and capacities after every operation"])

prop("P26","Length-framed messages arrive whole, in order, exactly once",
"""With the length-header codec on both ends, the messages handed to the receiver's callback are exactly the messages sent, whole, in order and one callback each, however the byte stream is segmented or coalesced - provided that each callback takes its message, and no more, from the front of the buffer it is given.
An incomplete message is never delivered and no bytes of a later message are consumed by an earlier one.
A frame whose announced length is invalid is never delivered and shuts the connection down; nothing is delivered after the connection has gone down.""",
["inputs","schedules"],
"All message-size sequences, all segmentations of the stream into reads, all send forms of the codec, valid and invalid lengths.",
"The codec has no test; the chat example is driven by hand.",
["example/length_codec/codec.cc","example/length_codec/codec.h"],
[("frame loop over the input buffer","LengthHeaderCodec::OnMessage")],
["message callbacks of the codec; bytes on the wire"])

prop("P27","Threads run their function once, know their name, and outlive their object",
"""A function started in a Thread runs exactly once, on a thread of its own, which throughout sees its own id, id text and the name of the Thread it was started with (the one given, or else a default that is not empty); it is not the main thread.
Join returns only when the function has returned and the thread-local objects of the thread are destroyed; what the function holds is released exactly once.
Moving a Thread moves the running thread with it, and a Thread that is destroyed or assigned over without having been joined leaves its thread running undisturbed: the thread is joined or detached exactly once, and nothing is left behind. A Thread that was moved from can be used again.
A ThreadLocal gives every thread an object of its own, constructed on first use and destroyed when that thread ends.""",
["schedules","histories"],
"All interleavings of the owner with the started threads, and all sequences of construction, start, move, assignment, join and destruction of Thread objects.",
"The thread test starts and joins a few threads; it never moves a Thread or destroys one that is running.",
["kanon/thread/thread.cc","kanon/thread/thread.h","kanon/thread/thread_local.h","kanon/thread/current_thread.cc"],
[("started thread with its own data; handle joined or detached once","Thread::StartRun/Join/~Thread, detail::Run"),("moving","Thread(Thread&&), operator=(Thread&&)"),("per-thread objects","ThreadLocal::value")],
["function executions with thread id and name, join, release of captured state and thread-local objects, threads left over"])

prop("P28","Event loops and thread pools release what their callables captured",
"""Whatever a callable given to an event loop (a task, or the callback of a timer) or to a thread pool has captured stays alive while the callable may still run and while it is running - also when a timer is cancelled from inside its own callback - and is released afterwards, exactly once: before its thread next goes to sleep, once the task has run, the one-shot timer has fired, or the cancel of the timer has taken effect (a worker of a pool may keep its last task until it takes the next).
What has not run when the loop or pool is destroyed is released with it.""",
["schedules","histories"],
"All histories of tasks, timers, repeats, cancels, quits and destruction from the loop's thread, callbacks and other threads, under all schedules.",
"Tests capture nothing whose end could be seen, and an early or missing release shows only under particular histories.",
["kanon/net/event_loop.cc","kanon/linux/net/timer/timer_queue.cc","kanon/net/timer/timer.h","kanon/thread/thread_pool.cc"],
[("functor queue swapped and run","EventLoop::CallFunctors"),("active and cancelled timers","kanon/linux/net/timer/timer_queue.cc"),("task queue of the pool","kanon/thread/thread_pool.cc")],
["destruction of objects captured by callables"])

prop("P29","A string view answers as the sequence of bytes it covers",
"""After any sequence of constructions, assignments, swaps, resets, prefix and suffix removals and substrings, a StringView covers exactly the bytes they describe; whatever lies around them in memory has no influence, and bytes of every value, zero included, are ordinary bytes.
Every search - forwards and backwards, for a sequence, one character, or the first or last character in or not in a set, from any start position, which for backward searches is the last position considered - returns the position the byte sequence determines, or npos if there is none, and ends. (Searching backwards for an empty sequence, or forwards from beyond the end, is not asked.)
Prefix, suffix and containment tests, comparison (lexicographic, by unsigned byte; optionally ignoring the case of ASCII letters) and the relational operators agree with the byte sequences and with each other; split returns the pieces between the non-overlapping occurrences of a non-empty separator, empty pieces included; copying out stops at the end of the view and throws for a position outside it, as does checked element access.""",
["inputs","histories"],
"All byte sequences, patterns, positions and histories of operations on views.",
"The string view test checks one or two examples for some of the operations; most backward searches have none.",
["kanon/string/string_view.h","kanon/string/string_view.cc"],
[("pointer and length of the covered bytes","kanon/string/string_view.h")],
["results of the public operations; the bytes seen through begin/end, ToString, size and empty"])

prop("P30","Text streams and casts render and read values exactly, whole or not at all",
"""A LexicalStream and a FmtStream hold exactly the concatenation of the texts of the values written since the last reset: integers of every type in decimal over their whole range, booleans as True/False, pointers as 0x and sixteen upper case digits ((null) for a null one), floating point numbers with twelve significant digits, characters and byte sequences as they are, zero bytes included. The text always ends with a zero byte within the stream's room, and the length is that of the text.
A value that does not fit is left out as a whole, and later ones that fit are still written; an integer is never left out while more than 32 bytes are free, nor a floating point number while more than 32 are.
A format's placeholders are replaced by the arguments in their order and %% by a percent sign, wherever they stand, whatever lies behind the format in memory, and whatever the arguments contain.
Casting a value to text gives that text (up to 62 bytes); casting the decimal text of a number of the type back gives the number, and text that does not start with a number (after spaces and signs) gives no value, for every integer type, for strings and views with anything behind them; lexical_cast also gives none when anything follows the number, the StringViewTo functions read the leading number. Moving a stream keeps its text.""",
["inputs","histories"],
"All values of all supported types, all formats, and all histories of writes at every fill level of streams of several sizes.",
"The stream and cast tests print one or two values of some types into a stream that is never near its end.",
["kanon/string/lexical_stream.h","kanon/string/fmt_stream.h","kanon/string/fixed_buffer.h","kanon/string/lexical_cast.h","kanon/string/string_view_util.cc","kanon/util/optional.h"],
[("text, length and free room of a stream","kanon/string/fixed_buffer.h"),("presence and value of an optional","kanon/util/optional.h")],
["data(), size() and ToStringView() of the streams; results of the casts"])

prop("P31","Any, UniqueAny and optional own exactly the value they were last given",
"""Through any history of construction, copying, moving, swapping, clearing and modification through their casts, an Any, a UniqueAny or an optional holds nothing or exactly one value: the one last given, copied or moved into it, with its type.
Copies are independent of their originals; assigning to itself (by copy) or swapping with itself changes nothing. The source of a move is left with one of the values there were, or with nothing (for optional: only the target is asked).
A cast to the type held gives the address of the value, to every other type - and of an empty object to any type - a null pointer; type() names the type held.
Every value is destroyed exactly once: for Any and UniqueAny when it is replaced, cleared or goes away with its owner; nothing stays allocated.
An optional converts to and is assigned from an optional of a convertible type, with or without a value.""",
["inputs","histories"],
"All histories of operations on several objects, for small values and values with memory of their own, copyable and move-only.",
"The tests put one or two values into an Any and look at them; hardly any assigns over a value, copies an empty object or counts destructions.",
["kanon/util/any.h","kanon/util/unique_any.h","kanon/util/optional.h"],
[("the holder and its type","kanon/util/any.h"),("presence and value","kanon/util/optional.h")],
["results of the casts, empty(), has_value(); constructions and destructions of the values; heap blocks left"])

prop("P32","Time stamps add, compare and show time exactly",
"""A TimeStamp is a number of microseconds. Adding or subtracting seconds, milliseconds, microseconds (any int count of them), a floating point number of seconds that is a whole number of microseconds, or another time stamp, on either side of the operator, and negation give exactly the sum, difference or negative, for every point in time from 1900 to 2100 and beyond.
AddTime, AddTimeMs and AddTimeUs do the same; TimeDifference is the difference in seconds, to the microsecond. All six comparison operators agree with the order of the numbers; the seconds and milliseconds of a time stamp are the number rounded towards zero.
The formatted string is the date and time of day of the local time zone in the Gregorian calendar (leap years included), with six digits of microseconds if asked for, and FromTimeStr reads the string without them back to the same second.""",
["inputs","histories"],
"All points in time, durations and histories of arithmetic.",
"The tests add and subtract a few small durations to the current time.",
["kanon/util/time_stamp.h","kanon/util/time_stamp.cc"],
[("microseconds since the epoch","kanon/util/time_stamp.h")],
["microseconds() and the other getters, comparisons, ToFormattedString and FromTimeStr"])

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p,s)
print(len(P),"ok")
