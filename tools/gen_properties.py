#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook="src/sim.rs seam (cfg thingbuf_sim)"):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        observe_at=list(observe),hook_needed=hook)))
LIB="src/lib.rs"; MP="src/mpsc.rs"; AS="src/mpsc/async_impl.rs"; BL="src/mpsc/blocking.rs"; WC="src/wait/cell.rs"; WQ="src/wait/queue.rs"; RC="src/recycling.rs"; TB="src/thingbuf.rs"; SB="src/static_thingbuf.rs"; ER="src/mpsc/errors.rs"; MX="src/util/mutex/spin_impl.rs"

p("C01","Every sent message is delivered exactly once and intact",
 "Every message whose send was reported successful is handed to the receiver exactly once, with exactly the contents the sender left in it, unless the receiver is dropped first. A send that reports failure, times out or is cancelled delivers nothing, and a by-value send that fails returns the original message to the caller. The receiver never obtains a message that nobody sent.",
 ["schedules","histories","configurations","fault_sequences"],
 "all interleavings of any number of senders and one receiver, over all four channel flavours, any capacity and any mix of by-value, by-reference, non-blocking, waiting, timed and cancelled operations",
 "Existing tests run a handful of fixed sender/receiver programs under whatever schedule the OS happens to give; losing or duplicating a message needs a particular interleaving of claim, publish and release across laps of the ring.",
 [LIB,MP,AS,BL],[("slot state/generation protocol","Core::push_ref, Core::pop_ref, Ref::drop in src/lib.rs"),("by-value wrappers","ChannelCore::try_send/try_recv in src/mpsc.rs; send/recv in async_impl.rs and blocking.rs")],
 [("head/tail","claim counters with lap number and closed bit","Core in src/lib.rs"),("slot state","which lap and phase the slot is in","Slot in src/lib.rs")],
 ["return values of send*/recv*/try_* and the contents seen through returned values and references"])

p("C02","Channel messages arrive in send order",
 "If one send began claiming its place only after another send had already obtained its place (in particular, two sends made one after the other through the same handle, or ordered by any synchronisation between threads), the receiver obtains their messages in that order. This holds regardless of the order in which by-reference sends are completed, and whichever receive method obtains each message.",
 ["schedules","histories","configurations"],
 "all interleavings of senders and the receiver, all flavours, capacities, laps of the ring, and orders of completing by-reference sends",
 "Ordering tests in the repository are single-producer or sum-based; an order inversion needs a producer stalled between claiming and publishing while others lap it.",
 [LIB,MP],[("monotone claim counters","Core::push_ref/pop_ref in src/lib.rs"),("lap (generation) arithmetic","Core::next, idx_gen in src/lib.rs")],
 [("head/tail","claim counters","Core in src/lib.rs")],["sequence of messages returned by the receiver against the real-time/happens-before order of sends"])

p("C03","The lock-free queue is a linearizable multi-producer multi-consumer FIFO",
 "Any concurrent history of pushes and pops, by value, by reference or by closure, on the heap-allocated or the static queue is explained by a sequential first-in first-out queue: each pushed element is popped at most once and by one consumer only, no element that was not pushed is popped, elements leave in the order their pushes claimed places, and everything pushed and not popped is still there when the queue is drained. A pushed element becomes visible to consumers only once its push has completed.",
 ["schedules","histories","configurations"],
 "all interleavings of several producers and several consumers over both queue types, any capacity (including 1 and non powers of two) and any number of laps",
 "The repository's queue tests are loom models that are not part of the stable suite, plus single-threaded examples; multi-consumer laps at small capacities are never exercised with real schedules.",
 [LIB,TB,SB],[("MPMC ring protocol","Core::push_ref/pop_ref/next, Ref::drop in src/lib.rs"),("wrappers","ThingBuf and StaticThingBuf push*/pop* methods")],
 [("head/tail/slot state","ring protocol state","src/lib.rs")],["results of push*/pop* on ThingBuf and StaticThingBuf"])

p("C04","Capacity is a hard bound and full, empty and length reports are truthful",
 "A queue or channel of capacity N never holds more than N claimed and unreleased elements at once, and always lets N be in it at once; a capacity of zero is refused when the queue or channel is constructed. A non-waiting push or send is refused for lack of room only if at some moment during the call the place it would need was still occupied or in use by a reference, and a non-waiting pop or receive reports nothing available only if at some moment during the call there was no completed element at the front. The reported length and remaining room agree with the number of elements in the queue at some moment during the call, never exceed the capacity and sum to it.",
 ["schedules","histories","configurations"],
 "all interleavings and histories over all queue and channel flavours, any capacity, any lap, references held or not",
 "Tests check full/empty only in sequential programs on a quiet queue; a spurious full or empty, or a length that is off by a lap, needs a concurrent peer stopped at a specific step.",
 [LIB,TB,SB,MP],[("full/empty decision","Core::push_ref/pop_ref in src/lib.rs"),("length","Core::len in src/lib.rs; len/remaining/is_empty in thingbuf.rs and static_thingbuf.rs")],
 [("head/tail","occupancy","Core in src/lib.rs")],["Full/Empty errors, len(), remaining(), is_empty(), capacity()"])

p("C05","References give exclusive, race-free access and publish all writes",
 "While a push, pop, send or receive reference to an element is alive, no other thread can read, write, reset or drop that element through the library. Everything written through a reference (or passed by value) before it is released is fully visible to whoever next obtains that element, and no two threads ever access the same element, or the library's own internal data, without synchronisation, under the language's memory model and not only on strongly ordered hardware.",
 ["schedules","histories","configurations"],
 "all interleavings and all weak-memory outcomes the Rust/C++20 memory model permits, for all queue and channel flavours",
 "Tests run on x86, whose hardware ordering hides missing acquire/release edges, and the loom models are not in the stable suite.",
 [LIB,MP,WC,WQ,MX],[("acquire/release on slot state","Core::push_ref/pop_ref, Ref::drop in src/lib.rs"),("field drop order of send/receive references","SendRefInner/RecvRefInner in src/mpsc.rs"),("waiter list lock and wait-cell state","src/wait/queue.rs, src/wait/cell.rs, src/util/mutex/")],
 [("slot value cells","element storage","Slot in src/lib.rs")],["happens-before between every pair of conflicting element and internal-cell accesses; aliasing of live references"])

p("C06","A waiting receiver never misses a wake-up",
 "If the receiver is waiting (blocked, timed, or as a polled task) and a message becomes available at the front of the queue, or the last sender goes away, the receiver is woken and its operation completes, using the task handle it most recently polled with. This holds however the send and the start of the wait interleave, with spurious wake-ups, repeated polls, abandoned earlier receive attempts and messages completed out of order.",
 ["schedules","histories","fault_sequences","configurations"],
 "all interleavings of registration, notification and closing; all flavours; spurious wake-ups and changes of waker",
 "A lost wake-up needs the notification to fall into a window of a few instructions during registration; tests hit it by luck, and a hang shows only as a timeout.",
 [WC,MP,AS,BL],[("single-waiter cell registration/notification protocol","WaitCell::wait_with, notify2 in src/wait/cell.rs"),("re-check after registration","ChannelCore::poll_recv_ref in src/mpsc.rs"),("notify on send completion","NotifyRx drop in src/mpsc.rs")],
 [("wait cell state","waiting/parking/notifying/closed bits","src/wait/cell.rs")],["progress of recv*/poll_recv* once a message or close is available"])

p("C07","A waiting sender is never stranded",
 "If senders are waiting for room and the receiver keeps receiving (or goes away), every waiting sender that has not been cancelled or timed out eventually completes; in particular, senders are never all left waiting while the queue is empty. Nor is a waiting sender starved by waiting senders that began to wait later. A wake-up that was given to a sender that is cancelled, times out or loses the freed place to another sender is never lost to the remaining waiters.",
 ["schedules","histories","fault_sequences","configurations"],
 "all interleavings of waiting, waking, barging, cancelling and timing out over any number of senders, all flavours",
 "Tests have few waiting senders, never cancel one between its wake-up and its next poll, and hang only under rare timing.",
 [WQ,MP,AS,BL],[("intrusive wait queue","WaitQueue::start_wait/continue_wait/notify in src/wait/queue.rs"),("cancellation","PinnedDrop for SendRefFuture in async_impl.rs; send_ref_timeout in blocking.rs"),("notify on receive completion","NotifyTx drop in src/mpsc.rs")],
 [("queue state and list","stored notification / waiters","src/wait/queue.rs")],["progress of send*/send_ref*/timed sends while the receiver receives"])

p("C08","When all senders are gone the receiver drains, then sees the close",
 "After the last sender handle is dropped (normally or while its thread is panicking) the receiver still obtains every message sent before, and after the last of them every receive promptly reports closed instead of waiting or reporting empty. Closed is never reported while any sender handle exists or while a sent message has not been received, and the receiver's closed query is true exactly when no sender handle is left. Once a receive has reported closed, no later one reports anything else.",
 ["schedules","histories","crash_points","configurations"],
 "all interleavings of clones, drops, sends and receives, for all four channel flavours, including drops during unwinding",
 "Tests drop senders at quiet points; a premature or missed close needs clone/drop/receive races or a panic at a particular point.",
 [AS,BL,MP,LIB,WC],[("sender count","Clone/Drop for Sender and StaticSender in async_impl.rs, blocking.rs"),("closed bit and close notification","Core::close in src/lib.rs, WaitCell::close_tx in src/wait/cell.rs"),("drain on close","ChannelCore::poll_recv_ref in src/mpsc.rs"),("is_closed","Receiver::is_closed in async_impl.rs, blocking.rs")],
 [("tx_count","number of live sender handles","ChannelCore in src/mpsc.rs")],["None/Closed results of recv*/try_recv*/recv_timeout*, is_closed()"])

p("C09","When the receiver is gone every send fails promptly and says so",
 "Once the receiver has been dropped (normally or while its thread is panicking), every later send of any kind fails as closed, and every sender already waiting is woken and fails as closed; nobody keeps waiting. A send never reports closed while the receiver exists, and after one send has reported closed no later send is accepted or reports anything else; a by-value failure carries the original message, and the error's own classification (full or timed out versus closed) matches what happened.",
 ["schedules","histories","crash_points","configurations"],
 "all interleavings of receiver drop with sends, waits, wake-ups and cancellations, for all four channel flavours",
 "Tests drop the receiver at quiet points; a sender that enqueues itself while the receiver is closing is a few-instruction window.",
 [MP,WQ,LIB,ER,AS,BL],[("close","ChannelCore::close_rx in src/mpsc.rs, Core::close in src/lib.rs"),("waking all waiters","WaitQueue::close in src/wait/queue.rs"),("error values","src/mpsc/errors.rs")],
 [("closed bit / queue CLOSED state","receiver gone","src/lib.rs, src/wait/queue.rs")],["Closed errors of send*/try_send*/send_timeout*, error predicates and returned values"])

p("C10","Abandoned waits leave nothing behind",
 "A waiting send or receive may be abandoned at any moment: its future dropped before or after being woken, or its timeout expired. Afterwards the channel behaves as if the wait had never happened: no message is sent or consumed, no other waiter or the channel is disturbed, and the library never again touches the memory of the abandoned wait.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of abandoning with waking, closing and other waiters entering and leaving, at any poll count, for async and timed blocking operations",
 "Tests cancel rarely and cannot see a dangling waiter: touching freed stack or heap memory usually goes unnoticed.",
 [WQ,AS,BL],[("unlinking","Waiter::remove and List::remove in src/wait/queue.rs"),("future drop","PinnedDrop for SendRefFuture in async_impl.rs"),("timed send","send_ref_timeout in blocking.rs")],
 [("intrusive list links","waiters live in futures and stack frames","src/wait/queue.rs")],["liveness and contents of later operations; accesses to dead waiter memory"])

p("C11","Timed operations respect their timeout",
 "A timed send or receive that cannot proceed reports a timeout no earlier than the requested duration after it was called and as soon as that duration has passed (provided other threads are not stopped halfway through an operation), however often it is woken in between. One that can proceed succeeds, and one whose channel closes reports closed, without waiting for the timeout; a receive that is still asleep when a message arrives or the last sender goes away never reports a timeout instead; a timed-out send returns the message and a timed-out operation has no other effect.",
 ["schedules","histories","inputs","fault_sequences"],
 "all durations (including zero and very long), all interleavings of wake-ups, spurious wake-ups, competing senders, closing and the passage of time",
 "Real-time tests can only sample a few milliseconds of schedules and cannot distinguish late from slow.",
 [BL,ER],[("timed loops","recv_ref_timeout, send_ref_timeout in src/mpsc/blocking.rs")],
 [("elapsed time","start instant of the operation","src/mpsc/blocking.rs")],["results and simulated duration of *_timeout operations"])

p("C12","Every element is created and dropped exactly once",
 "Every element the library creates or is given is dropped exactly once: by whoever received it by value, when it is overwritten, or when the queue or channel is destroyed; none is leaked, dropped twice, or read or dropped before being initialised. This holds for queues that are empty, partly filled, never used, or wrapped any number of times, and whichever thread drops the last handle.",
 ["schedules","histories","configurations","crash_points"],
 "all histories and teardown orders over all queue and channel flavours and element types, with messages still queued or references released late",
 "Leaks and double drops pass silently in ordinary tests, and the teardown path depends on lap and position at the moment the last handle goes away.",
 [LIB,TB,SB,AS,BL,RC],[("teardown","Core::drop_slots and Drop impls in src/lib.rs, thingbuf.rs, static_thingbuf.rs, async_impl.rs, blocking.rs"),("first-lap initialisation","Core::push_ref in src/lib.rs"),("by-value take","recycling::take in src/recycling.rs")],
 [("initialised prefix","derived from tail position and lap","Core::drop_slots in src/lib.rs")],["constructor/destructor ledger of tracked elements"])

p("C13","Reused elements are reset by the recycling policy, and reused in place",
 "A by-reference push or send always starts from a fresh or properly reset element according to the configured recycling policy, never from a stale earlier message. An element consumed by reference stays in its place and is reset and reused rather than replaced, so the policy creates at most one new element per place plus one per by-value receive. The capacity-retaining policy keeps allocations up to its maximum and starts elements at its minimum.",
 ["schedules","histories","configurations"],
 "all interleavings and histories of by-value and by-reference operations over all flavours, custom, default and capacity-retaining policies and every supported collection type",
 "Tests look at one or two laps of one flavour with one element type.",
 [RC,LIB,MP],[("initialise or recycle on claim","Core::push_ref in src/lib.rs"),("take on by-value receive","recycling::take in src/recycling.rs"),("policies","DefaultRecycle, WithCapacity in src/recycling.rs")],
 [],["contents and identity of elements seen through push/send references; counts of policy calls"])

p("C14","Memory use is fixed at construction",
 "After a queue or channel has been constructed, no operation on it allocates memory on its own behalf: not pushing, popping, sending, receiving, waiting, waking, cancelling, timing out, cloning or dropping handles, however many tasks or threads are waiting. The memory is released exactly once, when the last handle is gone.",
 ["schedules","histories","configurations"],
 "all operations under all interleavings, including any number of waiters, for every flavour",
 "No existing test observes allocations, and the waiting paths only run under contention.",
 [WQ,WC,AS,BL,LIB],[("intrusive waiters stored in futures/stack frames","src/wait/queue.rs"),("preallocated slots","Slot::make_boxed_array/make_static_array in src/lib.rs")],
 [],["allocator calls made by library code during each operation"])

p("C15","Non-waiting operations never wait for other threads",
 "A non-waiting push, pop, send, receive or length query returns after a bounded number of its own steps even if every other thread is stopped forever at an arbitrary point inside its own operation or while holding references. In particular it never spins until another thread finishes a write or releases an element; the one exception is the short internal lock an operation that frees a place may take to wake a waiting sender.",
 ["schedules","fault_sequences","configurations"],
 "all points at which any set of other threads may be suspended or hold references, all flavours, capacities and laps",
 "Tests never stop a thread mid-operation; spinning on a stalled peer looks like slowness, not failure.",
 [LIB,TB,SB,MP],[("claim loops with bounded back-off","Core::push_ref/pop_ref/len in src/lib.rs, Backoff in src/util.rs")],
 [],["number of own steps taken by try_send*/try_recv_ref/push*/pop*/len with all peers frozen"])

p("C16","A panic in user code does not break the queue or channel for others",
 "If a thread or task panics while holding a reference, inside a closure given to a push or pop, while owning handles, or (with the std feature) when the library clones its waker during a poll, its references and handles are released by unwinding as by a normal drop, and every other thread continues to operate normally: nothing hangs, no other message is lost, duplicated or corrupted, and every element is still dropped exactly once.",
 ["crash_points","schedules","histories"],
 "all panic points in user code while references, closures or handles are live, all interleavings of the unwinding with other threads, all flavours",
 "The repository has no tests that panic while other threads use the channel.",
 [LIB,MP,AS,BL,WC],[("drop-based release","Drop for Ref, NotifyRx, NotifyTx, Sender, Receiver"),("unwind handling in the wait cell","WaitCell::wait_with in src/wait/cell.rs")],
 [],["all other properties, over runs with injected panics"])

p("C17","A static channel can be split once only",
 "However many threads race to split the same static channel, exactly one obtains the sender and receiver pair and all others are refused, so there is never more than one receiver; the pair obtained is fully functional.",
 ["schedules","configurations"],
 "all interleavings of racing splits, with the winner's first operations, for both static channel flavours",
 "Tests split once from one thread.",
 [AS,BL],[("split flag","StaticChannel::try_split in async_impl.rs and blocking.rs")],
 [("is_split","set by the winner","StaticChannel")],["results of try_split from concurrent threads"])

p("C18","Waiting operations sleep instead of spinning",
 "A waiting send or receive that cannot proceed, when no other thread is in the middle of an operation on the channel, suspends its thread or task after a bounded number of its own steps and takes no further steps until something relevant happens. This stays true after wake-ups that turned out to be useless, such as losing the freed place to another sender.",
 ["schedules","histories","fault_sequences"],
 "all histories of wake-ups, lost races and spurious wake-ups leading up to the wait, all flavours",
 "Busy-waiting is invisible to functional tests: the operation still completes.",
 [BL,AS,MP,WQ,WC],[("park/pending after registration","recv_ref, send_ref and timed variants in blocking.rs; SendRefFuture::poll in async_impl.rs; ChannelCore::poll_recv_ref in mpsc.rs")],
 [],["own steps taken by a waiting operation while all peers are idle"])

p("N01","Thread-safety marker traits admit only sound sharing",
 "The public handle and reference types can be sent or shared between threads exactly when doing so is sound for the element type.",
 ["programs"],"all user programs and element types that the type system accepts",
 "A test can show that a program compiles, not that every unsound program is rejected.",
 [LIB,WC,WQ,MX],[("unsafe Send/Sync impls","Ref, Slot in src/lib.rs; WaitCell; Waiter")],(),["compilation of user programs"],None)

p("C19","Correct beyond the wrap-around of the position counters",
 "A queue or channel keeps all of its guarantees when its internal position counters overflow and start again, which on 32-bit targets happens within hours of use: messages keep their order, nothing is lost, duplicated or stuck, full, empty and closed are told apart, and every element is dropped exactly once.",
 ["histories","schedules","configurations"],
 "all histories and interleavings around the overflow, for every capacity and flavour",
 "No test can run the 2^60 (64-bit) or 2^28 (32-bit) operations it takes to get there.",
 [LIB],[("wrapping lap arithmetic","Core::next, Core::next_lap, push_ref, pop_ref, len, drop_slots in src/lib.rs")],
 [("generation","0 only while the slots have not been initialised","Core::next_lap in src/lib.rs")],
 ["all other properties, over runs that start a few laps before the overflow"])

p("C21","Waiting senders are woken in the order they began to wait",
 "When a place is freed, or a wake-up is passed on by a sender that gives up, the sender that has been waiting longest is the one that is woken: a sender that started to wait later is not woken before one that started to wait earlier and still waits. Being polled again, woken spuriously or given another waker does not cost a waiting sender its turn. (A woken sender that finds its place taken by a sender that did not wait starts to wait anew.)",
 ["schedules","histories","fault_sequences","configurations"],
 "all interleavings of waiting, waking, repolling, cancelling and timing out over any number of senders, all flavours",
 "Tests have one or two waiting senders and never look at who is woken first; without an order a sender can be overtaken for ever.",
 [WQ,AS,BL],[("order of the wait list","List::enqueue, List::dequeue, List::remove in src/wait/queue.rs"),("repolling without leaving the list","WaitQueue::continue_wait in src/wait/queue.rs"),("passing a wake-up on","Waiter::remove in src/wait/queue.rs")],
 [("wait list","senders waiting for room, oldest last","src/wait/queue.rs")],["order of the wake-ups of waiting send*/send_ref*/timed sends"])

p("C20","Wakers may use the channel they wake for",
 "Whenever an async channel wakes, clones, replaces or drops a task's waker, the code behind that waker may itself use the same channel: poll the woken task at once, send a message, drop a pending send or drop a sender. Nothing deadlocks because of it, no message or wake-up is lost, and all other guarantees keep holding.",
 ["schedules","histories","fault_sequences"],
 "all points at which the library calls into a waker, all uses of the channel from there, all interleavings with other tasks",
 "The tests' wakers only unpark a thread; re-entrance needs a waker that runs user code at the exact moment the library calls it.",
 [AS,MP,WQ,WC],[("wakers are called and dropped outside the wait list's lock","WaitQueue::notify_slow, close, continue_wait_slow in src/wait/queue.rs; WaitCell::wait_with, notify2 in src/wait/cell.rs")],
 [],["all other properties of the async channels, over runs whose wakers use the channel"])

p("N03","Throughput and latency claims",
 "The channel is competitive with other bounded channels in throughput and latency under contention.",
 ["configurations"],"all hardware and workloads",
 "Performance is not a functional property.",
 ["bench"],[("benchmarks","bench/")],(),["wall-clock measurements"],None)

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
