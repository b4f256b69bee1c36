import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[]}
    a["mechanism"]=[{"name":m,"where":files[min(i,len(files)-1)]} for i,m in enumerate(mech)]
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I="include/coro/"
p("C01","A task delivers its result once and lives exactly as long as owed",
"A task does nothing until it is awaited or resumed; when it finishes, whoever awaits it is resumed exactly once and receives exactly the value, reference or exception the body produced. Moving, awaiting, partially running, completing or dropping tasks in any order destroys every parameter, local and result exactly once, leaks nothing and touches nothing after its destruction; a long run of awaits that complete one after another needs only bounded stack.",
["programs","histories"],"every tree of nested awaits, result category (value, move-only, copy-only, reference, void), exception placement, and order of move / resume / await / destroy operations",
"The tests run a handful of fixed shapes, each to completion; the guarantee is over all nestings, result categories and abandon points.",
[I+"task.hpp"],["lazy initial suspend, symmetric transfer to the stored continuation at final suspend","variant storage of value/exception and rethrow on await","move-only owning handle"])
p("C02","A generator yields its sequence lazily, in order, and propagates exceptions once",
"Iterating a generator produces exactly the values its body yields, in order, running the body only as far as needed for the next value, and ends exactly where the body ends. An exception thrown by the body reaches the iterating caller at the step that triggered it, and abandoning iteration at any point destroys the body's live locals exactly once.",
["programs","histories"],"every body (yields of lvalues/rvalues/references, throws, early return, nested generators), every number of consumed steps, every move of the generator object",
"Tests iterate two or three fixed generators to a fixed point; abandonment points, throws mid-iteration and moved generators are unbounded.",
[I+"generator.hpp"],["iterator advances by resuming the body to the next yield","exception captured by the promise and rethrown on advance"])
p("C03","Blocking wait returns only after completion, with the awaited result",
"A synchronous wait on any awaitable blocks the calling thread until that awaitable has completed, on whichever thread it completes, and then returns exactly its value or rethrows exactly its exception. Everything the awaited work wrote is visible to the caller, no wake-up is missed, and nothing belonging to the wait is touched after it has returned.",
["schedules","inputs"],"every interleaving of the completing thread with the waiting thread, every result category and every exception",
"The tests see the one or two interleavings the OS happens to pick; a missed wake-up or a use of the dead waiter needs a preemption at one specific instruction.",
[I+"sync_wait.hpp","src/sync_wait.cpp"],["a completion event guarded by a mutex/condition variable on the waiter's stack","result stored before the event is set"])
p("C04","when_all resumes once, after all children, with each own outcome in order",
"Awaiting a group of awaitables completes exactly once and only after every one of them has completed, whatever threads they complete on. The results are in argument order, each carries exactly its own child's value or exception independent of the others, and an empty group completes immediately.",
["schedules","programs"],"every number and kind of children (variadic or range), every mix of synchronous, deferred, cross-thread and throwing children, every interleaving of their completions",
"Tests use fixed sets of children; the last-child-finishes race and mixed exception positions are only sampled.",
[I+"when_all.hpp"],["an atomic countdown latch holding the awaiting continuation","per-child wrapper task storing the child's value or exception"])
p("C05","when_any yields the first finisher's own result and leaves the losers safe",
"Awaiting the first of several tasks completes exactly once, as soon as any of them has completed successfully, with the value of the first finisher (and its position for heterogeneous tasks). The supplied stop source, if any, is signalled by then; losing tasks keep running safely to their own end, and no memory of the finished wait is touched afterwards or leaked; if every task fails, the wait ends with one of their exceptions.",
["schedules","programs"],"every number and kind of tasks, every order and thread of completion, simultaneous finishers, throwing losers, losers that outlive the waiter",
"Tests stagger finishers by tens of milliseconds so the near-simultaneous and outliving cases are never reached.",
[I+"when_any.hpp",I+"detail/task_self_deleting.hpp","src/detail/task_self_deleting.cpp"],["atomic first-completed flag","self-deleting controller tasks keep losers' frames alive","notify event resumes the waiter"])
p("C06","An event wakes every waiter exactly once and never loses a set",
"A coroutine awaiting an event proceeds if and only if the event is or becomes set after it began waiting: each waiter is resumed exactly once, none stays suspended once a set has happened, and none proceeds before one. Wake order follows the requested policy, an executor-targeted set resumes waiters on that executor, and a reset never undoes or duplicates a wake-up already due.",
["schedules","histories"],"every history of wait/set/reset/is-set operations from any number of threads, both wake orders, every interleaving",
"Tests never race the suspension of a waiter against a set or reset; the lost-wakeup window is a couple of instructions.",
[I+"event.hpp","src/event.cpp"],["a single atomic word that is either the set marker or the head of the waiter list","compare-exchange publication of a waiter, exchange on set"])
p("C07","A latch opens exactly when its count reaches zero and releases everyone",
"Coroutines awaiting a latch stay suspended until the total counted down reaches the initial count, then each is resumed exactly once; later awaits pass straight through. The reported remaining count and readiness agree with the count-downs performed, and everything done before a count-down is visible after the wait.",
["schedules","histories"],"every initial count including zero, every sequence of count-down amounts from any number of threads, every placement of waiters",
"Tests count down in a fixed order on one pool; simultaneous final count-downs and waits are only sampled by luck.",
[I+"latch.hpp",I+"event.hpp"],["atomic countdown that sets an event on the final transition"])
p("C08","The mutex admits one holder, loses no waiter, and publishes writes",
"At most one coroutine holds a mutex at a time; every blocked acquirer is resumed exactly once, as the holder, and whenever the mutex is free nobody remains blocked on it. A try-lock succeeds only on a free mutex, and everything written under the lock is visible to the next holder.",
["schedules","histories"],"every history of lock / try-lock / unlock / scoped lock from any number of coroutines and threads, every interleaving",
"Mutual exclusion and wake-up hand-off are per-interleaving facts; stress tests sample an uncontrolled few.",
[I+"mutex.hpp","src/mutex.cpp"],["atomic word: unlocked / locked-no-waiters / waiter list head","unlock hands ownership directly to one waiter"])
p("C09","A scoped lock releases the mutex it owns exactly once",
"For every history of acquiring, moving, move-assigning, explicitly unlocking and destroying scoped lock objects, a mutex is locked exactly while some scoped lock object owns it: it is released exactly once when its owner is unlocked, overwritten or destroyed, and never by an object that does not own it. Exceptions leaving the guarded region release it too.",
["histories","programs"],"every sequence of construct / move / move-assign (including self and non-empty targets) / unlock / destroy over several mutexes and shared mutexes, including exceptional exits",
"The tests move a scoped lock once; overwriting a live one or unwinding through one is not exercised.",
[I+"mutex.hpp","src/mutex.cpp",I+"shared_mutex.hpp"],["RAII owner with an owned-mutex pointer exchanged on move"])
p("C10","The shared mutex keeps writers exclusive, readers shared, and strands nobody",
"A writer holds the shared mutex alone, readers only ever coexist with readers, and blocked acquirers are admitted in arrival order so that neither side starves: each is resumed exactly once and on its executor, and once the mutex is free nobody is left blocked. Try-locks succeed only when compatible with the current holders, and writes made under the exclusive lock are visible to later holders. A scoped section that ends by an exception releases the lock and passes it on.",
["schedules","histories"],"every history of shared/exclusive lock, try-lock, unlock and scoped use from any number of coroutines and threads, every interleaving",
"Tests use a few readers and one writer in a fixed arrangement; queue states and hand-off races multiply without bound.",
[I+"shared_mutex.hpp"],["internal mutex-protected state, user count and FIFO waiter list","unlock wakes the head writer or the run of readers"])
p("C11","A semaphore conserves its permits and strands no acquirer",
"Permits handed out minus permits returned never exceed the initial count, the available count never exceeds the maximum, and a blocked acquirer is resumed exactly once, each by a permit of its own; handing a permit over publishes what its previous holder wrote. Whenever permits are available nobody stays blocked, a try-acquire succeeds only with a permit, and shutdown wakes every blocked and future acquirer with a stop result that grants no permit.",
["schedules","histories"],"every maximum and starting count, every history of acquire / try-acquire / release / shutdown from any number of threads, every interleaving",
"The counter-versus-waiter-list race needs a release to land between a failed decrement and the enqueue; tests cannot place it.",
[I+"semaphore.hpp","src/semaphore.cpp"],["atomic permit counter plus atomic waiter list under an internal mutex","release hands its permit to a waiter or returns it to the counter"])
p("C12","A queue delivers every element once, in order, and shuts down without loss",
"Every element accepted by the queue is delivered to exactly one consumer, in the order accepted; a consumer waits only while the queue is empty and is resumed exactly once, with an element or a stop. After shutdown nothing more is accepted and every waiter is released; a draining shutdown first delivers everything already accepted, and no history of racing shutdowns prevents an immediate one from taking effect.",
["schedules","histories"],"every history of push / emplace / pop / try-pop / size / shutdown / draining shutdown by any number of producers and consumers, every interleaving",
"Tests check totals on a few arrangements; hand-off races and shutdown during a hand-off are only sampled.",
[I+"queue.hpp"],["internal mutex, element FIFO, waiting-consumer list, direct hand-off to a waiting consumer","running state machine: running / draining / stopped"])
p("C13","A ring buffer is a bounded FIFO that never loses, duplicates or strands",
"Every element reported as produced is consumed exactly once and in production order, and no more than the capacity is ever stored; producers wait only while it is full, consumers only while it is empty, and each is resumed exactly once with the outcome that really happened. Shutdown releases every waiter with a stop result, a draining shutdown first delivers what was produced, and an element refused by a shutdown is never reported as produced.",
["schedules","histories"],"every capacity, every history of produce / try-produce / consume / try-consume / shutdown / draining shutdown by any number of coroutines and threads, every interleaving",
"Tests run a fixed number of producers and consumers to completion; waiter hand-offs interleaved with shutdown are not reached.",
[I+"ring_buffer.hpp"],["mutex-protected storage with front/back cursors","producer and consumer waiter lists drained after each operation","running state machine"])
p("C14","A condition variable loses no notification and resumes waiters holding the lock",
"A waiter atomically releases the lock and waits: a notification sent after that reaches it, and it resumes exactly once, holding the lock, with its predicate true at that point if it gave one. Notify-one releases one waiter that can proceed on plain waits and notify-all releases every waiter whose predicate holds, so a waiter whose predicate was made true under the lock before a notify-all never stays suspended; a requested stop with a notification ends the wait.",
["schedules","histories"],"every mix of plain, predicate and stop-token waits, every history of state change / notify-one / notify-all inside or outside the lock, every interleaving of threads",
"A notification arriving while a woken waiter re-queues itself is a narrow window; the tests never aim at it.",
[I+"condition_variable.hpp","src/condition_variable.cpp"],["atomic list of waiters, popped by notify","each woken waiter re-acquires the mutex, evaluates its predicate and re-queues if not ready"])
p("C15","A timed condition wait reports truthfully and leaves nothing dangling",
"A timed wait resumes exactly once, holding the lock, either because it was notified (with its predicate true if given) or because the time really elapsed, never earlier, and its return value says which: a timeout is only reported once the duration has passed and a predicate result is the predicate's value. A notification that arrives at, just before or long after the timeout touches no memory of the finished wait and is not lost to other waiters by being spent on it.",
["schedules","histories"],"every mix of timed waits (plain, predicate, stop token) with notifications before, at and after the deadline, on scheduler executors with any thread arrangement, every interleaving",
"Tests separate notifications from deadlines by wide margins of real time; the interesting histories are the coincidences.",
[I+"condition_variable.hpp","src/condition_variable.cpp"],["controller shared between a notify callback task and a timeout task; the first to claim it resumes the waiter"])
p("C16","The thread pool runs every accepted coroutine exactly once, on its threads",
"Every coroutine accepted by the thread pool is resumed exactly once, on one of its own threads; a single thread runs it in the order accepted. Work that is refused is neither run nor leaked, and reported where the call has a result. Shutdown returns only after all accepted work that can run has run; each thread's start and stop callbacks run once; the reported size is non-zero while accepted work is unfinished and returns to zero.",
["schedules","histories"],"every thread count, every history of schedule / yield / resume / bulk resume / spawn / shutdown from inside and outside the pool, every interleaving",
"Submission racing shutdown or the last worker going idle depends on the schedule, which the tests do not control.",
[I+"thread_pool.hpp","src/thread_pool.cpp",I+"detail/task_self_deleting.hpp","src/detail/task_self_deleting.cpp"],["mutex+condition-variable protected FIFO of handles","size counter raised before publication and dropped after execution","shutdown flag checked by submitters and workers"])
p("C17","A task group completes exactly when every started task has completed",
"Every task started in a group runs once on the group's executor, and awaiting the group resumes only when no started task is unfinished, including tasks started by members while running. The reported size equals the number of unfinished tasks, tasks that cannot be started are reported and not counted, and destroying each task's state happens exactly once.",
["schedules","histories"],"every history of start / await / size queries from inside and outside group members, repeated fill-and-drain cycles, every interleaving",
"The zero-crossing of the member count racing a new start cannot be placed by a test.",
[I+"task_group.hpp",I+"thread_pool.hpp","src/thread_pool.cpp"],["atomic member count, completion event set on the transition to zero"])
p("C18","The scheduler runs all accepted work and stops only when none is left",
"Every coroutine scheduled, resumed, yielded or spawned on a scheduler runs exactly once per request on the threads its execution strategy promises, in any thread strategy; refused work is reported and neither run nor leaked. Shutdown completes promptly once the outstanding work is done (at once if there is none), never refuses what was already accepted, wakes no one twice, and the reported size returns to zero.",
["schedules","histories","configurations"],"both thread strategies, both execution strategies, every history of schedule / resume / yield / spawn / shutdown from inside and outside, every interleaving",
"The wake-up pipe flag, the submission list and the size counter race in ways the tests cannot steer.",
[I+"scheduler.hpp","src/scheduler.cpp",I+"detail/awaiter_list.hpp"],["lock-free list of scheduled operations plus a wake-up pipe guarded by a triggered flag","size counter deciding when the event loop may exit"])
p("C19","Timers fire exactly once, never early, in deadline order, and are never lost",
"A coroutine that asks to resume after a duration or at a time point resumes exactly once, never before that moment, and as soon as the event loop can run after it; a zero, negative or past request behaves like an ordinary schedule. Timers fire in deadline order whatever order they are created in, and adding or removing one never delays or drops another.",
["schedules","histories","inputs"],"every set of durations (sub-millisecond to hours, equal, past), created from any thread before, during and after others fire, every strategy, every interleaving",
"Wall-clock tests must allow slack and wait for real; early firing by fractions of a millisecond and re-arm races go unnoticed.",
[I+"scheduler.hpp","src/scheduler.cpp","src/detail/io_notifier_epoll.cpp","src/detail/timer_handle.cpp"],["ordered multimap of deadlines under a mutex","a single kernel timer re-armed to the earliest deadline"])
p("C20","Polling a descriptor reports the first true cause, once, and leaves no residue",
"A poll resumes exactly once with a truthful status: ready only if the requested operation was ready, closed only on hang-up (for a write, the peer having merely shut down its own writing is none), timeout only after the timeout elapsed, cancelled only if its token was triggered; and it does resume once any of these holds. A descriptor that cannot be watched is reported as an error, and one descriptor or token may serve several polls at once. Afterwards the descriptor, the token and the scheduler are exactly as before, so any later poll, with the same or other tokens and timeouts, behaves as a first one.",
["schedules","histories"],"every sequence of polls (read, write, both) over pipes and sockets with every timeout and cancellation, with readiness, deadline, cancellation and close coinciding in any order, every strategy, every interleaving",
"Tests exercise one cause at a time with generous gaps; coincidences and reuse of the same token or descriptor are histories they do not run.",
["src/scheduler.cpp",I+"poll.hpp","src/poll.cpp",I+"detail/poll_info.hpp","src/detail/io_notifier_epoll.cpp"],["a per-poll record registered for the descriptor, the timer and the cancel descriptor","first event marks it processed and deregisters the others"])
p("C21","A task run with a timeout reports exactly which came first",
"Running a task with a timeout runs it on the scheduler and delivers the task's own value or exception if it finished in time and a timeout otherwise, never a timeout before the duration has elapsed, and it does return by the deadline however long the task runs. A non-positive timeout means no limit; with a stop source, the task sees the stop request exactly when it has timed out, and in every case the task still runs safely to its own end.",
["schedules","inputs"],"every duration, every task completion time before, at or after the deadline, value and void results, with and without a stop source, every strategy and interleaving",
"The boundary where completion and deadline coincide cannot be produced with real clocks.",
[I+"scheduler.hpp",I+"when_any.hpp"],["first-of race between the task and a timer task","stop source requested when the race is decided"])
p("C22","TCP transfers deliver exactly the bytes sent, and counts and statuses are true",
"Over a TCP connection the receiver obtains exactly the byte sequence sent, in order and without gaps or repeats, however reads, writes, partial transfers and would-block conditions are interleaved. Full-transfer operations finish only with every byte moved or with an error, every returned span (counted in elements) and status describes exactly what happened, an orderly close is reported as closed only after all data and only to the side that reads, and timeouts are reported only after they elapse.",
["inputs","schedules","fault_sequences"],"every payload, every chunking into write-some/write-all/read-some/read-exact with every buffer size, every pattern of short transfers, EAGAIN, interrupts, resets and closes by the peer, every interleaving",
"Loopback tests never see short writes or would-block mid-message; the exact-count logic is only run on whole transfers.",
[I+"net/tcp/client.hpp","src/net/tcp/client.cpp",I+"net/tcp/server.hpp","src/net/tcp/server.cpp","src/net/io_status.cpp","src/net/socket.cpp"],["non-blocking send/recv with poll-and-retry loops advancing a span","errno mapped to a status"])
p("C23","UDP datagrams arrive whole, with their true sender, and statuses are true",
"Each datagram received is exactly one datagram that was sent to that peer, complete up to the buffer given, with the sender's true address and port; none is invented, merged, split or altered. A reported success means the datagram was handed over whole and exactly once, every span and status describes exactly what happened, and timeouts are reported only after they elapse.",
["inputs","fault_sequences","histories"],"every payload size including empty, every buffer size, every pairing of peers, would-block and refusal faults, IPv4 and IPv6",
"Tests send one or two fixed datagrams; sizes, empties, truncation and faults are unbounded.",
[I+"net/udp/peer.hpp","src/net/udp/peer.cpp","src/net/io_status.cpp",I+"net/socket_address.hpp"],["recvfrom/sendto with address round trip","errno mapped to a status"])
p("C24","TLS transfers deliver exactly the bytes sent, without stalling on buffered data",
"Over an established TLS connection the receiver obtains exactly the byte sequence sent, in order, for every split into sends and receives: data already decrypted is delivered without waiting for more network traffic. Handshake success is reported only when the handshake succeeded, failures and closes are reported as such, and every operation with a timeout returns once it elapses.",
["inputs","schedules","fault_sequences"],"every payload and chunking, receive buffers smaller and larger than a record, would-block conditions on either side, peers that stall or close, every interleaving",
"The tests exchange one short message that fits one record and one buffer.",
[I+"net/tls/client.hpp","src/net/tls/client.cpp",I+"net/tls/server.hpp","src/net/tls/server.cpp","src/net/tls/context.cpp"],["poll then SSL_read/SSL_write, mapping want-read/want-write to further polls"])
p("C25","IP and socket addresses round-trip and reject everything invalid",
"Parsing an address accepts exactly the textual forms of its address family within the text given, produces the same bytes the operating system's conversion does, and formatting then re-parsing yields an equal address. Conversion to and from the operating system's socket address form preserves address, port and family; equality and ordering agree with the represented values.",
["inputs"],"every string (valid, nearly valid, arbitrary, not null terminated), every byte array, port and family",
"Tests check a handful of well-formed literals.",
[I+"net/ip_address.hpp","src/net/ip_address.cpp",I+"net/socket_address.hpp",I+"net/hostname.hpp"],["inet_pton/inet_ntop over a fixed byte array","sockaddr storage accessors"])
p("C26","Every descriptor is owned once: never leaked, never closed for someone else",
"Through every history of constructing, moving, copying, assigning, shutting down, closing and destroying sockets, clients, servers, peers, pipes, stop sources and schedulers, each operating-system descriptor they opened is closed exactly once, when its last owner lets go, and no descriptor belonging to anyone else is ever closed. Moved-from and default objects own nothing, copies are independently owned, and failures part-way leak nothing.",
["histories","fault_sequences"],"every sequence of construct / move / copy / assign (including self) / close / destroy over these types, with failing system calls at any point",
"A leaked or foreign-closed descriptor is silent; no test counts descriptors over assignment histories.",
[I+"net/socket.hpp","src/net/socket.cpp",I+"detail/pipe.hpp","src/detail/pipe.cpp",I+"poll.hpp","src/poll.cpp",I+"net/tcp/client.hpp","src/net/tcp/client.cpp",I+"net/udp/peer.hpp"],["descriptor held with -1 as the empty value and exchanged on move","dup on copy"])
p("C27","invoke keeps the callable and its arguments alive for the whole coroutine",
"Invoking a coroutine-producing callable runs it exactly once with exactly the arguments given and yields its result or exception to the awaiter, however many times and on whatever threads the coroutine suspends. Captured state and by-value arguments stay alive until the coroutine has finished and are destroyed exactly once.",
["programs","schedules"],"every callable (stateless, capturing, move-only), argument category and result category, any number of suspensions on any executor",
"Tests invoke coroutines that finish without suspending, or suspend in one fixed way.",
[I+"invoke.hpp"],["an outer coroutine frame holding the callable while its task runs"])
p("C28","A manual event loop makes exactly the progress asked of it",
"On a scheduler driven by hand, each call processes what is ready without blocking beyond its timeout, returns the number of tasks still outstanding, and repeated calls complete every task whose event has happened. Calls made concurrently or re-entrantly never run a task twice or lose one.",
["schedules","histories"],"every interleaving of driving calls with every timeout, from one or several threads, with work and timers submitted from any thread",
"Tests drive the loop in a fixed while loop on one thread.",
[I+"scheduler.hpp","src/scheduler.cpp"],["single-processor flag guarding the event loop body","size counter returned to the driver"])
p("C29","Name resolution always answers, truthfully, once per request",
"Each lookup resumes its caller exactly once with a completed status and the addresses the name server gave for that name, or an error status when it gave none, timed out or failed; concurrent lookups do not mix their answers. No lookup leaves a pending operation or descriptor behind.",
["inputs","schedules","fault_sequences"],"every set of concurrent names and answers (A/AAAA, empty, error, delayed, lost), every interleaving",
"The tests resolve one public name and depend on a live network.",
[I+"net/dns/resolver.hpp"],["c-ares channel driven by polls on its descriptors","per-lookup result record resumed on completion"])
p("C30","The process-wide default executors are created once and usable from any thread",
"However many threads first ask for a default executor at once, all get the same live instance, configured as last requested before creation, and work given to it runs. It starts no more than one set of threads.",
["schedules"],"every interleaving of first uses from several threads with and without prior configuration",
"The first-use race happens once per process, so a unit test sees at most one interleaving.",
[I+"default_executor.hpp","src/default_executor.cpp"],["lazily created static instance behind an atomic pointer"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+"\n" for x in P))
for x in P:
    
    if len(x['title'])>80: print(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
