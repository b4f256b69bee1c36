"""known-findings.json: repaired defects are taken from /repo's fix: commits (property by the table), open findings from KNOWN below"""
import json, subprocess
FIX = [ # (start of subject after "fix: ", property, what failed)
 ("latch::remaining()", "C07", "remaining() went negative after counting down past zero"),
 ("scoped_lock releases", "C09", "move-assigning over an owning scoped_lock lost the lock; unlock() woke the next holder before giving up ownership, so a resumed holder destroying the object unlocked twice"),
 ("shared_mutex scoped locks", "C10", "a scoped task that threw left the shared_mutex locked for ever"),
 ("an acquired semaphore", "C11", "acquire() reported a shutdown although it had taken a permit, which was lost"),
 ("queue::shutdown_drain looks", "C12", "shutdown_drain read the elements without the lock (data race)"),
 ("queue::shutdown takes effect", "C12", "shutdown racing with shutdown_drain was dropped: waiters stranded"),
 ("ring_buffer::shutdown_drain reports", "C13", "producers turned away by shutdown_drain were told their element was produced"),
 ("ring_buffer::shutdown takes effect", "C13", "shutdown racing with shutdown_drain was dropped: waiters stranded"),
 ("concurrent condition_variable notifies", "C14", "two concurrent notifies read an awaiter the other had already resumed (use after free)"),
 ("a condition_variable waiter that", "C14", "a waiter found not ready was put back only after the lock was released: a notify in between was lost"),
 ("a stop request and its notify", "C14", "a stop request plus notify arriving while another notifier was checking the waiter was lost"),
 ("the scheduler closes its timer", "C26", "every scheduler leaked its timer descriptor"),
 ("a polled coroutine is handed", "C19", "the coroutine handle of a poll was written and read by two threads without synchronisation"),
 ("the scheduler's next timeout", "C19", "the timer descriptor was reprogrammed outside the lock: an older deadline could overwrite a nearer one"),
 ("condition_variable wait_for", "C15", "a completed timed wait was touched by its timer or hook (use after free), and waiters that timed out stayed in the list"),
 ("a finished generator", "C02", "begin() on a generator that had run to its end resumed a finished coroutine (crash)"),
 ("when_any completes", "C05", "when every task threw, the awaiter of when_any was never resumed"),
 ("invoke doesn't resume", "C27", "awaiting invoke() while the callable was suspended resumed the invoker's frame a second time (early or undefined result, use after free)"),
 ("schedule_operation isn't touched", "C18", "schedule() read its awaiter after another thread could have resumed and destroyed it"),
 ("the thread pool doesn't lose", "C16", "a coroutine scheduled while shutdown() runs could be accepted and then never run (or left in the queue)"),
 ("thread_pool::queue_size holds", "C16", "queue_size()/queue_empty() read the deque without its lock (data race)"),
 ("tasks refused by a shutdown executor", "C16", "spawn_detached/start on a shut down executor leaked the task's frame and left it counted for ever"),
 ("a task group's event isn't", "C17", "a task that finished during start() of the next one could trigger the event while the other was unfinished: the waiter resumed early"),
 ("a task group's destructor waits", "C17", "the last task touched the group after a waiter could have destroyed it (use after free)"),
 ("the scheduler doesn't lose", "C18", "a coroutine scheduled while the event loop was ending was accepted and never resumed"),
 ("yield_until and schedule_at", "C19", "the time point was turned into a duration before now() was read again: resumed before the requested time"),
 ("a poll's descriptor, stop token", "C20", "a poll that ended by its timeout or token left the other registrations behind; the next poll of the descriptor failed or woke a freed poll"),
 ("polling a descriptor that cannot", "C20", "polling a regular file or bad descriptor never completed and left its poll counted"),
 ("a descriptor or stop token can be", "C20", "a second concurrent poll of a descriptor or stop token was silently never watched"),
 ("to_string names poll_status::cancelled", "C20", "to_string(poll_status::cancelled) gave 'unknown'"),
 ("an assigned pipe closes", "C26", "assigning to a pipe leaked its descriptors, moving from one left both owning them"),
 ("schedule with a timeout doesn't round", "C21", "a timeout in microseconds or nanoseconds was rounded down to milliseconds: timed out early or meant no limit"),
 ("schedule with a timeout schedules", "C21", "the task started on the caller's thread instead of the scheduler: one that never suspended ran for as long as it liked before the timer was even set"),
 ("schedule with a timeout delivers", "C21", "a task that threw in time terminated the program or lost its exception"),
 ("process_events on different", "C28", "process_events called on one thread after another raced on the event buffers (data race)"),
 ("ip_address::from_string parses", "C25", "from_string read past a string_view that isn't null terminated, and accepted text after an embedded null"),
 ("a write to a peer that only", "C22", "a write that had to wait ended as closed when the peer had shut down only its writing end"),
 ("tcp reads count elements", "C22", "read_some/read_exact into multi-byte elements returned a span counted in bytes (beyond the buffer) and tore elements"),
 ("assigning to a socket closes", "C26", "move-assigning a socket leaked its old descriptor, copy self-assignment destroyed it"),
 ("a moved tcp::server takes", "C26", "a moved-from tcp::server kept the cancel pipe and the moved-to one did not take the shutdown state"),
 ("tls recv delivers decrypted", "C24", "recv waited for the socket though decrypted data was buffered; recv/send failed when OpenSSL wanted the other direction"),
 ("tls recv and send count", "C24", "recv/send with multi-byte elements returned spans counted in bytes (beyond the buffer) and tore elements"),
 ("the timeout of a tls connect", "C24", "the timeout was given anew to every step of the handshake: connect/accept could take many times as long"),
 ("a tls server reports", "C24", "accept returned a client that claimed to be connected although its handshake had failed"),
 ("a tls shutdown that would block", "C24", "shutdown gave up when its close notification would block: the peer was never told"),
 ("moved tls clients and servers", "C24", "a moved-to tls client or server forgot that it had been shut down, the moved-from one shared the cancel pipe"),
 ("dns lookups on different threads", "C29", "the active-socket map and the channel were used from several threads at once (data race), the poll task used a resolver that may already be destroyed, and polls of closed sockets were left behind"),
 ("a dns lookup whose socket fails", "C29", "a poll of a name server's socket that ended as error or closed was dropped without telling c-ares: the lookup never ended"),
 ("dns lookups notice lost packets", "C29", "a lost packet was only noticed when the resolver's own timeout ended (with timeout 0: never)"),
 ("process_events() never runs the event loop", "C18", "process_events() called right after the scheduler was made ran the event loop concurrently with the scheduler's own thread (data races, work resumed twice)"),
 ("process_events() waits as long", "C28", "process_events(4294967296ms) didn't wait at all: the timeout was narrowed to int"),
 ("timeouts and waits too long", "C19", "waits and timeouts such as milliseconds::max() overflowed and ended at once (also C15, C20, C21, C22, C23, C24)"),
]
KNOWN = []
def main():
    log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], text=True, capture_output=True).stdout.splitlines()]
    out = []
    for s, p, w in FIX:
        h = [a for a, b in log if b.startswith("fix: " + s)]
        assert len(h) == 1, s
        out.append({"property": p, "status": "fixed", "commit": h[0], "what": w, "entry": "fixed: property=%s %s %s" % (p, h[0], w)})
    n = sum(1 for a, b in log if b.startswith("fix: "))
    assert n == len(FIX), (n, len(FIX))
    json.dump(KNOWN + out, open("/verif/known-findings.json", "w"), indent=1)
main()
