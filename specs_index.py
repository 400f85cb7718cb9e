T = "contract-based deductive verification: contracts checked by a VC generator over the LLVM IR clang emits from /repo's headers on every run, obligations discharged by z3 (cvc5 second)"
def P(note, level='proof'): return dict(technique=T, level=level, note=note)
CHECKS = {
 'C01': P("every member of single_consumer_event and its awaiter, any interleaving (rely/guarantee on the event word), no bound"),
 'C02': P("every member of single_consumer_auto_reset_event and its awaiter, any interleaving, no bound"),
 'C03': P("every member of multi_consumer_event and its awaiter, any number of waiters (loop invariant over the waiter list), any interleaving"),
 'C04': P("every member of multi_consumer_auto_reset_event and its awaiter, any number of waiters, any interleaving"),
 'C05': P("delivery obligations of all four events and latch: own dispatcher, else the setter's, else inline"),
 'C06': P("mutex: rely/guarantee on the state word, FIFO hand-off with a quantified loop invariant over the reversed list, any number of waiters"),
 'C07': P("mutex_lock: every operation from every state its interface can produce, over the contracts of mutex"),
 'C08': P("latch: all n and all splits of decrements; precondition: the decrements do not exceed the initial value"),
 'C11': P("every operation of channel: critical sections over the waiter lists (any number of readers and writers), hand-over and results by executing the real await_resume on the completed record"),
 'C12': P("every operation of queue: critical sections over the buffer and both waiter lists against the abstract FIFO sequence; capacity at least one"),
 'C13': P("every operation of threadsafe_queue: critical sections against the abstract sequence, opaque element type; std::deque by contract"),
 'C14': P("ref, its casts and comparisons, intrusive_refcount, make_ref and both counter policies: exact count accounting for aliased, null, self and nested handles"),
 'C15': P("atomic_ref: rely/guarantee on the locked pointer word, count accounting, any interleaving; lock freedom/termination not claimed"),
 'C16': P("scope_guard: every operation from every reachable state, opaque callback type"),
 'C17': P("every operation of signal (both threading variants), its handles and slots: a monitor over the slot list with reference accounting, positions that never change and a followed slot; any number of slots, emissions and threads, reentrant or not; signal_manager not covered"),
 'C18': P("task<T> and task<void>: the lowered coroutine around the most general body, every suspension state (closed by state equality), awaiter, moves and destruction"),
 'C19': P("generator<T>, <const T>, <T&>, <T&&>, its iterator and fmap: the lowered coroutine around the most general body, every suspension state"),
 'C20': P("async_generator<T>, <const T>, <T&>, <T&&>: the lowered coroutine around the most general body, every suspension state, awaiters and iterator"),
 'C21': P("eager and lazy fire and forget tasks: the lowered coroutine around the most general body for every exception policy, every operation on any number of handles on any threads (rely/guarantee on the reference count and started flag)"),
 'C22': P("every operation of async_launch_scope and launch: rely/guarantee on the word that counts tasks and shows the joiner, lowered launch coroutines around arbitrary awaitables and callables, any number of tasks"),
 'C23': P("defer for asyncpp::dispatcher and for an unrelated dispatcher type; push may throw"),
 'C24': P("every operation of simple_dispatcher as a monitor over the sequence of pending callbacks and the stop flag, including the wait condition"),
 'C25': P("every operation of thread_pool and the thread body: a monitor over each task queue plus a grow/shrink protocol over the two sizes, the threads lock and the thread vector; any number of threads and tasks, any interleaving; std::thread, locks and containers by contract"),
 'C26': P("every operation of timer, the timer thread and the cancel callback: a monitor over the pushed callbacks and both time ordered sets, linear accounting of each callback, cancel against schedule, expiry and destruction; any number of entries, any interleaving"),
 'C27': P("every operation of the bundled stop_source, stop_token and stop_callback: rely/guarantee on the state word and the owner count, the callback list under the lock bit, the hand-over of a running callback; any number of callbacks and threads"),
 'C28': P("fiber.h on x86-64: stack allocation, the context switch (its assembly executed symbolically, register by register), creation, resumption, fib_await, destruction, the awaiters and both fiber classes, for the most general function and awaitables; sysconf, mmap, mprotect and the unwinder by contract; other architectures and ucontext are not compiled here"),
 'C29': P("operator new/delete of promise_allocator_base for stateful allocators of several sizes, always-equal and empty ones, any frame size"),
 'C30': P("all pointers; alignments 1,2,4,8,16,64 with every tag below them; type sets of up to three"),
 'C31': P("as_promise for value, void and reference results, explicit and deduced result type, awaiters and operator co_await; every outcome, finishing thread and interleaving; std::promise/std::future by contract"),
 'C32': P("dispatcher::current in both storage configurations"),
 'C33': P("main() of async_main.h for every outcome of async_main, finished on whatever thread and whenever, over the contracts of task and simple_dispatcher; who still uses the dispatcher when run() has returned"),
 'C09': P("every operation of promise<T> and promise<void> and their awaiters: a monitor over the outcome and the three callback lists, any number of callbacks (loop invariant), throwing copies, callbacks that drop the promise"),
 'C10': P("the three combinators for one, two and three inputs (a template parameter), every order and interleaving of settlement (rely/guarantee on the counter), inputs settled before included; over the contracts of promise"),
}
NA = {}
