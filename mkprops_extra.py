# executed by mkprops.py with its `p` function
p('C12', 'Socket notifiers report readiness to their handler, once per event',
  'A resumed socket notifier queues its handler on its current target queue exactly when its socket was found ready for the kind of access it was created for, once each time, with its socket and that kind as arguments. It looks at the socket again only after that invocation has finished, keeps watching as long as it is resumed and stops by itself only for an invalid socket.',
  'schedules histories inputs', 'every sequence of poll outcomes (ready, timeout, error, invalid), every configuration change and every interleaving with resume, suspend and cancel',
  'Tests watch one or two sockets for a few events; missed or duplicate events need particular poll results or configuration changes while the helper waits.',
  'src/naive/naive_socket_notifier.cpp src/socket_notifier.cpp src/backend.cpp',
  [('m_socket, m_type', 'what is watched', 'src/naive/naive_socket_notifier.cpp'), ('m_worker_cookie', 'identifies the helper in charge', 'src/naive/naive_socket_notifier.cpp')],
  [('helper on a borrowed pool thread polling the socket', 'src/naive/naive_socket_notifier.cpp')], ['poll', 'iqueue_impl::async', 'socket_notifier handler'])
p('C13', 'Stopping a socket notifier prevents further handler runs',
  'Once cancel has returned no handler of the notifier is running on another thread, none starts any more and the notifier cannot be resumed again; a handler may cancel its own notifier without deadlock. After as many suspends as resumes the helper is told to end, so that at most one more invocation that was already handed to the target queue runs, and a later resume is served by a new helper; helpers notice this within a bounded time.',
  'schedules histories', 'every history of resume, suspend and cancel interleaved with the helper and the queued handler',
  'Tests stop a notifier once while it is idle; the guarantee concerns a stop at every point of the helper loop.',
  'src/naive/naive_socket_notifier.cpp src/socket_notifier.cpp src/cancelable.cpp',
  [('m_resume_counter', 'number of resumes, negative once cancelled', 'src/naive/naive_socket_notifier.cpp'), ('m_worker_cookie', 'identifies the helper in charge', 'src/naive/naive_socket_notifier.cpp')],
  [('cookie comparison before waiting and before invoking', 'src/naive/naive_socket_notifier.cpp'), ('cancelable scope around the handler', 'src/naive/naive_socket_notifier.cpp')], ['isocket_notifier_impl::cancel', 'isocket_notifier_impl::suspend'])
p('C20', 'Objects of different backends are never combined silently',
  'A timer or socket notifier is created by the backend its target queue belongs to, for exactly that queue. Combining objects of different backends in a timer, a socket notifier or a group that does not belong to the naive backend throws std::logic_error and has no other effect; objects of the same backend are never rejected, and a group of the naive backend accepts queues of every backend.',
  'inputs', 'every pair of backends of the two objects that are combined',
  'Tests can only combine the backends present in one build, and only check single combinations.',
  'src/timer.cpp src/socket_notifier.cpp src/group.cpp src/backend.cpp src/trace_utils.cpp src/qt5/qt5_timer.cpp src/qt5/qt5_socket_notifier.cpp',
  [], [('assert_same_backend', 'src/trace_utils.cpp'), ('backend_for_type', 'src/backend.cpp')], ['timer::timer', 'socket_notifier::socket_notifier', 'group::async', 'group::notify'])
p('C22', 'Queues keep their identity, label, implementation and priority',
  'A queue reports the label it was created with, and two queue objects are equal exactly if they designate the same implementation; everything submitted to a queue reaches that implementation once and unchanged. Every call of global_queue for one priority designates the same parallel queue, which runs its operations with that priority on the one global pool, different priorities designate different queues except that the default priority shares the utility queue; main_queue always designates the same queue, served by exec. A serial queue created by label and priority is a queue of its own with that priority.',
  'inputs histories', 'every label, priority and sequence of calls',
  'Tests compare a few queues; a mix-up needs a particular priority or order of first use of the global queues.',
  'src/queue.cpp src/backend.cpp src/naive/naive_parallel_queue.cpp src/naive/naive_serial_queue.cpp src/naive/naive_threadpool.cpp',
  [('m_impl, m_label', 'identity and label of a queue', 'include/xdispatch/queue.h')],
  [('function-local statics per global queue', 'src/backend.cpp')], ['queue::async', 'global_queue', 'main_queue', 'queue::operator=='])
p('C14', 'A waitable queue runs everything once, in order, and waiting for it is exact',
  'Operations submitted to a waitable queue run one at a time, in the order of their submission, each exactly once, whether the inner queue or a waiting thread runs them, also when operations throw; an operation is released without holding a lock of the queue. wait_for_one returns once an operation finished that no earlier call waited for, or at once if there is none to wait for; wait_for_all returns only when nothing is running or pending; neither gives up early and both serve a starving queue themselves. apply submits every index once, in order, and returns only after everything finished.',
  'schedules histories inputs', 'every sequence of submissions and waits, every interleaving of waiting threads with the inner queue, every operation throwing or returning',
  'Tests use one producer and one waiter over an idle or a busy queue; a lost turn, a lost wake-up or a double run needs waiters and workers to interleave, or operations that throw.',
  'src/waitable_queue.cpp src/naive/naive_operations.cpp',
  [('m_active', 'turn to run an operation', 'src/waitable_queue.cpp'), ('m_completed', 'finished operations nobody waited for', 'src/waitable_queue.cpp'), ('m_operations', 'pending operations in order', 'src/waitable_queue.cpp')],
  [('monitor on m_CS, condition m_cond', 'src/waitable_queue.cpp')], ['waitable_queue::async', 'waitable_queue::wait_for_one', 'waitable_queue::wait_for_all', 'waitable_queue::apply'])
p('C19', 'after runs the operation once, not early, and leaves nothing behind',
  'An operation given to after is queued exactly once on the very queue it was given to (a serial, parallel or waitable queue), not before the given delay has passed, by a timer of its own from the backend of that queue. The timer keeps the operation alive until it ran; afterwards the timer is cancelled and released, so that neither of them outlives the invocation.',
  'schedules inputs', 'every queue type, delay and operation, every interleaving with other users of the queue',
  'Tests wait for a few delayed operations with generous tolerances and never look at what remains afterwards.',
  'src/naive/naive_operations.cpp src/naive/naive_parallel_queue.cpp src/naive/naive_serial_queue.cpp src/waitable_queue.cpp src/queue.cpp src/naive/naive_timer.cpp',
  [('delayed_operation::m_timer', 'the timer owned by the operation it invokes', 'src/naive/naive_operations.cpp')],
  [('circular ownership broken by the invocation', 'src/naive/naive_operations.cpp')], ['queue::after', 'iqueue_impl::after'])
p('C15', 'Emitting a signal calls every connected handler, on its queue, with its values',
  'An emission of a signal calls every handler connected at that time: handlers connected for single updates exactly once per emission, on the queue they were connected with and through the group of the signal if it has one, synchronous ones once, directly by the emitting thread; each with the emitted values. Handlers are served in the order of their connection and no lock of the signal is held while a handler runs, so that handlers may connect, disconnect or emit. Connecting a function, a member function or another signal makes exactly one connection, to what was given, on the given queue and with the given mode.',
  'schedules histories inputs', 'every number and mix of connected handlers, every emission and every interleaving with other users of the signal',
  'Tests emit a few values to one or two handlers; a handler that is skipped, called twice or on another queue needs a particular mix of modes or of concurrent use.',
  'include/xdispatch/signals.h src/signals.cpp',
  [('m_handlers', 'connected handlers in order', 'include/xdispatch/signals.h'), ('m_queue, m_mode', 'how a handler is called', 'include/xdispatch/signals.h'), ('m_group', 'tracks the calls', 'include/xdispatch/signals.h')],
  [('lock of the signal released before synchronous handlers run', 'include/xdispatch/signals.h')], ['signal::operator()', 'signal::connect', 'signal_p::connect'])
p('C16', 'Batched updates are merged, never lost; skip_all skips what is queued',
  'A handler connected for batch updates has at most one call pending: an emission while a call is queued that did not start yet adds none, any other emission queues one, also an emission from within or during a call. skip_all suppresses the calls of every handler that were queued before and did not start yet, and only these: the connections stay as they are and later emissions are delivered, in batch mode even if skipped calls are still queued.',
  'schedules histories', 'every history of emissions, calls and skips, at every interleaving of emitting and executing threads',
  'Tests emit a burst to an idle queue; a lost or doubled update needs an emission at the very moment a call starts or is skipped.',
  'include/xdispatch/signals.h src/signals.cpp',
  [('m_pending', 'calls queued since the last skip', 'include/xdispatch/signals.h'), ('pending_calls::m_count', 'how many of them did not start yet', 'include/xdispatch/signals.h'), ('pending_calls::m_skipped', 'whether they are skipped', 'include/xdispatch/signals.h')],
  [('counting before queueing, taking off before calling', 'include/xdispatch/signals.h')], ['signal::operator()', 'signal_p::skip_all'])
p('C17', 'A disconnected handler is not called any more',
  'Once disconnect has returned, whether of the signal, a connection, a scoped connection or a connection manager, the handler is not running on another thread and is not called again; other handlers stay connected, in order. Destroying the signal disconnects all its handlers in the same way, and connections can still be used afterwards. A handler may disconnect itself, which does not wait, and no lock is held while active handlers are waited for. disconnect tells whether there was something to disconnect; connected, is_connected_to and the comparisons report the state of the connection. A scoped connection disconnects what it manages when it is assigned to or destroyed, but not what was moved or taken out of it; a connection manager disconnects what it manages when reset or destroyed, or just the connections with one signal.',
  'schedules histories', 'every history of connecting, emitting, disconnecting and destroying, at every interleaving with calls that are queued or running',
  'Tests disconnect while nothing is running; the guarantee concerns calls which are queued or active at that moment, and every way to end a connection.',
  'src/signals.cpp include/xdispatch/signals.h src/cancelable.cpp',
  [('m_connected', 'false once disconnected', 'include/xdispatch/signals.h'), ('m_active', 'cancelable of a handler', 'include/xdispatch/signals.h'), ('m_connections', 'connections of a manager', 'include/xdispatch/signals.h')],
  [('cancelable scope around each call', 'include/xdispatch/signals.h'), ('disable outside of the lock', 'src/signals.cpp')], ['signal_p::disconnect', 'connection::disconnect', 'scoped_connection', 'connection_manager'])
p('C18', 'A signal barrier is released by the first raise and keeps its values',
  'wait of a signal barrier returns true once the signal was raised since the barrier was constructed, and false only after the given timeout without a raise. Concurrent raises release the barrier once: the values of exactly one raise, the first, are stored before any waiter is released and later raises never change them. values and value return them after the raise and throw std::runtime_error before. No raise touches the barrier while it is still being constructed or after it was destroyed.',
  'schedules histories inputs', 'every number and interleaving of concurrent raises, waiters, construction and destruction',
  'Tests raise once from one thread; mixed values or early releases need two raises or a raise and a waiter to interleave.',
  'include/xdispatch/signals_barrier.h src/lightweight_barrier.cpp',
  [('m_raised', 'whether some raise counts already', 'include/xdispatch/signals_barrier.h'), ('m_values', 'values of the first raise', 'include/xdispatch/signals_barrier.h')],
  [('atomic exchange decides the first raise', 'include/xdispatch/signals_barrier.h'), ('connection is the last member', 'include/xdispatch/signals_barrier.h')], ['signal_barrier::wait', 'signal_barrier::values', 'signal_barrier::value'])
p('C25', 'Queues on Qt threads and pools and QObject connections keep their guarantees',
  'An operation of a parallel queue on a QThreadPool is handed to that pool exactly once, urgent priorities first, runs exactly once with the pool registered as current, is kept alive until then and released afterwards; while it waits for a group or in apply its slot of the pool is released and taken again afterwards. Once its queues were released and their operations finished the QThreadPool is not used any more. An operation of a serial queue on a QThread is executed exactly once, in order and only on that thread. Queues are created with the given label, priority, thread or pool and the Qt backend. The main queue is served by the thread of the QCoreApplication and exec, or by the naive backend if there is no application. A connection registered with a QObject is kept by the one manager directly belonging to that object and ends with the object; dropping the connections of an object with a signal ends exactly those. qt5::connect connects the given slot to the given signal with the given queue and mode.',
  'schedules histories inputs', 'every number of operations, priority, history of blocking and releasing, and every tree of objects with connections',
  'The tests do not use Qt thread pools or objects with nested children at all, and run Qt queues over one idle thread; double deliveries, wrong owners and early releases need particular histories.',
  'src/qt5/qt5_threadpool.cpp src/qt5/qt5_serial_queue.cpp src/qt5/qt5_parallel_queue.cpp src/qt5/qt5_signals.cpp src/qt5/qt5_signals.h include/xdispatch/backend_qt.h',
  [('m_pool', 'the QThreadPool operations are handed to', 'src/qt5/qt5_threadpool.cpp'), ('connection manager child', 'owns the connections of an object', 'src/qt5/qt5_signals.cpp')],
  [('events posted to a proxy living on the thread', 'src/qt5/qt5_serial_queue.cpp'), ('runnables keep the proxy alive', 'src/qt5/qt5_threadpool.cpp')], ['create_parallel_queue', 'create_serial_queue', 'qt5::connect', 'qt5::disconnect'])
p('C26', 'Queues and pools live until detached and are not destroyed on their own thread',
  'The queue machinery behind a serial queue and the pool behind a parallel queue are kept alive from the creation of the queue until it was dropped and everything pending was executed; a pool shared by several queues, in whatever order they are dropped, stays kept for each of them. Dropping a queue gives up exactly what this queue contributed, nothing of other queues. What a queue holds of its pool is released by the thread of the lifetime manager only, so that a queue dropped from within an operation, even as the last user of its pool, never destroys the pool on one of its own threads.',
  'schedules histories', 'every number of queues sharing a pool, in every order of dropping them, from every thread, at every interleaving with the lifetime manager',
  'The tests drop queues one by one from the main thread and never share a pool of their own; a wrong release needs shared pools or an unlucky schedule of the manager thread.',
  'src/naive/naive_operation_queue_manager.cpp src/naive/naive_operation_queue.cpp src/naive/naive_serial_queue.cpp src/naive/naive_parallel_queue.cpp',
  [('m_queues', 'references kept by the manager, one per attach', 'src/naive/naive_operation_queue_manager.cpp')],
  [('attach and detach are performed by the one thread of the manager', 'src/naive/naive_operation_queue_manager.cpp'), ('own reference dropped before detach', 'src/naive/naive_serial_queue.cpp')], ['naive::create_parallel_queue', 'naive::create_serial_queue', 'queue::~queue'])
p('C24', 'A function given as an operation is kept as a copy and called as given',
  'Making an operation of a function object keeps exactly one copy of it, made at that moment, without calling it: later changes to or destruction of the original play no part. Each execution of the operation calls that function exactly once with exactly the given parameters; releasing the operation destroys the copy once. A member function is called on the given object with the given parameters. Something that is an operation already is used as it is. The conveniences of queue, group, timer and socket_notifier which take a function wrap it once and hand it on with all other arguments unchanged, keeping nothing. execute_operation_on_this_thread executes the operation once on the calling thread. A barrier operation completes its barrier when executed; wait and has_passed report that barrier.',
  'inputs histories', 'every function object, object, parameter values and number of executions',
  'Tests use a few lambdas that outlive their operation or capture plain values; dangling references, lost parameters and additional calls need other functions and life times.',
  'include/xdispatch/operation.h include/xdispatch/queue.h include/xdispatch/group.h include/xdispatch/timer.h include/xdispatch/socket_notifier.h src/operation.cpp src/barrier_operation.cpp',
  [('m_function', 'the copy of the function', 'include/xdispatch/operation.h'), ('m_obj, m_func', 'object and member', 'include/xdispatch/operation.h')],
  [('make_operation, parameterized_operation::make', 'include/xdispatch/operation.h')], ['make_operation', 'execute_operation_on_this_thread', 'queue::async', 'barrier_operation::wait'])
