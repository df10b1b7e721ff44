#!/usr/bin/env python3
"""Writes properties.jsonl (only the properties that have a spec or a not-applicable reason)."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, state=(), mech=(), obs=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over.split(), 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files.split(),
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': list(obs), 'hook_needed': None}})


S = 'schedules histories'
p('C01', 'Every operation submitted to a serial queue runs exactly once',
  'Every operation submitted to a serial queue, from any thread and at any time before the queue is released, is executed exactly once; none is lost and none is executed twice. Operations still pending when the queue object is released are executed too, and the queue machinery outlives them.',
  S, 'every interleaving of any number of submitters with the draining worker(s) and with the release of the queue; every number of operations',
  'Tests submit a few hundred operations in one timing each; losing a wake-up needs a submission to hit the window in which the worker decides to stop draining.',
  'src/naive/naive_operation_queue.cpp src/naive/naive_serial_queue.cpp src/naive/naive_operation_queue_manager.cpp',
  [('m_jobs', 'pending operations', 'src/naive/naive_operation_queue.cpp'), ('m_active_drain / notify flag', 'whether a drain is scheduled or running', 'src/naive/naive_operation_queue.cpp')],
  [('drain scheduling under the queue lock', 'src/naive/naive_operation_queue.cpp')], ['iqueue_impl::async', 'operation::operator()'])
p('C02', 'A serial queue runs its operations one at a time, in submission order',
  'Operations submitted to one serial queue are executed in the order they were submitted and never two at the same time, no matter which threads execute them. Each operation sees the memory effects of its predecessors.',
  S, 'every interleaving of submitters, workers and queue release; every number of operations',
  'Tests check order for one producer on an idle machine; overlap needs two workers to drain the same queue concurrently.',
  'src/naive/naive_operation_queue.cpp src/naive/naive_serial_queue.cpp',
  [('m_jobs', 'pending operations in order', 'src/naive/naive_operation_queue.cpp')],
  [('single drain token, lock released only while running an operation', 'src/naive/naive_operation_queue.cpp')], ['operation::operator()'])
p('C03', 'Every operation given to the pool runs exactly once and is never stranded',
  'Every operation given to a thread pool, and so every operation on a parallel or global queue, is executed exactly once. While operations are pending there is always a worker awake, started or being started for them: a pool never goes to sleep on pending work.',
  S, 'every interleaving of submitters, idle, blocked, starting and terminating workers; every pool size',
  'Tests run a few operations on a machine-sized pool; a stranded operation needs a worker to go idle in the window between the push and the wake-up.',
  'src/naive/naive_threadpool.cpp src/naive/naive_semaphore.cpp src/naive/naive_parallel_queue.cpp',
  [('m_operations', 'one lock-free queue per priority', 'src/naive/naive_threadpool.cpp'), ('m_idle_threads, m_active_threads', 'worker accounting', 'src/naive/naive_threadpool.cpp')],
  [('counting semaphore signalled once per operation', 'src/naive/naive_threadpool.cpp')], ['threadpool::execute', 'operation::operator()'])
p('C04', 'Priorities are honoured by the pool and by queue threads',
  'A pool worker that picks its next operation takes one of the most urgent priority that is pending, from user interactive over user initiated and utility (which also stands for default) to background. A thread that serves a queue of its own runs at the operating system priority configured for it; a more urgent priority never maps to a lower operating system priority than a less urgent one.',
  'schedules inputs', 'every combination of pending priorities and every value of the priority parameters',
  'Tests only check that each global queue executes something; precedence needs several pending priorities at once.',
  'src/naive/naive_threadpool.cpp src/naive/naive_thread.cpp src/thread_utils.cpp',
  [('m_operations[bucket]', 'pending operations by priority', 'src/naive/naive_threadpool.cpp')],
  [('buckets scanned from most to least urgent', 'src/naive/naive_threadpool.cpp')], ['threadpool::execute', 'operation::operator()'])
p('C05', 'The counting semaphore never loses or invents a permit',
  'Each release of the counting semaphore lets exactly one acquire through: no acquire succeeds without a permit and no permit is lost, also when an acquire times out at the moment it is signalled. A blocked acquire is woken as soon as a permit is available for it, and a timed acquire gives up only after its timeout elapsed.',
  S, 'every interleaving of releases and (timed) acquires, including spurious failures and wakeups',
  'Tests use at most a few threads; lost permits need a time-out racing with a release.',
  'src/naive/naive_semaphore.cpp src/naive/naive_semaphore.h',
  [('m_count', 'permits minus waiters', 'src/naive/naive_semaphore.cpp')], [('atomic counter in front of a kernel/condvar semaphore', 'src/naive/naive_semaphore.cpp')],
  ['semaphore::acquire', 'semaphore::try_acquire', 'semaphore::release'])
p('C06', 'Barrier wait and completion never race past each other',
  'Once an operation barrier has been completed, every wait on it, running or future, returns true promptly, and the completed state lasts. A wait returns true only after completion was signalled and gives up only once its timeout has elapsed; an unlimited wait never gives up.',
  S, 'every interleaving of one completer with any number of waiters, including spurious wakeups and spurious atomic failures, and every timeout',
  'The tests wait on barriers in a handful of timings; the guarantee is about every interleaving of the lock-free hand-over between waiter and completer.',
  'src/lightweight_barrier.cpp src/barrier_operation.cpp',
  [('m_owner', 'none, a waiter, or completed', 'src/lightweight_barrier.cpp')],
  [('compare-exchange hand-over plus condition variable', 'src/lightweight_barrier.cpp')], ['lightweight_barrier::wait', 'lightweight_barrier::complete'])
p('C07', 'apply() runs each iteration exactly once and returns only when all are done',
  'Applying an iteration operation n times to a queue executes it exactly once for each index from 0 to n-1 and with no other index. The call returns only after every iteration has finished, and it does return, for every n including zero and also when called from an operation running on the same pool.',
  'schedules inputs', 'every iteration count and every interleaving of the workers that run the iterations',
  'Tests apply a fixed count once on an idle pool; a lost index or an early return needs particular counts or timings.',
  'src/naive/naive_parallel_queue.cpp src/naive/naive_serial_queue.cpp src/naive/naive_operations.cpp src/naive/naive_consumable.cpp',
  [('m_consumable', 'number of outstanding iterations', 'src/naive/naive_consumable.cpp')],
  [('countdown completed by the last iteration', 'src/naive/naive_consumable.cpp')], ['queue::apply'])
p('C08', 'A group waits for and notifies about exactly the operations submitted to it',
  'Waiting on a group returns true only when every operation submitted to it before has finished, returns true once that is so, and gives up only after its timeout. Notifications registered with a group run exactly once, after all operations submitted before have finished, on the queue they were registered for.',
  S, 'every interleaving of submissions, completions, waits and notifications; every timeout; also groups reused after becoming empty',
  'Tests submit a batch and wait once; the guarantee concerns operations finishing, being added and being waited for concurrently, and reuse.',
  'src/naive/naive_group.cpp src/naive/naive_consumable.cpp src/group.cpp src/lightweight_barrier.cpp',
  [('m_consumable', 'outstanding operations of the group', 'src/naive/naive_group.cpp')],
  [('each group operation consumes one resource when done', 'src/naive/naive_operations.cpp')], ['group::wait', 'group::notify'])
p('C09', 'Disabling a cancelable scope excludes the guarded code from then on',
  'After a cancelable has been disabled no new guarded section can be entered, and disabling returns, for every concurrent caller, only after every guarded section running on another thread has been left. As long as it is not disabled any number of threads may be inside at once and none is rejected. A thread that is inside a guarded section itself may disable the scope without deadlock: that call does not wait.',
  S, 'every interleaving of enter, leave and disable from any number of threads, with nesting on one thread',
  'Tests cover single-threaded sequences; the guarantee is about disable racing with enter and leave.',
  'src/cancelable.cpp include/xdispatch/impl/cancelable.h',
  [('m_active, current_c', 'guarded sections running and by which thread', 'src/cancelable.cpp')], [('lock plus completion barrier', 'src/cancelable.cpp')],
  ['cancelable::enter', 'cancelable::leave', 'cancelable::disable', 'cancelable_scope'])
p('C10', 'Timers fire at their configured times and never early',
  'A resumed timer queues its handler on its current target queue, first no earlier than the delay given to resume and then again, as long as it stays resumed, each time no earlier than the configured interval after the previous invocation was queued, and only once that invocation has finished. Each period queues exactly one invocation of the handler configured at that time; a timer whose interval is zero fires once per start.',
  'schedules inputs histories', 'every delay and interval, every reconfiguration while running',
  'Tests sample a few delays with wide tolerances.',
  'src/naive/naive_timer.cpp src/timer.cpp',
  [('m_interval, m_resumed', 'timer configuration', 'src/naive/naive_timer.cpp')], [('timer thread waiting with a deadline', 'src/naive/naive_timer.cpp')],
  ['timer::resume', 'timer::interval'])
p('C11', 'Stopping a timer prevents further handler runs',
  'Once cancel has returned no handler of the timer is running on another thread and none starts any more, and a handler may cancel its own timer without deadlock. After a suspend at most the invocation already handed to the target queue still runs until the timer is resumed as often as it was suspended, and resuming it again never makes it fire twice per period.',
  'schedules histories', 'every interleaving of suspend, resume and cancel with the timer firing',
  'Tests stop timers at quiet moments; the guarantee is about stopping while it fires.',
  'src/naive/naive_timer.cpp src/timer.cpp',
  [('m_data', 'shared state of the timer worker', 'src/naive/naive_timer.cpp')], [('cancelable plus worker cookie', 'src/naive/naive_timer.cpp')],
  ['timer::cancel', 'timer::suspend', 'timer::~timer'])
json_extra = '/verif/mkprops_extra.py'
if os.path.exists('mkprops_extra.py'):
    exec(open('mkprops_extra.py').read())
p('C21', 'The manual thread runs every operation exactly once until it is cancelled',
  'Operations executed on a manually run thread are run exactly once, in the order they were accepted, by the thread that runs it; everything accepted before a cancellation is still executed. Running it returns promptly once cancelled, also when the cancellation happens before or while it starts to run, and never returns without being cancelled.',
  S, 'every interleaving of submission, run and cancel',
  'Tests run it from the main thread in one order only.',
  'src/naive/naive_manual_thread.cpp src/naive/naive_backend.cpp',
  [('m_ops, m_cancelled', 'pending operations and stop flag', 'src/naive/naive_manual_thread.cpp')], [('lock-free queue plus semaphore', 'src/naive/naive_manual_thread.cpp')],
  ['manual_thread::execute', 'manual_thread::run', 'manual_thread::cancel'])
p('C23', 'Blocking inside an operation does not starve the pool',
  'An operation always executes with its own pool registered as the current pool of the thread, and the registration is undone afterwards, also when the operation throws. While such an operation blocks waiting for a group or in apply the pool accounts for it as blocked and may start a replacement worker; the accounting is exactly undone when the wait ends.',
  S, 'every nesting of operations and blocking waits, normal and exceptional exits, every pool state',
  'Tests have more workers than blocked operations, so a missing or doubled accounting goes unnoticed.',
  'src/naive/naive_threadpool.cpp include/xdispatch/backend_naive_ithreadpool.h src/naive/naive_consumable.cpp',
  [('s_current_pool', 'pool of the running operation', 'src/naive/naive_threadpool.cpp'), ('m_max_threads', 'thread limit raised while blocked', 'src/naive/naive_threadpool.cpp')],
  [('block_scope notifies the pool on entry and exit', 'src/naive/naive_threadpool.cpp')], ['ithreadpool::block_scope', 'consumable::wait'])
p('C27', 'Destroying a thread pool is safe at any moment',
  'A thread pool can be destroyed at any moment, whether or not its workers were ever started, are idle, busy or starting, without terminating the process and without waiting forever. Workers that outlive it only touch state that is kept alive for them and stop once they see the destruction.',
  S, 'every state of the pool and its workers at the time of destruction',
  'Tests only ever use the global pool, which is never destroyed during a run.',
  'src/naive/naive_threadpool.cpp',
  [('data', 'state shared between pool and workers', 'src/naive/naive_threadpool.cpp')], [('cancelled flag and semaphore wake-ups', 'src/naive/naive_threadpool.cpp')],
  ['threadpool::~threadpool'])
na = json.load(open('not_applicable.json')) if os.path.exists('not_applicable.json') else []
P.sort(key=lambda x: x['id'])
with open('properties.jsonl', 'w') as f:
    for x in P:
        if os.path.exists('specs/%s.py' % x['id']) or any(n['property'] == x['id'] for n in na):
            f.write(json.dumps(x) + '\n')
