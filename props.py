"""What each check runs: translation unit, configurations, run budgets."""
def P(tu, quick, thorough, cfgs=('own',)): return dict(tu=tu, quick=quick, thorough=thorough, cfgs=list(cfgs) + ['O0'])
M = 1000000
PROPS = {
    'C01': P('channel', 2*M, 60*M), 'C02': P('channel', 3*M, 80*M),
    'C03': P('sequence', 3*M, 80*M), 'C04': P('sequence', 2*M, 60*M), 'C05': P('sequence', 3*M, 100*M),
    'C06': P('sync', 4*M, 100*M), 'C07': P('sync', 4*M, 100*M),
    'C08': P('task', 3*M, 80*M), 'C09': P('task', 3*M, 60*M, ('own', 'deep')), 'C23': P('task', 2*M, 60*M),
    'C10': P('frame', 2*M, 60*M),
    'C14': P('pool', 3*M, 60*M), 'C15': P('pool', 3*M, 60*M), 'C16': P('pool', 3*M, 60*M, ('own', 'std')), 'C22': P('pool', 3*M, 60*M),
    'C17': P('stop', 4*M, 100*M), 'C18': P('stop', 4*M, 100*M), 'C19': P('stop', 4*M, 100*M, ('own', 'std')),
    'C20': P('timeout', 3*M, 60*M, ('own', 'std')), 'C21': P('timeout', 3*M, 60*M, ('own', 'std')),
    'C26': P('trace', 1*M, 30*M),
    'C11': P('scope', 2*M, 60*M), 'C12': P('scope', 2*M, 60*M), 'C13': P('scope', 2*M, 60*M),
}
SIMSTD = ['threads, mutexes, condition variables, semaphores (std:: names routed to the simulator)', 'the scheduler: which thread runs at every atomic, lock, wait, spawn and harness step',
          'weak memory: which store an atomic load observes', 'steady/system clocks and timed waits (simulated time)', 'operator new/delete and malloc/free (simulated heap, failures injected where a scenario asks for them)']
def C(real, extra=()): return dict(real=real, stub=SIMSTD + list(extra))
COMPONENTS = {
    'channel': C(['macoro/channel.h', 'macoro/channel_spsc.h', 'macoro/sequence_*.h', 'macoro/task.h', 'macoro/sync_wait.h', 'macoro/detail/*']),
    'sequence': C(['macoro/sequence_barrier.h', 'macoro/sequence_spsc.h', 'macoro/sequence_mpsc.h', 'macoro/sequence_range.h', 'macoro/task.h', 'macoro/sync_wait.h']),
    'sync': C(['macoro/manual_reset_event.h', 'macoro/barrier.h', 'macoro/task.h', 'macoro/sync_wait.h']),
    'task': C(['macoro/task.h', 'macoro/wrap.h', 'macoro/result.h', 'macoro/sync_wait.h', 'macoro/detail/*'], ['the executor tasks hop to (harness, real queue over simulated threads)']),
    'frame': C(['macoro/coro_frame.h', 'macoro/macros.h', 'macoro/coroutine_handle.h', 'macoro/task.h', 'macoro/detail/*'], ['the executor tasks hop to (harness)']),
    'scope': C(['macoro/async_scope.h', 'macoro/when_all.h', 'macoro/when_all_scope.h', 'macoro/barrier.h', 'macoro/task.h', 'macoro/detail/*'], ['the executor tasks hop to (harness)']),
    'pool': C(['macoro/thread_pool.h', 'macoro/thread_pool.cpp', 'macoro/inline_scheduler.h', 'macoro/start_on.h', 'macoro/transfer_to.h', 'macoro/stop.h', 'macoro/detail/stop_*', 'macoro/task.h']),
    'stop': C(['macoro/stop.h', 'macoro/detail/stop_*', 'macoro/task.h'], ['std::stop_token in the std configuration (a reference model in simstd.h)']),
    'trace': C(['macoro/trace.h', 'macoro/task.h', 'macoro/wrap.h', 'macoro/when_all.h', 'macoro/async_scope.h', 'macoro/when_all_scope.h', 'macoro/start_on.h', 'macoro/sync_wait.h', 'macoro/detail/*'], ['the executor tasks hop to (harness)']),
    'timeout': C(['macoro/timeout.h', 'macoro/take_until.h', 'macoro/thread_pool.h', 'macoro/stop.h', 'macoro/detail/stop_*', 'macoro/task.h', 'macoro/manual_reset_event.h']),
}
