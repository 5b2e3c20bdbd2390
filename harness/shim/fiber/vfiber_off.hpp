#undef mutex
#undef recursive_mutex
#undef timed_mutex
#undef shared_mutex
#undef shared_timed_mutex
#undef condition_variable
#undef condition_variable_any
#undef atomic
#undef atomic_flag
#undef atomic_bool
#undef atomic_size_t
#undef atomic_int
#undef thread
#undef jthread
#undef this_thread
#undef counting_semaphore
#undef binary_semaphore
#undef latch
