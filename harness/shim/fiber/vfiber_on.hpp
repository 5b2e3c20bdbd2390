#define mutex vfs_mutex
#define recursive_mutex vfs_recursive_mutex
#define timed_mutex vfs_timed_mutex
#define shared_mutex vfs_shared_mutex
#define shared_timed_mutex vfs_shared_mutex
#define condition_variable vfs_condition_variable
#define condition_variable_any vfs_condition_variable
#define atomic vfs_atomic
#define atomic_flag vfs_atomic_flag
#define atomic_bool vfs_atomic_bool
#define atomic_size_t vfs_atomic_size_t
#define atomic_int vfs_atomic_int
#define thread vfs_thread
#define jthread vfs_jthread
#define this_thread vfs_this_thread
#define counting_semaphore vfs_counting_semaphore
#define binary_semaphore vfs_binary_semaphore
#define latch vfs_latch
#undef ATOMIC_FLAG_INIT
#define ATOMIC_FLAG_INIT {}
