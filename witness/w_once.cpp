// a model of std::call_once's runtime part: runs the initialisation (in the witnesses it is idempotent)
#include <mutex>
extern "C" int pthread_once(pthread_once_t*, void (*)()) noexcept(false) { std::__once_call(); return 0; }
extern "C" int pthread_mutex_lock(pthread_mutex_t*) noexcept { return 0; }   // sequential
extern "C" int pthread_mutex_unlock(pthread_mutex_t*) noexcept { return 0; }
