#ifndef RCPPUTILS__THREAD_SAFETY_ANNOTATIONS_HPP_
#define RCPPUTILS__THREAD_SAFETY_ANNOTATIONS_HPP_
#define RCPPUTILS_TSA_CAPABILITY(x)
#define RCPPUTILS_TSA_SCOPED_CAPABILITY
#define RCPPUTILS_TSA_GUARDED_BY(x)
#define RCPPUTILS_TSA_PT_GUARDED_BY(x)
#define RCPPUTILS_TSA_ACQUIRED_BEFORE(...)
#define RCPPUTILS_TSA_ACQUIRED_AFTER(...)
#define RCPPUTILS_TSA_REQUIRES(...)
#define RCPPUTILS_TSA_REQUIRES_SHARED(...)
#define RCPPUTILS_TSA_ACQUIRE(...)
#define RCPPUTILS_TSA_ACQUIRE_SHARED(...)
#define RCPPUTILS_TSA_RELEASE(...)
#define RCPPUTILS_TSA_RELEASE_SHARED(...)
#define RCPPUTILS_TSA_TRY_ACQUIRE(...)
#define RCPPUTILS_TSA_EXCLUDES(...)
#define RCPPUTILS_TSA_RETURN_CAPABILITY(x)
#define RCPPUTILS_TSA_NO_THREAD_SAFETY_ANALYSIS
#endif
