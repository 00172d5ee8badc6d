#ifndef RMW__VISIBILITY_CONTROL_H_
#define RMW__VISIBILITY_CONTROL_H_
#define RMW_PUBLIC
#define RMW_PUBLIC_TYPE
#define RMW_LOCAL
#endif
