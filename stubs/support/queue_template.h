/* Shrinks the capacity of every queue instantiated from the real template
 * (the template itself is /repo's). */
#ifndef VP_QUEUE_CAP
#define VP_QUEUE_CAP 3
#endif
#ifdef QUEUE_SIZE
#undef QUEUE_SIZE
#define QUEUE_SIZE VP_QUEUE_CAP
#endif
#include_next <support/queue_template.h>
