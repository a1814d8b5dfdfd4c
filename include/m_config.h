/* /repo's m_config.h refuses a second inclusion; harnesses include several sources */
#ifndef VF_M_CONFIG
#define VF_M_CONFIG
#include_next "m_config.h"
#endif
