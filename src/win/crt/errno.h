#pragma once
#include "corecrt.h"
CRT_BEGIN
int* _errno(void);
#define errno (*_errno())
#define EBADF 9
#define ENOMEM 12
#define EINVAL 22
#define ENOTTY 25
#define ERANGE 34
CRT_END
