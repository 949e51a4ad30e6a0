/* PHP dlopen()s extensions with RTLD_DEEPBIND, which the ASan runtime refuses. Strip the flag. */
#define _GNU_SOURCE
#include <dlfcn.h>
void *dlopen(const char *file, int flags)
{
	static void *(*real)(const char *, int);
	if (!real) {
		real = (void *(*)(const char *, int)) dlsym(RTLD_NEXT, "dlopen");
	}
	return real(file, flags & ~RTLD_DEEPBIND);
}
