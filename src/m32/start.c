/* program entry for i386 without the C library's development files */
extern int __libc_start_main(int (*)(int, char**, char**), int, char**, void (*)(void), void (*)(void), void (*)(void), void*);
extern int main(int, char**, char**);
int __cxa_atexit(void (*)(void*), void*, void*);
extern void* __dso_handle; 
int atexit(void (*f)(void)) { return __cxa_atexit((void (*)(void*))f, 0, 0); }
__asm__(".globl _start\n_start:\n xorl %ebp,%ebp\n popl %esi\n movl %esp,%ecx\n andl $-16,%esp\n pushl %eax\n pushl %esp\n pushl %edx\n pushl $0\n pushl $0\n pushl %ecx\n pushl %esi\n pushl $main\n call __libc_start_main\n hlt\n");
int __register_atfork(void (*)(void), void (*)(void), void (*)(void), void*);
int pthread_atfork(void (*a)(void), void (*b)(void), void (*c)(void)) { return __register_atfork(a, b, c, 0); }
