/* Entry point of a 32-bit program, in place of the C library's missing crt1.o. */
int main(int, char **);
int __libc_start_main(int (*)(int, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
__asm__(".globl _start\n"
        "_start:\n"
        "  xorl %ebp, %ebp\n"
        "  popl %esi\n"
        "  movl %esp, %ecx\n"
        "  andl $-16, %esp\n"
        "  subl $4, %esp\n"
        "  pushl %esp\n"
        "  pushl %edx\n"
        "  pushl $0\n"
        "  pushl $0\n"
        "  pushl %ecx\n"
        "  pushl %esi\n"
        "  pushl $main_\n"
        "  call __libc_start_main\n"
        "  hlt\n");
int main_(int c, char **v) { return main(c, v); }
void *__dso_handle = 0;
