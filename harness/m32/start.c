extern int main(int,char**);
extern int __libc_start_main(int(*)(int,char**),int,char**,void(*)(void),void(*)(void),void(*)(void),void*);
__asm__(".globl _start\n.hidden go\n_start: xorl %ebp,%ebp\n movl %esp,%eax\n andl $-16,%esp\n subl $12,%esp\n pushl %eax\n call go\n hlt\n");
void go(int *sp){ __libc_start_main(main, sp[0], (char**)(sp+1), 0,0,0,0); }
