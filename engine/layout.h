#define ARENA_BASE 0x100000000000UL
#define HEAP_SIZE  0x20000000UL   /* 512 MB */
#define STACK_SIZE 0x4000000UL    /* 64 MB */
#define ARENA_SIZE (HEAP_SIZE+STACK_SIZE)
#define NPAGES (ARENA_SIZE>>12)
