// Calls a routine with up to 4 integer arguments and reports which callee-saved registers it failed to preserve.
#pragma once
#include <cstdint>
extern "C" uint64_t vp_tramp(void *fn, uint64_t a0, uint64_t a1, uint64_t a2, uint64_t *bad);
#ifndef VP_NO_TRAMP
asm(R"(
        .text
        .globl vp_tramp
vp_tramp:
        push %rbx
        push %rbp
        push %r12
        push %r13
        push %r14
        push %r15
        push %r8
        mov %rdi, %rax
        mov %rsi, %rdi
        mov %rdx, %rsi
        mov %rcx, %rdx
        movabs $0x1122334455667701, %rbx
        movabs $0x1122334455667702, %r12
        movabs $0x1122334455667703, %r13
        movabs $0x1122334455667704, %r14
        movabs $0x1122334455667705, %r15
        mov %rsp, %rbp
        call *%rax
        xor %ecx, %ecx
        cmp %rsp, %rbp
        je 1f
        or $32, %ecx
1:      movabs $0x1122334455667701, %rdx
        cmp %rdx, %rbx
        je 1f
        or $1, %ecx
1:      inc %rdx
        cmp %rdx, %r12
        je 1f
        or $2, %ecx
1:      inc %rdx
        cmp %rdx, %r13
        je 1f
        or $4, %ecx
1:      inc %rdx
        cmp %rdx, %r14
        je 1f
        or $8, %ecx
1:      inc %rdx
        cmp %rdx, %r15
        je 1f
        or $16, %ecx
1:      pop %r8
        mov %rcx, (%r8)
        pop %r15
        pop %r14
        pop %r13
        pop %r12
        pop %rbp
        pop %rbx
        ret
        .section .note.GNU-stack,"",@progbits
        .text
)");
#endif
