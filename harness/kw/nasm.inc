const Kw types[] {
    { "byte", 0 },
    { "dword", 0 },
    { "far", 0 },
    { "oword", 0 },
    { "ptr", 0 },
    { "qword", 0 },
    { "tword", 0 },
    { "word", 0 },
    { "yword", 0 },
    { "zword", 0 },
};
const Kw registers[] {
    { "ah", 0 },
    { "al", 0 },
    { "ax", 0 },
    { "bh", 0 },
    { "bl", 0 },
    { "bp", 0 },
    { "bpl", 0 },
    { "bx", 0 },
    { "ch", 0 },
    { "cl", 0 },
    { "cr0", 0 },
    { "cr2", 0 },
    { "cr3", 0 },
    { "cr4", 0 },
    { "cr8", 0 },
    { "cs", 0 },
    { "cw", 0 },
    { "cx", 0 },
    { "dh", 0 },
    { "di", 0 },
    { "dil", 0 },
    { "dl", 0 },
    { "dr0", 0 },
    { "dr1", 0 },
    { "dr2", 0 },
    { "dr3", 0 },
    { "dr6", 0 },
    { "dr7", 0 },
    { "ds", 0 },
    { "dx", 0 },
    { "eax", 0 },
    { "ebp", 0 },
    { "ebx", 0 },
    { "ecx", 0 },
    { "edi", 0 },
    { "edx", 0 },
    { "eflags", 0 },
    { "eip", 0 },
    { "es", 0 },
    { "esi", 0 },
    { "esp", 0 },
    { "fs", 0 },
    { "gs", 0 },
    { "ip", 0 },
    { "k0", 0 },
    { "k1", 0 },
    { "k2", 0 },
    { "k3", 0 },
    { "k4", 0 },
    { "k5", 0 },
    { "k6", 0 },
    { "k7", 0 },
    { "mm0", 0 },
    { "mm1", 0 },
    { "mm2", 0 },
    { "mm3", 0 },
    { "mm4", 0 },
    { "mm5", 0 },
    { "mm6", 0 },
    { "mm7", 0 },
    { "r10", 0 },
    { "r10b", 0 },
    { "r10d", 0 },
    { "r10w", 0 },
    { "r11", 0 },
    { "r11b", 0 },
    { "r11d", 0 },
    { "r11w", 0 },
    { "r12", 0 },
    { "r12b", 0 },
    { "r12d", 0 },
    { "r12w", 0 },
    { "r13", 0 },
    { "r13b", 0 },
    { "r13d", 0 },
    { "r13w", 0 },
    { "r14", 0 },
    { "r14b", 0 },
    { "r14d", 0 },
    { "r14w", 0 },
    { "r15", 0 },
    { "r15b", 0 },
    { "r15d", 0 },
    { "r15w", 0 },
    { "r16", 0 },
    { "r16b", 0 },
    { "r16d", 0 },
    { "r16w", 0 },
    { "r17", 0 },
    { "r17b", 0 },
    { "r17d", 0 },
    { "r17w", 0 },
    { "r18", 0 },
    { "r18b", 0 },
    { "r18d", 0 },
    { "r18w", 0 },
    { "r19", 0 },
    { "r19b", 0 },
    { "r19d", 0 },
    { "r19w", 0 },
    { "r20", 0 },
    { "r20b", 0 },
    { "r20d", 0 },
    { "r20w", 0 },
    { "r21", 0 },
    { "r21b", 0 },
    { "r21d", 0 },
    { "r21w", 0 },
    { "r22", 0 },
    { "r22b", 0 },
    { "r22d", 0 },
    { "r22w", 0 },
    { "r23", 0 },
    { "r23b", 0 },
    { "r23d", 0 },
    { "r23w", 0 },
    { "r24", 0 },
    { "r24b", 0 },
    { "r24d", 0 },
    { "r24w", 0 },
    { "r25", 0 },
    { "r25b", 0 },
    { "r25d", 0 },
    { "r25w", 0 },
    { "r26", 0 },
    { "r26b", 0 },
    { "r26d", 0 },
    { "r26w", 0 },
    { "r27", 0 },
    { "r27b", 0 },
    { "r27d", 0 },
    { "r27w", 0 },
    { "r28", 0 },
    { "r28b", 0 },
    { "r28d", 0 },
    { "r28w", 0 },
    { "r29", 0 },
    { "r29b", 0 },
    { "r29d", 0 },
    { "r29w", 0 },
    { "r30", 0 },
    { "r30b", 0 },
    { "r30d", 0 },
    { "r30w", 0 },
    { "r31", 0 },
    { "r31b", 0 },
    { "r31d", 0 },
    { "r31w", 0 },
    { "r8", 0 },
    { "r8b", 0 },
    { "r8d", 0 },
    { "r8w", 0 },
    { "r9", 0 },
    { "r9b", 0 },
    { "r9d", 0 },
    { "r9w", 0 },
    { "rax", 0 },
    { "rbp", 0 },
    { "rbx", 0 },
    { "rcx", 0 },
    { "rdi", 0 },
    { "rdx", 0 },
    { "rflags", 0 },
    { "rip", 0 },
    { "rsi", 0 },
    { "rsp", 0 },
    { "si", 0 },
    { "sil", 0 },
    { "sp", 0 },
    { "spl", 0 },
    { "ss", 0 },
    { "st0", 0 },
    { "st1", 0 },
    { "st2", 0 },
    { "st3", 0 },
    { "st4", 0 },
    { "st5", 0 },
    { "st6", 0 },
    { "st7", 0 },
    { "sw", 0 },
    { "xmm0", 0 },
    { "xmm1", 0 },
    { "xmm10", 0 },
    { "xmm11", 0 },
    { "xmm12", 0 },
    { "xmm13", 0 },
    { "xmm14", 0 },
    { "xmm15", 0 },
    { "xmm16", 0 },
    { "xmm17", 0 },
    { "xmm18", 0 },
    { "xmm19", 0 },
    { "xmm2", 0 },
    { "xmm20", 0 },
    { "xmm21", 0 },
    { "xmm22", 0 },
    { "xmm23", 0 },
    { "xmm24", 0 },
    { "xmm25", 0 },
    { "xmm26", 0 },
    { "xmm27", 0 },
    { "xmm28", 0 },
    { "xmm29", 0 },
    { "xmm3", 0 },
    { "xmm31", 0 },
    { "xmm32", 0 },
    { "xmm4", 0 },
    { "xmm5", 0 },
    { "xmm6", 0 },
    { "xmm7", 0 },
    { "xmm8", 0 },
    { "xmm9", 0 },
    { "ymm0", 0 },
    { "ymm1", 0 },
    { "ymm10", 0 },
    { "ymm11", 0 },
    { "ymm12", 0 },
    { "ymm13", 0 },
    { "ymm14", 0 },
    { "ymm15", 0 },
    { "ymm16", 0 },
    { "ymm17", 0 },
    { "ymm18", 0 },
    { "ymm19", 0 },
    { "ymm2", 0 },
    { "ymm20", 0 },
    { "ymm21", 0 },
    { "ymm22", 0 },
    { "ymm23", 0 },
    { "ymm24", 0 },
    { "ymm25", 0 },
    { "ymm26", 0 },
    { "ymm27", 0 },
    { "ymm28", 0 },
    { "ymm29", 0 },
    { "ymm3", 0 },
    { "ymm31", 0 },
    { "ymm32", 0 },
    { "ymm4", 0 },
    { "ymm5", 0 },
    { "ymm6", 0 },
    { "ymm7", 0 },
    { "ymm8", 0 },
    { "ymm9", 0 },
    { "zmm0", 0 },
    { "zmm1", 0 },
    { "zmm10", 0 },
    { "zmm11", 0 },
    { "zmm12", 0 },
    { "zmm13", 0 },
    { "zmm14", 0 },
    { "zmm15", 0 },
    { "zmm16", 0 },
    { "zmm17", 0 },
    { "zmm18", 0 },
    { "zmm19", 0 },
    { "zmm2", 0 },
    { "zmm20", 0 },
    { "zmm21", 0 },
    { "zmm22", 0 },
    { "zmm23", 0 },
    { "zmm24", 0 },
    { "zmm25", 0 },
    { "zmm26", 0 },
    { "zmm27", 0 },
    { "zmm28", 0 },
    { "zmm29", 0 },
    { "zmm3", 0 },
    { "zmm31", 0 },
    { "zmm32", 0 },
    { "zmm4", 0 },
    { "zmm5", 0 },
    { "zmm6", 0 },
    { "zmm7", 0 },
    { "zmm8", 0 },
    { "zmm9", 0 },
};
const Kw label_instructions[] {
    { "call", 0 },
    { "ja", 0 },
    { "jae", 0 },
    { "jb", 0 },
    { "jbe", 0 },
    { "jc", 0 },
    { "jcxz", 0 },
    { "je", 0 },
    { "jecxz", 0 },
    { "jg", 0 },
    { "jge", 0 },
    { "jl", 0 },
    { "jle", 0 },
    { "jmp", 0 },
    { "jna", 0 },
    { "jnae", 0 },
    { "jnb", 0 },
    { "jnbe", 0 },
    { "jnc", 0 },
    { "jne", 0 },
    { "jng", 0 },
    { "jnge", 0 },
    { "jnl", 0 },
    { "jnle", 0 },
    { "jno", 0 },
    { "jnp", 0 },
    { "jns", 0 },
    { "jnz", 0 },
    { "jo", 0 },
    { "jp", 0 },
    { "jpe", 0 },
    { "jpo", 0 },
    { "jrcxz", 0 },
    { "js", 0 },
    { "jz", 0 },
    { "loop", 0 },
    { "loope", 0 },
    { "loopne", 0 },
    { "loopnz", 0 },
    { "loopz", 0 },
};
const Kw operator_keywords[] {
    { "seg", 0 },
    { "wrt", 0 },
};
