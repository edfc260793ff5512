.text
.globl NAME
NAME:
 nop
.section .note.GNU-stack,"",@progbits
