//! Deterministic work counter of a thread: executed basic blocks, bytes copied and compared, blocks
//! of memory moved by the allocator. Only counts in the build with the feature `steps`.

#[cfg(feature = "steps")]
std::arch::global_asm!(
    r#"
.section .tbss,"awT",@nobits
.p2align 3
.type mon_steps, @object
.size mon_steps, 8
mon_steps: .zero 8

.text
.globl __sanitizer_cov_trace_pc_guard
.type __sanitizer_cov_trace_pc_guard, @function
__sanitizer_cov_trace_pc_guard:
  mov rax, qword ptr mon_steps@gottpoff[rip]
  inc qword ptr fs:[rax]
  ret

.globl __sanitizer_cov_trace_pc_guard_init
__sanitizer_cov_trace_pc_guard_init:
  ret

.globl mon_steps_get
.type mon_steps_get, @function
mon_steps_get:
  mov rax, qword ptr mon_steps@gottpoff[rip]
  mov rax, qword ptr fs:[rax]
  ret

.globl mon_steps_add
.type mon_steps_add, @function
mon_steps_add:
  mov rax, qword ptr mon_steps@gottpoff[rip]
  add qword ptr fs:[rax], rdi
  ret

# Copying and comparing costs a step per 16 bytes.
.globl memcpy
.type memcpy, @function
memcpy:
  mov rcx, rdx
  shr rcx, 4
  mov rax, qword ptr mon_steps@gottpoff[rip]
  add qword ptr fs:[rax], rcx
  mov rax, rdi
  mov rcx, rdx
  rep movsb
  ret

.globl memmove
.type memmove, @function
memmove:
  mov rcx, rdx
  shr rcx, 4
  mov rax, qword ptr mon_steps@gottpoff[rip]
  add qword ptr fs:[rax], rcx
  mov rax, rdi
  mov rcx, rdi
  sub rcx, rsi
  cmp rcx, rdx
  mov rcx, rdx
  jb 2f
  rep movsb
  ret
2:
  lea rdi, [rdi + rdx - 1]
  lea rsi, [rsi + rdx - 1]
  std
  rep movsb
  cld
  ret

.globl memset
.type memset, @function
memset:
  mov rcx, rdx
  shr rcx, 4
  mov rax, qword ptr mon_steps@gottpoff[rip]
  add qword ptr fs:[rax], rcx
  mov r8, rdi
  mov eax, esi
  mov rcx, rdx
  rep stosb
  mov rax, r8
  ret

.globl memcmp
.type memcmp, @function
.globl bcmp
.type bcmp, @function
memcmp:
bcmp:
  mov rcx, rdx
  shr rcx, 4
  mov rax, qword ptr mon_steps@gottpoff[rip]
  add qword ptr fs:[rax], rcx
  xor eax, eax
  mov rcx, rdx
  test rcx, rcx
  jz 3f
  repe cmpsb
  je 3f
  movzx eax, byte ptr [rdi - 1]
  movzx ecx, byte ptr [rsi - 1]
  sub eax, ecx
3:
  ret
"#
);

#[cfg(feature = "steps")]
unsafe extern "C" {
    fn mon_steps_get() -> u64;
    fn mon_steps_add(n: u64);
}

pub const COUNTED: bool = cfg!(feature = "steps");

#[cfg(feature = "steps")]
pub fn now() -> u64 {
    unsafe { mon_steps_get() }
}

#[cfg(feature = "steps")]
pub fn add(n: u64) {
    unsafe { mon_steps_add(n) }
}

#[cfg(not(feature = "steps"))]
pub fn now() -> u64 {
    0
}

#[cfg(not(feature = "steps"))]
pub fn add(_: u64) {}
