//! The library compiled for 32-bit x86 (32-bit words, a narrower range of exponents), answering one request
//! per line. The requests and answers are those of remote.rs, which the harness shares.

use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[path = "../../harness/src/remote.rs"]
mod remote;

#[cfg(target_arch = "x86")]
core::arch::global_asm!(
    r#"
    .globl _start
    .type _start,@function
_start:
    xorl %ebp, %ebp
    popl %esi
    movl %esp, %ecx
    andl $-16, %esp
    pushl %eax
    pushl %esp
    pushl %edx
    pushl $0
    pushl $0
    pushl %ecx
    pushl %esi
    call 9f
9:  popl %ebx
    addl $_GLOBAL_OFFSET_TABLE_+(.-9b), %ebx
    pushl main@GOT(%ebx)
    call *__libc_start_main@GOT(%ebx)
    hlt
"#,
    options(att_syntax)
);

static MSG: Mutex<String> = Mutex::new(String::new());

fn main() {
    std::panic::set_hook(Box::new(|i| *MSG.lock().unwrap() = i.to_string().replace('\n', " ")));
    let mut cc = remote::cache();
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        if line.starts_with("reset ") {
            cc = remote::cache();
        }
        let r = match catch_unwind(AssertUnwindSafe(|| remote::answer(&line, &mut cc))) {
            Ok(s) => s,
            Err(_) => {
                cc = remote::cache();
                format!("P:{}", MSG.lock().unwrap())
            }
        };
        if writeln!(out, "{}", r).and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}

/// The part of the C library which is only linked statically is missing here; this process never forks.
#[no_mangle]
pub extern "C" fn pthread_atfork(_: *const u8, _: *const u8, _: *const u8) -> i32 {
    0
}
