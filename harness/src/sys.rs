//! The few system calls std does not offer.
use std::net::TcpStream;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const u8, len: u32) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
    fn siginterrupt(sig: i32, flag: i32) -> i32;
    fn syscall(n: i64, ...) -> i64;
    fn getpid() -> i32;
    fn clock_gettime(clock: i32, t: *mut i64) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn socket(domain: i32, ty: i32, proto: i32) -> i32;
    fn bind(fd: i32, addr: *const u8, len: u32) -> i32;
    fn getsockname(fd: i32, addr: *mut u8, len: *mut u32) -> i32;
    fn setrlimit(what: i32, lim: *const u64) -> i32;
}

/// Processor time of the calling thread in seconds.
pub fn thread_time() -> f64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, t.as_mut_ptr()) };
    t[0] as f64 + t[1] as f64 / 1e9
}

pub fn tid() -> u64 {
    unsafe { syscall(186) as u64 }
}

fn set_int(s: &TcpStream, name: i32, v: i32) {
    unsafe {
        setsockopt(s.as_raw_fd(), 1, name, &v as *const i32 as *const u8, 4);
    }
}
pub fn small_rcvbuf(s: &TcpStream, n: i32) {
    set_int(s, 8, n)
}
pub fn small_sndbuf(s: &TcpStream, n: i32) {
    set_int(s, 7, n)
}
/// Closing the socket resets the connection.
pub fn linger0(s: &TcpStream) {
    let v = [1i32, 0];
    unsafe {
        setsockopt(s.as_raw_fd(), 1, 13, v.as_ptr() as *const u8, 8);
    }
}

extern "C" fn nothing(_: i32) {}

/// Interrupts the system calls of every other thread of this process while it lives.
pub struct Storm(Arc<AtomicBool>, Option<std::thread::JoinHandle<()>>);
pub fn storm(pause: Duration) -> Storm {
    unsafe {
        signal(10, nothing as extern "C" fn(i32) as usize);
        siginterrupt(10, 1);
    }
    let stop = Arc::new(AtomicBool::new(false));
    let s2 = stop.clone();
    let h = std::thread::spawn(move || {
        let me = unsafe { syscall(186) };
        let pid = unsafe { getpid() };
        while !s2.load(Ordering::Relaxed) {
            if let Ok(d) = std::fs::read_dir("/proc/self/task") {
                for e in d.flatten() {
                    if let Some(t) = e.file_name().to_str().and_then(|s| s.parse::<i64>().ok()) {
                        if t != me {
                            unsafe { syscall(234, pid as i64, t, 10i64) };
                        }
                    }
                }
            }
            std::thread::sleep(pause);
        }
    });
    Storm(stop, Some(h))
}
impl Drop for Storm {
    fn drop(&mut self) {
        self.0.store(true, Ordering::Relaxed);
        if let Some(h) = self.1.take() {
            let _ = h.join();
        }
    }
}

/// A loopback address of this process's own, so that concurrent workers never meet.
pub fn own_ip() -> String {
    use std::sync::OnceLock;
    static IP: OnceLock<String> = OnceLock::new();
    IP.get_or_init(|| {
        let p = std::process::id();
        let ip = format!("127.{}.{}.{}", 64 + ((p >> 14) & 63), (p >> 7) & 127, 1 + (p & 127));
        if std::net::TcpListener::bind((ip.as_str(), 0)).is_ok() {
            ip
        } else {
            "127.0.0.1".into()
        }
    })
    .clone()
}

/// No more than this can be on its way to a peer that has read nothing.
pub fn unread_limit(pipe: bool) -> usize {
    if pipe {
        return 2 << 20;
    }
    let max = |f: &str| std::fs::read_to_string(f).ok().and_then(|s| s.split_whitespace().last().and_then(|v| v.parse::<usize>().ok())).unwrap_or(1 << 30);
    max("/proc/sys/net/ipv4/tcp_wmem") + (4 << 20)
}

/// A child process that gets no processor time while this is held; at the end it goes on.
pub struct Frozen(i32);
pub fn freeze(pid: u32) -> Frozen {
    unsafe { kill(pid as i32, 19) };
    // the signal is delivered when every thread has stopped
    for _ in 0..1000 {
        let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
        if !matches!(s.rsplit(')').next().and_then(|t| t.split_whitespace().next()), Some("R" | "S" | "D")) {
            break;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    Frozen(pid as i32)
}
impl Drop for Frozen {
    fn drop(&mut self) {
        unsafe { kill(self.0, 18) };
    }
}

/// A port of this address that is taken but refuses connections.
pub fn bound(ip: &str) -> Option<(OwnedFd, u16)> {
    let ip: std::net::Ipv4Addr = ip.parse().ok()?;
    // AF_INET, SOCK_STREAM | SOCK_CLOEXEC
    let fd = unsafe { socket(2, 1 | 0o2000000, 0) };
    if fd < 0 {
        return None;
    }
    let fd = unsafe { OwnedFd::from_raw_fd(fd) };
    let mut a = [0u8; 16];
    a[..2].copy_from_slice(&2u16.to_ne_bytes());
    a[4..8].copy_from_slice(&ip.octets());
    let mut len = 16;
    let ok = unsafe { bind(fd.as_raw_fd(), a.as_ptr(), 16) == 0 && getsockname(fd.as_raw_fd(), a.as_mut_ptr(), &mut len) == 0 };
    ok.then(|| (fd, u16::from_be_bytes([a[2], a[3]])))
}

fn take_fds(n: usize) -> Vec<std::fs::File> {
    (0..n).map_while(|_| std::fs::File::open("/dev/null").ok()).collect()
}

/// Takes all file descriptors but `free`, under a limit of 64.
pub fn hoard(free: usize) -> Vec<std::fs::File> {
    unsafe { setrlimit(7, [64u64, 64].as_ptr()) };
    let mut v = take_fds(1000);
    v.truncate(v.len().saturating_sub(free));
    v
}
/// How many more there are.
pub fn free_fds() -> usize {
    take_fds(1000).len()
}
