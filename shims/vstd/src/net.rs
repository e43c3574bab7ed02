//! Sockets of which only the port numbers matter.
/// The port in use by someone else, and what the kernel hands out.
static mut BUSY: [u16; 2] = [0; 2];
static mut KERNEL: [u16; 4] = [0; 4];
static mut NEXT: usize = 0;
pub fn set(busy: [u16; 2], kernel: [u16; 4]) {
    unsafe {
        BUSY = busy;
        KERNEL = kernel;
        NEXT = 0;
    }
}
/// How often the kernel chose.
pub fn asked() -> usize {
    unsafe { NEXT }
}
fn bind(p: u16) -> ::std::io::Result<u16> {
    unsafe {
        if p == 0 {
            vk::limit(NEXT < 4);
            NEXT += 1;
            let p = KERNEL[NEXT - 1];
            return if p == 0 { Err(::std::io::Error::from(::std::io::ErrorKind::AddrInUse)) } else { Ok(p) };
        }
        if p == BUSY[0] || p == BUSY[1] {
            return Err(::std::io::Error::from(::std::io::ErrorKind::AddrInUse));
        }
        Ok(p)
    }
}
pub struct Addr(u16);
impl Addr {
    pub fn port(&self) -> u16 {
        self.0
    }
}
macro_rules! sock {
    ($($n:ident)*) => { $(
        pub struct $n(u16);
        impl $n {
            pub fn bind(a: (&str, u16)) -> ::std::io::Result<Self> {
                bind(a.1).map($n)
            }
            pub fn local_addr(&self) -> ::std::io::Result<Addr> {
                Ok(Addr(self.0))
            }
        }
    )* };
}
sock! { TcpListener UdpSocket }
