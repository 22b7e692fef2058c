use crate::rt::*;
use haproxy_spop::{Framer, Frame};
#[no_mangle]
pub extern "C" fn h_decode9() {
    let mut b = any::<12>();
    b[0]=0;b[1]=0;b[2]=0;b[3]=8;
    let framer = Framer::new(64);
    let mut r = &b[..];
    match now(framer.read_frame(&mut r)) { Some(Ok(Frame::HaproxyNotify(_))) => {cover(1); check(true, "x")}, Some(_) => cover(2), _ => check(false, "pending") }
}
