fn main() {
    for f in ["epoll_create1", "eventfd", "epoll_ctl", "epoll_wait", "fcntl", "ioctl", "accept4", "recv", "send", "read", "write", "close", "shutdown", "setsockopt"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap={f}");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
