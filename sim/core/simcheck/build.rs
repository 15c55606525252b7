fn main() {
    // The interposed libc functions must be found by dlsym and by shared libraries too.
    println!("cargo:rustc-link-arg-bins=-rdynamic");
}
