fn main() {
    println!("cargo:rustc-link-arg=--export=__stack_pointer");
    println!("cargo:rustc-link-arg=-zstack-size=33554432");
}
