fn main() { h_comments::native_main() }
