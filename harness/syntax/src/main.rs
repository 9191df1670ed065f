fn main() { h_syntax::native_main() }
