fn main() { h_ungram::native_main() }
