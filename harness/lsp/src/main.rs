fn main() { h_lsp::native_main() }
