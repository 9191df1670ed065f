//! Stand-in: only escaping.
pub fn escape_into(text: &str, buf: &mut String) {
    for c in text.chars() {
        if matches!(c, '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$' | '#' | '&' | '-' | '~') {
            buf.push('\\');
        }
        buf.push(c);
    }
}
