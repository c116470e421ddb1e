//! Stubs of library functions (see DESIGN.md).
/// `format!` only builds error and log text, which no property mentions.
pub fn fmt_stub(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}

/// Errors are values without content: no property mentions their text.
#[cfg(kani)]
pub fn err_stub<T: AsRef<str> + std::fmt::Display>(_: T) -> asn1_codecs::aper::AperCodecError {
    // A String and a Vec<String>, both empty.
    unsafe { std::mem::transmute([Vec::<String>::new(), Vec::<String>::new()]) }
}

/// `core::str::from_utf8` by the well-formedness table of Unicode (table 3-7), for short strings.
#[cfg(kani)]
pub fn utf8_stub(b: &[u8]) -> Result<&str, std::str::Utf8Error> {
    // More octets expected, and the range of the next one.
    let (mut more, mut lo, mut hi) = (0u8, 0x80u8, 0xbfu8);
    let mut ok = true;
    let mut i = 0;
    while i < b.len() {
        let x = b[i];
        if more > 0 {
            ok &= x >= lo && x <= hi;
            more -= 1;
            lo = 0x80;
            hi = 0xbf;
        } else if x >= 0x80 {
            ok &= x >= 0xc2 && x <= 0xf4;
            more = if x < 0xe0 { 1 } else if x < 0xf0 { 2 } else { 3 };
            lo = if x == 0xe0 { 0xa0 } else if x == 0xf0 { 0x90 } else { 0x80 };
            hi = if x == 0xed { 0x9f } else if x == 0xf4 { 0x8f } else { 0xbf };
        }
        i += 1;
    }
    if !ok || more != 0 {
        return Err(unsafe { std::mem::zeroed() });
    }
    Ok(unsafe { std::str::from_utf8_unchecked(b) })
}

